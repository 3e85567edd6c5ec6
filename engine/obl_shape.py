"""C08, C09: shapes as lists of dimensions; axis resolution."""
from spec import *
from terms import *

MAXR = 6


def R(ds):
    return Tup(Lst(len(ds), lambda i: toP(ds[i.const()])), toP(len(ds)), prod(ds))


def obls(deep=False):
    out = []

    def ob(name, root, args, expect, facts=(), prop='C08'):
        out.append(Ob(prop, name, 'shape::' + root, args, expect, facts))

    v = sym('v', 0)
    for r in range(0, MAXR + 1):
        d = dims('d', r, 0)
        dp = dims('d', r, 1)
        n = 'r%d' % r
        ob('from_slice ' + n, 'from_slice', [vec(d)], R(d))
        ob('from_vec ' + n, 'from_vec', [vec(dp)], R(dp))
        ob('clone ' + n, 'clone', [vec(d)], R(d))
        ob('from_ref ' + n, 'from_ref', [vec(d)], R(d))
        ob('size ' + n, 'size', [vec(d)], prod(d))
        ob('rank ' + n, 'rank', [vec(d)], toP(r))
        ob('len ' + n, 'len', [vec(d)], d[0] if r else PANIC)
        ob('cols ' + n, 'cols', [vec(d)], d[-1] if r else ZERO)
        ob('rows ' + n, 'rows', [vec(d)], d[-2] if r > 1 else ZERO)
        for i in range(0, r + 2):
            ob('dim %s %d' % (n, i), 'dim', [vec(d), i], d[i] if i < r else PANIC)
            if i < r:
                ob('rdim %s %d' % (n, i), 'rdim', [vec(d), i], d[r - 1 - i])
            for nm in ('with_dim', 'replace'):
                ob('%s %s %d' % (nm, n, i), nm, [vec(d), i, v], R(d[:i] + [v] + d[i + 1:]) if i < r else PANIC)
            j = r - 1 - i
            ob('rreplace %s %d' % (n, i), 'rreplace', [vec(d), i, v], R(d[:j] + [v] + d[j + 1:]) if i < r else PANIC)
            ob('remove %s %d' % (n, i), 'remove', [vec(d), i], R(d[:i] + d[i + 1:]) if i < r else PANIC)
            ob('rremove %s %d' % (n, i), 'rremove', [vec(d), i], R(d[:j] + d[j + 1:]) if i < r else PANIC)
            okr = i <= r and r < MAXR
            ob('insert %s %d' % (n, i), 'insert', [vec(d), i, v], R(d[:i] + [v] + d[i:]) if okr else PANIC)
            j = r - i
            ob('rinsert %s %d' % (n, i), 'rinsert', [vec(d), i, v], R(d[:j] + [v] + d[j:]) if okr else PANIC)
            for j in range(0, r + 2):
                if i <= j:
                    ob('sublen %s %d %d' % (n, i, j), 'sublen', [vec(d), i, j], prod(d[i:j]) if j <= r else PANIC)
                    if j <= r:
                        ob('rsublen %s %d %d' % (n, i, j), 'rsublen', [vec(d), i, j], prod(d[r - j:r - i]))
            if i <= r:
                ob('batch_len %s %d' % (n, i), 'batch_len', [vec(d), i], prod(d[:r - i]))
        for i in range(-r, r):
            ob('idim %s %d' % (n, i), 'idim', [vec(d), i], d[i])
        ob('with_cols ' + n, 'with_cols', [vec(d), v], R(d[:-1] + [v]) if r else PANIC)
        ob('with_rows ' + n, 'with_rows', [vec(d), v], R(d[:-2] + [v] + d[-1:]) if r > 1 else PANIC)
        ob('push ' + n, 'push', [vec(d), v], R([v] + d) if r < MAXR else PANIC)
        ob('pop ' + n, 'pop', [vec(d)], R(d[1:]) if r else PANIC)
        for k in range(0, 4):
            e = dims('e', k, 0)
            ob('append %s %d' % (n, k), 'append', [vec(d), vec(e)], R(e[::-1] + d) if r + k <= MAXR else PANIC)
        for i in range(-r - 1, r + 1):
            j = i if i >= 0 else r + 1 + i
            ob('expand_dims %s %d' % (n, i), 'expand_dims', [vec(dp), i], R(dp[:j] + [ONE] + dp[j:]) if r < MAXR else PANIC)
        ob('expand_dims %s %d' % (n, r + 1), 'expand_dims', [vec(dp), r + 1], PANIC)
        ob('reduce ' + n, 'reduce', [vec(d)], R(d[:-1]) if r > 1 else R([ONE]))
        # squeeze: every placement of ones among dims of at least two
        if r:
            for m in range(1 << r):
                q = [ONE if m >> i & 1 else sym('g%d' % i, 2) for i in range(r)]
                left = [x for x in q if x != ONE] or [ONE]
                if r <= 4 or m % 5 == 0 or deep:
                    ob('squeeze %s %x' % (n, m), 'squeeze', [vec(q)], R(left))
            for i in range(-r, r):
                j = i % r
                q = list(d)
                q[j] = ONE
                ob('squeeze_axis %s %d one' % (n, i), 'squeeze_axis', [vec(q), i], R((q[:j] + q[j + 1:]) or [ONE]))
                q = list(d)
                q[j] = sym('gm', 2)
                ob('squeeze_axis %s %d other' % (n, i), 'squeeze_axis', [vec(q), i], R(q))
        # broadcasting
        for s in range(0, MAXR + 1):
            if abs(r - s) > 2 and r + s > 6 and not deep:
                continue
            m = min(r, s)
            tail = dims('t', m, 0)
            a = dims('a', r - m, 0) + tail
            b = dims('b', s - m, 0) + tail
            big = a if r >= s else b
            nm = '%s %d' % (n, s)
            ob('broadcast ' + nm, 'broadcast', [vec(a), vec(b)], prod(big))
            ob('check_broadcast ' + nm, 'check_broadcast', [vec(a), vec(b)], ANY)
            ob('broadcast_to ' + nm, 'broadcast_to', [vec(a), vec(b)], R(big))
            for x in range(m):
                b2 = list(b)
                b2[len(b2) - 1 - x] = sym('w', 0)
                fa = (bnot(eq(sym("w", 0), a[len(a) - 1 - x])),)
                for nm2 in ('broadcast', 'check_broadcast', 'broadcast_to'):
                    ob('%s %s mismatch %d' % (nm2, nm, x), nm2, [vec(a), vec(b2)], PANIC, fa)
            # equality of shapes is equality of lists
            if r == s:
                e = dims('e', r, 0)
                same = band(*[eq(x, y) for x, y in zip(d, e)])
                ob('eq ' + n, 'eq', [vec(d), vec(e)], same)
                ob('ne ' + n, 'ne', [vec(d), vec(e)], bnot(same))
            else:
                ob('eq %s' % nm, 'eq', [vec(d), vec(dims('e', s, 0))], FALSE)
                ob('ne %s' % nm, 'ne', [vec(d), vec(dims('e', s, 0))], TRUE)
        # ... also after operations which leave unused dimensions behind
        if r:
            e = dims('e', r - 1, 0)
            for i in range(r):
                same = band(*[eq(x, y) for x, y in zip(d[:i] + d[i + 1:], e)])
                ob('eq after remove %s %d' % (n, i), 'eq_remove', [vec(d), i, vec(e)], same)
            ob('eq after pop ' + n, 'eq_pop', [vec(d), vec(e)], band(*[eq(x, y) for x, y in zip(d[1:], e)]))
            q = [sym('g%d' % i, 2) for i in range(r)]
            for i in range(r):
                q2 = list(q)
                q2[i] = ONE
                w = (q2[:i] + q2[i + 1:]) or [ONE]
                e2 = dims('e', len(w), 0)
                ob('eq after squeeze %s %d' % (n, i), 'eq_squeeze', [vec(q2), vec(e2)], band(*[eq(x, y) for x, y in zip(w, e2)]))
    for k in (7, 8):
        ob('from_slice r%d' % k, 'from_slice', [vec(dims('d', k, 0))], PANIC)
        ob('from_vec r%d' % k, 'from_vec', [vec(dims('d', k, 1))], PANIC)
    for k in range(5):
        d = dims('d', k, 0)
        ob('from_arr r%d' % k, 'from_arr%d' % k, [Agg('array', None, 0, tuple(d))] if k else [], R(d))
    x = sym('x', 0)
    ob('from_usize', 'from_usize', [x], R([x]))
    y = sym('y', 1)
    ob('vector', 'vector', [y], R([y]))
    ob('scalar', 'scalar', [], R([]))
    # tensors report their shape
    for r in range(0, 5):
        d = dims('d', r, 1)
        for nm, w in (('t_rank', toP(r)), ('t_len', d[0] if r else PANIC), ('t_cols', d[-1] if r else ZERO),
                      ('t_rows', d[-2] if r > 1 else ZERO)):
            ob('%s r%d' % (nm, r), nm, [Tin('a', d)], w)
        for i in range(r + 1):
            ob('t_dim r%d %d' % (r, i), 't_dim', [Tin('a', d), i], d[i] if i < r else PANIC)
            if i < r:
                ob('t_rdim r%d %d' % (r, i), 't_rdim', [Tin('a', d), i], d[r - 1 - i])

    # ---------------------------------------------------------------- C09
    for r in range(1, MAXR + 1):
        d = dims('d', r, 1)
        for i in range(-r, r):
            j = i % r
            n = 'r%d %d' % (r, i)
            ob('axis_from_rank ' + n, 'axis_from_rank', [i, r], toP(j), prop='C09')
            if r == 1:
                w = Tup(Lst(0, None), ONE, d[0], ONE)
            else:
                rest = d[:j] + d[j + 1:]
                w = Tup(Lst(len(rest), lambda k, rest=rest: rest[k.const()]), prod(d[:j]), d[j], prod(d[j + 1:]))
            ob('axis_reduce ' + n, 'axis_reduce', [vec(d), i], w, prop='C09')
            m = sym('m', 1)
            if r > 1 and j == r - 1:
                ob('axis_reduce_row ' + n, 'axis_reduce_row', [vec(d), m, i], PANIC, prop='C09')
            elif r > 1:
                rest = d[:j] + d[j + 1:r - 1] + [m]
                w = Tup(Lst(len(rest), lambda k, rest=rest: rest[k.const()]), prod(d[:j]), d[j], prod(d[j + 1:r - 1]))
                ob('axis_reduce_row ' + n, 'axis_reduce_row', [vec(d), m, i], w, prop='C09')
        ob('axis none r%d' % r, 'axis_none_from_rank', [r], ZERO, prop='C09')
        ob('axis_reduce none r%d' % r, 'axis_reduce_none', [vec(d)], Tup(Lst(0, None), ONE, prod(d), ONE), prop='C09')
        ob('axis_reduce_row none r%d' % r, 'axis_reduce_row_none', [vec(d), m],
           Tup(Lst(1, lambda k: m), ONE, prod(d[:-1]), ONE), prop='C09')
    for i in (-6, -3, -1, 0, 1, 2, 5):
        ob('axis get %d' % i, 'axis_get', [i], Opt(TRUE, toP(i)), prop='C09')
        ob('axis get opt %d' % i, 'axis_get_opt', [i], Opt(TRUE, toP(i)), prop='C09')
    ob('axis get none', 'axis_get_none', [], Opt(FALSE, ZERO), prop='C09')
    return out
