"""C14 joins, C15 splits."""
from spec import *
from terms import *
from obl_view import lt, le


def obls(deep=False):
    out = []

    def ob(prop, name, root, args, expect, facts=(), **kw):
        out.append(Ob(prop, name, 'join::' + root, args, expect, facts, **kw))

    top = 5 if deep else 4
    p, s, t = sym('p', 1), sym('s', 1), sym('t', 1)
    n = sym('n', 1)

    def put(d, j, x):
        return d[:j] + [x] + d[j + 1:]

    def catsel(j, p, s, a, b, c=None):
        def f(k):
            k = list(k)
            rest = a.at(k)
            z = b.at(k[:j] + [k[j] - p] + k[j + 1:])
            if c is not None:
                z = mkG(lt(k[j], p + s), z, c.at(k[:j] + [k[j] - p - s] + k[j + 1:]))
            return mkG(lt(k[j], p), rest, z)
        return f

    for r in range(1, top + 1):
        d = dims('d', r)
        for j in range(r):
            a, b, c = (Tin(nm, put(d, j, x)) for nm, x in (('a', p), ('b', s), ('c', t)))
            e2, e3 = put(d, j, p + s), put(d, j, p + s + t)
            w1 = Ten(put(d, j, p), lambda k, a=a: a.at(k))
            w2 = Ten(e2, catsel(j, p, s, a, b), {j: [(ZERO, p), (p, s)]})
            w3 = Ten(e3, catsel(j, p, s, a, b, c), {j: [(ZERO, p), (p, s), (p + s, t)]})
            for ax in (j, j - r):
                nm = 'r%d axis %d' % (r, ax)
                ob('C14', 'concatenate_axis1 ' + nm, 'cat_axis1', [a, ax], w1)
                ob('C14', 'concatenate_axis2 ' + nm, 'cat_axis2', [a, b, ax], w2)
                if r <= 3 or deep:
                    ob('C14', 'concatenate_axis3 ' + nm, 'cat_axis3', [a, b, c, ax], w3)
                ob('C14', 't.concatenate_axis ' + nm, 'm_cat_axis2', [a, b, ax], w2)
                for x in range(r):
                    if x != j:
                        w = sym('w', 1)
                        bad = put(put(d, j, s), x, w)
                        ob('C14', 'concatenate_axis mismatch %s at %d' % (nm, x), 'cat_axis2', [a, Tin('b', bad), ax], PANIC, (bnot(eq(w, d[x])),))
                ob('C14', 'concatenate_axis rank mismatch ' + nm, 'cat_axis2', [a, Tin('b', put(d, j, s) + [ONE]), ax], PANIC)
                ob('C14', 'concatenate_axis rank mismatch lead ' + nm, 'cat_axis2', [a, Tin('b', [ONE] + put(d, j, s)), ax], PANIC)
            if j == 0:
                nm = 'r%d' % r
                ob('C14', 'concatenate1 ' + nm, 'cat1', [a], w1)
                ob('C14', 'concatenate2 ' + nm, 'cat2', [a, b], w2)
                ob('C14', 'concatenate3 ' + nm, 'cat3', [a, b, c], w3)
                ob('C14', 'concatenate_axis none ' + nm, 'cat_axis_none2', [a, b], w2)
                ob('C14', 't.concatenate ' + nm, 'm_cat2', [a, b], w2)
                ob('C14', 't.concatenate3 ' + nm, 'm_cat3', [a, b, c], w3)
                tot = prod(d)
                ob('C14', 'concatenate many ' + nm, 'cat_many', [storage('v', n * tot), n, vec(d)],
                   Ten([n * d[0]] + d[1:], lambda k, d=d: T('get', ('v', flat(k, d)))))
            if r == 1 or j == 1:
                ob('C14', 'hstack2 r%d' % r, 'hstack2', [a, b], w2)
                ob('C14', 'hstack3 r%d' % r, 'hstack3', [a, b, c], w3)
            if r >= 2 and j == 1:
                for x in range(r):
                    if x != 1:
                        w = sym('w', 1)
                        ob('C14', 'hstack mismatch r%d at %d' % (r, x), 'hstack2', [a, Tin('b', put(put(d, 1, s), x, w))], PANIC, (bnot(eq(w, d[x])),))
    for r in range(0, top):
        d = dims('d', r)
        a, b, c = (Tin(nm, d) for nm in 'abc')
        tot = prod(d)

        def pick(i, k, a=a, b=b, c=c, m=2):
            z = b.at(k)
            if m == 3:
                z = mkG(eq(i, ONE), z, c.at(k))
            if m == 1:
                return a.at(k)
            return mkG(eq(i, ZERO), a.at(k), z)
        for j in range(r + 1):
            def w(m, j=j, d=d, pick=pick):
                return Ten(d[:j] + [toP(m)] + d[j:], lambda k: pick(k[j], list(k[:j]) + list(k[j + 1:]), m=m))
            for ax in (j, j - r - 1):
                nm = 'r%d axis %d' % (r, ax)
                ob('C14', 'stack_axis1 ' + nm, 'stack_axis1', [a, ax], w(1))
                ob('C14', 'stack_axis2 ' + nm, 'stack_axis2', [a, b, ax], w(2))
                ob('C14', 'stack_axis3 ' + nm, 'stack_axis3', [a, b, c, ax], w(3))
                ob('C14', 't.stack ' + nm, 'm_stack2', [a, b, ax], w(2))
                ob('C14', 'stack_axis many ' + nm, 'stack_axis_many', [storage('v', n * tot), n, vec(d), ax],
                   Ten(d[:j] + [n] + d[j:], lambda k, d=d, j=j, tot=tot: T('get', ('v', k[j] * tot + flat(list(k[:j]) + list(k[j + 1:]), d)))))
                for x in range(r):
                    q = sym('w', 1)
                    ob('C14', 'stack_axis mismatch %s at %d' % (nm, x), 'stack_axis2', [a, Tin('b', put(d, x, q)), ax], PANIC, (bnot(eq(q, d[x])),))
                if r > 1:
                    ob('C14', 'stack_axis swapped ' + nm, 'stack_axis2', [a, Tin('b', d[:-2] + [d[-1], d[-2]]), ax], PANIC, (bnot(eq(d[-1], d[-2])),))
                ob('C14', 'stack_axis rank mismatch ' + nm, 'stack_axis2', [a, Tin('b', [ONE] + d), ax], PANIC)
            if j == 0:
                nm = 'r%d' % r
                ob('C14', 'stack1 ' + nm, 'stack1', [a], w(1))
                ob('C14', 'stack2 ' + nm, 'stack2', [a, b], w(2))
                ob('C14', 'stack3 ' + nm, 'stack3', [a, b, c], w(3))
                ob('C14', 'stack many ' + nm, 'stack_many', [storage('v', n * tot), n, vec(d)],
                   Ten([n] + d, lambda k, d=d: T('get', ('v', flat(k, [n] + d)))))
                ob('C14', 'vstack2 ' + nm, 'vstack2', [a, b], w(2))
                ob('C14', 'vstack3 ' + nm, 'vstack3', [a, b, c], w(3))
                ob('C14', 't.vstack ' + nm, 'm_vstack2', [a, b], w(2))
                for x in range(r):
                    q = sym('w', 1)
                    ob('C14', 'vstack mismatch %s at %d' % (nm, x), 'vstack2', [a, Tin('b', put(d, x, q))], PANIC, (bnot(eq(q, d[x])),))
                for f in ('list_vec', 'list_vecref', 'list_slice', 'list_arr', 'list_arrref', 'list_sliceref'):
                    ob('C14', '%s %s' % (f, nm), f, [a, b], w(2))
                e4 = Tin('d', d)
                e5 = Tin('e', d)
                if r <= 2:
                    ob('C14', 'list_tup4 ' + nm, 'list_tup4', [a, b, c, e4], Ten([toP(4)] + d, lambda k, ts=(a, b, c, e4): chain(k, ts)))
                    ob('C14', 'list_tup5 ' + nm, 'list_tup5', [a, b, c, e4, e5], Ten([toP(5)] + d, lambda k, ts=(a, b, c, e4, e5): chain(k, ts)))
        if 1 <= r:
            if r == 1:
                de, at = [ONE, d[0]], lambda k: [k[1]]
            elif r == 2:
                de, at = d, lambda k: list(k[:2])
            if r <= 2:
                ob('C14', 'dstack2 r%d' % r, 'dstack2', [a, b], Ten(de + [toP(2)], lambda k, at=at, pick=pick: pick(k[2], at(k))))
                ob('C14', 'dstack3 r%d' % r, 'dstack3', [a, b, c], Ten(de + [toP(3)], lambda k, at=at, pick=pick: pick(k[2], at(k), m=3)))
                ob('C14', 't.dstack r%d' % r, 'm_dstack2', [a, b], Ten(de + [toP(2)], lambda k, at=at, pick=pick: pick(k[2], at(k))))
            else:
                ob('C14', 'dstack2 r%d' % r, 'dstack2', [a, b], Ten(put(d, 2, 2 * d[2]), catsel(2, d[2], d[2], a, b), {2: [(ZERO, d[2]), (d[2], d[2])]}))
            for x in range(min(r, 2)):
                q = sym('w', 1)
                ob('C14', 'dstack mismatch r%d at %d' % (r, x), 'dstack2', [a, Tin('b', put(d, x, q))], PANIC, (bnot(eq(q, d[x])),))
    N = sym('N', 0)
    two = Ten([toP(2), N], lambda k: mkG(eq(k[0], ZERO), T('get', ('a', k[1])), T('get', ('b', k[1]))))
    N1 = sym('N', 1)
    two = Ten([toP(2), N1], lambda k: mkG(eq(k[0], ZERO), T('get', ('a', k[1])), T('get', ('b', k[1]))))
    for f in ('list_vecvec', 'list_slicevec', 'list_arrvec', 'list_arrrefvec', 'list_vecrefvec', 'list_slicerefvec'):
        ob('C14', f, f, [storage('a', N1), storage('b', N1)], two)
    for r in (1, 2, 3):
        d = dims('d', r)
        a = Tin('a', d)
        o, o2, m, m2 = sym('o', 0), sym('o2', 0), sym('m', 1), sym('m2', 1)
        ob('C14', 'concatenate views of one tensor r%d' % r, 'cat_sh', [a, o, m, o2, m2],
           Ten([m + m2] + d[1:], lambda k, a=a, o=o, o2=o2, m=m: mkG(lt(k[0], m), a.at([k[0] + o] + list(k[1:])), a.at([k[0] - m + o2] + list(k[1:]))),
               {0: [(ZERO, m), (m, m2)]}), (le(o + m, d[0]), le(o2 + m2, d[0])))
        ob('C14', 'stack views of one tensor r%d' % r, 'stack_sh', [a, o, o2, m],
           Ten([toP(2), m] + d[1:], lambda k, a=a, o=o, o2=o2: mkG(eq(k[0], ZERO), a.at([k[1] + o] + list(k[2:])), a.at([k[1] + o2] + list(k[2:])))),
           (le(o + m, d[0]), le(o2 + m, d[0])))
    # ---------------------------------------------------------------- splits
    for r in range(1, top + 1):
        d = dims('d', r)
        for j in range(r):
            roots = [('split_axis', (j,)), ('split_axis', (j - r,))]
            if j == 0:
                roots += [('split', ()), ('vsplit', ())]
            if j == 1:
                roots.append(('hsplit', ()))
            if j == 2:
                roots.append(('dsplit', ()))
            q = sym('q', 1)

            def piece(a, dd, lo, m, j=j):
                return Ten(dd[:j] + [m] + dd[j + 1:], lambda k: a.at(list(k[:j]) + [k[j] + lo] + list(k[j + 1:])))
            for root, ax in roots:
                nm = '%s r%d %s' % (root, r, ax)
                for m in (1, 2, 3, 4):
                    if m == 4 and r > 2 and not deep:
                        continue
                    dd = put(d, j, m * q)
                    a = Tin('a', dd)
                    ob('C15', '%s equal %d' % (nm, m), root + '_n', [a] + list(ax) + [m],
                       Lst(m, lambda i, a=a, dd=dd, piece=piece: piece(a, dd, i * q, q)), tensor=True)
                    if m > 1:
                        a = Tin('a', d)
                        ob('C15', '%s not divisible %d' % (nm, m), root + '_n', [a] + list(ax) + [m], PANIC,
                           (bnot(eq0(smod_(d[j], toP(m)))),))
                a = Tin('a', d)
                c0, c1 = sym('c0', 0), sym('c1', 0)
                L = d[j]

                def pieces(cs, a=a, d=d, piece=piece):
                    ps = [piece(a, d, x, y - x) for x, y in zip(cs, cs[1:])]
                    return Lst(len(ps), lambda i: ps[i.const()])
                rc = root + '_c'
                ob('C15', nm + ' no cuts', rc, [a] + list(ax) + [vec([])], pieces([ZERO, L]), tensor=True)
                ob('C15', nm + ' one cut', rc, [a] + list(ax) + [vec([c0])], pieces([ZERO, c0, L]), (lt(ZERO, c0), lt(c0, L)), tensor=True)
                ob('C15', nm + ' cut at 0', rc, [a] + list(ax) + [vec([ZERO])], pieces([ZERO, L]), tensor=True)
                ob('C15', nm + ' cut at end', rc, [a] + list(ax) + [vec([L])], pieces([ZERO, L]), tensor=True)
                ob('C15', nm + ' two cuts', rc, [a] + list(ax) + [vec([c0, c1])], pieces([ZERO, c0, c1, L]),
                   (lt(ZERO, c0), lt(c0, c1), lt(c1, L)), tensor=True)
                ob('C15', nm + ' repeated cut', rc, [a] + list(ax) + [vec([c0, c0])], pieces([ZERO, c0, L]), (lt(ZERO, c0), lt(c0, L)), tensor=True)
                ob('C15', nm + ' cut beyond', rc, [a] + list(ax) + [vec([c0])], PANIC, (lt(L, c0),))
                ob('C15', nm + ' cuts out of order', rc, [a] + list(ax) + [vec([c0, c1])], PANIC, (lt(c1, c0), lt(c0, L)))
        if r <= 2:
            c0, c1 = sym('c0', 0), sym('c1', 0)
            a = Tin('a', d)
            ps = [Ten([y - x] + d[1:], lambda k, x=x, a=a: a.at([k[0] + x] + list(k[1:]))) for x, y in ((ZERO, c0), (c0, c1), (c1, d[0]))]
            want = Lst(3, lambda i, ps=ps: ps[i.const()])
            fs = (lt(ZERO, c0), lt(c0, c1), lt(c1, d[0]))
            ob('C15', 'split array r%d' % r, 'split_arr', [a, c0, c1], want, fs, tensor=True)
            ob('C15', 'split slice r%d' % r, 'split_sl', [a, vec([c0, c1])], want, fs, tensor=True)
            ob('C15', 'split &vec r%d' % r, 'split_vr', [a, vec([c0, c1])], want, fs, tensor=True)
    return out


def chain(k, ts):
    z = ts[-1].at(k[1:])
    for i in range(len(ts) - 2, -1, -1):
        z = mkG(eq(k[0], toP(i)), ts[i].at(k[1:]), z)
    return z


def smod_(a, b):
    from prover import smod as s, Facts
    return s(toP(a), toP(b), Facts())
