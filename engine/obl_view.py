"""C06 element access, C07 views, C22 equality/ordering, constructors (C03, C21), raw wraps (C02)."""
from spec import *
from terms import *


def lt(a, b):
    return ge0(toP(b) - toP(a) - 1)


def le(a, b):
    return ge0(toP(b) - toP(a))


def seqt(n, fn):
    n = toP(n)
    return seq_(n, fn)


def some(v):
    return Agg('adt', None, 1, (v,))


def obls(deep=False):
    out = []

    def ob(prop, name, root, args, expect, facts=(), **kw):
        out.append(Ob(prop, name, 'view::' + root, args, expect, facts, **kw))

    def acc(prop, name, root, args, expect, facts=()):
        ob(prop, name, root, args, expect, facts, tensor=True)

    i, j = sym('i', 0), sym('j', 0)
    top = 6
    for r in range(0, top + 1):
        d = dims('d', r)
        a = Tin('a', d)
        n = 'r%d' % r
        tot = prod(d)
        whole = Ten(d, lambda k, a=a: a.at(k))
        # C06 ------------------------------------------------------------
        acc('C06', 'ident ' + n, 'ident', [a], whole)
        acc('C06', 'size ' + n, 'size', [a], tot)
        acc('C06', 'get in ' + n, 'get', [a, i], some(a.flat(i)), (lt(i, tot),))
        acc('C06', 'get out ' + n, 'get', [a, i], Agg('adt', None, 0, ()), (le(tot, i),))
        acc('C06', 'index ' + n, 'idx1', [a, i], a.flat(i), (lt(i, tot),))
        acc('C06', 'index out ' + n, 'idx1', [a, i], PANIC, (le(tot, i),))
        for nm in ('as_slice', 'deref', 'asref', 'iter', 'into_iter'):
            acc('C06', '%s %s' % (nm, n), nm, [a], Lst(tot, lambda k, a=a: a.flat(k)))
        if r > 1:
            acc('C06', 'iter_row ' + n, 'iter_row', [a], Lst(prod(d[:-1]), lambda k, a=a, d=d: T('row', (
                k, ZERO, seq_(d[-1], lambda q: a.flat(k * d[-1] + q))))))
        else:
            acc('C06', 'iter_row ' + n, 'iter_row', [a], Lst(tot, lambda k, a=a: T('row', (k, ZERO, T('list', (a.flat(k),))))))
        acc('C02', 'as_ptr ' + n, 'as_ptr', [a], a.flat(ZERO))
        acc('C02', 'wrap_ptr in ' + n, 'wrap_ptr', [a, i], a.flat(i), (lt(i, tot),))
        acc('C02', 'wrap_ptr out ' + n, 'wrap_ptr', [a, i], a.flat(smod(i, tot)), (le(tot, i),))
        acc('C02', 'wrap in ' + n, 'wrap', [a, i], Lst(tot - i, lambda k, a=a: a.flat(i + k)), (lt(i, tot),))
        acc('C02', 'wrap out ' + n, 'wrap', [a, i], Lst(tot - smod(i, tot), lambda k, a=a, tot=tot: a.flat(smod(i, tot) + k)), (le(tot, i),))
        acc('C02', 'wrap_n in ' + n, 'wrap_n', [a, i, j], Lst(j, lambda k, a=a: a.flat(i + k)), (lt(i, tot), le(i + j, tot)))
        acc('C02', 'wrap_n out ' + n, 'wrap_n', [a, i, j], Lst(j, lambda k, a=a, tot=tot: a.flat(smod(i, tot) + k)),
            (le(tot, i), le(smod(i, tot) + j, tot)))
        acc('C02', 'wrap_n long ' + n, 'wrap_n', [a, i, j], PANIC, (lt(i, tot), lt(tot, i + j)))
        for q in range(2, 6):
            ix = [sym('i%d' % x, 0) for x in range(q)]
            if r == q:
                inb = tuple(lt(x, y) for x, y in zip(ix, d))
                acc('C06', 'index%d %s' % (q, n), 'idx%d' % q, [a] + ix, a.at(ix), inb)
                for x in range(q):
                    acc('C06', 'index%d out %d' % (q, x), 'idx%d' % q, [a] + ix, PANIC, inb[:x] + inb[x + 1:] + (le(d[x], ix[x]),))
            elif r < q:
                acc('C06', 'index%d rank %d' % (q, r), 'idx%d' % q, [a] + ix, PANIC)
        # C07 ------------------------------------------------------------
        o, m = sym('o', 0), sym('m', 1)
        if r:
            row = prod(d[1:])
            sub = Ten([m] + d[1:], lambda k, a=a, o=o: a.at([k[0] + o] + list(k[1:])))
            ok = (le(o + m, d[0]),)
            ob('C07', 'subslice ' + n, 'subslice', [a, o, m], sub, ok)
            ob('C07', 'subslice out ' + n, 'subslice', [a, o, m], PANIC, (lt(d[0], o + m),))
            ob('C07', 'clone_sub ' + n, 'clone_sub', [a, o, m], sub, ok)
            o2, m2 = sym('o2', 0), sym('m2', 1)
            ob('C07', 'subslice2 ' + n, 'subslice2', [a, o, m, o2, m2],
               Ten([m2] + d[1:], lambda k, a=a, o=o, o2=o2: a.at([k[0] + o + o2] + list(k[1:]))), ok + (le(o2 + m2, m),))
            ob('C07', 'subslice2 out ' + n, 'subslice2', [a, o, m, o2, m2], PANIC, ok + (lt(m, o2 + m2),))
        else:
            ob('C07', 'subslice ' + n, 'subslice', [a, o, m], PANIC)
        for q in range(0, 4):
            if r == 0 and q == 1:
                continue
            e = dims('e', q)
            ob('C07', 'subslice_flat %s to r%d' % (n, q), 'subslice_flat', [a, o, prod(e), vec(e)],
               Ten(e, lambda k, a=a, o=o, e=e: a.flat(o + flat(k, e))), (le(o + prod(e), tot),))
            ob('C07', 'subslice_flat out %s to r%d' % (n, q), 'subslice_flat', [a, o, prod(e), vec(e)], PANIC, (lt(tot, o + prod(e)),))
            ob('C03', 'subslice_flat shape %s to r%d' % (n, q), 'subslice_flat', [a, o, m, vec(e)], PANIC,
               (le(o + m, tot), bnot(eq(m, prod(e)))))
            if q:
                ob('C03', 'reshape mismatch %s to r%d' % (n, q), 'reshape', [a, vec(e)], PANIC, (bnot(eq(tot, prod(e))),))
        # reshapes that certainly fit
        for nm, e in shapes_like(d):
            ob('C07', 'reshape %s %s' % (n, nm), 'reshape', [a, vec(e)], Ten(e, lambda k, a=a, e=e: a.flat(flat(k, e))))
            if e and r:
                ob('C07', 'reshape_sub %s %s' % (n, nm), 'reshape_sub', [a, vec(e), o, m],
                   Ten([m] + e[1:], lambda k, a=a, e=e, o=o: a.flat(flat([k[0] + o] + list(k[1:]), e))), (le(o + m, e[0]),))
        if r < 6:
            ob('C07', 'reshape split ' + n, 'reshape', [Tin('a', [m * o] + d[1:]) if False else a, vec(d + [ONE])],
               Ten(d + [ONE], lambda k, a=a: a.at(k[:-1])))
        ob('C07', 'flatten ' + n, 'flatten', [a], Ten([tot], lambda k, a=a: a.flat(k[0])))
        for nm in ('clone', 'from_ref', 'asref_t'):
            ob('C07', '%s %s' % (nm, n), nm, [a], whole)
        for ax in range(-r - 1, r + 1):
            p = ax if ax >= 0 else r + 1 + ax
            if r < 6:
                ob('C07', 'expand_dims %s %d' % (n, ax), 'expand_dims', [a, ax],
                   Ten(d[:p] + [ONE] + d[p:], lambda k, a=a, p=p: a.at(list(k[:p]) + list(k[p + 1:]))))
        if r < 6:
            ob('C07', 'expand_dims out %s' % n, 'expand_dims', [a, r + 1], PANIC)
        big = dims('d', r, lo=2)
        for mask in range(1 << r) if r <= 4 else ():
            ds = [ONE if mask >> x & 1 else big[x] for x in range(r)]
            keep = [x for x in range(r) if not mask >> x & 1]
            b = Tin('a', ds)
            kd = [ds[x] for x in keep] or [ONE]

            def pos(k, keep=keep, r=r):
                full = [ZERO] * r
                for x, y in zip(keep, k):
                    full[x] = y
                return full
            ob('C07', 'squeeze %s mask %d' % (n, mask), 'squeeze', [b], Ten(kd, lambda k, b=b, pos=pos: b.at(pos(k))))
            for x in range(r):
                if mask >> x & 1 and (mask == 1 << x or deep or r <= 3):
                    for ax in (x, x - r):
                        ob('C07', 'squeeze_axis %s mask %d axis %d' % (n, mask, ax), 'squeeze_axis', [b, ax],
                           Ten(ds[:x] + ds[x + 1:], lambda k, b=b, x=x: b.at(list(k[:x]) + [ZERO] + list(k[x:]))) if r > 1 else ANY)
        # C22 ------------------------------------------------------------
        b = Tin('b', d)
        alleq = ball_(tot, lambda k, a=a, b=b: B('eq', (a.flat(k), b.flat(k))))
        acc('C22', 'eq ' + n, 'eq', [a, b], alleq)
        acc('C22', 'ne ' + n, 'ne', [a, b], bnot(alleq))
        acc('C22', 'eq itself ' + n, 'eq_self', [a], ball_(tot, lambda k, a=a: B('eq', (a.flat(k), a.flat(k)))))
        if r:
            row = prod(d[1:])
            o2 = sym('o2', 0)
            fit = (le(o + m, d[0]), le(o2 + m, d[0]))
            al = ball_(m * row, lambda k, a=a, o=o, o2=o2, row=row: B('eq', (a.flat(o * row + k), a.flat(o2 * row + k))))
            acc('C22', 'eq views of one tensor ' + n, 'eq_sh', [a, o, o2, m], al, fit)
            acc('C22', 'ne views of one tensor ' + n, 'ne_sh', [a, o, o2, m], bnot(al), fit)
            acc('C22', 'cmp views of one tensor ' + n, 'cmp_sh', [a, o, o2, m], T('iter_partial_cmp', (
                seq_(m * row, lambda k, a=a, o=o, row=row: a.flat(o * row + k)), seq_(m * row, lambda k, a=a, o2=o2, row=row: a.flat(o2 * row + k)))), fit)
            if r < 6:
                acc('C22', 'eq reshaped itself ' + n, 'eq_reshape', [a, vec([ONE] + d)], FALSE)
        lex = T('iter_partial_cmp', (seq_(tot, lambda k, a=a: a.flat(k)), seq_(tot, lambda k, b=b: b.flat(k))))
        acc('C22', 'cmp ' + n, 'partial_cmp', [a, b], lex)
        for x in range(r):
            w = sym('w', 1)
            e = d[:x] + [w] + d[x + 1:]
            c = Tin('b', e)
            df = (bnot(eq(w, d[x])),)
            acc('C22', 'eq %s differs at %d' % (n, x), 'eq', [a, c], FALSE, df)
            acc('C22', 'ne %s differs at %d' % (n, x), 'ne', [a, c], TRUE, df)
        if r > 1:
            # same size, other shape
            for x in range(r - 1):
                e = d[:x] + [d[x + 1], d[x]] + d[x + 2:]
                c = Tin('b', e)
                acc('C22', 'eq %s swapped at %d' % (n, x), 'eq', [a, c], FALSE, (bnot(eq(d[x], d[x + 1])),))
            e = d[:-2] + [d[-2] * d[-1]]
            c = Tin('b', e)
            acc('C22', 'eq %s merged' % n, 'eq', [a, c], FALSE)
            lex = T('iter_partial_cmp', (seq_(tot, lambda k, a=a: a.flat(k)), seq_(tot, lambda k, c=c: c.flat(k))))
            same_ = band(eq0(atomP(Atom('discr', (lex,))) - 1), eq0(atomP(Atom('discr', (proj(lex),)))))
            acc('C22', 'cmp %s merged' % n, 'partial_cmp', [a, c], mkG(same_, Agg('adt', None, 0, ()), lex))
        if r < 6:
            e = [ONE] + d
            acc('C22', 'eq %s extra one' % n, 'eq', [a, Tin('b', e)], FALSE)
            acc('C22', 'eq %s trailing one' % n, 'eq', [a, Tin('b', d + [ONE])], FALSE)
    # constructors ---------------------------------------------------------
    x = T('get', ('xx', ZERO))
    ob('C21', 'from_scalar', 'from_scalar', [x], Ten([], lambda k, x=x: x))
    ob('C21', 'scalar', 'scalar_', [x], Ten([], lambda k, x=x: x))
    N = sym('N', 0)
    v = storage('v', N)
    el = lambda k: T('get', ('v', k))
    ob('C21', 'from_slice', 'from_slice', [v], Ten([N], lambda k: el(k[0])))
    for q in range(1, 7):
        e = dims('e', q)
        for nm in ('from_vec', 'from_box'):
            ob('C21', '%s r%d' % (nm, q), nm, [storage('v', prod(e)), vec(e)], Ten(e, lambda k, e=e: el(flat(k, e))))
            ob('C03', '%s mismatch r%d' % (nm, q), nm, [v, vec(e)], PANIC, (bnot(eq(N, prod(e))),))
        ob('C18', 'init_default r%d' % q, 'init_default', [vec(e)], Ten(e, lambda k: T('deflt', ())))
    for q in range(1, 4):
        e = dims('e', q)
        a, b, c = (Tin(x, dims(x, 2)) for x in 'abc')
        ob('C03', 'from_merge1 mismatch r%d' % q, 'from_merge1', [a, vec(e)], PANIC, (bnot(eq(a.len, prod(e))),))
        ob('C03', 'from_merge2 mismatch r%d' % q, 'from_merge2', [a, b, vec(e)], PANIC, (bnot(eq(a.len + b.len, prod(e))),))
        d = dims('d', q)
        p, s, t = sym('p', 1), sym('s', 1), sym('t', 1)
        a, b, c = Tin('a', [p] + d[1:]), Tin('b', [s] + d[1:]), Tin('c', [t] + d[1:])
        e = [p + s] + d[1:]
        sel = lambda k, p=p, s=s, a=a, b=b, c=c: mkG(lt(k[0], p), a.at(k), mkG(lt(k[0], p + s), b.at([k[0] - p] + list(k[1:])), c.at([k[0] - p - s] + list(k[1:]))))
        ob('C14', 'from_merge1 r%d' % q, 'from_merge1', [a, vec([p] + d[1:])], Ten([p] + d[1:], lambda k, a=a: a.at(k)))
        ob('C14', 'from_merge2 r%d' % q, 'from_merge2', [a, b, vec(e)], Ten(e, sel))
        ob('C14', 'from_merge3 r%d' % q, 'from_merge3', [a, b, c, vec([p + s + t] + d[1:])], Ten([p + s + t] + d[1:], sel))
        ob('C14', 'append r%d' % q, 'append', [a, b], Ten(e, sel))
        for x in range(1, q):
            w = sym('w', 1)
            bad = [s] + d[1:x] + [w] + d[x + 1:]
            ob('C14', 'append mismatch r%d at %d' % (q, x), 'append', [a, Tin('b', bad)], PANIC, (bnot(eq(w, d[x])),))
        ob('C14', 'append rank r%d' % q, 'append', [a, Tin('b', [s] + d)], PANIC)
    return out


def ball_(n, fn):
    from models import ball
    n = toP(n)
    if n.is_const() and n.const() <= 16:
        return band(*[fn(toP(i)) for i in range(n.const())])
    k = Atom('s', (fresh('q'),))
    k.lo = 0
    return ball(k, n, fn(atomP(k)))


def proj(t):
    return T('fld', (0, T('as', (1, t))))


def shapes_like(d):
    """shapes with the same number of elements for every value of the dimensions"""
    r = len(d)
    yield 'flat', [prod(d)]
    if r > 1:
        yield 'reverse', list(reversed(d))
        yield 'merge head', [d[0] * d[1]] + d[2:]
        yield 'merge tail', d[:-2] + [d[-2] * d[-1]]
    if 0 < r < 6:
        yield 'lead one', [ONE] + d


def smod(a, b):
    from prover import smod as s, Facts
    return s(toP(a), toP(b), Facts())
