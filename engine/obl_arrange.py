"""C16 rearranging operations."""
from spec import *
from terms import *
from obl_join import smod_
from obl_gens import fc


def obls(deep=False):
    out = []

    def ob(name, root, args, expect, facts=(), light=True):
        out.append(Ob('C16', name, 'arrange::' + root, args, expect, facts, light=light))

    z, o1 = T('zero'), T('one')
    top = 6 if deep else 4
    for r in range(0, top + 1):
        forms = [('r%d' % r, dims('d', r))]
        if r <= 3 or deep:
            forms += [('r%d one@%d' % (r, i), dims('d', r, ones=(i,))) for i in range(r)]
        for n, d in forms:
            a = Tin('a', d)
            if r >= 2:
                sw = d[:-2] + [d[-1], d[-2]]
                ex = Ten(sw, lambda k, a=a: a.at(list(k[:-2]) + [k[-1], k[-2]]))
                for f in ('transpose', 'm_transpose', 'm_t'):
                    ob('%s %s' % (f, n), f, [a], ex, light=f == 'transpose')
                ob('t.t ' + n, 'tt', [a], Ten(d, lambda k, a=a: a.at(k)), light=False)
                ob('tril ' + n, 'tril', [a], Ten(d, lambda k, a=a: mkG(le(k[-1], k[-2]), a.at(k), z)))
                ob('triu ' + n, 'triu', [a], Ten(d, lambda k, a=a: mkG(le(k[-2], k[-1]), a.at(k), z)))
            else:
                if r == 1:
                    for f in ('transpose', 'm_transpose', 'm_t'):
                        ob('%s %s' % (f, n), f, [a], Ten([d[0], ONE], lambda k, a=a: a.at(k[:1])))
                    ob('diagflat ' + n, 'diagflat', [a], Ten([d[0], d[0]], lambda k, a=a: mkG(eq(k[0], k[1]), a.at(k[:1]), z)))
                ob('tril ' + n, 'tril', [a], PANIC)
                ob('triu ' + n, 'triu', [a], PANIC)
            if r != 1:
                ob('diagflat ' + n, 'diagflat', [a], PANIC)
            for q in range(1, 4):
                m = [sym('m%d' % i, 1) for i in range(q)]
                w = max(q, r)
                if w > (4 if deep else 3):
                    continue
                md = [ONE] * (w - q) + m
                dd = [ONE] * (w - r) + d
                ex = Ten([x * y for x, y in zip(md, dd)],
                         lambda k, a=a, dd=dd, r=r: a.at([smod_(x, y) for x, y in zip(k, dd)][len(dd) - r:]))
                for f in ('tile%d' % q,) + (('m_tile2',) if q == 2 else ()):
                    ob('%s %s' % (f, n), f, [a] + m, ex, light=not q == r == 3)
    n = sym('n', 1)
    for f in ('eye', 'm_eye', 'identity', 'm_identity'):
        ob(f, f, [n], Ten([n, n], lambda k: mkG(eq(k[0], k[1]), o1, z)))
    for f in ('tri', 'm_tri'):
        ob(f, f, [n], Ten([n, n], lambda k: mkG(le(k[1], k[0]), o1, z)))
    for q in (1, 2, 3):
        d = [sym('d%d' % i, 1) for i in range(q)]
        ts = [Tin('abc'[i], [d[i]]) for i in range(q)]
        xy, ij = grid(ts, q, True), grid(ts, q, False)
        for f, e in (('mesh%d', xy), ('meshij%d', ij), ('meshr%d', xy), ('meshrij%d', ij)):
            ob(f % q, f % q, ts, e)
        if q == 2:
            ob('m_mesh', 'm_mesh', ts, xy)
            ob('m_meshij', 'm_meshij', ts, ij)
    for M, N in ((3, 2), (1, 4)):
        ob('mgrid %d %d' % (M, N), 'mgrid%d%d' % (M, N), [],
           Tup(Ten([N, M], lambda k: fc(k[1].const())), Ten([N, M], lambda k: fc(k[0].const()))))
    return out


def grid(ts, q, xy):
    d = [t.d[0] for t in ts]
    if xy:
        return Tup(*[Ten(d[::-1], lambda k, i=i: ts[i].at([k[q - 1 - i]])) for i in range(q)])
    return Tup(*[Ten(d, lambda k, i=i: ts[i].at([k[i]])) for i in range(q)])
