"""C13 named reductions, C24 histograms."""
from spec import *
from terms import *
from terms import B as B_


def fc(x):
    return T('fc', (repr(float(x)),))


def fl(n):
    n = toP(n)
    return fc(n.const()) if n.is_const() else T('cast:f32', (n,))


def lefold(op, n, el):
    return fold_(el(ZERO), n - 1, lambda i, s: T(op, (s, el(i + 1))))


def obls(deep=False):
    out = []

    def ob(name, root, args, expect, light=False, prop='C13', facts=(), assume=None):
        o = Ob(prop, name, 'stat::' + root, args, expect, facts, light=light)
        o.assume = assume or (extremes if prop == 'C24' else None)
        out.append(o)

    def sumf(n, fn):
        return fold_(fc(0), n, lambda i, s: T('Add', (s, fn(i))))

    def mean(n, el):
        return T('Div', (sumf(n, el), fl(n)))

    def var(n, el):
        m = mean(n, el)
        return T('Div', (sumf(n, lambda i: T('Mul', (T('Sub', (el(i), m)), T('Sub', (el(i), m))))), fl(n)))

    named = {'fsum': lambda n, el: lefold('Add', n, el), 'fproduct': lambda n, el: lefold('Mul', n, el),
             'min': lambda n, el: lefold('min', n, el), 'max': lambda n, el: lefold('max', n, el),
             'mean': mean, 'var': var, 'std_': lambda n, el: T('sqrt', (var(n, el),))}
    top = 5 if deep else 3
    for r in range(0, top + 1):
        for ones in [()] + [(i,) for i in range(r) if r <= 3]:
            d = dims('d', r, ones=ones)
            nm = 'r%d%s' % (r, ' one@%d' % ones if ones else '')
            tot = prod(d)
            a, f = Tin('a', d), Tin('~a', d)
            for g, op in (('sum', 'adde'), ('product', 'mule')):
                for v in ('', '_none'):
                    ob('%s%s %s' % (g, v, nm), g + v, [a], Ten([], lambda k, a=a, op=op, tot=tot: lefold(op, tot, a.flat)))
            for g, fn in named.items():
                for v in ('all', 'none'):
                    ob('%s %s %s' % (g, v, nm), '%s::%s' % (g, v), [f], Ten([], lambda k, f=f, fn=fn, tot=tot: fn(tot, f.flat)))
            for g in ('hypot', 'hypot64'):
                ob('%s %s' % (g, nm), g, [f], Ten([], lambda k, f=f, tot=tot: T('sqrt', (sumf(tot, lambda i: T('Mul', (f.flat(i), f.flat(i)))),))))
            ob('min64 ' + nm, 'min64', [f], Ten([], lambda k, f=f, tot=tot: lefold('min', tot, f.flat)))
            for g in ('normalize_unit', 'normalize_unit64'):
                def unit(k, f=f, tot=tot):
                    lo, hi = lefold('min', tot, f.flat), lefold('max', tot, f.flat)
                    return T('Div', (T('Sub', (f.at(k), lo)), T('Sub', (hi, lo))))
                ob('%s %s' % (g, nm), g, [f], Ten(d, unit))
            for ax in range(-r, r):
                j = ax % r
                rest = d[:j] + d[j + 1:]

                def line(k, i, t, j=j):
                    k = list(k)
                    return t.at(k[:j] + [i] + k[j:])
                an = '%s axis %d' % (nm, ax)
                for g, op in (('sum', 'adde'), ('product', 'mule')):
                    ob('%s_axis %s' % (g, an), g + '_axis', [a, ax], Ten(rest, lambda k, a=a, op=op, d=d, j=j, line=line: lefold(
                        op, d[j], lambda i: line(k, i, a))))
                for g, fn in named.items():
                    ob('%s %s' % (g, an), g + '::axis', [f, ax], Ten(rest, lambda k, f=f, fn=fn, d=d, j=j, line=line: fn(
                        d[j], lambda i: line(k, i, f))))
                ob('max64 ' + an, 'max64', [f, ax], Ten(rest, lambda k, f=f, d=d, j=j, line=line: lefold('max', d[j], lambda i: line(k, i, f))))
    hist_obls(ob, deep)
    return out


def hist_obls(ob, deep):
    """C24"""
    n, N = sym('n', 1), sym('m', 1)
    for nm, root, B in (('', 'hist', N), (' default', 'hist_default', toP(10))):
        one(ob, nm, root, n, B)
    for nm, root, B in (('', 'hist2', N), (' default', 'hist2_default', toP(10))):
        two(ob, nm, root, n, B)
    for nm, root, d in (('histogram', 'hist', 2), ('histogram', 'hist', 0), ('histogram2d', 'hist2', 1), ('histogram2d', 'hist2', 3)):
        ob('%s r%d' % (nm, d), root, [Tin('~a', dims('d', d)), N], PANIC, prop='C24')
    ob('histogram2d cols', 'hist2', [Tin('~a', [n, sym('c', 3)]), N], PANIC, prop='C24')
    ob('histogram2d one col', 'hist2', [Tin('~a', [n, ONE]), N], PANIC, prop='C24')
    ob('histogram no bins', 'hist', [Tin('~a', [n]), ZERO], PANIC, prop='C24')
    ob('histogram2d no bins', 'hist2', [Tin('~a', [n, toP(2)]), ZERO], PANIC, prop='C24')


def bin_(x, lo, hi, B):
    eps = fc(1.1920928955078125e-07)
    d = mkG(B_('feq', (lo, hi)), eps, T('Div', (T('Sub', (hi, lo)), fl(B))))
    return bin_of(T('floor', (T('Div', (T('Sub', (x, lo)), d)),)), B)


def bin_of(t, B):
    b = atomP(mk_atom('f2i', ('usize', t), 0))
    return imin(b, B - 1)


def count(n, bin_, j):
    """how many of the n samples fall into bin j"""
    return fold_(fc(0), n, lambda i, s: mkG(eq(bin_(i), j), T('Add', (s, fc(1))), s))


def edge(lo, hi, B, k):
    return T('Add', (lo, T('Mul', (T('Div', (T('Sub', (hi, lo)), fl(B))), fl(k)))))


def one(ob, nm, root, n, B):
    f = Tin('~a', [n])
    lo, hi = lefold('min', n, f.flat), lefold('max', n, f.flat)
    ob('histogram' + nm, root, [f] + ([B] if not nm else []), Tup(
        Ten([B], lambda k: count(n, lambda i: bin_(f.flat(i), lo, hi, B), k[0])),
        Ten([B + 1], lambda k: edge(lo, hi, B, k[0]))), prop='C24')


def two(ob, nm, root, n, B):
    f = Tin('~a', [n, toP(2)])
    lo = [lefold('min', n, lambda i, c=c: f.at([i, toP(c)])) for c in (0, 1)]
    hi = [lefold('max', n, lambda i, c=c: f.at([i, toP(c)])) for c in (0, 1)]
    ob('histogram2d' + nm, root, [f] + ([B] if not nm else []), Tup(
        Ten([B, B], lambda k: count(n, lambda i: bin_(f.at([i, ONE]), lo[1], hi[1], B) * B + bin_(f.at([i, ZERO]), lo[0], hi[0], B), k[0] * B + k[1])),
        Ten([B + 1], lambda k: edge(lo[0], hi[0], B, k[0])), Ten([B + 1], lambda k: edge(lo[1], hi[1], B, k[0]))), prop='C24')


def extremes(c):
    """the minimum of some elements is not above their maximum"""
    if c.op != 'fle':
        return False
    a, b = c.args
    return all(isinstance(x, T) and x.op == 'fold' for x in (a, b)) and a.args[5][0].op == 'min' and b.args[5][0].op == 'max' and \
        a.args[:5] == b.args[:5] and a.args[5][0].args == b.args[5][0].args
