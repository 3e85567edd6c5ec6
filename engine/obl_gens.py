"""C18 generators."""
from spec import *
from terms import *


def fc(x):
    return T('fc', (repr(float(x)),))


def obls(deep=False):
    out = []

    def ob(name, root, args, expect, facts=(), light=True, assume=None):
        o = Ob('C18', name, 'gens::' + root, args, expect, facts, light=light)
        o.assume = assume
        out.append(o)

    top = 6 if deep else 4
    for r in range(0, top + 1):
        forms = [('r%d' % r, dims('d', r))]
        if r <= 3 or deep:
            forms += [('r%d one@%d' % (r, i), dims('d', r, ones=(i,))) for i in range(r)]
        for n, d in forms:
            dv = vec(d)
            for f in ('zeros', 'm_zeros'):
                ob('%s %s' % (f, n), f, [dv], Ten(d, lambda k: T('zero')))
            for f in ('ones', 'm_ones'):
                ob('%s %s' % (f, n), f, [dv], Ten(d, lambda k: T('one')))
            ob('zeros_f32 ' + n, 'zeros_f32', [dv], Ten(d, lambda k: fc(0)))
            ob('ones_f32 ' + n, 'ones_f32', [dv], Ten(d, lambda k: fc(1)))
            for f in ('fill', 'm_fill'):
                ob('%s %s' % (f, n), f, [dv, T('v')], Ten(d, lambda k: T('v')))
            ob('init ' + n, 'init_', [dv], Ten(d, lambda k, d=d: T('gen', (flat(k, d),))))
            ob('init_rindexed ' + n, 'init_rindexed', [dv],
               Ten(d, lambda k, d=d: T('gen_at', (flat(k, d), T('list', tuple(toP(x) for x in reversed(k)))))))
    # evenly spaced values
    for r in range(0, (5 if deep else 4)):
        d = dims('d', r)
        big = [sym('d0', 2)] + d[1:] if r else d
        for f, fn in (('linspace', lin), ('m_linspace', lin), ('logspace', log10), ('m_logspace', log10), ('geomspace', geom), ('m_geomspace', geom)):
            dd = big if 'geom' in f else d
            pos = '+' if 'geom' in f else ''
            a, b = Tin('~%s<a' % pos, dd), Tin('~%s>b' % pos, dd)
            for nm, L in (('', sym('n', 2)), (' len 1', ONE)):
                ob('%s r%d%s' % (f, r, nm), f, [a, b, L], Ten([L] + dd, lambda k, a=a, b=b, L=L, fn=fn: fn(a.at(k[1:]), b.at(k[1:]), L, k[0])), assume=ordered)
        base = T('get', ('~+base', ZERO))
        a, b = Tin('~<a', d), Tin('~>b', d)
        L = sym('n', 2)
        for f in ('logspace_opt', 'logspace_some'):
            ob('%s r%d' % (f, r), f, [a, b, L, base], Ten([L] + d, lambda k, a=a, b=b, L=L, base=base: T('powf', (base, lin(a.at(k[1:]), b.at(k[1:]), L, k[0])))), assume=ordered)
        for f in ('linspace', 'logspace', 'geomspace'):
            if r:
                d2 = [sym('e0', 1)] + d[1:]
                ob('%s r%d shapes differ' % (f, r), f, [Tin('~+<a', big), Tin('~+>b', d2), L], PANIC, (bnot(eq(big[0], d2[0])),))
    for f, fn in (('linspace_s', lin), ('logspace_s', log10), ('geomspace_s', geom)):
        pos = '+' if 'geom' in f else ''
        a, b = T('get', ('~%s<a' % pos, ZERO)), T('get', ('~%s>b' % pos, ZERO))
        for nm, L in (('', sym('n', 2)), (' len 1', ONE)):
            ob(f + nm, f, [a, b, L], Ten([L], lambda k, L=L, fn=fn, a=a, b=b: fn(a, b, L, k[0])), assume=ordered)
    for f in ('arange', 'm_arange'):
        for nm, a, b, st, stay in (('up', '~<a', '~>b', '~+s', lambda x, e: B('flt', (x, e))), ('down', '~>b', '~<a', '~-s', lambda x, e: B('flt', (e, x)))):
            a, b, st = (T('get', (x, ZERO)) for x in (a, b, st))
            z = fc(0)
            up = nm == 'up'
            facts = (B('fle', (a, b) if up else (b, a)), B('flt', (z, st) if up else (st, z)), bnot(B('flt', (st, z) if up else (z, st))), bnot(B('feq', (st, z))))

            def at(k, a=a, st=st):
                return fold_(a, k, lambda i, s: T('Add', (s, st)))
            # the number of values is the first k with start + k steps not before end
            n = first_fail(lambda k, at=at, b=b, stay=stay: stay(at(k), b))
            ob('%s %s' % (f, nm), f, [a, b, st], Ten([n], lambda k, at=at: at(k[0])), facts)
            ob('%s %s wrong sign' % (f, nm), f, [b, a, st], PANIC, facts + (bnot(B('fle', (b, a) if up else (a, b))),))
    for m in (1, 2, 3):
        n = sym('n', 1)
        ix = [sym('i%d' % j, 0) for j in range(m)]
        inb = tuple(lt(i, n) for i in ix)
        for f in ('one_hot', 'm_one_hot'):
            ob('%s %d' % (f, m), f, [vec(ix), n], \
               Ten([n], hot(ix)), inb)
            ob('%s %d out' % (f, m), f, [vec(ix), n], PANIC, inb[:-1] + (le(n, ix[-1]),))
    return out


def hot(ix):
    return lambda k: mkG(bor(*[eq(k[0], i) for i in ix]), fc(1), fc(0))


def f32(p):
    p = toP(p)
    return fc(p.const()) if p.is_const() else T('cast:f32', (p,))


def lin(a, b, L, k):
    step = fc(0) if L == ONE else T('Div', (T('Sub', (b, a)), f32(L - 1)))
    return T('Add', (a, T('Mul', (step, f32(k)))))


def log10(a, b, L, k):
    return T('powf', (fc(10), lin(a, b, L, k)))


def geom(a, b, L, k):
    return T('exp', (lin(T('ln', (a,)), T('ln', (b,)), L, k),))


def ordered(c):
    """the documented precondition start <= end, element by element"""
    if c.op == 'fle':
        x, y = c.args
        while isinstance(x, T) and isinstance(y, T) and x.op == y.op == 'ln':
            x, y = x.args[0], y.args[0]
        return isinstance(x, T) and isinstance(y, T) and x.op == y.op == 'get' and '<' in x.args[0] and '>' in y.args[0] and x.args[0].replace('<a', '>b') == y.args[0]
    return False


def first_fail(stay):
    from loops import bdepth, canonk
    k = Atom('s', (fresh('x'),))
    k.lo = 0
    c = stay(atomP(k))
    kk = canonk(bdepth(c) + 1)
    return atomP(mk_atom('ffail', (kk, subst(c, {k: atomP(kk)})), 0))
