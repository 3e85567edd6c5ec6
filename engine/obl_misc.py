"""C17 matrix products, C19 seeded random numbers, C20 WAV decoding, C23 rfft_norm, C25 option setters."""
from spec import *
from terms import *
from iters import some, NONE
import obl_stat


def fc(x):
    return T('fc', (repr(float(x)),))


def fl(n):
    n = toP(n)
    return fc(n.const()) if n.is_const() else T('cast:f32', (n,))


def sumf(n, fn):
    return fold_(fc(0), n, lambda i, s: T('Add', (s, fn(i))))


def obls(deep=False):
    out = []

    def ob(prop, name, root, args, expect, facts=(), light=True, assume=None):
        o = Ob(prop, name, 'misc::' + root, args, expect, facts, light=light)
        o.assume = assume
        out.append(o)
        return o
    linalg(ob, deep)
    fft(ob, deep)
    wav(ob, deep)
    rand(ob, deep)
    uniform(ob, deep)
    builders(ob, deep)

    return out


def linalg(ob, deep):
    top = 6 if deep else 4
    for r in range(2, top + 1):
        for ones in [()] + [(i,) for i in range(3) if r <= 3]:
            bat = dims('b', r - 2)
            m, k, n = [ONE if i in ones else sym(x, 1) for i, x in enumerate('mkn')]
            a, b = Tin('~a', bat + [m, k]), Tin('~b', bat + [k, n])
            nm = 'r%d%s' % (r, ' one@%d' % ones if ones else '')
            aT, bT = Tin('~a', bat + [k, m]), Tin('~b', bat + [n, k])
            for f, ta, tb in (('matmul', 0, 0), ('m_matmul', 0, 0), ('matmul_none', 0, 0), ('matmul_ta', 1, 0), ('matmul_tb', 0, 1), ('matmul_tab', 1, 1)):
                def el(x, p, A=aT if ta else a, B=bT if tb else b, ta=ta, tb=tb):
                    l = x[:-2]
                    return T('Mul', (A.at(l + ([p, x[-2]] if ta else [x[-2], p])), B.at(l + ([x[-1], p] if tb else [p, x[-1]]))))
                ob('C17', '%s %s' % (f, nm), f, [aT if ta else a, bT if tb else b], Ten(bat + [m, n], lambda x, el=el, k=k: sumf(k, lambda p: el(x, p))))
    # one dimension differs
    for r in range(2, top):
        for i in range(r):
            bat = dims('b', r - 2)
            m, k, n = [sym(x, 1) for x in 'mkn']
            A, B = bat + [m, k], bat + [k, n]
            if i == r - 1:
                continue
            j = r - 2 if i == r - 2 else i
            e = sym('e', 1)
            old = B[j]
            B = B[:j] + [e] + B[j + 1:]
            for f in ('matmul', 'm_matmul', 'matmul_none', 'matmul_ta', 'matmul_tb', 'matmul_tab'):
                def sw(d, y):
                    return d[:-2] + [d[-1], d[-2]] if y else d
                ob('C17', '%s r%d dimension %d differs' % (f, r, j), f, [Tin('~a', sw(A, 'ta' in f)), Tin('~b', sw(B, f[-1] == 'b'))], PANIC, (bnot(eq(old, e)),))
    for ra, rb in ((0, 0), (0, 1), (1, 0), (1, 1), (1, 2), (2, 1), (2, 3), (3, 2), (3, 4)):
        for f in ('matmul', 'm_matmul'):
            ob('C17', '%s ranks %d %d' % (f, ra, rb), f, [Tin('~a', dims('d', ra)), Tin('~b', dims('e', rb))], PANIC)
    # matvec: every row of x times the matrix of the same batch
    for ra in range(2, 6 if deep else 5):
        for rx in range(1, ra + 2 if deep else ra + 1 if ra > 2 else 4):
            bx = dims('b', max(rx - 2, 0))
            ba = bx[len(bx) - (ra - 2):]
            if len(ba) != ra - 2:
                continue
            R, C, n = sym('R', 1), sym('C', 1), sym('n', 1)
            a = Tin('~a', ba + [R, C])
            x = Tin('~x', (bx + [n, C])[-rx:])

            def mv(idx, a=a, x=x, ra=ra, C=C):
                ai = idx[:-2][len(idx[:-2]) - (ra - 2):] if ra > 2 else []
                return sumf(C, lambda p: T('Mul', (x.at(idx[:-1] + [p]), a.at(ai + [idx[-1], p]))))
            for f in ('matvec', 'matvec_none'):
                ob('C17', '%s r%d r%d' % (f, ra, rx), f, [a, x], Ten((bx + [n, R])[-rx:], mv))

            def mvt(idx, a=Tin('~a', ba + [C, R]), x=x, ra=ra, C=C):
                ai = idx[:-2][len(idx[:-2]) - (ra - 2):] if ra > 2 else []
                return sumf(C, lambda p: T('Mul', (x.at(idx[:-1] + [p]), a.at(ai + [p, idx[-1]]))))
            ob('C17', 'matvec_ta r%d r%d' % (ra, rx), 'matvec_ta', [Tin('~a', ba + [C, R]), x], Ten((bx + [n, R])[-rx:], mvt))
    R, C, n, e = sym('R', 1), sym('C', 1), sym('n', 1), sym('e', 1)
    for ra, rx in ((2, 1), (2, 2), (2, 3), (3, 3), (3, 4), (4, 4)):
        bx = dims('b', max(rx - 2, 0))
        ba = bx[len(bx) - (ra - 2):] if ra > 2 else []
        ob('C17', 'matvec r%d r%d cols differ' % (ra, rx), 'matvec', [Tin('~a', ba + [R, C]), Tin('~x', (bx + [n, e])[-rx:])], PANIC, (bnot(eq(C, e)),))
        for i in range(len(ba)):
            b2 = ba[:i] + [e] + ba[i + 1:]
            ob('C17', 'matvec r%d r%d batch %d differs' % (ra, rx, i), 'matvec', [Tin('~a', b2 + [R, C]), Tin('~x', bx + [n, C])], PANIC, (bnot(eq(ba[i], e)),))
    for ra, rx in ((3, 1), (3, 2), (4, 3), (4, 2)):
        bx = dims('b', max(rx - 2, 0))
        ex = [sym('x%d' % i, 2) for i in range(ra - 2 - len(bx))]
        ob('C17', 'matvec r%d r%d more matrices than vectors' % (ra, rx), 'matvec', [Tin('~a', ex + bx + [R, C]), Tin('~x', (bx + [n, C])[-rx:])], PANIC)
    for ra in (0, 1):
        for rx in (0, 1, 2):
            ob('C17', 'matvec ranks %d %d' % (ra, rx), 'matvec', [Tin('~a', dims('d', ra)), Tin('~x', dims('e', rx))], PANIC)


def fft(ob, deep):
    for r in range(1, 6 if deep else 4):
        for nm, L in (('', sym('L', 1)), (' len 1', ONE), (' len 4', toP(4)), (' len 5', toP(5))):
            d = dims('d', r - 1) + [L]
            x = Tin('~x', d)

            def win(i, L=L):
                s = T('sin', (T('Mul', (T('Div', (fc(3.1415927410125732), fl(L))), fl(i))),))
                return T('Mul', (s, s))

            def mag(k, x=x, L=L, win=win):
                def part(fn, sg):
                    return sumf(L, lambda j: T('Mul', (fc(sg), T('Mul', (T('Mul', (x.at(k[:-1] + [j]), win(j))), T(fn, (j, k[-1], L)))))))
                return T('hypot', (part('cosn', 1), part('sinn', -1)))
            half = idiv(L, toP(2)) + 1
            ob('C23', 'rfft r%d%s' % (r, nm), 'rfft', [x], Ten(d[:-1] + [half], mag), light=False)
            n, m = sym('n', 1), sym('m', 1)
            for f, a in (('rfft_len', [n]), ('rfft_len2', [m, n])) if nm in ('', ' len 1') else ():
                ob('C23', '%s r%d%s' % (f, r, nm), f, [x] + a, Ten(d[:-1] + [n], lambda k, mag=mag, half=half: mkG(ge0(half - 1 - k[-1]), mag(k), fc(0))), light=False)
    ob('C23', 'rfft r0', 'rfft', [Tin('~x', [])], PANIC)


def wav_in(head, tail):
    """a file: the given header bytes, then an opaque tail"""
    q = Seq(toP(len(head)) + tail, tuple(seq_items([toP(x) for x in head]).segs) + (OpSeg('#w', tail),), ())
    return Agg('adt', None, 0, (Box('vec', q), ZERO, toP(len(head)) + tail, vec([toP(len(head)) + tail])))


def le_(bs):
    return sum((b * 256 ** i for i, b in enumerate(bs)), ZERO)


def wav(ob, deep):
    def b4(name):
        return [sym('%s%d' % (name, i), 0, 255) for i in range(4)]

    tail = sym('t')
    size, rate, brate, dsize = b4('s'), b4('r'), b4('q'), b4('z')
    ch, align = [sym('c0', 0, 255), sym('c1', 0, 255)], [sym('l0', 0, 255), sym('l1', 0, 255)]

    def head(**kw):
        h = dict(riff=list(b'RIFF'), size=size, wave=list(b'WAVE'), fmt=list(b'fmt '), sixteen=[16, 0, 0, 0], code=[1, 0], ch=ch, rate=rate,
                 brate=brate, align=align, bits=[16, 0], data=list(b'data'), dsize=dsize)
        h.update(kw)
        return [toP(x) for v in h.values() for x in v]
    frames, extra = sym('F', 1), sym('x')
    N = le_(ch) * frames
    rng = ()
    sample = lambda i: T('Div', (T('cast:f32', (T('cast:i16', (T('Add', (T('cast:u16', (T('get', ('#w', 2 * i)),)), T('Mul', (toP(256), T('cast:u16', (T('get', ('#w', 2 * i + 1)),)))))),)),)), fc(32768)))
    for odd in (0, 1):
        facts = rng + (eq(le_(size), tail + 36), eq(le_(dsize), 2 * N + odd), ge0(tail - 2 * N), ge0(le_(ch) - 1))
        ob('C20', 'decode_wav%s' % (' odd size' if odd else ''), 'wav', [wav_in(head(), tail)],
           Tup(Ten([frames, le_(ch)], lambda k: sample(k[0] * le_(ch) + k[1])), Ten([], lambda k: le_(rate))), facts)
    ok = rng + (eq(le_(size), tail + 36), eq(le_(dsize), 2 * N), ge0(tail - 2 * N), ge0(le_(ch) - 1))
    good = head()
    for nm, i, v in [('magic', i, good[i]) for i in (0, 1, 2, 3)] + [('wave', i, good[i]) for i in (8, 9, 10, 11)] + \
            [('fmt', i, good[i]) for i in (12, 13, 14, 15)] + [('data', i, good[i]) for i in (36, 37, 38, 39)] + \
            [('fmt size', i, good[i]) for i in (16, 17, 18, 19)] + [('code', i, good[i]) for i in (20, 21)] + [('width', i, good[i]) for i in (34, 35)]:
        e = sym('e', 0, 255)
        h = list(good)
        h[i] = e
        ob('C20', 'decode_wav wrong %s at %d' % (nm, i), 'wav', [wav_in(h, tail)], PANIC, ok + (bnot(eq(e, v)),))
    ob('C20', 'decode_wav wrong length', 'wav', [wav_in(good, tail)], PANIC, rng + (bnot(eq(le_(size), tail + 36)), eq(le_(dsize), 2 * N), ge0(tail - 2 * N), ge0(le_(ch) - 1)))
    for c in (1, 2, 3, 6):
        # the riff size fits the file, the data chunk claims more than there is
        h = head(size=size[:2] + [0, 0], rate=[64, 31, 0, 0], brate=[0] * 4, align=[2, 0], ch=[c, 0], dsize=dsize[:2] + [0, 0])
        ob('C20', 'decode_wav truncated %d channels' % c, 'wav', [wav_in(h, tail)], PANIC, (eq(le_(size[:2]), tail + 36), eq(le_(dsize[:2]), 2 * c * frames), ge0(2 * c * frames - 1 - tail)))
        for odd in (0, 1):
            base = dict(size=size[:2] + [0, 0], rate=[64, 31, 0, 0], brate=[0] * 4, align=[2, 0], ch=[c, 0], dsize=dsize[:2] + [0, 0])
            ob('C20', 'decode_wav %d channels%s' % (c, ' odd size' if odd else ''), 'wav', [wav_in(head(**base), tail)],
               Tup(Ten([frames, toP(c)], lambda k, c=c: sample(k[0] * c + k[1])), Ten([], lambda k: toP(8000))),
               (eq(le_(size[:2]), tail + 36), eq(le_(dsize[:2]), 2 * c * frames + odd), ge0(tail - 2 * c * frames)))
            for q in range(1, c):
                ob('C20', 'decode_wav %d channels, %d over%s' % (c, q, ' odd size' if odd else ''), 'wav', [wav_in(head(**base), tail)], PANIC,
                   (eq(le_(size[:2]), tail + 36), eq(le_(dsize[:2]), 2 * c * frames + 2 * q + odd), ge0(tail - 2 * c * frames - 2 * q - 1)))
    part = sym('p', 1)
    ob('C20', 'decode_wav part of a frame', 'wav', [wav_in(good, tail)], PANIC, rng + (eq(le_(size), tail + 36), eq(le_(dsize), 2 * N + 2 * part), ge0(tail - 2 * N - 2 * part), ge0(le_(ch) - 1 - part)))
    ob('C20', 'decode_wav no channels', 'wav', [wav_in(head(ch=[0, 0]), tail)], PANIC, rng + (eq(le_(size), tail + 36), ge0(tail - le_(dsize))))
    for n in (0, 3, 4, 12, 20, 36, 43):
        ob('C20', 'decode_wav %d bytes' % n, 'wav', [wav_in(good[:n], ZERO)], PANIC, rng)
    fname = Tin('fname', [])
    data = Ten([sym('flen')], lambda k: T('get', ('#file', k[0])))
    for nm, io, want in (('', {}, Opt(TRUE, data)), (' open fails', {'open': False}, Opt(FALSE, ZERO)), (' read fails', {'read': False}, Opt(FALSE, ZERO)),
                         (' no metadata', {'meta': False}, OrNone(data))):
        for d in ([], [ONE], [sym('d', 2)]):
            o = ob('C20', 'read_file%s %s' % (nm, d), 'read_file', [Tin('fname', d)], want)
            o.io = io


def m(name, *a):
    return call_('model::' + name, *a)


class Lazy:
    """expected value computed when the program is loaded"""

    def __init__(self, fn):
        self.fn = fn


def rand(ob, deep):
    s = sym('seed')
    for b in (32, 64):
        st = lambda x, b=b: m('step%d' % b, x)
        ob('C19', 'Rand%d next' % b, 'r%d_next' % b, [s], Lazy(lambda b=b, st=st: Tup(st(s), m('out%d' % b, st(s)))))
        ob('C19', 'Rand%d uniform' % b, 'r%d_uniform' % b, [s], Lazy(lambda b=b, st=st: Tup(st(s), m('unit%d' % b, st(s)))))
        ob('C19', 'Rand%d normal' % b, 'r%d_normal' % b, [s], Lazy(lambda b=b, st=st: Tup(st(st(s)), m('normal%d' % b, st(s), st(st(s))))))
        for n in (ZERO, ONE, toP(2), sym('n', 1)):
            ob('C19', 'Rand%d from str %s' % (b, n), 'r%d_str' % b, [storage('#str', n)],
               Lazy(lambda n=n, b=b: fold_(ZERO, n, lambda i, x: m('str%d' % b, x, T('get', ('#str', i))), 'P')))


def z(seed, i):
    """the i-th normal value of the stream"""
    st = lambda x: m('step32', x)
    a = fold_(seed, i, lambda _, x: st(st(x)), 'P')
    return m('normal32', st(a), st(st(a)))


def u(seed, i):
    st = lambda x: m('step32', x)
    a = fold_(seed, i, lambda _, x: st(x), 'P')
    return m('unit32', st(a))


def draws(ob, deep, names, values):
    s, y = sym('seed'), sym('other')
    mean, std = T('get', ('~mean', ZERO)), T('get', ('~std', ZERO))
    a, b = T('get', ('~a', ZERO)), T('get', ('~b', ZERO))
    for r in range(0, 6 if deep else 4):
        for ones in [()] + [(i,) for i in range(r)]:
            d = dims('d', r, ones=ones)
            nm = 'r%d%s' % (r, ' one@%d' % ones if ones else '')
            for f, args, mm, ss, prop in names(mean, std, s, y, a, b):
                alts = [Lazy(lambda d=d, mm=mm, ss=ss, value=value: Ten(d, lambda k: value(mm, ss, s, flat(k, d)))) for value in values]
                o = ob(prop, '%s %s' % (f, nm), f, [vec(d)] + args, alts[0])
                if len(alts) > 1:
                    o.alts = alts


def opts(kind, lo, hi):
    def names(mean, std, s, y, a, b):
        zero, one = fc(0), fc(1)
        return [(kind + '_seed', [s], zero, one, 'C19'), ('m_' + kind, [s], zero, one, 'C19'), (kind + '_all', [mean, std, s], mean, std, 'C19'),
                (kind + '_opt', [s], zero, one, 'C25'), (kind + '_all2', [mean, std, s], mean, std, 'C25'), (kind + '_all3', [mean, std, s], mean, std, 'C25'),
                (kind + '_def', [s], zero, one, 'C25'), (kind + lo, [mean, s], mean, one, 'C25'), (kind + hi, [std, s], zero, std, 'C25'),
                (kind + '_pair', [mean, std, s], mean, std, 'C25'), (kind + '_twice', [a, b, mean, std, y, s], mean, std, 'C25')]
    return names


def uniform(ob, deep):
    draws(ob, deep, opts('normal', '_mean', '_std'), [lambda mm, ss, s, i: T('Add', (mm, T('Mul', (z(s, i), ss))))])

    def scaled(x):
        return lambda mm, ss, s, i: T('Add', (mm, T('Mul', (x(s, i), T('max', (T('Sub', (ss, mm)), fc(0)))))))
    # which distribution the values follow is a separate obligation
    draws(ob, deep, opts('uniform', '_min', '_max'), [scaled(z), scaled(u)])
    n = sym('n', 1)
    s = sym('seed')
    ob('C19', 'random_uniform draws uniform values', 'uniform_seed', [vec([n]), s], Lazy(lambda: Ten([n], lambda k: scaled(u)(fc(0), fc(1), s, k[0]))))


def builders(ob, deep):
    n, B, m_ = sym('n', 1), sym('m', 1), sym('o', 1)

    def hist(fn, root, args, bins, assume=obl_stat.extremes):
        def add(name, _root, a, want, prop=None):
            ob('C25', root, root, [a[0]] + args, want, light=False, assume=assume)
        fn(add, ' ', root, n, bins)
    hist(obl_stat.one, 'hist_new', [], toP(10))
    hist(obl_stat.one, 'hist_def', [], toP(10))
    hist(obl_stat.one, 'hist_bins', [B], B)
    hist(obl_stat.one, 'hist_bins2', [m_, B], B)
    hist(obl_stat.two, 'hist2_new', [], toP(10))
    hist(obl_stat.two, 'hist2_bins', [B], B)
    hist(obl_stat.two, 'hist2_bins2', [m_, B], B)
    # derive_opt
    kinds = 'iiffifEE'
    isopt = [1, 1, 1, 1, 0, 0, 1, 0]
    dflt = [NONE] * 4 + [ZERO, fc(0), NONE, T('deflt')]

    def val(i, nm):
        k = kinds[i]
        return sym(nm) if k == 'i' else T('get', ('~' + nm, ZERO)) if k == 'f' else T(nm)

    def put(i, v):
        return some(v) if isopt[i] else v
    names = 'abcdefgh'
    ob('C25', 'derive_opt none', 'opt_none', [], Tup(*dflt))
    for i, f in enumerate(names):
        x = val(i, 'v')
        ob('C25', 'derive_opt () ' + f, 'opt_' + f, [x], Tup(*(dflt[:i] + [put(i, x)] + dflt[i + 1:])))
        for mask in (0, 255, 1 << i, 255 ^ (1 << i)):
            cur = [(put(j, val(j, 'v%d' % j)) if not isopt[j] or mask >> j & 1 else NONE) for j in range(8)]
            ob('C25', 'derive_opt set %s on %d' % (f, mask), 'set::' + f, cur + [x], Tup(*(cur[:i] + [put(i, x)] + cur[i + 1:])))
    vals = [val(j, 'v%d' % j) for j in range(8)]
    for f in ('opt_abcdefgh', 'opt_hgfedcba'):
        ob('C25', 'derive_opt ' + f, f, vals, Tup(*[put(j, v) for j, v in enumerate(vals)]))
    for mask in (0, 255, 0x55, 0xaa):
        cur = [(put(j, val(j, 'v%d' % j)) if not isopt[j] or mask >> j & 1 else NONE) for j in range(8)]
        ob('C25', 'derive_opt into_arg %d' % mask, 'set::into_arg', cur, Tup(*cur))
