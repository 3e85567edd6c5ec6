"""C11 operators and mathematical methods: each element is the same-named scalar operation on the elements."""
from spec import *
from terms import *

OPS = 'add sub mul div rem bitand bitor bitxor shl shr'.split()
PRIM = 'i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize f32 f64 bool'.split()
F1 = '''floor ceil round trunc fract signum recip sqrt exp exp2 ln log2 log10 to_degrees to_radians cbrt sin asin sinh asinh
 cos acos cosh acosh tan atan tanh atanh exp_m1 ln_1p sin_cos abs is_negative is_positive neg'''.split()
F2 = 'powf log hypot atan2 copysign powi abs_sub'.split()
S1, S2 = 'abs is_negative is_positive neg'.split(), ['abs_sub']
B1 = 'count_ones count_zeros leading_ones leading_zeros trailing_ones trailing_zeros swap_bytes reverse_bits to_be to_le'.split()
B2 = 'rotate_left rotate_right'.split()
C1 = 're im norm_sqr l1_norm norm arg to_polar conj inv finv from_polar'.split()
C2 = 'scale unscale expf powu powc fdiv'.split()


def on_elements(c):
    """a condition on element values, such as a divisor not being zero"""
    return any_node(c, lambda x: isinstance(x, T) and x.op == 'get')


def obls(deep=False):
    out = []

    def ob(name, root, args, expect, light=False):
        o = Ob('C11', name, 'ops::' + root, args, expect, light=light)
        o.assume = on_elements
        out.append(o)

    def pairs():
        yield '2,2', dims('d', 2), None
        d = dims('d', 2)
        yield '2,1', d, d[1:]
        yield '1,2', d[1:], d
        yield '2,0', d, []
        if deep:
            d = dims('d', 4)
            for i in range(1, 4):
                yield '4,%d' % i, d, d[i:]
                yield '%d,4' % i, d[i:], d

    def two(nm, root, fn, an='a', bn='b', light=False):
        for n, da, db in pairs():
            db = da if db is None else db
            d = da if len(da) >= len(db) else db
            a, b = Tin(an, da), Tin(bn, db)
            ob('%s %s' % (nm, n), root, [a, b], Ten(d, lambda k, a=a, b=b, da=da, db=db: fn(
                a.at(k[len(k) - len(da):]), b.at(k[len(k) - len(db):]))), light)

    def one(nm, root, fn, an='a', light=False):
        for r in (0, 1, 2) + ((3, 4) if deep else ()):
            a = Tin(an, dims('d', r))
            ob('%s r%d' % (nm, r), root, [a], Ten(a.d, lambda k, a=a: fn(a.at(k))), light)

    y = T('y')
    for op in OPS:
        for f in ('tt', 'rt', 'tr', 'rr'):
            two('%s %s' % (op, f), '%s::%s' % (op, f), lambda x, y, op=op: T(op, (x, y)))
        for f in ('ts', 'rs'):
            for r in (0, 1, 2):
                a = Tin('a', dims('d', r))
                ob('%s %s r%d' % (op, f, r), '%s::%s' % (op, f), [a, y], Ten(a.d, lambda k, a=a, op=op: T(op, (a.at(k), y))))
    for f in ('neg', 'not'):
        for s in 'tr':
            one('%s_%s' % (f, s), '%s_%s' % (f, s), lambda x, f=f: T(f, (x,)))
    one('square', 'square', lambda x: T('mule', (x, x)))
    for f in ('min', 'max'):
        for s in ('', '_r'):
            two(f + s, f + s, lambda x, y, f=f: T('e' + f, (x, y)))
        for r in (0, 1, 2):
            a = Tin('a', dims('d', r))
            ob('%s scalar r%d' % (f, r), f + '_s', [a, y], Ten(a.d, lambda k, a=a, f=f: T('e' + f, (a.at(k), y))))
    d = dims('d', 2)
    for n, db, dc in (('2,2,2', d, d), ('2,1,2', d[1:], d), ('2,2,1', d, d[1:]), ('2,1,0', d[1:], [])):
        a, b, c = Tin('a', d), Tin('b', db), Tin('c', dc)
        ob('mul_add ' + n, 'mul_add', [a, b, c], Ten(d, lambda k, a=a, b=b, c=c, db=db, dc=dc: T('muladd', (
            a.at(k), b.at(k[2 - len(db):]), c.at(k[2 - len(dc):])))))
    # primitive types
    for ty in PRIM:
        fl = '~' if ty[0] == 'f' else '' if ty == 'bool' else '#+' if ty[0] == 'u' else '#'
        sa, sb = T('get', (fl + 'sa', ZERO)), T('get', (fl + 'sb', ZERO))
        for op in OPS[:5] if fl == '~' else OPS[5:8] if ty == 'bool' else OPS:
            m = 'p_%s::%s' % (ty, op)
            for f in ('st', 'sr'):
                a = Tin(fl + 'a', dims('d', 2))
                ob('%s %s %s' % (ty, op, f), '%s::%s' % (m, f), [sa, a],
                   Ten(a.d, lambda k, a=a, m=m, sa=sa: call_('ops::%s::s' % m, sa, a.at(k))))
            a, b = Tin(fl + 'a', dims('d', 2)), Tin(fl + 'b', dims('d', 2)[1:])
            ob('%s %s tt' % (ty, op), m + '::tt', [a, b], Ten(a.d, lambda k, a=a, b=b, m=m: call_('ops::%s::s' % m, a.at(k), b.at(k[1:]))))
            ob('%s %s ts' % (ty, op), m + '::ts', [a, sb], Ten(a.d, lambda k, a=a, sb=sb, m=m: call_('ops::%s::s' % m, a.at(k), sb)))
    # methods
    for mod, f1, f2, fl in (('f_f32', F1, F2, '~'), ('f_f64', F1, F2, '~'), ('s_i32', S1, S2, '#'), ('s_i64', S1, S2, '#'),
                            ('b_u8', B1, B2, '#+'), ('b_i32', B1, B2, '#'), ('b_u64', B1, B2, '#+'), ('cx', C1, C2, '')):
        for f in f1:
            m = '%s::%s' % (mod, f)
            one(m, m + '::m', lambda x, m=m: call_('ops::%s::s' % m, x), fl + 'a')
        for f in f2:
            m = '%s::%s' % (mod, f)
            two(m, m + '::m', lambda x, y, m=m: call_('ops::%s::s' % m, x, y), fl + 'a', '#+n' if f in ('powi', 'powu') else fl + 'b')
    a = Tin('~a', dims('d', 2))
    n = sym('n')
    ob('powi scalar', 'powi_s', [a, n], Ten(a.d, lambda k, a=a: call_('ops::f_f32::powi::s', a.at(k), n)))
    return out
