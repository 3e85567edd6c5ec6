"""Instantiation of derived summaries: evaluate a term at concrete sizes.  Only
used to tell a refuted obligation (with the sizes as witness) from an undecided one."""
import math
import random
import time
import prover
from terms import *


class NoValue(Exception):
    pass


class Env:
    def __init__(self, vals, special=None):
        self.v = dict(vals)
        self.memo = {}
        # (salt, float constants, integer constants): elements near these values, see samples
        self.special = special

    def child(self, extra):
        e = Env(self.v, self.special)
        e.v.update(extra)
        return e


LIMIT = 4000


STEPS = [0]


def tick():
    STEPS[0] += 1
    if STEPS[0] & 511 == 0 and prover.CLOCK[0] and time.time() > prover.CLOCK[0] + 2:
        raise Undecided('time budget (instances)')


def gi(p, env):
    """integer value of a polynomial"""
    tick()
    s = 0
    for k, c in p.m.items():
        t = c
        for a, e in k:
            t *= atom(a, env) ** e
        s += t
    return s


def atom(a, env):
    if a in env.v:
        return env.v[a]
    h = a.head
    if h == 's':
        raise NoValue(a.key)
    r = env.memo.get(a)
    if r is not None:
        return r
    r = _atom(a, h, env)
    env.memo[a] = r
    return r


def _atom(a, h, env):
    g = a.args
    if h == 'div':
        x, y = gi(g[0], env), gi(g[1], env)
        if y == 0:
            raise NoValue('div0')
        return int(x / y) if (x < 0) != (y < 0) else x // y
    if h == 'mod':
        x, y = gi(g[0], env), gi(g[1], env)
        if y == 0:
            raise NoValue('div0')
        return x - y * (int(x / y) if (x < 0) != (y < 0) else x // y)
    if h == 'min':
        return min(gi(g[0], env), gi(g[1], env))
    if h == 'max':
        return max(gi(g[0], env), gi(g[1], env))
    if h == 'ite':
        return gi(g[1], env) if gb(g[0], env) else gi(g[2], env)
    if h == 'pow':
        return gi(g[0], env) ** gi(g[1], env)
    if h == 'sum':
        k, t, b = g
        n = gi(t, env)
        if n > LIMIT:
            raise NoValue('long sum')
        return sum(gi(b, env.child({k: i})) for i in range(n))
    if h == 'ffail':
        k, c = g
        for i in range(LIMIT):
            if not gb(c, env.child({k: i})):
                return i
        raise NoValue('no exit')
    if h == 'foldi':
        return runfold(g, env)
    if h == 'discr':
        x = gv(g[0], env)
        if isinstance(x, tuple) and x[0] == 'agg' and len(x) == 3 and g[0].op in ('fld', 'ocmp'):
            return x[2] - 1     # Ordering
        if isinstance(x, tuple) and x[0] == 'agg':
            return x[2]
    if h in WOPS:
        return WOPS[h](*[gi(x, env) for x in g])
    # uninterpreted integer: a fixed pseudo-random function of its arguments
    key = (h,) + tuple(gv(x, env) for x in g)
    r = random.Random(repr(key))
    return r.randint(0, 3)


def runfold(g, env):
    i, inits, trip, k, sv, bodies = g
    n = gi(trip, env)
    if n > LIMIT:
        raise NoValue('long fold')
    cur = [gv(x, env) for x in inits]
    for j in range(n):
        e = env.child({k: j})
        for s, v in zip(sv, cur):
            e.v[s] = v
        cur = [gv(b, e) for b in bodies]
    return cur[i]


def num(x):
    return isinstance(x, float)


def gb(b, env):
    o = b.op
    if o == 'true':
        return True
    if o == 'false':
        return False
    if b in env.v:
        return env.v[b]
    if o == 'ge0':
        return gi(b.args[0], env) >= 0
    if o == 'eq0':
        return gi(b.args[0], env) == 0
    if o == 'not':
        return not gb(b.args[0], env)
    if o == 'and':
        return all(gb(x, env) for x in b.args)
    if o == 'or':
        return any(gb(x, env) for x in b.args)
    if o == 'all':
        n, k, e = b.args
        n = gi(n, env)
        if n > LIMIT:
            raise NoValue('long all')
        return all(gb(e, env.child({k: i})) for i in range(n))
    if o == 'foldb':
        return runfold(b.args, env)
    args = tuple(gv(x, env) for x in b.args)
    if o in ('flt', 'fle', 'feq') and all(num(x) for x in args):
        x, y = args
        if math.isnan(x) or math.isnan(y):
            return False
        return x < y if o == 'flt' else x <= y if o == 'fle' else x == y
    if o == 'eq' and args[0] == args[1]:
        return True
    if o == 'iter_eq':
        x, y = args
        return len(x) == len(y) and all(gb(B('eq', (T('$c', (i,)), T('$c', (j,)))), env) for i, j in zip(x[1:], y[1:]))
    if o == 'eq' and repr(args[1]) < repr(args[0]):
        args = (args[1], args[0])
    return random.Random(repr((o,) + args)).random() < 0.5


F1 = {'sqrt': math.sqrt, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'exp': math.exp, 'ln': math.log,
      'abs': abs, 'floor': math.floor, 'ceil': math.ceil, 'tanh': math.tanh, 'sinh': math.sinh, 'cosh': math.cosh,
      'atan': math.atan, 'asin': math.asin, 'acos': math.acos, 'log2': math.log2, 'log10': math.log10,
      'asinh': math.asinh, 'acosh': math.acosh, 'atanh': math.atanh, 'exp_m1': math.expm1, 'ln_1p': math.log1p,
      'to_radians': math.radians, 'to_degrees': math.degrees, 'recip': lambda x: 1.0 / x, 'trunc': math.trunc,
      'cbrt': lambda x: math.copysign(abs(x) ** (1 / 3), x), 'exp2': lambda x: 2.0 ** x,
      'fract': lambda x: x - math.trunc(x), 'Neg': lambda x: -x,
      'signum': lambda x: math.copysign(1.0, x),
      'round': lambda x: math.copysign(math.floor(abs(x) + 0.5), x)}
F2 = {'Add': lambda x, y: x + y, 'Sub': lambda x, y: x - y, 'Mul': lambda x, y: x * y,
      'Div': lambda x, y: x / y, 'Rem': math.fmod, 'max': max, 'min': min, 'atan2': math.atan2, 'hypot': math.hypot,
      'powf': lambda x, y: x ** y, 'copysign': math.copysign,
      'powi': lambda x, y: x ** y, 'log': lambda x, y: math.log(x) / math.log(y)}


def gv(v, env):
    if isinstance(v, P):
        return gi(v, env)
    if isinstance(v, B):
        return gb(v, env)
    if isinstance(v, (int, str, bool)) or v is None:
        return v
    if isinstance(v, tuple):
        return tuple(gv(x, env) for x in v)
    if isinstance(v, G):
        return gv(v.a, env) if gb(v.c, env) else gv(v.b, env)
    if isinstance(v, T):
        m = env.memo.get(id(v))
        if m is None:
            m = env.memo[id(v)] = (gt(v, env), v)
        return m[0]
    if isinstance(v, Agg):
        return ('agg', v.kind, v.var) + tuple(gv(x, env) for x in v.fs)
    if isinstance(v, Atom):
        return atom(v, env)
    if isinstance(v, Box):
        return gv(v.v, env)
    if isinstance(v, ConstRef):
        return gv(v.v, env)
    raise NoValue('value %s' % (str(v)[:40],))


LESS, EQUAL, GREATER = (('agg', 'adt', 1, ('agg', 'adt', i)) for i in range(3))
NOORD = ('agg', 'adt', 0)


def order_of(a, b):
    """a fixed pseudo-random partial comparison of opaque elements"""
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return LESS if a < b else GREATER if a > b else EQUAL if a == b else NOORD
    r = random.Random(repr((a, b))).random()
    return LESS if r < 0.25 else GREATER if r < 0.5 else EQUAL if r < 0.85 else NOORD


I2 = {'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b, 'Mul': lambda a, b: a * b,
      'Div': lambda a, b: abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1),
      'Rem': lambda a, b: abs(a) % abs(b) * (-1 if a < 0 else 1),
      'BitAnd': lambda a, b: a & b, 'BitOr': lambda a, b: a | b, 'BitXor': lambda a, b: a ^ b}


def gt(v, env):
    if v in env.v:
        return env.v[v]
    o = v.op
    if o == 'fold':
        return runfold(v.args, env)
    if o == 'seq':
        n, k, b = v.args
        n = gi(n, env)
        if n > LIMIT:
            raise NoValue('long sequence')
        return ('list',) + tuple(gv(b, env.child({k: i})) for i in range(n))
    if o == 'ecmp':
        return order_of(gv(v.args[0], env), gv(v.args[1], env))
    if o in ('fld', 'as'):
        x = gv(v.args[1], env)
        if isinstance(x, tuple) and x[0] == 'agg':
            if o == 'as':
                return x
            return x[3 + v.args[0]] if len(x) > 3 + v.args[0] else ('novariant',)
        return (o, v.args[0], x)
    if o == 'iter_partial_cmp':
        x, y = (gv(z, env) for z in v.args)
        for i, j in zip(x[1:], y[1:]):
            c = order_of(i, j)
            if c != EQUAL:
                return c
        return EQUAL if len(x) == len(y) else LESS if len(x) < len(y) else GREATER
    if o == 'fc':
        return float(v.args[0])
    if o == 'oob':
        raise NoValue('out of range')
    args = tuple(gv(x, env) for x in v.args)
    if o == 'get' and isinstance(args[0], str) and args[0].startswith('~'):
        return float_elem(args, env.special)
    if o == 'get' and isinstance(args[0], str) and args[0].startswith('#'):
        return int_elem(args, env.special)
    if o.startswith('cast:f') and not isinstance(args[0], tuple):
        return float(args[0])
    if o in I2 and len(args) == 2 and all(isinstance(x, int) and not isinstance(x, bool) for x in args):
        try:
            return I2[o](*args)
        except (ZeroDivisionError, ValueError):
            raise NoValue('integer operation')
    if o in ('BitAnd', 'BitOr', 'BitXor'):
        args = tuple(sorted(args, key=repr))
    try:
        if len(args) == 1 and o in F1 and num(args[0]):
            return float(F1[o](args[0]))
        if len(args) == 2 and o in F2 and num(args[0]) and isinstance(args[1], (float, int)):
            r = F2[o](args[0], args[1])
            if isinstance(r, complex):
                return float('nan')
            return float(r)
        if len(args) == 3 and o == 'mul_add' and all(num(x) for x in args):
            return args[0] * args[1] + args[2]
    except (ValueError, OverflowError, ZeroDivisionError):
        return float('nan')
    if o in ('max', 'min') and len(args) == 2 and all(isinstance(x, tuple) for x in args):
        pass
    if o in ('cosn', 'sinn') and len(args) == 3:
        return (math.cos if o == 'cosn' else math.sin)(2 * math.pi * args[0] * args[1] / args[2])
    if any(num(x) for x in args) and all(isinstance(x, (float, int)) for x in args) and not o.startswith('$'):
        # unknown function of reals: any fixed real
        return random.Random(o + repr(tuple(round(float(x), 9) for x in args))).uniform(-2, 2)
    return (o,) + args


def float_elem(args, special):
    """a float of the storage args[0]"""
    nm = args[0]
    rnd = random.Random(repr(args) if special is None else repr(args) + str(special[0]))
    near = None
    if special is not None and special[1] and rnd.random() < 0.7:
        c = rnd.choice(special[1])
        near = rnd.choice((c, c, c + 1.0, c - 1.0, 2 * c + 0.5, -c, c + 0.25, c - 0.25, c * 0.5))
    if '<' in nm or '>' in nm:
        # two storages ordered element by element, sometimes equal
        mid = 1.0 if '+' in nm else 0.5
        if near is not None:
            if '+' in nm:
                near = max(near, 0.25)
            return min(near, mid) if '<' in nm else max(near, mid)
        if rnd.random() < 0.25:
            return mid
        lo, hi = ((0.25 if '+' in nm else -3.0), mid) if '<' in nm else (mid, 4.0)
        return round(rnd.uniform(lo, hi), 3)
    if near is not None:
        if nm.startswith('~-') or nm[1:2] == '+':
            near = abs(near) or 0.5
            return -near if nm.startswith('~-') else near
        return near
    if nm.startswith('~-'):
        return -round(rnd.uniform(0.25, 4.0), 3)
    if special is not None:
        return round(rnd.uniform(0.25, 4.0) * (1 if nm[1:2] == '+' else rnd.choice((1, -1))), 3)
    return round(rnd.uniform(0.25, 4.0) * (1 if nm[1:2] == '+' else random.Random(repr(args) + 's').choice((1, -1))), 3)


def int_elem(args, special):
    """an integer of the storage args[0]; '#+': positive, '#w': bytes"""
    nm = args[0]
    rnd = random.Random(repr(args) if special is None else repr(args) + str(special[0]))
    if nm == '#w':
        return rnd.randint(0, 255)
    if special is not None and special[2] and rnd.random() < 0.6:
        h = rnd.choice(special[2])
        v = rnd.choice((h, h, h + 1, h - 1, 2 * h))
        return max(v, 1) if nm[1:2] == '+' else v * rnd.choice((1, 1, -1))
    return rnd.randint(1, 9) * (1 if nm[1:2] == '+' else rnd.choice((1, -1)))


def fhints(g, *w):
    """float constants that the first value is compared with and the others are not"""
    def harvest(vs):
        out = set()
        seen = set()
        todo = list(vs)
        while todo:
            v = todo.pop()
            if isinstance(v, (tuple, list, frozenset, set)):
                todo.extend(v)
                continue
            if not isinstance(v, (P, Atom, B, T, G, Agg)) or id(v) in seen:
                continue
            seen.add(id(v))
            if len(seen) > 20000:
                break
            if isinstance(v, P):
                todo.extend(a for k in v.m for a, _ in k)
            elif isinstance(v, Atom):
                todo.append(v.args)
            elif isinstance(v, (B, T)):
                todo.append(v.args)
                if isinstance(v, B) and v.op in ('flt', 'fle', 'feq'):
                    cs = [x for x in v.args if isinstance(x, T) and x.op == 'fc']
                    for x in cs:
                        try:
                            c = float(x.args[0])
                        except (ValueError, TypeError):
                            continue
                        if abs(c) <= 1e4:
                            out.add(c)
                    if not cs and v.op == 'feq':
                        out.add('dup')
            elif isinstance(v, G):
                todo.extend((v.c, v.a, v.b))
            elif isinstance(v, Agg):
                todo.extend(v.fs)
        return out
    new = harvest([g]) - harvest(w)
    if 'dup' in new:
        new.discard('dup')
        new |= {1.0, 2.0}
    return sorted(new)[:8]


def finite(a):
    if isinstance(a, float):
        return math.isfinite(a)
    if isinstance(a, tuple):
        return all(finite(x) for x in a)
    return True


def same(a, b):
    if isinstance(a, float) or isinstance(b, float):
        if not isinstance(a, (int, float)) or not isinstance(b, (int, float)):
            return False
        if math.isnan(a) and math.isnan(b):
            return True
        if a == b:
            return True
        return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def base_syms(*vs):
    out = set()
    for v in vs:
        for a in all_atoms(v):
            if a.head == 's' and not a.key.startswith('$'):
                out.add(a)
    return out


def holds(facts, env):
    for p in facts.ges:
        if gi(p, env) < 0:
            return False
    for p in facts.eqs:
        if gi(p, env) != 0:
            return False
    for b in facts.others:
        if not gb(b, env):
            return False
    for a, e in facts.sub.items():
        if a in env.v:
            if env.v[a] != gi(e, env):
                return False
            if a.lo is not None and env.v[a] < a.lo or a.hi is not None and env.v[a] > a.hi:
                return False
        elif a.head == 's':
            return False
    return True


def complete(facts, vals, special=None):
    """add the eliminated symbols"""
    env = Env(vals, special)
    for _ in range(3):
        for a, e in facts.sub.items():
            if a.head == 's' and a not in env.v:
                try:
                    env.v[a] = gi(e, env)
                except NoValue:
                    pass
    return env


def hints(*vs):
    """integer constants that occur in the terms: the sizes at which behaviour may change"""
    out = set()
    seen = set()
    todo = list(vs)
    while todo:
        v = todo.pop()
        if isinstance(v, int) and not isinstance(v, bool):
            v = abs(v)
            if 2 < v <= 20000:
                out.add(v)
            continue
        if v is None or isinstance(v, (str, float, bool)):
            continue
        if isinstance(v, (tuple, list, frozenset, set)):
            todo.extend(v)
            continue
        if id(v) in seen:
            continue
        seen.add(id(v))
        if len(seen) > 20000:
            break
        if isinstance(v, P):
            for k, c in v.m.items():
                todo.append(c)
                for a, _ in k:
                    todo.append(a)
        elif isinstance(v, Atom):
            todo.append(v.args)
        elif isinstance(v, (B, T)):
            todo.append(v.args)
        elif isinstance(v, G):
            todo.extend((v.c, v.a, v.b))
        elif isinstance(v, Agg):
            todo.extend(v.fs)
    return sorted(out)[:24]


def samples(facts, syms, n=60, seed=1, tries=1500, hint=(), fhint=()):
    """valuations of the base symbols satisfying the facts; with hints, a second round near those values, and a third
    one with elements near the float constants"""
    for e in samples0(facts, syms, n, seed, tries):
        yield e
    if hint:
        for e in samples0(facts, syms, 4 * n, seed, 6 * n, hint):
            yield e
    if fhint:
        for e in samples0(facts, syms, n, seed, 6 * n, (), fhint):
            yield e


def samples0(facts, syms, n, seed, tries, hint=(), fhint=()):
    rnd = random.Random(seed)
    syms = sorted((s for s in syms if s not in facts.sub), key=lambda a: a.key)
    out = 0
    seen = set()
    for t in range(tries):
        vals = {}
        mode = t % 8
        top = 1 + min(t // 24, 4) if mode < 6 else rnd.choice((2, 3, 5, 9, 24))
        for i, s in enumerate(syms):
            lo = s.lo if s.lo is not None else (-3 if t % 3 == 1 else 0)
            if t < 2:
                v = lo + t
            elif mode == 2:
                v = lo + 1 + (i + t // 8) % 3
            elif mode == 3:
                v = lo + 1 + (2 * i + t // 8) % 4
            elif mode == 4:
                v = max(lo, 2) + rnd.randint(0, 2)
            else:
                v = rnd.randint(lo, lo + top)
            if hint and t % 2:
                v = lo if v > lo + 3 else v
            vals[s] = v if s.hi is None else min(v, s.hi)
        if hint:
            for s in rnd.sample(syms, min(len(syms), 1 + (t % 3 == 2))):
                h = rnd.choice(hint)
                v = rnd.choice((h, h + 1, h - 1, h + 2, 2 * h + 1, 2 * h - 1, h + rnd.randint(0, h)))
                if s.lo is None or v >= s.lo:
                    vals[s] = v if s.hi is None else min(v, s.hi)
        env = None
        for _ in range(6):
            env = complete(facts, vals, (t, fhint, hint) if hint or fhint else None)
            try:
                if not repair(facts, env, vals):
                    break
            except NoValue:
                break
        try:
            if any(s.lo is not None and env.v.get(s, s.lo) < s.lo for s in facts.sub if s.head == 's'):
                continue
            if not holds(facts, env):
                continue
        except NoValue:
            continue
        key = (t if fhint else None,) + tuple(sorted((a.key, v) for a, v in env.v.items() if isinstance(a, Atom)))
        if key in seen:
            continue
        seen.add(key)
        yield env
        out += 1
        if out >= n:
            return


def repair(facts, env, vals):
    """raise a free symbol so that a violated lower bound holds; True when something changed"""
    for p in facts.ges:
        v = gi(p, env)
        if v >= 0:
            continue
        best = None
        for k, c in p.m.items():
            if c > 0 and len(k) == 1 and k[0][1] == 1:
                a = k[0][0]
                if a.head == 's' and a in vals and (best is None or a.key.startswith('N_')):
                    best = (a, c)
        if best is None:
            for k, c in p.m.items():
                if c < 0 and len(k) == 1 and k[0][1] == 1 and k[0][0].head == 's' and k[0][0] in vals:
                    a = k[0][0]
                    x = vals[a] - (-v + (-c) - 1) // (-c)
                    if a.lo is None or x >= a.lo:
                        vals[a] = x
                        return True
            return False
        a, c = best
        x = vals[a] + (-v + c - 1) // c
        if a.hi is not None and x > a.hi:
            return False
        vals[a] = x
        return True
    return False
