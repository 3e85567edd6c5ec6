"""Equality of float expressions as real-number expressions.

Both sides are read as rational functions over the elements, the symbols and
prefix sums of powers of the elements.  A loop (fold) is replaced by a closed
form over those prefix sums after the closed form has been verified by
induction: base case and step, each a polynomial identity.  Identities are
decided exactly over the rationals at random points (Schwartz-Zippel).
"""
import random
import time
import prover
from fractions import Fraction as Fr
from terms import *
from prover import simp, Facts


class No(Exception):
    pass


class Ev:
    def __init__(self, seed, facts):
        self.seed = seed
        self.f = facts
        self.cache = {}
        self.steps = {}     # (name, stride) -> set of indices where a prefix sum is extended
        self.over = {}      # element values fixed by the caller
        self.depth = 0
        self.n = 0

    def rnd(self, *key, small=False):
        k = repr(key)
        if k not in self.cache:
            r = random.Random('%s/%s' % (self.seed, k))
            self.cache[k] = Fr(r.randint(10 ** 6, 10 ** 9)) if small else Fr(r.randint(-10 ** 9, 10 ** 9), r.randint(1, 10 ** 4))
        return self.cache[k]

    # ---- integers
    def p(self, p, env):
        r = Fr(0)
        for m, c in p.m.items():
            t = Fr(c)
            for a, e in m:
                t *= self.atom(a, env) ** e
            r += t
        return r

    def atom(self, a, env):
        if a in env:
            return env[a]
        if a.head == 's':
            return self.rnd('sym', a.key, small=True)
        raise No('integer %r' % (a,))

    def cond(self, c, env, f):
        d = f.decide(c)
        if d is not None:
            return d
        # constant counters of an expanded loop
        if c.op in ('ge0', 'eq0') and all(a in env and env.get(('const', a)) for a in all_atoms(c.args[0])):
            v = self.p(c.args[0], env)
            return v >= 0 if c.op == 'ge0' else v == 0
        if c.op == 'not':
            return not self.cond(c.args[0], env, f)
        raise No('condition %r' % (c,))

    # ---- elements
    def get(self, name, i):
        if (name, i) in self.over:
            return self.over[(name, i)]
        return self.rnd('el', name, i)

    def pre(self, q, name, b, i):
        """prefix sum of q-th powers along stride b, up to index i"""
        for j in self.steps.get((name, b), ()):
            if i == j + b:
                return self.pre(q, name, b, j) + self.get(name, j) ** q
        return self.rnd('pre', q, name, b, i)

    # ---- values
    def v(self, x, env, f):
        self.n += 1
        if self.n % 256 == 0 and time.time() > prover.CLOCK[0] or self.n > 400000:
            raise No('time')
        if isinstance(x, P):
            return self.p(x, env)
        if isinstance(x, G):
            return self.v(x.a if self.cond(x.c, env, f) else x.b, env, f)
        if not isinstance(x, T):
            raise No('value %s' % type(x).__name__)
        if x in env:
            return env[x]
        o = x.op
        if o == 'fc':
            z = float(x.args[0])
            if z != z or z in (float('inf'), float('-inf')):
                return self.rnd('fc', x.args[0])
            return Fr(z)
        if o == 'get':
            return self.get(x.args[0], self.p(x.args[1], env))
        if o == 'fold':
            return self.fold(x.args, env, f)
        if o.startswith('cast:f'):
            return self.v(x.args[0], env, f)
        a = [self.v(y, env, f) if not isinstance(y, str) else y for y in x.args]
        if o == 'Add':
            return a[0] + a[1]
        if o == 'Sub':
            return a[0] - a[1]
        if o == 'Mul':
            return a[0] * a[1]
        if o == 'Div':
            if a[1] == 0:
                return self.rnd('op', o, *a)
            return a[0] / a[1]
        if o == 'Neg' or o == 'neg':
            return -a[0]
        if o == 'mul_add':
            return a[0] * a[1] + a[2]
        if o == 'powi' and a[1].denominator == 1 and 0 <= a[1] <= 4:
            return a[0] ** int(a[1])
        if o in ('min', 'max'):
            a = sorted(a)
            if a[0] == a[1] or o == 'min' and a[1] > 3 * 10 ** 38:
                return a[0]
            if o == 'max' and a[0] < -3 * 10 ** 38:
                return a[1]
        if o == 'sqrt' and a[0] in (0, 1):
            return a[0]
        return self.rnd('op', o, *a)

    def fold(self, g, env, f):
        j, inits, n, k, sv, bodies = g
        nv = self.p(n, env)
        const = not all_atoms(n) or all(env.get(('const', a)) for a in all_atoms(n))
        if const:
            if nv > 8:
                raise No('long')
            cur = [self.v(x, env, f) for x in inits]
            for i in range(int(nv)):
                e = dict(env)
                e[k] = Fr(i)
                e[('const', k)] = True
                for s, c in zip(sv, cur):
                    e[s] = c
                ff = f.add(eq(atomP(k), toP(i)))
                cur = [self.v(simp(subst(b, {k: toP(i)}), f), e, f) for b in bodies]
            return cur[j]
        if len(inits) != 1:
            raise No('coupled fold')
        init, body, s = inits[0], bodies[0], sv[0]
        els = set()

        def find(x):
            if isinstance(x, T) and x.op == 'get' and k in all_atoms(x.args[1]):
                els.add(x)
            return False
        any_node(body, find)
        # elements of an inner loop over the same line are found there
        names = {(x.args[0], x.args[1]) for x in els if not any(a.key.startswith('$') and a is not k for a in all_atoms(x.args[1]))}
        if len(names) != 1:
            return self.general(init, n, k, s, body, env, f)
        name, idx = names.pop()
        i0 = subst(idx, {k: ZERO})
        b = subst(idx, {k: ONE}) - i0
        if k in all_atoms(b) or idx != i0 + b * atomP(k):
            raise No('index')
        a0, bv = self.p(i0, env), self.p(b, env)
        f1 = f.with_loop(k, n).add(ge0(atomP(k) - 1))
        # extremes
        if isinstance(body, T) and body.op in ('min', 'max') and s in body.args and T('get', (name, idx)) in body.args:
            neutral = isinstance(init, T) and init.op == 'fc' and (float(init.args[0]) > 3e38 if body.op == 'min' else float(init.args[0]) < -3e38)
            lo = a0
            if not neutral:
                if not (isinstance(init, T) and init.op == 'get' and init.args[0] == name and self.p(init.args[1], env) in (a0 - bv, a0)):
                    raise No('start of extreme')
                if self.p(init.args[1], env) == a0 - bv:
                    lo = a0 - bv
            return self.rnd('ext', body.op, name, bv, lo, a0 + bv * nv)

        def sums(q, m):
            return self.pre(q, name, bv, a0 + bv * m) - self.pre(q, name, bv, a0)

        def step(K, sval, x):
            e = dict(env)
            e[k] = K
            e.pop(('const', k), None)
            e[s] = sval
            i = a0 + bv * K
            self.steps.setdefault((name, bv), set()).add(i)
            self.over[(name, i)] = x
            self.depth += 1
            try:
                return self.v(body, e, f1)
            finally:
                self.depth -= 1
                del self.over[(name, i)]

        K = self.rnd('step', self.depth, small=True) + 17
        i = a0 + bv * K
        # additive with a quadratic term: s + alpha x^2 + beta x + gamma
        s0 = self.rnd('s0')
        body1 = self.first(body, k, f)
        try:
            g0 = step(K, s0, Fr(0)) - s0
            g1 = step(K, s0, Fr(1)) - s0
            g2 = step(K, s0, Fr(-1)) - s0
            al, be = (g1 + g2) / 2 - g0, (g1 - g2) / 2
            ok = all(step(KK, ss, xx) == ss + al * xx * xx + be * xx + g0
                     for KK, ss, xx in ((K, s0, self.rnd('x1')), (K + 5, self.rnd('s1'), self.rnd('x2'))))
            if ok and body1 is None:
                return self.v(init, env, f) + al * sums(2, nv) + be * sums(1, nv) + g0 * nv
        except No:
            pass
        # running mean, sum of squared deviations
        for C in (lambda m: sums(1, m) / m, lambda m: sums(2, m) - sums(1, m) ** 2 / m, lambda m: sums(2, m) / m - (sums(1, m) / m) ** 2):
            x = self.rnd('x3')
            self.steps.setdefault((name, bv), set()).add(i)
            try:
                got = step(K, C(K), x)
            except No:
                continue
            self.over[(name, i)] = x
            want = C(K + 1)
            del self.over[(name, i)]
            if got != want:
                continue
            # base: one element
            e = dict(env)
            one = self.v(T('fold', (0, inits, ONE, k, sv, bodies)), e, f)
            x0 = self.get(name, a0)
            key = (name, bv)
            self.steps.setdefault(key, set()).add(a0)
            if one == C(Fr(1)):
                return C(nv)
        return self.general(init, n, k, s, body, env, f)

    def general(self, init, n, k, s, body, env, f):
        """init plus the sum of terms g(k): the sum is named by the values of g at fixed
        random counters, up to a common factor"""
        if self.first(body, k, f) is not None:
            raise No('condition on the counter')
        f1 = f.with_loop(k, n)
        vals = []
        for i in range(4):
            e = dict(env)
            e[k] = self.rnd('gk', i, small=True)
            e.pop(('const', k), None)
            two = []
            for j in range(2):
                e[s] = self.rnd('gs', j)
                two.append(self.v(body, e, f1) - e[s])
            if two[0] != two[1]:
                raise No('not a sum')
            vals.append(two[0])
        lead = next((x for x in vals if x != 0), None)
        if lead is None:
            return self.v(init, env, f)
        return self.v(init, env, f) + lead * self.rnd('gsum', self.p(n, env), *[x / lead for x in vals])

    def first(self, body, k, f):
        """the body behaves differently in the first iteration: the condition, or None"""
        out = []

        def find(x):
            c = x.c if isinstance(x, G) else None
            if c is not None and k in all_atoms(c):
                out.append(c)
            return False
        any_node(body, find)
        return out[0] if out else None


def equal(a, b, f, depth=0):
    """True when the expressions are shown equal as real expressions"""
    c = split(a) or split(b)
    if c is not None and f.decide(c) is None:
        if depth > 4:
            return False
        from spec import resimp
        for x in (c, bnot(c)):
            ff = f.add(x)
            if not equal(resimp(a, f, ff), resimp(b, f, ff), ff, depth + 1):
                return False
        return True
    try:
        for seed in (1, 2):
            e = Ev(seed, f)
            if isinstance(a, Agg) and isinstance(b, Agg) and len(a.fs) == len(b.fs):
                if not all(equal(x, y, f, depth) for x, y in zip(a.fs, b.fs)):
                    return False
                continue
            if e.v(a, {}, f) != e.v(b, {}, f):
                return False
        return True
    except No as ex:
        equal.why = str(ex)
        return False


equal.why = ''


def split(v):
    """a condition outside any loop to split on"""
    if isinstance(v, G):
        return v.c
    if isinstance(v, T) and v.op != 'fold':
        for x in v.args:
            c = split(x)
            if c is not None:
                return c
    return None
