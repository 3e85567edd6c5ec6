"""Order/equality reasoning over polynomials: syntactic elimination of bounded
variables; sound, incomplete, no solver."""
import time
import itertools
from terms import *

CLOCK = [0, 0]     # deadline of the current obligation, counter


class NoVal(Exception):
    pass


def ev(p, env):
    s = 0
    for k, c in p.m.items():
        t = c
        for a, e in k:
            v = env.get(a)
            if v is None:
                v = env[a] = ev_atom(a, env)
            t *= v if e == 1 else v ** e
        s += t
    return s


def ev_atom(a, env):
    h = a.head
    g = a.args
    if h == 's':
        if a.key.startswith('$'):
            raise NoVal
        i = env['#']
        lo = -2 if a.lo is None else a.lo
        v = lo if i == 0 and a.lo is not None else lo + (hash_(a.key) >> (3 * i)) % (3 + i)
        return v if a.hi is None else min(v, a.hi)
    if h in ('div', 'mod'):
        x, y = ev(g[0], env), ev(g[1], env)
        if y <= 0 or x < 0:
            raise NoVal
        return x // y if h == 'div' else x % y
    if h == 'min':
        return min(ev(g[0], env), ev(g[1], env))
    if h == 'max':
        return max(ev(g[0], env), ev(g[1], env))
    if h == 'ite':
        return ev(g[1], env) if evb(g[0], env) else ev(g[2], env)
    raise NoVal


def evb(b, env):
    o = b.op
    if o == 'ge0':
        return ev(b.args[0], env) >= 0
    if o == 'eq0':
        return ev(b.args[0], env) == 0
    if o == 'not':
        return not evb(b.args[0], env)
    if o == 'and':
        return all([evb(x, env) for x in b.args])
    if o == 'or':
        return any([evb(x, env) for x in b.args])
    if o in ('true', 'false'):
        return o == 'true'
    raise NoVal


_hc = {}


def hash_(key):
    r = _hc.get(key)
    if r is None:
        import zlib
        r = zlib.crc32(key.encode())
        r = _hc[key] = r ^ (r << 17) ^ (zlib.crc32(key[::-1].encode()) << 11)
    return r


def instances(f):
    out = []
    for i in range(9):
        pins = {}
        for _ in range(4):
            env = dict(pins)
            env['#'] = i
            r = inst1(f, env, i, pins)
            if r is True:
                out.append(env)
                break
            if r is False:
                break
        if len(out) >= 4:
            break
    return out


def inst1(f, env, i, pins):
    """True: consistent; False: give up; None: a symbol was pinned, try again"""
    lk = set()
    try:
        for k, t in f.loops:
            n = ev(t, env)
            lk.add(k)
            if n <= 0:
                return bump(t - 1, n - 1, env, lk, pins)
            env[k] = 0 if i == 0 else n - 1 if i == 1 else (hash_(k.key) >> i) % n
        for p in f.ges:
            try:
                v = ev(p, env)
            except NoVal:
                continue
            if v < 0:
                return bump(p, v, env, lk, pins)
        for p in f.eqs:
            try:
                if ev(p, env) != 0:
                    return False
            except NoVal:
                continue
        for b in f.others:
            try:
                if not evb(b, env):
                    return False
            except NoVal:
                continue
    except NoVal:
        return False
    return True


def bump(p, v, env, lk, pins):
    for k, c in p.m.items():
        if c > 0 and len(k) == 1 and k[0][1] == 1 and k[0][0].head == 's' and k[0][0] not in lk:
            a = k[0][0]
            pins[a] = env[a] + (-v + c - 1) // c
            if a.hi is not None and pins[a] > a.hi:
                return False
            return None
    return False


class Facts:
    """immutable conjunction of assumed conditions"""
    __slots__ = ('ges', 'eqs', 'others', 'loops', 'memo', 'sub')

    def __init__(self, ges=(), eqs=(), others=(), loops=(), sub=None):
        self.ges = ges
        self.eqs = eqs
        self.others = others
        self.loops = loops     # tuple of (atom, trip)
        self.memo = {}
        self.sub = sub or {}

    def add(self, b):
        if b.op == 'true':
            return self
        if b.op == 'and':
            f = self
            for x in b.args:
                f = f.add(x)
            return f
        if b.op == 'ge0':
            p = self.norm(b.args[0])
            if p.is_const() or p in self.ges or self._shift_nonneg(p):
                return self
            # g*q >= c > 0 with g >= 0  =>  q >= 1
            c0 = p.m.get((), 0)
            if c0 < 0:
                r = p - c0
                g = common_mono(r, r)
                if g is not None:
                    gp = P({g: 1})
                    q = exact_div(r, gp)
                    if q is not None and not q.is_const() and self._shift_nonneg(gp):
                        return self.add(ge0(q - 1))
            # p>=0 and -p>=0 known -> equality
            if self.prove_ge(-p):
                return self.add(eq0(p))
            # tighten p>=0 where p<=0 structurally
            return Facts(self.ges + (p,), self.eqs, self.others, self.loops, self.sub)
        if b.op == 'eq0':
            p = self.norm(b.args[0])
            if p.is_const():
                return self
            s = solve_atom(p)
            if s is None and len(p.m) == 2 and abs(p.m.get((), 0)) == 1:
                # a product of positive integers which is one
                m, c = next((m, c) for m, c in p.m.items() if m)
                if c == -p.m[()] and len(m) > 1 and all(a.lo is not None and a.lo >= 1 and a.head == 's' for a, e in m):
                    f = self
                    for a, e in m:
                        f = f.add(eq0(atomP(a) - 1))
                    return f
            if s is not None:
                a, e = s
                sub = {k: subst(v, {a: e}) for k, v in self.sub.items()}
                sub[a] = e
                ges = tuple(subst(g, {a: e}) for g in self.ges)
                if a.lo is not None and not e.is_const():
                    ges = ges + (e - a.lo,)
                loops = tuple((k, subst(t, {a: e})) for k, t in self.loops if k is not a)
                for k, t in self.loops:
                    if k is a:
                        ges = ges + (e, subst(t, {a: e}) - e - 1)
                return Facts(tuple(g for g in ges if not g.is_const()), self.eqs, self.others, loops, sub)
            return Facts(self.ges, self.eqs + (p,), self.others, self.loops, self.sub)
        if b in self.others:
            return self
        return Facts(self.ges, self.eqs, self.others + (b,), self.loops, self.sub)

    def with_loop(self, k, trip):
        return Facts(self.ges, self.eqs, self.others, self.loops + ((k, trip),), self.sub)

    def norm(self, p):
        return subst(p, self.sub) if self.sub else p

    # ---------------------------------------------------------- deciding
    def decide(self, b):
        """True / False / None"""
        if b.op == 'true':
            return True
        if b.op == 'false':
            return False
        r = self.memo.get(b, 0)
        if r != 0:
            return r
        r = self._decide(b)
        self.memo[b] = r
        return r

    def _decide(self, b):
        if b in self.others:
            return True
        nb = bnot1(b)
        if nb is not None and nb in self.others:
            return False
        if b.op == 'ge0':
            p = self.norm(b.args[0])
            if p.is_const():
                return p.const() >= 0
            if self.prove_ge(p):
                return True
            if self.prove_ge(-p - 1):
                return False
            return None
        if b.op == 'eq0':
            p = self.norm(b.args[0])
            if p.is_const():
                return p.const() == 0
            if p in self.eqs or -p in self.eqs:
                return True
            if self.prove_ge(p - 1) or self.prove_ge(-p - 1):
                return False
            if self.prove_ge(p) and self.prove_ge(-p):
                return True
            # product of nonzero factors
            return None
        if b.op == 'not':
            r = self.decide(b.args[0])
            return None if r is None else not r
        if b.op == 'and':
            rs = [self.decide(x) for x in b.args]
            if any(r is False for r in rs):
                return False
            return True if all(rs) else None
        if b.op == 'or':
            rs = [self.decide(x) for x in b.args]
            if any(r is True for r in rs):
                return True
            return False if all(r is False for r in rs) else None
        return None

    def prove_ge(self, p):
        p = self.norm(p)
        key = ('g', p)
        r = self.memo.get(key)
        if r is None:
            self.memo[key] = False
            r = (p.const() >= 0) if p.is_const() else self._shift_nonneg(p) or (not self.refuted(p) and self._ge(p, 0, ()))
            self.memo[key] = r
        return r

    def refuted(self, p):
        """a consistent instance of the facts makes p negative: no need to search"""
        envs = self.memo.get('envs')
        if envs is None:
            envs = self.memo['envs'] = instances(self)
        for e in envs:
            try:
                if ev(p, e) < 0:
                    return True
            except NoVal:
                pass
        return False

    def bounds(self, a):
        """(lo, hi) polys or None for an atom"""
        for k, t in self.loops:
            if k is a:
                return ZERO, t - 1
        if a.head == 'mod':
            return ZERO, a.args[1] - 1
        lo = None if a.lo is None else toP(a.lo)
        hi = None if a.hi is None else toP(a.hi)
        return lo, hi

    def upper(self, a):
        """an upper bound of a symbol given by a single linear fact"""
        key = ('u', a)
        if key not in self.memo:
            r = None
            for p in self.ges:
                if p.m.get(((a, 1),)) == -1:
                    h = p + atomP(a)
                    if a not in all_atoms(h) and len(h.m) <= 2 and (r is None or len(h.m) < len(r.m)):
                        r = h
            self.memo[key] = r
        return self.memo[key]

    def _ge(self, p, depth, used):
        if p.is_const():
            return p.const() >= 0
        CLOCK[1] += 1
        if CLOCK[1] & 255 == 0 and CLOCK[0] and time.time() > CLOCK[0]:
            raise Undecided('time budget')
        if depth > 12:
            return False
        # quick: all atoms at lower bound give nonneg coefficients
        if self._shift_nonneg(p):
            return True
        # case splits on ite/min/max
        for a in sorted(p.atoms(), key=lambda a: -a.order):
            if a.head == 'ite' and depth < 6:
                c, x, y = a.args
                fa = self.add(c)
                fb = self.add(bnot(c))
                return fa._ge(fa.norm(subst(p, {a: x})), depth + 1, used) and \
                    fb._ge(fb.norm(subst(p, {a: y})), depth + 1, used)
            if a.head in ('min', 'max') and depth < 6:
                x, y = a.args
                d = ge0(y - x)   # x<=y
                fa = self.add(d)
                fb = self.add(bnot(d))
                u, v = (x, y) if a.head == 'min' else (y, x)
                return fa._ge(fa.norm(subst(p, {a: u})), depth + 1, used) and \
                    fb._ge(fb.norm(subst(p, {a: v})), depth + 1, used)
        # div: q = div(x,y): q*y <= x  and x <= q*y + y-1
        for a in p.atoms():
            if a.head == 'div':
                x, y = a.args
                # eliminate via monomials q*y
                cs = p.coeffs(a)
                if len(cs) == 2 and cs[1].is_const() and abs(cs[1].const()) == 1 and a not in all_atoms(cs[0]) and \
                        self.pos(y) and self.prove_ge(x):
                    # q <= A  <=>  x < (A+1)*y ;  q >= A  <=>  x >= A*y
                    if cs[1].const() < 0:
                        return self._ge(self.norm((cs[0] + 1) * y - x - 1), depth + 1, used)
                    return self._ge(self.norm(x + cs[0] * y), depth + 1, used)
                if len(cs) == 2:
                    m = exact_div(cs[1], y)
                    if m is not None:
                        # p = m*y*q + r ; y*q = x - mod(x,y)
                        r = imod(x, y)
                        q = m * (x - r) + cs[0]
                        if a not in q.atoms():
                            return self._ge(self.norm(q), depth + 1, used)
                    # scale: y>0 : p>=0 <=> y*p >=0
                    if self.pos(y) and ('scale', a) not in used:
                        r = imod(x, y)
                        q = cs[1] * (x - r) + cs[0] * y
                        if a not in q.atoms():
                            return self._ge(self.norm(q), depth + 1, used + (('scale', a),))
        # eliminate innermost loop variable / bounded atom
        cands = []
        for i, (k, t) in enumerate(reversed(self.loops)):
            if k in p.atoms():
                cands.append(k)
        for a in p.atoms():
            if a.head == 'mod':
                cands.append(a)
        for a in cands:
            lo, hi = self.bounds(a)
            cs = p.coeffs(a)
            if len(cs) != 2:
                continue
            c, b = cs[1], cs[0]
            if a in all_atoms(c) or a in all_atoms(b):
                continue
            at_lo = b + c * lo
            at_hi = b + c * hi
            if self._sign_nonneg(c):
                return self._ge(at_lo, depth + 1, used) or self._with_facts(p, depth, used)
            if self._sign_nonneg(-c):
                return self._ge(at_hi, depth + 1, used) or self._with_facts(p, depth, used)
            return (self._ge(at_lo, depth + 1, used) and self._ge(at_hi, depth + 1, used)) or self._with_facts(p, depth, used)
        # upper bounds of symbols
        for a in p.atoms():
            lo, hi = self.bounds(a)
            if hi is not None and lo is not None and a.head == 's':
                cs = p.coeffs(a)
                if len(cs) == 2 and self._sign_nonneg(-cs[1]):
                    return self._ge(cs[0] + cs[1] * hi, depth + 1, used)
        return self._with_facts(p, depth, used) or self._uppers(p, depth, used)

    def _uppers(self, p, depth, used):
        """replace a bounded symbol with a nonpositive coefficient by its bound"""
        if any(u[0] == 'f' or u[0] == 'e' for u in used):
            return False
        for a in sorted(p.atoms(), key=lambda a: -a.order):
            if a.head == 's' and ('u', a) not in used:
                hi = self.upper(a)
                if hi is None:
                    continue
                cs = p.coeffs(a)
                if len(cs) == 2 and a not in all_atoms(cs[0]) and self._sign_nonneg(-cs[1]):
                    return self._ge(self.norm(cs[0] + cs[1] * hi), depth + 1, used + (('u', a),))
        return False

    def _with_facts(self, p, depth, used):
        if depth > 5:
            return False
        pa = p.atoms()
        for i, f in enumerate(self.ges):
            if ('f', i) in used:
                continue
            if not (f.atoms() & pa):
                continue
            # p = m*f + r  with m>=0
            cands = [ONE]
            for k, c in f.m.items():
                for k2, c2 in p.m.items():
                    if c * c2 > 0:
                        d = mono_div(k2, k)
                        if d is not None and k:
                            q = P({d: max(1, c2 // c)})
                            if q not in cands:
                                cands.append(q)
            for m in cands[:6]:
                if self._sign_nonneg(m) and self._ge(p - m * f, depth + 2, used + (('f', i),)):
                    return True
        for i, e in enumerate(self.eqs):
            if ('e', i) in used or not (e.atoms() & pa):
                continue
            for s in (e, -e):
                for k, c in s.m.items():
                    for k2, c2 in p.m.items():
                        if c * c2 > 0 and k:
                            d = mono_div(k2, k)
                            if d is not None and c2 % c == 0:
                                if self._ge(p - P({d: c2 // c}) * s, depth + 2, used + (('e', i),)):
                                    return True
        return False

    def pos(self, p):
        return self.prove_ge(p - 1)

    def _sign_nonneg(self, c):
        if c.is_const():
            return c.const() >= 0
        return self._shift_nonneg(c) or (len(c.m) <= 3 and any(c == g for g in self.ges))

    def _shift_nonneg(self, p):
        """substitute x = lo + x' for every atom with constant lower bound and
        check that all coefficients are nonnegative"""
        q = p
        for a in p.atoms():
            lo, hi = self.bounds(a)
            if lo is None or not lo.is_const():
                return False
            l = lo.const()
            # loop var of nonempty loop: lo 0
            if l != 0:
                q = subst_atom(q, a, l)
        return all(c >= 0 for c in q.m.values())


def subst_atom(q, a, l):
    """replace atom a by (a + l) without touching nested occurrences"""
    out = ZERO
    base = atomP(a) + l
    pw = [ONE]
    for i, c in enumerate(q.coeffs(a)):
        while len(pw) <= i:
            pw.append(pw[-1] * base)
        out = out + c * pw[i]
    return out


def solve_atom(p):
    """p == 0  ->  (atom, expr) for an atom occurring linearly with coeff +-1"""
    best = None
    for k, c in p.m.items():
        if len(k) == 1 and k[0][1] == 1 and c in (1, -1):
            a = k[0][0]
            rest = P({kk: cc for kk, cc in p.m.items() if kk != k})
            if a in all_atoms(rest):
                continue
            e = rest * (-c)
            rank = (1 if a.head == 's' else 0, a.order)
            if best is None or rank > best[0]:
                best = (rank, a, e)
    if best is None:
        return None
    return best[1], best[2]


# ---------------------------------------------------------------- simplifier
def simp(v, facts, memo=None):
    """simplify div/mod/ite/min/max using facts"""
    if memo is None:
        memo = {}
    return _s(v, facts, memo)


def _s(v, f, memo):
    if isinstance(v, P):
        if v.is_const():
            return v
        r = memo.get(v)
        if r is None:
            r = _sP(v, f, memo)
            memo[v] = r
        return r
    if isinstance(v, (int, str, bool)) or v is None:
        return v
    if isinstance(v, tuple):
        if not v:
            return v
        out = tuple(_s(x, f, memo) for x in v)
        return v if all(x is y for x, y in zip(out, v)) else out
    if isinstance(v, Atom):
        return v
    key = ('id', id(v))
    r = memo.get(key)
    if r is not None:
        return r[1]
    r = _s2(v, f, memo)
    memo[key] = (v, r)
    return r


def _s2(v, f, memo):
    if isinstance(v, B):
        d = f.decide(v)
        if d is not None:
            return TRUE if d else FALSE
        if not v.args:
            return v
        if v.op == 'ge0':
            r = ge_quot(_s(v.args[0], f, memo), f)
            if r.op == 'ge0' and r != v:
                d = f.decide(r)
                if d is not None:
                    return TRUE if d else FALSE
            return r
        if v.op == 'and' and any_node(v, lambda x: isinstance(x, Atom) and x.head in ('mod', 'div')):
            # each conjunct under the ones before it
            out = []
            ff = f
            for a in v.args:
                a = _s(a, f, memo) if ff is f else simp(a, ff)
                if a.op == 'false':
                    return FALSE
                if a.op != 'true':
                    out.append(a)
                    if a.op == 'ge0' or a.op == 'eq0':
                        ff = ff.add(a)
            return band(*out)
        return mkB(v.op, tuple(_s(a, f, memo) for a in v.args))
    if isinstance(v, T):
        if not v.args:
            return v
        if v.op == 'fold':
            return T('fold', simp_fold(v.args, f, memo))
        if v.op == 'seq':
            n, k, b = v.args
            n = _s(n, f, memo)
            return T('seq', (n, k, simp(b, f.with_loop(k, n))))
        return T(v.op, tuple(_s(a, f, memo) for a in v.args))
    if isinstance(v, G):
        return gmerge(_s(v.c, f, memo), v.a, v.b, f)
    if isinstance(v, Agg):
        return Agg(v.kind, v.tid, v.var, _s(v.fs, f, memo))
    if isinstance(v, Box):
        return Box(v.kind, _s(v.v, f, memo))
    if isinstance(v, Ptr):
        return Ptr(_s(v.root, f, memo), _s(v.path, f, memo), _s(v.n, f, memo))
    if isinstance(v, Iter):
        return Iter(v.kind, _s(v.a, f, memo), _s(v.front, f, memo), _s(v.back, f, memo))
    if isinstance(v, Item):
        return Item(_s(v.v, f, memo))
    if isinstance(v, Loop):
        t = _s(v.t, f, memo)
        return Loop(v.k, t, simp(v.segs, f.with_loop(v.k, t)))
    if isinstance(v, If):
        return mkIf(_s(v.c, f, memo), _s(v.a, f, memo), _s(v.b, f, memo))
    if isinstance(v, Seq):
        return Seq(_s(v.len, f, memo), _s(v.segs, f, memo), _s(v.ws, f, memo))
    if isinstance(v, W):
        ff = f
        loops = []
        for k, t in v.loops:
            t = simp(t, ff)
            loops.append((k, t))
            ff = ff.with_loop(k, t)
        c = simp(v.cond, ff)
        return W(tuple(loops), c, simp(v.idx, ff), simp(v.v, ff.add(c) if c.op != 'false' else ff))
    return v


def ge_quot(p, f):
    """d*q + r >= 0 with 0 <= r < d (or -d <= r < 0) is q >= 0 (q - 1 >= 0)"""
    for _ in range(6):
        for d in sorted(p.atoms(), key=lambda a: -a.order):
            if d.head != 's' or d.lo is None or d.lo < 1:
                continue
            cs = p.coeffs(d)
            if len(cs) != 2 or cs[1].is_const() or d in all_atoms(cs[0]) or d in all_atoms(cs[1]):
                continue
            q, r = cs[1], cs[0]
            D = atomP(d)
            if not r.m or f.prove_ge(r) and f.prove_ge(D - 1 - r):
                p = q
                break
            if f.prove_ge(-1 - r) and f.prove_ge(r + D):
                p = q - 1
                break
        else:
            break
    return ge0(p)


def simp_fold(args, f, memo):
    i, inits, trip, k, sv, bodies = args
    inits = _s(inits, f, memo)
    trip = _s(trip, f, memo)
    bodies = simp(bodies, f.with_loop(k, trip))
    return (i, inits, trip, k, sv, bodies)


def gmerge(c, a, b, f):
    if c.op == 'true':
        return simp(a, f)
    if c.op == 'false':
        return simp(b, f)
    if a == b:
        return simp(a, f)
    if isinstance(a, P) and isinstance(b, P):
        r = wrap_ite(c, a, b, f)
        if r is not None:
            return simp(r, f)
    fa = f.add(c)
    a2 = simp(subst(a, fa.sub) if fa.sub is not f.sub else a, fa)
    fb = f.add(bnot(c))
    b2 = simp(subst(b, fb.sub) if fb.sub is not f.sub else b, fb)
    if a2 == b2:
        return a2
    # prefer the unrefined form of the side that agrees under refinement
    if fa.sub and fa.sub is not f.sub:
        if simp(subst(b2, fa.sub), fa) == a2:
            return b2
    if fb.sub and fb.sub is not f.sub:
        a3 = simp(a, f)
        if simp(subst(a3, fb.sub), fb) == b2:
            return a3
    return mkG(c, a2, b2)


def wrap_ite(c, a, b, f):
    """if b >= m then b mod m else b  ==  b mod m"""
    for cc, x, y in ((c, a, b), (bnot(c), b, a)):
        if cc.op != 'ge0':
            continue
        m = as_atom(x)
        if m is not None and m.head == 'mod' and m.args[0] == y:
            if cc == ge0(y - m.args[1]) and f.prove_ge(y):
                return x
            continue
        if x.is_const() and x.m:
            continue
        m = y - cc.args[0]
        if not m.is_const() and all_atoms(m) <= all_atoms(y) | all_atoms(cc.args[0]) and f.prove_ge(y) and f.pos(m) \
                and smod(y, m, f) == x:
            return x
    return None


def _sP(p, f, memo):
    p = f.norm(p)
    if p.is_const():
        return p
    env = {}
    for a in p.atoms():
        if a.head == 's':
            continue
        r = simp_atom(a, f, memo)
        if r is not None:
            env[a] = r
    if not env:
        return p
    out = ZERO
    for k, c in p.m.items():
        t = P({(): c})
        for a, e in k:
            x = env.get(a)
            x = atomP(a) if x is None else x
            for _ in range(e):
                t = t * x
        out = out + t
    return out


def simp_atom(a, f, memo):
    key = ('at', a)
    if key in memo:
        return memo[key]
    r = _simp_atom(a, f, memo)
    if r is not None and as_atom(r) is a:
        r = None
    memo[key] = r
    return r


def _simp_atom(a, f, memo):
    if a.head == 'ite':
        c, x, y = a.args
        r = gmerge(_s(c, f, memo), x, y, f)
        return r
    if a.head in ('min', 'max'):
        x, y = _s(a.args[0], f, memo), _s(a.args[1], f, memo)
        if f.prove_ge(y - x):
            return x if a.head == 'min' else y
        if f.prove_ge(x - y):
            return y if a.head == 'min' else x
        return imin(x, y) if a.head == 'min' else imax(x, y)
    if a.head in ('div', 'mod'):
        x, y = _s(a.args[0], f, memo), _s(a.args[1], f, memo)
        return (sdiv if a.head == 'div' else smod)(x, y, f)
    if a.head == 'sum':
        k, t, b = a.args
        t2 = _s(t, f, memo)
        b2 = simp(b, f.with_loop(k, t2))
        return isum(k, t2, b2)
    if a.head == 'foldi':
        return atomP(Atom('foldi', simp_fold(a.args, f, memo)))
    args = tuple(_s(x, f, memo) for x in a.args)
    if all(x is y for x, y in zip(args, a.args)):
        return None
    return mkI(a.head, args, a)


def sdiv(x, y, f):
    """floor(x/y) for y>0, x>=0"""
    if y.is_const() and x.is_const():
        return idiv(x, y)
    q, r = split_div(x, y)
    if r.m or True:
        if f.prove_ge(r) and f.prove_ge(y - r - 1):
            return q
    if q.m and f.prove_ge(r):
        # (y*q + r) div y = q + r div y
        return q + sdiv0(r, y, f)
    if q.m and len(y.m) > 1 and f.prove_ge(x):
        for d in (-1, 1):
            r2 = r - y * d
            if f.prove_ge(r2) and f.prove_ge(y - r2 - 1):
                return q + d
    # nested: (x div a) div b = x div (a*b)
    return sdiv0(x, y, f)


def sdiv0(x, y, f):
    a = as_atom(x)
    if a is not None and a.head == 'div':
        return sdiv(a.args[0], a.args[1] * y, f) if f.pos(a.args[1]) and f.pos(y) else idiv(x, y)
    # cancel common factor monomial
    g = common_mono(x, y)
    if g is not None:
        gp = P({g: 1})
        if f.pos(gp):
            return idiv(exact_div(x, gp), exact_div(y, gp))
        return idiv(x, y)
    # (a*b + r) div (b*c) with 0<=r<b  ->  a div c   (b a single factor of y)
    if len(y.m) == 1:
        (ky, cy), = y.m.items()
        for bp in submonos(ky):
            q, r = split_div(x, bp)
            if q.m and r.m and f.prove_ge(r) and f.prove_ge(bp - r - 1):
                return sdiv(q, exact_div(y, bp), f)
    return idiv(x, y)


def smod(x, y, f):
    if y.is_const() and x.is_const():
        return imod(x, y)
    a = as_atom(x)
    if a is not None and a.head == 'mod' and exact_div(a.args[1], y) is not None:
        return smod(a.args[0], y, f)
    q, r = split_div(x, y)
    if f.prove_ge(r) and f.prove_ge(y - r - 1):
        return r
    if q.m and f.prove_ge(r) and f.prove_ge(q):
        return imod(r, y)
    if q.m and len(y.m) > 1 and f.prove_ge(x):
        for d in (-1, 1):
            r2 = r - y * d
            if f.prove_ge(r2) and f.prove_ge(y - r2 - 1):
                return r2
    # (a*b + r) mod (b*c), 0<=r<b -> (a mod c)*b + r
    if len(y.m) == 1:
        (ky, cy), = y.m.items()
        for bp in submonos(ky):
            c = exact_div(y, bp)
            if c == ONE:
                continue
            q, r = split_div(x, bp)
            if q.m and f.prove_ge(r) and f.prove_ge(bp - r - 1):
                return smod(q, c, f) * bp + r
    return imod(x, y)


def submonos(ky):
    """proper divisors of a monomial, single factors first"""
    one = [atomP(a) for a, _ in ky]
    yield from one
    flat = [a for a, e in ky for _ in range(e)]
    if 2 < len(flat) <= 6:
        seen = set(one)
        for n in range(2, len(flat)):
            for c in itertools.combinations(flat, n):
                p = ONE
                for a in c:
                    p = p * atomP(a)
                if p not in seen:
                    seen.add(p)
                    yield p


def common_mono(x, y):
    ks = list(x.m) + list(y.m)
    if not ks:
        return None
    g = dict(ks[0])
    for k in ks[1:]:
        d = dict(k)
        g = {a: min(e, d.get(a, 0)) for a, e in g.items() if d.get(a, 0)}
    if not g:
        return None
    return tuple(sorted(g.items(), key=lambda t: (t[0].key, t[0].order)))
