"""Abstract value domain: integer polynomials over symbolic dimensions and loop
counters, uninterpreted element terms, boolean conditions.  All immutable."""
import math


class Undecided(Exception):
    pass


# ---------------------------------------------------------------- atoms
class Atom:
    __slots__ = ('head', 'args', 'key', 'h', 'lo', 'hi', 'order')
    _tab = {}
    _n = 0

    def __new__(cls, head, args):
        k = (head, args)
        a = cls._tab.get(k)
        if a is None:
            a = object.__new__(cls)
            a.head = head
            a.args = args
            a.h = hash(k)
            a.lo = None
            a.hi = None
            Atom._n += 1
            a.order = Atom._n
            if head == 's':
                a.key = args[0]
            else:
                a.key = head + '(' + ','.join(show(x) for x in args) + ')'
            cls._tab[k] = a
        return a

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.key < o.key

    def __repr__(self):
        return self.key


def show(v):
    if isinstance(v, tuple):
        return '(' + ','.join(show(x) for x in v) + ')'
    return str(v)


_fresh = [0]


def fresh(prefix):
    _fresh[0] += 1
    return '%s#%d' % (prefix, _fresh[0])


# ---------------------------------------------------------------- polynomials
class P:
    """polynomial: dict mono -> coeff ; mono = tuple of (atom, exp) sorted"""
    __slots__ = ('m', 'h', '_atoms')

    def __init__(self, m):
        self.m = m
        self.h = None
        self._atoms = None

    def __hash__(self):
        if self.h is None:
            self.h = hash(frozenset(self.m.items()))
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, P) and self.m == o.m)

    def is_const(self):
        return not self.m or (len(self.m) == 1 and () in self.m)

    def const(self):
        return self.m.get((), 0)

    def __add__(self, o):
        o = toP(o)
        if not o.m:
            return self
        if not self.m:
            return o
        m = dict(self.m)
        for k, c in o.m.items():
            c2 = m.get(k, 0) + c
            if c2:
                m[k] = c2
            else:
                m.pop(k, None)
        return P(m)
    __radd__ = __add__

    def __neg__(self):
        return P({k: -c for k, c in self.m.items()})

    def __sub__(self, o):
        return self + (-toP(o))

    def __rsub__(self, o):
        return toP(o) + (-self)

    def __mul__(self, o):
        o = toP(o)
        if self.is_const():
            c = self.const()
            if c == 0:
                return ZERO
            if c == 1:
                return o
            return P({k: c * x for k, x in o.m.items()})
        if o.is_const():
            return o * self
        m = {}
        for k1, c1 in self.m.items():
            for k2, c2 in o.m.items():
                k = mono_mul(k1, k2)
                c = m.get(k, 0) + c1 * c2
                if c:
                    m[k] = c
                else:
                    m.pop(k, None)
        return P(m)
    __rmul__ = __mul__

    def atoms(self):
        if self._atoms is None:
            s = set()
            for k in self.m:
                for a, _ in k:
                    s.add(a)
            self._atoms = s
        return self._atoms

    def deg(self, a):
        d = 0
        for k in self.m:
            for x, e in k:
                if x is a and e > d:
                    d = e
        return d

    def coeffs(self, a):
        """list of coefficient polys by power of atom a"""
        out = {}
        for k, c in self.m.items():
            e = 0
            r = k
            for i, (x, xe) in enumerate(k):
                if x is a:
                    e = xe
                    r = k[:i] + k[i + 1:]
                    break
            out.setdefault(e, {})[r] = c
        n = max(out) if out else 0
        return [P(out.get(i, {})) for i in range(n + 1)]

    def __repr__(self):
        if not self.m:
            return '0'
        ts = []
        for k in sorted(self.m, key=lambda k: (-sum(e for _, e in k), [(a.key, e) for a, e in k])):
            c = self.m[k]
            s = '*'.join(a.key if e == 1 else '%s^%d' % (a.key, e) for a, e in k)
            if not s:
                ts.append(str(c))
            elif c == 1:
                ts.append(s)
            elif c == -1:
                ts.append('-' + s)
            else:
                ts.append('%d*%s' % (c, s))
        return '+'.join(ts).replace('+-', '-')


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(d.items(), key=lambda t: (t[0].key, t[0].order)))


ZERO = P({})
ONE = P({(): 1})


def toP(x):
    if isinstance(x, P):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, int):
        return P({(): x}) if x else ZERO
    raise Undecided('not an integer: %r' % (x,))


def sym(name, lo=0, hi=None):
    # the bounds belong to the symbol, so they are part of its name
    a = Atom('s', (name if lo == 1 and hi is None else '%s.%s%s' % (name, lo, '' if hi is None else '-%s' % hi),))
    a.lo = lo
    a.hi = hi
    return P({((a, 1),): 1})


def atomP(a):
    return P({((a, 1),): 1})


def as_atom(p):
    """the single atom this poly is, or None"""
    if len(p.m) == 1:
        (k, c), = p.m.items()
        if c == 1 and len(k) == 1 and k[0][1] == 1:
            return k[0][0]
    return None


def mono_div(k, d):
    """k / d for monomials or None"""
    if not d:
        return k
    m = dict(k)
    for a, e in d:
        x = m.get(a, 0)
        if x < e:
            return None
        if x == e:
            del m[a]
        else:
            m[a] = x - e
    return tuple(sorted(m.items(), key=lambda t: (t[0].key, t[0].order)))


def exact_div(p, q):
    """p/q if exact polynomial division, else None"""
    if q.is_const():
        c = q.const()
        if c == 0:
            return None
        m = {}
        for k, x in p.m.items():
            if x % c:
                return None
            m[k] = x // c
        return P(m)
    # multivariate division by leading term (graded order)
    def lead(x):
        return max(x.m, key=lambda k: (sum(e for _, e in k), [(a.key, e) for a, e in k]))
    lq = lead(q)
    cq = q.m[lq]
    r = p
    out = ZERO
    n = 0
    while r.m:
        n += 1
        if n > 200:
            return None
        # find any monomial divisible by lead(q)
        lr = lead(r)
        d = mono_div(lr, lq)
        if d is None or r.m[lr] % cq:
            return None
        t = P({d: r.m[lr] // cq})
        out = out + t
        r = r - t * q
    return out


def split_div(p, q):
    """p = q*a + r with a collecting the monomials divisible by q's lead
    (only when q is a single monomial); returns (a, r)"""
    if len(q.m) != 1:
        e = exact_div(p, q)
        if e is not None:
            return e, ZERO
        # try: q polynomial, p = q*a + r, divide greedily
        lq = max(q.m, key=lambda k: (sum(e for _, e in k), [(a.key, e) for a, e in k]))
        cq = q.m[lq]
        a = ZERO
        r = p
        for k, c in sorted(p.m.items(), key=lambda t: -sum(e for _, e in t[0])):
            d = mono_div(k, lq)
            if d is not None and c % cq == 0 and lq:
                t = P({d: c // cq})
                a = a + t
                r = r - t * q
        return a, r
    (lq, cq), = q.m.items()
    a = {}
    r = {}
    for k, c in p.m.items():
        d = mono_div(k, lq)
        if d is not None and c % cq == 0:
            a[d] = c // cq
        elif d is not None and not lq:
            # constant divisor
            if c // cq:
                a[d] = c // cq
            if c % cq:
                r[k] = c % cq
        else:
            r[k] = c
    return P(a), P(r)


# ---------------------------------------------------------------- booleans
class B:
    __slots__ = ('op', 'args', 'h')

    def __init__(self, op, args=()):
        self.op = op
        self.args = args
        self.h = None

    def __hash__(self):
        if self.h is None:
            self.h = hash((self.op, self.args))
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, B) and hash(self) == hash(o) and self.op == o.op and self.args == o.args)

    def __repr__(self):
        if self.op == 'ge0':
            return '(%r>=0)' % (self.args[0],)
        if self.op == 'eq0':
            return '(%r==0)' % (self.args[0],)
        if self.op == 'not':
            return '!%r' % (self.args[0],)
        if self.op in ('and', 'or'):
            return '(' + (' %s ' % self.op).join(repr(a) for a in self.args) + ')'
        if not self.args:
            return self.op
        return '%s(%s)' % (self.op, ','.join(show(a) for a in self.args))


TRUE = B('true')
FALSE = B('false')


def toB(x):
    if isinstance(x, B):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, P):
        if x.is_const():
            return TRUE if x.const() else FALSE
        a = as_atom(x)
        if a is not None and a.head == 'ite' and isinstance(a.args[1], P) and a.args[1] == ONE and a.args[2] == ZERO:
            return a.args[0]
        return bnot(eq0(x))
    raise Undecided('not a bool: %r' % (x,))


def ge0(p):
    if p.is_const():
        return TRUE if p.const() >= 0 else FALSE
    # divide by content
    g = 0
    for k, c in p.m.items():
        if k:
            g = math.gcd(g, c)
    if g > 1:
        m = {k: c // g for k, c in p.m.items() if k}
        c0 = p.m.get((), 0) // g  # floor
        if c0:
            m[()] = c0
        p = P(m)
    return B('ge0', (p,))


def eq0(p):
    if p.is_const():
        return TRUE if p.const() == 0 else FALSE
    # sign normalise
    k = max(p.m, key=lambda k: (sum(e for _, e in k), [(a.key, e) for a, e in k]))
    if p.m[k] < 0:
        p = -p
    g = 0
    for c in p.m.values():
        g = math.gcd(g, c)
    if g > 1:
        p = P({k: c // g for k, c in p.m.items()})
    return B('eq0', (p,))


def lt(a, b):
    return ge0(toP(b) - toP(a) - 1)


def le(a, b):
    return ge0(toP(b) - toP(a))


def eq(a, b):
    return eq0(toP(a) - toP(b))


def bnot(b):
    if b is TRUE or b.op == 'true':
        return FALSE
    if b.op == 'false':
        return TRUE
    if b.op == 'not':
        return b.args[0]
    if b.op == 'ge0':
        return ge0(-b.args[0] - 1)
    if b.op == 'and':
        return bor(*[bnot(x) for x in b.args])
    if b.op == 'or':
        return band(*[bnot(x) for x in b.args])
    return B('not', (b,))


def band(*bs):
    out = []
    for b in bs:
        if b.op == 'false':
            return FALSE
        if b.op == 'true':
            continue
        if b.op == 'and':
            for x in b.args:
                if x not in out:
                    out.append(x)
        elif b not in out:
            out.append(b)
    for x in out:
        if bnot1(x) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return B('and', tuple(out))


def bnot1(x):
    if x.op in ('and', 'or'):
        return None
    return bnot(x)


def bor(*bs):
    out = []
    for b in bs:
        if b.op == 'true':
            return TRUE
        if b.op == 'false':
            continue
        if b.op == 'or':
            for x in b.args:
                if x not in out:
                    out.append(x)
        elif b not in out:
            out.append(b)
    for x in out:
        if bnot1(x) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return B('or', tuple(out))


def bite(c, a, b):
    if c.op == 'true':
        return a
    if c.op == 'false':
        return b
    if a == b:
        return a
    if a.op == 'true' and b.op == 'false':
        return c
    if a.op == 'false' and b.op == 'true':
        return bnot(c)
    return bor(band(c, a), band(bnot(c), b))


# ---------------------------------------------------------------- element terms
class T:
    """uninterpreted / float term"""
    __slots__ = ('op', 'args', 'h')

    def __init__(self, op, args=()):
        self.op = op
        self.args = args
        self.h = None

    def __hash__(self):
        if self.h is None:
            self.h = hash((self.op, self.args))
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, T) and hash(self) == hash(o) and self.op == o.op and self.args == o.args)

    def __repr__(self):
        if not self.args:
            return self.op
        return '%s(%s)' % (self.op, ','.join(show(a) for a in self.args))


class G:
    """gamma: value a when c else b (non-integer values)"""
    __slots__ = ('c', 'a', 'b', 'h')

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b
        self.h = None

    def __hash__(self):
        if self.h is None:
            self.h = hash((self.c, self.a, self.b))
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, G) and self.c == o.c and self.a == o.a and self.b == o.b)

    def __repr__(self):
        return 'if(%r,%r,%r)' % (self.c, self.a, self.b)


class Agg:
    """struct / tuple / enum variant / closure / array of constant length.
    kind: 'tuple','array','adt','closure','fn','str','range' ..; tid: type id"""
    __slots__ = ('kind', 'tid', 'var', 'fs', 'h')

    def __init__(self, kind, tid, var, fs):
        self.kind = kind
        self.tid = tid
        self.var = var
        self.fs = fs
        self.h = None

    def __hash__(self):
        if self.h is None:
            self.h = hash((self.kind, self.var, self.fs))
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, Agg) and self.kind == o.kind and self.var == o.var
                             and self.fs == o.fs and (self.kind not in ('closure', 'fn') or self.tid == o.tid))

    def __repr__(self):
        return '%s%s[%s]' % (self.kind, '' if self.var is None else ':%s' % self.var, ', '.join(show(f) for f in self.fs))


class Ptr:
    """reference or raw pointer. root: ('L',fid,local) | ('H',id,params).
    path: tuple of projections; n: slice length or None"""
    __slots__ = ('root', 'path', 'n', 'h')

    def __init__(self, root, path, n=None):
        self.root = root
        self.path = path
        self.n = n
        self.h = None

    def __hash__(self):
        if self.h is None:
            self.h = hash((self.root, self.path, self.n))
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, Ptr) and self.root == o.root and self.path == o.path and self.n == o.n)

    def __repr__(self):
        return '&%s%s%s' % (show(self.root), show(self.path), '' if self.n is None else '[..%r]' % (self.n,))


class ConstRef:
    """reference to an immutable constant value (promoted, literal)"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __hash__(self):
        return hash(('cr', self.v))

    def __eq__(self, o):
        return isinstance(o, ConstRef) and self.v == o.v

    def __repr__(self):
        return '&const %r' % (self.v,)


class Box:
    """Box / Arc / Vec-like owner: kind 'box','arc','vec','str'"""
    __slots__ = ('kind', 'v', 'h')

    def __init__(self, kind, v):
        self.kind = kind
        self.v = v
        self.h = None

    def __hash__(self):
        if self.h is None:
            self.h = hash((self.kind, self.v))
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, Box) and self.kind == o.kind and self.v == o.v)

    def __repr__(self):
        return '%s(%r)' % (self.kind, self.v)


class Unk:
    """unknown value: any use makes the obligation undecided"""
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why

    def __hash__(self):
        return hash(('unk', self.why))

    def __eq__(self, o):
        return isinstance(o, Unk) and o.why == self.why

    def __repr__(self):
        return 'Unk(%s)' % self.why


# ---------------------------------------------------------------- sequences
class Item:
    __slots__ = ('v', 'h')

    def __init__(self, v):
        self.v = v
        self.h = None

    def __hash__(self):
        if self.h is None:
            self.h = hash(('item', self.v))
        return self.h

    def __eq__(self, o):
        return isinstance(o, Item) and self.v == o.v

    def __repr__(self):
        return repr(self.v)


class Loop:
    """k: Atom, t: trip count P, segs: body"""
    __slots__ = ('k', 't', 'segs', 'h')

    def __init__(self, k, t, segs):
        self.k = k
        self.t = t
        self.segs = segs
        self.h = None

    def __hash__(self):
        if self.h is None:
            self.h = hash(('loop', self.t))
        return self.h

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, Loop) or self.t != o.t or len(self.segs) != len(o.segs):
            return False
        if self.k is o.k:
            return self.segs == o.segs
        return self.segs == subst(o.segs, {o.k: atomP(self.k)})

    def __repr__(self):
        return 'for %s<%r{%s}' % (self.k.key, self.t, ', '.join(repr(s) for s in self.segs))


class If:
    __slots__ = ('c', 'a', 'b', 'h')

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b
        self.h = None

    def __hash__(self):
        if self.h is None:
            self.h = hash(('if', self.c))
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, If) and self.c == o.c and self.a == o.a and self.b == o.b)

    def __repr__(self):
        return 'if(%r){%r}else{%r}' % (self.c, self.a, self.b)


class OpSeg:
    """opaque segment (loop phi or unknown content) of a given length"""
    __slots__ = ('name', 'len')

    def __init__(self, name, len):
        self.name = name
        self.len = len

    def __hash__(self):
        return hash(('opseg', self.name))

    def __eq__(self, o):
        return isinstance(o, OpSeg) and self.name == o.name and self.len == o.len

    def __repr__(self):
        return '<%s:%r>' % (self.name, self.len)


class W:
    """a (family of) element writes: for loops: if cond: seq[idx] = v"""
    __slots__ = ('loops', 'cond', 'idx', 'v', 'h')

    def __init__(self, loops, cond, idx, v):
        self.loops = loops  # tuple of (Atom, trip P)
        self.cond = cond
        self.idx = idx
        self.v = v
        self.h = None

    def __hash__(self):
        if self.h is None:
            self.h = hash((self.loops, self.cond, self.idx, self.v))
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, W) and self.loops == o.loops and self.cond == o.cond and self.idx == o.idx and self.v == o.v)

    def __repr__(self):
        s = ''.join('for %s<%r ' % (k.key, t) for k, t in self.loops)
        c = '' if self.cond.op == 'true' else 'if %r ' % (self.cond,)
        return '%s%s[%r]=%r' % (s, c, self.idx, self.v)


class Seq:
    __slots__ = ('len', 'segs', 'ws', 'h')

    def __init__(self, len, segs, ws=()):
        self.len = len
        self.segs = segs
        self.ws = ws
        self.h = None

    def __hash__(self):
        if self.h is None:
            self.h = hash((self.len, len(self.segs), len(self.ws)))
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, Seq) and self.len == o.len and self.segs == o.segs and self.ws == o.ws)

    def __repr__(self):
        return 'Seq[%r; %s%s]' % (self.len, ', '.join(repr(s) for s in self.segs),
                                  '' if not self.ws else ' | ' + '; '.join(repr(w) for w in self.ws))


def seq_items(vals):
    vals = tuple(vals)
    return Seq(toP(len(vals)), tuple(Item(v) for v in vals))


def seq_gen(n, f):
    k = Atom('s', (fresh('g'),))
    k.lo = 0
    return Seq(toP(n), (Loop(k, toP(n), (Item(f(atomP(k))),)),))


class Iter:
    """abstract iterator.  kind + base args (immutable) + front/back positions"""
    __slots__ = ('kind', 'a', 'front', 'back', 'h')

    def __init__(self, kind, a, front, back):
        self.kind = kind
        self.a = a
        self.front = front
        self.back = back
        self.h = None

    def __hash__(self):
        if self.h is None:
            self.h = hash((self.kind, self.a, self.front, self.back))
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, Iter) and self.kind == o.kind and self.a == o.a and self.front == o.front and self.back == o.back)

    def __repr__(self):
        return 'Iter:%s(%s,%r..%r)' % (self.kind, show(self.a), self.front, self.back)


# ---------------------------------------------------------------- substitution
def subst(v, env, memo=None):
    """replace atoms by polys/values everywhere in v. env: Atom->P or T-op name->value"""
    if memo is None:
        memo = {}
    return _sub(v, env, memo)


def _sub(v, env, memo):
    if isinstance(v, P):
        if v.is_const():
            return v
        r = memo.get(v)
        if r is None:
            r = _subP(v, env, memo)
            memo[v] = r
        return r
    if isinstance(v, (int, str, bool)) or v is None:
        return v
    if isinstance(v, tuple):
        if not v:
            return v
        out = tuple(_sub(x, env, memo) for x in v)
        for x, y in zip(out, v):
            if x is not y:
                return out
        return v
    key = ('id', id(v))
    r = memo.get(key)
    if r is not None:
        return r[1]
    r = _sub2(v, env, memo)
    memo[key] = (v, r)
    return r


def _sub2(v, env, memo):
    if isinstance(v, B):
        if not v.args:
            return v
        args = tuple(_sub(a, env, memo) for a in v.args)
        if all(x is y for x, y in zip(args, v.args)):
            return v
        return mkB(v.op, args)
    if isinstance(v, T):
        e = env.get(v)
        if e is not None:
            return e
        if not v.args:
            return v
        args = tuple(_sub(a, env, memo) for a in v.args)
        if all(x is y for x, y in zip(args, v.args)):
            return v
        return T(v.op, args)
    if isinstance(v, G):
        return mkG(_sub(v.c, env, memo), _sub(v.a, env, memo), _sub(v.b, env, memo))
    if isinstance(v, Agg):
        fs = _sub(v.fs, env, memo)
        return v if fs is v.fs else Agg(v.kind, v.tid, v.var, fs)
    if isinstance(v, Box):
        x = _sub(v.v, env, memo)
        return v if x is v.v else Box(v.kind, x)
    if isinstance(v, Ptr):
        root = _sub(v.root, env, memo)
        path = _sub(v.path, env, memo)
        n = _sub(v.n, env, memo)
        if root is v.root and path is v.path and n is v.n:
            return v
        return Ptr(root, path, n)
    if isinstance(v, ConstRef):
        x = _sub(v.v, env, memo)
        return v if x is v.v else ConstRef(x)
    if isinstance(v, Item):
        x = _sub(v.v, env, memo)
        return v if x is v.v else Item(x)
    if isinstance(v, Loop):
        t = _sub(v.t, env, memo)
        s = _sub(v.segs, env, memo)
        return v if t is v.t and s is v.segs else Loop(v.k, t, s)
    if isinstance(v, If):
        return mkIf(_sub(v.c, env, memo), _sub(v.a, env, memo), _sub(v.b, env, memo))
    if isinstance(v, OpSeg):
        e = env.get(v)
        if e is not None:
            return e
        l = _sub(v.len, env, memo)
        return v if l is v.len else OpSeg(v.name, l)
    if isinstance(v, W):
        return W(tuple((k, _sub(t, env, memo)) for k, t in v.loops), _sub(v.cond, env, memo), _sub(v.idx, env, memo), _sub(v.v, env, memo))
    if isinstance(v, Seq):
        l = _sub(v.len, env, memo)
        s = _sub(v.segs, env, memo)
        w = _sub(v.ws, env, memo)
        return v if l is v.len and s is v.segs and w is v.ws else Seq(l, s, w)
    if isinstance(v, Iter):
        a = _sub(v.a, env, memo)
        f = _sub(v.front, env, memo)
        b = _sub(v.back, env, memo)
        return v if a is v.a and f is v.front and b is v.back else Iter(v.kind, a, f, b)
    if isinstance(v, Atom):
        e = env.get(v)
        return v if e is None else e
    return v


def _subP(p, env, memo):
    out = ZERO
    changed = False
    for k, c in p.m.items():
        t = P({(): c})
        for a, e in k:
            r = env.get(a)
            if r is None:
                r = _subAtom(a, env, memo)
            if r is not None:
                changed = True
            else:
                r = atomP(a)
            r = toP(r)
            for _ in range(e):
                t = t * r
        out = out + t
    return out if changed else p


def _subAtom(a, env, memo):
    """None if unchanged"""
    if a.head == 's':
        return None
    key = ('at', a)
    if key in memo:
        return memo[key]
    args = tuple(_sub(x, env, memo) for x in a.args)
    if all(x is y for x, y in zip(args, a.args)):
        r = None
    else:
        r = mkI(a.head, args, a)
    memo[key] = r
    return r


# ------------------------------------------------------------- constructors
def mkB(op, args):
    if op == 'ge0':
        return ge0(args[0])
    if op == 'eq0':
        return eq0(args[0])
    if op == 'not':
        return bnot(args[0])
    if op == 'and':
        return band(*args)
    if op == 'or':
        return bor(*args)
    return B(op, args)


def mkG(c, a, b):
    if c.op == 'true':
        return a
    if c.op == 'false':
        return b
    if a == b:
        return a
    if isinstance(a, P) and isinstance(b, P):
        return ite(c, a, b)
    if isinstance(a, B) and isinstance(b, B):
        return bite(c, a, b)
    if c.op == 'not':
        return G(c.args[0], b, a)
    if isinstance(b, G) and b.a == a:
        return mkG(bor(c, b.c), a, b.b)
    return G(c, a, b)


def mkIf(c, a, b):
    if c.op == 'true' or a == b:
        # splice: represented as a Loop of one iteration is avoided; keep If
        return If(TRUE, a, ())
    if c.op == 'false':
        return If(TRUE, b, ())
    return If(c, a, b)


def ite(c, a, b):
    if c.op == 'true':
        return a
    if c.op == 'false':
        return b
    if a == b:
        return a
    if a == ONE and b == ZERO:
        return atomP(mk_atom('ite', (c, a, b), 0, 1))
    return atomP(Atom('ite', (c, a, b)))


def mk_atom(head, args, lo=None, hi=None):
    a = Atom(head, args)
    a.lo = lo
    a.hi = hi
    return a


def idiv(p, q):
    """floor division of non-negative integers"""
    if q.is_const() and q.const() != 0 and p.is_const():
        a, b = p.const(), q.const()
        return toP(int(abs(a) // abs(b)) * (1 if (a >= 0) == (b >= 0) else -1))
    if q == ONE:
        return p
    if not p.m:
        return ZERO
    e = exact_div(p, q)
    if e is not None:
        return e
    return atomP(mk_atom('div', (p, q), 0))


def imod(p, q):
    if q.is_const() and q.const() != 0 and p.is_const():
        a, b = p.const(), q.const()
        return toP(int(math.fmod(a, b)) if a < 0 else a % b)
    if q == ONE:
        return ZERO
    if not p.m:
        return ZERO
    if exact_div(p, q) is not None:
        return ZERO
    return atomP(mk_atom('mod', (p, q), 0))


def imin(a, b):
    if a == b:
        return a
    d = a - b
    if d.is_const():
        return a if d.const() <= 0 else b
    if show(b) < show(a):
        a, b = b, a
    return atomP(Atom('min', (a, b)))


def imax(a, b):
    if a == b:
        return a
    d = a - b
    if d.is_const():
        return a if d.const() >= 0 else b
    if show(b) < show(a):
        a, b = b, a
    return atomP(Atom('max', (a, b)))


def mkI(head, args, old=None):
    if head == 'div':
        return idiv(*args)
    if head == 'mod':
        return imod(*args)
    if head == 'min':
        return imin(*args)
    if head == 'max':
        return imax(*args)
    if head == 'ite':
        return ite(*args)
    if head == 'sum':
        # (k, trip, body): args[0] is the bound atom
        return isum(*args)
    if head in WOPS:
        return wop(head, *args)
    a = Atom(head, args)
    if old is not None:
        a.lo, a.hi = old.lo, old.hi
    return atomP(a)


def faul(p, k, n):
    """closed form of sum_{k=0}^{n-1} p(k) for degree <= 3 in k, or None.
    Only when division is exact in coefficients (all results integral polys),
    else None"""
    cs = p.coeffs(k)
    if len(cs) > 3:
        return None
    for c in cs:
        if k in all_atoms(c):
            return None
    out = cs[0] * n
    if len(cs) > 1 and cs[1].m:
        h = exact_div(cs[1] * n * (n - 1), toP(2))
        if h is None:
            return None
        out = out + h
    if len(cs) > 2 and cs[2].m:
        h = exact_div(cs[2] * n * (n - 1) * (2 * n - 1), toP(6))
        if h is None:
            return None
        out = out + h
    return out


def isum(k, trip, body):
    if trip.is_const() and 0 <= trip.const() <= 64:
        s = ZERO
        for i in range(trip.const()):
            s = s + subst(body, {k: toP(i)})
        return s
    r = faul(body, k, trip)
    if r is not None:
        return r
    c = canonk(bdepth(body) + 1)
    return atomP(Atom('sum', (c, trip, subst(body, {k: atomP(c)}))))


# wrapping / bit operations: exact on constants, opaque otherwise
WOPS = {}


def wop(head, *args):
    f, = [WOPS[head]]
    if all(isinstance(a, P) and a.is_const() for a in args):
        return toP(f(*[a.const() for a in args]))
    a = Atom(head, args)
    if a.lo is None and not head.startswith('s_'):
        a.lo = 0
    return atomP(a)


def _reg(bits):
    M = (1 << bits) - 1

    def sx(x):
        x &= M
        return x - (1 << bits) if x >> (bits - 1) else x
    for sg, f in (('u', lambda x: x & M), ('s', sx)):
        n = '%s_%d' % (sg, bits)
        WOPS[n + '_add'] = lambda a, b, f=f: f(a + b)
        WOPS[n + '_sub'] = lambda a, b, f=f: f(a - b)
        WOPS[n + '_mul'] = lambda a, b, f=f: f(a * b)
        WOPS[n + '_xor'] = lambda a, b, f=f: f((a & M) ^ (b & M))
        WOPS[n + '_and'] = lambda a, b, f=f: f((a & M) & (b & M))
        WOPS[n + '_or'] = lambda a, b, f=f: f((a & M) | (b & M))
        WOPS[n + '_shl'] = lambda a, b, f=f, bits=bits: f((a & M) << (b % bits))
        if sg == 'u':
            WOPS[n + '_shr'] = lambda a, b, f=f, bits=bits: f((a & M) >> (b % bits))
        else:
            WOPS[n + '_shr'] = lambda a, b, f=f, bits=bits: f(sx(a) >> (b % bits))
        WOPS[n + '_not'] = lambda a, f=f: f(~a)
        WOPS[n + '_cast'] = lambda a, f=f: f(a)


for _b in (8, 16, 32, 64, 128):
    _reg(_b)


def all_atoms(v, acc=None, seen=None):
    """all atoms occurring anywhere (also inside atoms)"""
    if acc is None:
        acc = set()
        seen = set()
    if isinstance(v, P):
        for a in v.atoms():
            if a not in acc:
                acc.add(a)
                for x in a.args:
                    if not isinstance(x, str):
                        all_atoms(x, acc, seen)
        return acc
    if isinstance(v, (int, str, bool)) or v is None:
        return acc
    if isinstance(v, tuple):
        for x in v:
            all_atoms(x, acc, seen)
        return acc
    if isinstance(v, Atom):
        acc.add(v)
        return acc
    if id(v) in seen:
        return acc
    seen.add(id(v))
    for x in children(v):
        all_atoms(x, acc, seen)
    return acc


def children(v):
    if isinstance(v, B):
        return v.args
    if isinstance(v, T):
        return v.args
    if isinstance(v, G):
        return (v.c, v.a, v.b)
    if isinstance(v, Agg):
        return v.fs
    if isinstance(v, Box):
        return (v.v,)
    if isinstance(v, Ptr):
        return (v.root, v.path, v.n)
    if isinstance(v, ConstRef):
        return (v.v,)
    if isinstance(v, Item):
        return (v.v,)
    if isinstance(v, Loop):
        return (v.t, v.segs)
    if isinstance(v, If):
        return (v.c, v.a, v.b)
    if isinstance(v, OpSeg):
        return (v.len,)
    if isinstance(v, W):
        return (tuple(t for _, t in v.loops), v.cond, v.idx, v.v)
    if isinstance(v, Seq):
        return (v.len, v.segs, v.ws)
    if isinstance(v, Iter):
        return (v.a, v.front, v.back)
    return ()


def any_node(v, pred, seen=None):
    if seen is None:
        seen = set()
    if isinstance(v, (int, str, bool)) or v is None:
        return False
    if isinstance(v, tuple):
        return any(any_node(x, pred, seen) for x in v)
    if id(v) in seen:
        return False
    seen.add(id(v))
    if pred(v):
        return True
    if isinstance(v, P):
        return any(any_node(x, pred, seen) for a in v.atoms() for x in (a,) + a.args)
    return any(any_node(x, pred, seen) for x in children(v))


def bdepth(v):
    """nesting depth of canonical binders ($k1, $k2, ..) in v"""
    d = [0]

    def p(x):
        if isinstance(x, Atom) and x.head == 's' and x.args[0].startswith('$k'):
            d[0] = max(d[0], int(x.args[0][2:]))
        return False
    any_node(v, p)
    return d[0]


def canonk(n):
    a = Atom('s', ('$k%d' % n,))
    a.lo = 0
    return a
