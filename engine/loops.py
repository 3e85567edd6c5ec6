"""Loop summaries: find what one iteration changes, solve the recurrences in
closed form over the iteration number, and replay the body once for a generic
iteration."""
from terms import *
from prover import Facts, simp, gmerge, sdiv, smod
from seqs import *
from interp import St, Diverge, Req


class Phi:
    __slots__ = ('loc', 'kind', 'init', 'atom', 'next', 'name')

    def __init__(self, loc, kind, init, atom, name):
        self.loc = loc
        self.kind = kind      # 'P' | 'T' | 'B' | 'S'
        self.init = init
        self.atom = atom
        self.next = None
        self.name = name


class Widen:
    def __init__(self, lid, phis, order, facts):
        self.lid = lid
        self.phis = phis
        self.order = order
        self.changed = False
        self.enum = False
        self.facts = facts

    def phi(self, loc, kind, init):
        p = self.phis.get(loc)
        if p is None:
            name = 'phi%s_%d' % (self.lid, len(self.order))
            if kind == 'P':
                a = Atom('s', (name,))
                a.lo = None
                at = a
            elif kind == 'T':
                at = T(name)
            elif kind == 'B':
                at = B(name)
            else:
                at = name
            p = Phi(loc, kind, init, at, name)
            self.phis[loc] = p
            self.order.append(p)
            self.changed = True
        return p

    def isphi(self, a, loc):
        p = self.phis.get(loc)
        if p is None:
            return None
        if p.kind == 'P' and isinstance(a, P) and as_atom(a) is p.atom:
            return p
        if p.kind in ('T', 'B') and a == p.atom:
            return p
        return None

    def go(self, a, b, loc):
        """a: value at loop head (with phis), b: value after the iteration"""
        p = self.isphi(a, loc)
        if p is not None:
            p.next = b
            return a
        if isinstance(a, Seq) and isinstance(b, Seq):
            return self.seq(a, b, loc)
        if a is b or a == b:
            self.same(a, loc)
            return a
        if isinstance(a, Unk):
            return a
        if isinstance(a, P) and isinstance(b, P):
            if self.facts is not None and simp(a, self.facts) == simp(b, self.facts):
                return a
            p = self.phi(loc, 'P', a)
            return atomP(p.atom)
        if isinstance(a, B) and isinstance(b, (B, P)):
            return self.phi(loc, 'B', a).atom
        if isinstance(a, Agg) and isinstance(b, Agg) and a.kind == b.kind and a.var == b.var and len(a.fs) == len(b.fs) \
                and (a.kind not in ('closure', 'fn') or a.tid == b.tid):
            return Agg(a.kind, a.tid, a.var, tuple(self.go(x, y, loc + (i,)) for i, (x, y) in enumerate(zip(a.fs, b.fs))))
        if isinstance(a, Box) and isinstance(b, Box) and a.kind == b.kind:
            return Box(a.kind, self.go(a.v, b.v, loc + ('b',)))
        if isinstance(a, Iter) and isinstance(b, Iter) and a.kind == b.kind and len(a.a) == len(b.a):
            aa = []
            for i, (x, y) in enumerate(zip(a.a, b.a)):
                if isinstance(x, (str, int)) or x is None or isinstance(x, tuple):
                    if x != y:
                        return self.unk(loc)
                    aa.append(x)
                else:
                    aa.append(self.go(x, y, loc + ('a', i)))
            return Iter(a.kind, tuple(aa), self.go(a.front, b.front, loc + ('fr',)), self.go(a.back, b.back, loc + ('bk',)))
        if isinstance(a, Agg) and isinstance(b, Agg) and a.kind == b.kind == 'adt' and a.var != b.var and a.var is not None:
            self.enum = True
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.root == b.root and len(a.path) == len(b.path) and (a.n is None) == (b.n is None):
            path = []
            for i, (x, y) in enumerate(zip(a.path, b.path)):
                if x[0] == 'i' and y[0] == 'i':
                    path.append(('i', self.go(x[1], y[1], loc + ('p', i))))
                elif x == y:
                    path.append(x)
                else:
                    return self.unk(loc)
            return Ptr(a.root, tuple(path), None if a.n is None else self.go(a.n, b.n, loc + ('n',)))
        if isinstance(a, (T, G)) and isinstance(b, (T, G)):
            if isinstance(a, G) and not scalar_g(a):
                return self.unk(loc)
            return self.phi(loc, 'T', a).atom
        return self.unk(loc)

    def same(self, a, loc):
        pass

    def unk(self, loc):
        self.changed = True
        return Unk('loop-varying')

    def seq(self, a, b, loc):
        p = self.phis.get(loc)
        if p is not None and a.segs and isinstance(a.segs[0], OpSeg) and a.segs[0].name == p.name:
            p.next = b
            ln = self.go(a.len, b.len, loc + ('len',))
            if ln is not a.len:
                return Seq(ln, (OpSeg(p.name, ln),), ())
            return a
        if a == b:
            return a
        ia, ib = plain_items(a), plain_items(b)
        if ia is not None and ib is not None and len(ia) == len(ib):
            return seq_items([self.go(x, y, loc + ('it', i)) for i, (x, y) in enumerate(zip(ia, ib))])
        p = self.phi(loc, 'S', a)
        ln = self.go(a.len, b.len, loc + ('len',)) if a.len != b.len else a.len
        return Seq(ln, (OpSeg(p.name, ln),), ())


def phiget(x):
    """reads a sequence that is still under construction"""
    return isinstance(x, T) and x.op == 'get' and isinstance(x.args[0], str) and x.args[0].startswith('phi')


def scalar_g(g):
    return all(isinstance(x, T) or (isinstance(x, G) and scalar_g(x)) for x in (g.a, g.b))


def summarise(itp, st, lid, iter_fn, exit_fn, fr, peel=0):
    """execute the loop symbolically: st is updated to the state after the loop"""
    phis = {}
    order = []
    entry = st.copy()
    mem = dict(entry.mem)
    stay = None
    w = None
    itp.quiet += 1
    try:
        for n in range(14):
            s = St(dict(mem), entry.facts, entry.unroll, entry.loops + (lid,))
            try:
                stay = iter_fn(s)
            except Diverge as e:
                if n == 0 or True:
                    stay = ('diverge', e)
                    break
            w = Widen(lid, phis, order, s.facts)
            for p in order:
                p.next = None
            new = {}
            for r, a in mem.items():
                b = s.mem.get(r)
                if b is None:
                    new[r] = a
                    continue
                if a is not b:
                    b = simp(b, s.facts) if not isinstance(b, (Seq, Box)) else b
                new[r] = w.go(a, b, (r,))
            mem = new
            if w.enum and n == 0 and peel < 2 and not isinstance(stay, tuple) and entry.facts.decide(stay) is True:
                break
            if not w.changed:
                break
        else:
            raise Undecided('loop does not stabilise')
    finally:
        itp.quiet -= 1
    if w is not None and w.enum and n == 0 and peel < 2 and not isinstance(stay, tuple) and entry.facts.decide(stay) is True:
        # an enum changes its variant: take the first iteration on its own
        s = St(dict(entry.mem), entry.facts, entry.unroll, entry.loops + (lid,))
        iter_fn(s)
        st.mem = s.mem
        st.facts = s.facts
        return summarise(itp, st, lid, iter_fn, exit_fn, fr, peel + 1)
    if isinstance(stay, tuple):
        return diverging(itp, st, lid, iter_fn, exit_fn, fr, stay[1])
    if stay.op == 'true':
        raise Undecided('loop without exit')
    k = Atom('s', ('k' + lid,))
    k.lo = 0
    K = atomP(k)
    env = solve(itp, order, k, entry.facts, stay)
    # state at the head of iteration k
    memk = {}
    bad = [p for p in order if p.kind != 'S' and p not in env]
    sub = {}
    for p, v in env.items():
        sub[p.atom] = v
    bads = set(p.atom for p in bad)
    stayk = subst(stay, sub)
    trip = trip_count(simp_open(stayk, k, entry.facts), k, entry.facts, bads)
    facts = entry.facts
    for r, a in mem.items():
        memk[r] = subst(a, sub) if sub else a
    if bads:
        memk = {r: poison(v, bads) for r, v in memk.items()}
    # generic iteration
    f2 = facts.with_loop(k, trip).add(ge0(trip - 1 - K)).add(ge0(trip - 1))
    sk = St(dict(memk), f2, entry.unroll, entry.loops + (K,))
    z = facts.decide(ge0(trip - 1))
    if z is not False:
        try:
            iter_fn(sk)
        except Diverge as e:
            return diverging(itp, st, lid, iter_fn, exit_fn, fr, e, trip)
    # after the loop
    end = {k: trip}
    mem_end = {}
    seqphis = [p for p in order if p.kind == 'S']
    segenv = {}
    names = set(p.name for p in seqphis)
    for r, a in memk.items():
        mem_end[r] = a
    for p in seqphis:
        if z is False:
            segenv[p.name] = p.init
            continue
        lk = getloc(sk.mem, p.loc)
        if lk is None or not isinstance(lk, Seq) or not lk.segs or not isinstance(lk.segs[0], OpSeg) or lk.segs[0].name != p.name:
            raise Undecided('sequence rebuilt in a loop')
        app = lk.segs[1:]
        ws = lk.ws
        if any_node((app, ws), lambda x: isinstance(x, OpSeg) and x.name in names or isinstance(x, T) and x.op == 'get' and x.args[0] in names):
            r = None if app or phis.get(p.loc + ('len',)) is not None else self_update(p, ws, names, k, trip, f2, facts)
            if r is None:
                raise Undecided('loop reads a sequence it modifies')
            segenv[p.name] = r
            continue
        segs = p.init.segs
        if app:
            segs = segs + (Loop(k, trip, app),)
        nws = p.init.ws
        for w in ws:
            nws = nws + (two_digits(W(((k, trip),) + w.loops, w.cond, w.idx, w.v), facts),)
        ln = p.init.len
        lp = phis.get(p.loc + ('len',))
        if lp is not None:
            ln = subst(env[lp], end) if lp in env else segs_len(segs)
        segenv[p.name] = Seq(simp(ln, facts), segs, nws)
    # values read from such sequences must not leak elsewhere
    out = {}
    for r, a in mem_end.items():
        v = subst(a, end)
        v = putseq(v, segenv)
        if names and any_node(v, lambda x: isinstance(x, T) and x.op == 'get' and x.args[0] in names):
            v = Unk('depends on a sequence under construction')
        out[r] = v
    for r, v in sk.mem.items():
        if r not in out and r[0] == 'H':
            out[r] = putseq(v, {})
    st.mem = out
    st.facts = facts
    st.unroll = entry.unroll
    st.loops = entry.loops
    for r in list(out):
        v = out[r]
        if not isinstance(v, (Seq,)):
            out[r] = simp(v, facts)
    exit_fn(st)
    # facts learnt at the exit about the loop counter are implied by its closed form
    return trip


def two_digits(w, facts):
    """a counter used through its quotient and remainder by m is two counters when its trip count is a multiple of m"""
    for _ in range(4):
        for n, (k, trip) in enumerate(w.loops):
            p = atomP(k)
            ms = [a.args[1] for a in all_atoms(w.idx) if a.head in ('div', 'mod') and a.args[0] == p and not a.args[1].is_const()]
            ms += [a.args[1] for a in all_atoms(w.idx) if a.head in ('div', 'mod') and a.args[0] == p and a.args[1].is_const()]
            ms.sort(key=lambda m: sum(sum(e for _, e in x) for x in m.m))
            m = next((m for m in ms if exact_div(trip, m) is not None), None)
            if m is not None:
                break
        else:
            return w
        k1, k2 = Atom('s', (fresh('k'),)), Atom('s', (fresh('k'),))
        k1.lo = k2.lo = 0
        t1 = exact_div(trip, m)
        loops = w.loops[:n] + ((k1, t1), (k2, m)) + w.loops[n + 1:]
        ff = facts
        for x, t in loops:
            ff = ff.with_loop(x, t).add(ge0(t - 1))
        e = {k: atomP(k1) * m + atomP(k2)}
        loops = tuple((x, subst(t, e)) for x, t in loops)
        w = W(loops, simp(subst(w.cond, e), ff), simp(subst(w.idx, e), ff), simp(subst(w.v, e), ff))
    return w


def self_update(p, ws, names, k, trip, f2, facts):
    """elements updated in place, each from its own previous value (and values that do not change)"""
    from seqs import digits
    for w in ws:
        bad = []

        def look(x):
            if isinstance(x, OpSeg) and x.name in names:
                bad.append(x)
            if isinstance(x, T) and x.op == 'get' and x.args[0] in names:
                if x.args[0] != p.name or not (x.args[1] == w.idx or f2.decide(eq(x.args[1], w.idx)) is True):
                    bad.append(x)
            return False
        any_node(w.v, look)
        if bad or any_node((w.cond, w.idx), lambda x: isinstance(x, (OpSeg, T)) and (x.name if isinstance(x, OpSeg) else x.op == 'get' and x.args[0]) in names):
            return None
    K = atomP(k)

    def own(v, s):
        return replace_get(v, p.name, s)
    if len(ws) == 1 and not ws[0].loops and k not in all_atoms(ws[0].idx) and k not in all_atoms(ws[0].cond):
        # one fixed element accumulates
        w = ws[0]
        s = T('$' + fresh('s'))
        v = build_fold('T', (seq_get(p.init, w.idx, facts),), [s], ['T'], (simp(own(w.v, s), f2),), k, trip)
        return Seq(p.init.len, p.init.segs, p.init.ws + (W((), band(w.cond, ge0(trip - 1)), w.idx, v),))
    # every element is visited at most once: it still has its first value
    if len(ws) == 1:
        w = ws[0]
        loops = ((k, trip),) + w.loops
        d = None
        if all(j in all_atoms(w.idx) for j, t in loops):
            j = Atom('s', (fresh('j'),))
            j.lo = 0
            try:
                d = digits(w.idx, loops, atomP(j), facts)
            except Undecided:
                d = None
        if d is not None:
            f3 = f2
            for q, t in w.loops:
                f3 = f3.with_loop(q, t).add(ge0(t - 1))
            return Seq(p.init.len, p.init.segs, p.init.ws + (W(loops, w.cond, w.idx, own(w.v, seq_get(p.init, w.idx, f3))),))
    if any(w.loops for w in ws):
        return None
    # any index: element j runs through the updates which hit it
    j = Atom('s', (fresh('j'),))
    j.lo = 0
    n = p.init.len
    fj = facts.with_loop(j, n).add(ge0(n - 1))
    s = T('$' + fresh('s'))
    body = s
    for w in ws:
        body = mkG(band(w.cond, eq(w.idx, atomP(j))), own(w.v, s), body)
    v = build_fold('T', (seq_get(p.init, atomP(j), fj),), [s], ['T'], (body,), k, trip)
    return Seq(n, (Loop(j, n, (Item(v),)),), ())


def replace_get(v, name, s):
    """every read of the sequence replaced by s"""
    if isinstance(v, T):
        if v.op == 'get' and v.args[0] == name:
            return s
        return T(v.op, tuple(replace_get(x, name, s) for x in v.args))
    if isinstance(v, tuple):
        return tuple(replace_get(x, name, s) for x in v)
    if isinstance(v, G):
        return G(v.c, replace_get(v.a, name, s), replace_get(v.b, name, s))
    if isinstance(v, Agg):
        return Agg(v.kind, v.tid, v.var, tuple(replace_get(x, name, s) for x in v.fs))
    return v


def diverging(itp, st, lid, iter_fn, exit_fn, fr, e, trip=None):
    """the body always panics: the loop must not run at all"""
    s = st.copy()
    itp.quiet += 1
    cond = [None]
    try:
        try:
            s2 = s.copy()
            # obtain the stay condition of the first iteration
            stay = first_stay(itp, s2, iter_fn, fr)
        finally:
            pass
    finally:
        itp.quiet -= 1
    d = st.facts.decide(stay)
    if d is True:
        raise e
    if d is None:
        if not itp.quiet:
            itp.reqs.append(Req('panic', bnot(stay), st.facts, e.loc, fr.fn['path'] if fr else '?'))
        st.facts = st.facts.add(bnot(stay))
    exit_fn(st)


def first_stay(itp, s, iter_fn, fr):
    got = []

    class Stop(Exception):
        pass
    # the stay condition is recorded in the context even when the body diverges
    depth = len(fr.ctx) if fr is not None else 0
    orig = fr.ctx if fr is not None else None

    class L(list):
        def append(self, x):
            got.append(x)
            list.append(self, x)
    if fr is not None:
        fr.ctx = L(orig)
    try:
        stay = iter_fn(s)
        return stay
    except Diverge:
        for c in got:
            if c.stay is not None:
                return c.stay
        if hasattr(iter_fn, 'stay'):
            return iter_fn.stay
        raise
    finally:
        if fr is not None:
            fr.ctx = orig


def poison(v, bads):
    if isinstance(v, P) or isinstance(v, (T, B, G)):
        if any_node(v, lambda x: (isinstance(x, Atom) or isinstance(x, (T, B))) and x in bads):
            return Unk('unsolved recurrence')
        return v
    if isinstance(v, Agg):
        return Agg(v.kind, v.tid, v.var, tuple(poison(x, bads) for x in v.fs))
    if isinstance(v, Box):
        return Box(v.kind, poison(v.v, bads))
    if isinstance(v, Ptr):
        if any_node(v, lambda x: isinstance(x, Atom) and x in bads):
            return Unk('unsolved recurrence')
        return v
    if isinstance(v, Iter):
        if any_node(v, lambda x: (isinstance(x, Atom) or isinstance(x, (T, B))) and x in bads):
            return Unk('unsolved recurrence')
        return v
    if isinstance(v, Seq):
        it = plain_items(v)
        if it is not None:
            return seq_items([poison(x, bads) for x in it])
        if any_node(v, lambda x: isinstance(x, Atom) and x in bads):
            return Unk('unsolved recurrence')
        return v
    return v


def getloc(mem, loc):
    v = mem.get(loc[0])
    for s in loc[1:]:
        if v is None:
            return None
        if s == 'b':
            v = v.v if isinstance(v, Box) else None
        elif isinstance(s, int):
            v = v.fs[s] if isinstance(v, Agg) and s < len(v.fs) else None
        else:
            if s == 'a' and isinstance(v, Iter):
                v = ('iter', v)
                continue
            return None
        if isinstance(v, tuple):
            return None
    return v


def putseq(v, segenv):
    """replace phi sequences by their summaries"""
    if isinstance(v, Seq):
        if v.segs and isinstance(v.segs[0], OpSeg) and v.segs[0].name in segenv:
            return segenv[v.segs[0].name]
        if plain_items(v) is not None:
            return seq_items([putseq(x, segenv) for x in plain_items(v)])
        return v
    if isinstance(v, Agg):
        fs = tuple(putseq(x, segenv) for x in v.fs)
        return v if all(x is y for x, y in zip(fs, v.fs)) else Agg(v.kind, v.tid, v.var, fs)
    if isinstance(v, Box):
        x = putseq(v.v, segenv)
        return v if x is v.v else Box(v.kind, x)
    if isinstance(v, Iter):
        a = tuple(putseq(x, segenv) if not isinstance(x, (str, int, tuple)) and x is not None else x for x in v.a)
        return Iter(v.kind, a, v.front, v.back)
    return v


# ------------------------------------------------------------------ solving
def phi_atoms(v, atoms):
    out = set()

    def p(x):
        if (isinstance(x, Atom) or isinstance(x, (T, B))) and x in atoms:
            out.add(x)
        return False
    any_node(v, p)
    return out


def solve(itp, order, k, facts, stay):
    """closed forms at iteration k : {Phi: value}"""
    env = {}
    sub = {}
    K = atomP(k)
    for p in order:
        if p.kind != 'S' and p.next is None:
            p.next = atomP(p.atom) if p.kind == 'P' else p.atom
    todo = [p for p in order if p.kind != 'S']
    atoms = {p.atom: p for p in order if p.kind != 'S'}
    f = facts.with_loop(k, sym('$trip' + k.key, 1))
    progress = True
    while progress and todo:
        progress = False
        for p in list(todo):
            nx = subst(p.next, sub) if sub else p.next
            nx = simp(nx, f)
            deps = phi_atoms(nx, atoms)
            if not deps <= {p.atom}:
                continue
            v = solve1(p, nx, k, K, f, deps)
            if v is not None:
                v = simp(v, f)
                env[p] = v
                sub[p.atom] = v
                todo.remove(p)
                progress = True
    # joint folds for the rest
    for p in list(todo):
        comp = closure(p, atoms, sub, f)
        if comp is None:
            continue
        v = mkfold(p, comp, k, K, sub, f)
        if v is not None:
            env[p] = v
    for p in todo:
        if p in env:
            sub[p.atom] = env[p]
    return env


def closure(p, atoms, sub, f):
    seen = [p]
    i = 0
    while i < len(seen):
        q = seen[i]
        i += 1
        if q.next is None:
            return None
        nx = simp(subst(q.next, sub), f)
        found = []

        def pr(x):
            if (isinstance(x, Atom) or isinstance(x, (T, B))) and x in atoms:
                if atoms[x] not in found:
                    found.append(atoms[x])
            return False
        any_node(nx, pr)
        found.sort(key=lambda z: z.name)
        for z in found:
            if z not in seen:
                seen.append(z)
        if len(seen) > 6:
            return None
    return seen


def mkfold(p, comp, k, K, sub, f):
    inits = tuple(q.init for q in comp)
    bodies = tuple(simp(subst(q.next, sub), f) for q in comp)
    if any_node(bodies, lambda x: isinstance(x, (Unk, OpSeg)) or phiget(x)):
        return None
    return build_fold(p.kind, inits, [q.atom for q in comp], [q.kind for q in comp], bodies, k, K)


def build_fold(kind, inits, svars, kinds, bodies, k, trip):
    d = max(bdepth(bodies), bdepth(inits)) + 1
    kk = canonk(d)
    env = {k: atomP(kk)}
    sv = []
    for i, (s, kd) in enumerate(zip(svars, kinds)):
        nm = '$s%d_%d' % (d, i)
        if kd == 'P':
            a = Atom('s', (nm,))
            sv.append(a)
            env[s] = atomP(a)
        elif kd == 'B':
            sv.append(B(nm))
            env[s] = B(nm)
        else:
            sv.append(T(nm))
            env[s] = T(nm)
    bodies = subst_all(bodies, env)
    args = (0, inits, trip, kk, tuple(sv), bodies)
    if trip.is_const() and trip.const() == 0:
        return inits[0]
    if kind == 'P':
        return atomP(Atom('foldi', args))
    if kind == 'B':
        return B('foldb', args)
    return T('fold', args)


def subst_all(v, env):
    """subst incl. B phis"""
    bs = {a: b for a, b in env.items() if isinstance(a, B)}
    v = subst(v, env)
    if bs:
        v = bsub(v, bs)
    return v


def bsub(v, bs):
    if isinstance(v, tuple):
        return tuple(bsub(x, bs) for x in v)
    if isinstance(v, B):
        if v in bs:
            return bs[v]
        return mkB(v.op, tuple(bsub(x, bs) for x in v.args)) if v.args else v
    if isinstance(v, G):
        return mkG(bsub(v.c, bs), bsub(v.a, bs), bsub(v.b, bs))
    if isinstance(v, T):
        return T(v.op, tuple(bsub(x, bs) for x in v.args)) if v.args else v
    if isinstance(v, P):
        out = ZERO
        for m, c in v.m.items():
            t = toP(c)
            for a, e in m:
                x = atomP(a)
                if a.head == 'ite':
                    x = ite(*[bsub(y, bs) for y in a.args])
                for _ in range(e):
                    t = t * x
            out = out + t
        return out
    return v


def solve1(p, nx, k, K, f, deps):
    if nx is p.atom or nx == p.atom or (p.kind == 'P' and isinstance(nx, P) and as_atom(nx) is p.atom):
        return p.init
    if p.kind == 'P' and isinstance(nx, P):
        phi = atomP(p.atom)
        d = nx - phi
        if p.atom not in all_atoms(d):
            if k not in all_atoms(d):
                return p.init + d * K
            j = Atom('s', (fresh('j'),))
            j.lo = 0
            return p.init + isum(j, K, subst(d, {k: atomP(j)}))
        if not deps:
            return shift(p, nx, k, K, f)
        r = modular(p, nx, k, K, f)
        if r is not None:
            return r
        r = odometer(p, nx, k, K, f)
        if r is not None:
            return r
        # geometric
        cs = nx.coeffs(p.atom)
        if len(cs) == 2 and not cs[0].m and cs[1].is_const() and p.atom not in all_atoms(cs[1]) and p.init.is_const():
            return p.init * atomP(mk_atom('pow', (cs[1], K), 0))
        return build_fold('P', (p.init,), [p.atom], ['P'], (nx,), k, K)
    if p.kind == 'T':
        if not deps:
            return shift(p, nx, k, K, f)
        if any_node(nx, lambda x: isinstance(x, (Unk, OpSeg, Ptr, Agg)) or phiget(x)):
            return None
        return build_fold('T', (p.init,), [p.atom], ['T'], (nx,), k, K)
    if p.kind == 'B':
        if not deps:
            return shift(p, nx, k, K, f)
        return build_fold('B', (p.init,), [p.atom], ['B'], (nx,), k, K)
    return None


def shift(p, nx, k, K, f):
    """phi(k+1) = nx(k)"""
    prev = subst(nx, {k: K - 1})
    at0 = subst(nx, {k: toP(-1)})
    try:
        if simp(at0, f) == p.init:
            return prev
    except Exception:
        pass
    if isinstance(nx, P):
        return ite(eq0(K), p.init, prev)
    if isinstance(nx, B):
        return bite(eq0(K), p.init, prev)
    return mkG(eq0(K), p.init, prev)


def modular(p, nx, k, K, f):
    a = as_atom(nx)
    phi = atomP(p.atom)
    if a is None:
        return None
    if a.head == 'mod':
        x, m = a.args
        d = x - phi
        if p.atom in all_atoms(d) or p.atom in all_atoms(m) or k in all_atoms(d) or k in all_atoms(m):
            return None
        if f.prove_ge(p.init) and f.prove_ge(m - 1 - p.init):
            return smod(p.init + d * K, m, f)
    if a.head == 'ite':
        # if phi+1 == m then 0 else phi+1 (any order)
        c, x, y = a.args
        for cc, z, nz in ((c, x, y), (bnot(c), y, x)):
            if not z.m and nz == phi + 1:
                m = wrap_bound(cc, p.atom)
                if m is not None and k not in all_atoms(m) and f.prove_ge(p.init) and f.prove_ge(m - 1 - p.init):
                    return smod(p.init + K, m, f)
    return None


def wrap_bound(c, atom):
    """m when c says phi + 1 == m (or phi+1 >= m)"""
    if c.op == 'eq0' or c.op == 'ge0':
        q = c.args[0]
        cs = q.coeffs(atom)
        if len(cs) == 2 and cs[1].is_const() and abs(cs[1].const()) == 1 and atom not in all_atoms(cs[0]):
            s = cs[1].const()
            if c.op == 'ge0' and s != 1:
                return None
            # s*phi + r == 0 -> phi = -r/s ; m = phi+1
            return -(cs[0] * s) + 1
    return None


def odometer(p, nx, k, K, f):
    """digit advances when all lower digits wrap: nx = if(adv) step(phi) else phi"""
    phi = atomP(p.atom)
    adv = []
    cur = nx
    while True:
        a = as_atom(cur)
        if a is None or a.head != 'ite':
            break
        c, x, y = a.args
        if x == phi:
            adv.append(bnot(c))
            cur = y
        elif y == phi:
            adv.append(c)
            cur = x
        else:
            break
    if not adv:
        return None
    conds = []
    for c in adv:
        conds += list(c.args) if c.op == 'and' else [c]
    D = wrap_period(conds, k, K, f)
    if D is None:
        return None
    ct = sdiv(K, D, f)
    # step on its own clock
    if cur == phi + 1:
        return p.init + ct
    a = as_atom(cur)
    if a is not None and a.head == 'mod':
        x, m = a.args
        if x == phi + 1 and p.atom not in all_atoms(m) and k not in all_atoms(m) and f.prove_ge(p.init) and f.prove_ge(m - 1 - p.init):
            return smod(p.init + ct, m, f)
    if a is not None and a.head == 'ite':
        c, x, y = a.args
        for cc, z, nz in ((c, x, y), (bnot(c), y, x)):
            if not z.m and nz == phi + 1:
                m = wrap_bound(cc, p.atom)
                if m is not None and k not in all_atoms(m) and f.prove_ge(p.init) and f.prove_ge(m - 1 - p.init):
                    return smod(p.init + ct, m, f)
    return None


def wrap_period(conds, k, K, f):
    """D such that the conjunction of conds at iteration k <=> D | (k+1)"""
    left = list(conds)
    D = ONE
    while left:
        hit = None
        for c in left:
            m = digit_wrap(c, k, K, D, f)
            if m is not None:
                hit = c
                break
        if hit is None:
            return None
        left.remove(hit)
        D = D * m
    return D


def digit_wrap(c, k, K, D, f):
    """c says: digit (k div D) + 1 == 0 mod m"""
    if c.op not in ('eq0', 'ge0'):
        return None
    q = c.args[0]
    if c.op == 'ge0':
        # mod(div(k,D), m) >= m - 1
        for a in q.atoms():
            if a.head == 'mod' and a.args[0] == (sdiv(K, D, f) if D != ONE else K) and q == atomP(a) + 1 - a.args[1] \
                    and k not in all_atoms(a.args[1]):
                return a.args[1]
        return None
    # mod(div(k,D)+1, m) == 0
    a = as_atom(q)
    want = sdiv(K, D, f) + 1 if D != ONE else K + 1
    if a is not None and a.head == 'mod':
        x, m = a.args
        if x == want and k not in all_atoms(m):
            return m
        # mod(mod(x,m)+1,m)
        b = as_atom(x - 1)
        if b is not None and b.head == 'mod' and b.args[1] == m and b.args[0] == want - 1:
            return m
        return None
    # mod(div(k,D), m) + 1 - m == 0   (explicit wrap test)
    for a in q.atoms():
        if a.head == 'mod' and a.args[0] == want - 1:
            m = a.args[1]
            if q == atomP(a) + 1 - m or -q == atomP(a) + 1 - m:
                return m
    return None


# ------------------------------------------------------------------ trips
def simp_open(stay, k, facts):
    return simp(stay, facts.with_loop(k, sym('$trip' + k.key, 1)))


def trip_count(stay, k, facts, bads):
    if any_node(stay, lambda x: (isinstance(x, Atom) or isinstance(x, (T, B))) and x in bads):
        raise Undecided('loop condition depends on an unsolved recurrence')
    t = trip1(stay, k, facts)
    if t is not None:
        return simp(t, facts)
    # number of iterations = first k where the condition fails
    kk = canonk(bdepth(stay) + 1)
    return atomP(mk_atom('ffail', (kk, subst(stay, {k: atomP(kk)})), 0))


def trip1(stay, k, facts):
    if stay.op == 'false':
        return ZERO
    if stay.op == 'and':
        ts = [trip1(x, k, facts) for x in stay.args]
        if any(t is None for t in ts):
            return None
        r = ts[0]
        for t in ts[1:]:
            if facts.prove_ge(t - r):
                continue
            if facts.prove_ge(r - t):
                r = t
                continue
            r = imin(r, t)
        return r
    if stay.op == 'ge0':
        q = stay.args[0]
        cs = q.coeffs(k)
        if len(cs) == 2 and k not in all_atoms(cs[0]) and k not in all_atoms(cs[1]):
            a, b = cs[0], -cs[1]
            if b == ONE:
                t = a + 1
            elif facts.pos(b):
                # stay while a - b*k >= 0
                if facts.prove_ge(a + b):
                    t = sdiv(a + b, b, facts)
                else:
                    return None
            else:
                return None
            if facts.prove_ge(t):
                return t
            if facts.prove_ge(-t):
                return ZERO
            return imax(ZERO, t)
        return None
    if stay.op == 'not' and stay.args[0].op == 'eq0':
        q = stay.args[0].args[0]
        cs = q.coeffs(k)
        if len(cs) == 2 and k not in all_atoms(cs[0]) and cs[1].is_const() and abs(cs[1].const()) == 1:
            t = cs[0] * (-cs[1].const())
            if facts.prove_ge(t):
                return t
    return None
