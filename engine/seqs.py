"""Sequences: reading an element at a symbolic index, sub-ranges, canonical form."""
from terms import *
from prover import simp, gmerge, sdiv, smod


def seg_len(s):
    if isinstance(s, Item):
        return ONE
    if isinstance(s, OpSeg):
        return s.len
    if isinstance(s, If):
        return ite(s.c, segs_len(s.a), segs_len(s.b))
    if isinstance(s, Loop):
        L = segs_len(s.segs)
        if s.k in all_atoms(L):
            return isum(s.k, s.t, L)
        return s.t * L
    raise Undecided('seg %r' % (s,))


def segs_len(ss):
    n = ZERO
    for s in ss:
        n = n + seg_len(s)
    return n


def mk_seq(segs, ws=()):
    return Seq(segs_len(segs), tuple(segs), tuple(ws))


def plain_items(seq):
    """list of values when the sequence is a literal list, else None"""
    if seq.ws or not all(isinstance(s, Item) for s in seq.segs):
        return None
    return [s.v for s in seq.segs]


def digits(idxp, loops, target, f):
    """solve idxp(k..) == target for the loop counters; (env, conds) or None.
    idxp must be affine in the counters with a mixed-radix stride structure"""
    ks = [k for k, _ in loops]
    base = idxp
    coef = {}
    for k in ks:
        cs = base.coeffs(k)
        if len(cs) > 2:
            return None
        if len(cs) == 2:
            c = cs[1]
            if any(x in all_atoms(c) for x in ks):
                return None
            coef[k] = c
            base = cs[0]
    trip = dict(loops)
    free = [k for k in ks if k not in coef]
    if any(x in all_atoms(base) for x in ks):
        return None
    # a counter not in the index: the last iteration wins
    env = {}
    for k in free:
        env[k] = trip[k] - 1
    # order by stride, outermost first
    order = []
    rest = [k for k in ks if k in coef]
    trips = {}
    for k in rest:
        trips[k] = trip[k]
    neg = [k for k in rest if f.prove_ge(-coef[k])]
    # descending counters: k -> t-1-k
    flip = {}
    for k in neg:
        if any(x in all_atoms(trips[k]) for x in ks):
            return None
        base = base + coef[k] * (trips[k] - 1)
        coef[k] = -coef[k]
        flip[k] = True
    while rest:
        pick = None
        for k in rest:
            ok = True
            for j in rest:
                if j is k:
                    continue
                tj = trips[j]
                if any(x in all_atoms(tj) for x in ks):
                    # triangular trip: use a bound when the outer counter bounds it
                    tj = upper(tj, loops, f)
                    if tj is None:
                        ok = False
                        break
                if not f.prove_ge(coef[k] - coef[j] * tj):
                    ok = False
                    break
            if ok:
                pick = k
                break
        if pick is None:
            # single-iteration loops do not disturb the order
            for k in rest:
                if f.decide(eq(trips[k], ONE)):
                    pick = k
                    break
            if pick is None:
                return None
            env[pick] = ZERO
            rest.remove(pick)
            continue
        order.append(pick)
        rest.remove(pick)
    lo = ZERO
    if len(order) > 1 and base.m and coef[order[-1]] == ONE and order[-1] not in flip:
        # the innermost digit runs from base, as long as it stays below the next stride
        k = order[-1]
        t = trips[k]
        f2 = f.add(ge0(positive(t) - 1))
        if f2.prove_ge(base) and f2.prove_ge(coef[order[-2]] - base - positive(t)):
            lo, base = base, ZERO
    r = target - base
    conds = [ge0(r)]
    for k in order:
        if lo.m and k is order[-1]:
            r = simp(r - lo, f)
            conds.append(ge0(r))
        c = coef[k]
        q = simp(sdiv(r, c, f), f) if c != ONE else r
        m = simp(smod(r, c, f), f) if c != ONE else ZERO
        env[k] = (trips[k] - 1 - q) if k in flip else q
        conds.append(lt(q, trips[k]))
        r = m
    if r.m:
        conds.append(eq0(r))
    # resolve counters inside trips / free ones
    for _ in range(4):
        conds = [subst(c, env) for c in conds]
        env = {k: subst(v, env) for k, v in env.items()}
    for k in free:
        conds.append(ge0(env[k]))
    return env, conds


def positive(t):
    """the value of trip count t when it is positive"""
    if len(t.m) == 1:
        (m, c), = t.m.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].head == 'max':
            xs = [x for x in m[0][0].args if isinstance(x, P) and x.m]
            if len(xs) == 1 and len(m[0][0].args) == 2:
                return xs[0]
    return t


def upper(t, loops, f):
    """an upper bound of trip t over the outer counters (affine, positive)"""
    for k, tk in reversed(loops):
        cs = t.coeffs(k)
        if len(cs) > 2:
            return None
        if len(cs) == 2:
            if f.prove_ge(cs[1]):
                t = cs[0] + cs[1] * (tk - 1)
            elif f.prove_ge(-cs[1]):
                t = cs[0]
            else:
                return None
    return t


def match_w(w, idx, f):
    """(cond, value) : the write family w stores value at idx when cond"""
    if not w.loops:
        c = band(eq(w.idx, idx), w.cond)
        return simp(c, f), w.v
    d = digits(w.idx, w.loops, idx, f)
    if d is None:
        raise Undecided('index map %r' % (w,))
    env, conds = d
    c = band(*[simp(x, f) for x in conds])
    if c.op == 'false':
        return c, None
    c2 = simp(subst(w.cond, env), f.add(c))
    return band(c, c2), subst(w.v, env)


def seq_get(seq, idx, f):
    idx = simp(idx, f)
    outs = []
    for w in reversed(seq.ws):
        c, v = match_w(w, idx, f)
        if c.op == 'false':
            continue
        if c.op == 'true' or f.decide(c):
            outs.append((TRUE, v))
            break
        if f.decide(c) is False:
            continue
        outs.append((c, v))
    else:
        outs.append((TRUE, segs_get(seq.segs, idx, f)))
    v = outs[-1][1]
    v = simp(v, f) if len(outs) == 1 else v
    for c, x in reversed(outs[:-1]):
        v = vm(c, x, v, f)
    return v


def vm(c, a, b, f):
    """value merge"""
    if a == b:
        return a
    if isinstance(a, Agg) and isinstance(b, Agg) and a.kind == b.kind and a.var == b.var and len(a.fs) == len(b.fs):
        return Agg(a.kind, a.tid, a.var, tuple(vm(c, x, y, f) for x, y in zip(a.fs, b.fs)))
    return gmerge(c, a, b, f)


def segs_get(segs, idx, f):
    off = ZERO
    outs = []
    for s in segs:
        L = seg_len(s)
        rel = simp(idx - off, f)
        if isinstance(s, Item):
            c = eq0(rel)
        else:
            c = band(ge0(rel), lt(rel, L))
        d = f.decide(c)
        if d is False:
            off = off + L
            continue
        ff = f if d else f.add(c)
        try:
            v = seg_get(s, rel, ff)
        except Undecided:
            raise
        if d:
            outs.append((TRUE, v))
            break
        outs.append((c, v))
        off = off + L
    else:
        outs.append((TRUE, T('oob')))
    v = outs[-1][1]
    if v == T('oob') and len(outs) > 1:
        # callers have established 0 <= idx < len: the last alternative holds
        outs.pop()
        v = outs[-1][1]
    for c, x in reversed(outs[:-1]):
        v = vm(c, x, v, f)
    return v


def seg_get(s, rel, f):
    if isinstance(s, Item):
        return s.v
    if isinstance(s, OpSeg):
        return T('get', (s.name, rel))
    if isinstance(s, If):
        a = f.decide(s.c)
        if a is True:
            return segs_get(s.a, rel, f)
        if a is False:
            return segs_get(s.b, rel, f)
        return vm(s.c, segs_get(s.a, rel, f.add(s.c)), segs_get(s.b, rel, f.add(bnot(s.c))), f)
    if isinstance(s, Loop):
        L = segs_len(s.segs)
        if s.k in all_atoms(L):
            return loop_get_var(s, L, rel, f)
        if f.decide(eq(s.t, ONE)):
            j, r = ZERO, rel
        elif L == ONE:
            j, r = rel, ZERO
        else:
            j = simp(sdiv(rel, L, f), f)
            r = simp(smod(rel, L, f), f)
        env = {s.k: j}
        return simp(segs_get(subst(s.segs, env), r, f), f)
    raise Undecided('seg_get')


def loop_get_var(s, L, rel, f):
    """loop with varying body length: rel = sum_{i<j} L(i) + r"""
    # find j among loop counters / symbols in rel such that the remainder fits
    cands = []
    for k, t in f.loops:
        cands.append(atomP(k))
    cands += [ZERO, s.t - 1]
    for j in cands:
        o = isum(s.k, j, L)
        r = simp(rel - o, f)
        Lj = subst(L, {s.k: j})
        if f.prove_ge(r) and f.prove_ge(Lj - r - 1) and f.prove_ge(j) and f.prove_ge(s.t - j - 1):
            return simp(segs_get(subst(s.segs, {s.k: j}), r, f), f)
    raise Undecided('variable-length segment')


def seq_sub(seq, off, n, f):
    """sub-sequence [off, off+n)"""
    off = simp(off, f)
    n = simp(n, f)
    if not off.m and f.decide(eq(n, seq.len)):
        return seq
    it = plain_items(seq)
    if it is not None and off.is_const() and n.is_const():
        o, m = off.const(), n.const()
        if o < 0 or m < 0 or o + m > len(it):
            raise Undecided('literal sub-range out of range')
        return seq_items(it[o:o + m])
    if n.is_const() and n.const() <= 8:
        return seq_items([seq_get(seq, off + i, f) for i in range(n.const())])
    k = Atom('s', (fresh('g'),))
    k.lo = 0
    ff = f.with_loop(k, n).add(ge0(n - 1))
    return Seq(n, (Loop(k, n, (Item(seq_get(seq, off + atomP(k), ff)),)),))


def canon_seq(seq, f):
    """alpha-normal description of a sequence as a term"""
    n = simp(seq.len, f)
    if n.is_const() and n.const() <= 16:
        return T('list', tuple(seq_get(seq, toP(i), f) for i in range(n.const())))
    k = Atom('s', (fresh('c'),))
    k.lo = 0
    ff = f.with_loop(k, n).add(ge0(n - 1))
    v = simp(seq_get(seq, atomP(k), ff), ff)
    v = canon(v, ff)
    kk = canonk(bdepth(v) + 1)
    return T('seq', (n, kk, subst(v, {k: atomP(kk)})))


def canon(v, f):
    if isinstance(v, Seq):
        return canon_seq(v, f)
    if isinstance(v, Box):
        return canon(v.v, f)
    if isinstance(v, Agg):
        return Agg(v.kind, v.tid, v.var, tuple(canon(x, f) for x in v.fs))
    if isinstance(v, G):
        return mkG(v.c, canon(v.a, f.add(v.c)), canon(v.b, f.add(bnot(v.c))))
    return v
