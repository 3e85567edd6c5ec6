"""Obligations: a harness root, abstract arguments, and what must come out."""
import signal
import time
from terms import *
import prover
from prover import Facts, simp
from seqs import *
from interp import Interp, St, Diverge, Req, UNIT
import ground
import realnf
import own

PANIC = 'panic'


class Ten:
    """expected tensor: dims and element function of the index tuple"""

    def __init__(self, dims, elem, parts=None):
        self.dims = [toP(d) for d in dims]
        self.elem = elem
        self.parts = parts or {}      # axis -> [(start, length)]: the axis is checked range by range


class Lst:
    """expected flat sequence: length and element function"""

    def __init__(self, n, elem):
        self.n = toP(n)
        self.elem = elem


class Opt:
    """Some(x) when c else None"""

    def __init__(self, c, v):
        self.c = c
        self.v = v


class OrNone:
    """None, or Some of the value"""

    def __init__(self, v):
        self.v = v


class Tup:
    def __init__(self, *xs):
        self.xs = xs


class Any_:
    pass


ANY = Any_()


class Ob:
    def __init__(self, prop, name, root, args, expect, facts=(), kinds=None, pre=None, tensor=None, light=True):
        self.tensor = expect == PANIC or isinstance(expect, Ten) or hasattr(expect, 'fn') if tensor is None else tensor
        self.light = light
        self.prop = prop
        self.name = name
        self.root = root
        self.args = args
        self.expect = expect
        self.facts = facts
        self.kinds = kinds
        self.io = {}
        self.alts = ()
        self.assume = None      # further preconditions, as a predicate on conditions


def prod(xs):
    r = ONE
    for x in xs:
        r = r * toP(x)
    return r


def vec(items):
    return Box('vec', seq_items([toP(x) if isinstance(x, int) else x for x in items]))


def storage(name, n):
    return Box('vec', Seq(toP(n), (OpSeg(name, toP(n)),), ()))


def dims(prefix, rank, lo=1, ones=()):
    return [ONE if i in ones else sym('%s%d' % (prefix, i), lo) for i in range(rank)]


class Tin:
    """input tensor: a window of a larger storage"""

    def __init__(self, name, ds, off=None):
        self.name = name
        self.d = [toP(d) for d in ds]
        self.off = sym('off_' + name, 0) if off is None else toP(off)
        self.N = sym('N_' + name, 0)
        self.len = prod(self.d)
        self.facts = (ge0(self.N - self.off - self.len),)

    def arg(self):
        return Agg('adt', None, 0, (storage(self.name, self.N), self.off, self.len, vec(self.d)))

    def at(self, idx):
        return self.flat(flat(idx, self.d))

    def flat(self, i):
        return T('get', (self.name, self.off + i))


def flat(idx, ds):
    r = ZERO
    for i, d in zip(idx, ds):
        r = r * d + toP(i)
    return r


def tname(n, *ds):
    return Tin(n, ds)


class Verdict:
    def __init__(self, status, why='', wit=None, loc=None, nreq=0, fns=(), steps=0, kind=None):
        self.kind = kind
        self.also = None
        self.status = status    # PROVED / VIOLATION / UNDECIDED
        self.why = why
        self.wit = wit
        self.loc = loc
        self.nreq = nreq
        self.fns = fns
        self.steps = steps


def run_inst(prog, ob, timeout=10, count=14):
    """the same analysis with the shapes fixed to small constants; can only refute"""
    end = time.time() + timeout
    f, args, _ = setup(Interp(prog), ob)
    syms = ground.base_syms(tuple(f.ges), tuple(f.eqs), tuple(args))
    for a in f.sub:
        if a.head == 's':
            syms.add(a)
    n = 0
    why = 'no instance'
    for env in ground.samples(f, syms, count):
        vals = {a: toP(v) for a, v in env.v.items() if isinstance(a, Atom) and a.head == 's'}
        if any(abs(x) > 60 for x in env.v.values() if isinstance(x, int)):
            continue
        left = end - time.time()
        if left <= 0:
            break
        v = run_ob(prog, ob, left, vals)
        n += 1
        if v.status == 'VIOLATION':
            v.wit = dict(wit(env), **(v.wit or {}))
            return v
        if v.status == 'UNDECIDED':
            why = v.why
    return Verdict('UNDECIDED', '%d constant shapes agree; %s' % (n, why))


def setup(itp, ob):
    f = Facts()
    itp.wins = {}
    args = []
    fs = []
    for a in ob.args:
        if isinstance(a, Tin):
            itp.wins[a.name] = (a.off, a.len)
            fs += a.facts
            a = a.arg()
        elif isinstance(a, int):
            a = toP(a)
        args.append(a)
    fs += list(ob.facts)
    # a linear lower bound of a symbol becomes a slack variable
    env = {}
    rest = []
    for x in fs:
        x = subst(x, env) if env else x
        if x.op == 'ge0':
            p = x.args[0]
            for m, c in sorted(p.m.items(), key=lambda t: repr(t[0])):
                if c == 1 and len(m) == 1 and m[0][1] == 1:
                    a = m[0][0]
                    r = atomP(a) - p
                    if a.head == 's' and a.lo is not None and a not in all_atoms(r) and Facts().prove_ge(r - a.lo):
                        z = sym('z_' + a.key, 0)
                        e = {a: r + z}
                        env = {k: subst(v, e) for k, v in env.items()}
                        env.update(e)
                        break
            else:
                rest.append(x)
        else:
            rest.append(x)
    for x in rest:
        f = f.add(simp(subst(x, env), f) if env else x)
    expect = ob.expect
    if env:
        args = [subst(a, env) for a in args]
        expect = inst_expect(expect, env)
        itp.wins = {k: (subst(o, env), subst(n, env)) for k, (o, n) in itp.wins.items()}
    return f, args, expect


def inst_expect(e, vals):
    if isinstance(e, Ten):
        return Ten([subst(d, vals) for d in e.dims], lambda k: subst(e.elem(k), vals),
                   {a: [(subst(toP(x), vals), subst(toP(y), vals)) for x, y in v] for a, v in e.parts.items()})
    if isinstance(e, Lst):
        return Lst(subst(e.n, vals), lambda k: inst_expect(e.elem(k), vals))
    if isinstance(e, OrNone):
        return OrNone(inst_expect(e.v, vals))
    if isinstance(e, Opt):
        return Opt(subst(e.c, vals), inst_expect(e.v, vals))
    if isinstance(e, Tup):
        return Tup(*[inst_expect(x, vals) for x in e.xs])
    if e is ANY or isinstance(e, (str, int)):
        return e
    return subst(e, vals)


CURRENT = [None]


def call_(root, *args):
    """the value of a scalar function of the harness, itself analysed from its source"""
    prog = CURRENT[0]
    itp = Interp(prog)
    itp.deadline = prover.CLOCK[0]
    st = St({}, Facts())
    return itp.call_fn(st, prog.roots[root], list(args), ('root',))


def brief(v, n=300):
    left = [400]

    def go(x):
        left[0] -= 1
        if left[0] < 0:
            return '…'
        if isinstance(x, T) and x.args:
            return '%s(%s)' % (x.op, ','.join(go(y) for y in x.args))
        if isinstance(x, tuple):
            return '(%s)' % ','.join(go(y) for y in x)
        if isinstance(x, G):
            return 'if(%s,%s,%s)' % (go(x.c), go(x.a), go(x.b))
        if isinstance(x, Agg):
            return '[%s]' % ','.join(go(y) for y in x.fs)
        if isinstance(x, B) and x.args:
            return '%s(%s)' % (x.op, ','.join(go(y) for y in x.args))
        return str(x)
    return go(v)[:n]


def alarm(*a):
    raise Undecided('time')


def run_ob(prog, ob, timeout=60, vals=None):
    if not ob.alts:
        return run_ob1(prog, ob, timeout, vals)
    # any one of several expected results
    import copy
    r = None
    for e in ob.alts:
        o = copy.copy(ob)
        o.alts = ()
        o.expect = e
        v = run_ob1(prog, o, timeout, vals)
        if v.status == 'PROVED':
            return v
        if r is None or r.status == 'VIOLATION':
            r = v
    return r


def run_ob1(prog, ob, timeout=60, vals=None):
    CURRENT[0] = prog
    itp = Interp(prog)
    itp.concrete = vals is not None
    if itp.concrete:
        itp.UNROLL = 500
    itp.deadline = time.time() + timeout
    prover.CLOCK[0] = itp.deadline
    old = signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout + 2, 1)
    try:
        v = _run(prog, itp, ob, vals)
    except Undecided as e:
        v = Verdict('UNDECIDED', str(e))
    except RecursionError:
        v = Verdict('UNDECIDED', 'recursion')
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    v.fns = itp.visited
    v.steps = itp.steps
    return v


def _run(prog, itp, ob, vals=None):
    if ob.root not in prog.roots:
        return Verdict('UNDECIDED', 'root %s not found' % ob.root)
    if hasattr(ob.expect, 'fn'):
        ob.expect = ob.expect.fn()
    f, args, expect = setup(itp, ob)
    itp.io = ob.io
    if vals is not None:
        f = Facts()
        args = [subst(a, vals) for a in args]
        expect = inst_expect(expect, vals)
        itp.wins = {k: (subst(o, vals), subst(n, vals)) for k, (o, n) in itp.wins.items()}
    st = St({}, f)
    try:
        r = itp.call_fn(st, prog.roots[ob.root], args, ('root',))
        div = None
    except Diverge as e:
        div = e
    syms = ground.base_syms(tuple(f.ges), tuple(f.eqs), tuple(args))
    for a in f.sub:
        if a.head == 's':
            syms.add(a)
    if expect == PANIC:
        bad = memory_first(itp, f, syms, div)
        if bad is not None:
            return bad
        if div is not None:
            return Verdict('PROVED', 'always panics at %s' % (div.loc,), nreq=1)
        # returns normally unless one of the recorded requirements fails
        return refute_panic(itp, f, syms, ob)
    pend = []
    for q in itp.reqs:
        if not discharged(q) and not (ob.assume and assumed(ob, q)):
            pend.append(q)
    if div is not None:
        env = next(iter(ground.samples(f, syms, 1)), None)
        if env is None:
            return Verdict('UNDECIDED', 'panics, but no instance of the precondition found')
        return Verdict('VIOLATION', 'panics (%s)' % div.why, wit(env), div.loc, kind=div.why if div.why in ('mem', 'memw', 'own') else 'panic')
    for q in pend:
        if q.kind == 'own':
            continue
        w = refute_req(q, f, syms)
        if w is not None:
            return Verdict('VIOLATION', 'requirement %s fails: %r' % (q.kind, q.cond), w, q.loc, kind=q.kind if q.kind in ('mem', 'memw') else 'panic')
    bad = compare(itp, st, f, r, expect, syms)
    if bad is not None:
        if bad[0] == 'VIOLATION':
            v = Verdict('VIOLATION', bad[1], bad[2], prog.fns[prog.roots[ob.root]]['span'], kind=bad[3])
            v.also = extra(prog, itp, st, f, syms, ob, pend)
            return v
        r = Verdict('UNDECIDED', bad[1])
    elif pend:
        r = Verdict('UNDECIDED', 'not shown: %r' % (pend[0],))
    else:
        r = Verdict('PROVED', nreq=len(itp.reqs) + 1)
    x = extra(prog, itp, st, f, syms, ob, pend)
    if x is not None and (x.status == 'VIOLATION' or r.status == 'PROVED'):
        return x
    return r


def extra(prog, itp, st, f, syms, ob, pend):
    for q in pend:
        if q.kind == 'own':
            w = refute_req(q, f, syms)
            if w is not None:
                return Verdict('VIOLATION', 'the storage is not released exactly: %r fails' % (q.cond,), w, q.loc, kind='own')
    why = own.finish(itp)
    if why is not None:
        return Verdict('VIOLATION', why, {}, prog.fns[prog.roots[ob.root]]['span'], kind='own')
    why = mutated(itp, st, f, syms)
    if why is not None:
        return Verdict(why[0], why[1], why[2], prog.fns[prog.roots[ob.root]]['span'], kind='mutate')
    return None


def mutated(itp, st, f, syms):
    """the elements of an argument tensor are the same after the call"""
    for root, q in itp.inputs.items():
        now = st.mem.get(root)
        if now is None or now is q or now == q:
            continue
        name = q.segs[0].name
        if not isinstance(now, Seq):
            return ('UNDECIDED', 'argument storage after the call', None)
        a = Atom('s', (fresh('m'),))
        a.lo = 0
        k = atomP(a)
        f2 = f.with_loop(a, q.len).add(ge0(q.len - k - 1))
        g = seq_get(now, k, f2)
        b = val_cmp(itp, st, f2, g, T('get', (name, k)), syms, 'element of an argument after the call', f)
        if b is not None:
            return b[:2] + (b[2] if len(b) > 2 else None,)
    return None


def memory_first(itp, f, syms, div):
    """an invalid access before the panic"""
    if div is not None and div.why in ('mem', 'memw'):
        env = next(iter(ground.samples(f, syms, 1)), None)
        if env is None:
            return Verdict('UNDECIDED', 'invalid access, but no instance of the precondition found')
        return Verdict('VIOLATION', 'accesses memory out of range instead of panicking', wit(env), div.loc, kind=div.why)
    for q in itp.reqs:
        if q.kind in ('mem', 'memw') and not discharged(q):
            w = refute_req(q, f, syms)
            if w is not None:
                return Verdict('VIOLATION', 'accesses memory out of range: %r' % (q.cond,), w, q.loc, kind=q.kind)
            return Verdict('UNDECIDED', 'access not shown in range: %r' % (q,))
    return None


def once(q, f, syms):
    """number of writes into fresh storage equals its length"""
    if not (len(q.segs) == 1 and isinstance(q.segs[0], OpSeg) and q.segs[0].name == 'uninit'):
        return None
    n = ZERO
    for w in q.ws:
        if w.cond.op != 'true':
            return None
        c = ONE
        for k, t in reversed(w.loops):
            c = isum(k, t, c) if k in all_atoms(c) else c * t
        n = n + c
    r = scalar_cmp(f, n, q.len, syms, 'number of element writes')
    if r is not None and r[0] == 'VIOLATION':
        return r[:3] + ('dup',)
    return None


def assumed(ob, q):
    c = simp(q.cond, q.facts)
    return all(ob.assume(x) for x in (c.args if c.op == 'and' else (c,)))


def discharged(q):
    if q.facts.decide(q.cond) is True:
        return True
    c = simp(q.cond, q.facts)
    if c.op == 'true':
        return True
    # quotient and remainder of a counter are themselves counters
    for k, trip in q.facts.loops:
        p = atomP(k)
        ms = [a.args[1] for a in all_atoms(c) if a.head in ('div', 'mod') and a.args[0] == p]
        for m in ms:
            t1 = exact_div(trip, m)
            if t1 is None:
                continue
            k1, k2 = Atom('s', (fresh('k'),)), Atom('s', (fresh('k'),))
            k1.lo = k2.lo = 0
            e = {k: atomP(k1) * m + atomP(k2)}
            f = q.facts.with_loop(k1, t1).with_loop(k2, m).add(ge0(m - 1)).add(ge0(t1 - 1))
            c2 = simp(subst(c, e), f)
            if c2.op == 'true' or f.decide(c2) is True:
                return True
    return False


def wit(env):
    return {a.key: v for a, v in sorted(env.v.items(), key=lambda t: t[0].key) if isinstance(a, Atom) and not a.key.startswith('$')}


def loop_envs(loops, env, i=0, budget=None, hint=()):
    if budget is None:
        budget = [400]
    if i == len(loops):
        yield env
        return
    k, t = loops[i]
    n = ground.gi(t, env)
    ks = range(n) if n <= 6 else [0, 1, 2, n // 2, n - 2, n - 1]
    if n > 6 and hint:
        ks = sorted(set(ks) | {x for h in hint for x in (h - 1, h, h + 1) if 0 <= x < n})
    for j in ks:
        budget[0] -= 1
        if budget[0] < 0:
            return
        for e in loop_envs(loops, env.child({k: j}), i + 1, budget, hint):
            yield e


def refute_req(q, f, syms):
    h = ground.hints(q.cond, q.facts.ges, q.facts.eqs, q.facts.others, tuple(q.facts.sub.values()), tuple(q.facts.loops))
    fh = ground.fhints((q.cond, q.facts.others))
    for env in ground.samples(f, syms, 40, hint=h, fhint=fh):
        try:
            for e in loop_envs(q.facts.loops, env, hint=h):
                e2 = ground.complete(q.facts, e.v, e.special)
                if ground.holds(q.facts, e2) and not ground.gb(q.cond, e2):
                    return wit(e2)
        except ground.NoValue:
            continue
    return None


def must_fail(itp, q, f):
    """requirement q certainly fails in the first or last iteration of its loops"""
    loops = q.facts.loops
    if q.facts.sub != f.sub or q.facts.others != f.others:
        return False
    early = set()
    for r in itp.reqs:
        if r is q:
            break
        if r.cond.op == 'ge0':
            early.add(q.facts.norm(r.cond.args[0]))
    for last in (True, False):
        env = {}
        ok = True
        for k, t in loops:
            t = subst(t, env) if env else t
            if not f.prove_ge(t - 1):
                ok = False
                break
            env[k] = t - 1 if last else ZERO
        if not ok:
            return False
        path = [ge0(p) for p in q.facts.ges if p not in f.ges and p not in early] + [eq0(p) for p in q.facts.eqs if p not in f.eqs]
        if f.decide(simp(subst(q.cond, env), f)) is False and all(f.decide(simp(subst(p, env), f)) for p in path):
            return True
    return False


def refute_panic(itp, f, syms, ob):
    n = 0
    for q in itp.reqs:
        if must_fail(itp, q, f):
            return Verdict('PROVED', 'always panics at %s' % (q.loc,), nreq=1)
    h = ground.hints(*[(q.cond, q.facts.ges, q.facts.eqs) for q in itp.reqs])
    for env in ground.samples(f, syms, 40, hint=h):
        n += 1
        try:
            hit = False
            for q in itp.reqs:
                for e in loop_envs(q.facts.loops, env):
                    e2 = ground.complete(q.facts, e.v, e.special)
                    # the first failing requirement panics
                    if not ground.gb(q.cond, e2) and ground.holds(q.facts, e2):
                        hit = True
                        break
                if hit:
                    break
            if not hit:
                return Verdict('VIOLATION', 'returns normally where it must panic', wit(env), None, kind='nopanic')
        except ground.NoValue:
            continue
    if not n:
        return Verdict('UNDECIDED', 'no instance of the precondition')
    return Verdict('UNDECIDED', 'panic not shown for every input')


# ------------------------------------------------------------------ comparing
def compare(itp, st, f, got, want, syms):
    """None when shown equal, else ('VIOLATION', why, witness) or ('UNDECIDED', why)"""
    if isinstance(got, Unk):
        return ('UNDECIDED', 'unknown result (%s)' % got.why)
    if want is ANY:
        return None
    if isinstance(want, Ten):
        if isinstance(got, G):
            d = f.decide(got.c)
            if d is not None:
                return compare(itp, st, f, got.a if d else got.b, want, syms)
        if not (isinstance(got, Agg) and len(got.fs) == 3):
            return ('UNDECIDED', 'result form %s' % (str(got)[:60],))
        sh, el, sz = got.fs
        r = compare(itp, st, f, sh, Lst(len(want.dims), lambda i: want.dims[i.const()]), syms)
        if r is not None:
            return (r[0], 'shape: ' + r[1]) + r[2:3] + ('shape',)
        n = prod(want.dims)
        r = scalar_cmp(f, sz, n, syms, 'size')
        if r is not None:
            return r
        q = itp.as_seq(st, el)
        r = scalar_cmp(f, q.len, n, syms, 'element count')
        if r is not None:
            return r
        if any(d.is_const() and d.const() == 0 for d in want.dims):
            return None
        r = cmp_elems(itp, st, f, q, want, syms)
        if r is not None:
            return r
        return once(q, f, syms)
    if isinstance(want, Lst):
        q = itp.as_seq(st, got)
        r = scalar_cmp(f, q.len, want.n, syms, 'length')
        if r is not None:
            return r
        n = simp(want.n, f)
        und = None
        if n.is_const() and n.const() <= (200 if itp.concrete else 24):
            for i in range(n.const()):
                w = want.elem(toP(i))
                if isinstance(w, (Ten, Lst, Tup, Opt)):
                    r = compare(itp, st, f, seq_get(q, toP(i), f), w, syms)
                    if r is not None:
                        r = (r[0], 'entry %d: %s' % (i, r[1])) + r[2:]
                else:
                    r = val_cmp(itp, st, f, seq_get(q, toP(i), f), w, syms, 'entry %d' % i, f)
                if r is not None and r[0] == 'VIOLATION':
                    return r
                und = und or r
            return und
        k = Atom('s', (fresh('x'),))
        k.lo = 0
        ff = f.with_loop(k, n).add(ge0(n - 1))
        return val_cmp(itp, st, ff, seq_get(q, atomP(k), ff), want.elem(atomP(k)), syms, 'entry', f)
    if isinstance(want, Tup):
        if isinstance(got, G):
            d = f.decide(got.c)
            if d is not None:
                return compare(itp, st, f, got.a if d else got.b, want, syms)
        if not (isinstance(got, Agg) and len(got.fs) == len(want.xs)):
            return ('UNDECIDED', 'result form %s' % (str(got)[:60],))
        und = None
        for i, (g, w) in enumerate(zip(got.fs, want.xs)):
            r = compare(itp, st, f, g, w, syms)
            if r is not None:
                r = (r[0], 'part %d: %s' % (i, r[1])) + r[2:]
                if r[0] == 'VIOLATION':
                    return r
                und = und or r
        return und
    if isinstance(want, OrNone) or isinstance(want, Opt) and want.c.op == 'true' and isinstance(want.v, (Ten, Lst, Tup)):
        if isinstance(got, G):
            und = None
            for x, y in ((got.c, got.a), (bnot(got.c), got.b)):
                ff = f.add(x)
                if ff.decide(FALSE) or f.decide(x) is False:
                    continue
                r = compare(itp, st, ff, y, want, syms)
                if r is not None and r[0] == 'VIOLATION':
                    return r
                und = und or r
            return und
        if not isinstance(got, Agg) or got.var not in (0, 1):
            return ('UNDECIDED', 'result form %s' % (str(got)[:60],))
        if got.var == 0:
            if isinstance(want, OrNone):
                return None
            env = next(iter(ground.samples(f, syms, 1)), None)
            return ('UNDECIDED', 'none') if env is None else ('VIOLATION', 'is None, must be a value', wit(env), 'value')
        return compare(itp, st, f, got.fs[0], want.v, syms)
    if isinstance(want, Opt):
        w = mkG(want.c, Agg('adt', None, 1, (want.v,)), Agg('adt', None, 0, ()))
        return val_cmp(itp, st, f, got, w, syms, 'value', f)
    return val_cmp(itp, st, f, got, want, syms, 'value', f)


def cmp_elems(itp, st, f, q, want, syms):
    import itertools
    und = None
    ch = []
    n = 1
    full = all(d.is_const() for d in want.dims) and (itp.concrete or prod(want.dims).const() <= 400)
    for d in want.dims:
        if full:
            ch.append([toP(i) for i in range(d.const())])
        elif d.is_const() and d.const() <= 4 and n * d.const() <= 36:
            ch.append([toP(i) for i in range(d.const())])
            n *= d.const()
        elif len(ch) in want.parts:
            ch.append([(toP(lo), toP(m)) for lo, m in want.parts[len(ch)]])
        else:
            ch.append([None])
    step = max(1, prod(want.dims).const() // 150) if full and itp.concrete else 1
    for cs in itertools.islice(itertools.product(*ch), 0, None, step + (step > 1 and step % 2 == 0)):
        ks = []
        ff = f
        for d, c in zip(want.dims, cs):
            if isinstance(c, tuple):
                k = Atom('s', (fresh('x'),))
                k.lo = 0
                ks.append(c[0] + atomP(k))
                ff = ff.with_loop(k, c[1]).add(ge0(c[1] - 1))
                continue
            if c is not None:
                ks.append(c)
                continue
            k = Atom('s', (fresh('x'),))
            k.lo = 0
            ks.append(atomP(k))
            ff = ff.with_loop(k, d).add(ge0(d - 1))
        g = seq_get(q, flat(ks, want.dims), ff)
        r = val_cmp(itp, st, ff, g, want.elem(ks), syms, 'element', f)
        if r is not None and r[0] == 'VIOLATION':
            return r
        und = und or r
    return und


def scalar_cmp(f, g, w, syms, what):
    if isinstance(g, Unk):
        return ('UNDECIDED', 'unknown %s' % what)
    if f.decide(eq(g, w)) is True:
        return None
    if simp(g, f) == simp(w, f):
        return None
    for env in ground.samples(f, syms, 60, hint=ground.hints(g, w)):
        try:
            a, b = ground.gi(g, env), ground.gi(w, env)
        except ground.NoValue:
            continue
        if a != b:
            return ('VIOLATION', '%s is %d, must be %d  [%r vs %r]' % (what, a, b, g, w), wit(env), 'size')
    return ('UNDECIDED', '%s: %r vs %r' % (what, g, w))


def norm(itp, st, v, f):
    if isinstance(v, (Ptr, ConstRef)):
        v = itp.rd_deep(st, v)
    v = canon(v, f)
    return simp(v, f)


def val_cmp(itp, st, f, g, w, syms, what, f0):
    if any_node(g, lambda x: isinstance(x, Unk)):
        return ('UNDECIDED', 'unknown %s' % what)
    g = norm(itp, st, g, f)
    w = norm(itp, st, w, f)
    if eqv(g, w, f):
        return None
    if isinstance(g, (T, G)) and isinstance(w, (T, G)) and not itp.concrete and realnf.equal(g, w, f):
        return None
    if any_node(g, lambda x: isinstance(x, T) and x.op == 'get' and x.args[0] == 'uninit'):
        pass
    h = ground.hints(g, w)
    for env in ground.samples(f0, syms, 60, hint=h, fhint=ground.fhints(g, w)):
        try:
            for e in loop_envs(f.loops, env, hint=h):
                a, b = ground.gv(g, e), ground.gv(w, e)
                if e.special is not None and not (ground.finite(a) and ground.finite(b)):
                    continue
                if not ground.same(a, b):
                    return ('VIOLATION', '%s is %s, must be %s' % (what, str(a)[:200], str(b)[:200]), wit(e), valkind(itp, a, e))
        except ground.NoValue as ex:
            continue
    return ('UNDECIDED', '%s: %s vs %s' % (what, brief(g), brief(w)))


def valkind(itp, a, e):
    """what is wrong with a concrete element: never written, read outside the window, or just another value"""
    wins = getattr(itp, 'wins', {})

    def go(x):
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == 'get':
                if x[1] == 'uninit':
                    return 'uninit'
                w = wins.get(x[1])
                if w is not None and isinstance(x[2], int):
                    o, n = ground.gi(w[0], e), ground.gi(w[1], e)
                    if not o <= x[2] < o + n:
                        return 'window'
            for y in x:
                k = go(y)
                if k:
                    return k
        return None
    return go(a) or 'value'


def eqv(a, b, f, depth=0):
    """equality of normal forms, with integer equalities decided by the facts"""
    if a == b:
        return True
    if depth > 30:
        return False
    if isinstance(a, P) and isinstance(b, P):
        return f.decide(eq(a, b)) is True
    if isinstance(a, B) and isinstance(b, B):
        if a.op == b.op and a.op not in ('and', 'or') and len(a.args) == len(b.args) and \
                all(eqv(x, y, f, depth + 1) for x, y in zip(a.args, b.args)):
            return True
        # mutual implication
        if a.op in ('false', 'true') or b.op in ('false', 'true'):
            d = f.decide(a if a.args else b)
            return d is not None and d == ((b if a.args else a).op == 'true')
        if implies(a, b, f) and implies(b, a, f):
            return True
        m = min_atom((a, b), f) if depth < 6 else None
        if m is None:
            return False
        c = m if isinstance(m, B) else le(m.args[0], m.args[1])
        return all(eqv(resimp(a, f, f2), resimp(b, f, f2), f2, depth + 1) for f2 in (f.add(c), f.add(bnot(c))))
    if isinstance(a, G) and isinstance(b, G) and a.a == b.a and a.b == b.b and eqv(a.c, b.c, f, depth + 1):
        return True
    if isinstance(a, G):
        fa = f.add(a.c)
        fb = f.add(bnot(a.c))
        return eqv(resimp(a.a, f, fa), resimp(b, f, fa), fa, depth + 1) and eqv(resimp(a.b, f, fb), resimp(b, f, fb), fb, depth + 1)
    if isinstance(b, G):
        return eqv(b, a, f, depth + 1)
    if isinstance(a, T) and isinstance(b, T) and a.op == b.op and len(a.args) == len(b.args):
        if a.op == 'seq':
            if not eqv(a.args[0], b.args[0], f, depth + 1):
                return False
            f2 = f.with_loop(a.args[1], a.args[0]).add(ge0(a.args[0] - 1))
            y = subst(b.args[2], {b.args[1]: atomP(a.args[1])}) if a.args[1] is not b.args[1] else b.args[2]
            return eqv(simp(a.args[2], f2), simp(y, f2), f2, depth + 1)
        if a.op == 'fold':
            if not (a.args[0] == b.args[0] and eqv(a.args[1], b.args[1], f, depth + 1) and eqv(a.args[2], b.args[2], f, depth + 1)
                    and len(a.args[4]) == len(b.args[4])):
                return False
            env = {}
            if a.args[3] is not b.args[3]:
                env[b.args[3]] = atomP(a.args[3])
            for x, y in zip(a.args[4], b.args[4]):
                if x != y:
                    env[y] = x if not isinstance(x, Atom) else atomP(x)
            f2 = f.with_loop(a.args[3], a.args[2]).add(ge0(a.args[2] - 1))
            y = subst(b.args[5], env) if env else b.args[5]
            return eqv(simp(a.args[5], f2), simp(y, f2), f2, depth + 1)
        return all(eqv(x, y, f, depth + 1) for x, y in zip(a.args, b.args))
    if isinstance(a, Agg) and isinstance(b, Agg) and a.kind == b.kind and a.var == b.var and len(a.fs) == len(b.fs):
        return all(eqv(x, y, f, depth + 1) for x, y in zip(a.fs, b.fs))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(eqv(x, y, f, depth + 1) for x, y in zip(a, b))
    return False


def min_atom(v, f):
    out = []

    def p(x):
        if isinstance(x, Atom) and x.head in ('min', 'max') and f.decide(le(x.args[0], x.args[1])) is None:
            out.append(x)
        return bool(out)
    any_node(v, p)
    if out:
        return out[0]
    lits = []

    def lit(b):
        for x in b.args:
            if isinstance(x, B):
                lit(x)
        if b.op == 'ge0' and f.decide(b) is None:
            lits.append(b)
    for b in v:
        lit(b)
    return lits[0] if lits else None


def resimp(v, f, f2):
    return simp(subst(v, f2.sub) if f2.sub is not f.sub else v, f2)


def implies(a, b, f):
    f2 = f.add(a)
    b2 = resimp(b, f, f2)
    if f2.decide(b2) is True:
        return True
    if b2.op == 'and':
        return all(implies(a, x, f) for x in b2.args)
    if a.op == 'or':
        return all(implies(x, b, f) for x in a.args)
    return False


# ------------------------------------------------------------------ expected values
def fold_(init, n, fn, kind='T'):
    """left fold: s = fn(k, s) for k in 0..n"""
    from loops import build_fold
    n = toP(n)
    if n.is_const() and n.const() <= 4:
        s = init
        for i in range(n.const()):
            s = fn(toP(i), s)
        return s
    k = Atom('s', (fresh('x'),))
    k.lo = 0
    if kind == 'P':
        s = Atom('s', (fresh('x'),))
        return build_fold(kind, (init,), [s], [kind], (fn(atomP(k), atomP(s)),), k, n)
    s = T('$' + fresh('s'))
    return build_fold(kind, (init,), [s], [kind], (fn(atomP(k), s),), k, n)


def seq_(n, fn):
    """a slice as an argument of an uninterpreted function"""
    n = toP(n)
    if n.is_const() and n.const() <= 16:
        return T('list', tuple(fn(toP(i)) for i in range(n.const())))
    k = Atom('s', (fresh('x'),))
    k.lo = 0
    v = fn(atomP(k))
    kk = canonk(bdepth(v) + 1)
    return T('seq', (n, kk, subst(v, {k: atomP(kk)})))
