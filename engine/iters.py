"""Abstract iterators: lazily adapted, pulled one element at a time; consumers
run the element step through the loop summariser."""
from terms import *
from prover import simp, sdiv, smod
from seqs import *
from interp import St, Diverge, Req, UNIT


def some(v):
    return Agg('adt', None, 1, (v,))


NONE = Agg('adt', None, 0, ())


def mk(kind, a=(), front=ZERO, back=ZERO):
    return Iter(kind, tuple(a), front, back)


class Ctx:
    __slots__ = ('itp', 'st', 'fr', 'bb', 'ref', 'args', 'atids', 'dtid', 'n')

    def __init__(self, itp, st, fr, bb, ref, args, atids, dtid):
        self.itp = itp
        self.st = st
        self.fr = fr
        self.bb = bb
        self.ref = ref
        self.args = args
        self.atids = atids
        self.dtid = dtid
        self.n = 0

    def sub(self, st, tag):
        c = Ctx(self.itp, st, self.fr, (self.bb, tag), self.ref, self.args, self.atids, self.dtid)
        return c

    def call(self, st, f, args):
        self.n += 1
        r = self.itp.call_value(st, self.fr, (self.bb, self.n), f, args)
        return r


def isrange(itp, v):
    if isinstance(v, Agg) and v.kind == 'adt' and v.tid is not None and len(v.fs) == 2:
        return itp.T[v.tid].get('path') == 'std::ops::Range'
    return False


def to_iter(c, st, v):
    itp = c.itp
    if isinstance(v, Iter):
        return v
    if isinstance(v, G):
        d = st.facts.decide(v.c)
        if d is not None:
            return to_iter(c, st, v.a if d else v.b)
        return itp.vmerge(v.c, to_iter(c, st, v.a), to_iter(c, st, v.b), st.facts)
    if isrange(itp, v):
        return mk('range', (), v.fs[0], v.fs[1])
    if isinstance(v, Agg) and v.kind == 'adt' and v.tid is not None and itp.T[v.tid].get('path') == 'std::ops::RangeFrom':
        return mk('from', (), v.fs[0])
    if isinstance(v, Agg) and v.kind == 'adt' and v.tid is not None and itp.T[v.tid].get('path') == 'std::option::Option' or v == NONE:
        return mk('seq', (seq_items(v.fs),), ZERO, toP(len(v.fs)))
    if isinstance(v, Box):
        if isinstance(v.v, Seq):
            return mk('seq', (v.v,), ZERO, v.v.len)
        return to_iter(c, st, v.v)
    if isinstance(v, Agg) and v.kind == 'array':
        return mk('seq', (seq_items(v.fs),), ZERO, toP(len(v.fs)))
    if isinstance(v, (Ptr, ConstRef)):
        if isinstance(v, Ptr) and v.n is not None:
            return mk('slice', (v,), ZERO, v.n)
        x = itp.rd(st, v)
        if isinstance(x, Iter):
            return mk('byref', (v,))
        if isrange(itp, x):
            return mk('byref', (v,))
        if isinstance(x, Box) and isinstance(x.v, Seq):
            p = itp.vec_slice_ptr(st, v)
            return mk('slice', (p,), ZERO, p.n)
        if isinstance(x, Agg) and x.kind == 'array':
            return mk('slice', (v,), ZERO, toP(len(x.fs)))
        if isinstance(x, Seq):
            return mk('slice', (v,), ZERO, x.len)
    raise Undecided('not iterable: %s' % (str(v)[:60],))


def length(c, st, it):
    k = it.kind
    if k in ('range', 'slice', 'seq', 'chunks', 'windows', 'chunkv'):
        d = it.back - it.front
        return simp(imax(ZERO, d), st.facts) if not (d.is_const() and d.const() >= 0) else d
    if k in ('map', 'enum', 'rev', 'cloned'):
        return length(c, st, it.a[0])
    if k == 'zip':
        return simp(imin(length(c, st, it.a[0]), length(c, st, it.a[1])), st.facts)
    if k == 'chain':
        return length(c, st, it.a[0]) + length(c, st, it.a[1])
    if k == 'step':
        n = length(c, st, it.a[0])
        return simp(sdiv(n + it.a[1] - 1, it.a[1], st.facts), st.facts)
    if k == 'take':
        return simp(imin(length(c, st, it.a[0]), it.a[1]), st.facts)
    raise Undecided('length of iterator %s' % k)


POS = ('range', 'slice', 'seq', 'chunks', 'windows', 'chunkv')


def at(c, st, it, i):
    k = it.kind
    if k == 'range':
        return i
    if k == 'slice':
        return c.itp.elem_ptr(st, it.a[0], i)
    if k == 'seq':
        return seq_get(it.a[0], i, st.facts)
    if k == 'chunks':
        return c.itp.sub_ptr(st, it.a[0], i * it.a[1], it.a[1])
    if k == 'chunkv':
        n = c.itp.slice_len(st, it.a[0])
        return c.itp.sub_ptr(st, it.a[0], i * it.a[1], simp(imin(it.a[1], n - i * it.a[1]), st.facts))
    if k == 'windows':
        return c.itp.sub_ptr(st, it.a[0], i, it.a[1])
    raise Undecided('element of iterator %s' % k)


def has(c, st, it):
    k = it.kind
    if k in POS:
        return lt(it.front, it.back)
    if k == 'from':
        return TRUE
    if k in ('map', 'enum', 'rev', 'cloned', 'step'):
        return has(c, st, it.a[0])
    if k == 'zip':
        return band(has(c, st, it.a[0]), has(c, st, it.a[1]))
    if k == 'chain':
        return bor(has(c, st, it.a[0]), has(c, st, it.a[1]))
    if k == 'take':
        return band(lt(ZERO, it.a[1]), has(c, st, it.a[0]))
    if k == 'byref':
        return has(c, st, inner(c, st, it))
    if k == 'repeat':
        return TRUE
    if k == 'filter':
        return TRUE if settle(c, st, it) is not None else FALSE
    raise Undecided('external iteration of %s' % k)


def settle(c, st, it):
    """a filter whose rejections are decided: the source advanced to its first
    accepted element, or None at its end"""
    src, f = it.a
    for _ in range(64):
        d = st.facts.decide(has(c, st, src))
        if d is False:
            return None
        if d is None:
            raise Undecided('external iteration of filter')
        v, nxt = pull(c, st, src)
        root = ('L', c.fr.fid + (c.bb, 'filter'), 'f')
        t = ('L', c.fr.fid + (c.bb, 'filter'), 'v')
        st.mem[root], st.mem[t] = f, v
        cond = simp(toB(c.call(st, Ptr(root, (), None), [Ptr(t, (), None)])), st.facts)
        st.mem.pop(root, None)
        st.mem.pop(t, None)
        if cond.op == 'true':
            return src
        if cond.op != 'false':
            raise Undecided('external iteration of filter')
        src = nxt
    raise Undecided('external iteration of filter')


def inner(c, st, it):
    return to_iter(c, st, c.itp.rd(st, it.a[0]))


def wrinner(c, st, it, new):
    x = c.itp.rd(st, it.a[0])
    if isrange(c.itp, x):
        new = Agg('adt', x.tid, x.var, (new.front, new.back))
    c.itp.wr(st, it.a[0], new)


def pull(c, st, it):
    """-> (value, next iterator); st.facts already contain has()"""
    k = it.kind
    if k in POS:
        return at(c, st, it, it.front), Iter(k, it.a, it.front + 1, it.back)
    if k == 'from':
        return it.front, Iter(k, it.a, it.front + 1, it.back)
    if k == 'repeat':
        return it.a[0], it
    if k == 'map':
        v, n = pull(c, st, it.a[0])
        f = it.a[1]
        c.itp._clo = f
        r = c.call(st, f, [v])
        f2 = c.itp._clo if isinstance(f, Agg) and f.kind == 'closure' else f
        return r, mk('map', (n, f2))
    if k == 'enum':
        v, n = pull(c, st, it.a[0])
        return Agg('tuple', None, None, (it.front, v)), Iter('enum', (n,), it.front + 1, it.back)
    if k == 'cloned':
        v, n = pull(c, st, it.a[0])
        return c.itp.rd(st, v), mk('cloned', (n,))
    if k == 'zip':
        v, n = pull(c, st, it.a[0])
        w, m = pull(c, st, it.a[1])
        return Agg('tuple', None, None, (v, w)), mk('zip', (n, m))
    if k == 'rev':
        v, n = pull_back(c, st, it.a[0])
        return v, mk('rev', (n,))
    if k == 'take':
        v, n = pull(c, st, it.a[0])
        return v, mk('take', (n, it.a[1] - 1))
    if k == 'step':
        v, n = pull(c, st, it.a[0])
        return v, mk('step', (advance(c, st, n, it.a[1] - 1), it.a[1]))
    if k == 'chain':
        h = has(c, st, it.a[0])
        d = st.facts.decide(h)
        if d is True:
            v, n = pull(c, st, it.a[0])
            return v, mk('chain', (n, it.a[1]))
        if d is False:
            v, n = pull(c, st, it.a[1])
            return v, mk('chain', (it.a[0], n))
        raise Undecided('chained iterator pulled at an unknown position')
    if k == 'byref':
        v, n = pull(c, st, inner(c, st, it))
        wrinner(c, st, it, n)
        return v, it
    if k == 'filter':
        src = settle(c, st, it)
        if src is None:
            raise Undecided('filter pulled at its end')
        v, n = pull(c, st, src)
        return v, mk('filter', (n, it.a[1]))
    raise Undecided('external iteration of %s' % k)


def pull_back(c, st, it):
    k = it.kind
    if k in POS:
        return at(c, st, it, it.back - 1), Iter(k, it.a, it.front, it.back - 1)
    if k == 'map':
        v, n = pull_back(c, st, it.a[0])
        f = it.a[1]
        c.itp._clo = f
        r = c.call(st, f, [v])
        f2 = c.itp._clo if isinstance(f, Agg) and f.kind == 'closure' else f
        return r, mk('map', (n, f2))
    if k == 'cloned':
        v, n = pull_back(c, st, it.a[0])
        return c.itp.rd(st, v), mk('cloned', (n,))
    if k == 'rev':
        v, n = pull(c, st, it.a[0])
        return v, mk('rev', (n,))
    if k == 'enum':
        ln = length(c, st, it.a[0])
        v, n = pull_back(c, st, it.a[0])
        return Agg('tuple', None, None, (it.front + ln - 1, v)), Iter('enum', (n,), it.front, it.back)
    if k == 'zip':
        a, b = it.a
        la, lb = length(c, st, a), length(c, st, b)
        n = simp(imin(la, lb), st.facts)
        a, b = trim(c, st, a, la - n), trim(c, st, b, lb - n)
        v, a = pull_back(c, st, a)
        w, b = pull_back(c, st, b)
        return Agg('tuple', None, None, (v, w)), mk('zip', (a, b))
    if k == 'byref':
        v, n = pull_back(c, st, inner(c, st, it))
        wrinner(c, st, it, n)
        return v, it
    raise Undecided('backward iteration of %s' % k)


def trim(c, st, it, n):
    """drop n elements at the back"""
    if isinstance(n, P) and not n.m:
        return it
    if it.kind in POS:
        return Iter(it.kind, it.a, it.front, it.back - n)
    if it.kind in ('cloned', 'enum') or (it.kind == 'map' and False):
        return Iter(it.kind, (trim(c, st, it.a[0], n),) + it.a[1:], it.front, it.back)
    raise Undecided('trim of %s' % it.kind)


def advance(c, st, it, n):
    """drop n elements at the front"""
    if isinstance(n, P) and not n.m:
        return it
    if it.kind in POS or it.kind == 'from':
        return Iter(it.kind, it.a, it.front + n, it.back)
    if it.kind == 'cloned':
        return mk('cloned', (advance(c, st, it.a[0], n),))
    if it.kind == 'enum':
        return Iter('enum', (advance(c, st, it.a[0], n),), it.front + n, it.back)
    if it.kind == 'rev':
        return mk('rev', (trim(c, st, it.a[0], n),))
    if it.kind == 'zip':
        return mk('zip', tuple(advance(c, st, x, n) for x in it.a))
    if n.is_const() and n.const() <= 4 and it.kind == 'step':
        for _ in range(n.const()):
            it = mk('step', (advance(c, st, it.a[0], it.a[1]), it.a[1]))
        return it
    raise Undecided('skip on %s' % it.kind)


def take(c, st, it, n):
    if it.kind in POS:
        ln = it.back - it.front
        if st.facts.prove_ge(ln - n):
            return Iter(it.kind, it.a, it.front, it.front + n)
        return Iter(it.kind, it.a, it.front, it.front + simp(imin(n, ln), st.facts))
    if it.kind == 'from':
        return mk('range', (), it.front, it.front + n)
    if it.kind in ('cloned', 'map', 'enum'):
        return Iter(it.kind, (take(c, st, it.a[0], n),) + it.a[1:], it.front, it.back)
    if it.kind == 'zip' and all(pure(x) for x in it.a):
        return mk('zip', tuple(take(c, st, x, n) for x in it.a))
    return mk('take', (it, n))


def pure(it):
    return it.kind in POS or it.kind == 'from' or it.kind in ('enum', 'cloned', 'rev', 'zip') and all(pure(x) for x in it.a if isinstance(x, Iter))


def next_model(c, back=False):
    st, itp = c.st, c.itp
    p = c.args[0]
    v = itp.rd(st, p)
    it = to_iter(c, st, v)
    h = simp(has(c, st, it), st.facts)

    def put(s, n):
        if isrange(itp, v):
            n = Agg('adt', v.tid, v.var, (n.front, n.back))
        itp.wr(s, p, n)
    if h.op == 'false':
        return NONE
    pl = pull_back if back else pull
    if h.op == 'true':
        x, n = pl(c, st, it)
        put(st, n)
        return some(x)
    base = st.copy()
    s1 = st.copy()
    s1.facts = s1.facts.add(h)
    x, n = pl(c, s1, it)
    put(s1, n)
    # in a loop both outcomes are followed by the switch on the option
    pure = {r: val for r, val in s1.mem.items()}
    m = itp.merge_states(h, s1, base, base, base.facts)
    st.mem = m
    return G(h, some(x), NONE)


def each(c, st, it, body, tag='e'):
    """run body(s, value) for every element"""
    itp = c.itp
    k = it.kind
    if k == 'flat':
        f = it.a[1]
        root = ('L', c.fr.fid + (c.bb, tag), 'f')
        st.mem[root] = f

        def b(s, v):
            x = v if f is None else c.call(s, Ptr(root, (), None), [v])
            each(c.sub(s, tag + 'i'), s, to_iter(c, s, x), body, tag + 'i')
        each(c, st, it.a[0], b, tag + 'o')
        st.mem.pop(root, None)
        return
    if k == 'chain':
        each(c, st, it.a[0], body, tag + 'a')
        each(c, st, it.a[1], body, tag + 'b')
        return
    if k == 'filter':
        f = it.a[1]
        root = ('L', c.fr.fid + (c.bb, tag), 'f')
        st.mem[root] = f

        def b(s, v):
            t = ('L', c.fr.fid + (c.bb, tag), 'v')
            s.mem[t] = v
            cond = simp(toB(c.call(s, Ptr(root, (), None), [Ptr(t, (), None)])), s.facts)
            if cond.op == 'false':
                return
            if cond.op == 'true':
                body(s, v)
                return
            base = s.copy()
            s1 = s.copy()
            s1.facts = s1.facts.add(cond)
            body(s1, v)
            s.mem = itp.merge_states(cond, s1, base, base, base.facts)
        each(c, st, it.a[0], b, tag + 'o')
        return
    if k in ('map', 'enum', 'cloned') and deep(it.a[0]):
        if k == 'map':
            root = ('L', c.fr.fid + (c.bb, tag), 'f')
            st.mem[root] = it.a[1]
            each(c, st, it.a[0], lambda s, v: body(s, c.call(s, Ptr(root, (), None), [v])), tag + 'm')
        elif k == 'cloned':
            each(c, st, it.a[0], lambda s, v: body(s, itp.rd(s, v)), tag + 'c')
        else:
            root = ('L', c.fr.fid + (c.bb, tag), 'n')
            st.mem[root] = it.front

            def b(s, v):
                n = s.mem[root]
                s.mem[root] = n + 1
                body(s, Agg('tuple', None, None, (n, v)))
            each(c, st, it.a[0], b, tag + 'n')
        return
    root = ('L', c.fr.fid + (c.bb, tag), 'it')
    st.mem[root] = it
    un0 = st.unroll
    entry = st.copy()
    nreq = len(itp.reqs)
    for i in range(itp.UNROLL):
        h = has(c, st, st.mem[root])
        if h.op not in ('true', 'false'):
            d = None
            break
        d = h.op == 'true'
        if not d:
            break
        st.unroll = un0 + ((c.bb, tag, i),)
        c.n = 0
        v, st.mem[root] = pull(c, st, st.mem[root])
        body(st, v)
    else:
        raise Undecided('unroll limit')
    st.unroll = un0
    if d is None:
        if i:
            st.set(entry)
            del itp.reqs[nreq:]
        from loops import summarise
        lid = itp.intern(('each', c.fr.fid, c.bb, tag, st.unroll), '')

        def iter_fn(s):
            itp.tick()
            x = s.mem[root]
            h = has(c, s, x)
            iter_fn.stay = h
            s.facts = s.facts.add(h)
            c.n = 0
            v, n = pull(c, s, x)
            s.mem[root] = n
            body(s, v)
            return h

        def exit_fn(s):
            x = s.mem[root]
            s.facts = s.facts.add(bnot(has(c, s, x)))
        summarise(itp, st, lid, iter_fn, exit_fn, c.fr)
    st.mem.pop(root, None)


def deep(it):
    if it.kind in ('flat', 'chain', 'filter'):
        return True
    return it.kind in ('map', 'enum', 'cloned') and deep(it.a[0])


def collect(c, st, it, tag='col'):
    root = ('L', c.fr.fid + (c.bb, tag), 'acc')
    st.mem[root] = Box('vec', seq_items(()))

    def body(s, v):
        push(s, root, v)
    each(c, st, it, body, tag)
    return st.mem.pop(root)


def push(s, root, v):
    b = s.mem[root]
    q = b.v
    s.mem[root] = Box(b.kind, append(q, (Item(v),)))


def append(q, segs):
    if q.ws:
        n = q.len
        return Seq(n + segs_len(segs), q.segs + tuple(segs), q.ws)
    return Seq(q.len + segs_len(segs), q.segs + tuple(segs), ())


def accumulate(c, st, it, init, step, tag='acc'):
    root = ('L', c.fr.fid + (c.bb, tag), 'acc')
    st.mem[root] = init

    def body(s, v):
        s.mem[root] = step(s, s.mem[root], v)
    each(c, st, it, body, tag)
    return st.mem.pop(root)
