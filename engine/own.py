"""Ownership of element storage.

The opaque element types of the harness (uf::E*) have a destructor, so the MIR
shows every place where an element is dropped.  Four facts are tracked while an
operation is interpreted:

  * an element destroyed through a pointer (an assignment `*p = v`, drop_in_place)
    must have been written before;
  * an element copied bit by bit out of storage that keeps its owner is owned twice;
  * a value whose destructor releases memory is built over memory nobody else owns,
    and that destructor releases the whole allocation and every element, once;
  * memory taken out of its owner (into_raw, alloc) is given to a new owner.

Requirements use the kind 'own'.
"""
from terms import *
from interp import Undecided, Diverge, Req


def is_elem(itp, tid):
    return tid is not None and itp.T[tid].get('path', '').startswith('uf::E') and itp.T[tid]['k'] == 'struct'


def holds_elem(itp, tid):
    return tid is not None and 'uf::E' in itp.T[tid]['n']


def has_uninit(v):
    if isinstance(v, Unk):
        return v.why == 'uninit'
    if isinstance(v, T):
        return v.op == 'get' and v.args[0] == 'uninit'
    return False


def dropped(itp, st, fr, term):
    """a drop terminator"""
    place, tid = term[1], term[3]
    if itp.T[tid]['k'] in ('struct', 'enum') and not is_elem(itp, tid):
        if itp.releasing:
            try:
                release(itp, st, fr, itp.lload(st, itp.lval(st, fr, place)))
            except Undecided:
                itp.relunk = True
        return
    if '*' not in place[1] or not is_elem(itp, tid):
        return
    v = itp.lload(st, itp.lval(st, fr, place))
    if has_uninit(v):
        raise Diverge('own', fr.loc)


def base(itp, st, p):
    """(root, offset, length of the allocation) of a pointer into heap storage"""
    if isinstance(p, Ptr) and p.root[0] == 'H' and p.path and p.path[-1][0] == 'i':
        b = itp.load(st, p.root, p.path[:-1])
        if isinstance(b, Seq):
            return p.root, p.path[-1][1], b.len
    return None


def copied(c, p, n=None):
    """an element read bit by bit through p"""
    itp = c.itp
    tid = pointee(itp, c.atids)
    if tid is None:
        return
    if isinstance(p, G):
        copied(c, p.a, n)
        copied(c, p.b, n)
        return
    if isinstance(p, Ptr):
        if p.root in itp.owned:
            if n is not None:
                d = c.st.facts.decide(ge0(-toP(n)))
                if d is True:
                    return
            raise Diverge('own', c.fr.loc)
        if p.root[0] in ('L', 'H'):
            itp.moved.append(c.fr.loc)


def pointee(itp, atids):
    for t in atids or ():
        ty = itp.T[t]
        if ty['k'] in ('ptr', 'ref') and is_elem(itp, ty['t']):
            return ty['t']
    return None


def forgot(c):
    if any(holds_elem(c.itp, t) and itp_owns(c.itp, t) for t in c.atids or ()):
        c.itp.forgotten.append(c.fr.loc)


def itp_owns(itp, t):
    ty = itp.T[t]
    return ty['k'] == 'struct' and ty.get('path', '').split('::')[-1] in ('Vec', 'Box', 'E', 'E2', 'E3', 'E4', 'Tensor', 'Arc', 'TensorData')


def raw(c, p):
    """memory taken out of its owner"""
    if isinstance(p, Ptr) and p.root[0] == 'H' and not c.itp.quiet:
        c.itp.raws.setdefault(p.root[1], c.fr.loc)


def reowned(itp, p):
    if isinstance(p, G):
        reowned(itp, p.a)
        reowned(itp, p.b)
    elif isinstance(p, Ptr):
        itp.held.add(p.root[1])


def add(st, key, n):
    v = st.mem.get(('X', key), ZERO)
    st.mem[('X', key)] = addv(v, n)


def addv(v, n):
    if isinstance(v, G):
        return G(v.c, addv(v.a, n), addv(v.b, n))
    return v + n


def release(itp, st, fr, v):
    """drop of a box or vector made from raw parts"""
    if isinstance(v, Box) and isinstance(v.v, Ptr) and v.kind in ('rawbox', 'rawvec'):
        b = base(itp, st, v.v)
        if b is None:
            itp.relunk = True
            return
        root, off, ln = b
        itp.require(st, eq(off, ZERO), 'own', fr)
        add(st, 'elems', v.v.n if v.v.n is not None else ONE)
        add(st, 'free', ONE)
    elif isinstance(v, Agg):
        for x in v.fs:
            release(itp, st, fr, x)


def built(itp, st, fr, tid, v):
    """an aggregate of a type with a destructor has been built"""
    d = itp.T[tid].get('drop')
    if d is None or itp.releasing:
        return
    ps = [x for x in v.fs if isinstance(x, (Ptr, G))]
    for x in ps:
        reowned(itp, x) if has_ptr(x) else None
    if itp.quiet:
        return
    for x in ps:
        one(itp, st, fr, d, v, x, st.facts)


def has_ptr(x):
    if isinstance(x, G):
        return has_ptr(x.a) or has_ptr(x.b)
    return isinstance(x, Ptr)


def one(itp, st, fr, d, v, x, facts):
    if isinstance(x, G):
        for c, y in ((x.c, x.a), (bnot(x.c), x.b)):
            if facts.decide(c) is not False:
                one(itp, st, fr, d, v, y, facts.add(c))
        return
    if not isinstance(x, Ptr):
        return
    b = base(itp, st, x)
    if b is None:
        return
    root, off, ln = b
    site = (fr.fid, fr.loc)
    if itp.owned.setdefault(root, site) != site:
        raise Diverge('own', fr.loc)
    s2 = st.copy()
    s2.facts = facts
    s2.mem[('X', 'elems')] = ZERO
    s2.mem[('X', 'free')] = ZERO
    cell = ('T', 'own', ())
    s2.mem[cell] = Agg(v.kind, v.tid, v.var, tuple(x if isinstance(y, (Ptr, G)) and has_ptr(y) else y for y in v.fs))
    itp.releasing += 1
    itp.relunk = False
    n0 = len(itp.reqs)
    try:
        itp.call_fn(s2, d, [Ptr(cell, (), None)], fr.fid + (('drop', 0),))
    except Undecided:
        itp.relunk = True
    finally:
        itp.releasing -= 1
    if itp.relunk:
        del itp.reqs[n0:]
        itp.notes.add('destructor of %s not followed' % itp.T[v.tid]['n'])
        return
    for q in itp.reqs[n0:]:
        q.kind = 'own'
    must(itp, s2, fr, s2.mem[('X', 'elems')], ln, facts)
    must(itp, s2, fr, s2.mem[('X', 'free')], ONE, facts.add(ge0(ln - 1)))


def must(itp, st, fr, v, n, facts):
    if isinstance(v, G):
        if facts.decide(v.c) is not False:
            must(itp, st, fr, v.a, n, facts.add(v.c))
        if facts.decide(v.c) is not True:
            must(itp, st, fr, v.b, n, facts.add(bnot(v.c)))
        return
    c = eq(v, n)
    if facts.decide(c) is True:
        return
    itp.reqs.append(Req('own', c, facts, fr.loc, fr.fn['path']))


def finish(itp):
    """what is wrong at the end of an operation, or None"""
    left = [l for h, l in itp.raws.items() if h not in itp.held]
    if left:
        return 'memory taken out of its owner at %s is never given to a new one' % (left[0],)
    if itp.moved and not itp.forgotten and not itp.raws:
        return 'elements copied bit by bit at %s while their owner still drops them' % (itp.moved[0],)
    return None
