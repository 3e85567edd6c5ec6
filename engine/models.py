"""Models of the standard-library callees met in the analysed code.  Everything
else is analysed through its own body."""
import re
from terms import *
from prover import simp, sdiv, smod
from seqs import *
from interp import Diverge, Req, UNIT, St
import own
import iters
from iters import Ctx, some, NONE, mk, to_iter, each, collect, accumulate

M = {}


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def ok(v):
    return Agg('adt', None, 0, (v,))


NOFMT = ('core::fmt::rt::', 'std::fmt::', 'core::fmt::', 'log::')


def dispatch(itp, st, fr, bb, ref, args, atids, dtid):
    itp.tick()
    if 'ptr' in ref:
        return itp.call_value(st, fr, bb, itp.operand(st, fr, ref['ptr']), args)
    decl, path = ref['decl'], ref.get('path') or ref['decl']
    inst = ref.get('inst')
    c = Ctx(itp, st, fr, bb, ref, args, atids, dtid)
    if decl in ('std::ops::FnMut::call_mut', 'std::ops::FnOnce::call_once', 'std::ops::Fn::call'):
        f, tup = args
        if isinstance(f, (Ptr, ConstRef)):
            f0 = f
            # a reference to a reference to a closure: keep the innermost reference
            while True:
                v = itp.rd(st, f0)
                if isinstance(v, (Ptr, ConstRef)):
                    f0 = v
                else:
                    break
            f = f0
        return itp.call_value(st, fr, bb, f, list(tup.fs))
    if path.startswith('uf::'):
        return uninterp(c, path)
    if path.startswith('<uf::') and decl == 'std::clone::Clone::clone':
        return itp.rd(st, args[0])
    if path in REDIRECT:
        return itp.call_fn(st, itp.p.roots[REDIRECT[path]], args, fr.fid + (bb,), fr)
    m = M.get(path) or M.get(decl)
    if m is None:
        m = lookup(decl, path)
    if m is not None:
        return m(c)
    if inst is not None and inst in itp.p.fns and 'blocks' in itp.p.fns[inst]:
        return itp.call_fn(st, inst, args, fr.fid + (bb,), fr)
    for p in NOFMT:
        if path.startswith(p):
            return Unk('fmt')
    if path in NORET or decl in NORET:
        raise Diverge('panic', fr.loc)
    r = opaque(c, path)
    if r is not None:
        return r
    itp.unmodelled.add(path)
    raise Undecided('no model for %s' % path)


# external kernels whose meaning is written down in the harness
REDIRECT = {'matrixmultiply::gemm::sgemm': 'model::sgemm', 'matrixmultiply::sgemm': 'model::sgemm'}

NORET = {'core::panicking::panic', 'core::panicking::assert_failed', 'std::rt::panic_fmt', 'core::panicking::panic_fmt',
         'std::option::unwrap_failed', 'std::result::unwrap_failed::unwrap_failed_inner', 'core::slice::index::slice_index_fail',
         'std::option::expect_failed', 'std::rt::begin_panic', 'core::panicking::panic_explicit', 'std::rt::panic_display',
         'core::panicking::unreachable_display', 'core::panicking::panic_display', 'std::alloc::handle_alloc_error',
         'core::panicking::panic_bounds_check', 'core::panicking::panic_nounwind', 'std::process::abort', 'std::process::exit'}


def lookup(decl, path):
    m = re.match(r"core::num::<impl (\w+)>::(\w+)$", path)
    if m:
        f = NUM.get(m.group(2))
        if f:
            return lambda c: f(c, m.group(1))
    if decl == 'std::clone::Clone::clone':
        if path.startswith('<uf::E'):
            return lambda c: c.itp.rd(c.st, c.args[0])
        if path.startswith('std::clone::impls::') or path.startswith('std::array::<impl std::clone::Clone') or \
                path.startswith('<std::sync::Arc') or path.startswith('<std::vec::Vec') or path.startswith('<std::boxed::Box') or \
                path.startswith('<std::slice::Iter') or path.startswith('<std::ops::Range') or path.startswith('<std::iter'):
            return lambda c: c.itp.rd(c.st, c.args[0])
        if path == 'std::clone::Clone::clone':
            return lambda c: c.itp.rd(c.st, c.args[0])
    return None


def scalar(v):
    return isinstance(v, (P, T, B)) or (isinstance(v, G) and scalar(v.a) and scalar(v.b))


def deepval(c, v):
    itp, st = c.itp, c.st
    for _ in range(6):
        if isinstance(v, Ptr) and v.n is not None:
            return canon_seq(itp.slice_seq(st, v), st.facts)
        if isinstance(v, (Ptr, ConstRef)):
            v = itp.rd(st, v)
            continue
        if isinstance(v, G) and isinstance(v.a, (Ptr, ConstRef)):
            v = itp.vmerge(v.c, itp.rd(st, v.a), itp.rd(st, v.b), st.facts)
            continue
        break
    if isinstance(v, Unk):
        raise Undecided('uses unknown (%s)' % v.why)
    v = canon(v, st.facts)
    if isinstance(v, Agg) and v.kind == 'array':
        return T('list', v.fs)
    return simp(v, st.facts)


def result(c, name, args):
    t = c.itp.T[c.dtid] if c.dtid is not None else None
    args = tuple(args)
    if any_node(args, lambda x: isinstance(x, Unk)):
        raise Undecided('unknown argument of %s' % name)
    if t is not None and t['k'] == 'bool':
        return B(name, args)
    if t is not None and t['k'] in ('int', 'uint', 'char'):
        return atomP(mk_atom(name, args, 0 if t['k'] != 'int' else None))
    return T(name, args)


def uninterp(c, path):
    return result(c, path[4:], [deepval(c, a) for a in c.args])


def opaque(c, path):
    """a function of scalars to a scalar, known only by its name"""
    t = c.itp.T[c.dtid] if c.dtid is not None else None
    if t is None or t['k'] not in ('bool', 'int', 'uint', 'float', 'char'):
        return None
    try:
        args = [deepval(c, a) for a in c.args]
    except Undecided:
        return None
    if not all(scalar(a) or (isinstance(a, T)) for a in args):
        return None
    return result(c, fname(path), args)


def fname(path):
    m = re.match(r".*<impl (f32|f64)>::(\w+)$", path)
    if m:
        return m.group(2)
    return 'fn:' + path


@model('std::f32::<impl f32>::sin_cos', 'std::f64::<impl f64>::sin_cos')
def m_sin_cos(c):
    return Agg('tuple', c.dtid, None, (T('sin', (c.args[0],)), T('cos', (c.args[0],))))


# ------------------------------------------------------------------ identity-like
@model('std::mem::ManuallyDrop::<T>::new')
def m_manually(c):
    own.forgot(c)
    return c.args[0]


@model('std::ptr::NonNull::<T>::as_ptr', 'std::ptr::NonNull::<T>::new_unchecked',
       'std::mem::ManuallyDrop::<T>::into_inner', 'std::mem::MaybeUninit::<T>::new', 'std::mem::MaybeUninit::<T>::assume_init',
       'std::ptr::NonNull::<T>::as_ref', 'std::convert::identity', 'std::hint::black_box', 'std::num::Wrapping',
       'core::hint::must_use', 'std::hint::must_use', 'std::ptr::from_ref', 'std::ptr::from_mut')
def m_id(c):
    return c.args[0]


@model('std::iter::IntoIterator::into_iter')
def m_into_iter(c):
    v = c.args[0]
    if isinstance(v, Iter) or iters.isrange(c.itp, v):
        return v
    try:
        return to_iter(c, c.st, v)
    except Undecided:
        inst = c.ref.get('inst')
        if inst is not None and inst in c.itp.p.fns and 'blocks' in c.itp.p.fns[inst]:
            return c.itp.call_fn(c.st, inst, c.args, c.fr.fid + (c.bb,), c.fr)
        raise


@model('std::ptr::NonNull::<T>::as_mut', 'std::ptr::NonNull::<T>::as_ref')
def m_nnref(c):
    # &mut NonNull<T> -> &mut T
    return c.itp.rd(c.st, c.args[0])


def _cast(c, p):
    src, dst = c.atids[0], c.dtid
    return ptrcast(c, p, pointee(c, src), pointee(c, dst))


def pointee(c, tid):
    t = c.itp.T[tid]
    if t['k'] in ('ref', 'ptr'):
        return t['t']
    if t['k'] == 'struct':
        return t['args'][0]
    return None


def ptrcast(c, a, ps, pd):
    itp = c.itp
    if isinstance(a, G):
        return itp.vmerge(a.c, ptrcast(c, a.a, ps, pd), ptrcast(c, a.b, ps, pd), c.st.facts)
    ts, td = itp.T[ps], itp.T[pd]
    et = itp.T[ts['t']] if ts['k'] == 'slice' else ts
    if not isinstance(a, Ptr):
        return a
    if et['k'] == 'array' and td['k'] != 'array' and itp.flat_elem(et)['n'] == td['n']:
        if a.path and a.path[-1][0] == 'i':
            return itp.flatten_cell(c.st, a, et)
    return Ptr(a.root, a.path, None)


@model('std::ptr::NonNull::<T>::cast', 'std::ptr::mut_ptr::<impl *mut T>::cast', 'std::ptr::const_ptr::<impl *const T>::cast',
       'std::ptr::const_ptr::<impl *const T>::cast_mut', 'std::ptr::mut_ptr::<impl *mut T>::cast_const')
def m_cast(c):
    return _cast(c, c.args[0])


# ------------------------------------------------------------------ allocation
@model('std::alloc::Layout::array')
def m_layout(c):
    return ok(Agg('layout', None, None, (c.args[0],)))


@model('std::alloc::alloc', 'std::alloc::alloc_zeroed')
def m_alloc(c):
    n = c.args[0].fs[0]
    p = new_cell(c, Seq(n, (OpSeg('uninit', n),)))
    c.itp.alloclen[p.root] = n
    own.raw(c, p)
    return p


@model('std::alloc::Layout::size')
def m_layout_size(c):
    # zero exactly when there are no elements (element types have a size)
    return c.itp.rd(c.st, c.args[0]).fs[0]


@model('std::ptr::NonNull::<T>::dangling', 'std::ptr::dangling', 'std::ptr::dangling_mut')
def m_dangling(c):
    root = ('D', c.itp.intern(('dangling', c.fr.fid, c.bb, c.st.unroll), 'd'), ())
    c.st.mem[root] = Seq(ZERO, ())
    return Ptr(root, (('i', ZERO),), None)


@model('std::ptr::NonNull::<T>::new')
def m_nn_new(c):
    return some(c.args[0])


def new_cell(c, seq, pre='h'):
    hid = c.itp.intern(('heap', c.fr.fid, c.bb, c.st.unroll), pre)
    params = tuple(x for x in c.st.loops if isinstance(x, P))
    root = ('H', hid, params)
    c.st.mem[root] = seq
    return Ptr(root, (('i', ZERO),), None)


@model('std::boxed::Box::<T>::into_raw', 'std::boxed::Box::<T, A>::into_raw', 'std::boxed::Box::<T, A>::leak', 'std::boxed::Box::<T>::leak')
def m_into_raw(c):
    v = c.args[0]
    if isinstance(v, G):
        v = Box('box', c.itp.as_seq(c.st, v))
    if isinstance(v.v, Seq):
        p = new_cell(c, v.v)
        own.raw(c, p)
        s = v.v.segs
        if len(s) == 1 and not v.v.ws and isinstance(s[0], OpSeg) and s[0].name in c.itp.wins:
            c.itp.inputs[p.root] = v.v
        return Ptr(p.root, p.path, v.v.len)
    p = new_cell(c, v.v)
    return Ptr(p.root, (), None)


@model('std::boxed::Box::<T>::from_raw', 'std::boxed::Box::<T, A>::from_raw')
def m_box_from_raw(c):
    p = c.args[0]
    own.reowned(c.itp, p)
    if not c.itp.releasing:
        if isinstance(p, Ptr) and p.n is not None:
            return Box('box', c.itp.slice_seq(c.st, p))
        raise Undecided('Box::from_raw')
    if isinstance(p, G):
        raise Undecided('Box::from_raw of alternatives')
    return Box('rawbox', p)


@model('std::vec::Vec::<T>::from_raw_parts')
def m_vec_from_raw(c):
    p, n, cap = c.args
    own.reowned(c.itp, p)
    if not c.itp.releasing:
        return Box('vec', c.itp.slice_seq(c.st, c.itp.mk_fat(c.st, p, n)))
    b = own.base(c.itp, c.st, p)
    if b is not None:
        c.itp.require(c.st, eq(toP(cap), b[2]), 'own', c.fr)
    return Box('rawvec', c.itp.mk_fat(c.st, p, n))


@model('std::boxed::Box::<T>::new_uninit')
def m_new_uninit(c):
    return Box('box', Unk('uninit'))


@model('std::boxed::Box::<T>::new', 'std::boxed::box_new')
def m_box_new(c):
    return Box('box', c.args[0])


@model('std::sync::Arc::<T>::new', 'std::rc::Rc::<T>::new')
def m_arc(c):
    return Box('arc', c.args[0])


@model('<std::sync::Arc<T, A> as std::ops::Deref>::deref', '<std::sync::Arc<T, A> as std::convert::AsRef<T>>::as_ref',
       '<std::boxed::Box<T, A> as std::ops::Deref>::deref', '<std::boxed::Box<T, A> as std::ops::DerefMut>::deref_mut')
def m_arc_deref(c):
    p = c.args[0]
    v = c.itp.rd(c.st, p)
    if isinstance(v, Box) and isinstance(v.v, Seq):
        return c.itp.vec_slice_ptr(c.st, p)
    if isinstance(p, ConstRef):
        return ConstRef(v.v)
    if isinstance(p, Ptr):
        return Ptr(p.root, p.path + (('b',),), None)
    raise Undecided('deref of %s' % (str(p)[:40],))


@model('std::sync::Arc::<T, A>::strong_count', 'std::sync::Arc::<T>::strong_count')
def m_strong(c):
    # somebody else holds another handle: what they see must not depend on this one
    a = Atom('s', (c.itp.intern(('strong', c.fr.fid, c.bb, c.st.unroll), 'strong'),))
    a.lo = 2
    return atomP(a)


def same_alloc(itp, st, a, b):
    """do two pointers or shared handles refer to one allocation (and position)?"""
    if isinstance(a, G):
        return bite(a.c, same_alloc(itp, st, a.a, b), same_alloc(itp, st, a.b, b))
    if isinstance(b, G):
        return bite(b.c, same_alloc(itp, st, a, b.a), same_alloc(itp, st, a, b.b))
    if isinstance(a, Agg) and isinstance(b, Agg) and len(a.fs) == len(b.fs) and a.fs:
        for x, y in zip(a.fs, b.fs):
            if isinstance(x, (Ptr, Agg, G)) and isinstance(y, (Ptr, Agg, G)):
                return same_alloc(itp, st, x, y)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.root != b.root:
            if a.root[0] in ('H', 'L') and b.root[0] in ('H', 'L') and a.root[1] != b.root[1]:
                return FALSE
            raise Undecided('identity of %s, %s' % (str(a)[:40], str(b)[:40]))
        if a.root[2:] and a.root[2] and a.root[0] == 'H':
            raise Undecided('identity of allocations made in a loop')
        if a.path == b.path:
            return TRUE
        if len(a.path) == len(b.path) and a.path[:-1] == b.path[:-1] and a.path[-1][0] == b.path[-1][0] == 'i':
            return eq(a.path[-1][1], b.path[-1][1])
        if len(a.path) == len(b.path) and all(x[0] == y[0] for x, y in zip(a.path, b.path)) and \
                any(x != y and x[0] != 'i' for x, y in zip(a.path, b.path)):
            return FALSE
    raise Undecided('identity of %s, %s' % (str(a)[:40], str(b)[:40]))


@model('std::sync::Arc::<T, A>::ptr_eq', 'std::sync::Arc::<T>::ptr_eq', 'std::rc::Rc::<T, A>::ptr_eq')
def m_ptr_eq(c):
    a, b = (c.itp.rd(c.st, x) for x in c.args)
    if isinstance(a, Box) and isinstance(b, Box):
        return same_alloc(c.itp, c.st, a.v, b.v)
    raise Undecided('ptr_eq')


@model('std::sync::Arc::<T, A>::as_ptr', 'std::sync::Arc::<T>::as_ptr')
def m_arc_as_ptr(c):
    return m_arc_deref(c)


@model('std::ptr::eq', 'std::ptr::addr_eq')
def m_p_eq(c):
    a, b = c.args
    # a reference to the inside of a shared handle: the handle says which allocation it is
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.path and b.path and a.path[-1] == ('b',) and b.path[-1] == ('b',):
        x, y = c.itp.rd(c.st, Ptr(a.root, a.path[:-1])), c.itp.rd(c.st, Ptr(b.root, b.path[:-1]))
        if isinstance(x, Box) and isinstance(y, Box) and x.kind == y.kind == 'arc':
            return same_alloc(c.itp, c.st, x.v, y.v)
    r = same_alloc(c.itp, c.st, a, b)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.n is not None and b.n is not None:
        r = band(r, eq(a.n, b.n))
    return r


@model('std::sync::Arc::<T, A>::get_mut', 'std::sync::Arc::<T>::get_mut')
def m_get_mut(c):
    return NONE


@model('std::sync::Arc::<T>::try_unwrap', 'std::sync::Arc::<T, A>::try_unwrap')
def m_try_unwrap(c):
    return Agg('adt', None, 1, (c.args[0],))


@model('std::boxed::box_assume_init_into_vec_unsafe')
def m_boxvec(c):
    v = c.args[0]
    return Box('vec', c.itp.as_seq(c.st, v))


@model('std::mem::drop')
def m_drop(c):
    if c.itp.releasing:
        own.release(c.itp, c.st, c.fr, c.args[0])
    return UNIT


@model('std::mem::forget')
def m_forget(c):
    own.forgot(c)
    return UNIT


@model('std::ptr::drop_in_place', 'std::ptr::mut_ptr::<impl *mut T>::drop_in_place')
def m_drop_in_place(c):
    p = c.args[0]
    if c.itp.releasing:
        b = own.base(c.itp, c.st, p)
        if b is None:
            raise Undecided('drop_in_place')
        own.add(c.st, 'elems', p.n if p.n is not None else ONE)
        return UNIT
    if own.pointee(c.itp, c.atids) is not None and own.has_uninit(c.itp.rd(c.st, p)):
        raise Diverge('own', c.fr.loc)
    return UNIT


@model('std::alloc::dealloc')
def m_dealloc(c):
    if c.itp.releasing:
        p = c.args[0]
        b = own.base(c.itp, c.st, p)
        if b is None:
            raise Undecided('dealloc')
        c.itp.require(c.st, eq(b[1], ZERO), 'own', c.fr)
        if isinstance(c.args[1], Agg) and c.args[1].kind == 'layout':
            c.itp.require(c.st, eq(c.args[1].fs[0], b[2]), 'own', c.fr)
        own.add(c.st, 'free', ONE)
        return UNIT
    own.reowned(c.itp, c.args[0])
    return UNIT


# ------------------------------------------------------------------ raw pointers
@model('std::ptr::const_ptr::<impl *const T>::add', 'std::ptr::mut_ptr::<impl *mut T>::add', 'std::ptr::const_ptr::<impl *const T>::offset',
       'std::ptr::mut_ptr::<impl *mut T>::offset', 'std::ptr::NonNull::<T>::add')
def m_ptr_add(c):
    return c.itp.ptr_add(c.st, c.args[0], c.args[1])


@model('std::ptr::const_ptr::<impl *const T>::sub', 'std::ptr::mut_ptr::<impl *mut T>::sub')
def m_ptr_sub(c):
    return c.itp.ptr_add(c.st, c.args[0], -c.args[1])


def incell(c, p, n=None, what='mem'):
    """the pointer (n elements from it) stays inside its allocation"""
    itp, st = c.itp, c.st
    if isinstance(p, G):
        d = st.facts.decide(p.c)
        if d is not False:
            s = st.copy()
            s.facts = s.facts.add(p.c)
            incell(Ctx(itp, s, c.fr, c.bb, c.ref, c.args, c.atids, c.dtid), p.a, n, what)
        if d is not True:
            s = st.copy()
            s.facts = s.facts.add(bnot(p.c))
            incell(Ctx(itp, s, c.fr, c.bb, c.ref, c.args, c.atids, c.dtid), p.b, n, what)
        return
    if isinstance(p, Ptr) and p.path and p.path[-1][0] == 'i':
        base = itp.load(st, p.root, p.path[:-1])
        if isinstance(base, (Seq, Agg)):
            ln = base.len if isinstance(base, Seq) else toP(len(base.fs))
            off = p.path[-1][1]
            itp.require(st, ge0(off), what, c.fr)
            itp.require(st, ge0(ln - off - (ONE if n is None else n)), what, c.fr)


@model('std::ptr::const_ptr::<impl *const T>::as_ref', 'std::ptr::mut_ptr::<impl *mut T>::as_ref', 'std::ptr::mut_ptr::<impl *mut T>::as_mut')
def m_as_ref(c):
    p = c.args[0]
    incell(c, p, ptr_n(p))
    return some(p)


def ptr_n(p):
    if isinstance(p, G):
        return ptr_n(p.a)
    return p.n if isinstance(p, Ptr) else None


@model('std::ptr::mut_ptr::<impl *mut T>::write', 'std::ptr::write')
def m_write(c):
    incell(c, c.args[0], None, 'memw')
    c.itp.wr(c.st, c.args[0], c.args[1])
    return UNIT


@model('std::mem::MaybeUninit::<T>::write')
def m_mu_write(c):
    m_write(c)
    return c.args[0]


@model('std::mem::MaybeUninit::<T>::as_mut_ptr', 'std::mem::MaybeUninit::<T>::as_ptr', 'std::mem::MaybeUninit::<T>::assume_init_ref',
       'std::mem::MaybeUninit::<T>::assume_init_mut')
def m_mu_ptr(c):
    return c.args[0]


@model('std::ptr::const_ptr::<impl *const T>::read', 'std::ptr::mut_ptr::<impl *mut T>::read', 'std::ptr::read')
def m_read(c):
    incell(c, c.args[0])
    own.copied(c, c.args[0])
    return c.itp.rd(c.st, c.args[0])


@model('std::ptr::slice_from_raw_parts', 'std::ptr::slice_from_raw_parts_mut')
def m_sfrp(c):
    return c.itp.mk_fat(c.st, c.args[0], c.args[1])


@model('std::slice::from_raw_parts', 'std::slice::from_raw_parts_mut')
def m_sfrp2(c):
    p = c.itp.mk_fat(c.st, c.args[0], c.args[1])
    incell(c, p, c.args[1])
    return p


@model('std::ptr::const_ptr::<impl *const T>::copy_to_nonoverlapping', 'std::ptr::mut_ptr::<impl *mut T>::copy_to_nonoverlapping',
       'std::ptr::copy_nonoverlapping', 'std::ptr::copy')
def m_copy(c):
    src, dst, n = c.args
    own.copied(c, src, n)
    incell(c, src, n)
    incell(c, dst, n, 'memw')
    copy_into(c, c.itp.mk_fat(c.st, dst, n), c.itp.slice_seq(c.st, c.itp.mk_fat(c.st, src, n)))
    return UNIT


@model('std::ptr::mut_ptr::<impl *mut T>::copy_from_nonoverlapping', 'std::ptr::mut_ptr::<impl *mut T>::copy_from')
def m_copy_from(c):
    dst, src, n = c.args
    c.args = [src, dst, n]
    return m_copy(c)


def copy_into(c, dst, seq):
    """dst slice pointer := seq (same length)"""
    itp, st = c.itp, c.st
    if isinstance(dst, G):
        raise Undecided('copy into alternative')
    if isinstance(dst, ConstRef):
        raise Undecided('copy into constant')
    base, off, n = itp.slice_parts(st, dst)
    n = simp(n, st.facts)
    path = dst.path[:-1] if dst.n is not None else dst.path
    if n.is_const() and n.const() <= 32:
        for i in range(n.const()):
            v = seq_get(seq, toP(i), st.facts)
            itp.store(st, dst.root, path + (('i', off + i),), v)
        return
    k = Atom('s', (fresh('w'),))
    k.lo = 0
    f = st.facts.with_loop(k, n).add(ge0(n - 1))
    w = W(((k, n),), TRUE, off + atomP(k), seq_get(seq, atomP(k), f))
    old = itp.load(st, dst.root, path)
    if isinstance(old, Agg):
        raise Undecided('copy into array')
    itp.store(st, dst.root, path, Seq(old.len, old.segs, old.ws + (w,)))


# ------------------------------------------------------------------ slices
SL = 'core::slice::<impl [T]>::'


@model(SL + 'len', 'std::ptr::const_ptr::<impl *const [T]>::len', 'std::vec::Vec::<T, A>::len')
def m_slen(c):
    return vlen(c, c.args[0])


def vlen(c, p):
    if isinstance(p, G):
        return c.itp.vmerge(p.c, vlen(c, p.a), vlen(c, p.b), c.st.facts)
    if isinstance(p, Ptr) and p.n is not None:
        return p.n
    v = c.itp.rd(c.st, p)
    return glen(c, v)


def glen(c, v):
    if isinstance(v, G):
        return c.itp.vmerge(v.c, glen(c, v.a), glen(c, v.b), c.st.facts)
    return c.itp.as_seq(c.st, v).len


@model(SL + 'is_empty', 'std::vec::Vec::<T, A>::is_empty')
def m_isempty(c):
    return eq(vlen(c, c.args[0]), ZERO)


@model(SL + 'iter', SL + 'iter_mut')
def m_iter(c):
    p = c.args[0]
    return mk('slice', (p,), ZERO, c.itp.slice_len(c.st, p))


def slicep(c, p):
    """&Vec / &array / &[T] -> slice pointer"""
    if isinstance(p, Ptr) and p.n is not None or isinstance(p, G):
        return p
    v = c.itp.rd(c.st, p)
    if isinstance(v, Box):
        return c.itp.vec_slice_ptr(c.st, p)
    return p


@model(SL + 'chunks_exact', SL + 'chunks_exact_mut')
def m_chunks_exact(c):
    p, n = c.args
    c.itp.require(c.st, ge0(n - 1), 'panic', c.fr)
    ln = c.itp.slice_len(c.st, p)
    return mk('chunks', (p, n), ZERO, simp(sdiv(ln, n, c.st.facts), c.st.facts))


@model(SL + 'chunks', SL + 'chunks_mut')
def m_chunks(c):
    p, n = c.args
    c.itp.require(c.st, ge0(n - 1), 'panic', c.fr)
    ln = simp(c.itp.slice_len(c.st, p), c.st.facts)
    q = simp(sdiv(ln + n - 1, n, c.st.facts), c.st.facts)
    if c.st.facts.decide(eq0(smod(ln, n, c.st.facts))):
        return mk('chunks', (p, n), ZERO, simp(sdiv(ln, n, c.st.facts), c.st.facts))
    return mk('chunkv', (p, n), ZERO, q)


@model(SL + 'windows')
def m_windows(c):
    p, n = c.args
    ln = c.itp.slice_len(c.st, p)
    return mk('windows', (p, n), ZERO, simp(imax(ZERO, ln - n + 1), c.st.facts))


@model('std::slice::<impl [T]>::to_vec', 'std::slice::<impl [T]>::to_owned', 'std::borrow::ToOwned::to_owned', 'std::slice::<impl [T]>::into_vec',
       'std::slice::<impl [T]>::to_vec_in', '<T as std::slice::<impl [T]>::to_vec_in::ConvertVec>::to_vec')
def m_to_vec(c):
    p = c.args[0]
    if isinstance(p, Box):
        return Box('vec', c.itp.as_seq(c.st, p))
    return Box('vec', c.itp.slice_seq(c.st, slicep(c, p)))


@model('std::vec::Vec::<T, A>::into_boxed_slice')
def m_into_boxed(c):
    return Box('box', c.itp.as_seq(c.st, c.args[0]))


@model('std::vec::Vec::<T, A>::as_slice', 'std::vec::Vec::<T, A>::as_mut_slice', '<std::vec::Vec<T, A> as std::ops::Deref>::deref',
       '<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut', '<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref',
       'std::array::<impl [T; N]>::as_slice', '<std::vec::Vec<T, A> as std::borrow::Borrow<[T]>>::borrow',
       'std::array::<impl std::convert::AsRef<[T]> for [T; N]>::as_ref', '<std::boxed::Box<T, A> as std::convert::AsRef<T>>::as_ref')
def m_as_slice(c):
    p = c.args[0]
    v = c.itp.rd(c.st, p)
    if isinstance(v, Agg) and v.kind == 'array':
        n = toP(len(v.fs))
        if isinstance(p, ConstRef):
            return Ptr(('K', p.v), (('i', ZERO),), n)
        return Ptr(p.root, p.path + (('i', ZERO),), n)
    return c.itp.vec_slice_ptr(c.st, p)


@model('std::vec::Vec::<T, A>::as_ptr', 'std::vec::Vec::<T, A>::as_mut_ptr')
def m_vec_ptr(c):
    q = c.itp.vec_slice_ptr(c.st, c.args[0])
    return Ptr(q.root, q.path, None)


@model(SL + 'as_ptr', SL + 'as_mut_ptr')
def m_sl_ptr(c):
    q = c.itp.elem_ptr(c.st, c.args[0], ZERO)
    return q


def index_at(c, p, i):
    n = c.itp.slice_len(c.st, p)
    c.itp.require(c.st, ge0(i), 'bounds', c.fr)
    c.itp.require(c.st, lt(i, n), 'bounds', c.fr)
    return c.itp.elem_ptr(c.st, p, i)


@model(SL + 'copy_within')
def m_copy_within(c):
    p, r, d = c.args
    src = index_any(c, p, r)
    n = c.itp.slice_len(c.st, src)
    c.itp.require(c.st, le(d + n, c.itp.slice_len(c.st, p)), 'bounds', c.fr)
    copy_into(c, c.itp.sub_ptr(c.st, p, d, n), c.itp.slice_seq(c.st, src))
    return UNIT


def index_any(c, p, i):
    """p: slice pointer, i: usize or a range value"""
    itp, st = c.itp, c.st
    if isinstance(i, P):
        return index_at(c, p, i)
    n = itp.slice_len(st, p)
    if isinstance(i, Agg) and i.kind == 'adt':
        path = itp.T[i.tid].get('path') if i.tid is not None else None
        if path == 'std::ops::Range':
            a, b = i.fs
        elif path == 'std::ops::RangeFrom':
            a, b = i.fs[0], n
        elif path == 'std::ops::RangeTo':
            a, b = ZERO, i.fs[0]
        elif path == 'std::ops::RangeFull':
            a, b = ZERO, n
        elif path == 'std::ops::RangeToInclusive':
            a, b = ZERO, i.fs[0] + 1
        else:
            raise Undecided('index type %s' % path)
        itp.require(st, le(a, b), 'bounds', c.fr)
        itp.require(st, le(b, n), 'bounds', c.fr)
        return itp.sub_ptr(st, p, a, b - a)
    if isinstance(i, Iter) and i.kind == 'range':
        itp.require(st, le(i.front, i.back), 'bounds', c.fr)
        itp.require(st, le(i.back, n), 'bounds', c.fr)
        return itp.sub_ptr(st, p, i.front, i.back - i.front)
    raise Undecided('index by %s' % (str(i)[:40],))


@model('std::slice::SliceIndex::index', 'std::slice::SliceIndex::index_mut')
def m_sindex(c):
    return index_any(c, c.args[1], c.args[0])


@model('<std::vec::Vec<T, A> as std::ops::Index<I>>::index', '<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut',
       'core::slice::index::<impl std::ops::Index<I> for [T]>::index', 'core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut',
       'std::array::<impl std::ops::Index<I> for [T; N]>::index', 'std::array::<impl std::ops::IndexMut<I> for [T; N]>::index_mut')
def m_index(c):
    p = slicep(c, c.args[0])
    if isinstance(p, Ptr) and p.n is None:
        v = c.itp.rd(c.st, p)
        p = Ptr(p.root, p.path + (('i', ZERO),), toP(len(v.fs)))
    return index_any(c, p, c.args[1])


@model(SL + 'get', SL + 'get_mut')
def m_get(c):
    p, i = c.args
    n = c.itp.slice_len(c.st, p)
    if not isinstance(i, P):
        raise Undecided('slice get of a range')
    h = simp(lt(i, n), c.st.facts)
    return mkG(h, some(c.itp.elem_ptr(c.st, p, i)), NONE)


@model(SL + 'get_unchecked', SL + 'get_unchecked_mut')
def m_get_unchecked(c):
    p, i = c.args
    n = c.itp.slice_len(c.st, p)
    c.itp.require(c.st, lt(i, n), 'mem', c.fr)
    return c.itp.elem_ptr(c.st, p, i)


@model(SL + 'first', SL + 'first_mut')
def m_first(c):
    n = c.itp.slice_len(c.st, c.args[0])
    return mkG(simp(ge0(n - 1), c.st.facts), some(c.itp.elem_ptr(c.st, c.args[0], ZERO)), NONE)


@model(SL + 'last', SL + 'last_mut')
def m_last(c):
    n = c.itp.slice_len(c.st, c.args[0])
    return mkG(simp(ge0(n - 1), c.st.facts), some(c.itp.elem_ptr(c.st, c.args[0], n - 1)), NONE)


@model(SL + 'split_at', SL + 'split_at_mut')
def m_split_at(c):
    p, i = c.args
    n = c.itp.slice_len(c.st, p)
    c.itp.require(c.st, le(i, n), 'bounds', c.fr)
    return Agg('tuple', None, None, (c.itp.sub_ptr(c.st, p, ZERO, i), c.itp.sub_ptr(c.st, p, i, n - i)))


@model(SL + 'split_first', SL + 'split_last', SL + 'split_first_mut', SL + 'split_last_mut')
def m_split_first(c):
    p = c.args[0]
    n = c.itp.slice_len(c.st, p)
    if 'split_last' in (c.ref.get('path') or c.ref['decl']):
        r = (c.itp.elem_ptr(c.st, p, n - 1), c.itp.sub_ptr(c.st, p, ZERO, n - 1))
    else:
        r = (c.itp.elem_ptr(c.st, p, ZERO), c.itp.sub_ptr(c.st, p, ONE, n - 1))
    return mkG(le(ONE, n), some(Agg('tuple', None, None, r)), NONE)


@model(SL + 'copy_from_slice', SL + 'clone_from_slice')
def m_cfs(c):
    d, s = c.args
    c.itp.require(c.st, eq(c.itp.slice_len(c.st, d), c.itp.slice_len(c.st, s)), 'panic', c.fr)
    copy_into(c, d, c.itp.slice_seq(c.st, s))
    return UNIT


@model(SL + 'fill')
def m_fill(c):
    d, v = c.args
    n = c.itp.slice_len(c.st, d)
    copy_into(c, d, seq_gen(n, lambda k: v))
    return UNIT


@model(SL + 'swap')
def m_swap(c):
    p, i, j = c.args
    a, b = index_at(c, p, i), index_at(c, p, j)
    x, y = c.itp.rd(c.st, a), c.itp.rd(c.st, b)
    c.itp.wr(c.st, a, y)
    c.itp.wr(c.st, b, x)
    return UNIT


@model(SL + 'reverse')
def m_reverse(c):
    p = c.args[0]
    q = c.itp.slice_seq(c.st, p)
    n = simp(q.len, c.st.facts)
    if not n.is_const():
        raise Undecided('reverse')
    copy_into(c, p, seq_items([seq_get(q, toP(n.const() - 1 - i), c.st.facts) for i in range(n.const())]))
    return UNIT


@model('core::slice::cmp::SlicePartialEq::equal_same_length')
def m_eqsame(c):
    a, b, n = c.args
    tids = [x for x in c.ref.get('dargs') or c.ref['args'] if isinstance(x, int)]
    sa = c.itp.slice_seq(c.st, c.itp.mk_fat(c.st, a, n))
    sb = c.itp.slice_seq(c.st, c.itp.mk_fat(c.st, b, n))
    return seq_eq(c, sa, sb, n, c.itp.T[tids[0]])


@model('std::array::equality::SpecArrayEq::spec_eq')
def m_arreq(c):
    sa = c.itp.as_seq(c.st, c.itp.rd(c.st, c.args[0]))
    sb = c.itp.as_seq(c.st, c.itp.rd(c.st, c.args[1]))
    tids = [x for x in c.ref.get('dargs') or c.ref['args'] if isinstance(x, int)]
    return seq_eq(c, sa, sb, sa.len, c.itp.T[tids[0]])


def eeq(a, b, t):
    if t['k'] in ('int', 'uint', 'char'):
        return eq(a, b)
    if t['k'] == 'bool':
        return bite(a, b, bnot(b))
    if t['k'] == 'float':
        return B('feq', (a, b))
    if t.get('path') == 'uf::E' or t['n'] == 'uf::E':
        return B('eq', (a, b))
    raise Undecided('equality of %s' % t['n'])


def seq_eq(c, a, b, n, t):
    f = c.st.facts
    n = simp(n, f)
    if n.is_const() and n.const() <= 16:
        return band(*[eeq(seq_get(a, toP(i), f), seq_get(b, toP(i), f), t) for i in range(n.const())])
    k = Atom('s', (fresh('q'),))
    k.lo = 0
    ff = f.with_loop(k, n).add(ge0(n - 1))
    e = simp(eeq(seq_get(a, atomP(k), ff), seq_get(b, atomP(k), ff), t), ff)
    return ball(k, n, e)


def ball(k, n, e):
    if e.op == 'true':
        return TRUE
    kk = canonk(bdepth(e) + 1)
    return B('all', (n, kk, subst(e, {k: atomP(kk)})))


# ------------------------------------------------------------------ vectors
@model('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity', 'std::vec::Vec::<T, A>::with_capacity_in')
def m_vnew(c):
    return Box('vec', seq_items(()))


def vmod(c, f):
    """update the vector behind args[0]"""
    p = c.args[0]
    v = c.itp.rd(c.st, p)
    if not isinstance(v, Box):
        v = Box('vec', c.itp.as_seq(c.st, v))
    c.itp.wr(c.st, p, Box(v.kind, f(v.v)))
    return UNIT


@model('std::vec::Vec::<T, A>::push')
def m_push(c):
    return vmod(c, lambda q: iters.append(q, (Item(c.args[1]),)))


@model('std::vec::Vec::<T, A>::reserve', 'std::vec::Vec::<T, A>::reserve_exact', 'std::vec::Vec::<T, A>::shrink_to_fit')
def m_reserve(c):
    return UNIT


@model('std::vec::Vec::<T, A>::clear')
def m_clear(c):
    return vmod(c, lambda q: seq_items(()))


@model('std::vec::Vec::<T, A>::truncate')
def m_truncate(c):
    n = c.args[1]

    def f(q):
        m = simp(imin(q.len, n), c.st.facts)
        return seq_sub(q, ZERO, m, c.st.facts)
    return vmod(c, f)


@model('std::vec::Vec::<T, A>::insert')
def m_insert(c):
    _, i, v = c.args

    def f(q):
        c.itp.require(c.st, le(i, q.len), 'bounds', c.fr)
        ii = simp(i, c.st.facts)
        it = plain_items(q)
        if it is not None and ii.is_const():
            it = list(it)
            it.insert(ii.const(), v)
            return seq_items(it)
        if it is not None:
            raise Undecided('insert at symbolic position')
        return cat([seq_sub(q, ZERO, ii, c.st.facts), seq_items([v]), seq_sub(q, ii, q.len - ii, c.st.facts)], c.st.facts)
    return vmod(c, f)


@model('std::vec::Vec::<T, A>::remove')
def m_remove(c):
    _, i = c.args
    out = []

    def f(q):
        c.itp.require(c.st, lt(i, q.len), 'bounds', c.fr)
        ii = simp(i, c.st.facts)
        out.append(seq_get(q, ii, c.st.facts))
        it = plain_items(q)
        if it is not None and ii.is_const():
            it = list(it)
            del it[ii.const()]
            return seq_items(it)
        raise Undecided('remove at symbolic position')
    vmod(c, f)
    return out[0]


@model('std::vec::Vec::<T, A>::pop')
def m_pop(c):
    out = []

    def f(q):
        n = simp(q.len, c.st.facts)
        if n.is_const() and n.const() == 0:
            out.append(NONE)
            return q
        if not c.st.facts.prove_ge(n - 1):
            raise Undecided('pop of maybe empty')
        out.append(some(seq_get(q, n - 1, c.st.facts)))
        return seq_sub(q, ZERO, n - 1, c.st.facts)
    vmod(c, f)
    return out[0]


def plainws(q, f):
    if not q.ws:
        return q.segs
    k = Atom('s', (fresh('g'),))
    k.lo = 0
    ff = f.with_loop(k, q.len).add(ge0(q.len - 1))
    return (Loop(k, q.len, (Item(seq_get(q, atomP(k), ff)),)),)


def cat(qs, f):
    segs = ()
    n = ZERO
    for q in qs:
        segs += plainws(q, f)
        n = n + q.len
    return Seq(n, segs, ())


@model('std::vec::Vec::<T, A>::extend_from_slice')
def m_efs(c):
    s = c.itp.slice_seq(c.st, c.args[1])
    return vmod(c, lambda q: iters.append(q, plainws(s, c.st.facts)))


@model('std::vec::Vec::<T, A>::append')
def m_vappend(c):
    s = c.itp.as_seq(c.st, c.itp.rd(c.st, c.args[1]))
    c.itp.wr(c.st, c.args[1], Box('vec', seq_items(())))
    return vmod(c, lambda q: iters.append(q, plainws(s, c.st.facts)))


@model('std::iter::Extend::extend')
def m_extend(c):
    it = to_iter(c, c.st, c.args[1])
    if it.kind == 'slice':
        s = c.itp.slice_seq(c.st, it.a[0])
        return vmod(c, lambda q: iters.append(q, plainws(s, c.st.facts)))
    s = collect(c, c.st, it, 'ext')
    return vmod(c, lambda q: iters.append(q, plainws(s.v, c.st.facts)))


@model('std::vec::from_elem')
def m_from_elem(c):
    v, n = c.args
    n = simp(n, c.st.facts)
    if n.is_const() and n.const() <= 64:
        return Box('vec', seq_items([v] * n.const()))
    return Box('vec', seq_gen(n, lambda k: v))


@model('std::vec::Vec::<T, A>::resize')
def m_resize(c):
    _, n, v = c.args

    def f(q):
        if c.st.facts.prove_ge(n - q.len):
            d = simp(n - q.len, c.st.facts)
            if d.is_const() and d.const() <= 64:
                return iters.append(q, tuple(Item(v) for _ in range(d.const())))
            k = Atom('s', (fresh('g'),))
            k.lo = 0
            return iters.append(q, (Loop(k, d, (Item(v),)),))
        if c.st.facts.prove_ge(q.len - n):
            return seq_sub(q, ZERO, n, c.st.facts)
        raise Undecided('resize')
    return vmod(c, f)


@model('std::slice::<impl [T]>::concat')
def m_concat(c):
    p = c.args[0]
    it = mk('slice', (p,), ZERO, c.itp.slice_len(c.st, p))
    return collect(c, c.st, mk('flat', (it, None)), 'cat')


# ------------------------------------------------------------------ iterators
IT = 'std::iter::Iterator::'


@model(IT + 'next')
def m_next(c):
    inst = c.ref.get('inst')
    if inst is not None and inst in c.itp.p.fns and 'blocks' in c.itp.p.fns[inst] and c.itp.p.fns[inst]['crate'] not in ('core', 'alloc', 'std'):
        return c.itp.call_fn(c.st, inst, c.args, c.fr.fid + (c.bb,), c.fr)
    return iters.next_model(c)


@model('std::iter::DoubleEndedIterator::next_back')
def m_next_back(c):
    return iters.next_model(c, True)


def adaptor(kind):
    def f(c):
        return mk(kind, (to_iter(c, c.st, c.args[0]),) + tuple(c.args[1:]))
    return f


M[IT + 'map'] = adaptor('map')
M[IT + 'enumerate'] = adaptor('enum')
M[IT + 'rev'] = adaptor('rev')
M[IT + 'cloned'] = adaptor('cloned')
M[IT + 'copied'] = adaptor('cloned')
M[IT + 'flat_map'] = adaptor('flat')
M[IT + 'filter'] = adaptor('filter')
M[IT + 'fuse'] = lambda c: to_iter(c, c.st, c.args[0])
M[IT + 'flatten'] = lambda c: mk('flat', (to_iter(c, c.st, c.args[0]), None))
M[IT + 'into_iter'] = m_into_iter
M[IT + 'by_ref'] = lambda c: c.args[0]


@model(IT + 'zip', 'std::iter::zip')
def m_zip(c):
    return mk('zip', (to_iter(c, c.st, c.args[0]), to_iter(c, c.st, c.args[1])))


@model(IT + 'chain')
def m_chain(c):
    return mk('chain', (to_iter(c, c.st, c.args[0]), to_iter(c, c.st, c.args[1])))


@model(IT + 'skip')
def m_skip(c):
    it = to_iter(c, c.st, c.args[0])
    return iters.advance(c, c.st, it, c.args[1])


@model(IT + 'take')
def m_take(c):
    return iters.take(c, c.st, to_iter(c, c.st, c.args[0]), c.args[1])


@model(IT + 'step_by')
def m_step_by(c):
    c.itp.require(c.st, ge0(c.args[1] - 1), 'panic', c.fr)
    return mk('step', (to_iter(c, c.st, c.args[0]), c.args[1]))


@model('std::iter::repeat')
def m_repeat(c):
    return mk('repeat', (c.args[0],))


@model('std::iter::once')
def m_once(c):
    return mk('seq', (seq_items([c.args[0]]),), ZERO, ONE)


@model('std::ops::RangeInclusive::<Idx>::new')
def m_rangeincl(c):
    return mk('range', (), c.args[0], c.args[1] + 1)


@model('std::ops::Range::<Idx>::contains', 'std::ops::RangeInclusive::<Idx>::contains')
def m_contains(c):
    r = c.itp.rd(c.st, c.args[0])
    x = c.itp.rd(c.st, c.args[1])
    if isinstance(r, Iter):
        a, b = r.front, r.back
    else:
        a, b = r.fs
    if not isinstance(x, P):
        raise Undecided('contains')
    return band(le(a, x), lt(x, b))


@model(IT + 'collect', '<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter', '<std::boxed::Box<[I]> as std::iter::FromIterator<I>>::from_iter')
def m_collect(c):
    t = c.itp.T[c.dtid] if c.dtid is not None else None
    it = to_iter(c, c.st, c.args[0])
    if t is not None and t.get('path') == 'std::vec::Vec':
        return collect(c, c.st, it)
    if t is not None and t.get('path') == 'std::boxed::Box':
        return Box('box', collect(c, c.st, it).v)
    inst = c.ref.get('inst')
    if inst is not None and inst in c.itp.p.fns and 'blocks' in c.itp.p.fns[inst]:
        return c.itp.call_fn(c.st, inst, c.args, c.fr.fid + (c.bb,), c.fr)
    raise Undecided('collect into %s' % (t['n'] if t else '?'))


def deref_num(c, s, v):
    while isinstance(v, (Ptr, ConstRef)) or isinstance(v, G) and isinstance(v.a, (Ptr, ConstRef)):
        v = c.itp.rd(s, v)
    return v


@model(IT + 'sum')
def m_sum(c):
    t = c.itp.T[c.dtid]
    it = to_iter(c, c.st, c.args[0])
    if t['k'] in ('int', 'uint'):
        return accumulate(c, c.st, it, ZERO, lambda s, a, v: a + deref_num(c, s, v))
    if t['k'] == 'float':
        return accumulate(c, c.st, it, T('fc', ('0.0',)), lambda s, a, v: T('Add', (a, deref_num(c, s, v))))
    raise Undecided('sum of %s' % t['n'])


@model(IT + 'product')
def m_product(c):
    t = c.itp.T[c.dtid]
    it = to_iter(c, c.st, c.args[0])
    if t['k'] in ('int', 'uint'):
        return accumulate(c, c.st, it, ONE, lambda s, a, v: a * deref_num(c, s, v))
    if t['k'] == 'float':
        return accumulate(c, c.st, it, T('fc', ('1.0',)), lambda s, a, v: T('Mul', (a, deref_num(c, s, v))))
    raise Undecided('product of %s' % t['n'])


def clo_root(c, f, tag='clo'):
    root = ('L', c.fr.fid + (c.bb, tag), 'c')
    if isinstance(f, (Ptr, ConstRef)):
        return f
    c.st.mem[root] = f
    return Ptr(root, (), None)


@model(IT + 'fold')
def m_fold(c):
    it = to_iter(c, c.st, c.args[0])
    f = clo_root(c, c.args[2])
    return accumulate(c, c.st, it, c.args[1], lambda s, a, v: c.call(s, f, [a, v]))


@model(IT + 'for_each')
def m_for_each(c):
    it = to_iter(c, c.st, c.args[0])
    f = clo_root(c, c.args[1])
    each(c, c.st, it, lambda s, v: c.call(s, f, [v]))
    return UNIT


@model(IT + 'count')
def m_count(c):
    it = to_iter(c, c.st, c.args[0])
    try:
        return iters.length(c, c.st, it)
    except Undecided:
        return accumulate(c, c.st, it, ZERO, lambda s, a, v: a + 1)


@model('std::iter::ExactSizeIterator::len')
def m_exact_len(c):
    return iters.length(c, c.st, to_iter(c, c.st, c.itp.rd(c.st, c.args[0])))


@model(IT + 'nth')
def m_nth(c):
    p, n = c.args
    it = to_iter(c, c.st, c.itp.rd(c.st, p))
    c.itp.wr(c.st, p, iters.advance(c, c.st, it, n))
    return iters.next_model(c)


@model(IT + 'last')
def m_ilast(c):
    it = to_iter(c, c.st, c.args[0])
    h = simp(iters.has(c, c.st, it), c.st.facts)
    if h.op == 'false':
        return NONE
    s = c.st.copy()
    s.facts = s.facts.add(h)
    v, _ = iters.pull_back(c, s, it)
    return mkG(h, some(v), NONE)


@model(IT + 'all', IT + 'any')
def m_all(c):
    isall = c.ref['decl'].endswith('all')
    p = c.args[0]
    it = to_iter(c, c.st, c.itp.rd(c.st, p))
    f = clo_root(c, c.args[1])
    n = simp(iters.length(c, c.st, it), c.st.facts)
    if n.is_const() and n.const() <= 16:
        out = []
        for _ in range(n.const()):
            v, it = iters.pull(c, c.st, it)
            out.append(toB(c.call(c.st, f, [v])))
        return band(*out) if isall else bor(*out)
    k = Atom('s', (fresh('q'),))
    k.lo = 0
    s = c.st.copy()
    s.facts = s.facts.with_loop(k, n).add(ge0(n - 1))
    v, _ = iters.pull(c, s, iters.advance(c, s, it, atomP(k)))
    before = dict(s.mem)
    e = simp(toB(c.call(s, f, [v])), s.facts)
    for r in before:
        if r[0] != 'L' or r[1] != c.fr.fid + (c.bb, 'clo'):
            if s.mem.get(r) is not before[r] and s.mem.get(r) != before[r]:
                raise Undecided('predicate with effects')
    return ball(k, n, e) if isall else bnot(ball(k, n, bnot(e)))


@model(IT + 'partial_cmp', IT + 'cmp', IT + 'eq', IT + 'ne', IT + 'lt', IT + 'le', IT + 'gt', IT + 'ge')
def m_pcmp(c):
    name = 'iter_' + c.ref['decl'].split('::')[-1]
    a = iter_term(c, to_iter(c, c.st, c.args[0]), 'a')
    b = iter_term(c, to_iter(c, c.st, c.args[1]), 'b')
    if name == 'iter_ne':
        return bnot(B('iter_eq', (a, b)))
    return result(c, name, (a, b))


def iter_term(c, it, tag):
    v = collect(c, c.st, it, 'cmp' + tag)
    q = v.v
    # references: compare what they point to
    st = c.st
    f = st.facts
    n = simp(q.len, f)
    if n.is_const() and n.const() <= 16:
        return T('list', tuple(deepval(c, seq_get(q, toP(i), f)) for i in range(n.const())))
    k = Atom('s', (fresh('c'),))
    k.lo = 0
    ff = f.with_loop(k, n).add(ge0(n - 1))
    save = st.facts
    st.facts = ff
    try:
        x = simp(deepval(c, seq_get(q, atomP(k), ff)), ff)
    finally:
        st.facts = save
    kk = canonk(bdepth(x) + 1)
    return T('seq', (n, kk, subst(x, {k: atomP(kk)})))


def minmax(c, big):
    it = to_iter(c, c.st, c.args[0])
    n = simp(iters.length(c, c.st, it), c.st.facts)
    if not n.is_const():
        raise Undecided('min/max over symbolic length')
    if n.const() == 0:
        return NONE
    best = None
    for _ in range(n.const()):
        v, it = iters.pull(c, c.st, it)
        x = deref_num(c, c.st, v)
        if not isinstance(x, P):
            raise Undecided('min/max of %s' % (str(x)[:30],))
        best = x if best is None else (imax if big else imin)(best, x)
    return some(simp(best, c.st.facts))


@model(IT + 'max')
def m_itmax(c):
    return minmax(c, True)


@model(IT + 'min')
def m_itmin(c):
    return minmax(c, False)


# ------------------------------------------------------------------ numbers
@model('std::intrinsics::integer_max')
def m_imax(c):
    return simp(imax(*c.args), c.st.facts)


@model('std::intrinsics::integer_min')
def m_imin(c):
    return simp(imin(*c.args), c.st.facts)


@model('std::cmp::Ord::max')
def m_omax(c):
    if all(isinstance(a, P) for a in c.args):
        return simp(imax(*c.args), c.st.facts)
    return body_or_undecided(c)


@model('std::cmp::Ord::min')
def m_omin(c):
    if all(isinstance(a, P) for a in c.args):
        return simp(imin(*c.args), c.st.facts)
    return body_or_undecided(c)


def body_or_undecided(c):
    inst = c.ref.get('inst')
    if inst is not None and inst in c.itp.p.fns and 'blocks' in c.itp.p.fns[inst]:
        return c.itp.call_fn(c.st, inst, c.args, c.fr.fid + (c.bb,), c.fr)
    r = opaque(c, c.ref.get('path') or c.ref['decl'])
    if r is not None:
        return r
    raise Undecided('no model for %s' % c.ref.get('path'))


NUM = {}


def num(*names):
    def d(f):
        for n in names:
            NUM[n] = f
        return f
    return d


def tinfo(t):
    bits = {'usize': 64, 'isize': 64}.get(t) or int(t[1:])
    return ('u' if t[0] == 'u' else 's'), bits


def wrapping(nm):
    def f(c, t):
        a = c.args
        if all(isinstance(x, P) for x in a):
            return wop('%s_%d_%s' % (tinfo(t) + (nm,)), *a)
        return result(c, 'w' + nm, a)
    return f


for _n in ('add', 'sub', 'mul', 'shl', 'shr'):
    NUM['wrapping_' + _n] = wrapping(_n)


@num('saturating_sub')
def n_satsub(c, t):
    a, b = c.args
    return simp(imax(ZERO, a - b), c.st.facts) if t[0] == 'u' else a - b


@num('saturating_add')
def n_satadd(c, t):
    return c.args[0] + c.args[1]


@num('saturating_mul')
def n_satmul(c, t):
    return c.args[0] * c.args[1]


@num('checked_add')
def n_cadd(c, t):
    return some(c.args[0] + c.args[1])


@num('checked_mul')
def n_cmul(c, t):
    return some(c.args[0] * c.args[1])


@num('checked_sub')
def n_csub(c, t):
    a, b = c.args
    if t[0] != 'u':
        return some(a - b)
    return mkG(simp(ge0(a - b), c.st.facts), some(a - b), NONE)


@num('checked_div', 'checked_rem')
def n_cdiv(c, t):
    a, b = c.args
    f = sdiv if c.ref['path'].endswith('div') else smod
    ff = c.st.facts.add(ge0(b - 1))
    return mkG(simp(ge0(b - 1), c.st.facts), some(simp(f(a, b, ff), ff)), NONE)


@num('abs_diff')
def n_absdiff(c, t):
    a, b = c.args
    return simp(imax(a, b) - imin(a, b), c.st.facts)


@num('div_ceil')
def n_divceil(c, t):
    a, b = c.args
    return simp(sdiv(a + b - 1, b, c.st.facts), c.st.facts)


@num('rem_euclid')
def n_rem_euclid(c, t):
    a, b = c.args
    if c.st.facts.prove_ge(a):
        return simp(smod(a, b, c.st.facts), c.st.facts)
    if c.st.facts.prove_ge(a + b):
        return simp(smod(a + b, b, c.st.facts), c.st.facts)
    raise Undecided('rem_euclid')


@num('is_multiple_of')
def n_mult(c, t):
    return eq0(simp(smod(c.args[0], c.args[1], c.st.facts), c.st.facts))


@num('pow')
def n_pow(c, t):
    a, b = c.args
    if isinstance(b, P) and b.is_const() and b.const() <= 8:
        r = ONE
        for _ in range(b.const()):
            r = r * a
        return r
    return result(c, 'ipow', c.args)


@num('abs', 'unsigned_abs')
def n_abs(c, t):
    a = c.args[0]
    return simp(imax(a, -a), c.st.facts)


@num('is_negative')
def n_isneg(c, t):
    return lt(c.args[0], ZERO)


@model('<std::vec::Vec<T> as std::convert::From<[T; N]>>::from', '<std::vec::Vec<T> as std::convert::From<&[T; N]>>::from',
       '<std::vec::Vec<T> as std::convert::From<&[T]>>::from', '<std::boxed::Box<[T]> as std::convert::From<[T; N]>>::from')
def m_vec_from(c):
    p = c.args[0]
    kind = 'box' if (c.ref.get('path') or '').startswith('<std::boxed') else 'vec'
    if isinstance(p, (Ptr, ConstRef)):
        return Box(kind, c.itp.slice_seq(c.st, slicep(c, p)))
    return Box(kind, c.itp.as_seq(c.st, p))


@model('std::string::ToString::to_string', '<T as std::string::ToString>::to_string', '<std::string::String as std::convert::From<&str>>::from', '<str as std::borrow::ToOwned>::to_owned',
       'std::str::<impl std::borrow::ToOwned for str>::to_owned')
def m_to_string(c):
    v = deepval(c, c.args[0])
    while isinstance(v, T) and v.op == '*':
        v = v.args[0]
    if not isinstance(v, T):
        raise Undecided('to_string of %s' % (str(v)[:40],))
    return T('to_string', (v,))


@model('<std::string::String as std::clone::Clone>::clone')
def m_string_clone(c):
    v = c.itp.rd(c.st, c.args[0])
    if isinstance(v, T) or isinstance(v, Agg):
        return v
    raise Undecided('String clone')


@model('rustfft::plan::FftPlanner::<T>::new')
def m_fft_planner(c):
    return T('fftplanner')


@model('rustfft::plan::FftPlanner::<T>::plan_fft_forward')
def m_fft_plan(c):
    return Box('arc', Agg('adt', None, 0, (c.args[1],)))


@model('rustfft::Fft::process')
def m_fft_process(c):
    h = c.itp.rd(c.st, c.args[0])
    return c.itp.call_fn(c.st, c.itp.p.roots['model::fft'], [h.fs[0], c.args[1]], c.fr.fid + (c.bb,), c.fr)


@model('std::str::from_utf8_unchecked', 'core::str::<impl str>::as_bytes')
def m_str_bytes(c):
    return c.args[0]


# ------------------------------------------------------------------ files
# The outcome of each operation is fixed by the obligation (itp.io); the length
# in the metadata and the length of the contents are unrelated.
def err():
    return Agg('adt', None, 1, (T('ioerr'),))


def flen():
    return sym('flen')


def content(c, v):
    v = deepval(c, v)
    return '#file' if isinstance(v, T) and v.op == 'get' and v.args[0] == 'fname' and v.args[1] == sym('off_fname', 0) else '#other'


@model('std::fs::File::open')
def m_open(c):
    if not c.itp.io.get('open', True):
        return err()
    return ok(Agg('adt', None, 0, (ZERO, T(content(c, c.args[0])))))


@model('std::fs::read')
def m_fsread(c):
    if not (c.itp.io.get('open', True) and c.itp.io.get('read', True)):
        return err()
    return ok(Box('vec', Seq(flen(), (OpSeg(content(c, c.args[0]), flen()),), ())))


@model('std::fs::File::metadata', 'std::fs::metadata')
def m_metadata(c):
    return ok(T('meta')) if c.itp.io.get('meta', True) else err()


@model('std::fs::Metadata::len')
def m_metalen(c):
    return sym('mlen')


def filept(c):
    p = c.args[0]
    v = c.itp.rd(c.st, p)
    while isinstance(v, (Ptr, ConstRef)):
        p = v
        v = c.itp.rd(c.st, p)
    return p, v


@model('<std::fs::File as std::io::Read>::read_to_end', "<&std::fs::File as std::io::Read>::read_to_end")
def m_read_to_end(c):
    p, v = filept(c)
    pos, name = v.fs
    full = c.itp.io.get('read', True)
    n = flen() - pos if full else imin(sym('part'), flen() - pos)
    seg = Seq(flen(), (OpSeg(name.op, flen()),), ())
    cc = Ctx(c.itp, c.st, c.fr, c.bb, c.ref, [c.args[1]], c.atids, c.dtid)
    part = seq_sub(seg, pos, n, c.st.facts) if pos.m or not full else seg
    vmod(cc, lambda q: iters.append(q, plainws(part, c.st.facts)))
    c.itp.wr(c.st, p, Agg('adt', None, 0, (pos + n, name)))
    return ok(n) if full else err()


@model('<std::fs::File as std::io::Read>::read', '<&std::fs::File as std::io::Read>::read',
       '<std::fs::File as std::io::Read>::read_exact', 'std::io::Read::read_exact')
def m_read_some(c):
    p, v = filept(c)
    pos, name = v.fs
    exact = 'exact' in c.ref.get('path', '') or 'exact' in c.ref['decl']
    b = c.args[1]
    n = c.itp.slice_len(c.st, b)
    if not c.itp.io.get('read', True):
        return err()
    left = flen() - pos
    if exact:
        have = imin(n, left)
    else:
        have = imin(imin(n, left), sym('got'))      # any number of bytes up to what is there
    seg = Seq(flen(), (OpSeg(name.op, flen()),), ())
    copy_into(c, b, seq_sub(seg, pos, simp(have, c.st.facts), c.st.facts))
    c.itp.wr(c.st, p, Agg('adt', None, 0, (pos + have, name)))
    if exact:
        return mkG(ge0(left - n), ok(UNIT), err())
    return ok(simp(have, c.st.facts))


def targs(c):
    return [c.itp.T[x] for x in (c.ref.get('dargs') or c.ref['args']) if isinstance(x, int)]


@model('std::any::TypeId::of')
def m_typeid(c):
    return T('typeid', (targs(c)[0]['n'],))


def m_typeid_eq(neg):
    def f(c):
        a, b = (c.itp.rd(c.st, x) for x in c.args)
        if isinstance(a, T) and isinstance(b, T) and a.op == b.op == "typeid":
            return FALSE if (a.args == b.args) == neg else TRUE
        raise Undecided('type identity')
    return f


M['<std::any::TypeId as std::cmp::PartialEq>::eq'] = m_typeid_eq(False)
M['<std::any::TypeId as std::cmp::PartialEq>::ne'] = m_typeid_eq(True)

SIZES = {'u8': 1, 'i8': 1, 'bool': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'f32': 4, 'char': 4, 'u64': 8, 'i64': 8, 'f64': 8,
         'usize': 8, 'isize': 8, 'u128': 16, 'i128': 16}


def plain(t, T_):
    """no drop glue"""
    k = t['k']
    if k in ('int', 'uint', 'float', 'bool', 'char', 'ref', 'ptr'):
        return True
    if k == 'tuple':
        return all(plain(T_[x], T_) for x in t['ts'])
    return False


@model('std::mem::size_of', 'core::mem::size_of')
def m_size_of(c):
    t = targs(c)[0]
    if t['n'] in SIZES:
        return toP(SIZES[t['n']])
    if t['k'] == 'tuple' and not t['ts']:
        return ZERO
    if t.get('path', '').startswith('uf::'):
        # an element type: any size but zero
        return sym('sizeof_' + t['n'].split('::')[-1], 1)
    raise Undecided('size of ' + t['n'])


@model('std::mem::needs_drop', 'core::mem::needs_drop')
def m_needs_drop(c):
    t = targs(c)[0]
    if plain(t, c.itp.T):
        return FALSE
    if t.get('path', '').startswith('uf::') or t.get('path', '').startswith('std::vec'):
        return TRUE
    raise Undecided('drop glue of ' + t['n'])


def from_bytes(bits, signed, big):
    nb = bits // 8
    ty = ('i' if signed else 'u') + str(bits)

    def f(c):
        v = c.args[0]
        q = c.itp.as_seq(c.st, v)
        bs = [seq_get(q, toP(i), c.st.facts) for i in range(nb)]
        if big:
            bs.reverse()
        if all(isinstance(b, P) for b in bs):
            r = sum((b * 256 ** i for i, b in enumerate(bs)), ZERO)
            return r if not signed else wop('s_%d_cast' % bits, r)
        u = 'cast:u%d' % bits
        t = T(u, (bs[0],))
        for i, b in enumerate(bs[1:], 1):
            t = T('Add', (t, T('Mul', (toP(256 ** i), T(u, (b,))))))
        return T('cast:' + ty, (t,)) if signed else t
    return f


for _b in (16, 32):
    for _s, _t in ((False, 'u'), (True, 'i')):
        for _e, _big in (('le', False), ('be', True)):
            M['core::num::<impl %s%d>::from_%s_bytes' % (_t, _b, _e)] = from_bytes(_b, _s, _big)
