"""Abstract interpreter over MIR: every function body is evaluated once per
abstract call in a relational domain of polynomials over symbolic sizes; loops
are replaced by closed-form summaries (loops.py); both arms of a branch on an
unknown condition are evaluated and merged at the join point."""
import math
import struct
import sys
from terms import *
from prover import Facts, simp, gmerge, sdiv, smod
from seqs import *

sys.setrecursionlimit(20000)

TRANSPARENT = ('std::mem::MaybeUninit', 'std::mem::ManuallyDrop', 'std::ptr::NonNull', 'std::ptr::Unique',
               'core::mem::maybe_dangling::MaybeDangling', 'std::mem::MaybeDangling', 'std::cell::UnsafeCell')
UNIT = Agg('tuple', None, None, ())


def fexact(t):
    """the value of a constant float expression: a literal, or small whole numbers combined exactly"""
    if isinstance(t, T):
        if t.op == 'fc':
            return float(t.args[0])
        if t.op in ('Add', 'Sub', 'Mul') and len(t.args) == 2:
            x, y = fexact(t.args[0]), fexact(t.args[1])
            if x is not None and y is not None and abs(x) < 1 << 24 and abs(y) < 1 << 24 and x == int(x) and y == int(y):
                z = x + y if t.op == 'Add' else x - y if t.op == 'Sub' else x * y
                if abs(z) < 1 << 24:
                    return z
    return None


class Diverge(Exception):
    """the abstract path always ends in a panic / abort"""

    def __init__(self, why, loc):
        Exception.__init__(self, '%s at %s' % (why, loc))
        self.why = why
        self.loc = loc


class Req:
    """an obligation met on the way: cond must hold or the code panics/misbehaves"""
    __slots__ = ('kind', 'cond', 'facts', 'loc', 'fn')

    def __init__(self, kind, cond, facts, loc, fn):
        self.kind = kind
        self.cond = cond
        self.facts = facts
        self.loc = loc
        self.fn = fn

    def __repr__(self):
        return '%s: need %r at %s (%s)' % (self.kind, self.cond, self.loc, self.fn)


class St:
    __slots__ = ('mem', 'facts', 'unroll', 'loops')

    def __init__(self, mem, facts, unroll=(), loops=()):
        self.mem = mem
        self.facts = facts
        self.unroll = unroll
        self.loops = loops

    def copy(self):
        return St(dict(self.mem), self.facts, self.unroll, self.loops)

    def set(self, o):
        self.mem = o.mem
        self.facts = o.facts
        self.unroll = o.unroll
        self.loops = o.loops


class Frame:
    __slots__ = ('fn', 'fid', 'cfg', 'ctx', 'loc')

    def __init__(self, fn, fid, cfg):
        self.fn = fn
        self.fid = fid
        self.cfg = cfg
        self.ctx = []
        self.loc = fn.get('span')


class LoopCtx:
    __slots__ = ('loop', 'mode', 'stay', 'seen', 'outer')

    def __init__(self, loop, mode):
        self.loop = loop
        self.mode = mode
        self.stay = None
        self.seen = 0
        self.outer = frozenset()


class SymExit(Exception):
    def __init__(self, cond):
        self.cond = cond


# ------------------------------------------------------------------ CFG
class NLoop:
    __slots__ = ('head', 'body', 'exits')


class Cfg:
    def __init__(self, fn, noret):
        bl = fn['blocks']
        n = len(bl)
        succ = []
        for b in bl:
            t = b[1]
            if b[3]:
                succ.append([])
                continue
            k = t[0]
            if k == 'goto':
                s = [t[1]]
            elif k == 'switch':
                s = [x[1] for x in t[2]] + [t[3]]
            elif k == 'drop':
                s = [t[2]]
            elif k == 'call':
                s = [] if t[4 - 0] is None or noret(t[1]) else [t[4]]
            elif k == 'assert':
                s = [t[4]]
            else:
                s = []
            succ.append(s)
        # blocks that can reach a return
        ret = [i for i in range(n) if bl[i][1][0] == 'return' and not bl[i][3]]
        pred = [[] for _ in range(n)]
        for i, s in enumerate(succ):
            for x in s:
                if i not in pred[x]:
                    pred[x].append(i)
        can = set(ret)
        work = list(ret)
        while work:
            x = work.pop()
            for p in pred[x]:
                if p not in can:
                    can.add(p)
                    work.append(p)
        self.can = can
        self.succ = [[x for x in dict.fromkeys(s) if x in can] for s in succ]
        self.n = n
        # reachable
        seen = {0}
        work = [0]
        order = []

        def dfs(b):
            stack = [(b, iter(self.succ[b]))]
            while stack:
                x, it = stack[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y)
                        stack.append((y, iter(self.succ[y])))
                        break
                else:
                    order.append(x)
                    stack.pop()
        dfs(0)
        rpo = order[::-1]
        self.pred = [[] for _ in range(n)]
        for i in seen:
            for x in self.succ[i]:
                self.pred[x].append(i)
        self.idom = domtree(rpo, self.pred, 0)
        # post-dominators: virtual exit n
        rsucc = [list(self.pred[i]) for i in range(n)] + [[r for r in ret if r in seen]]
        rpred = [list(self.succ[i]) for i in range(n)] + [[]]
        for r in ret:
            rpred[r] = rpred[r] + [n]
        seen2 = {n}
        order2 = []
        stack = [(n, iter(rsucc[n]))]
        while stack:
            x, it = stack[-1]
            for y in it:
                if y not in seen2:
                    seen2.add(y)
                    stack.append((y, iter(rsucc[y])))
                    break
            else:
                order2.append(x)
                stack.pop()
        self.ipdom = domtree(order2[::-1], rpred, n)
        # natural loops
        self.loops = {}
        for b in seen:
            for h in self.succ[b]:
                if self.dominates(h, b):
                    lp = self.loops.get(h)
                    if lp is None:
                        lp = NLoop()
                        lp.head = h
                        lp.body = {h}
                        self.loops[h] = lp
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in lp.body:
                            lp.body.add(x)
                            work.extend(self.pred[x])
        for lp in self.loops.values():
            lp.exits = set()
            for b in lp.body:
                for x in self.succ[b]:
                    if x not in lp.body:
                        lp.exits.add(x)
        self._live = None
        self.fn = fn

    def dominates(self, a, b):
        while b is not None:
            if a == b:
                return True
            p = self.idom.get(b)
            if p == b:
                return False
            b = p
        return False

    def live(self, bb):
        if self._live is None:
            self._live = liveness(self.fn, self)
        return self._live[bb]


def domtree(rpo, pred, root):
    num = {b: i for i, b in enumerate(rpo)}
    idom = {root: root}
    ch = True
    while ch:
        ch = False
        for b in rpo:
            if b == root:
                continue
            new = None
            for p in pred[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if new is not None and idom.get(b) != new:
                idom[b] = new
                ch = True
    return idom


def liveness(fn, cfg):
    """live-in locals per block; address-taken locals are always live"""
    bl = fn['blocks']
    taken = set()
    use = []
    dfn = []

    def place(p, u, d, write=False):
        l, pr = p
        if write and not pr:
            if l not in u:
                d.add(l)
            return
        if l not in d:
            u.add(l)
        for x in pr:
            if isinstance(x, list) and x[0] == 'i' and x[1] not in d:
                u.add(x[1])

    def op(o, u, d):
        if o[0] in ('c', 'm'):
            place(o[1], u, d)

    def rv(r, u, d):
        k = r[0]
        if k == 'use':
            op(r[1], u, d)
        elif k == 'repeat':
            op(r[1], u, d)
        elif k in ('ref', 'raw'):
            p = r[2] if k == 'ref' else r[1]
            if not p[1] or p[1][0] != '*':
                taken.add(p[0])
            place(p, u, d)
        elif k == 'cast':
            op(r[2], u, d)
        elif k == 'bin':
            op(r[2], u, d)
            op(r[3], u, d)
        elif k == 'un':
            op(r[2], u, d)
        elif k == 'discr':
            place(r[1], u, d)
        elif k == 'agg':
            for o in r[2]:
                op(o, u, d)
    for b in bl:
        u, d = set(), set()
        for s in b[0]:
            if s[0] == '=':
                rv(s[2], u, d)
                place(s[1], u, d, True)
            elif s[0] == 'sd':
                place(s[1], u, d)
            elif s[0] == 'cno':
                for o in s[1:]:
                    op(o, u, d)
        t = b[1]
        if t[0] == 'switch':
            op(t[1], u, d)
        elif t[0] == 'call':
            if 'ptr' in t[1]:
                op(t[1]['ptr'], u, d)
            for o in t[2]:
                op(o, u, d)
            place(t[3], u, d, True)
        elif t[0] == 'assert':
            op(t[1], u, d)
        elif t[0] == 'return':
            u.add(0)
        use.append(u)
        dfn.append(d)
    n = len(bl)
    live = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for i in range(n - 1, -1, -1):
            out = set()
            for x in cfg.succ[i]:
                out |= live[x]
            new = use[i] | (out - dfn[i])
            if new != live[i]:
                live[i] = new
                ch = True
    return [s | taken for s in live]


# ------------------------------------------------------------------ program
class Prog:
    def __init__(self, d):
        self.types = d['types']
        self.fns = {f['id']: f for f in d['fns']}
        self.roots = d['roots']
        self.cfgs = {}
        for i, t in enumerate(self.types):
            t['id'] = i

    def cfg(self, fn):
        c = self.cfgs.get(fn['id'])
        if c is None:
            c = Cfg(fn, self.noret)
            self.cfgs[fn['id']] = c
        return c

    def noret(self, ref):
        return False


class Interp:
    MAXSTEPS = 400000

    def __init__(self, prog):
        self.p = prog
        self.T = prog.types
        self.alloclen = {}
        self.reqs = []
        self.quiet = 0
        self.steps = 0
        self.visited = set()
        self.ids = {}
        self.limit = self.MAXSTEPS
        self.deadline = None
        self.unmodelled = set()
        self.io = {}
        self.owned = {}       # heap root -> where its owner was built
        self.raws = {}        # heap cells taken out of their owner
        self.held = set()
        self.moved = []
        self.forgotten = []
        self.releasing = 0
        self.relunk = False
        self.notes = set()
        self.wins = {}
        self.inputs = {}      # storage of the argument tensors

    # -------------------------------------------------------- bookkeeping
    def intern(self, key, pre):
        r = self.ids.get(key)
        if r is None:
            r = '%s%d' % (pre, len(self.ids))
            self.ids[key] = r
        return r

    def tick(self):
        self.steps += 1
        if self.steps > self.limit:
            raise Undecided('step budget')
        if self.deadline is not None and self.steps % 256 == 0:
            import time
            if time.time() > self.deadline:
                raise Undecided('time budget')

    def require(self, st, cond, kind, fr):
        if self.quiet and kind in ('mem', 'memw'):
            return      # checked again for the generic iteration
        d = st.facts.decide(cond)
        if d is True:
            return
        if d is None:
            cond = simp(cond, st.facts)
            d = {'true': True, 'false': False}.get(cond.op)
            if d is True:
                return
        loc = fr.loc if fr else '?'
        if d is False:
            raise Diverge(kind, loc)
        if not self.quiet:
            self.reqs.append(Req(kind, cond, st.facts, loc, fr.fn['path'] if fr else '?'))
        st.facts = st.facts.add(cond)

    # -------------------------------------------------------- memory
    def mget(self, st, root):
        if root[0] == 'K':
            return root[1]
        v = st.mem.get(root)
        if v is not None:
            return v
        if root[0] == 'H' and root[2]:
            for r, v in st.mem.items():
                if r[0] == 'H' and r[1] == root[1] and len(r[2]) == len(root[2]):
                    env = {}
                    ok = True
                    for a, b in zip(r[2], root[2]):
                        at = as_atom(a)
                        if a == b:
                            continue
                        if at is None:
                            ok = False
                            break
                        env[at] = b
                    if ok:
                        return subst(v, env)
        raise Undecided('uninitialised %r' % (root,))

    def load(self, st, root, path):
        v = self.mget(st, root)
        for s in path:
            v = self.proj(st, v, s)
        return v

    def proj(self, st, v, s):
        if isinstance(v, G):
            d = st.facts.decide(v.c)
            if d is True:
                return self.proj(st, v.a, s)
            if d is False:
                return self.proj(st, v.b, s)
            a = self.proj(st, v.a, s)
            b = self.proj(st, v.b, s)
            if isinstance(a, Unk) and a.why == 'variant':
                return b
            if isinstance(b, Unk) and b.why == 'variant':
                return a
            return self.vmerge(v.c, a, b, st.facts)
        k = s[0]
        if k == 'f':
            if isinstance(v, Agg):
                if s[1] < len(v.fs):
                    return v.fs[s[1]]
                raise Undecided('field %r of %r' % (s, v))
            if isinstance(v, T):
                return T('fld', (s[1], v))
            if isinstance(v, Unk):
                return v
        elif k == 'v':
            if isinstance(v, Agg):
                if v.var == s[1]:
                    return v
                return Unk('variant')
            if isinstance(v, T):
                return T('as', (s[1], v))
            if isinstance(v, Unk):
                return v
        elif k == 'i':
            if isinstance(v, Seq):
                return seq_get(v, s[1], st.facts)
            if isinstance(v, Agg) and v.kind == 'array':
                i = simp(s[1], st.facts)
                if i.is_const():
                    if 0 <= i.const() < len(v.fs):
                        return v.fs[i.const()]
                    raise Undecided('constant index out of array')
                r = v.fs[-1]
                for j in range(len(v.fs) - 2, -1, -1):
                    r = self.vmerge(eq(i, toP(j)), v.fs[j], r, st.facts)
                return r
            if isinstance(v, T):
                return T('idx', (v, s[1]))
        elif k == 'b':
            if isinstance(v, Box):
                return v.v
            if isinstance(v, Unk):
                return v
        raise Undecided('projection %r of %s' % (s, str(v)[:80]))

    def store(self, st, root, path, v):
        if root[0] == 'K':
            raise Undecided('store to constant')
        if not path:
            st.mem[root] = v
            return
        old = st.mem.get(root)
        if old is None:
            if root[0] == 'H' and root[2]:
                raise Undecided('store into a family of allocations')
            old = Unk('uninit')
        st.mem[root] = self.upd(st, old, path, v)

    def upd(self, st, old, path, v):
        if not path:
            return v
        s = path[0]
        rest = path[1:]
        if isinstance(old, G):
            d = st.facts.decide(old.c)
            if d is True:
                return self.upd(st, old.a, path, v)
            if d is False:
                return self.upd(st, old.b, path, v)
            if s[0] == 'v':
                if isinstance(old.a, Agg) and old.a.var != s[1]:
                    return G(old.c, old.a, self.upd(st, old.b, path, v))
                if isinstance(old.b, Agg) and old.b.var != s[1]:
                    return G(old.c, self.upd(st, old.a, path, v), old.b)
            return self.vmerge(old.c, self.upd(st, old.a, path, v), self.upd(st, old.b, path, v), st.facts)
        k = s[0]
        if k == 'v':
            if isinstance(old, Unk):
                old = Agg('adt', None, s[1], ())
            return self.upd(st, old, rest, v)
        if k == 'f':
            if isinstance(old, Unk):
                old = Agg('adt', None, 0, ())
            if isinstance(old, Agg):
                fs = list(old.fs)
                while len(fs) <= s[1]:
                    fs.append(Unk('uninit'))
                fs[s[1]] = self.upd(st, fs[s[1]], rest, v)
                return Agg(old.kind, old.tid, old.var, tuple(fs))
        if k == 'b' and isinstance(old, Box):
            return Box(old.kind, self.upd(st, old.v, rest, v))
        if k == 'i':
            i = simp(s[1], st.facts)
            if isinstance(old, Agg) and old.kind == 'array':
                fs = list(old.fs)
                if i.is_const():
                    if not 0 <= i.const() < len(fs):
                        raise Undecided('array store out of range')
                    fs[i.const()] = self.upd(st, fs[i.const()], rest, v)
                else:
                    for j in range(len(fs)):
                        fs[j] = self.vmerge(eq(i, toP(j)), self.upd(st, fs[j], rest, v), fs[j], st.facts)
                return Agg(old.kind, old.tid, old.var, tuple(fs))
            if isinstance(old, Seq):
                if rest:
                    v = self.upd(st, seq_get(old, i, st.facts), rest, v)
                it = plain_items(old)
                if it is not None and i.is_const() and 0 <= i.const() < len(it):
                    segs = list(old.segs)
                    segs[i.const()] = Item(v)
                    return Seq(old.len, tuple(segs), ())
                return Seq(old.len, old.segs, old.ws + (W((), TRUE, i, v),))
        raise Undecided('update %r of %s' % (s, str(old)[:80]))

    # -------------------------------------------------------- merging
    def vmerge(self, c, a, b, f):
        if a is b or a == b:
            return a
        if c.op == 'true':
            return a
        if c.op == 'false':
            return b
        if isinstance(a, P) and isinstance(b, P):
            return gmerge(c, a, b, f)
        if isinstance(a, B) and isinstance(b, B):
            return bite(c, a, b)
        if isinstance(a, Unk):
            return a if isinstance(b, Unk) else (b if a.why == 'dead' else G(c, a, b))
        if isinstance(b, Unk) and b.why == 'dead':
            return a
        if isinstance(a, Agg) and isinstance(b, Agg) and a.kind == b.kind and a.var == b.var and len(a.fs) == len(b.fs) \
                and (a.kind not in ('closure', 'fn') or a.tid == b.tid):
            return Agg(a.kind, a.tid, a.var, tuple(self.vmerge(c, x, y, f) for x, y in zip(a.fs, b.fs)))
        if isinstance(a, Box) and isinstance(b, Box) and a.kind == b.kind:
            return Box(a.kind, self.vmerge(c, a.v, b.v, f))
        if isinstance(a, Iter) and isinstance(b, Iter) and a.kind == b.kind:
            x = self.tmerge(c, a.a, b.a, f)
            if x is not None:
                return Iter(a.kind, x, self.vmerge(c, a.front, b.front, f), self.vmerge(c, a.back, b.back, f))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.root == b.root and len(a.path) == len(b.path) \
                and (a.n is None) == (b.n is None):
            path = []
            for x, y in zip(a.path, b.path):
                if x == y:
                    path.append(x)
                elif x[0] == 'i' and y[0] == 'i':
                    path.append(('i', self.vmerge(c, x[1], y[1], f)))
                else:
                    break
            else:
                return Ptr(a.root, tuple(path), None if a.n is None else self.vmerge(c, a.n, b.n, f))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            # a dangling pointer stands for an allocation of no elements
            for x, y, cc in ((a, b, c), (b, a, bnot(c))):
                if x.root[0] == 'D' and y.root in self.alloclen and f.add(cc).decide(eq(self.alloclen[y.root], ZERO)) is True:
                    return y
        if isinstance(a, Seq) and isinstance(b, Seq):
            return self.smerge(c, a, b, f)
        if isinstance(a, (T, G)) and isinstance(b, (T, G)):
            return gmerge(c, a, b, f)
        return mkG(c, a, b)

    def tmerge(self, c, a, b, f):
        if not isinstance(a, tuple) or not isinstance(b, tuple) or len(a) != len(b):
            return None
        out = []
        for x, y in zip(a, b):
            if x == y:
                out.append(x)
            elif isinstance(x, tuple) or isinstance(x, (str, int)) or x is None or y is None:
                return None
            else:
                out.append(self.vmerge(c, x, y, f))
        return tuple(out)

    def smerge(self, c, a, b, f):
        ia, ib = plain_items(a), plain_items(b)
        if ia is not None and ib is not None and len(ia) == len(ib):
            return seq_items([self.vmerge(c, x, y, f) for x, y in zip(ia, ib)])
        n = 0
        while n < len(a.segs) and n < len(b.segs) and a.segs[n] == b.segs[n]:
            n += 1
        m = 0
        while m < len(a.ws) and m < len(b.ws) and a.ws[m] == b.ws[m]:
            m += 1
        segs = a.segs[:n]
        ra, rb = a.segs[n:], b.segs[n:]
        if ra or rb:
            segs = segs + (mkIf(c, ra, rb),)
        ws = a.ws[:m]
        for w in a.ws[m:]:
            ws = ws + (W(w.loops, band(c, w.cond), w.idx, w.v),)
        for w in b.ws[m:]:
            ws = ws + (W(w.loops, band(bnot(c), w.cond), w.idx, w.v),)
        return Seq(self.vmerge(c, a.len, b.len, f), segs, ws)

    def merge_states(self, c, s1, s2, base, f):
        """s1 under c, s2 under not c; base: roots that existed before"""
        mem = {}
        for r in s1.mem:
            a = s1.mem[r]
            if r in s2.mem:
                b = s2.mem[r]
                mem[r] = a if a is b else self.vmerge(c, a, b, f)
            else:
                mem[r] = a
        for r in s2.mem:
            if r not in s1.mem:
                mem[r] = s2.mem[r]
        return mem

    # -------------------------------------------------------- types / places
    def pointee(self, tid):
        t = self.T[tid]
        if t['k'] in ('ref', 'ptr'):
            return t['t']
        if t['k'] == 'struct' and t.get('path') == 'std::boxed::Box':
            return t['args'][0]
        return None

    def ptype(self, fr, place):
        tid = fr.fn['locals'][place[0]]
        for pr in place[1]:
            if pr == '*':
                tid = self.pointee(tid)
            elif pr[0] == 'f':
                tid = pr[2]
            elif pr[0] in ('i', 'ci'):
                tid = self.T[tid]['t'] if tid is not None else None
            elif pr[0] == 'dc':
                pass
            if tid is None:
                return None
        return tid

    def otype(self, fr, op):
        if op[0] in ('c', 'm'):
            return self.ptype(fr, op[1])
        if op[0] == 'k':
            return op[1].get('t')
        return None

    def transparent(self, tid):
        if tid is None:
            return False
        t = self.T[tid]
        return t['k'] in ('struct', 'union') and t.get('path') in TRANSPARENT

    def lval(self, st, fr, place):
        """-> ('lv', root, path, n) or ('alt', c, lv, lv)"""
        root = ('L', fr.fid, place[0])
        lv = ('lv', root, (), None)
        tid = fr.fn['locals'][place[0]]
        for pr in place[1]:
            if pr == '*':
                v = self.lload(st, lv)
                lv = self.deref(st, v)
                tid = self.pointee(tid) if tid is not None else None
            elif pr[0] == 'f':
                if not self.transparent(tid):
                    lv = self.lstep(lv, ('f', pr[1]))
                tid = pr[2]
            elif pr[0] == 'dc':
                lv = self.lstep(lv, ('v', pr[1]))
            elif pr[0] == 'i':
                i = st.mem[('L', fr.fid, pr[1])]
                lv = self.lindex(st, lv, i)
                tid = self.T[tid].get('t') if tid is not None else None
            elif pr[0] == 'ci':
                lv = self.lcindex(st, lv, pr[1], pr[3])
                tid = self.T[tid].get('t') if tid is not None else None
            elif pr[0] == 'sub':
                lv = self.lsub(st, lv, pr[1], pr[2], pr[3])
            else:
                raise Undecided('projection %r' % (pr,))
        return lv

    def lstep(self, lv, s):
        if lv[0] == 'alt':
            return ('alt', lv[1], self.lstep(lv[2], s), self.lstep(lv[3], s))
        return ('lv', lv[1], lv[2] + (s,), None)

    def lindex(self, st, lv, i):
        if lv[0] == 'alt':
            return ('alt', lv[1], self.lindex(st, lv[2], i), self.lindex(st, lv[3], i))
        if lv[3] is not None:
            p = lv[2]
            return ('lv', lv[1], p[:-1] + (('i', p[-1][1] + i),), None)
        return ('lv', lv[1], lv[2] + (('i', toP(i)),), None)

    def lcindex(self, st, lv, off, fromend):
        if lv[0] == 'alt':
            return ('alt', lv[1], self.lcindex(st, lv[2], off, fromend), self.lcindex(st, lv[3], off, fromend))
        if fromend:
            n = lv[3]
            if n is None:
                n = toP(len(self.lload(st, lv).fs))
            return self.lindex(st, lv, n - off)
        return self.lindex(st, lv, toP(off))

    def lsub(self, st, lv, a, b, fromend):
        if lv[0] == 'alt':
            raise Undecided('subslice of alternative')
        if lv[3] is None:
            raise Undecided('array subpattern')
        p = lv[2]
        n = lv[3] - a - b if fromend else toP(b - a)
        return ('lv', lv[1], p[:-1] + (('i', p[-1][1] + a),), n)

    def deref(self, st, v):
        if isinstance(v, Ptr):
            return ('lv', v.root, v.path, v.n)
        if isinstance(v, ConstRef):
            x = v.v
            if isinstance(x, Agg) and x.kind == 'str':
                return ('lv', ('K', x), (), None)
            return ('lv', ('K', x), (), None)
        if isinstance(v, G):
            d = st.facts.decide(v.c)
            if d is True:
                return self.deref(st, v.a)
            if d is False:
                return self.deref(st, v.b)
            return ('alt', v.c, self.deref(st, v.a), self.deref(st, v.b))
        if isinstance(v, Box) and v.kind == 'box':
            return ('lv', ('K', v), (('b',),), None)
        if isinstance(v, T):
            return ('lv', ('K', T('*', (v,))), (), None)
        raise Undecided('deref of %s' % (str(v)[:80],))

    def lload(self, st, lv):
        if lv[0] == 'alt':
            return self.vmerge(lv[1], self.lload(st, lv[2]), self.lload(st, lv[3]), st.facts)
        return self.load(st, lv[1], lv[2])

    def lstore(self, st, lv, v):
        if lv[0] == 'alt':
            s1 = st.copy()
            self.lstore(s1, lv[2], v)
            s2 = st.copy()
            self.lstore(s2, lv[3], v)
            st.mem = self.merge_states(lv[1], s1, s2, st, st.facts)
            return
        self.store(st, lv[1], lv[2], v)

    def lref(self, st, lv):
        if lv[0] == 'alt':
            return self.vmerge(lv[1], self.lref(st, lv[2]), self.lref(st, lv[3]), st.facts)
        if lv[1][0] == 'K' and not lv[2] and lv[3] is None:
            return ConstRef(lv[1][1])
        return Ptr(lv[1], lv[2], lv[3])

    # helpers for models -------------------------------------------------
    def rd(self, st, p):
        """value behind a reference"""
        return self.lload(st, self.deref(st, p))

    def rd_deep(self, st, p):
        while isinstance(p, (Ptr, ConstRef)):
            if isinstance(p, Ptr) and p.n is not None:
                return self.slice_seq(st, p)
            p = self.rd(st, p)
        return p

    def wr(self, st, p, v):
        self.lstore(st, self.deref(st, p), v)

    def as_seq(self, st, v):
        """container value -> Seq"""
        if isinstance(v, Box):
            v = v.v
        if isinstance(v, Seq):
            return v
        if isinstance(v, Agg) and v.kind == 'array':
            return seq_items(v.fs)
        if isinstance(v, G):
            return self.smerge(v.c, self.as_seq(st, v.a), self.as_seq(st, v.b), st.facts)
        raise Undecided('not a sequence: %s' % (str(v)[:60],))

    def slice_parts(self, st, p):
        """slice pointer -> (Seq of the whole cell, offset, n)"""
        if isinstance(p, Ptr):
            if p.n is None:
                v = self.load(st, p.root, p.path)
                s = self.as_seq(st, v)
                return s, ZERO, s.len
            base = self.load(st, p.root, p.path[:-1])
            return self.as_seq(st, base), p.path[-1][1], p.n
        if isinstance(p, ConstRef):
            s = self.as_seq(st, p.v)
            return s, ZERO, s.len
        raise Undecided('slice pointer %s' % (str(p)[:60],))

    def slice_seq(self, st, p):
        if isinstance(p, G):
            d = st.facts.decide(p.c)
            if d is not None:
                return self.slice_seq(st, p.a if d else p.b)
            return self.smerge(p.c, self.slice_seq(st, p.a), self.slice_seq(st, p.b), st.facts)
        s, o, n = self.slice_parts(st, p)
        return seq_sub(s, o, n, st.facts)

    def slice_len(self, st, p):
        if isinstance(p, G):
            d = st.facts.decide(p.c)
            if d is not None:
                return self.slice_len(st, p.a if d else p.b)
            return self.vmerge(p.c, self.slice_len(st, p.a), self.slice_len(st, p.b), st.facts)
        if isinstance(p, Ptr) and p.n is not None:
            return p.n
        return self.slice_parts(st, p)[2]

    def elem_ptr(self, st, p, i):
        """pointer to element i of slice pointer p"""
        if isinstance(p, G):
            d = st.facts.decide(p.c)
            if d is not None:
                return self.elem_ptr(st, p.a if d else p.b, i)
            return self.vmerge(p.c, self.elem_ptr(st, p.a, i), self.elem_ptr(st, p.b, i), st.facts)
        if isinstance(p, ConstRef):
            return Ptr(('K', p.v), (('i', toP(i)),), None)
        if p.n is not None:
            return Ptr(p.root, p.path[:-1] + (('i', p.path[-1][1] + i),), None)
        return Ptr(p.root, p.path + (('i', toP(i)),), None)

    def sub_ptr(self, st, p, off, n):
        if isinstance(p, G):
            return self.vmerge(p.c, self.sub_ptr(st, p.a, off, n), self.sub_ptr(st, p.b, off, n), st.facts)
        q = self.elem_ptr(st, p, off)
        return Ptr(q.root, q.path, simp(toP(n), st.facts))

    def vec_slice_ptr(self, st, p):
        """&Vec -> slice pointer to its elements"""
        if isinstance(p, G):
            d = st.facts.decide(p.c)
            if d is not None:
                return self.vec_slice_ptr(st, p.a if d else p.b)
            return self.vmerge(p.c, self.vec_slice_ptr(st, p.a), self.vec_slice_ptr(st, p.b), st.facts)
        v = self.rd(st, p)
        if isinstance(v, G):
            # vectors of different shape: fall back to a merged value
            s = self.as_seq(st, v)
            return Ptr(('K', s), (('i', ZERO),), s.len)
        if isinstance(p, ConstRef):
            return Ptr(('K', p.v), (('b',), ('i', ZERO)), v.v.len)
        return Ptr(p.root, p.path + (('b',), ('i', ZERO)), v.v.len)

    # -------------------------------------------------------- constants
    def const(self, c):
        k = c['k']
        if k == 'int':
            t = self.T[c['t']] if c.get('t') is not None else {'k': 'uint'}
            v = int(c['v'])
            if t['k'] == 'bool':
                return TRUE if v else FALSE
            if t['k'] == 'float':
                sz = c['sz']
                if sz == 4:
                    x = struct.unpack('<f', struct.pack('<I', v))[0]
                else:
                    x = struct.unpack('<d', struct.pack('<Q', v))[0]
                return T('fc', (repr(x),))
            if t['k'] == 'int':
                bits = c['sz'] * 8
                if v >> (bits - 1):
                    v -= 1 << bits
                return toP(v)
            if t['k'] in ('uint', 'char'):
                return toP(v)
            if t['k'] == 'enum':
                for i, dv in enumerate(t['discr']):
                    if int(dv) & ((1 << (8 * c['sz'])) - 1) == v:
                        return Agg('adt', c['t'], i, ())
            return toP(v)
        if k == 'zst':
            t = self.T[c['t']]
            if t['k'] == 'tuple':
                return UNIT
            if t['k'] in ('fndef', 'closure'):
                return Agg('closure' if t['k'] == 'closure' else 'fn', c['t'], None, ())
            if t['k'] == 'array':
                return Agg('array', c['t'], None, ())
            return Agg('adt', c['t'], 0, ())
        if k == 'fn':
            return Agg('fn', c['t'], None, ())
        if k == 'fnptr':
            return Agg('fnptr', None, None, (c.get('f'),)) if not isinstance(c.get('f'), dict) else Agg('fnptr', None, c['f'].get('inst'), ())
        if k == 'ref':
            return ConstRef(self.const(c['v']))
        if k == 'str':
            return ConstRef(Agg('str', None, None, (c.get('v', ''),)))
        if k == 'array':
            return Agg('array', c.get('t'), None, tuple(self.const(x) for x in c['xs']))
        if k == 'tuple':
            return Agg('tuple', c.get('t'), None, tuple(self.const(x) for x in c['xs']))
        if k == 'adt':
            xs = tuple(self.const(x) for x in c['xs'])
            if self.transparent(c.get('t')):
                return xs[0]
            return Agg('adt', c.get('t'), c.get('var', 0), xs)
        return Unk('const')

    def operand(self, st, fr, o):
        if o[0] == 'k':
            return self.const(o[1])
        if o[0] in ('c', 'm'):
            p = o[1]
            if not p[1]:
                v = st.mem.get(('L', fr.fid, p[0]))
                if v is None:
                    raise Undecided('read of uninitialised local _%d in %s' % (p[0], fr.fn['path']))
                return v
            lv = self.lval(st, fr, p)
            self.check_raw(st, fr, p, lv)
            return self.lload(st, lv)
        return FALSE    # runtime checks (ub, overflow, contract) are off

    def check_raw(self, st, fr, place, lv, what='mem'):
        """an access through a dereferenced pointer must stay inside its cell"""
        if lv[0] == 'alt':
            s1 = st.facts
            self.check_raw1(st, fr, lv)
            return
        if '*' in place[1]:
            self.check_lv(st, fr, lv, what)

    def check_raw1(self, st, fr, lv):
        return

    def check_lv(self, st, fr, lv, what='mem'):
        root, path = lv[1], lv[2]
        if not path or path[-1][0] != 'i':
            return
        if root[0] == 'H':
            base = self.load(st, root, path[:-1])
            if isinstance(base, Seq):
                i = path[-1][1]
                self.require(st, ge0(i), what, fr)
                self.require(st, lt(i, base.len), what, fr)

    # -------------------------------------------------------- rvalues
    def rvalue(self, st, fr, r, desttid):
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k == 'ref' or k == 'raw':
            p = r[2] if k == 'ref' else r[1]
            return self.lref(st, self.lval(st, fr, p))
        if k == 'bin':
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            return self.binop(st, fr, r[1], a, b, self.otype(fr, r[2]))
        if k == 'agg':
            ops = tuple(self.operand(st, fr, o) for o in r[2])
            ak = r[1]
            if ak[0] == 'tuple':
                return Agg('tuple', None, None, ops)
            if ak[0] == 'array':
                return Agg('array', None, None, ops)
            if ak[0] == 'closure':
                return Agg('closure', ak[1], None, ops)
            if ak[0] == 'adt':
                if self.transparent(ak[1]):
                    return ops[0]
                v = Agg('adt', ak[1], ak[2], ops)
                if 'drop' in self.T[ak[1]]:
                    own.built(self, st, fr, ak[1], v)
                return v
            if ak[0] == 'rawptr':
                return self.mk_fat(st, ops[0], ops[1])
            raise Undecided('aggregate %r' % (ak,))
        if k == 'cast':
            return self.cast(st, fr, r)
        if k == 'un':
            a = self.operand(st, fr, r[2])
            if r[1] == 'Not':
                if isinstance(a, (B,)):
                    return bnot(a)
                if isinstance(a, P):
                    t = self.T[self.otype(fr, r[2])]
                    if t['k'] == 'bool':
                        return bnot(toB(a))
                    return wop('%s_%d_not' % self.bits(t), a)
                if isinstance(a, T):
                    t = self.T[self.otype(fr, r[2])]
                    return T('Not', (a,))
            if r[1] == 'Neg':
                if isinstance(a, P):
                    return -a
                return T('Neg', (a,))
            if r[1] == 'PtrMetadata':
                return self.slice_len(st, a)
            raise Undecided('unary %s' % r[1])
        if k == 'discr':
            lv = self.lval(st, fr, r[1])
            v = self.lload(st, lv)
            return self.discr(st, v, self.ptype(fr, r[1]))
        if k == 'repeat':
            a = self.operand(st, fr, r[1])
            if r[2] is None or r[2] > 4096:
                raise Undecided('repeat')
            return Agg('array', None, None, (a,) * r[2])
        raise Undecided('rvalue %s' % k)

    def mk_fat(self, st, p, n):
        if isinstance(n, Agg) and not n.fs:
            return p
        if isinstance(p, G):
            return self.vmerge(p.c, self.mk_fat(st, p.a, n), self.mk_fat(st, p.b, n), st.facts)
        if isinstance(p, ConstRef):
            p = Ptr(('K', p.v), (), None)
        if not isinstance(p, Ptr):
            raise Undecided('fat pointer from %s' % (str(p)[:40],))
        if not p.path or p.path[-1][0] != 'i':
            # pointer to a single place used as a slice
            return Ptr(p.root, p.path, toP(n)) if False else self._single(p, n)
        return Ptr(p.root, p.path, toP(n))

    def _single(self, p, n):
        raise Undecided('slice over a single place')

    def discr(self, st, v, tid):
        if isinstance(v, G):
            d = st.facts.decide(v.c)
            if d is not None:
                return self.discr(st, v.a if d else v.b, tid)
            return ite(v.c, self.discr(st, v.a, tid), self.discr(st, v.b, tid))
        if isinstance(v, Agg):
            t = self.T[tid] if tid is not None else None
            if t is not None and t['k'] == 'enum':
                if t.get('path') == 'std::cmp::Ordering':
                    return toP(v.var - 1)
                return toP(int(t['discr'][v.var]))
            return toP(v.var or 0)
        if isinstance(v, T):
            return atomP(Atom('discr', (v,)))
        raise Undecided('discriminant of %s' % (str(v)[:60],))

    def bits(self, t):
        n = t['n']
        sg = 's' if t['k'] == 'int' else 'u'
        m = {'usize': 64, 'isize': 64}.get(n)
        if m is None:
            m = 8 if n == 'bool' else 32 if n == 'char' else int(''.join(ch for ch in n if ch.isdigit()) or 64)
        return sg, m

    def binop(self, st, fr, op, a, b, tid):
        t = self.T[tid] if tid is not None else {'k': 'uint', 'n': 'usize'}
        if isinstance(a, Unk) or isinstance(b, Unk):
            raise Undecided('operation on unknown (%s)' % (a.why if isinstance(a, Unk) else b.why))
        if isinstance(a, G) or isinstance(b, G):
            if t['k'] not in ('float',) and not isinstance(a, T) and not isinstance(b, T):
                g = a if isinstance(a, G) else b
                d = st.facts.decide(g.c)
                if d is not None:
                    a2 = (a.a if d else a.b) if a is g else a
                    b2 = (b.a if d else b.b) if b is g else b
                    return self.binop(st, fr, op, a2, b2, tid)
        if t['k'] in ('ptr', 'ref'):
            if op == 'Offset' and isinstance(a, (Ptr, G)):
                return self.ptr_add(st, a, b)
            if op in ('Eq', 'Ne'):
                c = B('ptreq', (a, b)) if a != b else TRUE
                return c if op == 'Eq' else bnot(c)
            raise Undecided('pointer %s' % op)
        if t['k'] == 'bool' and not (isinstance(a, T) or isinstance(b, T)) or (isinstance(a, B) and isinstance(b, B)):
            a, b = toB(a), toB(b)
            if op in ('BitAnd',):
                return band(a, b)
            if op == 'BitOr':
                return bor(a, b)
            if op in ('Eq', 'Ne', 'BitXor'):
                e = bite(a, b, bnot(b))
                return e if op == 'Eq' else bnot(e)
        if t['k'] == 'float' or isinstance(a, (T, G)) or isinstance(b, (T, G)):
            return self.tbin(op, a, b)
        if isinstance(a, P) and isinstance(b, P):
            base = op.replace('Unchecked', '')
            if base == 'Add':
                return a + b
            if base == 'Sub':
                if t['k'] == 'uint':
                    self.require(st, ge0(a - b), 'underflow', fr)
                return a - b
            if base == 'Mul':
                return a * b
            if base == 'Div':
                return simp(sdiv(a, b, st.facts), st.facts) if not (a.is_const() and b.is_const()) else idiv(a, b)
            if base == 'Rem':
                return simp(smod(a, b, st.facts), st.facts) if not (a.is_const() and b.is_const()) else imod(a, b)
            if op == 'Lt':
                return lt(a, b)
            if op == 'Le':
                return le(a, b)
            if op == 'Gt':
                return lt(b, a)
            if op == 'Ge':
                return le(b, a)
            if op == 'Eq':
                return eq(a, b)
            if op == 'Ne':
                return bnot(eq(a, b))
            if op == 'Cmp':
                less, same, more = (Agg('adt', None, i, ()) for i in range(3))
                return mkG(simp(lt(a, b), st.facts), less, mkG(simp(eq(a, b), st.facts), same, more))
            if t['k'] == 'uint' and base in ('Shl', 'BitOr', 'BitAnd'):
                r = self.bitarith(st, base, a, b, self.bits(t)[1])
                if r is not None:
                    return r
            nm = {'BitXor': 'xor', 'BitAnd': 'and', 'BitOr': 'or', 'Shl': 'shl', 'Shr': 'shr'}.get(base)
            if nm:
                return wop('%s_%d_%s' % (self.bits(t) + (nm,)), a, b)
        if op in ('Eq', 'Ne') and isinstance(a, Ptr) and isinstance(b, Ptr):
            import models
            r = models.same_alloc(self, st, a, b)
            return r if op == 'Eq' else bnot(r)
        raise Undecided('binary %s on %s, %s' % (op, str(a)[:40], str(b)[:40]))

    def bitarith(self, st, op, a, b, bits):
        """unsigned bit operations that are plain arithmetic"""
        f = st.facts
        if op == 'Shl' and b.is_const() and 0 <= b.const() < bits:
            r = a * (1 << b.const())
            if f.prove_ge(a) and f.prove_ge(toP((1 << bits) - 1) - r):
                return r
        if op == 'BitOr':
            for x, y in ((a, b), (b, a)):
                if x.is_const() and x.const() == 0:
                    return y
                g = 0
                for cf in y.m.values():
                    g = math.gcd(g, abs(cf))
                k = g & -g
                if k > 1 and f.prove_ge(x) and f.prove_ge(y) and f.prove_ge(toP(k - 1) - x):
                    return x + y
        if op == 'BitAnd':
            for x, y in ((a, b), (b, a)):
                if y.is_const() and y.const() > 0 and y.const() & (y.const() + 1) == 0 and f.prove_ge(x):
                    return simp(smod(x, toP(y.const() + 1), f), f)
        return None

    def tbin(self, op, a, b):
        if op in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
            x, y = fexact(a), fexact(b)
            if x is not None and y is not None:
                return TRUE if {'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y, 'Eq': x == y, 'Ne': x != y}[op] else FALSE
            if op == 'Gt':
                return B('flt', (b, a))
            if op == 'Ge':
                return B('fle', (b, a))
            if op == 'Ne':
                return bnot(B('feq', (a, b)))
            return B('f' + op.lower(), (a, b))
        if op.endswith('WithOverflow'):
            # elements which overflow are outside the assumptions
            return Agg('tuple', None, 0, (T(op[:-12], (a, b)), FALSE))
        if op.endswith('Unchecked'):
            op = op[:-9]
        return T(op, (a, b))

    def ptr_add(self, st, p, n):
        if isinstance(p, G):
            return self.vmerge(p.c, self.ptr_add(st, p.a, n), self.ptr_add(st, p.b, n), st.facts)
        if isinstance(n, Unk):
            raise Undecided('pointer offset unknown')
        if isinstance(p, Ptr) and p.path and p.path[-1][0] == 'i':
            return Ptr(p.root, p.path[:-1] + (('i', p.path[-1][1] + n),), p.n)
        if isinstance(n, P) and not n.m:
            return p
        raise Undecided('pointer arithmetic on %s' % (str(p)[:60],))

    INTS = {'usize': (0, 64), 'u64': (0, 64), 'u32': (0, 32), 'u16': (0, 16), 'u8': (0, 8), 'u128': (0, 128),
            'isize': (1, 64), 'i64': (1, 64), 'i32': (1, 32), 'i16': (1, 16), 'i8': (1, 8), 'i128': (1, 128), 'char': (0, 32)}

    def cast(self, st, fr, r):
        kind = r[1]
        if kind == 'BoxDerefTransmute':
            p = r[2][1]
            lv = self.lval(st, fr, [p[0], p[1][:-1]])
            return self.lref(st, self.lstep(lv, ('b',)))
        a = self.operand(st, fr, r[2])
        tt = self.T[r[3]]
        src = self.otype(fr, r[2])
        ts = self.T[src] if src is not None else None
        if isinstance(a, Unk):
            return a
        if kind == 'IntToInt':
            if ts['k'] == 'bool' or isinstance(a, B):
                a = ite(toB(a), ONE, ZERO)
            if isinstance(a, T):
                return T('cast:' + tt['n'], (a,))
            if isinstance(a, Agg):
                a = self.discr(st, a, src)
            return self.int_cast(st, fr, a, ts['n'] if ts else '?', tt['n'])
        if kind in ('IntToFloat', 'FloatToInt', 'FloatToFloat'):
            if isinstance(a, B):
                a = ite(a, ONE, ZERO)
            if kind == 'FloatToInt':
                return atomP(mk_atom('f2i', (tt['n'], a), 0 if tt['k'] == 'uint' else None))
            if kind == 'FloatToFloat' and ts['n'] == tt['n']:
                return a
            if isinstance(a, P) and a.is_const() and kind == 'IntToFloat' and abs(a.const()) < 2 ** 24:
                return T('fc', (repr(float(a.const())),))
            if kind == 'FloatToFloat' and isinstance(a, T) and a.op == 'fc' and tt['n'] == 'f64':
                return a
            return T('cast:' + tt['n'], (a,))
        if kind in ('coerce:Unsize', 'coerce:Unsize(Implicit)') or kind.startswith('coerce:Unsize'):
            return self.unsize(st, a, src, r[3])
        if kind.startswith('coerce:ReifyFnPointer') or kind.startswith('coerce:ClosureFnPointer') or kind.startswith('coerce:MutToConst'):
            return a
        if kind.startswith('coerce:ArrayToPointer'):
            return self.unsize(st, a, src, r[3], thin=True)
        if kind == 'PtrToPtr':
            return self.ptr_cast(st, a, src, r[3])
        if kind == 'Transmute':
            if isinstance(a, (Ptr, ConstRef, G, Box)):
                return a
            if ts is not None and tt['k'] == ts['k'] and tt['n'] == ts['n']:
                return a
            if ts is not None and tt['k'] in ('float', 'int', 'uint') and isinstance(a, (P, T)):
                if tt['k'] == 'float':
                    return T('bits:' + tt['n'], (a,))
                if isinstance(a, T):
                    return atomP(Atom('bits', (tt['n'], a)))
                return self.int_cast(st, fr, a, ts['n'], tt['n'])
            if isinstance(a, Agg) and a.kind == 'array' or isinstance(a, Agg):
                return a
            if isinstance(a, P):
                return a
        raise Undecided('cast %s to %s' % (kind, tt['n']))

    def int_cast(self, st, fr, a, sn, tn):
        s, t = self.INTS.get(sn), self.INTS.get(tn)
        if isinstance(a, G):
            return self.vmerge(a.c, self.int_cast(st, fr, a.a, sn, tn), self.int_cast(st, fr, a.b, sn, tn), st.facts)
        if isinstance(a, T):
            return T('cast:' + tn, (a,))
        if t is None:
            if tn == 'bool':
                return toB(a)
            raise Undecided('int cast to %s' % tn)
        if a.is_const():
            return wop('%s_%d_cast' % ('us'[t[0]], t[1]), a)
        if s is None:
            return a
        # widening, or the size/dimension types: value kept (see DESIGN assumptions)
        keep = {'usize', 'isize', 'u32', 'i32', 'u64', 'i64'}
        if tn in keep and sn in keep:
            if sn in ('u64', 'i64') and tn in ('u32', 'i32'):
                return wop('%s_%d_cast' % ('us'[t[0]], t[1]), a)
            if s[0] == 1 and t[0] == 0:
                # signed to unsigned: negative values wrap
                d = st.facts.decide(ge0(a))
                if d is not True:
                    self.require(st, ge0(a), 'underflow', fr)
            return a
        if t[1] > s[1] and s[0] <= t[0]:
            return a
        if t == s:
            return a
        return wop('%s_%d_cast' % ('us'[t[0]], t[1]), a)

    def unsize(self, st, a, src, dst, thin=False):
        if isinstance(a, G):
            return self.vmerge(a.c, self.unsize(st, a.a, src, dst, thin), self.unsize(st, a.b, src, dst, thin), st.facts)
        pt = self.pointee(src)
        t = self.T[pt] if pt is not None else None
        if t is not None and t['k'] == 'array':
            n = t['len']
            if isinstance(a, ConstRef):
                return Ptr(('K', a.v), (('i', ZERO),), None if thin else toP(n))
            if isinstance(a, Ptr):
                return Ptr(a.root, a.path + (('i', ZERO),), None if thin else toP(n))
            if isinstance(a, Box) and a.kind == 'box':
                return Box('box', self.as_seq(st, a.v))
        return a    # trait objects keep their value

    def ptr_cast(self, st, a, src, dst):
        if isinstance(a, G):
            return self.vmerge(a.c, self.ptr_cast(st, a.a, src, dst), self.ptr_cast(st, a.b, src, dst), st.facts)
        ps, pd = self.pointee(src), self.pointee(dst)
        if ps is None or pd is None:
            return a
        ts, td = self.T[ps], self.T[pd]
        if not isinstance(a, Ptr):
            return a
        et = ts
        if ts['k'] == 'slice':
            et = self.T[ts['t']]
        if td['k'] == 'slice':
            ed = self.T[td['t']]
            if ed['n'] == et['n'] or ts['k'] != 'slice':
                return a
            raise Undecided('slice pointer cast %s to %s' % (ts['n'], td['n']))
        if et['n'] == td['n']:
            return Ptr(a.root, a.path, None)
        # array elements seen as a flat run
        if et['k'] == 'array' and self.flat_elem(et)['n'] == td['n']:
            if ts['k'] == 'slice' or (a.path and a.path[-1][0] == 'i'):
                return self.flatten_cell(st, a, et)
            if a.path == () or a.path[-1][0] != 'i':
                n = et
                q = Ptr(a.root, a.path + (('i', ZERO),), None)
                return q if self.T[et['t']]['n'] == td['n'] else a
        if td['k'] in ('tuple', 'uint') and td['n'] in ('()', 'u8'):
            return Ptr(a.root, a.path, None)
        if et['n'] == 'u8':
            return Ptr(a.root, a.path, None)
        if td['k'] in ('struct', 'union') and td.get('path') in TRANSPARENT or et['k'] in ('struct', 'union') and et.get('path') in TRANSPARENT:
            return Ptr(a.root, a.path, None)
        raise Undecided('pointer cast %s to %s' % (ts['n'], td['n']))

    def flat_elem(self, t):
        while t['k'] == 'array':
            t = self.T[t['t']]
        return t

    def flatten_cell(self, st, a, et):
        base = self.load(st, a.root, a.path[:-1])
        s = self.as_seq(st, base)
        off = a.path[-1][1]
        n = 1
        t = et
        while t['k'] == 'array':
            n *= t['len']
            t = self.T[t['t']]
        fs = self.flat_seq(st, s, et)
        root = ('H', ('flat', a.root[1] if a.root[0] == 'H' else a.root), a.root[2] if a.root[0] == 'H' else ())
        if a.root[0] == 'H' and a.root[1] in self.raws:
            self.raws.setdefault(root[1], self.raws.pop(a.root[1]))
        st.mem[root] = fs
        return Ptr(root, (('i', off * n),), None)

    def flat_seq(self, st, s, et):
        def fl(v, t):
            if t['k'] != 'array':
                return [v]
            out = []
            x = self.T[t['t']]
            for i in range(t['len']):
                out += fl(self.proj(st, v, ('i', toP(i))), x)
            return out
        it = plain_items(s)
        if it is not None:
            return seq_items([y for v in it for y in fl(v, et)])
        k = Atom('s', (fresh('g'),))
        k.lo = 0
        ff = st.facts
        f2 = ff.with_loop(k, s.len).add(ge0(s.len - 1))
        st.facts = f2
        try:
            v = seq_get(s, atomP(k), f2)
            items = fl(v, et)
        finally:
            st.facts = ff
        return Seq(s.len * len(items), (Loop(k, s.len, tuple(Item(x) for x in items)),))

    # -------------------------------------------------------- execution
    def call_fn(self, st, inst, args, fid, fr=None):
        """evaluate the body of instance inst"""
        fn = self.p.fns[inst]
        if 'blocks' not in fn:
            raise Undecided('no body: %s' % fn['path'])
        if len(fid) > 60:
            raise Undecided('call depth')
        self.visited.add(fn['path'])
        f2 = Frame(fn, fid, self.p.cfg(fn))
        argc = fn['argc']
        if fn.get('spread') is not None:
            sp = fn['spread']
            args = list(args)
            args = args[:sp - 1] + [Agg('tuple', None, None, tuple(args[sp - 1:]))]
        if len(args) != argc:
            raise Undecided('argument count of %s: %d/%d' % (fn['path'], len(args), argc))
        for i, a in enumerate(args):
            st.mem[('L', fid, i + 1)] = a
        if 0 not in f2.cfg.can:
            raise Diverge('never returns: ' + fn['path'], fr.loc if fr else fn.get('span'))
        self.run(st, f2, 0, frozenset())
        r = st.mem.get(('L', fid, 0), UNIT)
        for key in [k for k in st.mem if k[0] == 'L' and k[1] == fid]:
            del st.mem[key]
        return r

    def run(self, st, fr, bb, stops, entered=False):
        fn = fr.fn
        blocks = fn['blocks']
        cfg = fr.cfg
        first = True
        while True:
            if not (first and entered) and bb in stops:
                return bb
            if bb in cfg.loops and not (first and entered):
                bb = self.exec_loop(st, fr, bb, stops)
                if bb is None:
                    return None
                first = False
                continue
            first = False
            if bb not in cfg.can:
                raise Diverge('panic', blocks[bb][2])
            self.tick()
            stmts, term, loc, _ = blocks[bb]
            fr.loc = loc
            for s in stmts:
                self.stmt(st, fr, s)
            k = term[0]
            if k == 'goto':
                bb = term[1]
            elif k == 'return':
                return None
            elif k == 'drop':
                self.drop(st, fr, term)
                bb = term[2]
            elif k == 'call':
                self.call_term(st, fr, bb, term)
                fr.loc = loc
                if term[4] is None:
                    raise Diverge('no return', loc)
                bb = term[4]
            elif k == 'assert':
                c = toB(self.operand(st, fr, term[1]))
                if not term[2]:
                    c = bnot(c)
                self.require(st, c, term[3], fr)
                bb = term[4]
            elif k == 'switch':
                bb = self.switch(st, fr, bb, term, stops)
            elif k == 'unreachable':
                raise Diverge('unreachable', loc)
            else:
                raise Undecided('terminator %s' % k)

    def stmt(self, st, fr, s):
        if s[0] == '=':
            place, r = s[1], s[2]
            v = self.rvalue(st, fr, r, None)
            if not place[1]:
                st.mem[('L', fr.fid, place[0])] = v
            else:
                lv = self.lval(st, fr, place)
                self.check_raw(st, fr, place, lv, 'memw')
                self.lstore(st, lv, v)
        elif s[0] == 'sd':
            raise Undecided('set discriminant')
        elif s[0] == 'cno':
            raise Undecided('copy_nonoverlapping')

    def drop(self, st, fr, term):
        own.dropped(self, st, fr, term)

    def decided(self, st, c):
        if c.op == 'true':
            return True
        if c.op == 'false':
            return False
        return None

    def switch_cond(self, st, v, val, t):
        """condition 'operand == val'"""
        if isinstance(v, B):
            return v if val else bnot(v)
        if isinstance(v, P):
            if not v.is_const():
                a = as_atom(v)
                if a is not None and a.head == 'ite':
                    return bite(a.args[0], self.switch_cond(st, a.args[1], val, t), self.switch_cond(st, a.args[2], val, t))
            return eq(v, toP(val))
        if isinstance(v, G):
            return bite(v.c, self.switch_cond(st, v.a, val, t), self.switch_cond(st, v.b, val, t))
        if isinstance(v, T):
            return B('teq', (v, toP(val)))
        raise Undecided('switch on %s' % (str(v)[:60],))

    def switch(self, st, fr, bb, term, stops):
        v = self.operand(st, fr, term[1])
        t = self.T[term[4]]
        if isinstance(v, Unk):
            raise Undecided('branch on unknown (%s)' % v.why)
        arms = []
        rest = TRUE
        for vs, target in term[2]:
            val = int(vs)
            if t['k'] == 'int':
                bits = self.bits(t)[1]
                if val >> (bits - 1):
                    val -= 1 << bits
            c = self.switch_cond(st, v, val, t)
            arms.append((band(rest, c), target))
            rest = band(rest, bnot(c))
            if rest.op == 'false':
                break
        if rest.op != 'false':
            arms.append((rest, term[3]))
        blocks = fr.fn['blocks']
        # literal decision first
        live = []
        for c, tg in arms:
            if c.op == 'false':
                continue
            if c.op == 'true':
                live = [(c, tg)]
                break
            live.append((c, tg))
        if len(live) > 1:
            # drop 'unreachable' otherwise arms
            live = [(c, tg) for c, tg in live if not (blocks[tg][1][0] == 'unreachable' and not blocks[tg][0])] or live
        # merge arms with the same target
        by = {}
        for c, tg in live:
            by[tg] = bor(by[tg], c) if tg in by else c
        live = [(c, tg) for tg, c in by.items()]
        ctx = fr.ctx[-1] if fr.ctx else None
        inloop = ctx is not None and bb in ctx.loop.body
        if len(live) == 1:
            if inloop and any(x in fr.cfg.can and x not in ctx.loop.body for x in [y[1] for y in term[2]] + [term[3]]):
                ctx.seen += 1
            return live[0][1]
        exitish = inloop and any(tg in fr.cfg.can and tg not in ctx.loop.body for _, tg in live)
        # arms that never return: requirement
        dead = [(c, tg) for c, tg in live if tg not in fr.cfg.can]
        if dead:
            ok = [(c, tg) for c, tg in live if tg in fr.cfg.can]
            if not ok:
                raise Diverge('panic', blocks[bb][2])
            bad = bor(*[c for c, _ in dead])
            self.require(st, bnot(bad), 'panic', fr)
            live = ok
            if len(live) == 1:
                return live[0][1]
        if exitish and ctx.mode in ('summary', 'exit'):
            stay = [(c, tg) for c, tg in live if tg in ctx.loop.body]
            out = [(c, tg) for c, tg in live if tg not in ctx.loop.body]
            if len(stay) == 1 and len(out) == 1:
                ctx.seen += 1
                if ctx.mode == 'exit':
                    st.facts = st.facts.add(out[0][0])
                    return out[0][1]
                # decided by the facts: not a real exit
                d = st.facts.decide(stay[0][0])
                if ctx.stay is not None:
                    if d is True:
                        return stay[0][1]
                    raise Undecided('loop with several exits at %s' % fr.loc)
                ctx.stay = stay[0][0]
                st.facts = st.facts.add(stay[0][0])
                return stay[0][1]
            raise Undecided('loop exit form')
        if exitish and ctx.mode == 'unroll' and ctx.seen == 0:
            raise SymExit(bor(*[c for c, tg in live if tg in ctx.loop.body]))
        if exitish and ctx.mode == 'unroll':
            pass
        # facts decide?
        for c, tg in live:
            if st.facts.decide(c) is True:
                return tg
        live = [(c, tg) for c, tg in live if st.facts.decide(c) is not False]
        if not live:
            raise Diverge('infeasible', fr.loc)
        if len(live) == 1:
            return live[0][1]
        return self.fork(st, fr, bb, live, stops, exitish)

    def fork(self, st, fr, bb, live, stops, exitish):
        join = fr.cfg.ipdom.get(bb)
        saved = fr.ctx
        if exitish:
            # the arm that stays runs the rest of the loop before both meet
            stops = fr.ctx[-1].outer
            fr.ctx = fr.ctx[:-1]
        base = st.copy()
        outs = []
        stops2 = stops if join is None or join == fr.cfg.n else (frozenset(stops) | {join})
        try:
            for c, tg in live:
                s = base.copy()
                s.facts = base.facts.add(c)
                try:
                    r = self.run(s, fr, tg, stops2)
                    outs.append((c, s, r))
                except Diverge as e:
                    if e.why != 'infeasible' and not self.quiet:
                        self.reqs.append(Req(e.why if e.why in ('mem', 'memw', 'underflow', 'own') else 'panic', bnot(c), base.facts, e.loc, fr.fn['path']))
        finally:
            fr.ctx = saved
        if not outs:
            raise Diverge('panic', fr.fn['blocks'][bb][2])
        rs = set(r for _, _, r in outs)
        if len(rs) != 1:
            raise Undecided('arms end at different points %r at %s' % (rs, fr.loc))
        if len(outs) == 1:
            st.set(outs[0][1])
            return self.after_fork(rs.pop(), st, fr)
        cur = outs[-1][1]
        for c, s, _ in reversed(outs[:-1]):
            m = self.merge_states(c, s, cur, base, base.facts)
            cur = St(m, base.facts, base.unroll, base.loops)
        st.set(cur)
        st.facts = base.facts
        return self.after_fork(rs.pop(), st, fr)

    def after_fork(self, r, st, fr):
        if r is None:
            return self.ret_block(fr)
        return r

    def ret_block(self, fr):
        """both arms already executed the return: continue at a block that only returns"""
        for i, b in enumerate(fr.fn['blocks']):
            if b[1][0] == 'return' and not b[0] and not b[3]:
                return i
        raise Undecided('return inside arms')

    # -------------------------------------------------------- loops
    UNROLL = 80

    def exec_loop(self, st, fr, head, stops):
        lp = fr.cfg.loops[head]
        live = fr.cfg.live(head)
        for key in [k for k in st.mem if k[0] == 'L' and k[1] == fr.fid and k[2] not in live and k[2] != 0]:
            del st.mem[key]
        inner_stops = frozenset({head} | lp.exits | (stops - lp.body))
        un0 = st.unroll
        save = st.copy()
        nreq = len(self.reqs)
        for i in range(self.UNROLL):
            ctx = LoopCtx(lp, 'unroll')
            ctx.outer = stops
            fr.ctx.append(ctx)
            st.unroll = un0 + ((head, i),)
            depth = len(fr.ctx)
            try:
                r = self.run_unroll(st, fr, head, inner_stops, ctx)
                sym = None
            except SymExit as e:
                sym = e
            finally:
                del fr.ctx[depth - 1:]
            if sym is not None:
                st.set(save)
                st.unroll = un0
                del self.reqs[nreq:]
                return self.sum_mir(st, fr, head, lp, inner_stops)
            st.unroll = un0
            if r == head:
                continue
            return r
        raise Undecided('unroll limit at %s' % fr.loc)

    def run_unroll(self, st, fr, head, stops, ctx):
        return self.run(st, fr, head, stops, entered=True)

    def sum_mir(self, st, fr, head, lp, stops):
        from loops import summarise
        lid = self.intern(('loop', fr.fid, head, st.unroll), '')
        pos = {}

        def it(s):
            ctx = LoopCtx(lp, 'summary')
            depth = len(fr.ctx)
            fr.ctx.append(ctx)
            try:
                r = self.run(s, fr, head, stops, entered=True)
            finally:
                del fr.ctx[depth:]
            if r != head:
                raise Undecided('loop leaves unconditionally')
            return TRUE if ctx.stay is None else ctx.stay

        def ex(s):
            ctx = LoopCtx(lp, 'exit')
            depth = len(fr.ctx)
            fr.ctx.append(ctx)
            try:
                r = self.run(s, fr, head, stops, entered=True)
            finally:
                del fr.ctx[depth:]
            if r == head:
                raise Undecided('exit evaluation returned to the head')
            pos['r'] = r
        summarise(self, st, lid, it, ex, fr)
        return pos['r']

    # -------------------------------------------------------- calls
    def call_term(self, st, fr, bb, term):
        ref = term[1]
        args = [self.operand(st, fr, o) for o in term[2]]
        v = self.call(st, fr, bb, ref, args, term[5], term[6])
        dest = term[3]
        if not dest[1]:
            st.mem[('L', fr.fid, dest[0])] = v
        else:
            self.lstore(st, self.lval(st, fr, dest), v)

    def call(self, st, fr, bb, ref, args, atids, dtid):
        from models import dispatch
        return dispatch(self, st, fr, bb, ref, args, atids, dtid)

    def call_value(self, st, fr, bb, f, args):
        """call a closure / fn item value with untupled arguments"""
        fid = fr.fid + (bb,)
        ptr = None
        while isinstance(f, (Ptr, ConstRef)) :
            ptr = f
            f = self.rd(st, f)
        if isinstance(f, Box) and f.kind == 'box':
            if ptr is not None:
                ptr = Ptr(ptr.root, ptr.path + (('b',),), None)
            f = f.v
        if isinstance(f, G):
            raise Undecided('call of alternative closures')
        if isinstance(f, Agg) and f.kind == 'closure':
            t = self.T[f.tid]
            if t['ckind'] == 'FnOnce':
                return self.call_fn(st, t['inst'], [f] + list(args), fid, fr)
            tmp = None
            if ptr is None:
                tmp = ('L', fid, 'clo')
                st.mem[tmp] = f
                ptr = Ptr(tmp, (), None)
            r = self.call_fn(st, t['inst'], [ptr] + list(args), fid + ('c',), fr)
            if tmp is not None:
                self._clo = st.mem.pop(tmp)
            return r
        if isinstance(f, Agg) and f.kind == 'fn':
            t = self.T[f.tid]
            return self.call(st, fr, bb, t['f'], list(args), [None] * len(args), None)
        if isinstance(f, Agg) and f.kind == 'fnptr' and f.var is not None:
            return self.call_fn(st, f.var, list(args), fid, fr)
        raise Undecided('call of %s' % (str(f)[:60],))


import own      # noqa: E402
