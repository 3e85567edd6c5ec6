"""C10 element-wise maps and broadcasting, C12 folds, reductions, normalize."""
from spec import *
from terms import *


def variants(r, deep):
    """dimension lists of rank r: all symbolic, and with a one in each place"""
    yield 'r%d' % r, dims('d', r)
    for i in range(r):
        if deep or r <= 3:
            yield 'r%d one@%d' % (r, i), dims('d', r, ones=(i,))


def obls(deep=False):
    out = []

    def ob(prop, name, root, args, expect, facts=()):
        out.append(Ob(prop, name, 'maps::' + root, args, expect, facts))

    top = 6 if deep else 4
    for r in range(0, top + 1):
        for n, d in variants(r, deep):
            a = Tin('a', d)
            ob('C10', 'map ' + n, 'map', [a], Ten(d, lambda k, a=a, d=d: T('f1n', (flat(k, d), a.at(k)))))
            for N in (1, 2, 3):
                if r < 6:
                    ob('C10', 'map_expand%d %s' % (N, n), 'map_expand%d' % N, [a],
                       Ten(d + [toP(N)], lambda k, a=a, d=d: T('exp', (flat(k[:-1], d), k[-1], a.at(k[:-1])))))
                if r:
                    def rowat(k, a=a, d=d):
                        return seq_(d[-1], lambda j: a.at(list(k) + [j]))
                    if N == 1 and r > 1:
                        ex = Ten(d[:-1], lambda k, d=d, rowat=rowat: T('row', (flat(k, d[:-1]), ZERO, rowat(k))))
                    else:
                        ex = Ten(d[:-1] + [toP(N)], lambda k, d=d, rowat=rowat: T('row', (flat(k[:-1], d[:-1]), k[-1], rowat(k[:-1]))))
                    ob('C10', 'map_row%d %s' % (N, n), 'map_row%d' % N, [a], ex)
            # folds and reductions
            tot = prod(d)
            ob('C12', 'reduce ' + n, 'reduce', [a], Ten([], lambda k, a=a, tot=tot: fold_(a.flat(ZERO), tot - 1, lambda i, s: T('red', (s, a.flat(i + 1))))))
            s0 = T('s0')
            fe = Ten([], lambda k, a=a, tot=tot: fold_(s0, tot, lambda i, s: T('foldf', (s, a.flat(i)))))
            ob('C12', 'fold ' + n, 'fold', [a, s0], fe)
            ob('C12', 'fold_state ' + n, 'fold_state', [a, s0],
               Ten([], lambda k, a=a, tot=tot: T('sout', (fold_(s0, tot, lambda i, s: T('sfold', (s, a.flat(i)))),))))
            ob('C12', 'fold_axis none ' + n, 'fold_axis_none', [a, s0], fe)
            ob('C12', 'reduce_axis none ' + n, 'reduce_axis_none', [a],
               Ten([], lambda k, a=a, tot=tot: fold_(a.flat(ZERO), tot - 1, lambda i, s: T('red', (s, a.flat(i + 1))))))
            ob('C12', 'normalize none ' + n, 'normalize_none', [a, s0], Ten(d, lambda k, a=a, tot=tot: T('norm', (
                T('complete', (fold_(s0, tot, lambda i, s: T('sfold', (s, a.flat(i)))),)), a.at(k)))))
            if r:
                rows = prod(d[:-1])
                ob('C12', 'fold_row none ' + n, 'fold_row_none', [a, s0], Ten([toP(2)], lambda k, a=a, d=d, rows=rows: T('rowout', (
                    fold_(s0, rows, lambda i, s: T('rowfold', (s, seq_(d[-1], lambda j: a.flat(i * d[-1] + j))))), k[0]))))
            for ax in range(-r, r):
                j = ax % r
                rest = d[:j] + d[j + 1:]
                nm = '%s axis %d' % (n, ax)

                def line(k, i, j=j, a=a):
                    k = list(k)
                    return a.at(k[:j] + [i] + k[j:])
                ob('C12', 'reduce_axis ' + nm, 'reduce_axis', [a, ax], Ten(rest, lambda k, d=d, j=j, line=line: fold_(
                    line(k, ZERO), d[j] - 1, lambda i, s: T('red', (s, line(k, i + 1))))))
                ob('C12', 'fold_axis ' + nm, 'fold_axis', [a, s0, ax], Ten(rest, lambda k, d=d, j=j, line=line: fold_(
                    s0, d[j], lambda i, s: T('foldf', (s, line(k, i))))))
                ob('C12', 'fold_state_axis ' + nm, 'fold_state_axis', [a, s0, ax], Ten(rest, lambda k, d=d, j=j, line=line: T('sout', (fold_(
                    s0, d[j], lambda i, s: T('sfold', (s, line(k, i)))),))))
                ob('C12', 'normalize ' + nm, 'normalize', [a, s0, ax], Ten(d, lambda k, d=d, j=j, line=line, a=a: T('norm', (
                    T('complete', (fold_(s0, d[j], lambda i, s: T('sfold', (s, line(list(k[:j]) + list(k[j + 1:]), i)))),)), a.at(k)))))
                if r == 1:
                    ob('C12', 'fold_row ' + nm, 'fold_row', [a, s0, ax], Ten([toP(2)], lambda k, d=d, a=a: T('rowout', (
                        T('rowfold', (s0, seq_(d[0], lambda q: a.flat(q)))), k[0]))))
                elif j == r - 1:
                    ob('C12', 'fold_row ' + nm, 'fold_row', [a, s0, ax], PANIC)
                else:
                    for root, N in (('fold_row', 2), ('fold_row1', 1)):
                        ob('C12', '%s %s' % (root, nm), root, [a, s0, ax], Ten(d[:j] + d[j + 1:-1] + [toP(N)],
                           lambda k, d=d, j=j, a=a: T('rowout', (fold_(s0, d[j], lambda i, s: T('rowfold', (s, seq_(d[-1], lambda q: a.at(
                               list(k[:j]) + [i] + list(k[j:-1]) + [q]))))), k[-1]))))
    # two and three operands
    top = 4 if deep else 3
    for r in range(0, top + 1):
        for s in range(0, top + 1):
            m = min(r, s)
            tail = dims('t', m)
            da = dims('p', r - m) + tail
            db = dims('q', s - m) + tail
            a, b = Tin('a', da), Tin('b', db)
            big = da if r >= s else db
            n = 'r%d r%d' % (r, s)
            ob('C10', 'map2 ' + n, 'map2', [a, b], Ten(big, lambda k, a=a, b=b, r=r, s=s, big=big: T('f2n', (
                flat(k, big), a.at(k[len(k) - r:]), b.at(k[len(k) - s:])))))
            for x in range(m):
                w = sym('w')
                db2 = list(db)
                db2[s - 1 - x] = w
                ob('C10', 'map2 %s mismatch %d' % (n, x), 'map2', [a, Tin('b', db2)], PANIC, (bnot(eq(w, da[r - 1 - x])),))
            for u in range(0, top + 1):
                R = max(r, s, u)
                if not deep and r + s + u > 7:
                    continue
                full = dims('t', R)
                da, db, dc = full[R - r:], full[R - s:], full[R - u:]
                a, b, c = Tin('a', da), Tin('b', db), Tin('c', dc)
                ob('C10', 'map3 r%d r%d r%d' % (r, s, u), 'map3', [a, b, c], Ten(full, lambda k, a=a, b=b, c=c, r=r, s=s, u=u, full=full: T('f3n', (
                    flat(k, full), a.at(k[len(k) - r:]), b.at(k[len(k) - s:]), c.at(k[len(k) - u:])))))
                w = sym('w')
                for which, rk in ((1, s), (2, u)):
                    if rk and R == max(r, s if which == 2 else u):
                        q = list((da, db, dc)[which])
                        if max([r, u] if which == 1 else [r, s]) == 0:
                            continue
                        q[-1] = w
                        ts = [a, b, c]
                        ts[which] = Tin('bc'[which - 1], q)
                        ob('C10', 'map3 r%d r%d r%d mismatch %d' % (r, s, u, which), 'map3', ts, PANIC, (bnot(eq(w, full[-1])),))
    for r in (1, 2, 3):
        d = dims('d', r)
        a = Tin('a', d)
        o, o2, m = sym('o', 0), sym('o2', 0), sym('m', 1)
        ob('C10', 'map2 views of one tensor r%d' % r, 'map2_sh', [a, o, o2, m],
           Ten([m] + d[1:], lambda k, a=a, o=o, o2=o2: T('f2e', (a.at([k[0] + o] + list(k[1:])), a.at([k[0] + o2] + list(k[1:]))))),
           (le(o + m, d[0]), le(o2 + m, d[0])))
    # the same operations with one element type for input and output
    for r in range(0, 4):
        d = dims('d', r)
        a = Tin('a', d)
        s0 = T('s0')
        tot = prod(d)
        ob('C10', 'map same type r%d' % r, 'map_s', [a], Ten(d, lambda k, a=a: T('g1', (a.at(k),))))
        ob('C10', 'map_expand same type r%d' % r, 'map_expand_s', [a], Ten(d + [toP(2)], lambda k, a=a: T('gexp', (k[-1], a.at(k[:-1])))))
        ob('C12', 'fold same type r%d' % r, 'fold_s', [a, s0], Ten([], lambda k, a=a, tot=tot: fold_(s0, tot, lambda i, s: T('gfold', (s, a.flat(i))))))
        ob('C12', 'normalize none same type r%d' % r, 'normalize_none_s', [a, s0], Ten(d, lambda k, a=a, tot=tot: T('g2', (
            fold_(s0, tot, lambda i, s: T('gfold', (s, a.flat(i)))), a.at(k)))))
        if r:
            ob('C10', 'map_row same type r%d' % r, 'map_row_s', [a], Ten(d[:-1] + [toP(2)], lambda k, a=a, d=d: T('grow', (
                k[-1], seq_(d[-1], lambda j: a.at(list(k[:-1]) + [j]))))))
        for j in range(r):
            def line(k, i, j=j, a=a):
                k = list(k)
                return a.at(k[:j] + [i] + k[j:])
            ob('C12', 'fold_axis same type r%d axis %d' % (r, j), 'fold_axis_s', [a, s0, j], Ten(d[:j] + d[j + 1:], lambda k, d=d, j=j, line=line: fold_(
                s0, d[j], lambda i, s: T('gfold', (s, line(k, i))))))
            ob('C12', 'normalize same type r%d axis %d' % (r, j), 'normalize_s', [a, s0, j], Ten(d, lambda k, d=d, j=j, line=line, a=a: T('g2', (
                fold_(s0, d[j], lambda i, s: T('gfold', (s, line(list(k[:j]) + list(k[j + 1:]), i)))), a.at(k)))))
        for s in range(0, r + 1):
            b = Tin('b', d[r - s:])
            ob('C10', 'map2 same type r%d r%d' % (r, s), 'map2_s', [a, b], Ten(d, lambda k, a=a, b=b, s=s: T('g2', (a.at(k), b.at(k[len(k) - s:])))))
            if s < r:
                ob('C10', 'map2 same type r%d r%d' % (s, r), 'map2_s', [b, a], Ten(d, lambda k, a=a, b=b, s=s: T('g2', (b.at(k[len(k) - s:]), a.at(k)))))
            c = Tin('c', d)
            ob('C10', 'map3 same type r%d r%d r%d' % (r, s, r), 'map3_s', [a, b, c], Ten(d, lambda k, a=a, b=b, c=c, s=s: T('g3', (
                a.at(k), b.at(k[len(k) - s:]), c.at(k)))))
    return out
