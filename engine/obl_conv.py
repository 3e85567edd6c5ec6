"""C21 conversions."""
from spec import *
from terms import *
from obl_view import lt


def obls(deep=False):
    out = []

    def ob(name, root, args, expect, facts=(), light=True):
        out.append(Ob('C21', name, 'conv::' + root, args, expect, facts, light=light))

    def el(i, nm='v'):
        return T('get', (nm, toP(i)))

    def flatten(ds):
        return Ten(ds, lambda k, ds=ds: el(flat(k, [toP(d) for d in ds])))
    x, y, z = T('x'), T('y'), T('z')
    ob('scalar', 'of', [x], Ten([], lambda k: x))
    ob('Some', 'some', [x], Ten([], lambda k: x))
    ob('None', 'none', [], Ten([ZERO], lambda k: x))
    for n, nm in ((sym('n', 1), ''), (ZERO, ' empty'), (sym('n', 0), ' any')):
        v = storage('v', n)
        for f in ('vec', 'vec_ref', 'iter', 'iter_vec', 'iter_ref') + (('slice',) if nm == '' else ()):
            ob(f + nm, f, [v], flatten([n]))
        ob('iter_map' + nm, 'iter_map', [v], Ten([n], lambda k: T('f1', (el(k[0]),))))
    ds = [sym('d%d' % i, 1) for i in range(5)]
    for q in range(2, 6):
        d = ds[:q]
        ob('nested vec %d' % q, 'vecs%d' % q, [storage('v', prod(d))] + d, flatten(d))
        for i in range(q):
            e = d[:i] + [ONE] + d[i + 1:]
            ob('nested vec %d one@%d' % (q, i), 'vecs%d' % q, [storage('v', prod(e))] + e, flatten(e), light=False)
    m, n = sym('m', 1), sym('n', 1)
    A, B_, C_, D_ = (storage(s, m) for s in 'abcd')
    X = storage('x', n)
    ne = (bnot(eq(m, n)),)
    ob('ragged 2 shorter or longer', 'ragged2', [A, X], PANIC, ne)
    for i in range(1, 4):
        a = [A, B_, C_, D_]
        a[i] = X
        ob('ragged 3 @%d' % i, 'ragged3', a, PANIC, ne)
    ob('ragged 3 count', 'ragged3n', [A, B_, C_], PANIC)
    ob('ragged 4', 'ragged4', [A, X], PANIC, ne)
    ob('ragged 5', 'ragged5', [A, X], PANIC, ne)
    ob('rows 1', 'rows1', [storage('v', n)], flatten([n, 1]))
    ob('rows 2', 'rows2', [storage('v', n * 2), n], flatten([n, 2]))
    ob('rows 3', 'rows3', [storage('v', n * 3), n], flatten([n, 3]))
    ob('rows 2 ref', 'rows2_ref', [storage('v', n * 2), n], flatten([n, 2]))
    ob('rows 2 slice', 'rows2_slice', [storage('v', n * 2), n], flatten([n, 2]))
    ob('vec of rows', 'vrows2', [storage('v', n * m * 2), n, m], flatten([n, m, 2]))
    ob('vec of rows ragged', 'vrows_ragged', [storage('v', (n + m) * 2), n, m], PANIC, ne)
    ob('array 0', 'arr0', [], Ten([ZERO], lambda k: x))
    ob('array 1', 'arr1', [x], Ten([1], lambda k: x))
    ob('array 3', 'arr3', [x, y, z], Ten([3], lambda k: (x, y, z)[k[0].const()]))
    for f, d in (('arr23', [2, 3]), ('arr321', [3, 2, 1]), ('arr123', [1, 2, 3]), ('arr2123', [2, 1, 2, 3]),
                 ('ten1', [3]), ('ten2', [2, 3]), ('ten3', [3, 2, 1])):
        N = 1
        for i in d:
            N *= i
        ob(f, f, [storage('v', N)], flatten(d))
    for r in range(0, 4):
        d = dims('d', r)
        a, b, c = Tin('a', d), Tin('b', d), Tin('c', d)
        two = Ten([2] + d, lambda k, a=a, b=b: (a, b)[k[0].const()].at(k[1:]))
        three = Ten([3] + d, lambda k, a=a, b=b, c=c: (a, b, c)[k[0].const()].at(k[1:]))
        ob('tensor list vec r%d' % r, 'list_vec', [a, b], two)
        ob('tensor list array r%d' % r, 'list_arr', [a, b], two)
        ob('tensor list slice r%d' % r, 'list_slice', [a, b, c], three)
        ob('tensor list many r%d' % r, 'list_many', [storage('v', n * prod(d)), n, vec(d)], flatten([n] + d))
        if r:
            e = d[:-1] + [sym('e', 1)]
            for f in ('list_vec', 'list_arr'):
                ob('%s ragged r%d' % (f, r), f, [a, Tin('b', e)], PANIC, (bnot(eq(e[-1], d[-1])),))
            ob('list_slice ragged r%d' % r, 'list_slice', [a, b, Tin('c', e)], PANIC, (bnot(eq(e[-1], d[-1])),))
            ob('list ranks differ r%d' % r, 'list_vec', [a, Tin('b', [ONE] + d)], PANIC)
    S = lambda v: T('to_string', (v,))
    ob('str', 'str1', [x], Ten([], lambda k: S(x)))
    ob('str vec', 'str_vec', [x, y], Ten([2], lambda k: S((x, y)[k[0].const()])))
    ob('str array', 'str_arr', [x, y, z], Ten([3], lambda k: S((x, y, z)[k[0].const()])))
    ob('list empty', 'list_none', [], PANIC)
    na, nb, nc = sym('na', 1), sym('nb', 1), sym('nc', 1)

    def at2(k):
        return mkG(lt(k[0], na), el(k[0], 'a'), el(k[0] - na, 'b'))

    def at3(k):
        return mkG(lt(k[0], na), el(k[0], 'a'), mkG(lt(k[0], na + nb), el(k[0] - na, 'b'), el(k[0] - na - nb, 'c')))
    ob('join_vec 2', 'join_vec2', [storage('a', na), storage('b', nb)], Ten([na + nb], at2, {0: [(ZERO, na), (na, nb)]}))
    ob('join_vec 3', 'join_vec3', [storage('a', na), storage('b', nb), storage('c', nc)], Ten([na + nb + nc], at3, {0: [(ZERO, na), (na, nb), (na + nb, nc)]}))
    return out
