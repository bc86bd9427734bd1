"""C08: built-in matrix groups and the subgroup test."""
from vc.api import contract
from contracts.common import MG

G = MG + '.MatrixGroup'
TABLES = [('CUBIC_LAUE_GROUP', 24, 3, 1), ('HEX_LAUE_GROUP', 12, 3, 1), ('SQUARE_GROUP', 4, 2, 1), ('SQUARE_EXT_GROUP', 8, 2, 0),
          ('HEX2D_GROUP', 6, 2, 1), ('HEX2D_EXT_GROUP', 12, 2, 0)]


def _close(c, A, B):
    """equal matrices (exact in the model, 1e-9 at run time)"""
    if c.sym:
        return all((x - y).isconst() and (x - y).value() == 0 for x, y in zip(A.flat, B.flat))
    return bool(c.np.max(c.np.abs(A - B)) < 1e-9)


def _member(c, A, ms):
    return any(_close(c, A, m) for m in ms)


@contract('C08', [MG], n=1)
def tables(c):
    """exact: cos(pi/3) = 1/2, sin(pi/3) = sqrt(3)/2"""
    mod = c.mod(MG)
    for name, order, dim, proper in TABLES:
        g = getattr(mod, name)
        ms = g.matrices()
        c.same(name + ' order', (g.order(), len(ms)), (order, order))
        I = c.np.eye(dim)
        c.true(name + ' contains the identity', _member(c, I, ms))
        for i, A in enumerate(ms):
            c.eq(name + ' orthogonal', A.dot(A.T), I)
            d = c.det(A)
            if proper:
                c.eq(name + ' determinant', d, 1)
            c.true(name + ' duplicate-free', not _member(c, A, ms[:i]))
            c.true(name + ' inverses', _member(c, A.T, ms))
            for B in ms:
                c.true(name + ' closed under products', _member(c, A.dot(B), ms))
    for small, big in (('SQUARE_GROUP', 'SQUARE_EXT_GROUP'), ('HEX2D_GROUP', 'HEX2D_EXT_GROUP')):
        b = getattr(mod, big).matrices()
        s = getattr(mod, small).matrices()
        for A in s:
            c.true(small + ' inside ' + big, _member(c, A, b))
        c.same(small + ' is the determinant 1 part', sum(1 for A in b if _close(c, c.np.array([c.det(A)]), c.np.array([1]))), len(s))


@contract('C08', [G + '.__init__', G + '.matrices', G + '.order'], n=60)
def stores_what_it_is_given(c):
    k, n = c.choice('count', [1, 2, 5]), c.choice('dim', [2, 3, 1])
    ms = [c.mat('m%d' % i, n) for i in range(k)]
    form = c.choice('form', ['list', 'array', 'nested'])
    arg = ms if form == 'list' else c.np.array(ms) if form == 'array' else [[[x for x in r] for r in m] for m in ms]
    g = c.mod(MG).MatrixGroup(arg)
    c.same('order', g.order(), k)
    got = g.matrices()
    c.same('number of matrices', len(got), k)
    for a, b in zip(got, ms):
        c.eq('matrices in the order given', a, b)


@contract('C08', [G + '.hassubgroup'], n=300)
def subgroup_test(c):
    """the test is true exactly when the orders divide and every matrix of the candidate occurs in the group"""
    n = c.choice('dim', [2, 1])
    a, b = c.choice('order', [4, 2, 3, 1, 6]), c.choice('suborder', [1, 2, 3, 4, 6])
    # entries far apart from each other: the k-th matrix has entries near 2k, so equality of matrices is equality of k
    off = [c.between('o%d' % i, 0.0, 0.4) for i in range(n)]
    base = c.np.array([[off[i] + 3.0 * j for j in range(n)] for i in range(n)])
    mats = [base + 2.0 * k for k in range(a + 3)]
    pick = []
    for i in range(b):
        pick.append(c.choice('pick%d' % i, [i % (a + 3), (i + 1) % (a + 3), a] if not c.sym else [i % (a + 3), a]))
    M = c.mod(MG).MatrixGroup
    g = M(mats[:a])
    s = M([mats[k] for k in pick])
    c.same('subgroup test', bool(g.hassubgroup(s)), a % b == 0 and all(k < a for k in pick))


@contract('C08', [G + '.hassubgroup'], n=200)
def element_test(c):
    """one arbitrary matrix against one arbitrary matrix: exactly when they are the same up to the tolerance"""
    n = c.choice('dim', [2, 3, 1])
    A = c.mat('A', n)
    for x in A.flat:
        c.require(c.land(x <= 3, x >= -3))
    same = c.choice('same', [True, False])
    B = A * 1
    if not same:
        i, j = c.choice('i', list(range(n))), c.choice('j', list(range(n)))
        B = A + 0
        d = c.between('delta', 0.001, 2.0)
        B[i, j] = B[i, j] + c.choice('sign', [1, -1]) * d
    M = c.mod(MG).MatrixGroup
    c.same('subgroup of one element', bool(M([A]).hassubgroup(M([B]))), same)


@contract('C08', [G + '.hassubgroup'], n=12)
def finite_tables(c):
    mod = c.mod(MG)
    C, Hx = mod.CUBIC_LAUE_GROUP, mod.HEX_LAUE_GROUP
    M = mod.MatrixGroup
    def T(x):
        return bool(x)
    c.same('reflexive', (T(C.hassubgroup(C)), T(Hx.hassubgroup(Hx))), (True, True))
    c.same('square', (T(mod.SQUARE_EXT_GROUP.hassubgroup(mod.SQUARE_GROUP)), T(mod.SQUARE_GROUP.hassubgroup(mod.SQUARE_EXT_GROUP))), (True, False))
    c.same('hex not in cubic', (T(C.hassubgroup(Hx)), T(Hx.hassubgroup(C))), (False, False))
    four = M(Hx.matrices()[:4])
    c.same('common D2', (T(C.hassubgroup(four)), T(Hx.hassubgroup(four))), (True, True))
    c.same('order must divide', T(C.hassubgroup(M(C.matrices()[:5]))), False)
    bad = c.choice('bad', [None, 3, 'x', 'list'])
    bad = C.matrices() if bad == 'list' else bad
    c.raises('not a group', TypeError, lambda: C.hassubgroup(bad))
