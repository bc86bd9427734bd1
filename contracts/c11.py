"""C11: distances."""
import math
from vc.api import contract
from contracts.common import BRA, NPAR, params

D = 'structrans.marttrans.lat_cor.dist'


def _bases(c, n, op=True):
    E1, E2 = c.mat('E', n), c.mat('F', n)
    c.nonzero(c.det(E1), 0.2)
    c.nonzero(c.det(E2), 0.2)
    return E1, E2


def fro2(c, A):
    t = 0
    for x in A.flat:
        t = t + x * x
    return t


def _L(c, n):
    if c.sym:
        return c.mat('L', n, kind='i')
    return c.mat('L', n, kind='i', lo=-3, hi=3)


@contract('C11', [D + '.Eric_dist'], n=200, z3_ms=15000)
def ericksen(c):
    n = c.choice('dim', [2, 3])
    if c.sym and n == 3:
        # the metric tensors are what enters: upper triangular bases reach every metric tensor
        E1, E2 = c.np.triu(c.mat('E', 3)), c.np.triu(c.mat('F', 3))
    else:
        E1, E2 = _bases(c, n)
    L = _L(c, n)
    x = L if c.choice('flat', [False, True]) else L.reshape(n * n)
    g1, g2 = E1.T.dot(E1), E2.T.dot(E2)
    nf = fro2(c, g2)
    c.positive(nf)
    d = c.mod(D).Eric_dist(x, E1, E2)
    M = L.T.dot(g1).dot(L) - g2
    c.eq('|L^T E1^T E1 L - E2^T E2|^2 / |E2^T E2|^2', d * nf, fro2(c, M))
    if not c.sym:
        c.true('non-negative', d >= 0)


@contract('C11', [D + '.Cauchy_dist'], n=200)
def cauchy(c):
    n = c.choice('dim', [2, 3])
    c.opaque()
    E1, E2 = _bases(c, n)
    L = _L(c, n)
    x = L if c.choice('flat', [False, True]) else L.reshape(n * n)
    E2i = c.inv(E2)
    if c.sym:
        E2i = c.mat('G', n)             # any matrix in the place of the inverse
    d = c.mod(D).Cauchy_dist(x, E1, E2i)
    Fi = E1.dot(L).dot(E2i)
    c.eq('|F^-1 F^-T - I|^2', d, fro2(c, Fi.dot(Fi.T) - c.np.eye(n)))
    if not c.sym:
        c.true('non-negative', d >= 0)


@contract('C11', [D + '.strain_dist'], n=200, z3_ms=15000)
def strain(c):
    """F^-1 = V diag(s) W^T: the sum over principal stretches 1/s of (s - 1)^2"""
    n = c.choice('dim', [2, 3])
    s = [c.pos('s%d' % i, 0.3, 3.0) for i in range(n)]
    if n == 3:
        V, W = c.rot('V'), c.rot('W')
    else:
        u, w = c.unit('u', 2), c.unit('w', 2)
        V = c.np.array([[u[0], -u[1]], [u[1], u[0]]])
        W = c.np.array([[w[0], -w[1]], [w[1], w[0]]])
    Fi = V.dot(c.np.diag(s)).dot(W.T)
    if c.sym:
        c.spectral([([x * x for x in s], V)])
        which = c.choice('place', [0, 1, 2]) if n == 2 else 0
        I = c.np.eye(n)
        E1, L, E2i = [(Fi, I, I), (I, Fi, I), (I, I, Fi)][which]
        if n == 3:
            pass
    else:
        E1 = c.mat('E', n)
        L = c.np.array(c.mat('L', n, kind='i', lo=-2, hi=2), dtype='float')
        c.nonzero(c.det(E1), 0.3)
        c.nonzero(c.det(L), 0.5)
        E2i = c.inv(L).dot(c.inv(E1)).dot(Fi)
    x = L if c.choice('flat', [False, True]) else L.reshape(n * n)
    d = c.mod(D).strain_dist(x, E1, E2i)
    t = 0
    for y in s:
        t = t + (y - 1) * (y - 1)
    c.eq('sum of (1/lambda - 1)^2', d, t, tol=1e-5)


@contract('C11', [D + '.Cauchy_dist', D + '.strain_dist'], n=120, sym=False)
def zero_iff_isometry(c):
    """distance 0 exactly when E1 L and E2 differ by an isometry"""
    n = c.choice('dim', [2, 3])
    E1, _ = _bases(c, n)
    L = c.np.array(_L(c, n), dtype='float')
    c.nonzero(c.det(L), 0.5)
    R = c.rot('q') if n == 3 else c.np.array([[0.8, -0.6], [0.6, 0.8]])
    E2 = R.dot(E1).dot(L)
    c.nonzero(c.det(E2), 0.2)
    m = c.mod(D)
    c.le('Cauchy zero', m.Cauchy_dist(L, E1, c.inv(E2)), 0, tol=1e-6)
    c.le('strain zero', m.strain_dist(L, E1, c.inv(E2)), 0, tol=1e-6)
    c.le('Ericksen zero', m.Eric_dist(L, E1, E2), 0, tol=1e-6)
    S = c.np.eye(n)
    S[0, n - 1] = c.choice('shear', [0.2, -0.3])
    S = S if c.choice('how', [0, 1]) else c.np.eye(n) * 1.2
    F2 = S.dot(E2)
    c.true('Cauchy positive', m.Cauchy_dist(L, E1, c.inv(F2)) > 1e-4)
    c.true('strain positive', m.strain_dist(L, E1, c.inv(F2)) > 1e-4)
    c.true('Ericksen positive', m.Eric_dist(L, E1, F2) > 1e-7)


@contract('C11', [D + '.Cauchy_dist'], n=1, run=False, z3_ms=15000)
def symmetry_invariance(c):
    """Q1 E1 = E1 G1, Q2 E2 = E2 G2 with Q1, Q2 orthogonal: the distance of G1 L G2 is that of L"""
    c.opaque()
    n = c.choice('dim', [2, 3])
    E1, L = c.mat('E', n), c.mat('L', n)
    E2 = c.mat('F', n) if n == 2 else c.np.triu(c.mat('F', n))
    c.nonzero(c.det(E1))
    c.nonzero(c.det(E2))
    side = c.choice('side', ['left', 'right'])
    if n == 2:
        u = c.unit('u', 2)
        Q = c.np.array([[u[0], -u[1]], [u[1], u[0]]])
    elif c.choice('Q', ['x', 'z']) == 'x':
        # a rotation about one coordinate axis; such rotations generate SO(3) and the invariance composes
        u = c.unit('u', 2)
        Q = c.np.array([[1, 0, 0], [0, u[0], -u[1]], [0, u[1], u[0]]])
    else:
        u = c.unit('u', 2)
        Q = c.np.array([[u[0], -u[1], 0], [u[1], u[0], 0], [0, 0, 1]])
    if c.choice('improper', [False, True]):
        Q = -Q
    f = c.mod(D).Cauchy_dist
    G = c.mat('G', n)              # in the place of E2^-1
    # left: E1 (G1 L) = Q1 E1 L; right: (L G2) E2^-1 = L E2^-1 Q2 -- so the argument is Q1 F^-1 Q2
    if side == 'left':
        a, b = f(L, E1, G), f(L, Q.dot(E1), G)
    else:
        a, b = f(L, E1, G), f(L, E1, G.dot(Q))
    c.eq('Cauchy distance invariant', a, b)


@contract('C11', [D + '.Cauchy_dist', D + '.strain_dist', D + '.Eric_dist'], n=150, sym=False)
def symmetry_invariance_runtime(c):
    dim = c.choice('dim', [3, 2])
    ids = list(range(1, len(NPAR[dim]) + 1))
    l1 = c.choice('id1', ids)
    l2 = c.choice('id2', ids)
    class P(object):
        pass
    ps1, _ = params(c, dim, l1)
    B = c.mod(BRA).BravaisLattice
    a = B(l1, ps1, dim)
    sub = type(c)(str(c.inputs))
    ps2, _ = params(sub, dim, l2)
    b = B(l2, ps2, dim)
    E1, E2 = a.base(), b.base()
    L = _L(c, dim)
    g1, g2 = a.lattice_group().matrices(), b.lattice_group().matrices()
    G1, G2 = g1[c.rng.randrange(len(g1))], g2[c.rng.randrange(len(g2))]
    m = c.mod(D)
    K = G1.dot(L).dot(G2)
    c.nonzero(c.det(L), 0.5)
    Ei = c.inv(E2)
    c.eq('Cauchy invariant', m.Cauchy_dist(K, E1, Ei), m.Cauchy_dist(L, E1, Ei))
    c.eq('strain invariant', m.strain_dist(K, E1, Ei), m.strain_dist(L, E1, Ei), tol=1e-5)
    c.eq('Ericksen invariant under the symmetry of E1', m.Eric_dist(G1.dot(L), E1, E2), m.Eric_dist(L, E1, E2))


@contract('C11', [D + '.Cauchy_dist_vec'], n=160, timeout=300,
          bounded='batch sizes 1, 2, 3, 100 and 101 (the branch is on 100); in batches of 100 one row is symbolic, at the first, a middle and the last place')
def batch(c):
    """the batch result is the scalar one entry by entry"""
    n = c.choice('dim', [2, 3])
    m = c.mod(D)
    if c.sym:
        k = c.choice('size', [1, 2, 100, 101] if n == 2 else [1, 2])
        E1, G = c.mat('E', n), c.mat('G', n)
        rows = [[(3 * i * i + 5 * i * j + j + i // 7) % 7 - 3 for j in range(n * n)] for i in range(k)]
        at = c.choice('at', [0, 57, k - 1]) if k >= 100 else 0
        rows[at] = list(c.mat('x', 1, n * n)[0])
        if k >= 100:
            G = c.np.array([[2, 1], [1, 1]]) * 1.0
        xs = c.np.array(rows)
        got = m.Cauchy_dist_vec(xs, E1, G)
        c.same('one distance for each', len(got), k)
        for i in ([at, 0, 1, 50, k - 1] if k >= 100 else range(k)):
            c.eq('entry is the scalar distance', got[i], m.Cauchy_dist(xs[i], E1, G))
    else:
        k = c.choice('size', [1, 2, 50, 99, 100, 101, 150, 230])
        E1, E2 = _bases(c, n)
        rs = c.np.random.RandomState(c.rng.randrange(10 ** 6))
        xs = rs.randint(-3, 4, size=(k, n * n))
        if c.choice('float', [False, True]):
            xs = xs * 1.0
        shape = c.choice('shape', ['flat', 'mats'])
        arg = xs if shape == 'flat' else xs.reshape(k, n, n)
        keep = arg.copy()
        got = m.Cauchy_dist_vec(arg, E1, c.inv(E2))
        c.same('argument unchanged', arg, keep)
        c.eq('entries are the scalar distances', got, [m.Cauchy_dist(x, E1, c.inv(E2)) for x in xs])
