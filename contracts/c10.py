"""C10: LLL reduction.

A nonsingular base is E = V diag(s) M^T with V orthogonal, s > 0 and M unit lower triangular (Gram-Schmidt): the
contracts quantify over V, s and M, hence over every nonsingular base of the dimension."""
from vc.api import contract

LR = 'structrans.crystallography.lattice_reduction'


def ortho(c, n):
    """any orthogonal n x n matrix"""
    if n == 1:
        V = c.np.array([[1.0]])
    elif n == 2:
        u = c.unit('u', 2)
        V = c.np.array([[u[0], -u[1]], [u[1], u[0]]])
    else:
        V = c.rot('q')
    if c.choice('mirror', [False, True]):
        V = V.dot(c.np.diag([-1] + [1] * (n - 1)))
    return V


def gs_base(c, n):
    V = ortho(c, n)
    s = [c.pos('s%d' % i, 0.3, 3.0) for i in range(n)]
    M = [[1 if i == j else 0 for j in range(n)] for i in range(n)]
    for i in range(n):
        for j in range(i):
            M[i][j] = c.real('m%d%d' % (i, j), -4.0, 4.0)
    M = c.np.array(M, dtype='float')
    return V, s, M, V.dot(c.np.diag(s)).dot(M.T)


@contract('C10', [LR + '.Gram_Schmidt'], n=60)
def gram_schmidt(c):
    n = c.choice('dim', [1, 2, 3])
    V, s, M, E = gs_base(c, n)
    keep = E.copy()
    Eo, mu = c.mod(LR).Gram_Schmidt(E)
    c.eq('orthogonal vectors', Eo, V.dot(c.np.diag(s)))
    c.eq('coefficients', mu, M)
    c.eq('argument unchanged', E, keep, tol=0)


def gs_stub(c, V, s, check=True):
    """contract of Gram_Schmidt: for B with V^T B = diag(s) (unit upper triangular)"""
    n = len(s)

    def gs(B):
        P = V.T.dot(B)
        mu = [[1 if i == j else 0 for j in range(n)] for i in range(n)]
        for i in range(n):
            for j in range(n):
                x = P[j, i] / s[j]
                if j < i:
                    mu[i][j] = x
                else:
                    c.eq('Gram_Schmidt is called on a base with the same orthogonal vectors', x, 1 if i == j else 0)
        return V.dot(c.np.diag(s)), c.np.array(mu) * 1.0
    return gs


def upper_inverse(c, M):
    """inverse of the unit upper triangular M^T, by back substitution"""
    n = len(M)
    U = M.T
    X = [[0] * n for _ in range(n)]
    for k in range(n):
        for i in reversed(range(n)):
            t = 1 if i == k else 0
            for j in range(i + 1, n):
                t = t - U[i, j] * X[j][k]
            X[i][k] = t
    return c.np.array(X) * 1.0


@contract('C10', [LR + '.Gauss_reduction'], n=60)
def gauss_reduction(c):
    """same lattice, same orientation, same Gram-Schmidt vectors, coefficients at most 1/2"""
    n = c.choice('dim', [1, 2, 3])
    V, s, M, E = gs_base(c, n)
    keep = E.copy()
    c.stub(LR + ':Gram_Schmidt', gs_stub(c, V, s))
    B = c.mod(LR).Gauss_reduction(E)
    c.eq('argument unchanged', E, keep, tol=0)
    P = V.T.dot(B)
    mu = [[1 if i == j else 0 for j in range(n)] for i in range(n)]
    for i in range(n):
        for j in range(n):
            x = P[j, i] / s[j]
            if j < i:
                mu[i][j] = x
                c.le('coefficient at most 1/2', x, 0.5)
                c.le('coefficient at least -1/2', -x, 0.5)
            else:
                c.eq('the orthogonal vectors do not change', x, 1 if i == j else 0)
    T = upper_inverse(c, M).dot((c.np.array(mu) * 1.0).T)
    if not c.sym:
        c.eq('integer combination', T, c.np.rint(T))
    else:
        c.integral('integer combination', T)
    c.eq('the base is the input times it', B, E.dot(T))


@contract('C10', [LR + '.swapping', LR + '.projection'], n=60)
def swapping(c):
    """reports a swap unless the Lovasz condition with factor 3/4 holds at every place"""
    n = c.choice('dim', [1, 2, 3])
    V, s, M, E = gs_base(c, n)
    keep = E.copy()
    c.stub(LR + ':Gram_Schmidt', gs_stub(c, V, s))
    swap, i = c.mod(LR).swapping(E)
    c.eq('argument unchanged', E, keep, tol=0)
    if swap:
        c.true('a place to swap', 0 <= i < n - 1)
        # the swap is called for: progress
        c.le('Lovasz condition fails there', s[i + 1] * s[i + 1] + M[i + 1, i] * M[i + 1, i] * s[i] * s[i], s[i] * s[i])
    else:
        for k in range(n - 1):
            c.le('Lovasz condition', 0.75 * s[k] * s[k], s[k + 1] * s[k + 1] + M[k + 1, k] * M[k + 1, k] * s[k] * s[k])


@contract('C10', [LR + '.LLL'], run=False, timeout=200,
          note='LLL is taken to end before its own cap of 1000 rounds (partial correctness of its loop)')
def lll(c):
    """loop invariant: B = E W with W an integer matrix of determinant +-1, and once swap is False B is what
    Gauss_reduction returned and swapping accepted; the final sign change restores the orientation"""
    np = c.np
    n = c.choice('dim', [1, 2, 3])
    c.opaque()
    E = c.mat('E', n)
    keep = E.copy()
    c.nonzero(c.det(E))
    g = {'B': E.copy(), 'exit': None}

    def det(A):
        if n == 1:
            return A[0, 0]
        if n == 2:
            return A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
        return sum(A[0, k] * (A[1, (k + 1) % 3] * A[2, (k + 2) % 3] - A[1, (k + 2) % 3] * A[2, (k + 1) % 3]) for k in range(3))

    def gauss(B):
        T = np.array([[1 if i == j else c.int('T%d%d' % (i, j)) if i < j else 0 for j in range(n)] for i in range(n)])
        g['T'], g['gout'] = T, B.dot(T)
        return B.dot(T)

    def swapping(B):
        g['sin'] = B.copy()
        k = c.choice('swap at', [-1] + list(range(n - 1)))
        g['at'] = k
        return k >= 0, k

    c.stub(LR + ':Gauss_reduction', gauss)
    c.stub(LR + ':swapping', swapping)

    def inv(L):
        """relative to the state B0 at the head: B = B0 W, W integer with |det W| = 1 (a transitive relation)"""
        B = L['B']
        W = np.eye(n, dtype='int')
        if 'T' in g:
            W = g['T'].copy()
            if g['at'] >= 0:
                k = g['at']
                W[:, [k, k + 1]] = W[:, [k + 1, k]]
        d = det(W)
        out = [('B is the previous B times W', B == g['B'].dot(W)), ('|det W| = 1', c.lor(d == 1, d == -1))]
        if not bool(L['swap']):
            out.append(('B is what swapping accepted', B == g['sin']))
            out.append(('which is what Gauss_reduction returned', B == g['gout']))
        return out

    def havoc(L):
        B = c.mat('B', n)
        g['B'] = B.copy()
        # B = E W, |det W| = 1
        w = c.choice('orientation of W', [1, -1])
        c.require(c.det(B) == w * c.det(E))
        sw = c.choice('swap', [True, False])
        g['exit'] = not sw
        return {'B': B, 'swap': sw, 'i': c.int('i'), 'Niter': c.int('Niter'), 'b': None}

    c.loop('LLL#0', inv, havoc)
    R = c.mod(LR).LLL(E)
    c.require(bool(g['exit']))
    c.eq('argument unchanged', E, keep)
    B = g['B']
    c.same('a matrix of the same size', tuple(R.shape), (n, n))
    flip = np.diag([-1] + [1] * (n - 1))
    same = c.close(R, B)
    c.true('the reduced base, its first vector possibly reversed', same or c.close(R, B.dot(flip)))
    c.eq('same orientation and volume', c.det(B) * (1 if same else -1), c.det(E))


@contract('C10', [LR + '.LLL', LR + '.Gauss_reduction', LR + '.swapping', LR + '.Gram_Schmidt', LR + '.projection'], n=400, sym=False)
def reduced(c):
    """dimensions 1 to 5, float and integer bases, plain and strongly skewed"""
    np = c.np
    n = c.choice('dim', [1, 2, 3, 3, 4, 5])
    rs = np.random.RandomState(int(c._get('seed', lambda: c.rng.randrange(10 ** 6))))
    kind = c.choice('kind', ['float', 'int', 'skew', 'list', 'fortran', 'flat'])
    if kind == 'int':
        E = rs.randint(-6, 7, size=(n, n))
    else:
        E = rs.uniform(-2, 2, size=(n, n))
    c.nonzero(np.linalg.det(E), 0.3)
    if kind == 'skew':
        for _ in range(rs.randint(1, 8)):
            i, j = rs.randint(0, n, 2)
            if i != j:
                E[:, i] += rs.randint(-4, 5) * E[:, j]
    if kind == 'flat':
        E = E.dot(np.diag(10.0 ** rs.randint(-2, 3, size=n)))
    if kind == 'fortran':
        E = np.asfortranarray(E)
    arg = E.tolist() if kind == 'list' else E
    keep = np.array(E, copy=True)
    B = c.mod(LR).LLL(arg)
    c.same('argument unchanged', np.array(arg), keep)
    c.true('a single matrix', isinstance(B, np.ndarray) and B.shape == (n, n))
    W = np.linalg.solve(keep.astype(float), B)
    c.eq('integer combination of the input', W, np.rint(W), tol=1e-6)
    c.eq('same lattice and orientation', np.linalg.det(np.rint(W)), 1)
    # independent Gram-Schmidt
    Q, R = np.linalg.qr(B)
    for i in range(n):
        for j in range(i):
            c.le('|mu| at most 1/2', abs(R[j, i] / R[j, j]), 0.5, tol=1e-6)
    for k in range(n - 1):
        c.le('Lovasz condition 3/4', 0.75 * R[k, k] ** 2, R[k + 1, k + 1] ** 2 + R[k, k + 1] ** 2, tol=1e-6)
