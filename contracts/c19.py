"""C19: twins."""
from vc.api import contract
from contracts.common import MG
from contracts import c17

TW = 'structrans.marttrans.twin'
UT = 'structrans.util.utils'


def twofold(c, e):
    return 2 * c.np.outer(e, e) - c.np.eye(3)


def symU(c):
    if c.sym:
        return c.symmat('U')
    # positive definite, eigenvalues 0.6..1.6
    V = c.rot('V')
    l = [c.between('l%d' % i, 0.7, 1.5) for i in range(3)]
    U = V.dot(c.np.diag(l)).dot(V.T)
    return (U + U.T) / 2


def check_twin(c, tp, Ui, Uj, tol=1e-6):
    Q, a, n = tp
    c.eq('Q U_j = U_i + a(x)n', Q.dot(Uj), Ui + c.np.outer(a, n), tol=tol)
    c.eq('|n| = 1', n.dot(n), 1, tol=tol)
    c.eq('Q orthogonal', Q.dot(Q.T), c.np.eye(3), tol=tol)
    c.eq('Q proper', c.det(Q), 1, tol=tol)


@contract('C19', [TW + '._solvetwin'], n=150, timeout=500)
def type_I_II(c):
    """closed forms for a unit two-fold axis e (ax() returns unit vectors) with U_j = R U_i R'"""
    U = symU(c)
    e = c.unit('e')
    d = c.det(U)
    c.positive(d) if c.sym else None
    R = twofold(c, e)
    Uj = R.dot(U).dot(R)
    if not c.sym:
        c.require(abs(Uj - U).max() > 1e-2)
    else:
        c.lemma_inv('inverse of a variant', Uj, R.dot(c.inv(U)).dot(R))
        c.positive(U.dot(e).dot(U.dot(e)))
        c.positive(c.inv(U).dot(e).dot(c.inv(U).dot(e)))
        # the variants differ, i.e. e is no eigenvector of U: strict Cauchy-Schwarz for e and U^2 e
        c.positive(U.dot(U).dot(e).dot(U.dot(U).dot(e)) - U.dot(e).dot(U.dot(e)) * U.dot(e).dot(U.dot(e)))
    r = c.mod(TW)._solvetwin(U, Uj, e)
    c.true('two twins', len(r) == 2)
    for tp in r:
        Q, a, n = tp
        if c.sym:
            F = U + c.np.outer(a, n)
            c.eq('Q = (U_i + a(x)n) U_j^-1', Q, F.dot(R.dot(c.inv(U)).dot(R)))
            c.eq('|n| = 1', n.dot(n), 1)
            c.eq('(U_i + n(x)a)(U_i + a(x)n) = U_j^2', F.T.dot(F), Uj.dot(Uj))
            c.eq('det(U_i + a(x)n) = det U_j', c.det(F), d)
        else:
            check_twin(c, tp, U, Uj)


@contract('C19', [TW + '._solvetwin'], n=150, timeout=300)
def generic_branch(c):
    """without a usable axis: from the rank-one solution of C = U_i^-1 U_j^2 U_i^-1 (contract of _solve_am: C18)"""
    U = symU(c)
    M = c.mod(TW)
    if c.sym:
        W = c.symmat('W')
        c.nonzero(c.det(U)), c.nonzero(c.det(W))
        b = [c.vec('b%d' % i, 3) for i in range(2)]
        m = [c.vec('m%d' % i, 3) for i in range(2)]
        for x in m:
            c.positive(U.dot(x).dot(U.dot(x)))
        seen = []

        def am(C):
            seen.append(C)
            return tuple((c.mat('R%d' % i, 3), b[i], m[i]) for i in range(2))
        c.stub(TW + ':_solve_am', am)
        r = M._solvetwin(U, W, None)
        Ui = c.inv(U)
        c.eq('solved for U_i^-1 U_j^2 U_i^-1', seen[0], Ui.dot(W).dot(W).dot(Ui))
        for i in range(2):
            Q, a, n = r[i]
            c.eq('U_i + a(x)n = (I + b(x)m) U_i', U + c.np.outer(a, n), (c.np.eye(3) + c.np.outer(b[i], m[i])).dot(U))
            c.eq('|n| = 1', n.dot(n), 1)
            c.eq('Q = (U_i + a(x)n) U_j^-1', Q, (U + c.np.outer(a, n)).dot(c.inv(W)))
        return
    # a twinnable pair which need not be related by a two-fold axis: U_j^2 = U_i (I + m b)(I + b m) U_i
    e = c.unit('e')
    R = twofold(c, e)
    Uj = R.dot(U).dot(R)
    c.require(abs(Uj - U).max() > 1e-2)
    kind = c.choice('arg', ['none', 'wrong axis'])
    bad = c.unit('f')
    c.require(abs(twofold(c, bad).dot(U).dot(twofold(c, bad)) - Uj).max() > 1e-3)
    ev = sorted(c.np.linalg.eigvalsh(c.inv(U).dot(Uj).dot(Uj).dot(c.inv(U))))
    c.require(ev[2] - ev[0] > 1e-2)
    r = M._solvetwin(U, Uj, None if kind == 'none' else bad)
    c.true('two twins', len(r) == 2)
    for tp in r:
        check_twin(c, tp, U, Uj, tol=1e-5)


def cofm(c, A):
    return c.np.array([[A[1][1] * A[2][2] - A[1][2] * A[2][1], A[1][2] * A[2][0] - A[1][0] * A[2][2], A[1][0] * A[2][1] - A[1][1] * A[2][0]],
                       [A[0][2] * A[2][1] - A[0][1] * A[2][2], A[0][0] * A[2][2] - A[0][2] * A[2][0], A[0][1] * A[2][0] - A[0][0] * A[2][1]],
                       [A[0][1] * A[1][2] - A[0][2] * A[1][1], A[0][2] * A[1][0] - A[0][0] * A[1][2], A[0][0] * A[1][1] - A[0][1] * A[1][0]]])


@contract('C19', [TW + '._solve_f', TW + '._brute_cof'], n=300, timeout=300)
def fraction(c):
    """g(f) = det((U + f n(x)a)(U + f a(x)n) - I) is quadratic; for variants g(0) = g(1), so g(f) = g(0) + f(1 - f) g'(0)"""
    U = symU(c)
    I = c.np.eye(3)
    A = U.dot(U) - I
    f = c.mod(TW)._solve_f
    if c.sym:
        g0 = c.real('g0')
        s = c.real('slope')
        h = c.real('x')
        # the code must use g(0) = det(U^2 - I) and g'(0) = 2 U a . cof(U^2 - I) n
        a, n = c.vec('a', 3), c.vec('n', 3)
        slope = 2 * U.dot(a).dot(cofm(c, A).dot(n))
        d0 = c.det(A)
        g = lambda t: c.det((U + t * c.np.outer(n, a)).dot(U + t * c.np.outer(a, n)) - I)
        if c.choice('part', ['lemma', 'code']) == 'lemma':
            t = c.real('t')
            c.eq('lemma: g is quadratic with these coefficients', g(t), d0 + slope * t + (g(1) - d0 - slope) * t * t)
            return
        r = f(U, a, n)
        if r is None:
            return
        c.le('fraction at least 0', 0, r)
        c.le('fraction at most 1', r, 1)
        if isinstance(r, int):
            return                                # rounded to the end of the interval (tolerance 1e-6)
        c.eq('g(0) + f(1 - f) g\'(0) = 0', d0 + slope * r * (1 - r), 0)
        return
    e = c.unit('e')
    R = twofold(c, e)
    Uj = R.dot(U).dot(R)
    c.require(abs(Uj - U).max() > 1e-2)
    for Q, a, n in c.mod(TW)._solvetwin(U, Uj, e):
        r = f(U, a, n)
        check_f(c, r, U, a, n)


def gdet(c, U, a, n, t):
    return c.det((U + t * c.np.outer(n, a)).dot(U + t * c.np.outer(a, n)) - c.np.eye(3))


def check_f(c, r, U, a, n):
    if r is None:
        # no solution reported: g does not change sign on a fine interior grid
        g = [gdet(c, U, a, n, k / 16.0) for k in range(17)]
        c.true('a fraction is reported when g changes sign', not (min(g) < -1e-7 and max(g) > 1e-7))
        return
    c.true('fraction in [0, 1]', 0 <= r <= 1)
    c.eq('the twinned laminate has middle eigenvalue 1', gdet(c, U, a, n, r), 0, tol=1e-5)


@contract('C19', [TW + '.TwinPair.__init__', TW + '.TwinPair.istwinnable'], n=200, timeout=300)
def twinnable(c):
    """exactly when the middle eigenvalue of U_i^-1 U_j^2 U_i^-1 is 1 within 5e-3 and the variants differ"""
    M = c.mod(TW)
    if c.sym:
        c.opaque()
        U, W = c.symmat('U'), c.symmat('W')
        c.nonzero(c.det(U))
        same = c.choice('same', [False, True])
        if same:
            W = U.copy()
        else:
            i, j = c.choice('ij', [(0, 0), (0, 1), (2, 1)])
            c.require(c.lor(U[i, j] - W[i, j] > 0.01, U[i, j] - W[i, j] < -0.01))
        e = [c.real('e%d' % i) for i in range(3)]
        c.require(c.land(e[0] <= e[1], e[1] <= e[2]))
        V = c.rot('V')
        seen = []

        def se(A):
            seen.append(A)
            return c.np.array(e), V.T
        c.stub(UT + ':sort_eig', se)
        tp = M.TwinPair(U, W, skipcheck=True)
        Ui = c.inv(U)
        c.eq('eigenvalues of U_i^-1 U_j^2 U_i^-1', seen[0], Ui.dot(W).dot(W.dot(Ui)))
        d = e[1] - 1
        c.require(c.lor(d > 0.005001, d < -0.005001, c.land(d < 0.004999, d > -0.004999)))
        c.true('exactly within the tolerance', c.iff(bool(tp.istwinnable()), c.land(not same, d < 0.005, d > -0.005)))
        c.eq('U_i', tp.Ui(), U)
        c.eq('U_j', tp.Uj(), W)
        return
    U = symU(c)
    how = c.choice('how', ['variant', 'other', 'same', 'near'])
    if how == 'variant':
        R = twofold(c, c.unit('e'))
        W = R.dot(U).dot(R)
    elif how == 'same':
        W = U.copy()
    elif how == 'near':
        R = twofold(c, c.unit('e'))
        W = R.dot(U).dot(R) * (1 + c.choice('d', [1, -1]) * c.between('eps', 0.0001, 0.006))
    else:
        V = c.rot('W')
        W = V.dot(U).dot(V.T)
    W = (W + W.T) / 2
    ev = sorted(c.np.linalg.eigvals(c.inv(U).dot(W).dot(W).dot(c.inv(U))).real)
    c.require(abs(abs(ev[1] - 1) - 5e-3) > 1e-6)
    dif = abs(U - W).max()
    c.require(dif > 1e-6 or dif == 0)
    tp = M.TwinPair(U, W, *([True] if c.choice('skip', [False, True]) else []))
    c.same('exactly within the tolerance', bool(tp.istwinnable()), bool(dif > 0 and abs(ev[1] - 1) < 5e-3))
    if not tp.istwinnable():
        c.raises('no twin parameters', AttributeError, tp.twinparam)
        c.raises('no axis', AttributeError, tp.ax)


@contract('C19', [TW + '.TwinPair.__init__'], n=30)
def pair_rejects(c):
    k = c.choice('kind', ['asym', 'indef', 'list', 'shape'])
    G = c.np.array([[1.1, 0.05, 0], [0.05, 1.2, 0], [0, 0, 0.9]])
    d = c.pos('d', 0.1, 2.0)
    c.require(d > 0.01)
    B = {'asym': lambda: G + c.np.array([[0, d, 0], [0, 0, 0], [0, 0, 0]]), 'indef': lambda: G - 3 * d * c.np.eye(3) if not c.sym else -d * G,
         'list': lambda: [[1.1, 0.05, 0], [0.05, 1.2, 0], [0, 0, 0.9]], 'shape': lambda: c.np.eye(2)}[k]()
    if k == 'indef' and not c.sym:
        c.require(c.np.linalg.eigvalsh(B)[0] < -0.01)
    T = c.mod(TW).TwinPair
    if c.choice('pos', [0, 1]):
        c.raises('rejected', ValueError, lambda: T(G, B))
    else:
        c.raises('rejected', ValueError, lambda: T(B, G))


def system(c):
    fam = c.choice('family', ['tetragonal', 'ortho', 'mono', 'diag', 'trigonal', 'generic'])
    U = c17.family(c, fam)
    c.require(c.np.linalg.eigvalsh(U)[0] > 0.3)
    kind = c.choice('parent', ['cubic', 'cubic', 'tetragonal', 'hex'])
    G = c17.subgroups(c, kind)
    m = c.mod('structrans.marttrans.martensite').Martensite(U, G)
    c.require(m.isreversible())
    return m, G


def midev(c, U, W):
    Ui = c.inv(U)
    return sorted(c.np.linalg.eigvals(Ui.dot(W).dot(W).dot(Ui)).real)


@contract('C19', [TW + '.TwinSystem', TW + '.TwinPair'], n=60, sym=False, evaltime=120)
def systems(c):
    """every pair of variants of a transformation: table, parameters, axes, fractions"""
    m, G = system(c)
    M = c.mod(TW)
    V = m.getvariants()
    ts = M.TwinSystem(m) if c.choice('ctor', ['mart', 'list']) == 'mart' else M.TwinSystem([list(map(list, v)) for v in V], G)
    order = c.choice('order', [0, 1])
    if order:
        pairs, table = ts.getTwinpairs(), ts.TwinTable()
    else:
        table, pairs = ts.TwinTable(), ts.getTwinpairs()
    mids = {}
    for i in range(len(V)):
        for j in range(i + 1, len(V)):
            mids[i, j] = midev(c, V[i], V[j])
            c.require(abs(abs(mids[i, j][1] - 1) - 5e-3) > 1e-6)
    want = [k for k in sorted(mids) if abs(mids[k][1] - 1) < 5e-3]
    c.same('twin table: exactly the twinnable index pairs, in order', [tuple(int(x) for x in t) for t in table], want)
    c.same('one twin pair for each', len(pairs), len(want))
    for (i, j), tp in zip(want, pairs):
        Ui, Uj = V[i], V[j]
        c.eq('pair holds its variants', [tp.Ui(), tp.Uj()], [Ui, Uj])
        c.true('twinnable', tp.istwinnable())
        for e in tp.ax():
            c.eq('axis is a unit vector', e.dot(e), 1)
            R = twofold(c, e)
            c.eq('two-fold rotation about the reported axis relates the variants', R.dot(Ui).dot(R.T), Uj, tol=1e-5)
        exact = abs(mids[i, j][1] - 1) < 1e-10
        if not exact or mids[i, j][2] - mids[i, j][0] < 1e-3:
            continue
        for tw in tp.twinparam():
            check_twin(c, tw, Ui, Uj, tol=1e-5)
        fs = tp.volumefrac()
        c.same('a fraction for each twin', len(fs), 2)
        for f, (Q, a, n) in zip(fs, tp.twinparam()):
            check_f(c, f, Ui, a, n)


@contract('C19', [TW + '.TwinPair.ax', TW + '.TwinPair.twinparam', TW + '.TwinPair.volumefrac'], n=250, sym=False)
def pairs(c):
    """two variants related by any two-fold rotation"""
    U = symU(c) if c.choice('gen', [False, True]) else c17.family(c, c.choice('family', ['tetragonal', 'ortho', 'mono', 'diag', 'generic']))
    c.require(c.np.linalg.eigvalsh(U)[0] > 0.3)
    if c.choice('special', [False, True]):
        e = c.np.array(c.choice('axis', [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, -1, 0), (1, 0, 1), (0, 1, 1), (0, 1, -1)]), dtype='float')
        e = e / c.sqrt(e.dot(e))
    else:
        e = c.unit('e')
    R = twofold(c, e)
    W = R.dot(U).dot(R)
    W = (W + W.T) / 2
    c.require(abs(W - U).max() > 2e-2)
    tp = c.mod(TW).TwinPair(U, W)
    c.true('twinnable', tp.istwinnable())
    ax = tp.ax()
    for a in ax:
        S = twofold(c, a)
        c.eq('axis is a unit vector', a.dot(a), 1)
        c.eq('two-fold rotation about the reported axis relates the variants', S.dot(U).dot(S), W, tol=1e-5)
    ev = midev(c, U, W)
    c.require(ev[2] - ev[0] > 1e-3)
    tps = tp.twinparam()
    c.true('two twins', len(tps) == 2)
    for tw in tps:
        check_twin(c, tw, U, W, tol=1e-5)
    for f, (Q, a, n) in zip(tp.volumefrac(), tps):
        check_f(c, f, U, a, n)


@contract('C19', [TW + '.TwinSystem.TwinTable', TW + '.TwinSystem.getTwinpairs'], n=20,
          bounded='up to four variants; arbitrary twinnability of every pair')
def table(c):
    M = c.mod(TW)
    N = c.choice('N', [1, 2, 3, 4])
    V = [c.np.eye(3) * (1.0 + k) + 0.25 * k * c.np.array([[0, 1, 0], [1, 0, 0], [0, 0, 0]]) for k in range(N)]
    if not c.sym:
        ts = M.TwinSystem(V)
        t = [tuple(int(x) for x in p) for p in ts.TwinTable()]
        c.same('exactly the twinnable pairs', t, [(i, j) for i in range(N) for j in range(i + 1, N) if M.TwinPair(V[i], V[j]).istwinnable()])
        return
    made = []

    class Pair(object):
        def __init__(self, Ui, Uj, skipcheck=False):
            self.i = [k for k in range(N) if c.close(V[k], Ui)]
            self.j = [k for k in range(N) if c.close(V[k], Uj)]
            made.append(self)

        def istwinnable(self):
            return bool(c.boolvar('tw%d%d' % (self.i[0], self.j[0])))
    c.stub(TW + ':TwinPair', Pair)
    ts = M.TwinSystem(V)
    first = c.choice('first', ['table', 'pairs'])
    if first == 'pairs':
        ts.getTwinpairs()
    t = [tuple(int(x) for x in p) for p in ts.TwinTable()]
    want = [(i, j) for i in range(N) for j in range(i + 1, N) if bool(c.boolvar('tw%d%d' % (i, j)))]
    c.same('exactly the twinnable pairs in order', t, want)
    c.same('one pair object for each', [(p.i[0], p.j[0]) for p in ts.getTwinpairs()], want)
