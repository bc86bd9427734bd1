"""C01: Hermite normal form decomposition."""
from vc.api import contract

HNF = 'structrans.crystallography.hnf'
SUB = 'structrans.crystallography.sublattice'


def _check_form(c, H, n, pre=''):
    for i in range(n):
        c.true(pre + 'diagonal positive', H[i, i] > 0)
        for j in range(n):
            if j > i:
                c.true(pre + 'lower triangular', H[i, j] == 0)
            elif j < i:
                c.true(pre + 'entries left of the diagonal at most 0', H[i, j] <= 0)
                c.true(pre + 'entries left of the diagonal above -H_ii', H[i, j] > -H[i, i])


def _bareiss(M):
    """exact integer determinant"""
    n = len(M)
    A = [[int(x) for x in r] for r in M]
    s, prev = 1, 1
    for k in range(n - 1):
        if A[k][k] == 0:
            p = [r for r in range(k + 1, n) if A[r][k]]
            if not p:
                return 0
            A[k], A[p[0]] = A[p[0]], A[k]
            s = -s
        for i in range(k + 1, n):
            for j in range(k + 1, n):
                A[i][j] = (A[i][j] * A[k][k] - A[i][k] * A[k][j]) // prev
        prev = A[k][k]
    return s * A[-1][-1]


def _gen(c):
    n = c.choice('n', [1, 2, 3, 3, 4, 5])
    kind = c.choice('kind', ['small', 'sparse', 'large', 'lower', 'upper', 'negative', 'column'])
    big = {1: 10 ** 6, 2: 100000, 3: 1000, 4: 60, 5: 12}[n]
    hi = {'small': 5, 'sparse': 1, 'large': big, 'lower': 9, 'upper': 9, 'negative': 7, 'column': 12}[kind]
    M = c.mat('M', n, kind='i', lo=-hi, hi=(-1 if kind == 'negative' else hi))
    if kind == 'lower':
        M = c.np.tril(M)
    elif kind == 'upper':
        M = c.np.triu(M)
    elif kind == 'column' and n > 1:
        M[:, n - 1] = M[:, n - 1] * 6
    d = _bareiss(M)
    c.require(d != 0)
    return n, M, d


def _full(c, mod):
    n, M, d = _gen(c)
    keep = M.copy()
    f = c.mod(mod).hnfd
    H, L = f(M)
    c.same('argument unchanged', M.tolist(), keep.tolist())
    c.integral('H integer', H)
    c.integral('L integer', L)
    HL = [[sum(int(H[i, k]) * int(L[k, j]) for k in range(n)) for j in range(n)] for i in range(n)]
    c.same('M = H L', HL, keep.tolist())
    c.same('|det L| = 1', abs(_bareiss(L)), 1)
    _check_form(c, H, n)
    h = f(M, onlyH=True)
    c.same('onlyH gives the same H', c.np.array(h).tolist(), c.np.array(H).tolist())
    c.same('argument unchanged by onlyH', M.tolist(), keep.tolist())


@contract('C01', HNF + '.hnfd', n=600, sym=False)
def decomposition(c):
    _full(c, HNF)


@contract('C01', SUB + '.hnfd', n=300, sym=False)
def decomposition_sublattice(c):
    _full(c, SUB)


@contract('C01', HNF + '.hnfd', n=300, sym=False)
def canonical(c):
    """same column lattice, same H: M and M*U for unimodular U built from elementary column operations"""
    n, M, d = _gen(c)
    f = c.mod(c.choice('module', [HNF, SUB])).hnfd
    U = c.np.eye(n, dtype='int')
    for k in range(c.choice('ops', [1, 3, 6])):
        op = c.choice('op%d' % k, ['add', 'neg', 'swap'])
        i, j = c.choice('oi%d' % k, list(range(n))), c.choice('oj%d' % k, list(range(n)))
        if op == 'neg':
            U[:, i] *= -1
        elif i != j:
            if op == 'add':
                U[:, i] += c.int('t%d' % k, -3, 3) * U[:, j]
            else:
                U[:, [i, j]] = U[:, [j, i]]
    c.same('same lattice, same H', c.np.array(f(M, onlyH=True)).tolist(), c.np.array(f(M.dot(U), onlyH=True)).tolist())


@contract('C01', HNF + '.hnfd', n=150, sym=False)
def fixed_point(c):
    """an HNF decomposes into itself, lists and floats are accepted"""
    n = c.choice('n', [1, 2, 3, 4])
    H = c.np.zeros((n, n), dtype='int')
    for i in range(n):
        H[i, i] = c.int('d%d' % i, 1, 9)
        for j in range(i):
            H[i, j] = -c.int('h%d%d' % (i, j), 0, int(H[i, i]) - 1)
    f = c.mod(c.choice('module', [HNF, SUB])).hnfd
    form = c.choice('form', ['array', 'list', 'float'])
    A = H if form == 'array' else H.tolist() if form == 'list' else H.astype('float')
    G, L = f(A)
    c.eq('H of an HNF is itself', G, H)
    c.eq('L of an HNF is the identity', L, c.np.eye(n))


# ------------------------------------------------------------------ deductive part
from contracts.common import private, int_group      # noqa: E402


def _coef(c, x, m, k):
    """coefficient (a polynomial free of column entries) of the input entry m[k] in x"""
    return c.coeff(x, m[k])


@contract('C01', [HNF + '.__gcd_cols', HNF + '.__swap_cols', HNF + '.__add_col', SUB + '.__gcd_cols', SUB + '.__swap_cols', SUB + '.__add_col'],
          run=False, timeout=200)
def gcd_cols(c):
    """Euclid on two columns: for first entries >= 0 the result has 0 and a nonnegative entry there, the two columns are a
    unimodular integer combination of the old ones, nothing else changes; every round decreases the second first entry"""
    mod = c.choice('module', [HNF, SUB])
    f = private(c, mod, '__gcd_cols')
    n = c.choice('n', [2, 3, 4])
    i = c.choice('i', list(range(n - 1)))
    M = c.mat('M', n, kind='i', lo=-6, hi=9)
    c1, c2 = n - i - 2, n - i - 1
    c.require(M[0, c1] >= 0)
    c.require(M[0, c2] >= 0)
    keep = M.copy()
    p, q = keep[:, c1], keep[:, c2]
    st = {}

    def mult(A):
        """integers with A[:, c1] = a p + b q, A[:, c2] = u p + v q, read off row 1"""
        return [[c.coeff(A[1, cc], s[1]) for s in (p, q)] for cc in (c1, c2)]

    def unimod(A, tag=''):
        (a, b), (u, v) = mult(A)
        out = []
        for r in range(n):
            for j in range(n):
                if j == c1:
                    out.append(('combination', A[r, j] == a * p[r] + b * q[r]))
                elif j == c2:
                    out.append(('combination', A[r, j] == u * p[r] + v * q[r]))
                else:
                    out.append(('other columns', A[r, j] == keep[r, j]))
        for x in (a, b, u, v):
            out.append(('integer combination', c.isint(x)))
        d = a * v - b * u
        out.append(('unimodular', c.lor(d == 1, d == -1)))
        return out

    def inv(L):
        A = L['M']
        return [('first entries nonnegative', A[0, c1] >= 0), ('first entries nonnegative', A[0, c2] >= 0)] + unimod(A)

    def havoc(L):
        a, b, u, v = int_group(c, 'U', 4, _unimods)
        c.require(c.lor(a * v - b * u == 1, a * v - b * u == -1))
        A = keep.copy()
        A[:, c1] = a * p + b * q
        A[:, c2] = u * p + v * q
        c.require(A[0, c1] >= 0)
        c.require(A[0, c2] >= 0)
        st['A'] = A.copy()
        return {'M': A}

    def back(L):
        c.true('the second first entry decreases', L['M'][0, c2] < st['A'][0, c2])
    c.loop('__gcd_cols#0', inv, havoc, back)
    R = f(M, -i - 2, -i - 1)
    c.frame('argument unchanged', M, keep)
    c.eq('entry eliminated', R[0, c2], 0)
    c.true('remaining entry nonnegative', R[0, c1] >= 0)
    for nm, b in unimod(R):
        c.true(nm, b)


def _unimods(rng):
    A = [[1, 0], [0, 1]]
    for _ in range(rng.randrange(4)):
        t = rng.randint(0, 3)
        A = [A[1], [A[0][0] - t * A[1][0], A[0][1] - t * A[1][1]]]
    return A[0] + A[1]


@contract('C01', [HNF + '.__nonneg_row', SUB + '.__nonneg_row'], run=False)
def nonneg_row(c):
    """columns are multiplied by 1 or -1 so that row 0 becomes nonnegative"""
    f = private(c, c.choice('module', [HNF, SUB]), '__nonneg_row')
    n = c.choice('n', [2, 3, 4])
    M = c.mat('M', n, kind='i')
    keep = M.copy()
    R = f(M, 0)
    c.frame('argument unchanged', M, keep)
    for j in range(n):
        c.true('nonnegative', R[0, j] >= 0)
        c.true('plus or minus the column', c.lor(c.land(*[R[i, j] == keep[i, j] for i in range(n)]),
                                                 c.land(*[R[i, j] == -keep[i, j] for i in range(n)])))


def _hnf_entries(c, m, tag):
    """an arbitrary m x m Hermite normal form"""
    H = [[0] * m for _ in range(m)]
    for i in range(m):
        H[i][i] = c.int('%s%d%d' % (tag, i, i), 1, 7)
        c.require(H[i][i] >= 1)
        for j in range(i):
            H[i][j] = c.int('%s%d%d' % (tag, i, j), -6, 0)
            c.require(H[i][j] <= 0)
            c.require(H[i][j] > -H[i][i])
    return c.np.array(H)


@contract('C01', [HNF + '.hnfd', SUB + '.hnfd'], run=False, timeout=500, z3_ms=15000)
def hnfd_body(c):
    """the decomposition from the contracts of __nonneg_row, __gcd_cols and (recursively) hnfd.  Every nonsingular M runs
    through M D = M_0 (signs), M_{k+1} = M_k E_k (Euclid steps), M_{n-1} = [[g, 0], [v, K]] with K = Hs Ls (recursion); M is
    built from those pieces backwards, so that it ranges over all nonsingular matrices of the dimension."""
    mod = c.choice('module', [HNF, SUB])
    n = c.choice('n', [1, 2, 3, 4, 5] if c.tier == 'thorough' else [1, 2, 3, 4])
    if n == 1:
        x = c.int('x', -9, 9)
        c.require(x != 0)
        M = c.np.array([[x]])
        H, L = c.mod(mod).hnfd(M)
        c.true('diagonal positive', H[0, 0] > 0)
        c.eq('M = H L', H.dot(L), M)
        c.true('|det L| = 1', c.lor(L[0, 0] == 1, L[0, 0] == -1))
        c.eq('onlyH gives the same H', c.mod(mod).hnfd(M, onlyH=True), H)
        return
    g = c.int('g', 1, 9)
    c.require(g >= 1)
    v = [c.int('v%d' % i, -9, 9) for i in range(n - 1)]
    Hs = _hnf_entries(c, n - 1, 'h')
    Ls = c.mat('K', n - 1, kind='i', lo=-2, hi=2)      # the unimodular factor of the recursion (its determinant is not used)
    K = Hs.dot(Ls)
    G = [[g] + [0] * (n - 1)] + [[v[i]] + [K[i, j] for j in range(n - 1)] for i in range(n - 1)]
    mats = [c.np.array(G)]                              # mats[k]: the matrix after n-1-k Euclid steps ... built backwards
    E = []
    for k in reversed(range(n - 1)):
        c1, c2 = n - k - 2, n - k - 1
        w = int_group(c, 'E%d' % k, 4, _unimods)
        B = c.np.eye(n, dtype='int')
        B[c1, c1], B[c1, c2], B[c2, c1], B[c2, c2] = w
        P = mats[-1].dot(B)
        for j in range(n):
            if j <= c2:
                c.require(P[0, j] >= 0)
        E.append(B)
        mats.append(P)
    D = [c.sign('d%d' % j) for j in range(n)]
    M = mats[-1].dot(c.np.diag(D))
    steps = list(reversed(mats))                        # steps[0] = M D, steps[k] = after k Euclid steps
    pos = {'k': None}

    def nonneg(A, r):
        c.soft('row 0 of the whole matrix is made nonnegative', r == 0 and c.close(A, M))
        pos['k'] = 0
        return steps[0].copy()

    def gcd(A, a, b):
        k = pos['k']
        c.soft('Euclid on neighbouring columns', k is not None and k < n - 1 and int(a) == -k - 2 and int(b) == -k - 1 and c.close(A, steps[k]))
        pos['k'] = k + 1
        return steps[k + 1].copy()

    def rec(A, onlyH=False):
        c.soft('recursion on the lower right block', bool(onlyH) and pos['k'] == n - 1 and c.close(A, K))
        return Hs.copy()
    c.stub(mod + ':__nonneg_row', nonneg)
    c.stub(mod + ':__gcd_cols', gcd)
    f = c.stub(mod + ':hnfd', rec)
    keep = M.copy()
    h = f(M, onlyH=True)
    c.eq('argument unchanged by onlyH', M, keep)
    _check_form(c, h, n)
    for i in range(n):
        c.eq('diagonal', h[i, i], g if i == 0 else Hs[i - 1, i - 1])
    H, L = f(M)
    c.eq('argument unchanged', M, keep)
    c.eq('onlyH gives the same H', h, H)
    c.integral('H integer', H)
    c.integral('L integer', L)
    c.eq('M = H L', H.dot(L), M)


@contract('C01', [HNF + '.hnfd'], run=False)
def uniqueness(c):
    """lemma: Hermite normal forms of the same column lattice are equal (H2 = H1 U, U integer with determinant 1 or -1;
    U = H1^-1 H2 is lower triangular)"""
    n = c.choice('n', [2, 3, 4, 5])
    A = _hnf_entries(c, n, 'a')
    U = [[c.int('u%d%d' % (i, j), -2, 2) if j <= i else 0 for j in range(n)] for i in range(n)]
    B = A.dot(c.np.array(U))
    # diagonal: B_ii = A_ii U_ii > 0, so U_ii >= 1; the product of the U_ii is |det U| = 1
    k = 1
    for i in range(n):
        c.require(B[i, i] > 0)
        c.lemma('U_ii >= 1', U[i][i] >= 1)
    for i in range(n):
        k = k * U[i][i]
    c.require(k == 1)
    for i in range(n):
        c.lemma('U_ii = 1', U[i][i] == 1)
    for i in range(n):
        for j in reversed(range(i)):
            c.require(B[i, j] <= 0)
            c.require(B[i, j] > -B[i, i])
            c.lemma('U_ij = 0', U[i][j] == 0)
    c.eq('the same form', B, A)
