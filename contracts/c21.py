"""C21: batch matrix routines."""
from vc.api import contract

MM = 'structrans.mat_math'
TW = 'structrans.marttrans.twin'


def _batch(c, name, d, N, kind):
    return c.mat(name, N, d * d, kind, -4, 4) if kind == 'i' else c.mat(name, N, d * d)


def _gen(c, d, kind, *names, **kw):
    """one or more batches of arbitrary length (verifier: one generic row) of d x d matrices"""
    if c.sym:
        rows = [c.vec(n, d * d, kw.get(n, kind)) for n in names]
        return [c.batch(r) for r in rows], 1, [[r] for r in rows]
    N = c.choice('N', [1, 2, 3, 5, 8])
    ms = [_batch(c, n, d, N, kw.get(n, kind)) for n in names]
    return ms, N, [[m[i].copy() for i in range(N)] for m in ms]


def _row(c, b, i):
    return c.brow(b) if c.sym else b[i]


@contract('C21', [MM + '.mat_dot'], n=150)
def dot(c):
    d = c.choice('d', [1, 2, 3])
    kind = c.choice('kind', ['f', 'i'])
    (A, B), N, (ra, rb) = _gen(c, d, kind, 'A', 'B', B=c.choice('kindB', ['f', 'i']))
    C = c.mod(MM).mat_dot(A, B)
    c.true('as many rows', len(C) == len(A))
    for i in range(N):
        c.eq('row is the product', _row(c, C, i).reshape(d, d), ra[i].reshape(d, d).dot(rb[i].reshape(d, d)))
        c.eq('first argument unchanged', _row(c, A, i), ra[i])
        c.eq('second argument unchanged', _row(c, B, i), rb[i])


@contract('C21', [MM + '.mat_trace'], n=100)
def trace(c):
    d = c.choice('d', [1, 2, 3, 4])
    kind = c.choice('kind', ['f', 'i'])
    (A,), N, (ra,) = _gen(c, d, kind, 'A')
    t = c.mod(MM).mat_trace(A)
    c.true('one number for each row', len(t) == len(A))
    for i in range(N):
        c.eq('trace', _row(c, t, i), sum(ra[i][k * d + k] for k in range(d)))
        c.eq('argument unchanged', _row(c, A, i), ra[i])


@contract('C21', [MM + '.mat_det'], n=100)
def det(c):
    d = c.choice('d', [1, 2, 3, 4])
    kind = c.choice('kind', ['f', 'i'])
    (A,), N, (ra,) = _gen(c, d, kind, 'A')
    t = c.mod(MM).mat_det(A)
    c.true('one number for each row', len(t) == len(A))
    for i in range(N):
        c.eq('determinant', _row(c, t, i), c.np.linalg.det(ra[i].reshape(d, d)))
        c.eq('argument unchanged', _row(c, A, i), ra[i])


@contract('C21', [MM + '.mat_T'], n=100)
def transpose(c):
    d = c.choice('d', [1, 2, 3, 4])
    kind = c.choice('kind', ['f', 'i'])
    (A,), N, (ra,) = _gen(c, d, kind, 'A')
    t = c.mod(MM).mat_T(A)
    c.true('as many rows', len(t) == len(A))
    for i in range(N):
        c.eq('transpose', _row(c, t, i).reshape(d, d), ra[i].reshape(d, d).T)
        c.eq('argument unchanged', _row(c, A, i), ra[i])


@contract('C21', [MM + '.mat_dot', MM + '.mat_trace', MM + '.mat_det', MM + '.mat_T'], n=150,
          bounded='batches of 1 to 3 rows (the unbounded batch contracts cover the rest)')
def rows(c):
    """the same with 1-3 rows written out; also decides code that treats the rows one by one"""
    d = c.choice('d', [1, 2, 3])
    N = c.choice('N', [1, 2, 3])
    A = c.mat('A', N, d * d)
    B = c.mat('B', N, d * d)
    M = c.mod(MM)
    C, t, dt, tr = M.mat_dot(A, B), M.mat_trace(A), M.mat_det(A), M.mat_T(A)
    c.true('as many rows', len(C) == N and len(t) == N and len(dt) == N and len(tr) == N)
    for i in range(N):
        a, b = A[i].reshape(d, d), B[i].reshape(d, d)
        c.eq('row is the product', C[i].reshape(d, d), a.dot(b))
        c.eq('trace', t[i], sum(a[k, k] for k in range(d)))
        c.eq('determinant', dt[i], c.np.linalg.det(a))
        c.eq('transpose', tr[i].reshape(d, d), a.T)


def cof(c, A):
    n = len(A)
    return [[(-1) ** (i + j) * c.np.linalg.det(c.np.array([[A[p, q] for q in range(n) if q != j] for p in range(n) if p != i]))
             for j in range(n)] for i in range(n)]


@contract('C21', [MM + '.cofactor', TW + '._brute_cof'], n=150)
def cofactor(c):
    d = c.choice('d', [2, 3, 4])
    kind = c.choice('kind', ['f', 'i'])
    A = c.mat('A', d, kind=kind)
    A0 = A.copy()
    C = c.mod(MM).cofactor(A)
    c.eq('cofactor matrix', C, cof(c, A))
    if d == 3:
        c.eq('cofactor of the twin module', c.mod(TW)._brute_cof(A), cof(c, A))
    c.eq('argument unchanged', A, A0)


@contract('C21', [MM + '.cofactor'], n=10)
def cofactor_rect(c):
    A = c.mat('A', 2, 3)
    c.true('not square: nothing', c.mod(MM).cofactor(A) is None)


@contract('C21', [MM + '.mat_eig'], n=120, sym=False)
def eig(c):
    d = c.choice('d', [1, 2, 3, 4])
    N = c.choice('N', [1, 2, 3, 6])
    np = c.np
    rows = []
    for i in range(N):
        lam = c.vec('lam%d' % i, d)
        if d > 1:
            # separated: eigenvalues of a defective or nearly defective matrix are not determined to rounding
            lam = np.array([lam[k] / 6 + 1.5 * k * (1 if lam[0] > 0 else -1) for k in range(d)])
        P = np.eye(d) + 0.5 * c.mat('P%d' % i, d) / 3
        c.require(abs(np.linalg.det(P)) > 0.1)
        rows.append((lam, P.dot(np.diag(lam)).dot(np.linalg.inv(P))))
    A = np.array([m.reshape(d * d) for _, m in rows])
    A0 = A.copy()
    e = c.mod(MM).mat_eig(A)
    c.true('shape', e.shape == (N, d))
    for i in range(N):
        c.eq('eigenvalues', sorted(e[i]), sorted(rows[i][0]), tol=1e-5)
    c.eq('argument unchanged', A, A0)


@contract('C21', [MM + '.unique_rows'], n=150, sym=False)
def unique(c):
    N = c.choice('N', [1, 2, 5, 12, 30])
    k = c.choice('k', [1, 2, 3, 9])
    hi = c.choice('hi', [0, 1, 2])
    kind = c.choice('kind', ['i', 'f', 'strided'])
    A = c.mat('A', N, k, 'i', -hi, hi)
    if kind == 'f':
        A = A * 0.5 + 0.0
    elif kind == 'strided':
        A = c.np.repeat(A, 2, axis=1)[:, ::2]
    A0 = A.copy()
    U, idx = c.mod(MM).unique_rows(A)
    want = {r.tobytes(): r for r in c.np.ascontiguousarray(A)}
    got = [c.np.ascontiguousarray(r).tobytes() for r in U]
    c.true('each distinct row once', len(got) == len(set(got)) and set(got) == set(want))
    c.true('an index for each', len(idx) == len(U))
    c.eq('index of an occurrence', A0[idx], U)
    c.eq('argument unchanged', A, A0)
