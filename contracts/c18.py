"""C18: rank-one compatibility solvers."""
from vc.api import contract

UT = 'structrans.util.utils'
CO = 'structrans.marttrans.Compatibility'
TW = 'structrans.marttrans.twin'
MM = 'structrans.mat_math'


def stretch(c, edge=False):
    """C = V diag(p^2, 1, q^2) V' with p < 1 < q: every symmetric positive definite C with middle eigenvalue 1, up to the
    edges p = 1 or q = 1 (run time only)"""
    p = c.between('p', 0.3, 1.0, margin=0.03)
    q = c.between('q', 1.0, 2.5, margin=0.03)
    if not c.sym and edge:
        k = c.choice('edge', ['none', 'p', 'q'])
        p = 1.0 if k == 'p' else p
        q = 1.0 if k == 'q' else q
    c.require(q * q - p * p > 1e-10)
    one = 1.0
    if not c.sym and c.choice('axis', [False, True]):
        V = c.np.eye(3)[:, c.choice('perm', [[0, 1, 2], [1, 0, 2], [2, 1, 0], [1, 2, 0], [2, 0, 1], [0, 2, 1]])]
    else:
        V = c.rot('V')
    lams = [p * p, c.np.array([one])[0], q * q]
    C = V.dot(c.np.diag(lams)).dot(V.T)
    if not c.sym:
        C = (C + C.T) / 2
    c.spectral([(lams, V)])
    c.stub(UT + ':pos_def_sym', lambda U: True)          # its own contract: positive_definite
    S = V.dot(c.np.diag([p, one, q])).dot(V.T)
    if c.sym:
        c.lemma_inv('square root', S, V.dot(c.np.diag([1 / p, one, 1 / q])).dot(V.T))
    return C, S, V, p, q


def check_pair(c, b, m, C, tol=1e-6):
    I = c.np.eye(3)
    c.eq('|m| = 1', m.dot(m), 1)
    c.eq('(I + m(x)b)(I + b(x)m) = C', (I + c.np.outer(m, b)).dot(I + c.np.outer(b, m)), C, tol=tol)


@contract('C18', [UT + '.solve_rank1', UT + '.sort_eig'], n=300, timeout=300)
def rank1(c):
    C, S, V, p, q = stretch(c, True)
    C0 = C.copy()
    r = c.mod(UT).solve_rank1(C)
    c.true('two solutions', len(r) == 2 and len(r[0]) == 2 and len(r[1]) == 2)
    for b, m in r:
        check_pair(c, b, m, C)
    c.eq('argument unchanged', C, C0)


@contract('C18', [CO + '.AM_Solver'], n=300, timeout=300)
def am_solver(c):
    C, S, V, p, q = stretch(c, True)
    C0 = C.copy()
    r = c.mod(CO).AM_Solver(C)
    c.true('two solutions', r is not None and len(r) == 2)
    for b, m in r:
        check_pair(c, b, m, C)
    c.eq('argument unchanged', C, C0)


@contract('C18', [CO + '.AM_Solver'], n=200, timeout=200)
def am_incompatible(c):
    """no solution is reported when the middle eigenvalue differs from 1 by more than the tolerance 1e-4"""
    side = c.choice('side', ['low', 'high'])
    l = c.between('l', 0.3, 0.99985) if side == 'low' else c.between('l', 1.00015, 2.0)
    if not c.sym and c.choice('close', [False, True]):
        l = 1 + (l - 1) * 0.01 + (0.0002 if side == 'high' else -0.0002)
    p, q = c.between('p', 0.2, 3.0), c.between('q', 0.2, 3.0)
    c.require(p + 0.01 < l), c.require(l + 0.01 < q)
    V = c.rot('V')
    C = V.dot(c.np.diag([p, l, q])).dot(V.T)
    if not c.sym:
        C = (C + C.T) / 2
    c.spectral([([p, l, q], V)])
    c.true('nothing is reported', c.mod(CO).AM_Solver(C) is None)


@contract('C18', [TW + '._solve_am'], n=300, timeout=400)
def twin_am(c):
    C, S, V, p, q = stretch(c, True)
    C0 = C.copy()
    r = c.mod(TW)._solve_am(C)
    c.true('two solutions', len(r) == 2)
    I = c.np.eye(3)
    for R, b, m in r:
        check_pair(c, b, m, C)
        c.eq('R sqrt(C) = I + b(x)m', R.dot(S), I + c.np.outer(b, m), tol=1e-5)
        if not c.sym:
            c.eq('R orthogonal', R.dot(R.T), I, tol=1e-5)
            c.eq('R proper', c.det(R), 1, tol=1e-5)
        else:
            # (I + m b)(I + b m) = C = S S gives R'R = I; det(I + b m) = 1 + b.m must be the positive root p q
            c.eq('det(I + b(x)m) = det sqrt(C)', 1 + b.dot(m), p * q)
    c.eq('argument unchanged', C, C0)


@contract('C18', [UT + '.sort_eig', MM + '.eigSort'], n=200)
def sorted_eig(c):
    """eigenvalues ascending with their eigenvectors as rows"""
    l = [c.between('l%d' % i, 0.2, 3.0) for i in range(3)]
    c.require(l[0] + 0.01 < l[1]), c.require(l[1] + 0.01 < l[2])
    V = c.rot('V')
    A = V.dot(c.np.diag(l)).dot(V.T)
    c.spectral([(l, V)])
    f = c.mod(UT).sort_eig if c.choice('which', [0, 1]) == 0 else c.mod(MM).eigSort
    e, v = f(A)
    c.eq('eigenvalues ascending', e, l)
    for i in range(3):
        c.eq('unit eigenvectors', v[i].dot(v[i]), 1)
        c.eq('rows are the eigenvectors', A.dot(v[i]), v[i] * l[i])


@contract('C18', [CO + '.isCompatible', MM + '.eigSort'], n=400, timeout=300)
def compatible(c):
    """A = Q S B, S the symmetric root of C: the middle eigenvalue of B^-T A'A B^-1 is l^2"""
    c.opaque()
    case = c.choice('case', ['one', 'near', 'off', 'low', 'high'])
    l = {'one': lambda: c.np.array([1.0])[0], 'near': lambda: c.between('l', 1 - 2e-6, 1 + 2e-6),
         'off': lambda: c.between('l', 1.0001, 2.0), 'low': lambda: c.between('l', 0.3, 0.9999),
         'high': lambda: c.between('l', 1.001, 1.8)}[case]()
    p, q = c.between('p', 0.2, 3.0), c.between('q', 0.2, 3.0)
    c.require(p * p + 0.01 < l * l), c.require(l * l + 0.01 < q * q)
    V = c.rot('V')
    B = c.mat('B', 3)
    c.nonzero(c.det(B), 0.1)
    S = V.dot(c.np.diag([p, l, q])).dot(V.T)
    if c.sym:
        A = S.dot(B)
        B.T.dot(S.T)                # the verifier recognises A' as this product
        c.spectral([([p * p, l * l, q * q], V)])
    else:
        A = c.rot('Q').dot(S).dot(B)
    r = c.mod(CO).isCompatible(A, B)
    c.same('compatible exactly when the middle eigenvalue is 1', bool(r), case in ('one', 'near'))
    if case == 'one':
        c.same('not arrays', c.mod(CO).isCompatible([[1, 0], [0, 1]], B), False)


@contract('C18', [UT + '.pos_def_sym', UT + '.is_3_by_3'], n=400)
def positive_definite(c):
    """true exactly for symmetric 3x3 arrays with positive leading minors (Sylvester)"""
    k = c.choice('kind', ['sym', 'asym', 'list', 'shape', 'scalar'])
    f = c.mod(UT).pos_def_sym
    S = c.symmat('S')
    if not c.sym and c.choice('shift', [False, True]):
        S = S + 3.0 * c.np.eye(3)
    if k == 'list':
        c.same('not an array', bool(f([list(r) for r in S])), False)
        return
    if k == 'shape':
        c.same('not 3x3', (bool(f(c.np.eye(2))), bool(f(c.np.array([1.0, 2.0, 3.0])))), (False, False))
        return
    if k == 'scalar':
        c.same('not an array', (bool(f(2.0)), bool(f(None))), (False, False))
        return
    if k == 'asym':
        i, j = c.choice('ij', [(0, 1), (1, 0), (0, 2), (2, 1)])
        S[i, j] = S[i, j] + c.between('d', 1e-5, 2.0) * c.choice('sgn', [1, -1])
    m1 = S[0, 0]
    m2 = S[0, 0] * S[1, 1] - S[0, 1] * S[1, 0]
    m3 = c.det(S)
    if c.sym:
        c.require(c.lor(m2 > 0, m2 < 0)), c.require(c.lor(m3 > 0, m3 < 0)), c.require(c.lor(m1 > 0, m1 < 0))
    else:
        c.require(min(abs(m1), abs(m2), abs(m3)) > 1e-7)
    c.true('exactly the symmetric positive definite ones',
           c.iff(bool(f(S)), c.land(k == 'sym', m1 > 0, m2 > 0, m3 > 0)))
