"""C03: lattice equality is equality of point sets."""
from vc.api import contract

LAT = 'structrans.crystallography.lattice'


def _base(c, n, name='E'):
    c.opaque()
    E = c.mat(name, n)
    c.nonzero(c.det(E), 0.2)
    return E


@contract('C03', LAT + '.Lattice.__eq__', n=300, z3_ms=20000)
def equal_iff_unimodular(c):
    """E2 = E1 A.  A integer with |det A| = 1  <=>  equal"""
    n = c.choice('dim', [2, 3, 1, 4] + ([] if c.sym else [4, 5, 6]))
    E1 = _base(c, n)
    A = c.mat('A', n, kind='i', lo=-2, hi=2)
    c.nonzero(c.det(A))
    L = c.mod(LAT).Lattice
    r = (L(E1) == L(E1.dot(A)))
    d = c.det(A)
    uni = c.lor(d == 1, d == -1) if c.sym else abs(abs(d) - 1) < 1e-6
    c.true('equal exactly when the change of base is unimodular', c.iff(r, uni))


@contract('C03', LAT + '.Lattice.__eq__', n=300, z3_ms=20000)
def not_equal_when_not_integral(c):
    """E2 = E1 A with an entry of A further than 1e-6 from every integer: never equal"""
    n = c.choice('dim', [2, 3, 1, 4] + ([] if c.sym else [4, 5, 6]))
    E1 = _base(c, n)
    A = c.mat('A', n, kind='i', lo=-3, hi=3)
    i, j = c.choice('i', list(range(n))), c.choice('j', list(range(n)))
    big = c.int('big', -400000, 400000)
    f = c.between('frac', 0.00001, 0.99999, margin=1e-6)
    A = c.np.array(A, dtype='float')
    A[i, j] = f + big
    c.nonzero(c.det(A))
    L = c.mod(LAT).Lattice
    c.true('a non-integral change of base is never equal', not (L(E1) == L(E1.dot(A))))


@contract('C03', LAT + '.Lattice.__eq__', n=300)
def equivalence_relation(c):
    """reflexive and symmetric on any two bases, transitive along integral changes of base"""
    n = c.choice('dim', [2, 3, 1, 4] + ([] if c.sym else [4, 5, 6]))
    E1 = _base(c, n)
    L = c.mod(LAT).Lattice
    l1 = L(E1)
    c.true('reflexive', l1 == l1)
    c.true('reflexive on an equal base', l1 == L(E1 * 1))
    if c.sym:
        return
    lo, hi = c.choice('range', [(-1, 1), (-3, 3)])
    A, B = c.mat('A', n, kind='i', lo=lo, hi=hi), c.mat('B', n, kind='i', lo=lo, hi=hi)
    c.nonzero(c.det(A))
    c.nonzero(c.det(B))
    l2 = L(E1.dot(A))
    l3 = L(E1.dot(A).dot(B))
    c.same('symmetric', bool(l1 == l2), bool(l2 == l1))
    c.same('equal: det A', bool(l1 == l2), abs(abs(c.det(A)) - 1) < 1e-6)
    c.same('symmetric (2)', bool(l3 == l2), bool(l2 == l3))
    c.same('not != ', bool(l1 != l2), not bool(l1 == l2))
    if bool(l1 == l2) and bool(l2 == l3):
        c.true('transitive', l1 == l3)


@contract('C03', LAT + '.Lattice.__eq__', n=60)
def other_kinds(c):
    n = c.choice('dim', [2, 3])
    E = _base(c, n)
    L = c.mod(LAT).Lattice
    l = L(E)
    o = c.choice('other', [None, 1, 'x', 'array', 'list', 'dim'])
    if o == 'dim':
        F = _base(c, 5 - n, 'F')
        c.true('other dimension is not equal', not (l == L(F)))
        c.same('dimension', l.dimension(), n)
    else:
        o = E if o == 'array' else [1, 2] if o == 'list' else o
        r = l.__eq__(o)
        c.true('a lattice is never equal to something else', r is False or (not c.sym and not bool(r)))


@contract('C03', LAT + '.Lattice.__init__', n=120)
def construction(c):
    """square nonsingular bases are accepted and reported back, everything else is a ValueError"""
    L = c.mod(LAT).Lattice
    k = c.choice('kind', ['ok', 'list', 'singular', 'rows', 'vector', 'scalar', 'ragged', 'text', 'three'])
    n = c.choice('dim', [2, 3, 1, 4] + ([] if c.sym else [4, 5, 6]))
    E = c.mat('E', n)
    if k in ('ok', 'list'):
        c.nonzero(c.det(E), 0.05)
        F = E if k == 'ok' else [[x for x in r] for r in E]
        l = L(F)
        c.eq('base() is the base given', l.base(), E)
        c.same('dimension', l.dimension(), n)
        return
    if k == 'singular':
        a = c.choice('sing', ['zero', 'equal rows', 'int'])
        if a == 'zero':
            E = E * 0
        elif a == 'equal rows':
            if n == 1:
                E = E * 0
            else:
                if not c.sym:
                    E = c.np.rint(E)
                E[1] = E[0]
        else:
            E = c.np.array([[1, 2], [2, 4]])
        c.raises('singular base', ValueError, lambda: L(E))
        return
    bad = {'rows': c.np.array([[1, 0, 0], [0, 1, 0]]), 'vector': c.np.array([1.0, 2.0]), 'scalar': 3.0,
           'ragged': [[1, 0], [0]], 'text': 'abc', 'three': c.np.ones((2, 2, 2))}[k]
    c.raises('not a square matrix', ValueError, lambda: L(bad))
