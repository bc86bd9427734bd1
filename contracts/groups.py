"""finite groups, written down independently of the code (exact integers, and a + b*sqrt(3) for the hexagonal ones)"""
import itertools


def mul(A, B):
    n = len(A)
    return tuple(tuple(sum(A[i][k] * B[k][j] for k in range(n)) for j in range(n)) for i in range(n))


def det3(A):
    if len(A) == 2:
        return A[0][0] * A[1][1] - A[0][1] * A[1][0]
    return (A[0][0] * (A[1][1] * A[2][2] - A[1][2] * A[2][1]) - A[0][1] * (A[1][0] * A[2][2] - A[1][2] * A[2][0]) +
            A[0][2] * (A[1][0] * A[2][1] - A[1][1] * A[2][0]))


def signed_perms(n):
    out = []
    for p in itertools.permutations(range(n)):
        for s in itertools.product((1, -1), repeat=n):
            out.append(tuple(tuple(s[i] if p[i] == j else 0 for j in range(n)) for i in range(n)))
    return out


CUBIC = [A for A in signed_perms(3) if det3(A) == 1]
SQUARE_EXT = signed_perms(2)
SQUARE = [A for A in SQUARE_EXT if det3(A) == 1]


class Q3(object):
    """p + q*sqrt(3), p and q halves stored doubled"""
    def __init__(self, p, q=0):
        self.p, self.q = p, q


def hexmats(c, ext3=True):
    """rotations by multiples of 60 degrees about z and two-folds in the plane at multiples of 30 degrees (3D);
    in 2D rotations and mirrors.  Returned as matrices of the interpretation c."""
    s = c.sqrt(3) / 2
    cs = [(1, 0), (0.5, s), (-0.5, s), (-1, 0), (-0.5, -s), (0.5, -s)]
    rot, two = [], []
    for a, b in cs:
        rot.append([[a, -b], [b, a]])
        two.append([[a, b], [b, -a]])
    if not ext3:
        return [c.np.array(m) for m in rot], [c.np.array(m) for m in rot + two]
    f = lambda m, z: c.np.array([m[0] + [0], m[1] + [0], [0, 0, z]])
    return [f(m, 1) for m in rot] + [f(m, -1) for m in two]


def holohedry(c, dim, lid):
    """the rotations the crystal system requires, in the orientation conventional for the type"""
    if dim == 3:
        if lid == 4:
            return hexmats(c)
        if lid <= 3:
            S = CUBIC
        elif lid == 5:       # permutations of the axes (three-fold [111]) and their negatives of determinant 1
            S = [A for A in CUBIC if len({x for r in A for x in r if x}) == 1]
        elif lid in (6, 7):
            S = [A for A in CUBIC if A[2][2] != 0]
        elif lid <= 11:
            S = [A for A in CUBIC if A[0][0] and A[1][1]]
        elif lid <= 13:
            S = [A for A in CUBIC if A[0][0] and A[1][1] and A[1][1] == 1]
        else:
            S = [A for A in CUBIC if A[0][0] == A[1][1] == A[2][2] == 1]
        return [c.np.array(A) for A in S]
    if lid == 4:
        return hexmats(c, False)[0]
    S = SQUARE if lid == 1 else [A for A in SQUARE if A[0][0]]
    return [c.np.array(A) for A in S]


def full2d(c, lid):
    """2D point groups (with mirrors)"""
    if lid == 4:
        return hexmats(c, False)[1]
    S = SQUARE_EXT if lid == 1 else [A for A in SQUARE_EXT if A[0][0]] if lid in (2, 3) else [A for A in SQUARE if A[0][0]]
    return [c.np.array(A) for A in S]


def subgroups(els, mulf):
    """all subgroups of a finite group given by elements 0..n-1 and a product"""
    n = len(els)
    idn = [i for i in range(n) if all(mulf(i, j) == j for j in range(n))][0]

    def close(gens):
        S = {idn} | set(gens)
        todo = list(S)
        while todo:
            a = todo.pop()
            for b in list(S):
                for x in (mulf(a, b), mulf(b, a)):
                    if x not in S:
                        S.add(x)
                        todo.append(x)
        return frozenset(S)
    cyc = {close([i]) for i in range(n)}
    res = set(cyc)
    new = set(cyc)
    while new:
        nxt = set()
        for A in new:
            for B in cyc:
                C = close(A | B)
                if C not in res:
                    nxt.add(C)
        res |= nxt
        new = nxt
    return sorted(res, key=lambda s: (len(s), sorted(s)))


def samem(c, A, B):
    if A.shape != B.shape:
        return False
    if c.sym:
        from vc.terms import lift
        return all(lift(x).same(lift(y)) or (lift(x) - lift(y)).num == {} for x, y in zip(A.flat, B.flat))
    return bool(c.np.max(c.np.abs(A - B)) < 1e-7)


def index(c, A, ms):
    for i, m in enumerate(ms):
        if samem(c, A, m):
            return i
    return -1
