"""shared pieces of the contracts of the lattice correspondence search"""
import itertools

LO = 'structrans.marttrans.lat_cor.lat_opt'
LAT = 'structrans.crystallography.lattice'
BRA = 'structrans.crystallography.bravais_lattice'


def distance(np, which, L, E1, E2):
    """the stated strain measure, from its definition"""
    L = np.array(L, dtype=float)
    if which == 'Ericksen':
        M = L.T.dot(E1.T).dot(E1).dot(L) - E2.T.dot(E2)
        return float((M ** 2).sum() / ((E2.T.dot(E2)) ** 2).sum())
    F = E2.dot(np.linalg.inv(E1.dot(L)))
    if which == 'Cauchy':
        C = np.linalg.inv(F.T.dot(F)) - np.eye(len(L))
        return float((C ** 2).sum())
    s = np.linalg.svd(F, compute_uv=False)
    return float(((1 / s - 1) ** 2).sum())


def orbit(np, L, G1, G2):
    L = np.array(np.rint(L), dtype=int)
    return {tuple(int(x) for x in a.dot(L).dot(b).flatten()) for a in G1 for b in G2}


def ranked(c, d, nsol):
    c.true('at least one solution', len(d) >= 1)
    for a, b in zip(d, d[1:]):
        c.true('ranked by non-decreasing distance', a <= b)
    for x in d[nsol:]:
        c.eq('more than requested only as ties', x, d[nsol - 1], tol=1e-9)


def group_of(c, E):
    """rotations of a lattice in its own basis, recomputed: integer M with entries up to 2 (enough for a reduced base is
    not guaranteed for a skew one, so this is used on the code's own answer only for its size)"""
    return [c.np.array(c.np.rint(m), dtype=int) for m in c.mod(LAT).Lattice(E).getspeciallatticegroup().matrices()]


def moves(np, n):
    out = []
    for i, j in itertools.permutations(range(n), 2):
        for s in (1, -1):
            T = np.eye(n, dtype=int)
            T[i, j] = s
            out.append(T)
    return out
