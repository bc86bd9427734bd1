"""C17: martensite variants are the symmetry orbit of U."""
from vc.api import contract
from contracts.common import MG, LAT
from contracts.groups import CUBIC, hexmats, index

MT = 'structrans.marttrans.martensite'


def sep(c, x, y):
    """the two numbers differ by more than the comparison tolerance (they may not accidentally coincide)"""
    d = x - y
    if c.sym:
        c.require(c.lor(d > 0.01, d < -0.01))
    else:
        c.require(abs(d) > 0.01)


def family(c, fam):
    p = lambda n: c.between(n, 0.6, 1.6)
    q = lambda n: c.between(n, -0.25, 0.25)
    A = c.np.array
    if fam == 'iso':
        a = p('a')
        return A([[a, 0, 0], [0, a, 0], [0, 0, a]])
    if fam == 'tetragonal':
        a, b = p('a'), p('c')
        sep(c, a, b)
        k = c.choice('unique', [2, 0, 1])
        d = [a, a, a]
        d[k] = b
        return A([[d[0], 0, 0], [0, d[1], 0], [0, 0, d[2]]])
    if fam == 'diag':
        a, b, d = p('a'), p('b'), p('d')
        sep(c, a, b), sep(c, b, d), sep(c, a, d)
        return A([[a, 0, 0], [0, b, 0], [0, 0, d]])
    if fam == 'ortho':
        a, b, d = p('a'), q('b'), p('d')
        sep(c, b, 0)
        k = c.choice('perm', [0, 1, 2])
        return [A([[a, b, 0], [b, a, 0], [0, 0, d]]), A([[a, 0, b], [0, d, 0], [b, 0, a]]), A([[d, 0, 0], [0, a, b], [0, b, a]])][k]
    if fam == 'mono':
        a, b, d, e = p('a'), q('b'), p('d'), p('e')
        sep(c, b, 0), sep(c, a, d)
        k = c.choice('perm', [0, 1, 2])
        return [A([[a, b, 0], [b, d, 0], [0, 0, e]]), A([[a, 0, b], [0, e, 0], [b, 0, d]]), A([[e, 0, 0], [0, a, b], [0, b, d]])][k]
    if fam == 'trigonal':
        a, b = p('a'), q('b')
        sep(c, b, 0)
        return A([[a, b, b], [b, a, b], [b, b, a]])
    a, b, d, e, f, g = p('a'), p('b'), p('d'), q('e'), q('f'), q('g')
    sep(c, a, b), sep(c, b, d), sep(c, a, d), sep(c, e, 0), sep(c, f, 0), sep(c, g, 0)
    return A([[a, e, f], [e, b, g], [f, g, d]])


def subgroups(c, kind):
    M = c.mod(MG)
    if kind == 'cubic':
        return M.CUBIC_LAUE_GROUP
    if kind == 'hex':
        return M.HEX_LAUE_GROUP
    if kind == 'tetragonal':
        return M.MatrixGroup([Q for Q in CUBIC if Q[2][2] in (1, -1)])
    if kind == 'ortho':
        return M.MatrixGroup([Q for Q in CUBIC if all(Q[i][i] for i in range(3))])
    return M.MatrixGroup([Q for Q in CUBIC if Q[2][2] == 1])         # cyclic of order 4


def orbit_checks(c, m, U, G):
    V = m.getvariants()
    Qs = [c.np.array(Q) for Q in G.matrices()]
    P = [Q.dot(U).dot(Q.T) for Q in Qs]
    reps = []
    cls = []
    for x in P:
        for k, r in enumerate(reps):
            if c.close(x, r):
                cls.append(k)
                break
        else:
            cls.append(len(reps))
            reps.append(x)
    c.same('as many variants as distinct images of U', len(V), len(reps))
    c.eq('the first variant is U', V[0], U)
    hit = []
    for v in V:
        h = [k for k, r in enumerate(reps) if c.close(v, r)]
        c.same('every variant is an image of U', len(h), 1)
        hit += h
    c.same('variants pairwise distinct', len(set(hit)), len(hit))
    idx = m.getLaueidx()
    c.same('one index list for each variant', len(idx), len(V))
    flat = sorted(int(i) for l in idx for i in l)
    c.same('index lists partition the group', flat, list(range(len(Qs))))
    for k, l in enumerate(idx):
        for i in l:
            c.eq('listed rotations map U to the variant', V[k], P[int(i)])
    for k in range(len(V)):
        c.eq('single variant', m.getvariant(k + 1), V[k])
    c.eq('asked again', m.getvariants(), V)


@contract('C17', [MT + '.Martensite.calcvariants', MT + '.Martensite.getvariants', MT + '.Martensite.getLaueidx',
                  MT + '.Martensite.getvariant'], n=120, timeout=300,
          note='variants: entries of U that are not equal (zero) by the family differ by more than 0.01, the comparison tolerance being 1e-5')
def orbit(c):
    """families of U by stratum; the parent group is any of five, the reversibility test is assumed to accept"""
    kind = c.choice('parent', ['cubic', 'tetragonal', 'ortho', 'cyclic4', 'hex'])
    fam = c.choice('family', ['tetragonal', 'diag', 'ortho', 'mono', 'trigonal', 'generic', 'iso']
                   if not (c.sym and kind == 'hex') else ['diag', 'tetragonal'])
    U = family(c, fam)
    G = subgroups(c, kind)
    c.stub(MT + ':Martensite.isreversible', lambda self: True)
    m = c.mod(MT).Martensite(U, G)
    if not c.sym and not m.isreversible():
        c.raises('irreversible', AttributeError, m.getvariants)
        return
    orbit_checks(c, m, U, G)


@contract('C17', [MT + '.Martensite.calcvariants', MT + '.Martensite.setU', MT + '.Martensite.setLaue'], n=80, sym=False)
def setters_orbit(c):
    """U and the parent group set in any order on one object; order-dependent histories of queries"""
    lid = c.choice('id', [1, 2, 3, 6, 7, 8, 10, 4, 5])
    fam = c.choice('family', ['tetragonal', 'diag', 'ortho', 'mono', 'generic'])
    U = family(c, fam)
    M = c.mod(MT).Martensite
    m0 = M()
    if c.choice('first', ['U', 'Laue']) == 'U':
        m = m0.setU(U).setLaue(lid)
    else:
        m = m0.setLaue(lid).setU(U)
    c.raises('object left without U', AttributeError, m0.getU)
    if not m.isreversible():
        c.raises('irreversible', AttributeError, m.getvariants)
        return
    if c.choice('before', [False, True]):
        m.getLaueidx()
    orbit_checks(c, m, U, m.getLaue())
    # a later object does not inherit what was computed
    U2 = family(c, 'iso') if False else U * 1.1
    m2 = m.setU(U2)
    orbit_checks(c, m2, U2, m.getLaue())
    orbit_checks(c, m, U, m.getLaue())


@contract('C17', [MT + '.Martensite.isreversible'], n=60)
def reversible(c):
    """reversible exactly when the Laue group of the lattice with base U is a subgroup of the parent group"""
    U = family(c, c.choice('family', ['tetragonal', 'generic']))
    M = c.mod(MG).MatrixGroup
    sub = c.choice('sub', ['part', 'foreign', 'bigger', 'nondividing'])
    G = subgroups(c, 'tetragonal')
    mats = {'part': [Q for Q in CUBIC if all(Q[i][i] for i in range(3))],
            'foreign': [Q for Q in CUBIC if Q[0][0] in (1, -1)][:4] + [CUBIC[5]],
            'bigger': CUBIC, 'nondividing': G.matrices()[:3]}[sub]
    g = M(mats)
    rec = []

    def lg(self):
        rec.append(self)
        return g
    c.stub(LAT + ':Lattice.Laue_group', lg)
    m = c.mod(MT).Martensite(U, G)
    r = bool(m.isreversible())
    if c.sym:
        c.true('decided by the Laue group of one lattice', len(rec) >= 1)
        for L in rec:
            c.eq('the lattice with base U', L.base(), U)
        c.same('reversible exactly when it is a subgroup', r, sub == 'part')
    else:
        own = c.mod(LAT).Lattice(U).Laue_group().matrices()
        c.same('reversible exactly when it is a subgroup', r,
               all(index(c, Q, G.matrices()) >= 0 for Q in own) and G.order() % len(own) == 0)
    e = c.mod(MT).Martensite()
    c.raises('no U', AttributeError, e.isreversible)
    c.raises('no U', AttributeError, e.getU)
    c.raises('no U', AttributeError, e.getvariants)
    c.raises('no U', AttributeError, lambda: e.getvariant(1))
    c.raises('no U', AttributeError, e.getLaueidx)


@contract('C17', [MT + '.Martensite.calcvariants'], n=10)
def irreversible(c):
    U = family(c, 'tetragonal')
    c.stub(MT + ':Martensite.isreversible', lambda self: False)
    M = c.mod(MG)
    m = c.mod(MT).Martensite(U, M.MatrixGroup(M.CUBIC_LAUE_GROUP.matrices()[:1]))
    c.raises('variants of an irreversible transformation', AttributeError, m.getvariants)
    c.raises('variants of an irreversible transformation', AttributeError, lambda: m.getvariant(1))
    c.raises('variants of an irreversible transformation', AttributeError, m.getLaueidx)


def minors(c, U):
    return (U[0][0], U[0][0] * U[1][1] - U[0][1] * U[1][0],
            U[0][0] * (U[1][1] * U[2][2] - U[1][2] * U[2][1]) - U[0][1] * (U[1][0] * U[2][2] - U[1][2] * U[2][0]) +
            U[0][2] * (U[1][0] * U[2][1] - U[1][1] * U[2][0]))


def forms(a):
    n = len(a)
    return [[[a[0], 0, 0], [0, a[0], 0], [0, 0, a[0]]], [[a[0], 0, 0], [0, a[0], 0], [0, 0, a[1 % n]]],
            [[a[0], a[1 % n], 0], [a[1 % n], a[0], 0], [0, 0, a[2 % n]]],
            [[a[0], a[1 % n], 0], [a[1 % n], a[2 % n], 0], [0, 0, a[3 % n]]]][n - 1]


@contract('C17', [MT + '.Martensite.setU'], n=300)
def set_u(c):
    """accepted exactly when symmetric positive definite; new object, the old one unchanged; the parent group kept"""
    how = c.choice('how', ['1', '2', '3', '4', 'array', 'list'])
    if how in '1234':
        n = int(how)
        args = [c.real('u%d' % i, -2.0, 3.0) for i in range(n)]
        U = forms(args)
    else:
        S = c.symmat('S')
        U = [[S[i, j] for j in range(3)] for i in range(3)]
        if not c.sym and c.choice('shift', [False, True]):
            for i in range(3):
                U[i][i] += 4.0
        args = [c.np.array(U)] if how == 'array' else [U]
    M = c.mod(MT).Martensite
    G = c.mod(MG).HEX_LAUE_GROUP
    old = M(c.np.diag([1.5, 1.5, 2.5]), G)
    m1, m2, m3 = minors(c, U)
    if c.sym:
        c.require(c.lor(m1 > 0, m1 < 0)), c.require(c.lor(m2 > 0, m2 < 0)), c.require(c.lor(m3 > 0, m3 < 0))
    else:
        c.require(min(abs(m1), abs(m2), abs(m3)) > 1e-6)
    good = bool(c.land(m1 > 0, m2 > 0, m3 > 0))
    if good:
        m = old.setU(*args)
        c.eq('U as given', m.getU(), U)
        c.true('a new object', m is not old)
        c.same('same parent group', m.getLaue(), G)
        if not c.sym:
            c.true('old variants not inherited', m.isreversible() in (True, False))
    else:
        c.raises('not positive definite', TypeError, lambda: old.setU(*args))
    c.eq('old object unchanged', old.getU(), c.np.diag([1.5, 1.5, 2.5]))


@contract('C17', [MT + '.Martensite.setU'], n=60)
def set_u_rejects(c):
    M = c.mod(MT).Martensite
    old = M(c.np.diag([1.5, 1.5, 2.5]))
    k = c.choice('what', ['asym', 'shape', 'shape4', 'vec', 'many', 'nothing', 'asymlist'] + ([] if c.sym else ['strmat', 'none', 'str']))
    if k in ('asym', 'asymlist'):
        U = c.symmat('S') + 4.0 * c.np.eye(3)
        i, j = c.choice('ij', [(0, 1), (0, 2), (1, 2), (2, 0)])
        d = c.pos('d', 0.001, 1.0)
        U[i, j] = U[i, j] + d
        args = [U if k == 'asym' else [list(r) for r in U]]
    elif k == 'shape':
        args = [c.np.eye(2)]
    elif k == 'shape4':
        args = [c.np.eye(4)]
    elif k == 'vec':
        args = [[1.0, 2.0, 3.0]]
    elif k == 'none':
        args = [None]
    elif k == 'str':
        args = ['U']
    elif k == 'many':
        args = [1.0, 0.1, 1.2, 1.3, 1.4]
    elif k == 'strmat':
        args = [[['a', 'b', 'c']] * 3]
    else:
        args = []
    c.raises('rejected', TypeError, lambda: old.setU(*args))
    c.eq('old object unchanged', old.getU(), c.np.diag([1.5, 1.5, 2.5]))


@contract('C17', [MT + '.Martensite.setLaue'], n=40)
def set_laue(c):
    M = c.mod(MT).Martensite
    g = c.mod(MG)
    U = c.np.array([[1.1, 0.05, 0], [0.05, 1.1, 0], [0, 0, 0.9]])
    old = M(U, g.CUBIC_LAUE_GROUP)
    G = c.choice('group', [g.HEX_LAUE_GROUP, g.CUBIC_LAUE_GROUP, g.MatrixGroup(g.CUBIC_LAUE_GROUP.matrices()[:4])])
    m = old.setLaue(G)
    c.true('a new object', m is not old)
    c.same('the new group', m.getLaue(), G)
    c.eq('same U', m.getU(), U)
    c.same('old group kept', old.getLaue(), g.CUBIC_LAUE_GROUP)
    c.same('default parent is the full cubic Laue group', M().getLaue(), g.CUBIC_LAUE_GROUP)
    e = M().setLaue(G)
    c.same('group of an object without U', e.getLaue(), G)
    c.raises('still no U', AttributeError, e.getU)
    for bad in (0, 15, -3, 'x', None, 2.5):
        c.raises('unknown group', ValueError, lambda: old.setLaue(bad))
