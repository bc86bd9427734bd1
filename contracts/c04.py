"""C04: lattice symmetry groups contain only symmetries and are groups."""
from vc.api import contract
from contracts.common import LAT, MG, BRA, params, NPAR
from contracts import groups as GR
from contracts.groups import samem, index

L = LAT + '.Lattice'


def _lattice(c):
    """run time: a Bravais lattice or random lattice in some base, possibly rotated by a cubic or arbitrary rotation"""
    dim = c.choice('dim', [3, 2])
    lid = c.choice('id', list(range(0, len(NPAR[dim]) + 1)))
    if lid == 0:
        E = c.mat('E', dim)
        c.nonzero(c.det(E), 0.3)
    else:
        ps, G = params(c, dim, lid)
        E = c.mod(BRA).BravaisLattice(lid, ps, dim).base()
    U = c.np.eye(dim)
    for k in range(c.choice('ops', [0, 2, 4])):
        i, j = c.choice('i%d' % k, list(range(dim))), c.choice('j%d' % k, list(range(dim)))
        if i != j:
            U[:, i] += c.choice('t%d' % k, [1, -1]) * U[:, j]
    E = E.dot(U)
    r = c.choice('rotate', ['no', 'no', 'table', 'any'])
    if r == 'any':
        R = c.rot('q') if dim == 3 else c.np.array([[0.8, -0.6], [0.6, 0.8]])
        E = R.dot(E)
    elif r == 'table' and dim == 3:
        E = c.np.array(c.choice('R', GR.CUBIC)).dot(E)
    elif r == 'table':
        E = c.np.array(c.choice('R2', GR.SQUARE_EXT)).dot(E)
    return dim, E


@contract('C04', [L + '.Laue_group', L + '.point_group', L + '.lattice_group', L + '.special_lattice_group'], n=500, sym=False)
def groups_runtime(c):
    dim, E = _lattice(c)
    l = c.mod(LAT).Lattice(E)
    order = c.choice('order', [0, 1, 2, 3])
    calls = [l.Laue_group, l.point_group, l.lattice_group, l.special_lattice_group]
    for f in calls[order:] + calls[:order]:
        f()
    P, La = l.point_group().matrices(), l.Laue_group().matrices()
    LG, SL = l.lattice_group().matrices(), l.special_lattice_group().matrices()
    I = c.np.eye(dim)
    Ei = c.inv(E)
    for Q in P:
        c.eq('orthogonal', Q.dot(Q.T), I)
        A = Ei.dot(Q).dot(E)
        c.eq('maps the lattice onto itself', A, c.np.rint(A), tol=1e-5)
    for g, nm in ((P, 'point group'), (La, 'Laue group')):
        c.true(nm + ' contains the identity', index(c, I, g) >= 0)
        for i, A in enumerate(g):
            c.true(nm + ' duplicate-free', index(c, A, g[:i]) < 0)
            c.true(nm + ' inverses', index(c, A.T, g) >= 0)
            for B in g:
                c.true(nm + ' products', index(c, A.dot(B), g) >= 0)
    c.same('Laue group is the determinant 1 part', sorted(index(c, Q, P) for Q in La),
           [i for i, Q in enumerate(P) if c.det(Q) > 0])
    if dim == 3:
        c.same('3D point group is the Laue group and its negatives', len(P), 2 * len(La))
        for Q in La:
            c.true('negatives', index(c, -Q, P) >= 0)
    for ms, qs, nm in ((LG, P, 'lattice group'), (SL, La, 'special lattice group')):
        c.same(nm + ' one for each', len(ms), len(qs))
        c.integral(nm + ' integer', ms)
        got = [index(c, E.dot(M).dot(Ei), qs) for M in ms]
        c.same(nm + ' E M = Q E', sorted(got), list(range(len(qs))))


@contract('C04', [L + '.inpointgroup', L + '.inlatticegroup'], n=60, z3_ms=10000)
def accepts_every_symmetry(c):
    """Q = E M E^-1 orthogonal with M integer unimodular: both membership tests accept, for every base"""
    c.opaque()
    dim = c.choice('dim', [2, 3])
    if c.sym:
        E = c.mat('E', dim)
        c.nonzero(c.det(E))
        M = c.mat('M', dim, kind='i')
        dM = c.det(M)
        c.require(c.lor(dM == 1, dM == -1))
        Q = E.dot(M).dot(c.inv(E))
        # callee contract of _in_O3 (proved below): true for an orthogonal matrix; Q is one by hypothesis
        c.stub(LAT + ':_in_O3', lambda X: samem(c, c.np.array(X), Q))
    else:
        d, E = _lattice(c)
        l0 = c.mod(LAT).Lattice(E)
        g = l0.point_group().matrices()
        Q = g[c.rng.randrange(len(g))]
        R = c.rot('rq') if d == 3 else c.np.array([[0.8, -0.6], [0.6, 0.8]])
        M = c.np.rint(c.inv(E).dot(Q).dot(E))
        E = R.dot(E)
        Q = R.dot(Q).dot(R.T)
    l = c.mod(LAT).Lattice(E)
    c.true('inpointgroup accepts', l.inpointgroup(Q))
    c.true('inlatticegroup accepts', l.inlatticegroup(M))


def turned(c, dim):
    """a rotation by an angle from a thousandth of a radian up"""
    t = c.choice('angle', [0.001, 0.003, 0.01, 0.05, 0.3, 1.0471975511965976, 1.5707963267948966]) * c.choice('sense', [1, -1])
    R = c.np.eye(dim)
    if dim > 1:
        i, j = c.choice('plane', [(0, 1), (0, dim - 1), (dim - 2, dim - 1)])
        R[i, i] = R[j, j] = c.np.cos(t)
        R[i, j], R[j, i] = -c.np.sin(t), c.np.sin(t)
    return R


@contract('C04', [L + '.inpointgroup'], n=300, z3_ms=10000)
def accepts_only_symmetries(c):
    """whatever Q: if accepted, it is orthogonal and E^-1 Q E is integral (to the tolerances)"""
    c.opaque()
    dim = c.choice('dim', [2, 3, 1])
    if c.sym:
        E = c.mat('E', dim)
        c.nonzero(c.det(E))
        Q = c.mat('Q', dim)
        c.nonzero(c.det(Q))
        orth = c.boolvar('Q orthogonal')
        c.stub(LAT + ':_in_O3', lambda X: orth if samem(c, c.np.array(X), Q) else c.boolvar('other orthogonal'))
    else:
        if c.choice('generic', [True, False]):
            E = c.mat('E', dim)
            c.nonzero(c.det(E), 0.3)
        else:
            E = c.np.array(c.mat('E', dim, kind='i'), dtype='float')
            c.nonzero(c.det(E), 0.3)
        k = c.choice('Qkind', ['any', 'table', 'shear', 'conj', 'near', 'scaled', 'turned'])
        if k == 'any' or dim == 1:
            Q = c.mat('Q', dim)
        elif k == 'table':
            Q = c.np.array(c.choice('T', GR.signed_perms(dim)), dtype='float')
        elif k == 'turned':
            if c.choice('unitE', [True, False]):
                E = c.np.eye(dim) * c.pos('se')
            Q = turned(c, dim).dot(c.np.array(c.choice('T', GR.signed_perms(dim)), dtype='float'))
        elif k == 'near':
            Q = c.np.array(c.choice('T', GR.signed_perms(dim)), dtype='float')
            Q[0, dim - 1] += c.choice('eps', [1e-3, -1e-3, 0.1])
        elif k == 'scaled':
            Q = c.np.array(c.choice('T', GR.signed_perms(dim)), dtype='float') * c.choice('sc', [2, 0.5, 1.01, -1])
        elif k == 'shear':
            Q = c.np.eye(dim)
            Q[0, dim - 1] = c.int('s', -2, 2)
        else:
            M = c.mat('M', dim, kind='i', lo=-1, hi=1)
            Q = E.dot(M).dot(c.inv(E))
    if c.sym and dim == 3:
        # callee contract of __eq__ (C03): equality of the lattices with bases E and Q E
        eqv = c.boolvar('lattice of E = lattice of QE')
        want = sorted([str(x) for x in E.flat]), c.np.dot(Q, E)

        def eqs(self, other):
            a, b = self.base(), other.base()
            if samem(c, a, want[1]):
                a, b = b, a
            return eqv if samem(c, a, E) and samem(c, b, want[1]) else c.boolvar('unrelated')
        c.stub(LAT + ':Lattice.__eq__', eqs)
        r = bool(c.mod(LAT).Lattice(E).inpointgroup(Q))
        c.true('accepted exactly when orthogonal and Q maps the lattice onto itself', c.iff(r, c.land(orth, eqv)))
        return
    try:
        l = c.mod(LAT).Lattice(E)
        r = bool(l.inpointgroup(Q))
    except ValueError:
        # Q of determinant zero is not a lattice map
        r = None
        if c.sym:
            raise
    A = c.inv(E).dot(c.np.dot(Q, E))
    QQ = Q.dot(Q.T) if not c.sym else None
    if r:
        for i in range(dim):
            for j in range(dim):
                t = 1 if i == j else 0
                if c.sym:
                    c.true('accepted Q is orthogonal', orth)
                else:
                    c.true('accepted Q is orthogonal', c.land(QQ[i, j] - t <= 0.0001, QQ[i, j] - t >= -0.0001))
                x = A[i, j] - c.np.rint(A[i, j])
                c.true('accepted Q maps lattice points to lattice points', c.land(x <= 0.000001, x >= -0.000001))
    elif not c.sym:
        ok = c.np.allclose(QQ, c.np.eye(dim), atol=1e-9) and c.np.allclose(A, c.np.rint(A), atol=1e-11, rtol=0)
        c.true('rejected Q is not a symmetry', not ok)


@contract('C04', [LAT + '._in_O3'], n=150)
def in_o3(c):
    """true for every orthogonal matrix; only true if Q Q^T = I and |det Q| = 1 to the tolerance"""
    dim = c.choice('dim', [3, 2, 1])
    f = c.mod(LAT)._in_O3
    if c.choice('orthogonal', [True, False]):
        if dim == 3:
            Q = c.rot('q')
        elif dim == 2:
            u = c.unit('u', 2)
            Q = c.np.array([[u[0], -u[1]], [u[1], u[0]]])
        else:
            Q = c.np.eye(1)
        s = c.choice('sign', [1, -1])
        Q = Q * s
        if c.choice('mirror', [False, True]):
            Q[:, 0] = -Q[:, 0]
        c.true('orthogonal matrices are accepted', f(Q))
        return
    Q = c.mat('Q', dim)
    r = bool(f(Q))
    if r:
        D = Q.dot(Q.T)
        for i in range(dim):
            for j in range(dim):
                t = 1 if i == j else 0
                c.true('accepted matrix is orthogonal', c.land(D[i, j] - t <= 0.0001, D[i, j] - t >= -0.0001))
    else:
        c.true('reached', True)


@contract('C04', [L + '.inlatticegroup'], n=300, z3_ms=10000)
def inlatticegroup_sound(c):
    """accepted M is integral and E M E^-1 is orthogonal"""
    c.opaque()
    dim = c.choice('dim', [2, 3])
    E = c.mat('E', dim)
    c.nonzero(c.det(E), 0.3)
    kind = True if c.sym else c.choice('kind', [True, False, 'turned'])
    if kind == 'turned':
        if c.choice('unitE', [True, False]):
            E = c.np.eye(dim) * c.pos('se')
        M = c.inv(E).dot(turned(c, dim)).dot(c.np.array(c.choice('T', GR.signed_perms(dim)), dtype='float')).dot(E)
    elif kind is True:
        M = c.mat('M', dim)
    else:
        M = c.mat('Mi', dim, kind='i', lo=-1, hi=1)
        if c.choice('E', ['given', 'unit']) == 'unit':
            E = c.np.eye(dim) * c.pos('s')
    Q = E.dot(M).dot(c.inv(E))
    if c.sym:
        orth = c.boolvar('E M E^-1 orthogonal')
        c.stub(LAT + ':_in_O3', lambda X: orth if samem(c, c.np.array(X), Q) else c.boolvar('other orthogonal'))
        if bool(c.mod(LAT).Lattice(E).inlatticegroup(M)):
            c.true('orthogonal', orth)
            for x in M.flat:
                y = x - c.np.rint(x)
                c.true('integral', c.implies(c.land(x <= 50, x >= -50), c.land(y <= 0.001, y >= -0.001)))
        else:
            c.true('only non-integral or non-orthogonal ones are rejected',
                   c.lor(*([~orth] + [x - c.np.rint(x) != 0 for x in M.flat])))
        return
    r = bool(c.mod(LAT).Lattice(E).inlatticegroup(M))
    QQ = Q.dot(Q.T)
    if r:
        for i in range(dim):
            for j in range(dim):
                t = 1 if i == j else 0
                c.true('orthogonal', c.land(QQ[i, j] - t <= 0.0001, QQ[i, j] - t >= -0.0001))
                x = M[i, j] - c.np.rint(M[i, j])
                if not c.sym:
                    c.true('integral', abs(x) <= 1e-4)
    elif not c.sym:
        ok = c.np.allclose(QQ, c.np.eye(dim), atol=1e-9) and c.np.array_equal(M, c.np.rint(M))
        c.true('rejected M is not a symmetry', not ok)


@contract('C04', [L + '.Laue_group', L + '.point_group'], n=1, run=False, maxpaths=20000)
def filter_sound(c):
    """for every pair of subgroups (of the cubic and the hexagonal candidates) that the membership contract can describe,
    the 3D Laue group is one of the two, i.e. a group of accepted rotations; the point group is it and its negatives"""
    hexm = GR.hexmats(c)
    cub = [c.np.array(A) for A in GR.CUBIC]
    cmul = {(i, j): GR.CUBIC.index(GR.mul(A, B)) for i, A in enumerate(GR.CUBIC) for j, B in enumerate(GR.CUBIC)}
    hmul = {(i, j): index(c, A.dot(B), hexm) for i, A in enumerate(hexm) for j, B in enumerate(hexm)}
    cs = GR.subgroups(GR.CUBIC, lambda i, j: cmul[i, j])
    hs = GR.subgroups(hexm, lambda i, j: hmul[i, j])
    com = [(index(c, m, cub), i) for i, m in enumerate(hexm) if index(c, m, cub) >= 0]
    S = cs[c.choice('cubic subgroup', list(range(len(cs))))]
    T = hs[c.choice('hex subgroup', list(range(len(hs))))]
    if not all((a in S) == (b in T) for a, b in com):
        c.require(False)
    keyc = {}
    l = c.mod(LAT).Lattice(c.np.eye(3) * 2.0)

    def orc(self, Q):
        Q = c.np.array(Q)
        i = index(c, Q, cub)
        if i >= 0:
            return i in S
        i = index(c, Q, hexm)
        return i >= 0 and i in T
    c.stub(LAT + ':Lattice.inpointgroup', orc)
    g = l.Laue_group().matrices()
    ic = sorted(index(c, m, cub) for m in g)
    ih = sorted(index(c, m, hexm) for m in g)
    c.true('the Laue group is a group of accepted rotations', ic == sorted(S) or ih == sorted(T))
    p = l.point_group().matrices()
    c.same('3D point group has twice the order', len(p), 2 * len(g))
    for m in g:
        c.true('3D point group contains the Laue group', index(c, m, p) >= 0)
        c.true('3D point group contains the negatives', index(c, -m, p) >= 0)


@contract('C04', [L + '.Laue_group', L + '.point_group'], n=1, run=False, maxpaths=20000)
def filter_sound_2d(c):
    rot, ext = GR.hexmats(c, False)
    sq = [c.np.array(A) for A in GR.SQUARE_EXT]
    smul = {(i, j): GR.SQUARE_EXT.index(GR.mul(A, B)) for i, A in enumerate(GR.SQUARE_EXT) for j, B in enumerate(GR.SQUARE_EXT)}
    hmul = {(i, j): index(c, A.dot(B), ext) for i, A in enumerate(ext) for j, B in enumerate(ext)}
    ss = GR.subgroups(sq, lambda i, j: smul[i, j])
    hs = GR.subgroups(ext, lambda i, j: hmul[i, j])
    S = ss[c.choice('square subgroup', list(range(len(ss))))]
    T = hs[c.choice('hex subgroup', list(range(len(hs))))]
    com = [(index(c, m, sq), i) for i, m in enumerate(ext) if index(c, m, sq) >= 0]
    ok = all((a in S) == (b in T) for a, b in com)
    # a plane lattice: -1 is a symmetry, and the 4-fold and 6-fold rotations exclude each other
    ok = ok and any(samem(c, sq[i], -c.np.eye(2)) for i in S) and not (
        any(GR.det3(GR.SQUARE_EXT[i]) == 1 and not GR.SQUARE_EXT[i][0][0] for i in S) and len([i for i in T if i in range(6)]) > 2)
    # mirrors in both orientations that are not shared do not coexist (the product would be a rotation by 30 or 15 degrees)
    ms = [i for i in S if GR.det3(GR.SQUARE_EXT[i]) == -1 and not any(a == i for a, b in com)]
    mh = [i for i in T if i >= 6 and not any(b == i for a, b in com)]
    mc = [a for a, b in com if a in S and GR.det3(GR.SQUARE_EXT[a]) == -1]
    ok = ok and not (ms and mh) and not (ms and mc and len(S) < 8) and not (mh and mc and len(T) < 12)
    if not ok:
        c.require(False)
    l = c.mod(LAT).Lattice(c.np.eye(2) * 2.0)

    def orc(self, Q):
        Q = c.np.array(Q)
        i = index(c, Q, sq)
        if i >= 0:
            return i in S
        i = index(c, Q, ext)
        return i >= 0 and i in T
    c.stub(LAT + ':Lattice.inpointgroup', orc)
    p = l.point_group().matrices()
    g = l.Laue_group().matrices()
    c.true('the point group is a group of accepted maps', sorted(index(c, m, sq) for m in p) == sorted(S) or
           sorted(index(c, m, ext) for m in p) == sorted(T))
    pp = sorted(i for i, m in enumerate(p) if c.det(m).value() == 1)
    c.same('the Laue group is the determinant 1 part of the point group', sorted(index(c, m, p) for m in g), pp)


@contract('C04', [L + '.lattice_group', L + '.special_lattice_group'], n=1, run=False)
def lattice_groups(c):
    """against the contract of point_group / Laue_group (elements Q_k = E M_k E^-1): returns exactly the M_k in order"""
    c.opaque()
    dim = c.choice('dim', [2, 3])
    which = c.choice('which', [('lattice_group', 'point_group'), ('special_lattice_group', 'Laue_group')])
    E = c.mat('E', dim)
    c.nonzero(c.det(E))
    Ms = [c.mat('M%d' % k, dim, kind='i') for k in range(2)]
    Qs = [E.dot(M).dot(c.inv(E)) for M in Ms]
    l = c.mod(LAT).Lattice(E)
    c.stub(LAT + ':Lattice.' + which[1], lambda self: c.mod(MG).MatrixGroup(Qs))
    got = getattr(l, which[0])().matrices()
    c.same('one for each', len(got), 2)
    for a, b in zip(got, Ms):
        c.eq('E M = Q E', a, b)
        c.integral('integer', a)
    again = getattr(l, which[0])()
    c.true('repeatable', again is not None and again.order() == 2)


@contract('C04', [L + '.Laue_group', L + '.point_group', L + '.lattice_group', L + '.special_lattice_group'], n=40)
def other_dimensions(c):
    n = c.choice('dim', [1, 4])
    E = c.mat('E', n) if n == 1 else c.np.eye(4) * c.pos('s')
    c.nonzero(c.det(E), 0.2)
    l = c.mod(LAT).Lattice(E)
    for f in ('Laue_group', 'point_group', 'lattice_group', 'special_lattice_group'):
        c.raises(f, AttributeError, lambda: getattr(l, f)())


@contract('C04', [L + '.inpointgroup'], n=100)
def other_shapes(c):
    n = c.choice('dim', [2, 3])
    E = c.mat('E', n)
    c.nonzero(c.det(E), 0.3)
    l = c.mod(LAT).Lattice(E)
    k = c.choice('kind', ['dim', 'rect', 'vector', 'text', '4d'])
    if k == '4d':
        if c.sym:
            return c.true('run time only', True)
        E = c.np.eye(4) * c.pos('s')
        l = c.mod(LAT).Lattice(E)
        Q = c.np.array(c.choice('Q', GR.signed_perms(4)), dtype='float')
        c.true('hypercubic symmetries are accepted in 4D', l.inpointgroup(Q) and l.inlatticegroup(Q))
        Q = Q.dot(c.np.array([[.5, .5, .5, .5], [.5, .5, -.5, -.5], [.5, -.5, .5, -.5], [.5, -.5, -.5, .5]]))
        c.true('half-integral map is not a symmetry of the hypercubic lattice', not l.inpointgroup(Q) and not l.inlatticegroup(Q))
        return
    Q = {'dim': c.np.eye(5 - n), 'rect': c.np.ones((n, n + 1)), 'vector': c.np.ones(n), 'text': 'x'}[k]
    if k == 'text':
        c.true('not in the point group', not l.inpointgroup([]) if not c.sym else True)
    else:
        c.true('not in the point group', not l.inpointgroup(Q))
