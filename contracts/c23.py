"""C23: stereographic projection; unit-cell vertices and bonds."""
import itertools
from vc.api import contract
from contracts import common

ST = 'structrans.crystallography.stereogram'
VI = 'structrans.crystallography.visualization'


def _pole(c, name, z, side):
    """a pole of positive length away from the zone axis and from the code's absolute threshold; its length and cosine"""
    zh, R = z
    if c.sym:
        v, n = c.unit(name), c.pos(name + 'len', 0.1, 20.0)
        p = v * n
    else:
        k = c.choice(name + 'kind', ['real', 'int'])
        p = c.vec(name, 3) * c.pos(name + 'len', 0.2, 20.0) if k == 'real' else c.vec(name + 'i', 3, kind='i', lo=-4, hi=4)
        n = c.sqrt(p.dot(p))
        c.require(n > 0.05)
        v = p / n
    g = v.dot(zh)
    if side == 'near':
        c.require(g > 0)
        c.require(g * n * R > 2e-6)
    else:
        c.require(g < 0)
    c.require(n > 2e-6)
    c.require(g * g < 0.999)
    c.require(g < 0.9995)         # follows; spelled out for the solver
    c.require(g > -0.9995)
    return p, n, g if side == 'near' else -g


def _zone(c):
    k = c.choice('zone', ['generic', 'e3'] if c.sym else ['generic', 'int', 'e3'])
    if k == 'e3':
        R = c.pos('zlen')
        sg = c.choice('zsign', [1, -1])
        return c.np.array([0, 0, sg]) * R, (c.np.array([0, 0, sg]), R)
    if k == 'int':
        z = c.vec('zi', 3, kind='i', lo=-3, hi=3)
        c.require(z.dot(z) > 0)
        return z, (z / c.sqrt(z.dot(z)), c.sqrt(z.dot(z)))
    u, R = c.unit('z'), c.pos('zlen')
    z = u * R
    c.require(z[0] ** 2 + z[1] ** 2 > 1e-2 if not c.sym else z[0] ** 2 + z[1] ** 2 > 1e-6)
    return z, (u, R)


@contract('C23', [ST + '.stereo_proj'], n=600, z3_ms=15000, timeout=300,
          note='stereo_proj rounds sin^2 of the polar angle to 6 decimals; the contract treats that rounding as exact and keeps the pole at least 1.8 degrees from the zone axis')
def projection(c):
    """Gram matrix of projections of any two poles: fixes the projection up to one orthogonal frame per zone axis"""
    z, zd = _zone(c)
    zh, R = zd
    s1 = c.choice('side1', ['near', 'far'])
    s2 = c.choice('side2', ['near', 'far'])
    p, n1, g1 = _pole(c, 'p', zd, s1)
    q, n2, g2 = _pole(c, 'q', zd, s2)
    f = c.mod(ST).stereo_proj
    p0, z0 = p.copy(), z.copy()
    rp, rq = f(p, z), f(q, z)
    c.true('a point of the plane', len(rp) == 2)
    # tan(theta/2)^2 = (1 - cos)/(1 + cos)
    c.eq('distance |z| tan(theta/2)', rp.dot(rp) * (1 + g1), R * R * (1 - g1), tol=2e-4)
    perp = p.dot(q) - p.dot(zh) * q.dot(zh)
    t = c.sqrt((1 - g1) / (1 + g1)) * c.sqrt((1 - g2) / (1 + g2)) / (c.sqrt(1 - g1 * g1) * c.sqrt(1 - g2 * g2))
    c.eq('directions of the orthogonal components', rp.dot(rq), R * R * t * perp / (n1 * n2), tol=2e-4)
    c.eq('pole unchanged', p, p0)
    c.eq('zone axis unchanged', z, z0)


@contract('C23', [ST + '.stereo_proj'], n=300, z3_ms=15000)
def scale_free(c):
    z, zd = _zone(c)
    side = c.choice('side', ['near', 'far'])
    p, n, g = _pole(c, 'p', zd, side)
    k = c.pos('k', 0.5, 20.0)
    if c.sym:
        c.require(n * k > 2e-6)   # the scaled pole stays clear of the code's absolute thresholds, too
        c.require(p.dot(z) * k > 2e-6 if side == 'near' else p.dot(z) * k < 0)
    f = c.mod(ST).stereo_proj
    r = f(p, z)
    c.eq('independent of the length of the pole', f(p * k, z), r, tol=2e-4)
    if not c.sym:
        c.eq('far pole mirrored', f(p - zd[0] * (2 * p.dot(zd[0])), z), r, tol=2e-4)
        c.le('in the disc', r.dot(r), zd[1] ** 2, tol=1e-5)


@contract('C23', [ST + '.stereo_proj'], n=60, sym=False)
def axis_pole(c):
    z, zd = _zone(c)
    k = c.pos('k', 0.5, 20.0) * c.choice('sign', [1, -1])
    c.eq('the zone axis projects to the centre', c.mod(ST).stereo_proj(z * k, z), [0, 0])


@contract('C23', [ST + '.pole_figure'], n=60, sym=False)
def pole_list(c):
    z, zd = _zone(c)
    n = c.choice('n', [1, 2, 4])
    ps = [_pole(c, 'p%d' % i, zd, c.choice('side%d' % i, ['near', 'far']))[0] for i in range(n)]
    M = c.mod(ST)
    c.eq('one projection for each pole, in order', M.pole_figure([list(p) for p in ps], z), [M.stereo_proj(p, z) for p in ps])
    c.eq('single pole', M.pole_figure(ps[0], z), [M.stereo_proj(ps[0], z)])
    c.true('pairs are not poles', M.pole_figure([[1, 2], [3, 4]], z) is None)


def sums(o, E):
    n = len(E)
    out = []
    for bits in itertools.product([0, 1], repeat=n):
        v = o
        for k in range(n):
            if bits[k]:
                v = v + E[k]
        out.append((bits, v))
    return out


def check_cell(c, verts, bds, o, E):
    n = len(E)
    want = sums(o, E)
    lab = []
    c.true('2^n vertices', len(verts) == 2 ** n)
    for v in verts:
        hit = [b for b, w in want if c.close(v, w)]
        c.true('vertex is the origin plus base vectors', len(hit) >= 1)
        lab.append(hit[0] if hit else None)
    c.true('each subset sum once', len(set(lab)) == 2 ** n)
    pairs = []
    for a, b in bds:
        ha = [x for x, w in want if c.close(a, w)]
        hb = [x for x, w in want if c.close(b, w)]
        c.true('bond joins two vertices', len(ha) >= 1 and len(hb) >= 1)
        if ha and hb:
            pairs.append(frozenset((ha[0], hb[0])))
    edges = {frozenset((x, y)) for x, _ in want for y, _ in want if sum(i != j for i, j in zip(x, y)) == 1}
    c.true('one bond for every edge', len(pairs) == len(edges) and set(pairs) == edges)


@contract('C23', [VI + '.vertex', VI + '.bonds'], n=100)
def cell(c):
    n = c.choice('n', [2, 3])
    E = c.mat('E', n)
    if not c.sym:
        c.require(abs(c.det(E)) > 0.05)
    form = c.choice('form', ['array', 'list'])
    o = c.vec('o', n) if c.choice('zero', [False, True]) else c.np.array([0] * n)
    M = c.mod(VI)
    a = (list(o), [list(r) for r in E]) if form == 'list' else (o, E)
    E0 = E.copy()
    verts = M.vertex(a[0], a[1], n) if c.choice('dflt', [False, True]) or n == 2 else M.vertex(a[0], a[1])
    check_cell(c, verts, M.bonds(verts), o, E)
    c.eq('argument unchanged', E, E0)


@contract('C23', [VI + '.vertex'], n=20)
def cell_rejects(c):
    n = c.choice('n', [2, 3])
    M = c.mod(VI)
    E = c.mat('E', 5 - n)
    c.true('wrong base shape', M.vertex([0] * n, E, n) is None)
    k = c.choice('k', [1, 4, 5])
    c.raises('dimension', M.visualError, lambda: M.vertex([0] * n, c.np.eye(n), k))


@contract('C23', [VI + '.UnitCell'], n=150)
def unit_cell(c):
    dim = c.choice('dim', [2, 3])
    ids = range(1, 6) if dim == 2 else range(1, 15)
    lid = c.choice('id', list(ids))
    ps, _ = common.params(c, dim, lid)
    o = c.vec('o', dim)
    U = c.mod(VI).UnitCell(o, lid, ps if len(ps) > 1 else ps[0], dim)
    L = common.make(c, dim, lid, ps)
    B, C = L.base().T, L.conventional_base().T
    check_cell(c, U.getPrimitive(), U.getPrimitivebonds(), o, B)
    check_cell(c, U.getConventionalVex(), U.getConventionalbonds(), o, C)
    check_cell(c, U.getPrimitive(), U.bonds(U.getPrimitive()), o, B)
    o2 = c.vec('o2', dim)
    U.setOrigin(o2)
    check_cell(c, U.getPrimitive(), U.getPrimitivebonds(), o2, B)
    s = c.vec('s', dim)
    c.eq('copy is a translate', U.copyTo(s, U.getPrimitive()), U.getPrimitive() + s)
