"""shared pieces of the contracts"""
LAT = 'structrans.crystallography.lattice'
BRA = 'structrans.crystallography.bravais_lattice'
MG = 'structrans.crystallography.matrix_group'

NPAR = {3: [1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 6], 2: [1, 2, 2, 1, 3]}
# centring translations in conventional coordinates (besides the integers)
H = 0.5
CENTRE = {3: {2: [(0, H, H), (H, 0, H), (H, H, 0)], 3: [(H, H, H)], 7: [(H, H, H)], 9: [(H, H, 0)],
              10: [(0, H, H), (H, 0, H), (H, H, 0)], 11: [(H, H, H)], 13: [(H, H, 0)]},
          2: {3: [(H, H)]}}
ORDER = {3: [24, 24, 24, 12, 6, 8, 8, 4, 4, 4, 4, 2, 2, 1], 2: [4, 2, 2, 6, 2]}


def params(c, dim, lid, generic=False):
    """admissible symbolic/random parameters of a Bravais type and the metric tensor they prescribe"""
    def p(n):
        return c.pos(n, 0.5, 4.0)
    if dim == 2:
        a = p('a')
        if lid == 1:
            return [a], [[a * a, 0], [0, a * a]]
        if lid in (2, 3):
            b = p('b')
            return [a, b], [[a * a, 0], [0, b * b]]
        if lid == 4:
            return [a], [[a * a, a * a / 2], [a * a / 2, a * a]]
        b, g = p('b'), c.between('gamma', 20, 160)
        c.positive(c.sind(g))
        k = a * b * c.cosd(g)
        return [a, b, g], [[a * a, k], [k, b * b]]
    a = p('a')
    if lid <= 3:
        return [a], [[a * a, 0, 0], [0, a * a, 0], [0, 0, a * a]]
    if lid == 4:
        cc = p('c')
        return [a, cc], [[a * a, a * a / 2, 0], [a * a / 2, a * a, 0], [0, 0, cc * cc]]
    if lid == 5:
        al = c.between('alpha', 25, 115)
        co = c.cosd(al)
        c.positive(1 - co)
        c.positive(1 + 2 * co)
        k = a * a * co
        return [a, al], [[a * a, k, k], [k, a * a, k], [k, k, a * a]]
    if lid in (6, 7):
        cc = p('c')
        return [a, cc], [[a * a, 0, 0], [0, a * a, 0], [0, 0, cc * cc]]
    b, cc = p('b'), p('c')
    if lid <= 11:
        return [a, b, cc], [[a * a, 0, 0], [0, b * b, 0], [0, 0, cc * cc]]
    if lid in (12, 13):
        be = c.between('beta', 30, 150)
        c.positive(c.sind(be))
        k = a * cc * c.cosd(be)
        return [a, b, cc, be], [[a * a, 0, k], [0, b * b, 0], [k, 0, cc * cc]]
    al, be, ga = c.between('alpha', 40, 130), c.between('beta', 40, 130), c.between('gamma', 40, 130)
    x, y, z = c.cosd(al), c.cosd(be), c.cosd(ga)
    c.positive(c.sind(ga))
    c.positive(1 + 2 * x * y * z - x * x - y * y - z * z, 0.02)
    return [a, b, cc, al, be, ga], [[a * a, a * b * z, a * cc * y], [a * b * z, b * b, b * cc * x],
                                    [a * cc * y, b * cc * x, cc * cc]]


def bravais(c, dims=(3, 2), ids=None):
    dim = c.choice('dim', list(dims))
    lid = c.choice('id', [i for i in range(1, len(NPAR[dim]) + 1) if ids is None or (dim, i) in ids])
    ps, G = params(c, dim, lid)
    return dim, lid, ps, G


def make(c, dim, lid, ps):
    B = c.mod(BRA).BravaisLattice
    form = 'list'
    if not c.sym:
        form = c.choice('form', ['list', 'array', 'scalar'])
    arg = ps
    if form == 'array':
        arg = c.np.array(ps)
    elif form == 'scalar' and len(ps) == 1:
        arg = ps[0]
    return B(lid, arg, dim) if dim == 2 else B(lid, arg)


def private(c, mod, name):
    """a helper of the repository that may be named or organised differently"""
    f = getattr(c.mod(mod), name, None)
    c.soft('%s has a function %s' % (mod, name), f is not None)
    return f


def int_group(c, name, n, sampler):
    return c.group(['%s[%d]' % (name, i) for i in range(n)], True, sampler)
