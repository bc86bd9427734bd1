"""C06: Bravais lattice bases realise the given lattice parameters."""
from vc.api import contract
from contracts.common import bravais, make, params, CENTRE, NPAR, BRA

B = BRA + '.BravaisLattice'
FN = [B + '.__init__', B + '.__primitiveBase3D__', B + '.__primitiveBase2D__', B + '.conventional_base', B + '.conventional_trans']


@contract('C06', FN, n=400)
def metric(c):
    """metric tensor of the conventional cell: lengths and angles are those given"""
    dim, lid, ps, G = bravais(c)
    l = make(c, dim, lid, ps)
    E = l.conventional_base()
    c.eq('metric tensor of the conventional base', E.T.dot(E), G)
    c.eq('conventional = primitive . transformation', l.base().dot(l.conventional_trans()), E)
    c.same('Bravais id', l.Bravais_id(), lid)
    c.eq('parameters', l.lat_param(), ps)
    c.same('dimension', l.dimension(), dim)


@contract('C06', FN, n=300)
def centring(c):
    """the primitive lattice contains the conventional base and the centring points, with the right multiplicity"""
    dim, lid, ps, G = bravais(c)
    l = make(c, dim, lid, ps)
    C = l.conventional_trans()
    cen = CENTRE[dim].get(lid, [])
    k = 1 + len(cen)
    d = c.det(C)
    c.eq('volume ratio = centring multiplicity (squared)', d * d, k * k)
    c.eq('conventional base vectors are lattice points', C, c.np.rint(C))
    for t in cen:
        v = C.dot(c.np.array(t))
        c.eq('centring points are lattice points', v, c.np.rint(v))
    # right-handed bases
    if dim == 3:
        c.true('conventional base is right-handed', c.det(l.conventional_base()) > 0)


@contract('C06', B + '.__init__', n=200)
def rejects(c):
    dim = c.choice('dim', [3, 2])
    lid = c.choice('id', list(range(1, len(NPAR[dim]) + 1)))
    n = NPAR[dim][lid - 1]
    kind = c.choice('kind', ['nonpositive', 'few', 'many', 'id', 'nested'])
    Br = c.mod(BRA).BravaisLattice
    ps = [c.pos('p%d' % i) for i in range(n)]
    if kind == 'nonpositive':
        i = c.choice('i', list(range(n)))
        x = c.pos('neg')
        ps[i] = c.choice('zero', [0, -1, 1]) * x * -1
        c.require(c.np.array(ps[i]) <= 0)
        c.raises('non-positive parameter', ValueError, lambda: Br(lid, ps, dim))
    elif kind == 'few':
        c.raises('too few parameters', ValueError, lambda: Br(lid, ps[:-1], dim))
    elif kind == 'many':
        c.raises('too many parameters', ValueError, lambda: Br(lid, ps + [1.0], dim))
    elif kind == 'id':
        bad = c.choice('bad', [0, -1, len(NPAR[dim]) + 1, 99])
        c.raises('unknown id', ValueError, lambda: Br(bad, ps, dim))
    else:
        c.raises('nested parameters', ValueError, lambda: Br(lid, [ps, ps], dim))
