"""C07: Miller index conversions."""
from vc.api import contract
from contracts.common import bravais, make, BRA, LAT

B = BRA + '.BravaisLattice'


def _index(c, dim, kind='f'):
    k = c.choice('count', [0, 1, 2, 4])
    if k == 0:
        return c.vec('v', dim, kind=kind), True
    return c.mat('v', k, dim, kind=kind), k == 1


@contract('C07', [B + '.to_primitive_Miller', B + '.to_conventional_Miller'], n=300)
def conversions(c):
    dim, lid, ps, G = bravais(c)
    l = make(c, dim, lid, ps)
    v, single = _index(c, dim, c.choice('entries', ['f', 'i']))
    aslist = c.choice('aslist', [False, True])
    arg = [x for x in v] if aslist and v.ndim == 1 else [[x for x in r] for r in v] if aslist else v
    V = v.reshape(-1, dim)
    p = l.to_primitive_Miller(arg)
    q = l.to_conventional_Miller(arg)
    c.same('a single index gives a single index, a list a list', (c.np.array(p).shape, c.np.array(q).shape),
           ((dim,), (dim,)) if single else (V.shape, V.shape))
    P, Q = c.np.array(p).reshape(-1, dim), c.np.array(q).reshape(-1, dim)
    E, C = l.base(), l.conventional_base()
    c.eq('same vector (to primitive)', E.dot(P.T), C.dot(V.T))
    c.eq('same vector (to conventional)', C.dot(Q.T), E.dot(V.T))
    c.eq('round trip c-p-c', c.np.array(l.to_conventional_Miller(p)).reshape(-1, dim), V)
    c.eq('round trip p-c-p', c.np.array(l.to_primitive_Miller(q)).reshape(-1, dim), V)


@contract('C07', [B + '.to_primitive_Miller', B + '.to_conventional_Miller'], n=100)
def wrong_dimension(c):
    dim, lid, ps, G = bravais(c, ids=[(3, 3), (3, 8), (3, 14), (2, 3), (2, 5)])
    l = make(c, dim, lid, ps)
    kind = c.choice('kind', ['vector', 'list', 'cube', 'scalar', 'text'])
    other = c.choice('other', [1, 2, 3, 4, 5])
    c.require(other != dim)
    bad = {'vector': c.np.array([1.0] * other), 'list': c.np.ones((3, other)), 'cube': c.np.ones((2, 2, dim)), 'scalar': 3,
           'text': 'hkl'}[kind]
    c.raises('to primitive', ValueError, lambda: l.to_primitive_Miller(bad))
    c.raises('to conventional', ValueError, lambda: l.to_conventional_Miller(bad))


@contract('C07', [B + '.toPrimitive', B + '.toConventional', B + '.getConventionalBase', B + '.getConventionalTrans',
                  B + '.getLatID', B + '.getLatParam', LAT + '.Lattice.getbase'], n=120)
def deprecated_accessors(c):
    dim, lid, ps, G = bravais(c)
    l = make(c, dim, lid, ps)
    v, single = _index(c, dim)
    c.eq('toPrimitive', l.toPrimitive(v), l.to_primitive_Miller(v))
    c.eq('toConventional', l.toConventional(v), l.to_conventional_Miller(v))
    c.eq('getConventionalBase', l.getConventionalBase(), l.conventional_base())
    c.eq('getConventionalTrans', l.getConventionalTrans(), l.conventional_trans())
    c.same('getLatID', l.getLatID(), l.Bravais_id())
    c.eq('getLatParam', l.getLatParam(), l.lat_param())
    c.eq('getbase', l.getbase(), l.base())


@contract('C07', [LAT + '.Lattice.getLauegroup', LAT + '.Lattice.getpointgroup', LAT + '.Lattice.getlatticegroup',
                  LAT + '.Lattice.getspeciallatticegroup'], n=60)
def deprecated_groups(c):
    """the deprecated spellings return what the replacing method returns (callee abstracted to a token)"""
    names = [('getLauegroup', 'Laue_group'), ('getpointgroup', 'point_group'), ('getlatticegroup', 'lattice_group'),
             ('getspeciallatticegroup', 'special_lattice_group')]
    old, new = c.choice('name', names)
    dim, lid, ps, G = bravais(c, ids=[(3, i) for i in (1, 4, 6, 9, 14)] + [(2, 1), (2, 4), (2, 5)])
    l = make(c, dim, lid, ps)
    if c.sym:
        tok = c.np.eye(dim) * 7
        c.stub(LAT + ':Lattice.' + new, lambda self: tok)
        c.eq(old, getattr(l, old)(), tok)
    else:
        a, b = getattr(l, old)(), getattr(l, new)()
        c.same('order', a.order(), b.order())
        c.eq(old, a.matrices(), b.matrices())
