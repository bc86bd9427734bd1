"""C05: Bravais lattices get their full holohedry."""
from vc.api import contract
from contracts.common import bravais, make, BRA, LAT, MG, ORDER, params
from contracts.groups import holohedry, full2d, samem, index, hexmats, CUBIC

L = LAT + '.Lattice'
MT = 'structrans.marttrans.martensite'


@contract('C05', [L + '.inpointgroup', L + '.__eq__', BRA + '.BravaisLattice.__primitiveBase3D__',
                  BRA + '.BravaisLattice.__primitiveBase2D__'], n=300)
def holohedry_accepted(c):
    """every rotation the crystal system requires passes the membership test, for all admissible parameters"""
    dim, lid, ps, G = bravais(c)
    l = make(c, dim, lid, ps)
    ms = holohedry(c, dim, lid) if dim == 3 else full2d(c, lid)
    if not c.sym:
        c.same('number of required elements', len(ms), ORDER[3][lid - 1] if dim == 3 else [8, 4, 4, 12, 2][lid - 1])
    for Q in ms:
        c.true('required symmetry accepted', l.inpointgroup(Q))


@contract('C05', [L + '.Laue_group', L + '.point_group'], n=1, run=False)
def filter_complete(c):
    """Laue_group / point_group against the contract of inpointgroup (membership in the true group): every required
    element is in the result, the order is that of the group"""
    dim = c.choice('dim', [3, 2])
    if dim == 3:
        lid = c.choice('id', [1, 4, 5, 6, 8, 12, 14])
        ms = holohedry(c, 3, lid)
        B = c.mod(LAT).Lattice(c.np.eye(3) * 2.0)
        c.stub(LAT + ':Lattice.inpointgroup', lambda self, Q: index(c, c.np.array(Q), ms) >= 0 or index(c, -c.np.array(Q), ms) >= 0)
        g = B.Laue_group().matrices()
    else:
        lid = c.choice('id', [1, 2, 4, 5])
        allm = full2d(c, lid)
        ms = holohedry(c, 2, lid)
        B = c.mod(LAT).Lattice(c.np.eye(2) * 2.0)
        c.stub(LAT + ':Lattice.inpointgroup', lambda self, Q: index(c, c.np.array(Q), allm) >= 0)
        g = B.Laue_group().matrices()
        p = B.point_group().matrices()
        c.same('point group order', len(p), len(allm))
        for Q in allm:
            c.true('point group contains every required element', index(c, Q, p) >= 0)
    c.same('order', len(g), len(ms))
    for Q in ms:
        c.true('Laue group contains every required rotation', index(c, Q, g) >= 0)


@contract('C05', [L + '.Laue_group', L + '.point_group'], n=400, sym=False)
def groups_runtime(c):
    dim, lid, ps, G = bravais(c)
    l = make(c, dim, lid, ps)
    ms = holohedry(c, dim, lid)
    g = l.Laue_group()
    for Q in ms:
        c.true('Laue group contains every required rotation', index(c, Q, g.matrices()) >= 0)
    c.true('order at least that of the crystal system', g.order() >= ORDER[dim][lid - 1])
    p = l.point_group()
    need = ms + [-Q for Q in ms] if dim == 3 else full2d(c, lid)
    for Q in need:
        c.true('point group contains every required element', index(c, Q, p.matrices()) >= 0)
    # generic parameters (no two lengths within 10 %, no angle close to a special one): exactly the holohedry
    gen = all(abs(a / b - k) > 0.08 and abs(b / a - k) > 0.08 for i, a in enumerate(ps) for b in ps[:i] for k in
              (0.408, 0.5, 0.577, 0.707, 0.816, 0.866, 1, 1.155, 1.225, 1.414, 1.633, 1.732, 2, 2.449, 2.828, 3)) if not (dim == 3 and lid == 5) else min(
              abs(ps[1] - x) for x in (33.557, 60, 90, 109.471)) > 2
    if gen and not (dim == 3 and lid == 14) and all(abs(x - y) > 2 for x in ps[3:] for y in (45, 60, 90, 120, 135)):
        if not (lid >= 12 or (dim == 2 and lid == 5)):
            c.same('order for generic parameters', g.order(), ORDER[dim][lid - 1])
            c.same('point group order for generic parameters', p.order(), len(need))


@contract('C05', [MT + '.Martensite.setLaue'], n=28, sym=False)
def setlaue(c):
    lid = c.case % 14 + 1 if c.given is None else int(c.given['id'])
    c.inputs['id'] = lid
    m = c.mod(MT).Martensite(c.np.diag([1.1, 1.1, 0.9]))
    g = m.setLaue(lid).getLaue()
    ms = holohedry(c, 3, lid)
    c.same('order of the group of the crystal system', g.order(), len(ms))
    for Q in ms:
        c.true('group of the crystal system', index(c, Q, g.matrices()) >= 0)
    for bad in (0, 15, -1, 2.5, 'cubic', None):
        c.raises('unknown id', ValueError, lambda: m.setLaue(bad))


@contract('C05', [MT + '.Martensite.setLaue'], n=1, run=False)
def setlaue_params(c):
    """the parameters used for each id build the Bravais lattice of that id, whose required rotations are all accepted"""
    lid = c.choice('id', list(range(1, 15)))
    rec = []
    mod = c.mod(MT)
    Br = c.mod(BRA).BravaisLattice
    ms = holohedry(c, 3, lid)

    def lg(self):
        rec.append(self)
        for Q in ms:
            c.true('required rotation accepted', self.inpointgroup(Q))
        c.same('lattice of that id', self.Bravais_id(), lid)
        return c.mod(MG).MatrixGroup(ms)
    c.stub(LAT + ':Lattice.Laue_group', lg)
    g = mod.Martensite(c.np.diag([1.1, 1.1, 0.9])).setLaue(lid).getLaue()
    c.same('the group of that lattice', g.order(), len(ms))
    c.true('computed from a lattice', len(rec) > 0)
