"""C22: arguments are left alone, results share no state with the object, queries do not influence each other.

Frame conditions.  Symbolically every array element is a term, arrays are real (object) arrays, so aliasing and in-place
writes behave as in numpy; a frame condition is then an equality of terms before and after."""
from vc.api import contract
from contracts.common import BRA, LAT, MG, NPAR, params
from contracts.groups import CUBIC, SQUARE

X = 'structrans.crystallography.'
M = 'structrans.marttrans.'
LC = M + 'lat_cor.'
UT = 'structrans.util.utils'
MT = M + 'martensite'
TW = M + 'twin'
CO = M + 'Compatibility'


# ---------------------------------------------------------------- snapshots
def snap(c, x):
    """a deep, alias-free description of a value"""
    if isinstance(x, c.np.ndarray):
        return ('array', tuple(x.shape), [snap(c, y) for y in x.flatten()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, len(x), [snap(c, y) for y in x])
    if isinstance(x, dict):
        ks = sorted(x, key=str)
        return ('dict', tuple(map(str, ks)), [snap(c, x[k]) for k in ks])
    n = type(x).__name__
    if n == 'MatrixGroup':
        return (n, x.order(), [snap(c, m) for m in x.matrices()])
    if n == 'TwinPair':
        return (n, 0, [snap(c, x.Ui()), snap(c, x.Uj())])
    return ('leaf', None, [x])


def equal(c, name, a, b):
    """two snapshots describe the same value (exactly)"""
    c.same(name + ': structure', a[:2], b[:2])
    for x, y in zip(a[2], b[2]):
        if isinstance(x, tuple):
            equal(c, name, x, y)
        elif x is y or (isinstance(x, (str, bool, type(None))) and x == y):
            c.same(name, True, True)
        elif isinstance(x, (str, bool, type(None))):
            c.same(name, x, y)
        elif not c.sym and x != x and y != y:
            c.same(name, True, True)
        else:
            c.eq(name, x, y, tol=0)


def alike(c, name, a, b):
    """as equal, up to rounding (results computed twice)"""
    c.same(name + ': structure', a[:2], b[:2])
    for x, y in zip(a[2], b[2]):
        if isinstance(x, tuple):
            alike(c, name, x, y)
        elif isinstance(x, (str, bool, type(None))):
            c.same(name, x, y)
        elif not c.sym and x != x and y != y:
            c.same(name, True, True)
        else:
            c.eq(name, x, y, tol=1e-12)


def scramble(c, x, depth=0):
    """overwrite everything that can be overwritten in a returned value"""
    if isinstance(x, c.np.ndarray):
        for y in x.flatten():
            if isinstance(y, (list, c.np.ndarray)):
                scramble(c, y, depth + 1)
        if x.size and x.flags.writeable:
            f = x.dtype.kind
            x[...] = 7 if f != 'b' else True
    elif isinstance(x, list):
        for y in x:
            scramble(c, y, depth + 1)
        x.append(99)
        if len(x) > 1:
            x[0] = 55
    elif isinstance(x, tuple):
        for y in x:
            scramble(c, y, depth + 1)
    elif isinstance(x, dict):
        x.clear()
    elif type(x).__name__ == 'MatrixGroup':
        scramble(c, x.matrices(), depth + 1)
    elif type(x).__name__ == 'TwinPair' and depth < 3:
        for f in ('Ui', 'Uj'):
            scramble(c, getattr(x, f)(), depth + 1)
        if not c.sym:
            for f in ('ax', 'twinparam'):
                scramble(c, getattr(x, f)(), depth + 1)


def ask(c, f):
    """answer of a query; an AttributeError is an answer too"""
    try:
        return f()
    except AttributeError:
        return 'AttributeError'


def builtin(c):
    g = c.mod(MG)
    return [g.CUBIC_LAUE_GROUP, g.HEX_LAUE_GROUP, g.SQUARE_GROUP, g.SQUARE_EXT_GROUP, g.HEX2D_GROUP, g.HEX2D_EXT_GROUP]


def protocol(c, make, queries, what=None):
    """make() builds the object; queries: name -> function of the object"""
    names = sorted(queries)
    kind = what or c.choice('kind', ['scramble', 'order'])
    o = make()
    if kind == 'scramble':
        k = c.choice('query', list(range(len(names))))
        first = c.choice('others before', [False, True])
        ref = make()
        want = {n: snap(c, ask(c, lambda: queries[n](ref))) for n in names}
        groups = [snap(c, g) for g in builtin(c)] if not c.sym else None
        if first:
            for n in names:
                ask(c, lambda: queries[n](o))
        scramble(c, ask(c, lambda: queries[names[k]](o)))
        for n in [names[k]] + names:
            alike(c, 'after changing the result of a query in place: %s' % n, snap(c, ask(c, lambda: queries[n](o))), want[n])
        if not c.sym:
            for g, s in zip(builtin(c), groups):
                equal(c, 'built-in groups', snap(c, g), s)
        # an object made afterwards is not affected either
        p = make()
        alike(c, 'a new object', snap(c, ask(c, lambda: queries[names[k]](p))), want[names[k]])
    else:
        seq = []
        if c.sym:
            i = c.choice('first query', list(range(len(names))))
            j = c.choice('second query', list(range(len(names))))
            seq = [names[i], names[j], names[i]]
        else:
            seed = int(c._get('seed', lambda: c.rng.randrange(10 ** 6)))
            import random
            r = random.Random(seed)
            seq = [r.choice(names) for _ in range(14)]
        alone = {}
        for n in seq:
            if n not in alone:
                p = make()
                alone[n] = snap(c, ask(c, lambda: queries[n](p)))
            alike(c, 'same answer whatever was asked before: %s' % n, snap(c, ask(c, lambda: queries[n](o))), alone[n])


# ---------------------------------------------------------------- objects
@contract('C22', [MG + '.MatrixGroup.__init__', MG + '.MatrixGroup.matrices', MG + '.MatrixGroup.order', MG + '.MatrixGroup.hassubgroup'], n=60)
def matrix_group(c):
    """arbitrary matrices, given as arrays or nested lists; the caller's matrices are changed afterwards"""
    n = c.choice('order', [1, 2, 3])
    d = c.choice('dim', [2, 3])
    ms = [c.mat('M%d' % i, d) for i in range(n)]
    form = c.choice('form', ['list of arrays', 'array', 'nested list'])
    arg = ms if form == 'list of arrays' else c.np.array(ms) if form == 'array' else [m.tolist() for m in ms]
    keep = snap(c, arg)
    C = c.mod(MG).MatrixGroup
    g = C(arg)
    equal(c, 'argument unchanged', snap(c, arg), keep)
    want = snap(c, g)
    if form == 'array':
        arg[0, 0, 0] = 7
    else:
        arg[0][0][0] = 7
        arg.append(3)
    equal(c, 'changing the matrices the group was built from', snap(c, g), want)
    r = g.matrices()
    scramble(c, r)
    equal(c, 'changing the returned matrices', snap(c, g), want)
    if not c.sym:
        h = C([c.np.array(m) for m in g.matrices()[:1]])
        g.hassubgroup(h)
        h.hassubgroup(g)
        equal(c, 'after a subgroup test', snap(c, g), want)


@contract('C22', [MG + '.MatrixGroup.matrices'], n=12)
def builtin_groups(c):
    i = c.choice('group', list(range(6)))
    g = builtin(c)[i]
    want = [snap(c, h) for h in builtin(c)]
    r = g.matrices()
    scramble(c, r)
    for h, w in zip(builtin(c), want):
        equal(c, 'built-in group', snap(c, h), w)


def lattice_base(c, dim):
    if c.sym:
        return c.mat('E', dim)
    if c.choice('base', ['random', 'symmetric']) == 'random':
        E = c.mat('E', dim)
    else:
        from contracts.c04 import LAT as _           # noqa: F401
        lid = c.choice('id', list(range(1, len(NPAR[dim]) + 1)))
        ps, _ = params(c, dim, lid)
        E = c.mod(BRA).BravaisLattice(lid, ps, dim).base()
    c.nonzero(c.np.linalg.det(E), 0.05)
    return E


LQ = {n: (lambda n: lambda o: getattr(o, n)())(n) for n in
      ('base', 'getbase', 'dimension', 'Laue_group', 'getLauegroup', 'point_group', 'getpointgroup', 'special_lattice_group',
       'getspeciallatticegroup', 'lattice_group', 'getlatticegroup', '__str__')}


def member_stub(c):
    """contract of the membership test: any answer that depends on the matrix alone (here: a set of rotations, by stratum)"""
    if not c.sym:
        return
    S = c.choice('members', ['one', 'axis', 'all'])

    def member(self, Q):
        q = [[Q[i, j] for j in range(len(Q))] for i in range(len(Q))]
        if any(not hasattr(x, 'num') and x not in (0, 1, -1) for r in q for x in r):
            return False
        from vc.terms import lift
        v = []
        for r in q:
            for x in r:
                k = [t for t in (0, 1, -1) if (lift(x) - t).num == {}]
                if not k:
                    return False
                v.append(k[0])
        ident = all(v[i * len(Q) + j] == (1 if i == j else 0) for i in range(len(Q)) for j in range(len(Q)))
        diag = all(v[i * len(Q) + j] == 0 for i in range(len(Q)) for j in range(len(Q)) if i != j)
        return ident if S == 'one' else diag if S == 'axis' else True
    c.stub(LAT + ':Lattice.inpointgroup', member)


@contract('C22', [LAT + '.Lattice.__init__', LAT + '.Lattice.base', LAT + '.Lattice.Laue_group', LAT + '.Lattice.point_group',
                  LAT + '.Lattice.special_lattice_group', LAT + '.Lattice.lattice_group'], n=160, timeout=400)
def lattice(c):
    """any base; the membership test is stubbed by its frame (it reports whether a matrix belongs, and changes nothing)"""
    dim = c.choice('dim', [2, 3])
    E = lattice_base(c, dim)
    if c.sym:
        c.nonzero(c.det(E))
        c.opaque()
    member_stub(c)
    C = c.mod(LAT).Lattice
    q = dict(LQ)
    if c.sym:
        for n in ('__str__', 'getLauegroup', 'getpointgroup', 'getspeciallatticegroup', 'getlatticegroup', 'getbase'):
            q.pop(n)
        c.loose_rint = True
    else:
        R = c.np.array(CUBIC[3] if dim == 3 else SQUARE[2], dtype=float)
        q['inpointgroup'] = lambda o: o.inpointgroup(R)
        q['inlatticegroup'] = lambda o: o.inlatticegroup(c.np.array(CUBIC[3] if dim == 3 else SQUARE[2]))
        q['=='] = lambda o: o == C(o.base() * 1.0)
    protocol(c, lambda: C(E.copy()), q)


@contract('C22', [LAT + '.Lattice.__init__', LAT + '.Lattice.inpointgroup', LAT + '.Lattice.inlatticegroup'], n=60)
def lattice_arguments(c):
    """the base is copied on construction; arguments of the tests are not changed"""
    dim = c.choice('dim', [2, 3])
    E = c.mat('E', dim)
    if c.sym:
        c.nonzero(c.det(E))
        c.opaque()
    else:
        c.nonzero(c.np.linalg.det(E), 0.05)
    form = c.choice('form', ['array', 'list'])
    arg = E.copy() if form == 'array' else E.tolist()
    L = c.mod(LAT).Lattice(arg)
    want = snap(c, L.base())
    equal(c, 'argument unchanged', snap(c, c.np.array(arg)), snap(c, E))
    arg[0][0] = 7
    equal(c, 'base after changing the array passed in', snap(c, L.base()), want)
    if c.sym:
        return
    Q = c.rot('Q')[:dim, :dim] if dim == 3 else c.np.array([[0.6, -0.8], [0.8, 0.6]])
    for A in (Q, c.np.array(SQUARE[2] if dim == 2 else CUBIC[4]), c.np.array(SQUARE[2] if dim == 2 else CUBIC[4]).tolist()):
        k = snap(c, A)
        L.inpointgroup(A)
        L.inlatticegroup(A)
        equal(c, 'tested matrix unchanged', snap(c, A), k)


BQ = {n: (lambda n: lambda o: getattr(o, n)())(n) for n in
      ('Bravais_id', 'getLatID', 'lat_param', 'getLatParam', 'conventional_trans', 'getConventionalTrans', 'conventional_base',
       'getConventionalBase', 'base', '__str__')}


@contract('C22', [BRA + '.BravaisLattice.__init__', BRA + '.BravaisLattice.lat_param', BRA + '.BravaisLattice.conventional_trans',
                  BRA + '.BravaisLattice.conventional_base', BRA + '.BravaisLattice.to_primitive_Miller',
                  BRA + '.BravaisLattice.to_conventional_Miller'], n=150, timeout=400)
def bravais(c):
    dim = c.choice('dim', [3, 2])
    lid = c.choice('id', list(range(1, len(NPAR[dim]) + 1)))
    ps, _ = params(c, dim, lid)
    B = c.mod(BRA).BravaisLattice
    q = dict(BQ)
    if c.sym:
        for n in ('__str__', 'getLatID', 'getLatParam', 'getConventionalTrans', 'getConventionalBase'):
            q.pop(n)
    else:
        q.update({n: LQ[n] for n in ('Laue_group', 'point_group', 'lattice_group', 'special_lattice_group')})
    v = [c.int('v%d' % i) for i in range(dim)]
    form = c.choice('index', ['list', 'array', 'lists'] if not c.sym else ['list'])
    mk = lambda: (v if form == 'list' else c.np.array(v) if form == 'array' else [v, v[::-1]])
    q['to primitive'] = lambda o: o.to_primitive_Miller(mk())
    q['to conventional'] = lambda o: o.to_conventional_Miller(mk())
    protocol(c, lambda: B(lid, list(ps), dim), q, None if not c.sym else c.choice('sym kind', ['scramble', 'order'])
             if lid in (1, 2, 14) else 'scramble')


@contract('C22', [BRA + '.BravaisLattice.__init__', BRA + '.BravaisLattice.to_primitive_Miller', BRA + '.BravaisLattice.to_conventional_Miller'], n=60)
def bravais_arguments(c):
    dim = c.choice('dim', [3, 2])
    lid = c.choice('id', list(range(1, len(NPAR[dim]) + 1)))
    ps, _ = params(c, dim, lid)
    arg = c.np.array(ps) if c.choice('array', [False, True]) else list(ps)
    keep = snap(c, arg)
    b = c.mod(BRA).BravaisLattice(lid, arg, dim)
    equal(c, 'parameters unchanged', snap(c, arg), keep)
    want = [snap(c, f()) for f in (b.base, b.lat_param, b.conventional_base)]
    arg[0] = 7
    for w, f in zip(want, (b.base, b.lat_param, b.conventional_base)):
        equal(c, 'after changing the parameters passed in', snap(c, f()), w)
    v = [c.int('v%d' % i) for i in range(dim)]
    idx = c.choice('index', [0, 1, 2, 3])
    a = [v, c.np.array(v), [list(v), list(v)], c.np.array([v, v])][idx]
    k = snap(c, a)
    for f in (b.to_primitive_Miller, b.to_conventional_Miller):
        r = f(a)
        equal(c, 'index unchanged', snap(c, a), k)
        scramble(c, r)
        equal(c, 'index unchanged by changes to the result', snap(c, a), k)


def martensite_obj(c):
    from contracts import c17
    kind = c.choice('parent', ['cyclic4', 'tetragonal', 'ortho'] if c.sym else ['cubic', 'tetragonal', 'ortho', 'cyclic4'])
    fam = c.choice('family', ['generic', 'diag', 'mono'] if c.sym else ['tetragonal', 'diag', 'ortho', 'mono', 'generic'])
    U = c17.family(c, fam)
    G = c17.subgroups(c, kind)
    c.stub(MT + ':Martensite.isreversible', lambda self: True)
    return U, G


MQ = {n: (lambda n: lambda o: getattr(o, n)())(n) for n in ('getU', 'getLaue', 'getvariants', 'getLaueidx')}
MQ['getvariant'] = lambda o: o.getvariant(1)
MQ['isreversible'] = lambda o: o.isreversible()


@contract('C22', [MT + '.Martensite.__init__', MT + '.Martensite.getU', MT + '.Martensite.getvariants', MT + '.Martensite.getvariant',
                  MT + '.Martensite.getLaueidx', MT + '.Martensite.calcvariants'], n=100, timeout=400)
def martensite(c):
    U, G = martensite_obj(c)
    C = c.mod(MT).Martensite
    q = dict(MQ)
    how = 'init' if c.sym else c.choice('set by', ['init', 'setU'])

    def make():
        if how == 'setU':
            return C().setLaue(G).setU(U.copy())
        return C(U.copy(), G)
    if not c.sym:
        q['setU'] = lambda o: o.setU(U * 1.1).getU()
        q['setLaue'] = lambda o: o.setLaue(3).getLaue()
        q['second variant'] = lambda o: o.getvariant(len(o.getvariants()))
    protocol(c, make, q)


@contract('C22', [MT + '.Martensite.__init__', MT + '.Martensite.setU', MT + '.Martensite.setLaue', CO + '.Microstructure.getU',
                  CO + '.Microstructure.setU', CO + '.Microstructure.__init__'], n=80)
def stretch_arguments(c):
    """the array given to a constructor or setter is copied; the object it was called on is left alone"""
    from contracts import c17
    U = c17.family(c, c.choice('family', ['generic', 'tetragonal', 'iso']))
    arg = U.copy()
    C = c.mod(MT).Martensite
    which = c.choice('class', ['Martensite', 'Martensite.setU', 'Martensite.setU list', 'Microstructure', 'Microstructure.setU'])
    c.stub(UT + ':pos_def_sym', lambda U: True)
    c.stub(MT + ':pos_def_sym', lambda U: True)
    S = c.mod(CO).Microstructure
    if which == 'Martensite':
        m = C(arg)
    elif which == 'Martensite.setU':
        m0 = C()
        m = m0.setU(arg)
        c.raises('object the setter was called on', AttributeError, m0.getU)
    elif which == 'Martensite.setU list':
        arg = arg.tolist()
        m = C().setU(arg)
    elif which == 'Microstructure':
        m = S(arg)
    else:
        m = S()
        m.setU(arg)
    equal(c, 'argument unchanged', snap(c, c.np.array(arg)), snap(c, U))
    c.eq('getU', m.getU(), U, tol=0)
    arg[0][0] = 7
    c.eq('getU after changing the array passed in', m.getU(), U, tol=0)
    r = m.getU()
    r[1, 1] = 8
    c.eq('getU after changing its result', m.getU(), U, tol=0)
    if c.sym or 'Micro' in which:
        return
    g = m.getLaue()
    m2 = m.setLaue(6)
    c.same('setLaue leaves the object', m.getLaue().order(), g.order())
    m3 = m.setU(1.1, 0.9)
    c.eq('setU leaves the object', m.getU(), U, tol=0)
    c.eq('and the other one', m2.getU(), U, tol=0)
    c.eq('new one', m3.getU(), c.np.diag([1.1, 1.1, 0.9]))


def pair(c):
    """two variants related by a two-fold axis"""
    from contracts.c19 import symU, twofold
    U = symU(c)
    e = c.unit('e')
    R = twofold(c, e)
    W = R.dot(U).dot(R)
    W = (W + W.T) / 2
    c.require(abs(U - W).max() > 1e-2)
    return U, W


PQ = {n: (lambda n: lambda o: getattr(o, n)())(n) for n in
      ('Ui', 'Uj', 'istwinnable', 'isconventional', 'ax', 'iscompound', 'istypeI', 'istypeII', 'XI', 'XII', 'direct_cof', 'twinparam',
       'iscompatible', 'volumefrac', 'habitplanes')}


@contract('C22', [TW + '.TwinPair.' + n for n in ('__init__', 'Ui', 'Uj', 'ax', 'twinparam', 'XI', 'XII', 'isconventional', 'volumefrac')], n=150)
def twin_pair(c):
    """symbolically: any pair, with the eigenvectors, the twin solver and the fraction solver replaced by their frames
    (any result, fresh for every call, the same for the same arguments)"""
    C = c.mod(TW).TwinPair
    q = dict(PQ)
    if c.sym:
        U, W = c.symmat('U'), c.symmat('W')
        c.nonzero(c.det(U)), c.nonzero(c.det(W))
        c.opaque()
        e = [c.real('e%d' % i) for i in range(3)]
        c.positive(e[2])
        V = c.mat('V', 3)
        tw = [[c.mat('Q%d' % i, 3), c.vec('a%d' % i, 3), c.vec('n%d' % i, 3)] for i in range(2)]
        ax = [c.vec('t%d' % i, 3) for i in range(2)]
        c.stub(UT + ':sort_eig', lambda A: (c.np.array(list(e)), V.copy()))
        c.stub(TW + ':TwinPair.istwinnable', lambda self: True)
        c.stub(TW + ':_solvetwin', lambda U, Uj, ax: tuple(tuple(x.copy() for x in t) for t in tw))
        c.stub(TW + ':_solve_f', lambda U, a, n: 0.25)
        two = c.choice('axes', [1, 2])
        # the computed axes stay in the object: cached as if ax() had been asked
        for n in ('ax', 'iscompound', 'istypeI', 'istypeII', 'XI', 'XII', 'habitplanes', 'direct_cof', 'isconventional', 'iscompatible',
                  'volumefrac'):
            q.pop(n)
        axq = c.choice('which', ['parameters', 'axes'])

        def make():
            p = C(U.copy(), W.copy(), True)
            p._TwinPair__ax = [x.copy() for x in ax[:two]]
            return p
        if axq == 'axes':
            q = {'ax': PQ['ax'], 'Ui': PQ['Ui'], 'XI': PQ['XI'], 'twinparam': PQ['twinparam']}
            for x in ax:
                c.nonneg(x.dot(x))
    else:
        U, W = pair(c)
        g = c.mod(MG)
        q['conventional for the hexagonal group'] = lambda o: o.isconventional(g.HEX_LAUE_GROUP)
        q['conventional for the trivial group'] = lambda o: o.isconventional(g.MatrixGroup([c.np.eye(3)]))
        q['conventional for the related group'] = lambda o: o.isconventional(g.MatrixGroup([c.np.eye(3), c.np.diag([1, -1, -1])]))
        q['compatible I'] = lambda o: o.iscompatible('I')
        q['habit planes I'] = lambda o: o.habitplanes('I')
        make = lambda: C(U.copy(), W.copy())
    protocol(c, make, q)


@contract('C22', [TW + '.TwinPair.__init__'], n=50)
def twin_pair_arguments(c):
    C = c.mod(TW).TwinPair
    if c.sym:
        U, W = c.symmat('U'), c.symmat('W')
        c.nonzero(c.det(U)), c.nonzero(c.det(W))
        c.opaque()
        c.stub(UT + ':sort_eig', lambda A: (c.vec('e', 3), c.mat('V', 3)))
        c.stub(TW + ':TwinPair.istwinnable', lambda self: True)
    else:
        U, W = pair(c)
    a, b = U.copy(), W.copy()
    p = C(a, b, True) if c.sym else C(a, b)
    c.eq('first unchanged', a, U, tol=0)
    c.eq('second unchanged', b, W, tol=0)
    if not c.sym:
        w = snap(c, p.twinparam())
    a[0, 0] = 7
    b[1, 1] = 7
    c.eq('Ui after changing the array passed in', p.Ui(), U, tol=0)
    c.eq('Uj after changing the array passed in', p.Uj(), W, tol=0)
    if not c.sym:
        alike(c, 'twinparam after changing the arrays passed in', snap(c, p.twinparam()), w)
        p2 = C(a2 := U.copy(), b2 := W.copy())
        a2[0, 0] = 7
        b2[1, 1] = 7
        alike(c, 'twinparam of a pair whose arrays were changed first', snap(c, p2.twinparam()), w)


SQ = {n: (lambda n: lambda o: getattr(o, n)())(n) for n in
      ('Ulist', 'Laue', 'TwinTable', 'getTwinpairs', 'getConventional', 'getCompound', 'getTypeI', 'getTypeII')}


@contract('C22', [TW + '.TwinSystem.' + n for n in ('__init__', 'Ulist', 'Laue', 'TwinTable', 'getTwinpairs', 'getConventional', 'getCompound',
                                                    'getTypeI')], n=60)
def twin_system(c):
    """symbolically: any list of stretches; the pairs replaced by a frame that decides each question by the pair of indices"""
    T = c.mod(TW).TwinSystem
    q = dict(SQ)
    if c.sym:
        Us = [c.symmat('U%d' % i) for i in range(3)]
        g = c.mod(MG).CUBIC_LAUE_GROUP
        tab = c.choice('twinnable', ['all', 'none', 'some'])

        def idx(p):
            return [k for k in range(3) if c.close(p.ghost[0], Us[k])][0]

        def init(self, Ui, Uj, skipcheck=False):
            self.ghost = c.np.array(Ui), c.np.array(Uj)
        c.stub(TW + ':TwinPair.__init__', init)
        c.stub(TW + ':TwinPair.Ui', lambda self: self.ghost[0].copy())
        c.stub(TW + ':TwinPair.Uj', lambda self: self.ghost[1].copy())
        c.stub(TW + ':TwinPair.istwinnable', lambda self: tab == 'all' or (tab == 'some' and idx(self) == 0))
        c.stub(TW + ':TwinPair.iscompound', lambda self: idx(self) == 0)
        c.stub(TW + ':TwinPair.isconventional', lambda self, *g: idx(self) == 0)
        c.stub(TW + ':TwinPair.istypeI', lambda self: idx(self) != 0)
        make = lambda: T([u.copy() for u in Us], g)
    else:
        U, G = martensite_obj(c)
        m = c.mod(MT).Martensite(U, G)
        if not m.isreversible() or len(m.getvariants()) > 8:
            return
        vs = m.getvariants()
        how = c.choice('built from', ['transformation', 'array', 'list'])

        def make():
            if how == 'transformation':
                return T(c.mod(MT).Martensite(U, G))
            return T(vs.copy() if how == 'array' else [v.copy() for v in vs], G)
    protocol(c, make, q)


@contract('C22', [TW + '.TwinSystem.__init__', TW + '.TwinSystem.Ulist'], n=40)
def twin_system_arguments(c):
    T = c.mod(TW).TwinSystem
    Us = [c.symmat('U%d' % i) for i in range(3)]
    form = c.choice('form', ['array', 'list'])
    arg = c.np.array(Us) if form == 'array' else [u.copy() for u in Us]
    two = c.choice('arguments', [1, 2])
    t = T(arg) if two == 1 else T(arg, c.mod(MG).CUBIC_LAUE_GROUP)
    c.eq('argument unchanged', c.np.array(arg), c.np.array(Us), tol=0)
    arg[0][0][0] = 7
    arg[1] = arg[2]
    c.eq('Ulist after changing the list passed in', t.Ulist(), c.np.array(Us), tol=0)
    r = t.Ulist()
    r[0] = r[1]
    c.eq('Ulist after changing its result', t.Ulist(), c.np.array(Us), tol=0)


@contract('C22', [TW + '.TwinSystem.__init__'], n=25, sym=False)
def shared_variants(c):
    """a twin system and the transformation it was made from do not influence each other"""
    U, G = martensite_obj(c)
    m = c.mod(MT).Martensite(U, G)
    if not m.isreversible():
        return
    want = snap(c, m.getvariants())
    t = c.mod(TW).TwinSystem(m)
    tab = snap(c, t.Ulist())
    scramble(c, m.getvariants())
    scramble(c, t.Ulist())
    scramble(c, m.getLaueidx())
    equal(c, 'variants', snap(c, m.getvariants()), want)
    equal(c, 'twin system', snap(c, t.Ulist()), tab)


# ---------------------------------------------------------------- arguments of functions
def spd(c, n='C'):
    V = c.rot(n)
    C = V.dot(c.np.diag([0.7, 1.0, 1.4])).dot(V.T)
    return (C + C.T) / 2


def table(c):
    """name -> (function, arguments)"""
    np = c.np
    m = c.mod
    d = c.choice('dim', [2, 3])
    I3 = lambda n: c.mat(n, 3, kind='i')
    F = lambda n, k=d: c.mat(n, k)
    v3 = lambda n: c.vec(n, 3)
    H = X + 'hnf'
    SL = X + 'sublattice'
    MM = 'structrans.mat_math'
    V = X + 'visualization'
    ST = X + 'stereogram'
    OR = M + 'orientation_relationship'
    DI = LC + 'dist'
    row = lambda n, k=3: c.mat(n, k, d * d)
    t = {
        'Gram_Schmidt': (m(X + 'lattice_reduction').Gram_Schmidt, lambda: [F('E') * 1.0]),
        'rotation': (m(UT).rotation, lambda: [30, v3('v')]),
        'skew': (m(X + 'spacegroup').skew, lambda: [4, 1, v3('v')]),
        'Eric_dist': (m(DI).Eric_dist, lambda: [F('x'), F('E'), F('G')]),
        'Cauchy_dist': (m(DI).Cauchy_dist, lambda: [F('x'), F('E'), F('G')]),
        'Cauchy_dist_vec': (m(DI).Cauchy_dist_vec, lambda: [row('xs'), F('E'), F('G')]),
        'mat_dot': (m(MM).mat_dot, lambda: [row('a'), row('b')]),
        'mat_trace': (m(MM).mat_trace, lambda: [row('a')]),
        'mat_det': (m(MM).mat_det, lambda: [row('a')]),
        'mat_T': (m(MM).mat_T, lambda: [row('a')]),
        'cofactor': (m(MM).cofactor, lambda: [F('A')]),
        'direc_trans': (m(OR).direc_trans, lambda: [F('L', 3), [[c.int('i%d' % k) for k in range(3)], [1, 0, 2]]]),
        'plane_trans': (m(OR).plane_trans, lambda: [F('L', 3), c.mat('ns', 2, 3, kind='i')]),
        'vertex': (m(V).vertex, lambda: [c.vec('o', d), F('E'), d]),
        'bonds': (m(V).bonds, lambda: [c.mat('vs', 8 if d == 3 else 4, d)]),
        'pole_figure': (m(ST).pole_figure, lambda: [c.mat('ps', 2, 3), v3('z')]),
    }
    # pole_figure is checked against the contract of stereo_proj (any projection)
    c.stub(ST + ':stereo_proj', lambda p, z: c.vec('proj', 2))
    if not c.sym:
        t.update({
            'stereo_proj': (m(ST).stereo_proj, lambda: [v3('p'), v3('z')]),
            'hnfd': (m(H).hnfd, lambda: [I3('M')]),
            'hnfd H only': (m(H).hnfd, lambda: [I3('M'), True]),
            'hnfd list': (m(H).hnfd, lambda: [I3('M').tolist()]),
            'sublattice hnfd': (m(SL).hnfd, lambda: [I3('M')]),
            'hnf_from_diag': (m(H).hnf_from_diag, lambda: [[1, 2, 3]]),
            'hnf_from_diag array': (m(H).hnf_from_diag, lambda: [np.array([2, 1, 2])]),
            'sublattice hnf_from_diag': (m(SL).hnf_from_diag, lambda: [np.array([2, 1, 2])]),
            'LLL': (m(X + 'lattice_reduction').LLL, lambda: [F('E')]),
            'LLL int': (m(X + 'lattice_reduction').LLL, lambda: [I3('M')]),
            'Gauss_reduction': (m(X + 'lattice_reduction').Gauss_reduction, lambda: [F('E')]),
            'swapping': (m(X + 'lattice_reduction').swapping, lambda: [F('E')]),
            'projection': (m(X + 'lattice_reduction').projection, lambda: [1, c.vec('v', d), F('E')]),
            'strain_dist': (m(DI).strain_dist, lambda: [F('x'), F('E'), F('G')]),
            'Cauchy_dist_vec large': (m(DI).Cauchy_dist_vec, lambda: [np.round(row('xs', 120)), F('E'), F('G')]),
            'mat_eig': (m(MM).mat_eig, lambda: [row('a')]),
            'unique_rows': (m(MM).unique_rows, lambda: [np.array([[1., 2.], [1., 2.], [0., c.real('r')]])]),
            'eigSort': (m(MM).eigSort, lambda: [spd(c)]),
            'sort_eig': (m(UT).sort_eig, lambda: [spd(c)]),
            'pos_def_sym': (m(UT).pos_def_sym, lambda: [spd(c)]),
            'solve_rank1': (m(UT).solve_rank1, lambda: [spd(c)]),
            'AM_Solver': (m(CO).AM_Solver, lambda: [spd(c)]),
            'isCompatible': (m(CO).isCompatible, lambda: [F('A', 3) + 4 * np.eye(3), spd(c)]),
            'Euler': (m(UT).Euler, lambda: [[10, 20, 30], ['x', 'Z', 'y']]),
            'Euler array': (m(UT).Euler, lambda: [np.array([10., 20., 30.]), 'XYZ', 'rad']),
            'vertex lists': (m(V).vertex, lambda: [c.vec('o', d).tolist(), F('E').tolist(), d]),
            'box': (m(V).box, lambda: [c.mat('vs', 8, d), F('E'), d]),
            'pole_figure list': (m(ST).pole_figure, lambda: [c.mat('ps', 2, 3).tolist(), v3('z')]),
            'direc_trans array': (m(OR).direc_trans, lambda: [F('L', 3), c.mat('ns', 2, 3, kind='i')]),
            'direc_trans single': (m(OR).direc_trans, lambda: [F('L', 3).tolist(), v3('n')]),
            'plane_trans list': (m(OR).plane_trans, lambda: [F('L', 3).tolist(), [[1, 2, 3], [1, 0, 1]]]),
            'vec_generator': (lambda r, k, x: list(m(LC + 'main_direct').vec_generator(r, k, x)), lambda: [3, d, [1] * d if d == 2 else [0, -1, 1]]),
            'vec_generator array': (lambda r, k, x: list(m(LC + 'main_direct').vec_generator(r, k, x)), lambda: [3, d, np.array([1] * d)]),
            'vec_generator resumed': (lambda r, k, x: list(m(LC + 'main_direct').vec_generator(r, k, x)),
                                      lambda: [4, d, np.array([c.int('k%d' % q, -2, 2) for q in range(d)])]),
            'vec_generator resumed list': (lambda r, k, x: list(m(LC + 'main_direct').vec_generator(r, k, x)),
                                           lambda: [4, d, [c.int('k%d' % q, -2, 2) for q in range(d)]]),
            'vec_generator line': (lambda r, k, x: list(m(LC + 'main_direct').vec_generator(r, k, x)),
                                   lambda: [4, 1, np.array([c.int('k', -3, 3)])]),
            'direct search': (m(LC + 'main_direct').lat_cor, lambda: [2, [2.0], 6, [1.5, 2.1], {'nsol': 1, 'disp': 0}]),
            'HNF search': (m(LC + 'main_hnf').lat_cor, lambda: [2, np.array([2.0]), 6, [1.5, 2.1], {'nsol': 1, 'disp': 0, 'ihnf': 0}]),
            'node': (lambda e, k: node(c, e, k), lambda: [np.array([[1, 1, 0], [0, 1, 0], [0, 0, 1]]), F('E', 3)]),
            'twin solver': (m(TW)._solvetwin, lambda: list(pair(c)) + [None]),
            'fraction': (m(TW)._solve_f, lambda: [spd(c), v3('a'), v3('n')]),
            'am': (m(TW)._solve_am, lambda: [spd(c)]),
            'cofactor of twins': (m(TW)._brute_cof, lambda: [spd(c)]),
            'unit cell': (lambda o, p: m(V).UnitCell(o, 6, p).getConventional(), lambda: [v3('o'), [1.0, 2.0]]),
        })
    return t


def node(c, elem, E):
    n = c.mod(LC + 'slnode').SLNode(elem, {'dist': lambda x: float(((x.dot(E)) ** 2).sum())})
    list(n.children)
    n.steepest_des()
    n.is_min()
    return c.mod(LC + 'dfs').dfs(n, {'counter': 0}).elem


SYMBOLIC = [X + 'lattice_reduction.Gram_Schmidt', UT + '.rotation', X + 'spacegroup.skew', LC + 'dist.Eric_dist', LC + 'dist.Cauchy_dist',
            LC + 'dist.Cauchy_dist_vec', 'structrans.mat_math.mat_dot', 'structrans.mat_math.mat_trace', 'structrans.mat_math.mat_det',
            'structrans.mat_math.mat_T', 'structrans.mat_math.cofactor', M + 'orientation_relationship.direc_trans',
            M + 'orientation_relationship.plane_trans', X + 'visualization.vertex', X + 'visualization.bonds', X + 'stereogram.pole_figure']


@contract('C22', SYMBOLIC, n=440, timeout=300, evaltime=200)
def function_arguments(c):
    """no function of the table changes its arguments, nor does changing its result change them; asked again it answers the same"""
    t = table(c)
    names = sorted(t)
    f, mk = t[names[(c.case if not c.sym else c.choice('function', list(range(len(names))))) % len(names)]]
    if not c.sym:
        c._get('function', lambda: names[c.case % len(names)])
    args = mk()
    keep = snap(c, args)
    kw = {}
    pos = args
    if isinstance(args[-1], dict):
        kw, pos = args[-1], args[:-1]
    if c.sym:
        c.opaque()
        for a in args:
            if isinstance(a, c.np.ndarray) and a.ndim == 2 and a.shape[0] == a.shape[1]:
                c.nonzero(c.det(a))
                c.positive(sum(sum(x * x for x in r) for r in a.T.dot(a)))
            elif isinstance(a, c.np.ndarray) and a.ndim == 1:
                c.positive(a.dot(a))

    def call():
        try:
            return f(*pos, **kw)
        except Exception as ex:
            if type(ex).__name__ in ('Unsupported', 'PathEnd', 'Discard'):
                raise
            return 'raised ' + type(ex).__name__
    r = call()
    equal(c, 'arguments unchanged', snap(c, args), keep)
    if not c.sym:
        w = snap(c, r)
        scramble(c, r)
        equal(c, 'arguments after changing the result', snap(c, args), keep)
        alike(c, 'asked again', snap(c, call()), w)
    elif isinstance(r, (c.np.ndarray, list)):
        scramble(c, r)
        equal(c, 'arguments after changing the result', snap(c, args), keep)


@contract('C22', [X + 'visualization.UnitCell.__init__', X + 'visualization.UnitCell.setOrigin'], n=30)
def unit_cell(c):
    V = c.mod(X + 'visualization')
    d = c.choice('dim', [2, 3])
    lid = c.choice('id', [1, 2])
    ps, _ = params(c, d, lid)
    o, o2 = c.vec('o', d), c.vec('w', d)
    a, b = o.copy(), o2.copy()
    u = V.UnitCell(a, lid, ps, d)
    want = snap(c, u.getPrimitive())
    a[0] = 7
    scramble(c, u.getPrimitive())
    alike(c, 'after changing the origin passed in', snap(c, u.getPrimitive()), want)
    u.setOrigin(b)
    want = snap(c, u.getPrimitive())
    b[0] = 7
    alike(c, 'after changing the new origin passed in', snap(c, u.getPrimitive()), want)
    c.eq('origin', u.getPrimitive()[0], o2)
