"""C16: the direct correspondence search."""
from vc.api import contract
from contracts.lc import distance, orbit
from contracts.common import BRA
from contracts.c14 import check_solutions

MD = 'structrans.marttrans.lat_cor.main_direct'

PLANAR = [(1, [1.0], 1, [1.02], 3), (2, [1.0, 1.3], 5, [1.1, 1.2, 80.0], 5), (5, [1.0, 1.2, 75.0], 5, [1.1, 1.2, 80.0], 6),
          (1, [1.0], 2, [1.05, 0.97], 3), (2, [1.0, 1.15], 2, [1.1, 1.0], 4), (1, [1.0], 5, [1.02, 1.05, 84.0], 4)]
SPATIAL = [(1, [1.0], 1, [1.02], 2), (2, [2.0], 6, [1.414, 2.0], 1)]


def _run(c, dim, pair):
    np = c.np
    la, pa, lm, pm, top = pair
    if dim == 2 and c.choice('vary', [False, True]):
        pm = [x * (1 + 0.01 * c.real('f', -1, 1)) for x in pm]
    nsol = c.choice('nsol', list(range(1, top + 1)))
    kw = {'dim': dim, 'nsol': nsol, 'disp': 0}
    if dim == 2:
        s = c.choice('slice', [None, 7, 100, 250])
        if s:
            kw['slice_sz'] = s
    A, M = c.mod(BRA).BravaisLattice(la, pa, dim), c.mod(BRA).BravaisLattice(lm, pm, dim)
    m = c.mod(MD)
    seen = []
    old = m.Cauchy_dist_vec

    def rec(xs, *a):
        seen.extend(tuple(int(v) for v in np.array(x).reshape(-1)) for x in xs)
        return old(xs, *a)
    m.Cauchy_dist_vec = rec
    gen = m.vec_generator

    def enum(r, n, x0=None):
        for v in gen(r, n, x0):
            if n == dim * dim:
                seen.append(tuple(int(x) for x in v))
            yield v
    m.vec_generator = enum
    keep = (list(pa), list(pm), dict(kw))
    np.random.seed(c.int('init', 0, 10 ** 6))
    try:
        sols = m.lat_cor(la, pa, lm, pm, **kw)
    finally:
        m.Cauchy_dist_vec = old
        m.vec_generator = gen
    c.same('arguments unchanged', (list(pa), list(pm), dict(kw)), keep)
    check_solutions(c, sols, A, M, 'Cauchy', nsol, dim, hnf=False)
    c.true('the search enumerates candidates', len(seen) > 0)
    # candidates better than the worst reported solution
    worst = sols[-1]['d']
    E1, E2 = A.base(), M.base()
    f1 = [np.array(np.rint(g), dtype=int) for g in A.lattice_group().matrices()]
    f2 = [np.array(np.rint(g), dtype=int) for g in M.lattice_group().matrices()]
    rep = set()
    for s in sols:
        rep |= orbit(np, s['l'], f1, f2)
    X = np.array(sorted(set(seen)))
    X = X[abs(np.linalg.det(X.reshape(-1, dim, dim) * 1.0)) > 0.5]
    Y = np.einsum('ij,kjl,lm->kim', E1, X.reshape(-1, dim, dim) * 1.0, np.linalg.inv(E2))
    ds = ((np.einsum('kij,klj->kil', Y, Y) - np.eye(dim)) ** 2).sum(axis=(1, 2))
    for x in X[ds < worst - 1e-7 * (1 + worst)]:
        c.true('a better candidate is reported up to symmetry: %s' % x.tolist(), tuple(int(v) for v in x) in rep)


@contract('C16', [MD + '.lat_cor'], n=90, sym=False, evaltime=200)
def planar(c):
    _run(c, 2, c.choice('pair', PLANAR))


@contract('C16', [MD + '.lat_cor'], n=8, sym=False, evaltime=300)
def spatial(c):
    _run(c, 3, c.choice('pair', SPATIAL))


# ------------------------------------------------------------------ deductive part
from contracts.c13 import GROUPS, Pool                                      # noqa: E402
from contracts.c14 import stub_lattices, report, spectrum, any_spectrum     # noqa: E402
from contracts.common import LAT                                            # noqa: E402

DI = 'structrans.marttrans.lat_cor.dist'
QU = 'structrans.marttrans.lat_cor.quartic_opt'
FL = 'lat_cor@0'


def _numerics(c):
    """what only steers the search: the quartic form and its minimum, the random start"""
    np = c.np
    c.e.ghost['tensordot'] = lambda shape: np.zeros(shape)
    alpha = c.pos('alpha', 0.5, 2)
    c.stub(QU + ':quart_min', lambda T: alpha)


@contract('C16', [MD + '.lat_cor'], run=False, timeout=200, z3_ms=3000, forloops=[FL])
def reported(c):
    """for any bases, conventional cells and nonsingular l left by the search: stretch, eigen-strains, correspondence; the matrix
    reported is one of the orbit of l"""
    np = c.np
    c.nosample()
    c.opaque()
    _numerics(c)
    dim = c.choice('dim', [2, 3])
    EA, F, CA, CM = c.mat('EA', dim), c.mat('F', dim), c.mat('CA', dim), c.mat('CM', dim)
    l = c.mat('l', dim, kind='i')
    for X in (EA, F, CA, CM, l):
        c.nonzero(c.det(X))
    EM = np.dot(F, np.dot(EA, l))               # every E_M is of this form
    one = np.eye(dim, dtype=int)
    mirror = -one if dim == 3 else np.array([[1, 0], [0, -1]])
    both = c.choice('mirrors', [False, True])
    if both:
        c.require(c.det(l) > 0)
    C = np.dot(F.T, F)
    V, mu = spectrum(c, dim, C)
    args = stub_lattices(c, dim, {'base': EA, 'trans': CA, 'group': [one], 'full': [one, mirror] if both else [one]},
                         {'base': EM, 'trans': CM, 'group': [one], 'full': [one]})
    d0 = c.real('d', 0, 3)
    c.nonneg(d0)
    left = np.dot(mirror, l) if both and c.choice('mirrored', [False, True]) else l.copy()
    c.e.ghost['random_integers'] = lambda *a: c.stop()

    def havoc(k, loc, items):
        if k < len(items):
            c.stop()
        hv = {'SOLS': [{'l': left.reshape(dim * dim), 'd': d0}], 'EXT_SOLS': set(), 'DMAX': d0}
        return hv
    c.forloop(FL, lambda k, loc, items: [], havoc)
    c.loop('lat_cor#2', lambda loc: [], lambda loc: {'updated': False, 'SOLS': loc['SOLS'], 'EXT_SOLS': loc['EXT_SOLS'], 'DMAX': d0,
                                                    'maxRadius': 1.0, 'checkpoint': np.zeros(dim * dim)})
    kw = {'disp': 0, 'nsol': 1}
    if dim == 2:
        kw['dim'] = 2
    sols = c.mod(MD).lat_cor(*args, **kw)
    c.soft('the solution found', len(sols) == 1)
    s = sols[0]
    L = s['l']
    c.soft('a matrix', hasattr(L, 'shape') and L.shape == (dim, dim))
    c.eq('its distance', s['d'], d0)
    c.soft('the matrix of the orbit with positive determinant', c.close(L, l))
    report(c, s, EA, EM, CA, CM, l, F, V, mu)


SING = [((0, 0), (0, 0)), ((1, 0), (0, 0)), ((1, 1), (1, 1))]


def formulas(c, P, sols, ext, dmax, nsol):
    """ranked, ties only, pairwise inequivalent, truthful; what was met and is not listed is worse than the last one requested;
    the store holds exactly the orbits of what is listed; the bound is the distance of the last one"""
    c.soft('a list of solutions', isinstance(sols, list) and all(isinstance(s, dict) and 'd' in s and 'l' in s for s in sols))
    ks, out = [], []
    for s in sols:
        L = P.flat(s['l'])
        out.append(('nonsingular', L in P.where))
        if L not in P.where:
            return out
        ks.append(P.where[L])
        out.append(('the distance of the candidate', s['d'] == P.dist(ks[-1])))
    out.append(('no two related by symmetry', len(set(ks)) == len(ks)))
    for a, b in zip(sols, sols[1:]):
        out.append(('ranked by non-decreasing distance', a['d'] <= b['d']))
    for s in sols[nsol:]:
        out.append(('more than requested only as ties', s['d'] == sols[nsol - 1]['d']))
    for k in P.met:
        if k not in ks:
            out.append(('what is left out is worse', len(sols) >= nsol and P.dist(k) > sols[nsol - 1]['d']))
    if ext is not None:
        for L, k in P.where.items():
            out.append(('the store holds the orbits of what is listed', (P.tup(L) in ext) == (k in ks)))
    if dmax is not None and sols:
        out.append(('the bound is the last distance', dmax == sols[-1]['d']))
    return out


class Candidates(Pool):
    def __init__(self, *a):
        Pool.__init__(self, *a)
        self.met, self.sing = [], {}

    def tup(self, L):
        return tuple(self.c.np.array([x for r in L for x in r]))

    def flat(self, A):
        c = self.c
        v = [c.value(x) for x in c.np.array(A).flatten()]
        c.soft('four integers', len(v) == 4)
        L = (tuple(v[:2]), tuple(v[2:]))
        c.soft('a known candidate', L in self.where or L in SING)
        return L

    def far(self, L):
        """distance of a candidate, examined"""
        if L in self.where:
            self.met.append(self.where[L])
            return self.dist(self.where[L])
        if L not in self.sing:
            self.sing[L] = self.c.real('sing%d' % SING.index(L), 0, 3)
            self.c.nonneg(self.sing[L])
        return self.sing[L]

    def vec(self, L):
        return [x for r in L for x in r]


@contract('C16', [MD + '.lat_cor'], run=False, timeout=500, maxpaths=60000, forloops=[FL],
          bounded='lists of at most two solutions plus one tie, slices of at most two candidates, symmetry groups of the plane')
def search(c):
    """the random start and the two loops of the search (rule of invariants): from any list that satisfies the invariant and any
    candidates, the list satisfies it again; the enumeration resumes at the first candidate that was not examined"""
    np = c.np
    c.nosample()
    _numerics(c)
    part = c.choice('part', ['init', 'outer', 'inner'])
    nsol, (g1, g2) = c.choice('configuration', [(1, ('trivial', 'two-fold')), (2, ('two-fold', 'trivial')), (2, ('trivial', 'three-fold')),
                                                (1, ('four-fold', 'trivial'))])
    G1, G2 = GROUPS[g1], GROUPS[g2]
    P = Candidates(c, G1, G2, 11)
    E = np.array([[1.0, 0], [0, 1]])
    arr = lambda G: [[list(r) for r in m] for m in G]
    args = stub_lattices(c, 2, {'base': E, 'trans': E, 'group': arr(G1)}, {'base': E, 'trans': E, 'group': arr(G2)})
    c.e.ghost['eig'] = lambda A, how: any_spectrum(c, A)
    st = {'m': 0, 'left': None, 'new': 4, 'todo': [SING[0]], 'asked': 0}

    # orbits 0..2: listed; 3: met before and left out; 4..: not met yet
    def new():
        st['new'] += 1
        c.soft('enough candidates', st['new'] <= len(P.orbs))
        return P.orbs[st['new'] - 1]

    def candidate(name):
        how = c.choice(name, ['new', 'listed', 'singular', 'left out', 'again'])
        if how == 'listed' and st['m']:
            return P.orbs[c.choice(name + ' which', list(range(st['m'])))][-1]
        if how == 'singular':
            return SING[1]
        if how == 'left out' and st['left'] is not None:
            return P.orbs[st['left']][0]
        if how == 'again' and st['new'] > 4:
            return P.orbs[st['new'] - 1][-1]
        if how != 'new':
            c.stop()
        return new()[0]

    def state(least=nsol):
        """any list that satisfies the invariant"""
        k = c.choice('length', [q for q in (1, 2, 3) if least <= q <= nsol + 1])
        st['m'] = k
        P.met = list(range(k))
        if k >= nsol and c.choice('left out', [False, True]):
            st['left'] = 3
            P.met.append(3)
        sols = [{'l': np.array(P.vec(P.orbs[q][0])), 'd': P.dist(q)} for q in range(k)]
        ext = set(P.tup(L) for q in range(k) for L in P.orbs[q])
        for nm, b in formulas(c, P, sols, None, None, nsol):
            c.require(b)
        c.prune()
        return {'SOLS': sols, 'EXT_SOLS': ext, 'DMAX': sols[-1]['d']}

    def inv(loc):
        return [('as many as requested', len(loc['SOLS']) >= nsol)] + formulas(c, P, loc['SOLS'], loc['EXT_SOLS'], loc['DMAX'], nsol)

    def inv_init(k, loc, items):
        if part != 'init':
            return []
        return [('one more in every round', len(loc['SOLS']) >= min(k, nsol))] + \
            formulas(c, P, loc['SOLS'], loc['EXT_SOLS'], loc['DMAX'], nsol)

    # ---- the random start
    def havoc_init(k, loc, items):
        if part != 'init':
            if k < len(items):
                c.stop()
        elif k not in (0, 1, 2, len(items)):
            c.stop()
        if k == 0:
            return {'SOLS': [], 'EXT_SOLS': set(), 'DMAX': loc['DMAX']}
        return state(min(k, nsol)) if part == 'init' else {'SOLS': [], 'EXT_SOLS': set(), 'DMAX': 0.0}

    def random_integers(*a):
        st['asked'] += 1
        L = new()[-1]
        if st['asked'] == 1 and st['m'] and c.choice('listed first', [False, True]):
            L = P.orbs[0][-1]
        return np.array([list(r) for r in L]) - np.array([[1, 0], [0, 1]])
    c.e.ghost['random_integers'] = random_integers
    c.forloop(FL, inv_init, havoc_init)

    # ---- the loop over radii
    def inv_out(loc):
        if part == 'init':
            st['todo'] = [SING[0]]
        elif 'examined' not in st:
            return []
        out = inv(loc)
        todo = [L for L in st['todo'] if L not in st.get('examined', ())]
        if loc['updated']:
            at = P.flat(loc['checkpoint'])
            out.append(('resumes at the first candidate not examined', bool(todo) and at == todo[0]))
        else:
            out.append(('everything was examined', not todo))
        return out

    def havoc_out(loc):
        if part == 'init':
            c.stop()
        hv = state() if part == 'outer' else {'SOLS': [], 'EXT_SOLS': set(), 'DMAX': 0.0}
        hv['updated'] = part == 'inner' or c.choice('go on', [True, False])
        st['examined'] = []
        st['todo'] = [new()[0], new()[0]] if hv['updated'] else []
        hv['checkpoint'] = np.array(P.vec(st['todo'][0])) if hv['updated'] else None
        hv['maxRadius'] = 1.0
        return hv

    # ---- the loop over slices of the enumeration
    class Enum(object):
        def __init__(self):
            self.rest = []

        def __iter__(self):
            return self

        def __next__(self):
            if not self.rest:
                raise StopIteration
            return P.vec(self.rest.pop(0))
        next = __next__

    def generate(r, dim, x0=None):
        c.true('the dimension of the enumeration', dim == 4)
        if part == 'outer':
            c.true('resumes at the first candidate not examined', x0 is not None and P.flat(x0) == st['todo'][0])
        g = st['g'] = Enum()
        g.rest = list(st['todo'])
        return g

    def inv_in(loc):
        if part == 'inner' and 'examined' not in st:
            return []
        out = inv(loc) if part == 'inner' and st.get('inner') or part == 'outer' else []
        rows = [P.flat(r) for r in loc['ary']]
        todo = [L for L in st['todo'] if L not in st['examined']]
        if part == 'outer' or st.get('inner'):
            out.append(('the slice starts at the first candidate not examined', rows == todo[:len(rows)] and bool(rows or not todo)))
        return out

    def havoc_in(loc):
        if part == 'outer':
            c.stop()
        st['inner'] = True
        hv = state()
        rows = [candidate('candidate %d' % i) for i in range(c.choice('slice', [0, 1, 2]))]
        rest = [new()[0] for _ in range(c.choice('more', [0, 1, 2][:4 - len(rows)]) if rows else 0)]
        st['todo'], st['examined'] = rows + rest, []
        st['g'].rest = list(rest)
        hv.update({'ary': np.array([P.vec(L) for L in rows]), 'updated': False, 'maxRadius': 1.0})
        return hv
    c.loop('lat_cor#2', inv_out, havoc_out)
    c.loop('lat_cor#1', inv_in, havoc_in)

    def dist_vec(xs, A, B):
        rows = [P.flat(x) for x in xs]
        st['examined'] += rows
        return np.array([P.far(L) for L in rows])
    c.stub(DI + ':Cauchy_dist', lambda x, A, B: P.far(P.flat(x)))
    c.stub(DI + ':Cauchy_dist_vec', dist_vec)
    m = c.mod(MD)
    c.stub(MD + ':vec_generator', generate)
    sols = m.lat_cor(*args, dim=2, nsol=nsol, disp=0, slice_sz=2)
    for s in sols:
        L = P.flat(s['l'])
        c.true('nonsingular', L in P.where)
        s['l'] = np.array(P.vec(L))
    for nm, b in formulas(c, P, sols, None, None, nsol):
        c.true(nm, b)


@contract('C16', [MD + '.lat_cor'], run=False, timeout=250, maxpaths=60000,
          bounded='enumerations of three or four candidates, at most two solutions, slices of one or two candidates')
def whole(c):
    """the search from end to end over an enumeration that resumes where it is told to (C15): candidates that are better than the
    worst reported solution are equivalent to a reported one; ranked, inequivalent, ties only"""
    np = c.np
    c.nosample()
    _numerics(c)
    nsol = c.choice('nsol', [1, 2])
    G1, G2 = GROUPS['trivial'], GROUPS['two-fold']
    P = Candidates(c, G1, G2, 8)
    E = np.array([[1.0, 0], [0, 1]])
    arr = lambda G: [[list(r) for r in m] for m in G]
    args = stub_lattices(c, 2, {'base': E, 'trans': E, 'group': arr(G1)}, {'base': E, 'trans': E, 'group': arr(G2)})
    c.e.ghost['eig'] = lambda A, how: any_spectrum(c, A)
    o = P.orbs
    universe = c.choice('enumeration', [[o[3][0], o[4][0], o[3][1], o[5][0]], [SING[0], o[3][0], o[0][1], o[4][0]]] if nsol == 1 else
                        [[SING[0], o[3][0], o[4][0]], [o[3][0], o[1][1], o[3][1], o[4][0]]])
    for k in range(nsol):
        c.require(P.dist(k) < P.dist(nsol))
    st = {'drawn': 0}

    def random_integers(*a):
        L = o[min(st['drawn'], nsol)][0]
        st['drawn'] += 1
        c.soft('rounds of the random start', st['drawn'] < 200)
        return np.array([list(r) for r in L]) - np.array([[1, 0], [0, 1]])
    c.e.ghost['random_integers'] = random_integers

    def generate(r, dim, x0=None):
        v = [0] * 4 if x0 is None else [c.value(x) for x in x0]
        vs = [P.vec(L) for L in universe]
        k = vs.index(v) if v in vs else None
        if not any(v):
            k = 0
        c.soft('resumes at a candidate', k is not None)
        return iter(vs[k:])
    c.stub(DI + ':Cauchy_dist', lambda x, A, B: P.far(P.flat(x)))
    c.stub(DI + ':Cauchy_dist_vec', lambda xs, A, B: np.array([P.far(P.flat(x)) for x in xs]))
    m = c.mod(MD)
    c.stub(MD + ':vec_generator', generate)
    sols = m.lat_cor(*args, dim=2, nsol=nsol, disp=0, slice_sz=c.choice('slice', [1, 2]))
    c.true('at least one solution', len(sols) > 0)
    P.met = []
    for s in sols:
        s['l'] = np.array(P.vec(P.flat(s['l'])))
    for nm, b in formulas(c, P, sols, None, None, nsol):
        c.true(nm, b)
    listed = [P.where.get(P.flat(s['l'])) for s in sols]
    for L in universe:
        if L in P.where and P.where[L] not in listed:
            c.true('a better candidate is reported up to symmetry', P.dist(P.where[L]) >= sols[-1]['d'])
