"""C13: the per-sublattice optimiser."""
from vc.api import contract
from contracts.lc import LO, distance, orbit, ranked, group_of, moves
from contracts.common import BRA, NPAR, params
LAT_ = 'structrans.crystallography.lattice'


def _bases(c, dim):
    np = c.np
    rs = np.random.RandomState(int(c._get('seed', lambda: c.rng.randrange(10 ** 6))))
    kind = c.choice('bases', ['random', 'random', 'lattice', 'same', 'sub'])
    if kind == 'lattice':
        n = len(NPAR[dim])
        l1, l2 = c.choice('id1', list(range(1, n + 1))), c.choice('id2', list(range(1, n + 1)))
        ps1, _ = params(c, dim, l1)
        ps2, _ = params(type(c)(str(c.inputs)), dim, l2)
        B = c.mod(BRA).BravaisLattice
        E1, E2 = B(l1, ps1, dim).base(), B(l2, ps2, dim).base()
    elif kind == 'same':
        E1 = np.eye(dim) * 1.0
        E2 = np.eye(dim) * 1.0
        E2[0, 0] = c.choice('stretch', [1.0, 1.1, 1.414, 2.0])
    elif kind == 'sub':
        # a sublattice of the cubic lattice, as the HNF search passes it
        E1 = np.array([[1, 0, 0], [-1, 2, 0], [0, 0, 1]], dtype=float)[:dim, :dim]
        E2 = np.diag([1.2, 1.5, 1.1][:dim])
    else:
        E1, E2 = rs.uniform(-2, 2, size=(dim, dim)), rs.uniform(-2, 2, size=(dim, dim))
        c.nonzero(np.linalg.det(E1), 0.3)
        c.nonzero(np.linalg.det(E2), 0.3)
    if kind != 'same':
        E2 = E2 * abs(np.linalg.det(E1) / np.linalg.det(E2)) ** (1.0 / dim)
    if c.choice('skew start', [False, True]):
        T = np.eye(dim)
        T[0, dim - 1] = 3
        T[dim - 1, 0] = 0
        E1 = E1.dot(T)
    return E1, E2


def _check(c, dim, kw):
    np = c.np
    E1, E2 = _bases(c, dim)
    nsol, dist = kw['nsol'], c.choice('dist', ['Cauchy', 'Ericksen', 'strain'])
    G1, G2 = group_of(c, E1), group_of(c, E2)
    kw = dict(kw, dist=dist, disp=0)
    if c.choice('group given', [False, True]):
        kw['SOLG2'] = np.array(G2)
    if dist == 'Cauchy' and c.choice('default distance', [False, True]):
        del kw['dist']
    a1, a2 = E1.copy(), E2.copy()
    keep = dict(kw)
    r = c.mod(LO).lat_opt(a1, a2, **kw)
    c.same('bases unchanged', (a1 == E1).all() and (a2 == E2).all(), True)
    c.same('options unchanged', sorted(kw), sorted(keep))
    d, ls = list(r['dopt']), list(r['lopt'])
    c.same('equally long lists', len(d), len(ls))
    ranked(c, d, nsol)
    for x, l in zip(d, ls):
        c.same('size', np.array(l).shape, (dim, dim))
        c.integral('integer matrix', l)
        c.eq('unimodular', abs(np.linalg.det(np.array(l, dtype=float))), 1.0)
        c.eq('distance of its matrix', x, distance(np, dist, l, E1, E2), tol=1e-6)
    seen = set()
    for l in ls:
        k = tuple(int(x) for x in np.array(l).flatten())
        c.true('no two related by symmetry', k not in seen)
        # the whole orbit of each reported matrix
        seen |= orbit(np, l, G1, G2)
    if nsol <= 2:
        best = d[0]
        for T in moves(np, dim):
            c.true('no single move improves the best', distance(np, dist, np.array(ls[0]).dot(T), E1, E2) >= best - 1e-9 * (1 + best))
    return r, E1, E2, dist


@contract('C13', [LO + '.lat_opt'], n=150, sym=False, evaltime=200)
def planar(c):
    """two dimensions, default depths"""
    kw = {'nsol': c.choice('nsol', [1, 2, 3, 5, 12])}
    d = c.choice('depth', [None, (1, 1), (2, 2), (2, 4), (1, 3)])
    if d is not None and (kw['nsol'] > 2 or d[0] == d[1]):
        kw['miniter'], kw['maxiter'] = d
    _check(c, 2, kw)


@contract('C13', [LO + '.lat_opt'], n=110, sym=False, evaltime=200)
def spatial(c):
    """three dimensions, search depth 1 or 2"""
    kw = {'nsol': c.choice('nsol', [1, 2, 3, 5, 12])}
    k = c.choice('depth', [1, 2, 2])
    kw['miniter'] = kw['maxiter'] = k
    _check(c, 3, kw)


@contract('C13', [LO + '.lat_opt'], n=9, sym=False, evaltime=300)
def spatial_default(c):
    """three dimensions, default search depth"""
    _check(c, 3, {'nsol': c.choice('nsol', [1, 2, 3])})


@contract('C13', [LO + '.lat_opt'], n=20, sym=False, evaltime=200)
def repeated(c):
    """the answer does not depend on what was optimised before (module state), nor on the dimension used before"""
    E1, E2 = _bases(c, 2)
    f = c.mod(LO).lat_opt
    a = f(E1, E2, nsol=3, disp=0)
    f(c.np.eye(3), c.np.eye(3) * 1.0, nsol=2, disp=0, miniter=1, maxiter=1)
    f(E2, E1, nsol=2, disp=0)
    b = f(E1, E2, nsol=3, disp=0)
    c.eq('same distances', b['dopt'], a['dopt'], tol=0)
    c.same('same matrices', [x.tolist() for x in b['lopt']], [x.tolist() for x in a['lopt']])


# ------------------------------------------------------------------ deductive part
GROUPS = {'trivial': [((1, 0), (0, 1))],
          'two-fold': [((1, 0), (0, 1)), ((-1, 0), (0, -1))],
          'four-fold': [((1, 0), (0, 1)), ((0, -1), (1, 0)), ((-1, 0), (0, -1)), ((0, 1), (-1, 0))],
          'three-fold': [((1, 0), (0, 1)), ((0, -1), (1, -1)), ((-1, 1), (-1, 0))]}


def _mm(a, b):
    return tuple(tuple(sum(x * y for x, y in zip(r, k)) for k in zip(*b)) for r in a)


class Pool(object):
    """double cosets G1 L G2 of unimodular matrices with an arbitrary distance each (distances are invariant under the
    symmetries: C11), and for every matrix whether it is a local minimum"""

    def __init__(self, c, G1, G2, n):
        self.c, self.G1, self.G2 = c, G1, G2
        self.orbs, seen, todo = [], set(), [((1, 0), (0, 1))]
        T = [((1, 1), (0, 1)), ((1, 0), (1, 1)), ((1, -1), (0, 1)), ((1, 0), (-1, 1))]
        while todo and len(self.orbs) < n:
            L = todo.pop(0)
            if L not in seen:
                o = [_mm(_mm(a, L), b) for a in G1 for b in G2]
                seen |= set(o)
                self.orbs.append([L] + sorted(set(o) - {L}))
            todo += [_mm(L, t) for t in T]
        self.where = {L: k for k, o in enumerate(self.orbs) for L in o}
        self.d, self.b = {}, {}
        self.least = {}

    def dist(self, k):
        if k not in self.d:
            x = self.c.real('dist%d' % k, 0, 3)
            self.c.nonneg(x)
            self.d[k] = x
        return self.d[k]

    def ismin(self, L):
        if L not in self.least:
            self.least[L] = self.c.boolvar('min%d_%d' % (self.where[L], self.orbs[self.where[L]].index(L)))
        return self.least[L]

    def arr(self, L):
        return self.c.np.array([list(r) for r in L])

    def key(self, A):
        """the pool matrix that A is"""
        c = self.c
        c.soft('a matrix of integers', hasattr(A, 'shape') and A.shape == (2, 2))
        v = [x if isinstance(x, int) else c.value(x) for x in A.flat]
        L = (tuple(v[:2]), tuple(v[2:]))
        c.soft('a known matrix', L in self.where)
        return L

    def bytes(self, L):
        if L not in self.b:
            self.b[L] = self.arr(L).tostring()
        return self.b[L]


def closure_dicts(loc):
    """the dictionaries captured by the functions in scope (by name)"""
    out, seen, todo = {}, set(), [v for v in loc.values() if callable(v) and hasattr(v, '__closure__')]
    for k, v in loc.items():
        if isinstance(v, dict) and not k.startswith('_vc'):
            out[id(v)] = v
    while todo:
        f = todo.pop()
        if id(f) in seen:
            continue
        seen.add(id(f))
        for cell in (f.__closure__ or ()):
            try:
                v = cell.cell_contents
            except ValueError:
                continue
            if isinstance(v, dict):
                out[id(v)] = v
            elif callable(v) and hasattr(v, '__closure__'):
                todo.append(v)
    return list(out.values())


def list_invariant(c, P, dopt, lopt, ext, nsol, note=''):
    """formulas: equally long, distances of the matrices, ranked, pairwise inequivalent, ties only beyond nsol, the orbits of
    the listed matrices are remembered, whatever is remembered is no better than the best"""
    c.soft('lists of solutions', isinstance(dopt, list) and isinstance(lopt, list))
    out = [('equally long lists', len(dopt) == len(lopt))]
    if len(dopt) != len(lopt):
        return out
    ks = [P.where[P.key(l)] for l in lopt]
    for d, k in zip(dopt, ks):
        out.append(('the distance of its matrix', d == P.dist(k)))
    for a, b in zip(dopt, dopt[1:]):
        out.append(('ranked by non-decreasing distance', a <= b))
    out.append(('no two related by symmetry', len(set(ks)) == len(ks)))
    for d in dopt[nsol:]:
        out.append(('more than requested only as ties', d == dopt[nsol - 1]))
    if ext is not None:
        for l in lopt:
            for m in P.orbs[P.where[P.key(l)]]:
                out.append(('the whole orbit is remembered', P.bytes(m) in ext))
        for L, k in P.where.items():
            if dopt and k not in ks and P.bytes(L) in ext:
                out.append(('what is remembered is no better than the best', P.dist(k) >= dopt[0]))
            if not dopt:
                out.append(('nothing is remembered without a solution', P.bytes(L) not in ext))
    return out


_TT, _22, _42 = ('trivial', 'trivial'), ('trivial', 'two-fold'), ('two-fold', 'three-fold')
CONFIG = [(1, 'default', _TT, None, False), (1, 'equal', _22, 'Ericksen', True), (1, 'any', _42, 'strain', False),
          (2, 'default', _22, 'Cauchy', False), (2, 'equal', _TT, None, True), (2, 'any', _TT, 'Ericksen', False),
          (3, 'default', _42, None, True), (3, 'equal', _TT, 'strain', False), (3, 'any', _22, 'Cauchy', True)]


@contract('C13', [LO + '.lat_opt'], run=False, timeout=400, maxpaths=60000,
          bounded='lists of at most three solutions plus one tie; symmetry groups of the plane; one root and one child per round of the search')
def solution_lists(c):
    """the two search loops of lat_opt (rule of invariants), against the contracts of LLL, Lattice, SLNode and dfs: from any
    lists that satisfy the invariant and any node that the search meets, the lists satisfy it again; what is returned does"""
    np = c.np
    c.nosample()
    nsol, depths, (g1, g2), which, given = CONFIG[c.choice('configuration', list(range(len(CONFIG))))]
    G1, G2 = GROUPS[g1], GROUPS[g2]
    P = Pool(c, G1, G2, 9)
    # 'outer': any state at the head of the outer loop, up to the inner one; 'inner': any state at the head of the inner loop
    part = c.choice('part', ['outer', 'inner'])
    local = nsol <= 2 and depths != 'any'
    kw = {'nsol': nsol, 'disp': 0}
    if which:
        kw['dist'] = which
    if depths != 'default':
        a = c.int('miniter', 1, 4)
        c.require(a >= 1)
        b = a
        if depths == 'any':
            b = c.int('maxiter', 1, 5)
            c.require(b >= 1)
        kw['miniter'], kw['maxiter'] = a, b
    E1, E2 = c.mat('A', 2), c.mat('B', 2)
    c.nonzero(c.det(E1))
    c.nonzero(c.det(E2))
    E2i = c.inv(E2)
    k1, k2 = E1.copy(), E2.copy()
    mats = lambda G: np.array([[list(r) for r in m] for m in G])
    if given:
        kw['SOLG2'] = mats(G2)
    start = P.orbs[1][0]
    MD = 'structrans.marttrans.lat_cor.'

    # ---- contracts of the callees
    class Grp(object):
        def __init__(self, G):
            self.G = G

        def matrices(self):
            return mats(self.G)

    class Lat(object):
        def __init__(self, E, *a, **k):
            self.E = E

        def getspeciallatticegroup(self):
            if c.close(self.E, k1):
                return Grp(G1)
            c.soft('the lattice of one of the bases', c.close(self.E, k2))
            return Grp(G2)
        special_lattice_group = getspeciallatticegroup

    def lll(E):
        c.soft('LLL of the first base', c.close(E, k1))
        return E.dot(P.arr(start))

    def dist(name):
        def f(x, a, b):
            c.true('the chosen distance', name == (which or 'Cauchy'))
            c.soft('the two bases', c.close(a, k1))
            c.eq('the second base', b, k2 if name == 'Ericksen' else E2i)
            return P.dist(P.where[P.key(x)])
        return f

    fresh = {'n': 4}            # orbits from here on are nodes that the search meets

    def new():
        fresh['n'] += 1
        c.soft('enough matrices', fresh['n'] <= len(P.orbs))
        return P.orbs[fresh['n'] - 1][0]

    class Node(object):
        dim = 3

        @classmethod
        def set_dim(cls, d):
            cls.dim = d

        def __init__(self, elem, cache, parent=None, grandpa=None):
            c.true('moves of the dimension of the bases', Node.dim == 2)
            self.L = P.key(elem)
            self.elem = elem
            self.elem_dist = cache['dist'](elem)
            self.parent = parent
            self.cache = cache
            self.kids = None

        @property
        def children(self):
            if self.kids is None:
                how = c.choice('child', ['new', 'listed', 'remembered', 'none'])
                if how == 'none':
                    self.kids = []
                elif how == 'listed' and st['m']:
                    o = P.orbs[c.choice('which', list(range(st['m'])))]
                    self.kids = [(0, P.arr(o[-1]))]
                elif how == 'remembered' and st['extra']:
                    self.kids = [(0, P.arr(P.orbs[3][-1]))]
                else:
                    self.kids = [(0, P.arr(new()))]
            return iter(self.kids)

    def descent(t, cache):
        """contract of dfs: a local minimum, the node itself or strictly closer"""
        if c.choice('descends', [False, True]):
            L = new()
            n = Node(P.arr(L), t.cache)
            c.require(n.elem_dist < t.elem_dist)
        else:
            n = t
        c.require(P.ismin(n.L))
        return n

    c.stub('structrans.crystallography.lattice_reduction:LLL', lll)
    c.stub(LAT_ + ':Lattice', Lat)
    for nm, q in (('Eric_dist', 'Ericksen'), ('strain_dist', 'strain'), ('Cauchy_dist', 'Cauchy')):
        c.stub(MD + 'dist:' + nm, dist(q))
    c.stub(MD + 'slnode:SLNode', Node)
    c.stub(MD + 'dfs:dfs', descent)
    m = c.mod(LO)
    st = {'m': 0, 'extra': False}

    def store(loc):
        ds = [d for d in closure_dicts(loc) if not ({'dist', 'counter', 'nsol'} & set(map(str, d.keys())))]
        ds = [d for d in ds if all(not isinstance(k, str) for k in d) and d is not loc.get('EXPLORED')]
        c.soft('one store of the orbits met', len(ds) == 1)
        return ds[0]

    def havoc_lists(ext):
        """any lists that satisfy the invariant"""
        k = c.choice('length', [q for q in range(4) if q <= nsol + 1])
        extra = bool(k) and c.choice('remembered', [False, True])
        m.dopt[:], m.lopt[:] = [P.dist(q) for q in range(k)], [P.arr(P.orbs[q][0]) for q in range(k)]
        ext.clear()
        for q in list(range(k)) + ([3] if extra else []):
            for L in P.orbs[q]:
                ext[P.bytes(L)] = True
        st['m'], st['extra'] = k, extra
        for nm, b in list_invariant(c, P, m.dopt, m.lopt, None, nsol):
            c.require(b)
        if extra:
            c.require(P.dist(3) >= m.dopt[0])
        c.prune()

    def best_is_min(d0):
        """every listed matrix at the best distance is a local minimum"""
        return [('the best is a local minimum', c.lor(d != d0, P.ismin(P.key(l)))) for d, l in zip(m.dopt, m.lopt)]

    # ---- the outer loop: descend, then look around; restart from something strictly better
    def inv_out(L):
        ns = L['new_start']
        out = list_invariant(c, P, m.dopt, m.lopt, store(L), nsol)
        if ns is None:
            out.append(('something was found', len(m.dopt) > 0))
            if local and m.dopt:
                out += best_is_min(m.dopt[0])
        elif m.dopt and local:
            out.append(('a restart is strictly better', ns.elem_dist < m.dopt[0]))
        return out

    def havoc_out(L):
        ext = store(L)
        if part == 'inner':
            st['m'], st['extra'] = 0, False
            return {'new_start': Node(P.arr(new()), L['new_start'].cache), 'minnode': None, 'EXT_SOLS': ext, 'nrestart': 0}
        havoc_lists(ext)
        if st['m'] and c.choice('finished', [False, True]):
            ns = None
            if local:
                for nm, b in best_is_min(m.dopt[0]):
                    c.require(b)
        else:
            listed = bool(st['m']) and not local and c.choice('restart from', ['new', 'listed']) == 'listed'
            ns = Node(P.arr(P.orbs[st['m'] - 1][-1] if listed else new()), L['new_start'].cache)
            if m.dopt and local:
                c.require(ns.elem_dist < m.dopt[0])
        return {'new_start': ns, 'minnode': None, 'EXT_SOLS': ext, 'nrestart': c.int('nrestart', 0, 3)}

    # ---- the inner loop: breadth first around the minimum 'source'
    def inv_in(L):
        out = list_invariant(c, P, m.dopt, m.lopt, store(L), nsol)
        out.append(('something was found', len(m.dopt) > 0))
        if local and m.dopt:
            out.append(('nothing listed is better than the minimum', m.dopt[0] == L['source'].elem_dist))
            out += best_is_min(m.dopt[0])
            out.append(('depths', m.depth >= 0))
        return out

    def havoc_in(L):
        if part == 'outer':
            c.stop()
        ext = store(L)
        src = L['source']
        havoc_lists(ext)
        c.require(len(m.dopt) > 0)
        c.require(m.dopt[0] == src.elem_dist) if local else None
        if local:
            for nm, b in best_is_min(m.dopt[0]):
                c.require(b)
        m.depth = c.int('depth', 0, 4)
        c.require(m.depth >= 0)
        root = Node(P.arr(new()), src.cache)
        return {'updated': c.choice('updated', [True, False]), 'roots': [root], 'new_roots': [], 't': None, 't0': 0.0, 'root': None,
                'gen': None, 'elem': None, 'hashcode': None, 'update_msg': '', 'EXPLORED': {src.elem.tostring(): True}, 'EXT_SOLS': ext,
                'potential_newstart': None}
    c.loop('lat_opt:lat_opt#0', inv_out, havoc_out)
    c.loop('lat_opt.bfs#0', inv_in, havoc_in)
    r = m.lat_opt(E1, E2, **kw)
    c.eq('bases unchanged', E1, k1)
    c.eq('bases unchanged', E2, k2)
    for nm, b in list_invariant(c, P, r['dopt'], r['lopt'], None, nsol):
        c.true(nm, b)
    c.true('at least one solution', len(r['dopt']) > 0)
    if local and r['dopt']:
        c.true('no single move improves the best', P.ismin(P.key(r['lopt'][0])))


GRAPHS = [{0: [(1, 0), (2, 0)], 1: [(0, 0), (3, 0)], 2: [(0, 0), (3, -1)], 3: [(1, 0), (2, 0)]},
          {0: [(1, 0), (1, -1), (2, 0)], 1: [(0, 0), (2, -1)], 2: [(0, -1), (1, 0), (3, 0)], 3: [(2, 0)]}]


@contract('C13', [LO + '.lat_opt'], run=False, timeout=250, maxpaths=60000,
          bounded='graphs of moves with four double cosets, at most three solutions, depth at most two')
def whole(c):
    """lat_opt from end to end on small graphs of moves with arbitrary distances (contracts of LLL, Lattice, SLNode, dfs)"""
    np = c.np
    c.nosample()
    nsol, depth, gi, g2 = c.choice('configuration', [(1, None, 0, 'trivial'), (1, (1, 1), 1, 'two-fold'), (2, (1, 1), 0, 'two-fold'), (2, (2, 2), 1, 'trivial'),
                                                     (3, (1, 2), 0, 'two-fold')])
    G1, G2 = GROUPS['trivial'], GROUPS[g2]
    P = Pool(c, G1, G2, 4)
    graph = GRAPHS[gi]
    E1, E2 = c.mat('A', 2), c.mat('B', 2)
    c.nonzero(c.det(E1))
    c.nonzero(c.det(E2))
    k1, k2 = E1.copy(), E2.copy()
    mats = lambda G: np.array([[list(r) for r in m] for m in G])
    MD = 'structrans.marttrans.lat_cor.'

    class Grp(object):
        def __init__(self, G):
            self.G = G

        def matrices(self):
            return mats(self.G)

    class Lat(object):
        def __init__(self, E, *a, **k):
            self.E = E

        def getspeciallatticegroup(self):
            return Grp(G1 if c.close(self.E, k1) else G2)
        special_lattice_group = getspeciallatticegroup

    class Node(object):
        dim = 3

        @classmethod
        def set_dim(cls, d):
            cls.dim = d

        def __init__(self, elem, cache, parent=None, grandpa=None):
            self.L = P.key(elem)
            self.elem, self.cache, self.parent = elem, cache, parent
            self.elem_dist = cache['dist'](elem)

        @property
        def children(self):
            return iter([(0, P.arr(P.orbs[k][i])) for k, i in graph[P.where[self.L]]])

    def descent(t, cache):
        for _ in range(5):
            best, at = None, P.where[t.L]
            for k, i in graph[at]:
                if best is None or bool(P.dist(k) < P.dist(best[0])):
                    best = (k, i)
            if not bool(P.dist(best[0]) < P.dist(at)):
                break
            t = Node(P.arr(P.orbs[best[0]][best[1]]), t.cache)
        return t
    c.stub('structrans.crystallography.lattice_reduction:LLL', lambda E: E.dot(P.arr(P.orbs[0][0])))
    c.stub(LAT_ + ':Lattice', Lat)
    for nm in ('Eric_dist', 'strain_dist', 'Cauchy_dist'):
        c.stub(MD + 'dist:' + nm, lambda x, a, b: P.dist(P.where[P.key(x)]))
    c.stub(MD + 'slnode:SLNode', Node)
    c.stub(MD + 'dfs:dfs', descent)
    kw = {'nsol': nsol, 'disp': 0}
    if depth:
        kw['miniter'], kw['maxiter'] = depth
    r = c.mod(LO).lat_opt(E1, E2, **kw)
    for nm, b in list_invariant(c, P, r['dopt'], r['lopt'], None, nsol):
        c.true(nm, b)
    c.true('at least one solution', len(r['dopt']) > 0)
    if nsol <= 2 and r['lopt']:
        for k, i in graph[P.where[P.key(r['lopt'][0])]]:
            c.true('no single move improves the best', P.dist(k) >= r['dopt'][0])
