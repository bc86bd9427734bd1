"""C12: search tree over the unimodular matrices and the descent on it."""
import itertools
from vc.api import contract

SL = 'structrans.marttrans.lat_cor.slnode'
DF = 'structrans.marttrans.lat_cor.dfs'
DI = 'structrans.marttrans.lat_cor.dist'


def node_class(c, dim=3):
    S = c.mod(SL).SLNode
    if getattr(S, 'dim', 3) != dim:
        S.set_dim(dim)
    return S


def transvections(dim):
    out = []
    for i in range(dim):
        for j in range(dim):
            if i != j:
                for s in (1, -1):
                    out.append(tuple(tuple((1 if r == k else 0) + (s if (r, k) == (i, j) else 0) for k in range(dim)) for r in range(dim)))
    return out


def key(m):
    return tuple(tuple(int(x) for x in r) for r in m)


def mul(a, b):
    n = len(a)
    return tuple(tuple(sum(a[i][k] * b[k][j] for k in range(n)) for j in range(n)) for i in range(n))


@contract('C12', [SL + '.SLNode'], n=4)
def moves(c):
    """exactly the transvections, each once, closed under inverse, determinant 1"""
    dim = c.choice('dim', [3, 2])
    S = node_class(c, dim)
    node_class(c, 3)
    S = node_class(c, dim)
    T = [key(t) for t in S._T]
    want = transvections(dim)
    c.same('number of moves', len(T), len(want))
    c.same('the transvections', set(T), set(want))
    I = tuple(tuple(1 if i == j else 0 for j in range(dim)) for i in range(dim))
    c.true('closed under inverse', all(any(mul(a, b) == I for b in T) for a in T))
    node_class(c, 3)


def _elem(c, dim):
    if c.sym:
        return c.mat('L', dim, kind='i')
    E = c.np.eye(dim, dtype='int')
    T = transvections(dim)
    for k in range(5):
        E = E.dot(c.np.array(T[c.int('w%d' % k, 0, len(T) - 1)]))
    return E


@contract('C12', [SL + '.SLNode.__init__', SL + '.SLNode.generate_children', SL + '.SLNode.cache_dist', SL + '.SLNode.calc_neighbor_dist',
                  SL + '.SLNode.is_min' if False else SL + '.SLNode.gobacktoparent', SL + '.SLNode.gobacktouncle', SL + '.SLNode.gobacktosibling'], n=60)
def node(c):
    """any matrix, any distance function, every context: distance of the node, children are one-move neighbours, each
    at most once, all of them for a node without context; neighbour distances are those of the neighbours"""
    dim = c.choice('dim', [3, 2])
    S = node_class(c, dim)
    N = 2 * dim * (dim - 1)
    L = _elem(c, dim)
    keep = L.copy()
    seen = []

    def dist(x):
        for y, d in seen:
            if c.close(x, y):
                return d
        seen.append((x.copy(), c.real('d%d' % len(seen))))
        return seen[-1][1]
    cache = {'dist': dist}
    T = [S._T[i] for i in range(N)]
    nd = [dist(L.dot(t)) for t in T]
    p = c.choice('parent', [None] + list(range(N)))
    g = c.choice('grandpa', [None] + list(range(N)))
    if p is None and g is not None:
        c.require(False)
    n = S(L, cache, parent=p, grandpa=g) if p is not None else S(L, cache)
    c.eq('element', n.elem, keep)
    c.eq('distance of the node', n.elem_dist, dist(keep))
    ch = list(n.children)
    idx = [j for j, _ in ch]
    c.true('each move at most once', len(set(idx)) == len(idx) and all(0 <= j < N for j in idx))
    for j, e in ch:
        c.eq('child is the neighbour by its move', e, keep.dot(T[j]))
    if p is None:
        c.same('all neighbours of a root', sorted(idx), list(range(N)))
    c.eq('distances of the neighbours', list(n.calc_neighbor_dist()), nd)
    c.eq('matrix unchanged', L, keep, tol=0)
    node_class(c, 3)


def _admitted(S, c, depth):
    """the search tree below the identity: {matrix: length of the shortest admitted path}, {admitted path: omitted moves}"""
    I = c.np.eye(S.dim, dtype='int')
    N = 2 * S.dim * (S.dim - 1)
    cache = {'dist': lambda x: 0.0}
    short = {key(I): 0}
    omitted = []
    level = [((), S(I, cache))]
    for d in range(1, depth + 1):
        nl = []
        for path, n in level:
            ch = list(n.children)
            listed = set(j for j, _ in ch)
            for j in range(N):
                if j not in listed:
                    omitted.append((path, j, key(n.elem.dot(S._T[j]))))
            for j, e in ch:
                k = key(e)
                if k not in short:
                    short[k] = d
                nl.append((path + (j,), S(e, cache, parent=j, grandpa=path[-1] if path else None)))
        level = nl
    return short, omitted


@contract('C12', [SL + '.SLNode.generate_children', SL + '.SLNode.gobacktoparent', SL + '.SLNode.gobacktouncle', SL + '.SLNode.gobacktosibling'],
          n=1, bounded='paths of at most 3 moves (every context of a parent and a grandparent move occurs), 2D: 4 moves')
def omitted_are_reached(c):
    """every neighbour that a node omits is reached by an admitted path that is no longer"""
    dim = c.choice('dim', [3, 2])
    depth = 3 if dim == 3 else 4
    S = node_class(c, dim)
    short, om = _admitted(S, c, depth)
    bad = [(p, j) for p, j, k in om if not short.get(k, 99) <= len(p) + 1]
    c.same('omitted but not reached otherwise', bad, [])
    node_class(c, 3)


@contract('C12', [SL + '.SLNode.generate_children'], n=1, sym=False, evaltime=300)
def search_ball(c):
    """the breadth-first search reaches everything within d moves: d = 1..4 (5 in the thorough tier), from any start"""
    S = node_class(c, 3)
    cache = {'dist': lambda x: 0.0}
    T = [c.np.array(t) for t in transvections(3)]
    depth = 4 if c.tier == 'quick' else 5
    start = _elem(c, 3)
    full = {start.tobytes()}
    frontier = [start]
    roots = [S(start, cache)]
    seen = {start.tobytes()}
    for d in range(1, depth + 1):
        nf = []
        for m in frontier:
            for t in T:
                e = m.dot(t)
                k = e.tobytes()
                if k not in full:
                    full.add(k)
                    nf.append(e)
        frontier = nf
        nr = []
        for r in roots:
            for j, e in r.children:
                k = e.tobytes()
                if k not in seen:
                    seen.add(k)
                    nr.append(S(e, cache, parent=j, grandpa=r.parent))
        roots = nr
        c.same('everything within %d moves' % d, seen == full, True)


SD = 'SLNode.steepest_des@0'


@contract('C12', [SL + '.SLNode.steepest_des'], n=200, timeout=300, maxpaths=9000, forloops=[SD])
def steepest(c):
    """any matrix and any distance values: moves to a best neighbour, stops exactly when none is strictly better"""
    dim = c.choice('dim', [3, 2])
    S = node_class(c, dim)
    N = 2 * dim * (dim - 1)
    L = _elem(c, dim)
    if c.sym:
        d0 = c.real('d')
        ds = [c.real('d%d' % i) for i in range(N)]
    else:
        few = c.choice('ties', [True, False])
        d0 = float(c.int('d', 0, 3)) if few else c.real('d', 0, 3)
        ds = [float(c.int('d%d' % i, 0, 6)) if few else c.real('d%d' % i, 1, 6) for i in range(N)]
    nb = [(L.dot(t), d) for t, d in zip(S._T, ds)]

    def dist(x):
        if c.close(x, L):
            return d0
        for y, d in nb:
            if c.close(x, y):
                return d
        raise AssertionError('distance of something else')
    n = S(L.copy(), {'dist': dist})
    big = c.np.array([10 ** 10])[0]

    def least(k, j, dmin):
        """dmin is the least of the first k distance changes, at place j; or none is below 1E10"""
        if j is None:
            return c.land(dmin == big, *[ds[i] - d0 >= big for i in range(k)])
        return c.land(0 <= j < k, dmin == ds[j] - d0, *[dmin <= ds[i] - d0 for i in range(k)])

    def inv(k, L_, items):
        return [('least change so far', least(k, L_['nbmin'], L_['dmin']))]

    def havoc(k, L_, items):
        j = c.choice('nbmin', [None] + list(range(k)))
        dmin = big if j is None else ds[j] - d0
        c.require(least(k, j, dmin))
        return {'nbmin': j, 'dmin': dmin}
    c.forloop(SD, inv, havoc)
    r = n.steepest_des()
    if r is None:
        for d in ds:
            c.le('stops when no neighbour is better', d0, d, tol=0)
    else:
        k = [i for i, (y, d) in enumerate(nb) if c.close(r.elem, y)]
        c.true('a neighbour', len(k) == 1)
        dk = ds[k[0]]
        c.true('strictly better', dk < d0)
        for d in ds:
            c.le('a best neighbour', dk, d, tol=0)
        c.eq('distance of the new node', r.elem_dist, dk, tol=0)
        c.eq('same distance function', r.cache['dist'] is dist, True)
    c.eq('the node stays', n.elem, L, tol=0)
    node_class(c, 3)


class Tok(object):
    """stands for the matrix of a node: only its identity is used"""

    def __init__(self, i):
        self.i = i

    def flatten(self):
        return (self.i,)


@contract('C12', [DF + '.dfs'], run=False)
def descent(c):
    """loop invariant: minnode is reached from start by steepest-descent steps, is no farther, and everything in
    cachenodes is at least as far; nextmin is its steepest-descent step.  Against the contract of steepest_des."""
    S = node_class(c)
    I = c.np.eye(3, dtype='int')
    g = {'k': 0}

    def new(d):
        g['k'] += 1
        m = I.copy()
        m[0, 1] = 100 + g['k']
        n = S(m, {'dist': lambda x: d})
        return n

    nxt = {}

    def steepest(self):
        if self not in nxt:
            if c.choice('better neighbour', [True, False]):
                d = c.real('d%d' % g['k'])
                c.require(d < self.elem_dist)
                nxt[self] = new(d)
            else:
                nxt[self] = None
        return nxt[self]
    c.stub(SL + ':SLNode.steepest_des', steepest)
    start = new(c.real('d'))
    reach = {start}

    def inv(L):
        m, nx = L['minnode'], L['nextmin']
        reach.update(b for a, b in nxt.items() if a in reach and b is not None)
        return [('minnode is reached', c.land(m in reach)),
                ('no farther than the start', m.elem_dist <= start.elem_dist),
                ('nextmin is its next step', c.land(m in nxt and nxt[m] is nx)),
                ('the path is no better', c.land(*[m.elem_dist <= x.elem_dist for x in L['cachenodes']])),
                ('the path is reached', c.land(all(x in reach for x in L['cachenodes']))),
                ('start is on the path', c.land(start in L['cachenodes']))]

    def havoc(L):
        m = start
        if c.choice('rounds so far', [0, 1]):
            d = c.real('dm')
            c.require(d <= start.elem_dist)
            m = new(d)
            reach.add(m)
        path = [start]
        if m is not start:
            d = c.real('dx')
            c.require(d >= m.elem_dist)
            x = new(d)                       # any other node of the path
            reach.add(x)
            path = [start, x, m]
        return {'minnode': m, 'nextmin': m.steepest_des(), 'cachenodes': path, 'minlociter': c.int('count')}

    c.loop('dfs#0', inv, havoc)
    mode = c.choice('cache', ['empty', 'other', 'hit'])
    cache = {'counter': 0}
    if mode != 'empty':
        o = new(c.real('dc'))
        nxt[o] = None                        # cache invariant: what it holds is a local minimum, no farther than its key
        k = o
        if mode == 'hit':
            k = start
            c.require(o.elem_dist <= start.elem_dist)
        cache[tuple(k.elem.flatten())] = o
    old = dict(cache)
    r = c.mod(DF).dfs(start, cache)
    c.le('no farther than the start', r.elem_dist, start.elem_dist)
    c.true('a local minimum', r.steepest_des() is None)
    if mode == 'hit':
        c.true('the stored result', r is o)
        c.same('counter', cache['counter'], 1)
    else:
        c.true('reached from the start', r in reach)
        byk = {tuple(n.elem.flatten()): n for n in list(nxt) + list(reach)}
        for k, v in cache.items():
            if k != 'counter' and k not in old:
                c.true('stored for a node of the path', k in byk and byk[k] in reach)
                c.true('the result found', v is r)
                c.le('no farther than the key', v.elem_dist, byk[k].elem_dist)
        for k, v in old.items():
            c.true('stored results stay', cache.get(k) is v or k == 'counter')


@contract('C12', [DF + '.dfs', SL + '.SLNode.steepest_des'], n=250, sym=False, evaltime=120)
def descent_runtime(c):
    """real distance functions and bases: reached by unimodular moves, no farther, local minimum, with and without cache"""
    np = c.np
    dim = c.choice('dim', [3, 3, 3, 2])
    S = node_class(c, dim)
    rs = np.random.RandomState(int(c._get('seed', lambda: c.rng.randrange(10 ** 6))))
    E1, E2 = rs.uniform(-2, 2, size=(dim, dim)), rs.uniform(-2, 2, size=(dim, dim))
    if c.choice('cubic', [False, False, True]):
        E1, E2 = np.eye(dim), np.eye(dim) * 1.0
    c.nonzero(np.linalg.det(E1), 0.3)
    c.nonzero(np.linalg.det(E2), 0.3)
    E2 = E2 * abs(np.linalg.det(E1) / np.linalg.det(E2)) ** (1.0 / dim)
    D = c.mod(DI)
    which = c.choice('dist', ['Cauchy', 'strain', 'Ericksen'])
    Ei = np.linalg.inv(E2)
    f = {'Cauchy': lambda x: D.Cauchy_dist(x, E1, Ei), 'strain': lambda x: D.strain_dist(x, E1, Ei),
         'Ericksen': lambda x: D.Eric_dist(x, E1, E2)}[which]
    sc = {'dist': f, 'lg1': None, 'lg2': None}
    T = [np.array(t) for t in transvections(dim)]
    cache = {'counter': 0}
    first = {}
    for k in range(8):
        L = np.eye(dim, dtype='int')
        for _ in range(rs.randint(0, 7)):
            L = L.dot(T[rs.randint(len(T))])
        if k == 5:
            L = start
        elif k == 6:
            L = end
        start = L
        keep = L.copy()
        s = S(L, sc)
        own = {'counter': 0}
        use = [cache, own][c.choice('cache%d' % k, [0, 0, 1])]
        hit = tuple(L.flatten()) in use
        r = c.mod(DF).dfs(s, use)
        end = r.elem
        M = np.array(r.elem)
        c.integral('integer matrix', M)
        c.eq('unimodular, same orientation', np.linalg.det(M), np.linalg.det(keep))
        d = f(M)
        c.eq('its distance', r.elem_dist, d)
        c.le('no farther than the start', d, f(keep), tol=1e-12)
        c.true('a local minimum', all(f(M.dot(t)) >= d - 1e-12 * (1 + d) for t in T))
        c.eq('start unchanged', L, keep, tol=0)
        # same as the plain descent
        m = keep.copy()
        tie = False
        while True:
            v = [f(m.dot(t)) for t in T]
            j = int(np.argmin(v))
            if not v[j] < f(m) - 1e-13 * (1 + abs(f(m))):
                break
            if sorted(v)[1] - v[j] < 1e-9 * (1 + abs(v[j])):
                tie = True
                break
            m = m.dot(T[j])
        if not tie:
            c.eq('steepest descent ends there', f(M), f(m), tol=1e-8)
    node_class(c, 3)
