"""C14: the HNF-based correspondence search."""
import copy
from vc.api import contract
from contracts.lc import LO, distance, orbit, ranked
from contracts.common import BRA, NPAR, params

MH = 'structrans.marttrans.lat_cor.main_hnf'
HNF = 'structrans.crystallography.hnf'


def canon(np, H):
    """column Hermite normal form with rows in (-H_ii, 0], computed independently (column operations)"""
    H = [[int(x) for x in r] for r in np.rint(np.array(H, dtype=float)).astype(int)]
    n = len(H)
    for i in range(n):
        while True:
            nz = [j for j in range(i, n) if H[i][j] != 0]
            if not nz:
                return None
            p = min(nz, key=lambda j: abs(H[i][j]))
            for r in range(n):
                H[r][i], H[r][p] = H[r][p], H[r][i]
            if H[i][i] < 0:
                for r in range(n):
                    H[r][i] = -H[r][i]
            done = True
            for j in range(i + 1, n):
                q = H[i][j] // H[i][i]
                for r in range(n):
                    H[r][j] -= q * H[r][i]
                done = done and H[i][j] == 0
            if done:
                break
        for j in range(i):
            q = -((-H[i][j]) // H[i][i])        # ceil
            for r in range(n):
                H[r][j] -= q * H[r][i]
    return tuple(map(tuple, H))


def hnfs(np, det, n):
    from contracts.c02 import _forms, _divs
    import itertools

    def diags(d, k):
        if k == 1:
            yield [d]
            return
        for a in _divs(d):
            for rest in diags(d // a, k - 1):
                yield [a] + rest
    return [np.array(H) for dg in diags(det, n) for H in _forms(dg)]


@contract('C14', [MH + '.reduce_hnfs'], n=80, sym=False)
def orbits(c):
    """exactly one representative of every symmetry orbit, for lattice groups of both dimensions and lists in any order"""
    np = c.np
    dim = c.choice('dim', [2, 3, 3])
    lid = c.choice('id', list(range(1, len(NPAR[dim]) + 1)))
    ps, _ = params(c, dim, lid)
    lat = c.mod(BRA).BravaisLattice(lid, ps, dim)
    G = lat.special_lattice_group().matrices() if c.choice('special', [True, False]) else lat.lattice_group().matrices()
    G = np.array([np.array(np.rint(g), dtype=int) for g in G])
    det = c.int('det', 1, 12 if dim == 2 else 6)
    L = hnfs(np, det, dim)
    if c.choice('more', [False, True]):
        L = L + hnfs(np, det + 1, dim)
    c.rng.shuffle(L)
    keep = [h.copy() for h in L]
    args = [L, G] if c.choice('printer', [False, True]) else [L, G, lambda m: None]
    R = c.mod(MH).reduce_hnfs(args)
    c.true('list unchanged', len(L) == len(keep) and all((a == b).all() for a, b in zip(L, keep)))
    names = {canon(np, h) for h in keep}
    got = [canon(np, h) for h in R]
    c.true('representatives are taken from the list', all(g in names and tuple(map(tuple, h.tolist())) == g for g, h in zip(got, R)))
    c.true('no form twice', len(set(got)) == len(got))
    orb = {}
    for h in keep:
        orb[canon(np, h)] = frozenset(canon(np, g.dot(h)) for g in G)
    for h in keep:
        c.same('one representative of the orbit', len(orb[canon(np, h)] & set(got)), 1)


class Pool(object):
    """asynchronous workers that finish in a random order; arguments and results cross a process border (copied)"""

    def __init__(self, c, unpack, rng):
        self.rng, self.unpack = rng, unpack

    def __call__(self, args):
        return Res(self.unpack, copy.deepcopy(list(args)), self.rng)


class Res(object):
    def __init__(self, fn, args, rng):
        self.fn, self.args, self.rng = fn, args, rng

    def ready(self):
        return self.rng.random() < 0.4

    def get(self):
        return copy.deepcopy(self.fn(*self.args))


def check_solutions(c, sols, A, M, dist, nsol, dim, hnf=True):
    np = c.np
    E_A, E_M = A.base(), M.base()
    G1 = [np.array(np.rint(g), dtype=int) for g in A.special_lattice_group().matrices()]
    G2 = [np.array(np.rint(g), dtype=int) for g in M.special_lattice_group().matrices()]
    ranked(c, [s['d'] for s in sols], nsol)
    seen = set()
    for s in sols:
        l = np.array(s['l'])
        tot = l
        c.integral('integer correspondence', l)
        if hnf:
            h = np.array(s['h'])
            c.same('Hermite normal form', tuple(map(tuple, h.tolist())), canon(np, h))
            c.eq('unimodular', abs(np.linalg.det(l.astype(float))), 1.0)
            tot = h.dot(l)
        c.nonzero(1.0)
        c.true('nonsingular', abs(np.linalg.det(tot.astype(float))) > 0.5)
        F = E_M.dot(np.linalg.inv(E_A.dot(tot)))
        U = np.array(s['u'])
        c.eq('U is symmetric', U, U.T, tol=1e-6)
        c.eq('U U = F^T F', U.dot(U), F.T.dot(F), tol=1e-6)
        lam = np.linalg.eigvalsh((U + U.T) / 2)
        c.true('U is positive', lam[0] > 0)
        c.eq('sorted eigenvalues', s['lams'], lam, tol=1e-6)
        c.eq('correspondence in conventional bases', F.dot(A.conventional_base()).dot(s['cor']), M.conventional_base(), tol=1e-6)
        c.eq('its distance', s['d'], distance(np, dist, tot, E_A, E_M), tol=1e-6)
        k = tuple(int(x) for x in tot.flatten())
        c.true('no two related by symmetry', k not in seen)
        seen |= orbit(np, tot, G1, G2)
    return G1, G2


PLANAR = [(1, [1.0], 1, [1.02]), (1, [1.0], 2, [1.0, 1.9]), (2, [1.0, 1.3], 5, [1.1, 1.2, 80.0]), (4, [1.0], 1, [0.95]),
          (3, [1.0, 1.7], 2, [1.1, 1.8]), (5, [1.0, 1.2, 75.0], 3, [1.5, 1.9]), (1, [1.0], 4, [1.45]), (2, [1.0, 1.4], 2, [1.4, 1.0])]
SPATIAL = [(2, 2.0, 6, [1.414, 2.0], 1), (3, 3.015, 12, [2.898, 4.108, 4.646, 97.78], 1), (1, 1.0, 6, [1.05, 0.95], 1),
           (2, 2.0, 3, [1.6], 1), (1, 1.0, 8, [1.0, 1.02, 1.95], 1), (4, [1.0, 1.6], 6, [0.95, 1.6], 1)]


@contract('C14', [MH + '.lat_cor', MH + '.reduce_hnfs'], n=90, sym=False, evaltime=200)
def planar(c):
    """lattice pairs of the plane; serial and parallel execution"""
    _planar(c)


def _planar(c):
    np = c.np
    la, pa, lm, pm = c.choice('pair', PLANAR)
    if c.choice('vary', [False, True]):
        pm = [x * (1 + 0.03 * c.real('f', -1, 1)) for x in pm]
    nsol = c.choice('nsol', [1, 2, 3, 6, 12, 20])
    dist = c.choice('dist', ['Cauchy', 'Ericksen', 'strain'])
    kw = {'dim': 2, 'nsol': nsol, 'dist': dist, 'disp': 0}
    v = c.choice('vol_th', [None, 0.05, 0.6])
    if v:
        kw['vol_th'] = v
    d = c.choice('depth', [None, (1, 1), (2, 3)])
    if d:
        kw['miniter'], kw['maxiter'] = d
    B = c.mod(BRA).BravaisLattice
    A, M = B(la, pa, 2), B(lm, pm, 2)
    keep = (list(pa), list(pm), dict(kw))
    m = c.mod(MH)
    sols = m.lat_cor(la, pa, lm, pm, **kw)
    c.same('arguments unchanged', (list(pa), list(pm), dict(kw)), keep)
    G1, G2 = check_solutions(c, sols, A, M, dist, nsol, 2)
    again = m.lat_cor(la, pa, lm, pm, **kw)
    c.same('same query, same answer', [(s['d'], s['h'].tolist(), s['l'].tolist()) for s in again],
           [(s['d'], s['h'].tolist(), s['l'].tolist()) for s in sols])
    # parallel: any order of completion
    import multiprocessing
    import random
    rng = random.Random(c.int('order', 0, 10 ** 6))
    par = dict(kw, lat_opt_par=Pool(c, c.mod(LO).lat_opt_unpack, rng))
    if c.choice('poolsize', [False, True]):
        par['poolsize'] = c.choice('workers', [1, 2, 5])
    old = multiprocessing.cpu_count
    multiprocessing.cpu_count = lambda: 2
    try:
        if c.choice('reduce in parallel', [False, True]):
            multiprocessing.cpu_count = lambda: c.choice('cpus', [1, 2])
            par['reduce_hnfs_par'] = lambda args: [copy.deepcopy(m.reduce_hnfs(copy.deepcopy(list(a)))) for a in args]
        psols = m.lat_cor(la, pa, lm, pm, **par)
    finally:
        multiprocessing.cpu_count = old
    same_solutions(c, sols, psols, G1, G2)


def same_solutions(c, sols, psols, G1, G2):
    np = c.np
    c.same('parallel: number of solutions', len(psols), len(sols))
    c.eq('parallel: distances', [s['d'] for s in psols], [s['d'] for s in sols], tol=1e-9)

    def orbs(ss):
        return {frozenset(orbit(np, np.array(s['h']).dot(s['l']), G1, G2)) for s in ss}
    c.true('parallel: the same correspondences up to symmetry', orbs(psols) == orbs(sols))


@contract('C14', [MH + '.lat_cor'], n=18, sym=False, evaltime=300)
def spatial(c):
    """lattice pairs in space (search depth 1), serial and parallel"""
    la, pa, lm, pm, k = c.choice('pair', SPATIAL)
    nsol = c.choice('nsol', [1, 2, 4])
    dist = c.choice('dist', ['Cauchy', 'Cauchy', 'Ericksen', 'strain'])
    kw = {'nsol': nsol, 'dist': dist, 'disp': 0, 'miniter': k, 'maxiter': k}
    B = c.mod(BRA).BravaisLattice
    m = c.mod(MH)
    sols = m.lat_cor(la, pa, lm, pm, **kw)
    G1, G2 = check_solutions(c, sols, B(la, pa), B(lm, pm), dist, nsol, 3)
    import random
    rng = random.Random(c.int('order', 0, 10 ** 6))
    psols = m.lat_cor(la, pa, lm, pm, **dict(kw, lat_opt_par=Pool(c, c.mod(LO).lat_opt_unpack, rng), poolsize=3))
    same_solutions(c, sols, psols, G1, G2)


# ------------------------------------------------------------------ deductive part
ORDERS = [1, 2, 3, 4, 6, 8, 12, 16, 24, 48]        # orders of the lattice groups of the plane and of space


@contract('C14', [MH + '.reduce_hnfs'], run=False, timeout=200, forloops=['reduce_hnfs@1'])
def representative(c):
    """one round of the reduction from any set of representatives already chosen, for any action of a group of any order that a
    lattice group can have (contract of HNFDecomposition: the canonical name of the class of M h, C01)"""
    np = c.np
    c.nosample()
    m = c.choice('order', ORDERS)
    size = c.choice('orbit', [m, 1] if m % 2 or m == 2 else [m, m // 2, 1])
    first = c.choice('identity', [0, m - 1] if m > 1 else [0])
    member = c.choice('known member', [None] + list(range(size)))
    form = lambda o, k: np.array([[1, 0], [-k, 60 + o]])      # names of the classes: any distinct matrices will do
    where = {(o, k): form(o, k % size) for o in range(3) for k in range(size)}

    def key(A):
        c.soft('a Hermite normal form', hasattr(A, 'shape') and A.shape == (2, 2))
        k = (c.value(A[1, 1]) - 60, -c.value(A[1, 0]))
        c.soft('a known form', k in where)
        return k

    class Image(object):
        def __init__(self, k):
            self.k = k

    class Op(object):
        def __init__(self, g):
            self.g = g

        def dot(self, A):
            o, k = key(A)
            return Image((o, (k + self.g) % size))

    def decompose(A, onlyH=False):
        c.soft('an image of a form', isinstance(A, Image))
        H = form(*A.k)
        return H if onlyH else (H, None)
    c.stub(HNF + ':hnfd', decompose)
    ops = [Op((k - first) % m) for k in range(m)]
    e, h = form(0, 0), form(1, 0)
    x = form(2, 0) if member is None else form(1, member)
    if member == 0:
        c.stop()                          # the list has no form twice
    L = [e, x, h]

    def store(loc):
        ds = [v for k, v in loc.items() if isinstance(v, dict)]
        c.soft('one store of representatives', len(ds) == 1)
        return ds[0]

    def content(k):
        """what has to be in the store after k forms"""
        out = [(e, 'e'), (x, 'x'), (h, 'h')][:k]
        if member is not None:
            out = [t for t in out if t[1] != 'h']
        return [t[0] for t in out]

    def inv(k, loc, items):
        d = store(loc)
        want = content(k)
        return [('the representatives', len(d) == len(want) and all(c.close(d.get(w.tostring(), np.zeros((2, 2))), w) for w in want))]

    def havoc(k, loc, items):
        d = store(loc)
        d.clear()
        for w in content(k):
            d[w.tostring()] = w
        return {nm: v for nm, v in loc.items() if v is d}
    c.forloop('reduce_hnfs@1', inv, havoc)
    R = list(c.mod(MH).reduce_hnfs([L, ops]))
    got = [key(r) for r in R]
    want = [key(w) for w in content(3)]
    orb = [k[0] for k in got]
    c.true('one representative of every orbit', sorted(orb) == sorted(k[0] for k in want))
    c.true('representatives are taken from the list', all(k in [key(a) for a in L] for k in got))


def stub_lattices(c, dim, A, M):
    """contracts of BravaisLattice and Lattice: A, M = dict(base, trans, group)"""
    np = c.np
    made = []

    class Grp(object):
        def __init__(self, G):
            self.G = G

        def matrices(self):
            return np.array([np.array(g) for g in self.G])

    class Lat(object):
        def __init__(self, d):
            self.d = d

        def base(self):
            return self.d['base'].copy()

        def conventional_trans(self):
            return self.d['trans'].copy()

        def conventional_base(self):
            return np.dot(self.d['base'], self.d['trans'])

        def special_lattice_group(self):
            return Grp(self.d['group'])

        def lattice_group(self):
            return Grp(self.d.get('full', self.d['group']))
        getConventionalTrans, getConventionalBase, getBase = conventional_trans, conventional_base, base
        getspeciallatticegroup, getSpecialLatticeGroup, getLatticeGroup = special_lattice_group, special_lattice_group, lattice_group

        def __str__(self):
            return 'lattice'

    def bravais(lid, ps, dim_=3, **k):
        d = k.get('dim', dim_)
        c.true('the dimension asked for', d == dim)
        c.soft('one of the two lattices', lid in ('A', 'M') and ps == ['p' + lid])
        made.append(lid)
        return Lat(A if lid == 'A' else M)

    def plain(E, *a, **k):
        for d in (A, M):
            if c.close(E, d['base']):
                return Lat(d)
        c.soft('a lattice whose base is one of the two', False)
    c.stub(BRA + ':BravaisLattice', bravais)
    c.stub('structrans.crystallography.lattice:Lattice', plain)
    return ('A', ['pA'], 'M', ['pM'])


def report(c, s, EA, EM, CA, CM, tot, F, V, mu):
    """what a solution says about itself"""
    np = c.np
    U = s['u']
    c.eq('U U = F^T F', np.dot(U, U), np.dot(F.T, F))
    c.eq('U is symmetric', U, U.T)
    # positive: V^T U V = diag of positive numbers for the orthogonal V of the spectral theorem
    W = np.dot(np.dot(V.T, U), V)
    n = len(V)
    for i in range(n):
        for j in range(n):
            if i == j:
                c.true('U is positive', W[i, i] > 0)
            else:
                c.eq('U is positive', W[i, j], 0)
    c.eq('sorted eigenvalues', s['lams'], np.array(mu))
    c.eq('correspondence in conventional bases', np.dot(CA, s['cor']), np.dot(tot, CM))


def spectrum(c, dim, C):
    """eigenvalues mu_i^2 (mu ascending, positive) and orthonormal eigenvectors of the symmetric positive definite C"""
    np = c.np
    if dim == 2:
        k = c.unit('v', 2)
        V = np.array([[k[0], -k[1]], [k[1], k[0]]])
    else:
        V = c.rot('v')
    mu = [c.pos('mu%d' % i, 0.5, 2) for i in range(dim)]
    for a, b in zip(mu, mu[1:]):
        c.require(a < b)
    c.spectral([([m * m for m in mu], V, C)])
    return V, mu


@contract('C14', [MH + '.lat_cor'], run=False, timeout=150, z3_ms=3000)
def reported(c):
    """for any bases, conventional cells and pair (h, l): stretch, eigen-strains, correspondence and distance of the solution
    (contracts of BravaisLattice, HermiteNormalForms, reduce_hnfs and lat_opt: C06, C02, above, C13)"""
    np = c.np
    c.nosample()
    c.opaque()
    dim = c.choice('dim', [2, 3])
    EA, F, CA, CM = c.mat('EA', dim), c.mat('F', dim), c.mat('CA', dim), c.mat('CM', dim)
    h, l = c.mat('h', dim, kind='i'), c.mat('l', dim, kind='i')
    for X in (EA, F, CA, CM, h, l):
        c.nonzero(c.det(X))
    tot = np.dot(h, l)
    EM = np.dot(F, np.dot(EA, tot))         # every E_M is of this form
    eye = np.eye(dim, dtype=int)
    d0 = c.real('d', 0, 3)
    args = stub_lattices(c, dim, {'base': EA, 'trans': CA, 'group': [eye]}, {'base': EM, 'trans': CM, 'group': [eye]})
    c.e.ghost['arange'] = lambda b, dk: np.array([7])         # any one size of the sublattice
    c.stub(HNF + ':hnf_from_det', lambda n, N=3: [h])
    m = c.mod(MH)
    c.stub(MH + ':reduce_hnfs', lambda a: list(a[0]))
    dist = c.choice('dist', [None, 'Cauchy', 'Ericksen', 'strain'])

    def opt(E1, E2, **kw):
        c.eq('base of the sublattice', E1, np.dot(EA, h))
        c.eq('base of the product lattice', E2, EM)
        c.true('the chosen distance', kw.get('dist', 'Cauchy') == (dist or 'Cauchy'))
        return {'lopt': [l], 'dopt': [d0]}
    c.stub(LO + ':lat_opt', opt)
    kw = {'disp': 0, 'nsol': 1}
    if dim == 2:
        kw['dim'] = 2
    if dist:
        kw['dist'] = dist
    V, mu = spectrum(c, dim, np.dot(F.T, F))
    sols = m.lat_cor(*args, **kw)
    c.true('the solution found', len(sols) == 1)
    s = sols[0]
    c.eq('its form', s['h'], h)
    c.eq('its unimodular part', s['l'], l)
    c.eq('its distance', s['d'], d0)
    report(c, s, EA, EM, CA, CM, tot, F, V, mu)


def any_spectrum(c, A, how='eig'):
    """the numbers of the spectral decomposition do not matter here"""
    n = len(A)
    return c.np.array([2.0] * n) if how == 'vals' else (c.np.array([2.0] * n), c.np.eye(n))


def ranking(c, sols, nsol, known, when):
    """formulas: sols is ranked, has more than nsol entries only as ties, and consists of the best of the candidates known"""
    c.soft('a list of solutions', isinstance(sols, list) and all(isinstance(s, dict) and 'd' in s and 'l' in s for s in sols))
    out = []
    ids = [known.find(s) for s in sols]
    out.append(('candidates, each once', None not in ids and len(set(ids)) == len(ids)))
    if None in ids:
        return out
    for s, i in zip(sols, ids):
        out.append(('the distance of the candidate', s['d'] == known.d[i]))
    for a, b in zip(sols, sols[1:]):
        out.append(('ranked by non-decreasing distance', a['d'] <= b['d']))
    for s in sols[nsol:]:
        out.append(('more than requested only as ties', s['d'] == sols[nsol - 1]['d']))
    for i in known.met:
        if i not in ids:
            out.append(('what is left out is worse', len(sols) >= nsol and known.d[i] > sols[nsol - 1]['d']))
    return out


class Known(object):
    """pairs (h, l) in different double cosets with an arbitrary distance each"""

    def __init__(self, c, pairs):
        self.c, self.pairs, self.met = c, pairs, []
        self.d = [c.real('dist%d' % i, 0, 3) for i in range(len(pairs))]
        for x in self.d:
            c.nonneg(x)

    def sol(self, i):
        h, l = self.pairs[i]
        return {'d': self.d[i], 'h': self.c.np.array(h), 'l': self.c.np.array(l)}

    def find(self, s):
        v = lambda A: tuple(tuple(self.c.value(x) for x in r) for r in A)
        k = (v(s['h']), v(s['l']))
        return self.pairs.index(k) if k in self.pairs else None


FORMS = [((1, 0), (0, 3)), ((1, 0), (-1, 3)), ((3, 0), (0, 1))]
UNI = [((1, k), (0, 1)) for k in range(5)]


def _search(c, nsol, batches, keep=None):
    """the stubs for a search over FORMS in which form k contributes the candidates batches[k]"""
    np = c.np
    c.nosample()
    EA, EM = np.array([[1.0, 0], [0, 1]]), np.array([[3.0, 0], [0, 1]])
    one = ((1, 0), (0, 1))
    GM = [one, ((-1, 0), (0, -1))]
    args = stub_lattices(c, 2, {'base': EA, 'trans': np.eye(2), 'group': [one]}, {'base': EM, 'trans': np.eye(2), 'group': GM})
    c.e.ghost['eig'] = lambda A, how: any_spectrum(c, A)
    c.stub(HNF + ':hnf_from_det', lambda n, N=3: [np.array(h) for h in FORMS] if c.value(n) == 3 else [])
    m = c.mod(MH)
    c.stub(MH + ':reduce_hnfs', lambda a: list(a[0]))
    pairs = [(FORMS[k], UNI[j]) for k, b in enumerate(batches) for j in range(b)]
    P = Known(c, pairs)
    log = []

    def opt(E1, E2, **kw):
        """contract C13: sorted, pairwise inequivalent, ties only"""
        v = tuple(tuple(c.value(x) for x in r) for r in E1)
        c.soft('base of a sublattice', v in FORMS)
        c.true('base of the product lattice', c.close(E2, EM))
        c.true('the requested number', kw.get('nsol', 1) == nsol)
        if 'SOLG2' in kw:
            c.true('the group of the product lattice', sorted(tuple(tuple(c.value(x) for x in r) for r in g) for g in kw['SOLG2']) == sorted(GM))
        k = FORMS.index(v)
        ids = [i for i, (h, l) in enumerate(pairs) if h == v]
        for a, b in zip(ids, ids[1:]):
            c.require(P.d[a] <= P.d[b])
        for i in ids[nsol:]:
            c.require(P.d[i] == P.d[ids[nsol - 1]])
        log.append(k)
        P.met += ids
        return {'lopt': [np.array(pairs[i][1]) for i in ids], 'dopt': [P.d[i] for i in ids]}
    c.stub(LO + ':lat_opt', opt)
    return m, args, P, log


@contract('C14', [MH + '.lat_cor'], run=False, timeout=300, maxpaths=60000, forloops=['lat_cor@0'],
          bounded='lists of at most three solutions plus one tie, at most three new ones per sublattice')
def merging(c):
    """one round over the sublattices from any ranked list that holds the best of what was met before: it holds the best again"""
    nsol = c.choice('nsol', [1, 2, 3])
    new = c.choice('new', [1, 2, 3] if nsol < 3 else [2, 3])
    have = c.choice('have', list(range(0, nsol + 2)))
    # FORMS[0] stands for everything met before, UNI[have] for one of the candidates that were left out
    m, args, P, log = _search(c, nsol, [have + 1 if have >= nsol else have, new, 0])
    left = have if have >= nsol else None

    def inv(k, loc, items):
        return [('the best so far: ' + a, b) for a, b in ranking(c, loc['sols'], nsol, P, k)]

    def havoc(k, loc, items):
        if k not in (1, 3):
            c.stop()
        sols = loc['sols']
        sols[:] = [P.sol(i) for i in range(have)]
        P.met = list(range(have)) + ([left] if left is not None else [])
        for nm, b in ranking(c, sols, nsol, P, k):
            c.require(b)
        c.prune()
        return {nm: v for nm, v in loc.items() if isinstance(v, (list, dict)) and nm not in ('kwargs', 'hnfs') and v is not items}
    c.forloop('lat_cor@0', inv, havoc)
    sols = m.lat_cor(*args, nsol=nsol, disp=0, dim=2)
    for nm, b in ranking(c, sols, nsol, P, 'end'):
        c.true(nm, b)


BATCHES = [(1, 1, 1), (2, 1, 1), (1, 2, 1), (2, 2, 0), (1, 0, 2), (3, 1, 0)]


@contract('C14', [MH + '.lat_cor', LO + '.lat_opt_unpack'], run=False, timeout=400, maxpaths=60000,
          bounded='three sublattices with at most three solutions each; one task not ready at most twice')
def execution(c):
    """serial and parallel execution: every sublattice is searched once and the answer is the best of what the searches found, so
    the two agree whatever the order of completion"""
    mode = c.choice('mode', ['serial', 'parallel'])
    nsol = c.choice('nsol', [1, 2, 3])
    batches = c.choice('found', [b for b in BATCHES if max(b) <= nsol + 1])
    m, args, P, log = _search(c, nsol, batches)
    kw = {'nsol': nsol, 'disp': 0, 'dim': 2}
    lo = c.mod(LO)
    late = {'n': 2}

    class Res(object):
        def __init__(self, a):
            self.a = a

        def ready(self):
            if late['n'] and c.choice('late', [False, True]):
                late['n'] -= 1
                return False
            return True

        def get(self):
            return lo.lat_opt_unpack(*self.a)

    def submit(a):
        a = list(a)
        a = [tuple(dict(x) if isinstance(x, dict) else x for x in t) for t in a]
        return Res(a)
    if mode == 'parallel':
        kw['lat_opt_par'] = submit
        w = c.choice('workers', [1, 2, 3])
        kw['poolsize'] = w
    sols = m.lat_cor(*args, **kw)
    c.true('every sublattice once', sorted(log) == [0, 1, 2])
    for nm, b in ranking(c, sols, nsol, P, 'end'):
        c.true(nm, b)
