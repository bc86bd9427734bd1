"""C02: enumeration of Hermite normal forms; divisors."""
import itertools
from vc.api import contract

HNF = 'structrans.crystallography.hnf'
SUB = 'structrans.crystallography.sublattice'
UT = 'structrans.util.utils'


def _divs(n):
    return [d for d in range(1, n + 1) if n % d == 0]


def _forms(diag):
    n = len(diag)
    pos = [(i, j) for i in range(n) for j in range(i)]
    for vals in itertools.product(*[range(-(diag[i] - 1), 1) for i, j in pos]):
        H = [[0] * n for _ in range(n)]
        for i in range(n):
            H[i][i] = diag[i]
        for (i, j), v in zip(pos, vals):
            H[i][j] = v
        yield tuple(map(tuple, H))


def _cmp(c, name, got, want, n):
    got = [tuple(tuple(int(x) for x in r) for r in H) for H in got]
    c.same(name + ': number', len(got), len(want))
    c.true(name + ': no duplicates', len(set(got)) == len(got))
    c.same(name + ': exactly the Hermite normal forms', set(got), set(want))


@contract('C02', [HNF + '.hnf_from_det'], n=240, sym=False)
def from_det(c):
    """dimension 1: det <= 60, 2: <= 40, 3: <= 16, 4: <= 6"""
    mod = c.mod([HNF, SUB][c.case % 2])
    cases = [(n, N) for N, top in ((1, 60), (2, 40), (3, 16), (4, 6)) for n in range(1, top + 1)]
    n, N = cases[(c.case // 2) % len(cases)]
    c.inputs['n'], c.inputs['N'], c.inputs['m'] = n, N, c.case % 2
    if c.given is not None:
        n, N = int(c.given.get('n', n)), int(c.given.get('N', N))
    want = [H for d in itertools.product(_divs(n), repeat=N)
            if __import__('functools').reduce(lambda a, b: a * b, d) == n for H in _forms(d)]
    got = mod.hnf_from_det(n, N=N)
    _cmp(c, 'hnf_from_det', got, want, N)
    if N == 3:
        _cmp(c, 'default dimension', mod.hnf_from_det(n), want, 3)
    got2 = c.mod('structrans.crystallography').HermiteNormalForms(n, N) if hasattr(c.mod('structrans.crystallography'), 'HermiteNormalForms') else got
    _cmp(c, 'HermiteNormalForms', got2, want, N)


@contract('C02', [HNF + '.hnf_from_diag'], n=150, sym=False)
def from_diag(c):
    N = c.choice('N', [1, 2, 3, 3, 4])
    top = {1: 50, 2: 12, 3: 6, 4: 3}[N]
    diag = [c.int('d%d' % i, 1, top) for i in range(N)]
    k = 1
    for i, d in enumerate(diag):
        k *= d ** i
    c.require(k <= 6000)
    mod = c.mod(c.choice('module', [HNF, SUB]))
    form = c.choice('form', ['list', 'tuple', 'array'])
    arg = diag if form == 'list' else tuple(diag) if form == 'tuple' else c.np.array(diag)
    got = mod.hnf_from_diag(arg)
    c.same('argument unchanged', list(arg), diag)
    _cmp(c, 'hnf_from_diag', got, list(_forms(diag)), N)


@contract('C02', [HNF + '.hnf_from_det'], n=40, sym=False)
def negative_rejected(c):
    n = -c.int('n', 1, 40)
    N = c.choice('N', [1, 2, 3, 4])
    mod = c.mod(c.choice('module', [HNF, SUB]))
    c.raises('negative determinant', ValueError, lambda: mod.hnf_from_det(n, N))


@contract('C02', [UT + '.divisors'], n=1500, sym=False)
def divisors_runtime(c):
    n = c.case + 1 if c.given is None else int(c.given['n'])
    if c.case > 1350 and c.given is None:
        n = c.rng.randrange(1, 60000)
    c.inputs['n'] = n
    c.same('divisors', list(c.mod(UT).divisors(n)), _divs(n))


# ------------------------------------------------------------------ deductive part
@contract('C02', [UT + '.divisors'], run=False, timeout=120)
def divisors_proof(c):
    """for every n >= 1: every element divides n, elements increase strictly, n comes last, every divisor d < n occurs"""
    f = c.mod(UT).divisors
    n = c.int('n', 1, 60)
    c.require(n >= 1)
    met = c.symrange()
    r = list(f(n))
    c.soft('one range', len(met) == 1 and len(r) in (1, 2))
    lo, hi, i = met[0]
    c.eq('n comes last', r[-1], n)
    if len(r) == 1:
        return
    e = r[0]
    c.true('positive', e >= 1)
    c.true('below n', e < n)
    c.true('divides n', e * c.np.floor(n / e) == n)
    k = c.coeff(e, i)
    c.true('increasing', k > 0)
    # completeness: n = d m with d < n; the index at which the element is d
    b = c.subst(e, i, 0)
    c.soft('the element is its index plus a constant', c.close(k, 1))
    d, m = c.int('d', 1, 9), c.int('m', 2, 9)
    c.require(d >= 1)
    c.require(m >= 2)
    c.lemma('d (m - 2) >= 0', d * (m - 2) >= 0)
    met2 = c.symrange(lambda lo2, hi2: d - b)
    r2 = list(f(d * m))
    c.true('every divisor occurs', len(r2) == 2)
    c.eq('every divisor occurs', r2[0], d)
    c.eq('n comes last', r2[-1], d * m)


@contract('C02', [HNF + '.hnf_from_diag', SUB + '.hnf_from_diag'], run=False, timeout=200)
def from_diag_proof(c):
    """for every positive diagonal: the list starts as [diag]; for every place (i, j) below the diagonal, once, and every value
    -1 ... -(d_i - 1), once, set_ij adds to the list a copy of every matrix with 0 at (i, j), with the value there, and nothing
    else.  By induction over the places and values the list holds every Hermite normal form with this diagonal once."""
    mod = c.choice('module', [HNF, SUB])
    N = c.choice('N', [1, 2, 3, 4])
    diag = [c.int('d%d' % i, 1, 6) for i in range(N)]
    for d in diag:
        c.require(d >= 1)
    st = {'called': False}
    met = c.symrange()

    def red(fn, it, *init):
        c.soft('reduce over a list of matrices', len(init) == 1 and isinstance(init[0], list) and not st['called'])
        st['called'] = True
        items = list(it)
        c.true('starts with one matrix', len(init[0]) == 1)
        c.eq('starts with the diagonal matrix', init[0][0], c.np.diag(c.np.array(diag)))
        # the places and values
        rng = [m for m in met]
        c.soft('one range of values for every place', len(rng) == N * (N - 1) // 2)
        places, used = [], []
        k = 0
        for lo, hi, d in rng:
            if d is None:
                used.append((None, None, lo, hi, None))
                continue
            c.soft('places and values', k < len(items) and len(items[k]) == 3)
            i, j, v = items[k]
            k += 1
            i, j = int(i), int(j)
            places.append((i, j))
            used.append((i, j, lo, hi, (v, d)))
        c.soft('one value at a time', k == len(items))
        for i, j, lo, hi, vd in used:
            if vd is None:
                continue
            v, d = vd
            s = c.coeff(v, d)
            b = c.subst(v, d, 0)
            c.true('consecutive values', c.lor(s == 1, s == -1))
            first, last = s * lo + b, s * (hi - 1) + b
            c.true('values -1 ... -(d_i - 1)', c.lor(c.land(first == -1, last == 1 - diag[i]), c.land(last == -1, first == 1 - diag[i])))
        c.true('no place twice', len(set(places)) == len(places))
        for i in range(N):
            for j in range(i):
                if (i, j) not in places:
                    c.true('every place with d_i > 1', diag[i] <= 1)
        for i, j in places:
            c.true('places below the diagonal', 0 <= j < i < N)
        # one step, on a list of arbitrary matrices
        if items:
            i, j, v = items[c.choice('item', list(range(len(items))))]
            K = c.choice('K', [1, 2])
            Hs = [c.mat('H%d' % q, N, kind='i', lo=-2, hi=1) for q in range(K)]
            zero = [c.choice('zero%d' % q, [True, False]) for q in range(K)]
            for H, z in zip(Hs, zero):
                if z:
                    H[int(i), int(j)] = 0
                else:
                    c.require(H[int(i), int(j)] != 0)
            keep = [H.copy() for H in Hs]
            L = list(Hs)
            R = fn(L, (i, j, v))
            c.soft('the step returns the list', isinstance(R, list))
            c.true('number of matrices', len(R) == K + sum(zero))
            want = list(keep)
            for H, z in zip(keep, zero):
                if z:
                    M = H.copy()
                    M[int(i), int(j)] = v
                    want.append(M)
            for a, b in zip(R, want):
                c.eq('the step adds the copies with the value', a, b)
            for a, b in zip(Hs, keep):
                c.eq('the step leaves the matrices alone', a, b)
            st['inplace'] = R is L
        init[0][:] = [c.mat('F%d' % q, N, kind='i') for q in range(2)]
        st['out'] = [x.copy() for x in init[0]]
        return init[0] if st.get('inplace', True) else list(init[0])
    c.stub(mod + ':reduce', red)
    r = c.mod(mod).hnf_from_diag(diag)
    c.soft('reduce is used', st['called'])
    c.eq('the collected list is returned', r, c.np.array(st['out']))


@contract('C02', [HNF + '.hnf_from_det', SUB + '.hnf_from_det'], run=False, timeout=120)
def from_det_proof(c):
    """for every determinant: the concatenation of hnf_from_diag(d) over the d in divisors(n)^N with product n, in order"""
    mod = c.choice('module', [HNF, SUB])
    N = c.choice('N', [1, 2, 3, 4])
    K = c.choice('K', [1, 2, 3])
    n = c.int('n', 1, 12)
    c.require(n >= 1)
    tup = [tuple(c.int('t%d%d' % (k, i), 1, 3) for i in range(N)) for k in range(K)]
    for t in tup:
        for x in t:
            c.require(x >= 1)
    token = (object(),)
    real = __import__('itertools')

    class It(object):
        def __getattr__(self, k):
            return getattr(real, k)

        def product(self, *a, **k):
            c.soft('divisors(n)^N', len(a) == 1 and a[0] is token and k == {'repeat': N})
            return iter(tup)
    blocks = []

    def from_diag(d):
        k = [q for q in range(K) if d is tup[q] or tuple(d) is tup[q]]
        c.soft('a diagonal from the list', len(k) == 1)
        B = c.np.array([c.mat('B%d%d' % (k[0], q), N, kind='i') for q in range(1 + k[0] % 2)])
        blocks.append((k[0], B.copy()))
        return B

    def divs(x):
        c.soft('divisors of n', c.close(x, n))
        return token
    c.stub(mod + ':itertools', It())
    c.stub(mod + ':hnf_from_diag', from_diag)
    c.stub(mod + ':divisors', divs)
    r = c.mod(mod).hnf_from_det(n, N) if N != 3 else c.mod(mod).hnf_from_det(n)
    prods = []
    for t in tup:
        p = 1
        for x in t:
            p = p * x
        prods.append(bool(p == n))
    want = [k for k in range(K) if prods[k]]
    c.same('the diagonals with product n, in order, once', [k for k, _ in blocks], want)
    if not want:
        c.true('nothing', r is None or len(r) == 0)
    else:
        W = [H for _, B in blocks for H in B]
        c.eq('all their Hermite normal forms, in order', r, c.np.array(W))


@contract('C02', [HNF + '.hnf_from_det', SUB + '.hnf_from_det'], run=False)
def negative_rejected_proof(c):
    mod = c.choice('module', [HNF, SUB])
    N = c.choice('N', [1, 2, 3, 4])
    n = c.int('n', -40, -1)
    c.require(n < 0)
    c.raises('negative determinant', ValueError, lambda: c.mod(mod).hnf_from_det(n, N))
