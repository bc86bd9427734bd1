"""C15: enumeration of the integer ball.

The order is by rank of the first entry (0, 1, -1, 2, -2, ...), then of the rest.  vec_generator is proved against: in
dimension 1 one round of its loop yields exactly the entries of the ranks from the round's first to the next round's
first; in dimension d one round yields, for its first entry f, [f] + u for u of the enumeration of dimension d - 1 with
radius sqrt(R^2 - f^2) (started at the rest of x0 in the very first round) and then [-f] + u for the whole of it.  By
induction over the rounds and over the dimension this is the ball, each vector once, from x0 on."""
import itertools
from vc.api import contract

MD = 'structrans.marttrans.lat_cor.main_direct'
EPS = 1e-9


def rank(c, k):
    return c.ite(k > 0, 2 * k - 1, -2 * k)


@contract('C15', [MD + '.vec_generator'], run=False)
def line(c):
    """dimension 1, any radius, any start, any round"""
    R = c.real('R', 0, 30)
    c.nonneg(R)
    e = c.np.float64(EPS) if not c.sym else 1 / c.np.array([10 ** 9])[0]
    k = c.int('k', -5, 5)
    given = c.choice('x0', [True, False])
    if given:
        c.require(abs(k) <= R + e)
    k0 = k if given else 0
    out = []
    st = {}

    def inv(L):
        n = L['n']
        if 'n' in st:
            return [('n is a positive integer', n >= 1)]
        return [('the first round starts at x0', n == k0)]

    def havoc(L):
        if c.choice('round', ['first', 'later']) == 'first':
            n = L['n']
        else:
            n = c.int('n', 1, 12)
            c.require(n >= 1)
        st['n'] = n
        return {'n': n}

    def back(L):
        n = st['n']
        c.true('something is yielded', len(out) >= 1)
        r = rank(c, n)
        for i, v in enumerate(out):
            c.same('vector of one entry', len(v), 1)
            c.eq('ranks in turn', rank(c, v[0]), r + i)
            c.true('inside the ball', abs(v[0]) <= R + e)
        c.eq('the next round goes on from there', rank(c, L['n']), r + len(out))

    c.loop('vec_generator#0', inv, havoc, back)
    for v in c.mod(MD).vec_generator(R, 1, [k] if given else None):
        out.append(v)
    c.same('nothing is yielded by leaving', len(out), 0)
    c.true('everything from here on is outside', c.land(st['n'] > R + e, st['n'] >= 0))


@contract('C15', [MD + '.vec_generator'], run=False)
def layers(c):
    """dimension >= 2, any radius, any start, any round, against the contract of the enumeration of one dimension less"""
    dim = c.choice('dim', [2, 3, 4, 9])
    R = c.real('R', 0, 30)
    c.nonneg(R)
    e = 1 / c.np.array([10 ** 9])[0]
    x0 = [c.int('k%d' % i, -5, 5) for i in range(dim)]
    given = c.choice('x0', [True, False])
    t = 0
    for x in x0:
        t = t + x * x
    if given:
        c.require(t <= R * R)
        c.require(x0[0] <= R)
    k0 = x0[0] if given else 0
    rest = x0[1:] if given else [0] * (dim - 1)
    calls, out, st = [], [], {}

    def sub(maxlen, d, x0=None):
        u = [c.int('u%d_%d' % (len(calls), i)) for i in range(dim - 1)]
        me = {'r': maxlen, 'd': d, 'x0': None if x0 is None else list(x0), 'u': u, 'begin': len(out)}
        calls.append(me)
        yield list(u)
        me['end'] = len(out)

    def inv(L):
        f, xs = L['firstDigit'], L['xs']
        if 'f' in st:
            return [('first entry positive', f >= 1), ('the rest from the beginning', c.land(xs is None))]
        return [('the first round starts at x0', c.land(f == k0, *[a == b for a, b in zip(xs, rest)])), ('whole of x0', c.land(len(xs) == dim - 1))]

    def havoc(L):
        if c.choice('round', ['first', 'later']) == 'first':
            st['first'] = True
            f, xs = L['firstDigit'], L['xs']
        else:
            f, xs = c.int('f', 1, 12), None
            c.require(f >= 1)
        st['f'] = f
        return {'firstDigit': f, 'xs': xs, 'g': None, 'subvec': None, 'v': None}

    def back(L):
        f = st['f']
        both = c.choice('sign', [True, False])
        c.require((f > 0) if both else (f <= 0))
        c.same('one pass for each sign of the first entry', len(calls), 2 if both else 1)
        c.same('one vector for each', len(out), len(calls))
        for i, (m, v) in enumerate(zip(calls, out)):
            c.same('dimension one less', m['d'], dim - 1)
            c.true('radius is not negative', m['r'] >= 0)
            c.true('radius of the layer', c.lor(c.land(m['r'] * m['r'] == R * R - f * f), c.land(f * f >= R * R, m['r'] == 0)))
            if i == 0 and 'first' in st:
                c.true('starts at the rest of x0', m['x0'] is not None and len(m['x0']) == dim - 1)
                c.eq('starts at the rest of x0', m['x0'], rest)
            else:
                c.true('starts at the beginning', m['x0'] is None or c.close(m['x0'], [0] * (dim - 1)))
            c.same('length', len(v), dim)
            c.eq('the vector is (+-f, u)', v, [f if i == 0 else -f] + m['u'])
        c.eq('next first entry', L['firstDigit'], abs(f) + 1)

    gen = c.stub(MD + ':vec_generator', sub)
    c.loop('vec_generator#1', inv, havoc, back)
    for v in gen(R, dim, list(x0) if given else None):
        out.append(v)
    c.same('nothing is yielded by leaving', len(out), 0)
    c.true('everything from here on is outside', c.land(st['f'] > R + e, st['f'] >= 0))


@contract('C15', [MD + '.vec_generator'], n=900, sym=False, evaltime=120)
def ball(c):
    """dimensions 1 to 4 and 9 against brute force; radii on, just below and just above the norms"""
    import math
    np = c.np
    dim = c.choice('dim', [1, 2, 2, 3, 3, 4, 4, 9])
    top = {1: 400, 2: 120, 3: 40, 4: 16, 9: 3}[dim]
    sq = c.int('square', 0, top)
    R = math.sqrt(sq) + c.choice('by', [0.0, 0.0, 0.3, -0.2, 1e-3, -1e-3])
    R = max(R, 0.0)
    if dim == 9:
        R = min(R, 1.99)
    if c.choice('int radius', [False, False, False, True]):
        R = int(math.sqrt(sq))
    g = c.mod(MD).vec_generator
    got = [tuple(int(x) for x in v) for v in list(g(R, dim))]
    r2 = R * R + 1e-6
    if dim == 9:
        want = set()
        for k in range(int(r2) + 1):
            for pos in itertools.combinations(range(9), k):
                for sg in itertools.product([1, -1], repeat=k):
                    v = [0] * 9
                    for p, s in zip(pos, sg):
                        v[p] = s
                    want.add(tuple(v))
    else:
        m = int(math.floor(math.sqrt(r2)))
        want = set(v for v in itertools.product(range(-m, m + 1), repeat=dim) if sum(x * x for x in v) <= r2)
    c.true('no vector twice', len(set(got)) == len(got))
    c.same('exactly the integer ball', set(got), want)
    for _ in range(4):
        i = c.int('from%d' % _, 0, 10 ** 6) % len(got)
        x0 = list(got[i])
        if c.choice('as array%d' % _, [False, True]):
            x0 = np.array(x0)
        keep = [int(x) for x in x0]
        again = [tuple(int(x) for x in v) for v in list(g(R, dim, x0))]
        c.same('resumes exactly', again, got[i:])
        c.same('start unchanged', [int(x) for x in x0], keep)
