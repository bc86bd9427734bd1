"""Symbolic interpretation of the contracts."""
import time
import types
import numpy as R
from fractions import Fraction
from . import terms as T
from . import nshim
from .terms import Sym, SBool, Unsupported, const, lift, rel, land, lor, neg, tobool
from .engine import Engine, PathEnd, Discard, Obl, REFUTED, PROVED, UNKNOWN, subst
from . import loader


class SymCtx(object):
    sym = True

    def __init__(self, eng, world, tier='quick'):
        self.e = eng
        self.w = world
        self.np = nshim.np
        self.tier = tier
        self.case = 0

    # ------------------------------------------------------------ inputs
    def real(self, name, lo=-3.0, hi=3.0):
        def smp(rng):
            r = rng.random()
            if r < 0.25:
                return [float(rng.randint(int(lo), int(hi)))]
            return [rng.uniform(lo, hi)]
        return self.e.input(name, False, smp)

    def pos(self, name, lo=0.4, hi=4.0):
        v = self.e.input(name, False, lambda rng: [rng.uniform(lo, hi)])
        T.set_sign(v, 'pos')
        self.e.assume(v > 0, check=False)
        return v

    def between(self, name, lo, hi, margin=None):
        m = (hi - lo) * 0.02 if margin is None else margin
        v = self.e.input(name, False, lambda rng: [rng.uniform(lo + m, hi - m)])
        if lo >= 0:
            T.set_sign(v, 'pos')
        self.e.assume(v > lo, check=False)
        self.e.assume(v < hi, check=False)
        return v

    def int(self, name, lo=-5, hi=5):
        return self.e.input(name, True, lambda rng: [rng.randint(lo, hi)])

    def vec(self, name, n, kind='f', lo=None, hi=None):
        f = self._el(kind, lo, hi)
        return nshim.arr([f('%s[%d]' % (name, i)) for i in range(n)])

    def mat(self, name, n, m=None, kind='f', lo=None, hi=None):
        f = self._el(kind, lo, hi)
        return nshim.arr([[f('%s[%d,%d]' % (name, i, j)) for j in range(m or n)] for i in range(n)])

    def symmat(self, name, n=3):
        A = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(i, n):
                A[i][j] = A[j][i] = self.real('%s[%d,%d]' % (name, i, j))
        return nshim.arr(A)

    def _el(self, kind, lo, hi):
        if kind == 'i':
            a, b = (-5 if lo is None else lo), (5 if hi is None else hi)
            return lambda nm: self.int(nm, a, b)
        a, b = (-3.0 if lo is None else lo), (3.0 if hi is None else hi)
        return lambda nm: self.real(nm, a, b)

    def unit(self, name, n=3):
        vs = [T.var('%s[%d]' % (name, i)) for i in range(n)]

        def smp(rng):
            while True:
                v = [rng.gauss(0, 1) for _ in range(n)]
                k = sum(x * x for x in v) ** 0.5
                if k > 1e-2:
                    return [x / k for x in v]
        self.e._register(vs, smp)
        a = next(iter(vs[-1].num))[0][0]
        t = const(1, 'f')
        for v in vs[:-1]:
            t = t - v * v
        T.ATOMS[a].sq = t
        for v in vs[:-1]:                  # consequences of |v| = 1 that the solver needs spelled out
            self.e.assume(const(1, 'f') - v * v >= 0, check=False)
        self.e.assume(t >= 0, check=False)
        return nshim.arr(vs)

    def rot(self, name):
        return self.quat(self.unit(name, 4))

    def quat(self, q):
        a, b, c, d = q
        return nshim.arr([[a * a + b * b - c * c - d * d, 2 * (b * c - a * d), 2 * (b * d + a * c)],
                          [2 * (b * c + a * d), a * a - b * b + c * c - d * d, 2 * (c * d - a * b)],
                          [2 * (b * d - a * c), 2 * (c * d + a * b), a * a - b * b - c * c + d * d]])

    def choice(self, name, opts):
        i = self.e.choice(len(opts), name)
        self.e.choices[name] = i
        return opts[i]

    def nosample(self):
        """leave feasibility and refutation to the solver (strong preconditions that random points rarely meet)"""
        self.e.nosample = True

    def stop(self):
        """nothing more to check on this path"""
        raise PathEnd()

    def prune(self):
        if self.e.pc_unsat():
            raise Discard()

    def group(self, names, isint, sampler):
        vs = [T.var(nm, isint) for nm in names]
        self.e._register(vs, sampler)
        return vs

    def sign(self, name):
        """1 or -1"""
        s, = self.group([name], True, lambda rng: [rng.choice([-1, 1])])
        T.ATOMS[next(iter(s.num))[0][0]].sq = const(1, 'i')
        return s

    def coeff(self, x, v):
        """coefficient of the input v in x, which has to be linear in it"""
        x = lift(x)
        a = next(iter(lift(v).num))[0][0]
        if x.den and any(b == a for f, _ in x.den for b in T.patoms(f.p)):
            raise Unsupported('coefficient of a quotient')
        num = {}
        for m, k in x.num.items():
            if any(b == a for b, _ in m):
                if (a, 1) not in m:
                    raise Unsupported('not linear')
                num[tuple(t for t in m if t[0] != a)] = k
        return Sym(num, x.den, x.dt)

    def value(self, x):
        """the number, if it is one"""
        v = lift(x).value()
        return int(v) if v is not None and Fraction(v).denominator == 1 else v

    def isint(self, x):
        """formula: x is an integer"""
        x = lift(x)
        return T.TRUE if x.isintval() else rel('==', x - T.rint_(x))

    def soft(self, what, b):
        """what a stand-in for a callee relies on; if the code is organised differently the contract does not apply"""
        if not (b is True or (isinstance(b, SBool) and b.const_value() is True)):
            raise Unsupported('the contract does not fit the code: ' + what)

    def lemma(self, name, b):
        """prove, then use"""
        b = tobool(b)
        if self.e.prove(name, b) == PROVED:
            self.e.assume(b, check=False)

    # ------------------------------------------------------------ requirements
    def require(self, b):
        if isinstance(b, R.ndarray):
            b = nshim.all_(b)
        self.e.assume(tobool(b))

    def nonzero(self, x, margin=5e-2):
        self.e.assume(rel('!=', lift(x)))

    def positive(self, x, margin=1e-3):
        self.e.assume(lift(x) > 0)

    def nonneg(self, x):
        self.e.assume(lift(x) >= 0)

    # ------------------------------------------------------------ obligations
    def _fail(self, name, why):
        o = Obl(name, 'post')
        o.status, o.by, o.info = REFUTED, 'structure', why
        self.e._model(o)
        self.e.record(o)

    def eq(self, name, a, b, tol=1e-6):
        try:
            a, b = nshim.arr(a), nshim.arr(b)
        except Exception as ex:
            return self._fail(name, 'not comparable: %s' % ex)
        if a.shape != b.shape:
            return self._fail(name, 'shapes %r and %r' % (a.shape, b.shape))
        for x, y in zip(a.flat, b.flat):
            if lift(x) is None or lift(y) is None:
                return self._fail(name, 'not numbers: %r, %r' % (x, y))
            self.e.prove(name, rel('==', lift(x) - lift(y)))

    def frame(self, name, a, b):
        """a fact about a helper that no user sees: a failure makes the proof inapplicable, not the property false"""
        a, b = nshim.arr(a), nshim.arr(b)
        if a.shape != b.shape:
            raise Unsupported('frame: ' + name)
        for x, y in zip(a.flat, b.flat):
            self.e.prove(name, rel('==', lift(x) - lift(y)), kind='inv')

    def true(self, name, b):
        if isinstance(b, R.ndarray):
            b = nshim.all_(b)
        self.e.prove(name, tobool(b) if not isinstance(b, (bool,)) else (T.TRUE if b else T.FALSE))

    def le(self, name, a, b, tol=1e-7):
        a, b = nshim.arr(a), nshim.arr(b)
        a, b = R.broadcast_arrays(nshim._raw(a), nshim._raw(b))
        for x, y in zip(a.flat, b.flat):
            self.e.prove(name, lift(x) <= lift(y))

    def same(self, name, a, b):
        if a is b:
            return self.e.prove(name, T.TRUE)
        if isinstance(a, R.ndarray) or isinstance(b, R.ndarray):
            return self.eq(name, a, b)
        r = (a == b)
        self.e.prove(name, tobool(r))

    def raises(self, name, exc, fn):
        try:
            fn()
        except exc:
            self.e.prove(name, T.TRUE)
            return
        except Exception as ex:
            return self._fail(name, 'raised %s' % type(ex).__name__)
        self._fail(name, 'no exception')

    def integral(self, name, a):
        a = nshim.arr(a)
        for x in a.flat:
            x = lift(x)
            if x.isintval():
                self.e.prove(name, T.TRUE)
            else:
                self.e.prove(name, rel('==', x - T.rint_(x)))

    # ------------------------------------------------------------ the code
    def mod(self, name):
        return self.w.load(name)

    def stub(self, qual, fn):
        self.e.stubs.add(qual)
        return self.w.stub(qual, fn)

    def loop(self, pat, inv, havoc, back=None):
        """loop contract for the loop whose key (module:function#k) contains pat.
        inv(locals) -> [(name, formula)]; havoc(locals) -> {variable: arbitrary value satisfying the invariant};
        back(locals): further obligations at the end of an iteration."""
        self.e.loopspecs[pat] = lambda key: LoopRule(self, key, inv, havoc, back)
        self.e.loopnames.add(pat)

    def forloop(self, pat, inv, havoc):
        """loop contract for a for loop (key module:function@k): inv(k, locals, items), havoc(k, locals, items)"""
        if pat not in loader.FOR_KEYS:
            raise Unsupported('for loop key %s was not announced' % pat)
        self.e.loopspecs[pat] = lambda key: ForRule(self, key, inv, havoc, None)
        self.e.loopnames.add(pat)

    def opaque(self):
        """name determinants; resolve products and inverses by (XY)^-1 = Y^-1 X^-1, det XY = det X det Y"""
        self.e.opaque = True
        self.e.trusted.add('matrix algebra lemmas: det(XY) = det X det Y, (XY)^-1 = Y^-1 X^-1, X^-1 X = I')

    def symrange(self, index=None):
        """comprehensions over ranges with symbolic bounds are executed for one arbitrary index (empty ranges separately).
        Returns the list of (lo, hi, index) met.  index(lo, hi): a particular index, whose membership is proved instead."""
        met = []
        self.e.trusted.add('comprehension rule: a comprehension over a range is the concatenation, in order, of its results for the single indices')

        def h(lo, hi):
            if index is not None:
                i = lift(index(lo, hi))
                self.true('index in the range', land(lo <= i, i < hi))
                met.append((lo, hi, i))
                return [i]
            if not bool(lo < hi):
                met.append((lo, hi, None))
                return []
            i = self.e.fresh('index', True)
            self.e.assume(lo <= i, check=False)
            self.e.assume(i < hi, check=False)
            met.append((lo, hi, i))
            return [i]
        self.e.symrange = h
        return met

    def subst(self, x, v, t):
        """x with the input v replaced by t"""
        return subst(lift(x), {next(iter(lift(v).num))[0][0]: lift(t)})

    def ghost(self, **k):
        self.e.ghost.update(k)

    def lemma_inv(self, name, M, Mi):
        """prove M Mi = I once; afterwards inv(M) = Mi and inv(Mi) = M"""
        M, Mi = nshim.arr(M), nshim.arr(Mi)
        k0 = len(self.e.obls)
        self.eq('lemma: ' + name, nshim.dot(M, Mi), nshim.eye(len(M)))
        if all(o.status == PROVED for o in self.e.obls[k0:]):
            self._invs().extend([(M, Mi), (Mi, M)])

    def _invs(self):
        L = self.e.ghost.setdefault('invs', [])

        def hook(a):
            for M, Mi in L:
                if a.shape == M.shape and all((lift(x) - lift(y)).num == {} for x, y in zip(a.flat, M.flat)):
                    return nshim.arr(Mi)
            return None
        self.e.ghost['inv'] = hook
        return L

    def close(self, a, b):
        """Python bool: equal for all inputs by ring normalisation"""
        a, b = nshim.arr(a), nshim.arr(b)
        return a.shape == b.shape and all((lift(x) - lift(y)).num == {} for x, y in zip(a.flat, b.flat))

    def batch(self, row):
        """a batch of arbitrary length with this generic row"""
        self.e.trusted.add('numpy column slicing and elementwise operations treat every row of a batch alike')
        return nshim.Batch(nshim.arr(row))

    def brow(self, b):
        if not isinstance(b, nshim.Batch):
            raise Unsupported('not a batch')
        return b.r

    def boolvar(self, name):
        return T.bvar(name)

    def ite(self, c, a, b):
        return T.ite(c, a, b)

    def land(self, *a):
        return land(*a)

    def lor(self, *a):
        return lor(*a)

    def implies(self, a, b):
        return T.implies(a, b)

    def iff(self, a, b):
        return land(T.implies(a, b), T.implies(b, a))

    def sqrt(self, x):
        return T.sqrt_(lift(x))

    def cosd(self, x):
        return T.cos_(lift(x) * T.pi_() / 180)

    def sind(self, x):
        return T.sin_(lift(x) * T.pi_() / 180)

    def det(self, a):
        return nshim.tdet(nshim.arr(a))

    def inv(self, a):
        return nshim.inv(nshim.arr(a))

    # spectral ghost for eig: matrix = V diag(lam) V^T with V's columns orthonormal
    def spectral(self, entries):
        """entries: list of (lams, V[, M]) (M = V diag(lams) V^T is assumed): whenever eig is called on a matrix equal to M the assumed
        contract of LAPACK is used: eigenvalues in any order, unit eigenvectors up to sign.  (lams distinct)"""
        self.e.trusted.add('numpy.linalg.eig on a symmetric matrix returns its eigenvalues in some order with orthonormal eigenvectors (sign free)')
        mats = []
        for ent in entries:
            lams, V = ent[:2]
            M = nshim.dot(nshim.dot(V, nshim.diag(lams)), V.T)
            if len(ent) > 2:
                for x, y in zip(M.flat, nshim.arr(ent[2]).flat):
                    self.e.assume(rel('==', lift(x) - lift(y)), check=False)
                M = nshim.arr(ent[2])
            mats.append((lams, V, M))

        def eig(a, how):
            import itertools
            for lams, V, M in mats:
                if a.shape == M.shape and all((x - y).num == {} for x, y in zip(a.flat, M.flat)):
                    n = len(lams)
                    if how == 'eig':
                        perms = list(itertools.permutations(range(n)))
                    else:
                        perms = [tuple(range(n))]       # ascending: contract supplies lams ascending
                    p = perms[self.e.choice(len(perms), 'eigorder')]
                    sg = []
                    for i in range(n):
                        s = self.e.fresh('eigsign')
                        aidx = next(iter(s.num))[0][0]
                        T.ATOMS[aidx].sq = const(1, 'f')
                        self.e.groups[-1] = ([aidx], lambda rng: [rng.choice([-1.0, 1.0])])
                        for smp in self.e.samples:
                            smp[aidx] = self.e.rng.choice([-1.0, 1.0])
                        sg.append(s)
                    W = nshim.arr([[V[r, p[k]] * sg[k] for k in range(n)] for r in range(n)])
                    self._invs().append((W, W.T))       # W is orthogonal (assumed contract of eig)
                    return nshim.arr([lams[p[k]] for k in range(n)]), W
            raise Unsupported('eig of a matrix without spectral description')
        self.e.ghost['eig'] = eig


class Poison(object):
    """a variable written by a loop body whose value at the loop head is not described by the invariant"""

    def _no(self, *a, **k):
        raise Unsupported('a loop reads %s, which its invariant does not describe' % self.__dict__['_n'])
    __getattr__ = __call__ = __getitem__ = __setitem__ = __iter__ = __len__ = __bool__ = _no
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __neg__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = _no
    __truediv__ = __rtruediv__ = __mod__ = __rmod__ = __abs__ = __int__ = __float__ = __index__ = __format__ = __str__ = _no
    __hash__ = None

    def __init__(self, n):
        self.__dict__['_n'] = n


class LoopRule(object):
    """the loop-invariant rule: prove the invariant on entry; from an arbitrary state that satisfies it (havoc) run the
    body once and prove the invariant again (that path ends there), or leave the loop.  Everything that the loop does not
    own must be left as it was (frame)."""

    def __init__(self, c, key, inv, havoc, back):
        self.c, self.key, self.inv, self.havoc, self.back = c, key, inv, havoc, back
        self.n = 0

    def _prove(self, loc, when):
        try:
            for nm, b in self.inv(loc):
                if isinstance(b, R.ndarray):
                    b = nshim.all_(b)
                self.c.e.prove('loop invariant %s: %s' % (when, nm), tobool(b), kind='inv')
        except (KeyError, TypeError, AttributeError) as ex:
            raise Unsupported('loop %s does not fit its invariant: %r' % (self.key, ex))

    def _frame(self, loc, own):
        """contents of the mutable objects in scope that the loop does not own"""
        out, seen, todo = [], {id(o) for o in own}, [v for v in loc.values()]
        while todo:
            v = todo.pop()
            if id(v) in seen:
                continue
            seen.add(id(v))
            if isinstance(v, R.ndarray):
                out.append((v, list(v.flat)))
            elif isinstance(v, list):
                out.append((v, list(v)))
                todo.extend(v)
            elif isinstance(v, (dict,)):
                out.append((v, list(v.items())))
                todo.extend(v.values())
            elif isinstance(v, set):
                out.append((v, sorted(map(id, v))))
            elif isinstance(v, tuple):
                todo.extend(v)
            elif hasattr(v, '__dict__') and not isinstance(v, (type, types.ModuleType, types.FunctionType)) and \
                    type(v).__module__.startswith('structrans'):
                out.append((v, list(v.__dict__.items())))
                todo.extend(v.__dict__.values())
        return out

    @staticmethod
    def _now(v):
        if isinstance(v, R.ndarray):
            return list(v.flat)
        if isinstance(v, list):
            return list(v)
        if isinstance(v, dict):
            return list(v.items())
        if isinstance(v, set):
            return sorted(map(id, v))
        return list(v.__dict__.items())

    def head(self, loc, glob, names):
        self.n += 1
        loc = {k: v for k, v in loc.items() if not k.startswith('_vc_')}
        if self.n == 1:
            self._prove(loc, 'on entry')
            hv = dict(self.havoc(loc))
            old = [loc[k] for k in hv if k in loc]
            for o in old:
                for k, v in loc.items():
                    if v is not o and isinstance(v, R.ndarray) and isinstance(o, R.ndarray) and R.may_share_memory(v, o):
                        raise Unsupported('loop %s: %s shares memory with loop state' % (self.key, k))
                    if v is o and k not in hv and isinstance(v, (list, dict, set, R.ndarray)):
                        raise Unsupported('loop %s: %s aliases loop state' % (self.key, k))
            for k in names:
                if k in loc and k not in hv:
                    hv[k] = Poison(k)
            self.own = [v for v in hv.values() if isinstance(v, (list, dict, set, R.ndarray)) or hasattr(v, '__dict__')]
            self.keep = {k: v for k, v in loc.items() if k not in hv}
            self.fr = self._frame(self.keep, self.own)
            return hv
        if self.n == 2:
            for v, was in self.fr:
                now = self._now(v)
                if len(now) != len(was) or any(not (a is b or (isinstance(a, tuple) and len(a) == 2 and a[0] == b[0] and a[1] is b[1]) or
                                                    (type(a) is type(b) and isinstance(a, (int, str)) and a == b)) for a, b in zip(now, was)):
                    raise Unsupported('loop %s changes state that its invariant does not describe' % self.key)
            self._prove(loc, 'kept')
            if self.back:
                self.back(loc)
            self.c.e.completed_iter = True
            raise PathEnd()
        raise Unsupported('loop rule')

    def exit(self):
        pass


class ForRule(LoopRule):
    """the invariant rule for a for loop over a sequence of known length n: inv(k, locals, items) before round k.
    Every round k is run once from an arbitrary state satisfying inv(k); the code after the loop runs from inv(n)."""

    def iter(self, it):
        self.items = list(it)
        self.k = self.c.e.choice(len(self.items) + 1, 'round')
        if self.k < len(self.items):
            yield self.items[self.k]
            yield self.items[self.k]

    def _prove(self, loc, when):
        k = 0 if when == 'on entry' else self.k + 1
        try:
            for nm, b in self.inv(k, loc, self.items):
                self.c.e.prove('loop invariant %s: %s' % (when, nm), tobool(b), kind='inv')
        except (KeyError, TypeError, AttributeError) as ex:
            raise Unsupported('loop %s does not fit its invariant: %r' % (self.key, ex))

    def head(self, loc, glob, names):
        if self.n == 0:
            h = self.havoc
            self.havoc = lambda L: h(self.k, L, self.items)
        return LoopRule.head(self, loc, glob, names)

    def done(self, loc, glob, names):
        return self.head(loc, glob, names)


class SymEngine(Engine):
    unroll = 12

    def __init__(self, *a, **k):
        Engine.__init__(self, *a, **k)
        self.stubs = set()
        self.loopspecs = {}
        self.loopnames = set()
        self.choices = {}

    def loop_forked(self, key, n):
        return len(self.trace) > 0 and n > self.unroll * 400

    def loop_handler(self, key):
        for pat, mk in self.loopspecs.items():
            if pat in key:
                return mk(key)
        return None


def verify(con, seed=1, tier='quick', repo=None, deadline=None, world=None):
    """run one contract symbolically; returns a result dictionary"""
    t0 = time.time()
    eng = SymEngine(con.id, seed=seed, z3_ms=con.z3_ms, maxpaths=con.maxpaths, deadline=deadline)
    res = {'contract': con.name, 'func': con.func, 'status': 'ok', 'reason': '', 'obligations': [], 'failures': []}
    try:
        loader.FOR_KEYS.clear()
        loader.FOR_KEYS.update(con.forloops)
        w = world or loader.World(repo)

        def harness(e):
            w.unstub()
            e.choices = {}
            c = SymCtx(e, w, tier)
            e.loopspecs = {}
            e.symrange = None
            e.nosample = False
            try:
                n0 = len(e.obls)
                try:
                    con.fn(c)
                except (PathEnd, Unsupported):
                    raise
                except RecursionError:
                    raise Unsupported('recursion')
                except Exception as ex:
                    import traceback
                    o = Obl('no unexpected exception', 'exc')
                    o.status, o.by = REFUTED, 'exception'
                    o.info = ''.join(traceback.format_exception(type(ex), ex, ex.__traceback__))[-900:]
                    e._model(o)
                    e.record(o)
                for o in e.obls[n0:]:
                    if o.status != PROVED and o.model is not None:
                        o.model = dict(o.model)
                        o.model.update(e.choices)
            finally:
                w.unstub()
        eng.explore(harness)
    except Unsupported as u:
        res['status'], res['reason'] = 'undecided', 'unsupported: %s' % u
    except MemoryError:
        res['status'], res['reason'] = 'undecided', 'memory'
    except Exception as ex:       # load failure of the repository, engine defect
        import traceback
        res['status'], res['reason'] = 'undecided', 'engine: ' + ''.join(traceback.format_exception(type(ex), ex, ex.__traceback__))[-1500:]
    by = {}
    n = 0
    for o in eng.obls:
        n += 1
        k = (o.name, o.status, o.by)
        by[k] = by.get(k, 0) + 1
        if o.status != PROVED:
            res['failures'].append({'obligation': o.name, 'kind': o.kind, 'status': o.status, 'by': o.by, 'info': o.info,
                                    'model': {k2: (v if isinstance(v, (int, float, bool, str)) else str(v)) for k2, v in (o.model or {}).items()}
                                    if o.model is not None else None})
    res['n'] = n
    res['proved'] = sum(1 for o in eng.obls if o.status == PROVED)
    res['obligations'] = [{'name': k[0], 'status': k[1], 'by': k[2], 'count': v} for k, v in by.items()]
    res['paths'] = eng.paths
    res['completed'] = getattr(eng, 'completed', 0)
    res['queries'] = eng.queries
    res['solver_time'] = round(eng.solver_time, 3)
    res['trusted'] = sorted(eng.trusted)
    res['stubs'] = sorted(eng.stubs)
    res['loops'] = sorted(eng.loopnames)
    res['wall'] = round(time.time() - t0, 3)
    if res['status'] == 'ok':
        if res['n'] == 0 or res['completed'] == 0:
            res['status'], res['reason'] = 'undecided', 'vacuous: no obligation was generated'
        elif res['failures']:
            res['status'] = 'failed'
    return res
