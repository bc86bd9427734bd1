"""Run-time interpretation of the contracts, on the real code under the repository's own interpreter
(PyPy): bounded evidence, and the replayer for the verifier's counterexamples."""
import importlib
import json
import math
import os
import random
import signal
import sys
import time
import traceback
import warnings

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VC_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
import numpy as np          # noqa: E402
warnings.simplefilter('ignore')
np.seterr(all='ignore')


class Discard(Exception):
    pass


class TooLong(BaseException):
    pass


class Violation(Exception):
    def __init__(self, name, info):
        Exception.__init__(self, name, info)
        self.name, self.info = name, info


def _num(v):
    if isinstance(v, str):
        if '/' in v:
            a, b = v.split('/')
            return float(int(a)) / float(int(b)) if abs(int(b)) < 10 ** 300 else int(a) / int(b)
        return float(v)
    return v


class RunCtx(object):
    sym = False

    def __init__(self, seed, given=None, case=0):
        self.rng = random.Random(seed)
        self.given = given
        self.inputs = {}
        self.np = np
        self.checks = 0
        self.case = case
        self.tier = os.environ.get('VERIF_TIER', 'quick')

    # ------------------------------------------------------------ inputs
    def _get(self, name, gen):
        if self.given is not None and name in self.given:
            v = _num(self.given[name])
        else:
            v = gen()
        self.inputs[name] = v
        return v

    def real(self, name, lo=-3.0, hi=3.0):
        def gen():
            r = self.rng.random()
            if r < 0.2:
                k = self.rng.randint(int(math.ceil(lo)), int(math.floor(hi))) if math.ceil(lo) <= math.floor(hi) else None
                if k is not None:
                    return float(k)
            return self.rng.uniform(lo, hi)
        return float(self._get(name, gen))

    def pos(self, name, lo=0.4, hi=4.0):
        v = float(self._get(name, lambda: self.rng.uniform(lo, hi)))
        if not v > 0:
            raise Discard()
        return v

    def between(self, name, lo, hi, margin=None):
        m = (hi - lo) * 0.02 if margin is None else margin
        v = float(self._get(name, lambda: self.rng.uniform(lo + m, hi - m)))
        if not lo < v < hi:
            raise Discard()
        return v

    def int(self, name, lo=-5, hi=5):
        return int(round(self._get(name, lambda: self.rng.randint(lo, hi))))

    def vec(self, name, n, kind='f', lo=None, hi=None):
        f = self._el(kind, lo, hi)
        return np.array([f('%s[%d]' % (name, i)) for i in range(n)])

    def mat(self, name, n, m=None, kind='f', lo=None, hi=None):
        f = self._el(kind, lo, hi)
        return np.array([[f('%s[%d,%d]' % (name, i, j)) for j in range(m or n)] for i in range(n)])

    def symmat(self, name, n=3):
        A = np.zeros((n, n))
        for i in range(n):
            for j in range(i, n):
                A[i, j] = A[j, i] = self.real('%s[%d,%d]' % (name, i, j))
        return A

    def _el(self, kind, lo, hi):
        if kind == 'i':
            a, b = (-5 if lo is None else lo), (5 if hi is None else hi)
            return lambda nm: self.int(nm, a, b)
        a, b = (-3.0 if lo is None else lo), (3.0 if hi is None else hi)
        return lambda nm: self.real(nm, a, b)

    def unit(self, name, n=3):
        v = np.array([float(self._get('%s[%d]' % (name, i), lambda: self.rng.gauss(0, 1))) for i in range(n)])
        k = math.sqrt(float(v.dot(v)))
        if k < 1e-3:
            raise Discard()
        return v / k

    def rot(self, name):
        q = self.unit(name, 4)
        return self.quat(q)

    def quat(self, q):
        a, b, c, d = q
        return np.array([[a * a + b * b - c * c - d * d, 2 * (b * c - a * d), 2 * (b * d + a * c)],
                         [2 * (b * c + a * d), a * a - b * b + c * c - d * d, 2 * (c * d - a * b)],
                         [2 * (b * d - a * c), 2 * (c * d + a * b), a * a - b * b - c * c + d * d]])

    def choice(self, name, opts):
        if self.given is not None and name in self.given:
            i = int(self.given[name])
        else:
            i = self.rng.randrange(len(opts))
        self.inputs[name] = i
        return opts[i]

    # ------------------------------------------------------------ requirements
    def require(self, b):
        if not bool(np.all(b)):
            raise Discard()

    def nonzero(self, x, margin=5e-2):
        if not abs(float(x)) > margin:
            raise Discard()

    def positive(self, x, margin=1e-3):
        if not float(x) > margin:
            raise Discard()

    def nonneg(self, x):
        if not float(x) >= 0:
            raise Discard()

    # ------------------------------------------------------------ obligations
    def eq(self, name, a, b, tol=1e-6):
        self.checks += 1
        try:
            a = np.array(a, dtype=complex)
            b = np.array(b, dtype=complex)
        except (TypeError, ValueError):
            raise Violation(name, 'not comparable: %r and %r' % (a, b))
        if a.shape != b.shape:
            raise Violation(name, 'shapes %r and %r' % (a.shape, b.shape))
        if a.size == 0:
            return
        if not (np.isfinite(a).all() and np.isfinite(b).all()):
            raise Violation(name, 'non-finite value: %s vs %s' % (a.tolist(), b.tolist()))
        sc = 1.0 + float(np.max(np.abs(b)))
        d = float(np.max(np.abs(a - b)))
        if d > tol * sc:
            raise Violation(name, 'got %s, expected %s' % (np.real(a).tolist(), np.real(b).tolist()))

    def true(self, name, b):
        self.checks += 1
        if not bool(b):
            raise Violation(name, 'is false')

    def le(self, name, a, b, tol=1e-7):
        self.checks += 1
        a, b = np.array(a, dtype=float), np.array(b, dtype=float)
        if not np.all(a <= b + tol * (1 + np.abs(b))):
            raise Violation(name, '%s <= %s is false' % (a.tolist(), b.tolist()))

    def same(self, name, a, b):
        """identical as Python values"""
        self.checks += 1
        if a is b:
            return
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            if not np.array_equal(a, b):
                raise Violation(name, 'got %r, expected %r' % (a, b))
            return
        if a != b:
            raise Violation(name, 'got %r, expected %r' % (a, b))

    def raises(self, name, exc, fn):
        self.checks += 1
        try:
            r = fn()
        except exc:
            return
        except Exception as e:
            raise Violation(name, 'raised %s instead of %s' % (type(e).__name__, exc))
        raise Violation(name, 'no exception; returned %s' % (str(r)[:200],))

    def integral(self, name, a):
        a = np.array(a)
        self.checks += 1
        if not (np.issubdtype(a.dtype, np.integer) or np.array_equal(a, np.rint(np.array(a, dtype=float)))):
            raise Violation(name, 'not integral: %s' % a.tolist())

    # ------------------------------------------------------------ the code
    def mod(self, name):
        return importlib.import_module(name)

    def stub(self, qual, fn):
        pass

    def loop(self, pat, inv, havoc, back=None):
        pass

    def forloop(self, pat, inv, havoc):
        pass

    def lemma_inv(self, name, M, Mi):
        pass

    def spectral(self, entries):
        pass

    def close(self, a, b):
        a, b = np.array(a, dtype=float), np.array(b, dtype=float)
        return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-9 * (1 + np.max(np.abs(b), initial=0.0))))

    def opaque(self):
        pass

    def ghost(self, **k):
        pass

    def ite(self, c, a, b):
        return a if c else b

    def land(self, *a):
        return all(bool(x) for x in a)

    def lor(self, *a):
        return any(bool(x) for x in a)

    def implies(self, a, b):
        return (not bool(a)) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def sqrt(self, x):
        return math.sqrt(x)

    def cosd(self, x):
        return math.cos(math.radians(x))

    def sind(self, x):
        return math.sin(math.radians(x))

    def det(self, a):
        return float(np.linalg.det(np.array(a, dtype=float)))

    def inv(self, a):
        return np.linalg.inv(np.array(a, dtype=float))


def run_one(con, seed, given=None, case=0):
    c = RunCtx(seed, given, case)
    so = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    st, info = 'ok', None
    def late(sig, frame):
        raise TooLong()
    signal.signal(signal.SIGALRM, late)
    signal.alarm(int(con.evaltime))
    try:
        con.fn(c)
    except TooLong:
        st, info = 'violation', {'obligation': 'terminates', 'detail': 'no result after %d s' % con.evaltime}
    except Discard:
        st = 'discard'
    except Violation as v:
        st, info = 'violation', {'obligation': v.name, 'detail': str(v.info)[:1500]}
    except Exception as e:
        st, info = 'violation', {'obligation': 'no unexpected exception',
                                 'detail': ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]}
    finally:
        signal.alarm(0)
        sys.stdout.close()
        sys.stdout = so
    return st, info, c


def main():
    from vc import api
    req = json.load(sys.stdin)
    prop = req['prop']
    cons = {c.name: c for c in api.load(prop)}
    out = {'results': {}}
    if req['mode'] == 'check':
        t_end = time.time() + req.get('budget', 200)
        mult = req.get('mult', 1)
        part, parts = req.get('part', [0, 1])
        work = [c for c in cons.values() if c.run and (c.tier == 'quick' or req['tier'] == 'thorough')]
        for ci, con in enumerate(work):
            r = {'evaluated': 0, 'discarded': 0, 'checks': 0, 'violations': [], 'sample': None, 'time': 0, 'distinct': 0}
            t0 = time.time()
            seen = set()
            want = max(1, int(con.n * mult))
            tries = 0
            while r['evaluated'] < want and tries < want * 60 and time.time() < t_end:
                k = tries * parts + part
                if parts > 1 and want < parts and part >= want:
                    break
                tries += 1
                st, info, c = run_one(con, '%s/%s/%d' % (req['seed'], con.id, k), None, k)
                if st == 'discard':
                    r['discarded'] += 1
                    continue
                r['evaluated'] += 1
                seen.add(repr(sorted(c.inputs.items())))
                r['checks'] += c.checks
                if r['sample'] is None:
                    r['sample'] = {k2: str(v) for k2, v in list(c.inputs.items())[:20]}
                if st == 'violation':
                    info['inputs'] = {k2: (v if isinstance(v, (int, float)) else str(v)) for k2, v in c.inputs.items()}
                    info['seed'] = '%s/%s/%d' % (req['seed'], con.id, k)
                    info['case'] = k
                    r['violations'].append(info)
                    if len(r['violations']) >= 3:
                        break
                if not c.inputs:
                    break
            r['distinct'] = len(seen)
            r['time'] = time.time() - t0
            out['results'][con.name] = r
    else:
        # replay models
        for item in req['items']:
            con = cons[item['contract']]
            st, info, c = run_one(con, item.get('seed', 'replay'), item['model'], item.get('case', 0))
            out['results'][item['id']] = {'status': st, 'info': info,
                                          'inputs': {k: (v if isinstance(v, (int, float)) else str(v)) for k, v in c.inputs.items()}}
    json.dump(out, sys.stdout)


if __name__ == '__main__':
    main()
