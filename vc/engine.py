"""Path-exploring deductive engine.

A harness (contract) is executed repeatedly, once per feasible path of the real code, with symbolic
inputs.  Branches on symbolic conditions fork; obligations are discharged by, in order: ring
normalisation, equality elimination, z3 (two tactics), cvc5.  Numeric sample points that satisfy the
path condition are used (a) to skip feasibility queries, (b) to refute obligations quickly."""
import time
import math
import random
from fractions import Fraction
import z3
from . import terms as T
from .terms import Sym, SBool, Unsupported, ATOMS, const, lift, rel, land, lor, neg, tobool


class PathEnd(BaseException):
    """the current path is finished (infeasible, or a loop iteration has been checked)"""


class Discard(PathEnd):
    pass


class Restart(BaseException):
    """loop information changed: restart the exploration"""


class Refuted(BaseException):
    pass


PROVED, REFUTED, UNKNOWN = 'proved', 'refuted', 'unknown'
EPS = 1e-7


class Obl(object):
    __slots__ = ('name', 'status', 'by', 'time', 'info', 'model', 'kind')

    def __init__(self, name, kind):
        self.name, self.kind = name, kind
        self.status, self.by, self.time, self.info, self.model = UNKNOWN, '', 0.0, '', None


class Engine(object):
    hash_const = True

    def __init__(self, name, seed=1, z3_ms=4000, feas_ms=700, maxpaths=4000, deadline=None):
        self.name = name
        self.seed = seed
        self.z3_ms = z3_ms
        self.feas_ms = feas_ms
        self.maxpaths = maxpaths
        self.deadline = deadline
        self.obls = []
        self.paths = 0
        self.cut_paths = 0
        self.solver_time = 0.0
        self.queries = 0
        self.loopinfo = {}
        self.prefix = []
        self.groups = []        # samplers: (atom indices, fn(rng)->list of floats)
        self.notes = set()
        self.zc = {}
        self.trusted = set()

    # ------------------------------------------------------------------ exploration
    def explore(self, harness):
        T.ENGINE[0] = self
        work = [[]]
        self.obls = []
        self.paths = 0
        self.completed = 0
        try:
            while work:
                if self.paths >= self.maxpaths:
                    raise Unsupported('more than %d paths' % self.maxpaths)
                if self.deadline and time.time() > self.deadline:
                    raise Unsupported('time budget exhausted')
                self.prefix = work.pop()
                self.trace = []
                self.pending = []
                self.pc = []
                self.pckeys = set()
                self.bounds = {}
                self.samples = []
                self.scache = []
                self.groups = []
                self.rng = random.Random(self.seed)
                self.extra_samples = []
                self.ghost = {}
                self.loops = {}
                self.fresh_n = {}
                self.prov = {}
                self.opaque = False
                self.ghostfacts = []
                self.paths += 1
                try:
                    harness(self)
                    self.completed += 1
                except PathEnd:
                    self.cut_paths += 1
                except Restart:
                    work = [[]]
                    self.obls = []
                    self.paths = 0
                    self.completed = 0
                    continue
                work.extend(self.pending)
        finally:
            T.ENGINE[0] = None

    # ------------------------------------------------------------------ values
    def fresh(self, base, isint=False):
        """a fresh variable, named deterministically along the path"""
        k = self.fresh_n.get(base, 0)
        self.fresh_n[base] = k + 1
        v = T.var('%s~%d' % (base, k), isint)
        self._register([v], None)
        return v

    def input(self, name, isint=False, sampler=None):
        v = T.var(name, isint)
        self._register([v], sampler)
        return v

    def _register(self, vs, sampler):
        """sampler(rng) -> list of values for vs"""
        idx = [next(iter(v.num))[0][0] for v in vs]
        if sampler is None:
            isint = ATOMS[idx[0]].isint

            def sampler(rng, isint=isint, n=len(idx)):
                return [rng.randint(-6, 6) if isint else rng.choice([rng.uniform(-3, 3), float(rng.randint(-3, 3))])
                        for _ in range(n)]
        self.groups.append((idx, sampler))
        for s in self.samples:
            for a, v in zip(idx, sampler(self.rng)):
                s[a] = v
        self.scache = [dict() for _ in self.samples]

    NS = 48

    def start_samples(self):
        pass

    def _gen(self, n):
        out = []
        for _ in range(n):
            s = {}
            for idx, f in self.groups:
                for a, v in zip(idx, f(self.rng)):
                    s[a] = v
            out.append(s)
        return out

    def refill(self, want=12, tries=1500):
        """make sample points that satisfy the path condition"""
        have = len(self.samples)
        if have >= want or self.nosample:
            return
        n = 0
        while n < tries and len(self.samples) < want:
            s, = self._gen(1)
            n += 1
            c = {}
            if all(self.ev_bool(b, s, c) is True for b in self.pc):
                self.samples.append(s)
                self.scache.append(c)

    nosample = False

    # ------------------------------------------------------------------ numeric evaluation
    def ev_atom(self, a, s, c):
        v = c.get(a)
        if v is not None:
            return v
        if a in s:
            return float(s[a])
        A = ATOMS[a]
        k = A.kind
        if k == 'pi':
            v = math.pi
        elif k == 'var':
            raise KeyError(A.name)
        elif k == 'max':
            v = max(self.ev(x, s, c)[0] for x in A.extra)
        else:
            t, mag = self.ev(A.arg, s, c)
            if k == 'sqrt':
                if t < -EPS * (1 + mag):
                    raise KeyError('neg sqrt')
                v = math.sqrt(max(t, 0.0))
            elif k == 'cos':
                v = math.cos(t)
            elif k == 'sin':
                v = math.sin(t)
            elif k == 'acos':
                v = math.acos(max(-1.0, min(1.0, t)))
            elif k == 'abs':
                v = abs(t)
            elif k == 'def':
                v = t
            elif k in ('floor', 'rint'):
                f = math.floor(t)
                r = t - f
                if k == 'floor':
                    if r > 1 - 1e-7:
                        raise KeyError('floor boundary')
                    if r < 1e-7 and mag > 1e3:
                        raise KeyError('floor boundary')
                    v = float(f)
                else:
                    if abs(r - 0.5) < 1e-7:
                        raise KeyError('rint boundary')
                    v = float(math.floor(t + 0.5))
            else:
                raise KeyError(k)
        c[a] = v
        return v

    def ev_poly(self, p, s, c):
        v = 0.0
        mag = 0.0
        for m, q in p.items():
            t = float(q)
            for a, e in m:
                t *= self.ev_atom(a, s, c) ** e
            v += t
            mag += abs(t)
        return v, mag

    def ev(self, x, s, c):
        v, mag = self.ev_poly(x.num, s, c)
        for f, e in x.den:
            d, dm = self.ev_poly(f.p, s, c)
            if abs(d) <= 1e-9 * (dm + 1e-3):
                raise KeyError('division')
            v /= d ** e
            mag /= abs(d) ** e
        return v, mag

    def ev_bool(self, b, s, c):
        """True / False / None (too close to call)"""
        try:
            return self._evb(b, s, c)
        except (KeyError, OverflowError, ZeroDivisionError):
            return None

    def _evb(self, b, s, c):
        k = b.k
        if k == 'const':
            return b.a
        if k == 'rel':
            op, x = b.a
            v, mag = self.ev(x, s, c)
            tol = 1e-9 * (1 + mag)
            if op == '==':
                return True if abs(v) <= tol else (False if abs(v) > EPS * (1 + mag) else None)
            if op == '!=':
                return False if abs(v) <= tol else (True if abs(v) > EPS * (1 + mag) else None)
            if abs(v) <= tol:
                return self._exact(op, x, s)
            return v < 0
        if k == 'and':
            r = True
            for y in b.a:
                z = self._evb(y, s, c)
                if z is False:
                    return False
                if z is None:
                    r = None
            return r
        if k == 'or':
            r = False
            for y in b.a:
                z = self._evb(y, s, c)
                if z is True:
                    return True
                if z is None:
                    r = None
            return r
        if k in ('bv', 'nbv'):
            v = s.get(b.a)
            if v is None:
                return None
            return v if k == 'bv' else (not v)
        return None

    def _exact(self, op, x, s):
        """exact rational evaluation when only plain variables with exact sample values occur"""
        try:
            def ep(p):
                v = 0
                for m, q in p.items():
                    t = Fraction(q)
                    for a, e in m:
                        if a not in s:
                            raise KeyError
                        t *= Fraction(s[a]) ** e
                    v += t
                return v
            v = ep(x.num)
            for f, e in x.den:
                v /= ep(f.p) ** e
        except (KeyError, ZeroDivisionError):
            return None
        return v <= 0 if op == '<=' else v < 0

    # ------------------------------------------------------------------ assumptions and branching
    def assume(self, b, check=True):
        b = tobool(b)
        if b.k == 'const':
            if not b.a:
                raise Discard()
            return
        self._push(b)
        if check and not self.samples and not self.nosample:
            self.refill()
            if not self.samples and self.pc_unsat():
                raise Discard()

    def _push(self, b):
        if b.k == 'and':
            for x in b.a:
                self._push1(x)
        else:
            self._push1(b)

    def _push1(self, b):
        k = b.key()
        if k in self.pckeys:
            return
        self.pckeys.add(k)
        self.pc.append(b)
        if b.k == 'rel' and b.a[0] != '!=':
            d = self._affine(b.a[1])
            if d:
                q, c, k0 = d
                v = -k0 / c
                B = self.bounds.setdefault(q, [None, False, None, False])
                st = b.a[0] == '<'
                if b.a[0] == '==' or c > 0:
                    if B[2] is None or v < B[2] or (v == B[2] and st):
                        B[2], B[3] = v, st
                if b.a[0] == '==' or c < 0:
                    if B[0] is None or v > B[0] or (v == B[0] and st):
                        B[0], B[1] = v, st
        keep = [i for i, s in enumerate(self.samples) if self.ev_bool(b, s, self.scache[i]) is True]
        self.samples = [self.samples[i] for i in keep]
        self.scache = [self.scache[i] for i in keep]

    def pc_unsat(self):
        return self.check_sat(self.pc, [], self.feas_ms) == 'unsat'

    def choice(self, n, tag=''):
        """angelic/demonic finite choice: explores all n alternatives"""
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            v = 0
            for k in range(n - 1, 0, -1):
                self.pending.append(self.trace + [k])
        self.trace.append(v)
        return v

    def known(self, b):
        if b.k == 'const':
            return b.a
        k = b.key()
        if k in self.pckeys:
            return True
        if neg(b).key() in self.pckeys:
            return False
        if b.k == 'rel' and b.a[1].den and b.a[0] in ('<', '<='):
            # sign of every denominator factor known: decide on the numerator
            sg = 1
            for f, e in b.a[1].den:
                if e % 2 == 0:
                    continue
                F = Sym(f.p, (), 'f')
                if self.known(rel('<', -F)):
                    continue
                if self.known(rel('<', F)):
                    sg = -sg
                else:
                    return None
            num = Sym(b.a[1].num, (), b.a[1].dt)
            r = rel(b.a[0], num if sg > 0 else -num)
            return r.a if r.k == 'const' else self.known(r)
        if b.k == 'rel' and b.a[0] in ('==', '!=') and len(b.a[1].num) == 1:
            (m, _), = b.a[1].num.items()
            if len(m) > 1 or (m and m[0][1] > 1):
                if all(T._definite(T.of_atom(ATOMS[a])) in ('pos', 'neg') or self.known(rel('!=', T.of_atom(ATOMS[a]))) is True or
                       self.known(rel('<', -T.of_atom(ATOMS[a]))) is True for a, _ in m):
                    return b.a[0] == '!='
        if b.k == 'rel':
            d = self._affine(b.a[1])
            B = self.bounds.get(d[0]) if d else None
            if B:
                q, c, k0 = d
                lo, ls, hi, hs = B
                if c < 0:
                    lo, ls, hi, hs = hi, hs, lo, ls
                # value c*q + k0 lies between c*lo + k0 and c*hi + k0
                u = None if hi is None else c * hi + k0
                l = None if lo is None else c * lo + k0
                op = b.a[0]
                pos = l is not None and (l > 0 or (l == 0 and ls))
                ngv = u is not None and (u < 0 or (u == 0 and hs))
                if op == '<=':
                    return True if u is not None and u <= 0 else False if pos else None
                if op == '<':
                    return True if ngv else False if l is not None and l >= 0 else None
                if op == '==':
                    return False if pos or ngv else None
                return True if pos or ngv else None
        return None

    @staticmethod
    def _affine(t):
        """t = c*q + k with q monic and without constant term: (key of q, c, k)"""
        if t.den or len(t.num) > 60:
            return None
        k0 = t.num.get((), 0)
        ms = [m for m in t.num if m != ()]
        if not ms:
            return None
        c = Fraction(t.num[min(ms)])
        return frozenset((m, Fraction(t.num[m]) / c) for m in ms), c, Fraction(k0)

    def decide(self, b):
        if b.k == 'const':
            return b.a
        v = self.known(b)
        if v is not None:
            return v
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.trace.append(v)
            self._push(b if v else neg(b))
            return v
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')
        if len(self.samples) < 4:
            self.refill()
        hasT = hasF = False
        for j, s in enumerate(self.samples):
            r = self.ev_bool(b, s, self.scache[j])
            if r is True:
                hasT = True
            elif r is False:
                hasF = True
            if hasT and hasF:
                break
        nb = neg(b)
        if not hasT:
            r = ''
            if b.k == 'and' and len(b.a) > 1:
                for x in b.a:
                    if not any(self.ev_bool(x, s, self.scache[j]) for j, s in enumerate(self.samples)) and \
                            self.check_sat(self.pc, [x], min(500, self.feas_ms)) == 'unsat':
                        r = 'unsat'
                        break
            r = r or self.check_sat(self.pc, [b], self.feas_ms)
            if r == 'unsat':
                if not hasF and self.check_sat(self.pc, [nb], self.feas_ms) == 'unsat':
                    raise Discard()
                self.trace.append(False)
                self._push(nb)
                return False
        if not hasF:
            r = self.check_sat(self.pc, [nb], self.feas_ms)
            if r == 'unsat':
                self.trace.append(True)
                self._push(b)
                return True
        self.pending.append(self.trace + [False])
        self.trace.append(True)
        self._push(b)
        return True

    def sign_of(self, t, cheap=False):
        """1, -1 or 0 if the sign is certain, else None"""
        if t.isconst():
            v = t.value()
            return (v > 0) - (v < 0)
        d = T._definite(t)
        if d == 'pos':
            return 1
        if d == 'neg':
            return -1
        if d == 'nonneg' and cheap is not None:
            return 1         # >= 0
        if d == 'nonpos':
            return -1
        le = rel('<=', -t)
        if le.key() in self.pckeys or rel('<', -t).key() in self.pckeys:
            return 1
        ge = rel('<=', t)
        if ge.key() in self.pckeys or rel('<', t).key() in self.pckeys:
            return -1
        sg = set()
        for j, s in enumerate(self.samples):
            try:
                v, mag = self.ev(t, s, self.scache[j])
            except (KeyError, OverflowError):
                continue
            if abs(v) > EPS * (1 + mag):
                sg.add(v > 0)
        if len(sg) == 2:
            return None
        if True in sg or not sg:
            if self.entails(le, 300):
                return 1
        if False in sg or not sg:
            if self.entails(ge, 300):
                return -1
        return None

    def entails(self, b, ms=None):
        if b.k == 'const':
            return b.a
        if self.known(b):
            return True
        if b.k == 'and':
            return all(self.entails(x, ms) for x in b.a)
        return self.check_sat(self.pc, [neg(b)], ms or self.feas_ms) == 'unsat'

    # ------------------------------------------------------------------ well-definedness
    def require_nonzero(self, t):
        if t.isconst():
            if t.value() == 0:
                raise ZeroDivisionError('division by zero')
            return
        b = rel('!=', t)
        if b.k == 'const' or self.known(b):
            if b.k == 'const' and not b.a:
                raise ZeroDivisionError('division by zero')
            return
        if self.known(rel('<', t)) or self.known(rel('<', -t)):
            return
        d = T._definite(t)
        if d in ('pos', 'neg'):
            return
        self.prove('well-defined: divisor != 0', b, kind='wd')
        self._push(b)

    def require_nonneg(self, t):
        b = rel('<=', -t)
        if b.k == 'const' and b.a:
            return
        if self.known(b) or self.known(rel('<', -t)):
            return
        self.prove('well-defined: sqrt argument >= 0', b, kind='wd')
        if b.k == 'const':
            raise PathEnd()
        self._push(b)

    # ------------------------------------------------------------------ proving
    def record(self, o):
        self.obls.append(o)
        return o.status

    def prove(self, name, goal, kind='post', assume_after=False):
        """generate and discharge one obligation under the current path condition"""
        goal = tobool(goal)
        if goal.k == 'and':
            st = PROVED
            for x in goal.a:
                s = self.prove(name, x, kind)
                if s != PROVED and st != REFUTED:
                    st = s
            return st
        o = Obl(name, kind)
        t0 = time.time()
        self._discharge(o, goal)
        o.time = time.time() - t0
        if o.status != PROVED:
            o.info = (o.info + ' goal: ' + repr(goal))[:1200]
        return self.record(o)

    def _discharge(self, o, goal):
        if goal.k == 'const':
            if goal.a:
                o.status, o.by = PROVED, 'ring'
                return
            o.status, o.by = REFUTED, 'ring'
            self._model(o)
            return
        if self.known(goal):
            o.status, o.by = PROVED, 'hypothesis'
            return
        if goal.k == 'rel':
            if goal.a[0] == '<=' and (self.known(rel('<', goal.a[1])) or self.known(rel('==', goal.a[1]))):
                o.status, o.by = PROVED, 'hypothesis'
                return
        # numeric refutation
        if len(self.samples) < 4:
            self.refill()
        for j, s in enumerate(self.samples):
            if self.ev_bool(goal, s, self.scache[j]) is False:
                o.status, o.by = REFUTED, 'sample'
                o.model = self._names(s)
                return
        if goal.k == 'rel' and any(ATOMS[a].kind == 'def' for a in goal.a[1].atoms()):
            g2 = rel(goal.a[0], T.undef(goal.a[1]))
            if g2.k == 'const' and g2.a:
                o.status, o.by = PROVED, 'ring'
                return
        # equalities in the path condition
        g2 = self._eliminate(goal)
        if g2 is not None and g2.k == 'const' and g2.a:
            o.status, o.by = PROVED, 'ring+equalities'
            return
        r = self.check_sat(self.pc, [neg(goal)], self.z3_ms, want_model=True)
        if r == 'unsat':
            o.status, o.by = PROVED, self.last_by
        elif r == 'sat':
            o.status, o.by = REFUTED, self.last_by
            o.model = self.last_model
        else:
            o.status, o.by = UNKNOWN, r

    def _names(self, s):
        return {(ATOMS[a].name if isinstance(a, int) else str(a)): s[a] for a in s}

    def _model(self, o):
        """a model of the path condition alone"""
        if not self.samples:
            self.refill()
        if self.samples:
            o.model = self._names(self.samples[0])
            return
        r = self.check_sat(self.pc, [], self.z3_ms, want_model=True)
        if r == 'unsat':
            o.status, o.by = PROVED, 'infeasible path'
        elif r == 'sat':
            o.model = self.last_model
        else:
            o.status, o.by = UNKNOWN, 'path feasibility unknown'

    def _eliminate(self, goal):
        """substitute equalities of the path condition that are linear in an atom"""
        if goal.k != 'rel' or goal.a[0] not in ('==', '<=', '<'):
            return None
        sub = self.linear_subst()
        if not sub:
            return None
        try:
            x = subst(goal.a[1], sub)
        except Unsupported:
            return None
        return rel(goal.a[0], x)

    def linear_subst(self):
        eqs = [b.a[1] for b in self.pc if b.k == 'rel' and b.a[0] == '==']
        sub = {}
        for x in eqs:
            try:
                x = subst(x, sub) if sub else x
            except Unsupported:
                continue
            if x.isconst() or len(x.num) > 60:
                continue
            best = None
            for m, c in x.num.items():
                if len(m) == 1 and m[0][1] == 1:
                    a = m[0][0]
                    if ATOMS[a].kind not in ('var', 'floor', 'rint', 'cos', 'sin'):
                        continue
                    if sum(1 for n in x.num if any(b == a for b, _ in n)) == 1:
                        if best is None or a > best[0]:
                            best = (a, c)
            if best is None:
                continue
            a, c = best
            rest = {m: v for m, v in x.num.items() if m != ((a, 1),)}
            e = Sym(rest, (), 'f') * const(Fraction(-1) / c, 'f')
            sub = {k: subst(v, {a: e}) for k, v in sub.items()}
            sub[a] = e
        return sub

    # ------------------------------------------------------------------ SMT
    def z_atom(self, a):
        A = ATOMS[a]
        if A.z is None:
            A.z = z3.Int('%s!%d' % (A.name, a)) if A.isint else z3.Real('%s!%d' % (A.name, a))
        return A.z

    def z_poly(self, p):
        ts = []
        for m, c in p.items():
            c = Fraction(c)
            f = [z3.RealVal(str(c))] if c != 1 or not m else []
            for a, e in m:
                z = self.z_atom(a)
                if z.is_int():
                    z = z3.ToReal(z)
                f.extend([z] * e)
            t = f[0]
            for g in f[1:]:
                t = t * g
            ts.append(t)
        if not ts:
            return z3.RealVal(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def z_allint(self, x):
        return not x.den and all(Fraction(c).denominator == 1 and all(ATOMS[a].isint for a, _ in m)
                                 for m, c in x.num.items())

    def z_ipoly(self, p):
        ts = []
        for m, c in p.items():
            f = [z3.IntVal(int(c))] if c != 1 or not m else []
            for a, e in m:
                f.extend([self.z_atom(a)] * e)
            t = f[0]
            for g in f[1:]:
                t = t * g
            ts.append(t)
        if not ts:
            return z3.IntVal(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def z_bool(self, b, used):
        k = b.k
        if k == 'const':
            return z3.BoolVal(b.a)
        if k == 'rel':
            op, x = b.a
            used |= x.atoms()
            for f, e in x.den:
                used.add(('den', f))
            if self.z_allint(x):
                n, zero = self.z_ipoly(x.num), z3.IntVal(0)
            else:
                n, zero = self.z_poly(x.num), z3.RealVal(0)
            if op == '==':
                return n == zero
            if op == '!=':
                return n != zero
            for f, e in x.den:
                if e % 2:
                    n = n * self.z_poly(f.p)
            return n <= zero if op == '<=' else n < zero
        if k == 'and':
            return z3.And([self.z_bool(y, used) for y in b.a])
        if k == 'or':
            return z3.Or([self.z_bool(y, used) for y in b.a])
        if k == 'bv':
            return z3.Bool(b.a)
        if k == 'nbv':
            return z3.Not(z3.Bool(b.a))
        raise Unsupported('z3 ' + k)

    def z_defs(self, used, opaque=False):
        """definitional constraints of the atoms in use (closed under arguments)"""
        out = []
        done = set()
        todo = list(used)
        exact = True
        while todo:
            a = todo.pop()
            if a in done:
                continue
            done.add(a)
            if isinstance(a, tuple):
                f = a[1]
                out.append(self.z_poly(f.p) != 0)
                todo.extend(T.patoms(f.p))
                continue
            A = ATOMS[a]
            z = self.z_atom(a)
            zr = z3.ToReal(z) if z.is_int() else z
            if A.lo == 'pos':
                out.append(z > 0)
            elif A.lo == 'nonneg':
                out.append(z >= 0)
            k = A.kind
            if k == 'var':
                if A.sq is not None:
                    todo.extend(A.sq.atoms())
                    out.append(zr * zr == self.z_poly(A.sq.num))
                continue
            if k == 'pi':
                out.append(z3.And(z > z3.RealVal('3.14159'), z < z3.RealVal('3.1416')))
                exact = False
                continue
            if k == 'max':
                vs = []
                for x in A.extra:
                    u = set()
                    t = self.z_frac(x, u)
                    todo.extend(u)
                    vs.append(t)
                out.append(z3.And([zr >= v for v in vs]))
                out.append(z3.Or([zr == v for v in vs]))
                continue
            u = set()
            if k == 'def':
                if not opaque:
                    if z.is_int() and self.z_allint(A.arg):
                        out.append(z == self.z_ipoly(A.arg.num))
                    else:
                        out.append(zr == self.z_poly(A.arg.num))
                    u |= A.arg.atoms()
            elif k == 'sqrt':
                out.append(z >= 0)
                n = self.z_poly(A.arg.num)
                if A.arg.den:
                    d = self.z_poly(T.den_poly(A.arg.den))
                    out.append(z * z * d == n)
                    for f, e in A.arg.den:
                        u.add(('den', f))
                else:
                    out.append(z * z == n)
                u |= A.arg.atoms()
            elif k in ('cos', 'sin'):
                exact = False
                o = self.z_atom(A.extra.i)
                out.append(z * z + o * o == 1)
                todo.append(A.extra.i)
                if not A.arg.den and all(all(ATOMS[b].kind == 'pi' for b, _ in m) and len(m) < 2 for m in A.arg.num):
                    # rational multiple of pi: numeric enclosure
                    v = math.cos(self.ev(A.arg, {}, {})[0]) if k == 'cos' else math.sin(self.ev(A.arg, {}, {})[0])
                    out.append(z3.And(z > z3.RealVal(str(Fraction(v - 1e-9))), z < z3.RealVal(str(Fraction(v + 1e-9)))))
            elif k == 'acos':
                exact = False
            elif k == 'abs':
                t = self.z_frac(A.arg, u)
                out.append(z3.And(zr >= 0, z3.Or(zr == t, zr == -t)))
            elif k in ('floor', 'rint'):
                n = self.z_poly(A.arg.num)
                u |= A.arg.atoms()
                if k == 'rint':
                    exact = False
                half = z3.RealVal('1/2')
                if not A.arg.den:
                    if k == 'floor':
                        out.append(z3.And(zr <= n, n < zr + 1))
                    else:
                        out.append(z3.And(zr - half <= n, n <= zr + half))
                else:
                    d = self.z_poly(T.den_poly(A.arg.den))
                    for f, e in A.arg.den:
                        u.add(('den', f))
                    if k == 'floor':
                        out.append(z3.Implies(d > 0, z3.And(zr * d <= n, n < zr * d + d)))
                        out.append(z3.Implies(d < 0, z3.And(zr * d >= n, n > zr * d + d)))
                    else:
                        out.append(z3.Implies(d > 0, z3.And(zr * d - half * d <= n, n <= zr * d + half * d)))
                        out.append(z3.Implies(d < 0, z3.And(zr * d - half * d >= n, n >= zr * d + half * d)))
            todo.extend(u)
        return out, exact

    def z_frac(self, x, u):
        n = self.z_poly(x.num)
        u |= x.atoms()
        if x.den:
            for f, e in x.den:
                u.add(('den', f))
            return n / self.z_poly(T.den_poly(x.den))
        return n

    def relevant(self, pc, goals, opaque=False):
        """connected component of the hypotheses around the goal (dropping hypotheses is sound)"""
        if not goals:
            return pc
        def at(b, s):
            if b.k == 'rel':
                s |= b.a[1].atoms()
            elif b.k in ('and', 'or'):
                for y in b.a:
                    at(y, s)
            elif b.k in ('bv', 'nbv'):
                s.add(b.a)
            return s

        def close(s):
            todo = list(s)
            while todo:
                a = todo.pop()
                if isinstance(a, int):
                    A = ATOMS[a]
                    n = set()
                    if A.arg is not None and not (opaque and A.kind == 'def'):
                        n |= A.arg.atoms()
                    if A.kind == 'max':
                        for x in A.extra:
                            n |= x.atoms()
                    if A.sq is not None:
                        n |= A.sq.atoms()
                    for b in n - s:
                        s.add(b)
                        todo.append(b)
            return s
        live = set()
        for g in goals:
            at(g, live)
        close(live)
        rest = [(b, close(at(b, set()))) for b in pc]
        out = []
        ch = True
        while ch:
            ch = False
            r2 = []
            for b, s in rest:
                if s & live or not s:
                    out.append(b)
                    live |= s
                    ch = True
                else:
                    r2.append((b, s))
            rest = r2
        return out

    def check_sat(self, pc, goals, ms, want_model=False):
        """'sat' / 'unsat' / 'unknown: ...' of pc and goals"""
        self.queries += 1
        t0 = time.time()
        if self.opaque and goals:
            # dropping hypotheses and definitions is sound for 'unsat'
            try:
                used = set()
                fs = [self.z_bool(b, used) for b in self.relevant(pc, goals, True) + list(goals)]
                ds, _ = self.z_defs(used, True)
                s = z3.Solver()
                s.set('timeout', int(min(ms, 1500)))
                s.add(fs)
                s.add(ds)
                if s.check() == z3.unsat:
                    self.last_by = 'z3'
                    self.solver_time += time.time() - t0
                    return 'unsat'
            except (Unsupported, z3.Z3Exception):
                pass
        if not want_model:
            pc = self.relevant(pc, goals)
        used = set()
        try:
            fs = [self.z_bool(b, used) for b in pc + list(goals)]
            ds, exact = self.z_defs(used)
        except Unsupported as e:
            return 'unknown: %s' % e
        self.last_model = None
        res = 'unknown'
        anyint = any(isinstance(a, int) and ATOMS[a].isint for a in used)
        tactics = ['default'] if anyint else ['qfnra', 'default']
        try:
            for tac in tactics:
                s = z3.Solver() if tac == 'default' else z3.Tactic('qfnra-nlsat').solver()
                s.set('timeout', int(ms))
                s.add(fs)
                s.add(ds)
                r = s.check()
                if r == z3.unsat:
                    res = 'unsat'
                    self.last_by = 'z3'
                    break
                if r == z3.sat:
                    res = 'sat'
                    self.last_by = 'z3' if exact else 'z3 (approximate atoms)'
                    if want_model:
                        m = s.model()
                        d = {}
                        for a in used:
                            if isinstance(a, int):
                                v = m.eval(self.z_atom(a), model_completion=True)
                                d[ATOMS[a].name] = _zval(v)
                        for b in pc:
                            for x in ([b] if b.k in ('bv', 'nbv') else []):
                                d[x.a] = (x.k == 'bv')
                        self.last_model = d
                    break
        except z3.Z3Exception as e:
            res = 'unknown: %s' % e
        if res == 'unknown' and want_model:
            r = self.cvc5(fs + ds, ms)
            if r == 'unsat':
                res = 'unsat'
                self.last_by = 'cvc5'
        self.solver_time += time.time() - t0
        return res

    def cvc5(self, fs, ms):
        import subprocess
        s = z3.Solver()
        s.add(fs)
        txt = '(set-logic ALL)\n' + s.to_smt2().replace('(set-logic ALL)', '')
        try:
            p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % int(ms)], input=txt, capture_output=True,
                               text=True, timeout=ms / 1000.0 + 5)
            out = p.stdout.strip().splitlines()
            return out[0] if out and out[0] in ('sat', 'unsat') else 'unknown'
        except Exception:
            return 'unknown'


def _zval(v):
    try:
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return str(Fraction(v.numerator_as_long(), v.denominator_as_long()))
        if z3.is_algebraic_value(v):
            a = v.approx(20)
            return str(Fraction(a.numerator_as_long(), a.denominator_as_long()))
        if z3.is_true(v) or z3.is_false(v):
            return z3.is_true(v)
    except Exception:
        pass
    return str(v)


def subst(x, sub):
    """substitute atoms (index -> Sym) in a Sym, also inside defined atoms"""
    memo = {}

    def sa(a):
        if a in sub:
            return sub[a]
        r = memo.get(a)
        if r is not None:
            return r
        A = ATOMS[a]
        r = T.of_atom(A)
        if A.arg is not None and A.arg.atoms() & keys(a):
            t = subst(A.arg, sub)
            if not t.same(A.arg):
                f = {'sqrt': T.sqrt_, 'abs': T.abs_, 'floor': T.floor_, 'rint': T.rint_, 'cos': T.cos_, 'sin': T.sin_, 'def': T.def_}.get(A.kind)
                if f is None:
                    raise Unsupported('substitution under ' + A.kind)
                r = f(t)
        memo[a] = r
        return r

    def keys(a):
        return deps

    deps = set(sub)
    # atoms whose definition depends on substituted atoms
    ch = True
    while ch:
        ch = False
        for A in ATOMS:
            if A.i not in deps and A.arg is not None and A.arg.atoms() & deps:
                deps.add(A.i)
                ch = True

    def sp(p):
        if not (T.patoms(p) & deps):
            return Sym(p, (), 'f')
        tot = const(0, 'f')
        for m, c in p.items():
            t = const(c, 'f')
            rest = []
            for a, e in m:
                if a in deps:
                    b = sa(a)
                    for _ in range(e):
                        t = t * b
                else:
                    rest.append((a, e))
            if rest:
                t = t * Sym({tuple(rest): 1}, (), 'f')
            tot = tot + t
        return tot
    r = sp(x.num)
    for f, e in x.den:
        d = sp(f.p)
        if d.isconst() and d.value() == 0:
            raise Unsupported('zero denominator after substitution')
        for _ in range(e):
            r = r * d.recip()
    return Sym(r.num, r.den, x.dt)
