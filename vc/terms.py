"""Exact symbolic scalars: fractions of multivariate polynomials with rational coefficients over
atoms (variables and defined atoms such as sqrt(t), cos(t), floor(t)), and boolean formulas over them.

Numbers are mathematical: a float numeral denotes its decimal value, int and float arithmetic is
exact.  `dt` ('i' or 'f') records only which numpy/Python kind the value would have."""
from fractions import Fraction
import math


class Unsupported(BaseException):
    """construct outside the verifier's reach -> obligation undecided (never a violation)"""


ENGINE = [None]          # the active engine (vc.engine.Engine)


def eng():
    e = ENGINE[0]
    if e is None:
        raise Unsupported('symbolic branch outside an engine run')
    return e


# ----------------------------------------------------------------------------------------- atoms
class Atom(object):
    __slots__ = ('i', 'name', 'kind', 'arg', 'isint', 'sq', 'lo', 'z', 'sampler', 'extra', 'lname')

    def __init__(self, i, name, kind, arg, isint):
        self.i, self.name, self.kind, self.arg, self.isint = i, name, kind, arg, isint
        self.sq = None      # Sym: the value of atom**2 (rewrite rule), if any
        self.lo = None
        self.z = None
        self.sampler = None
        self.extra = None
        self.lname = None

    def __repr__(self):
        return self.name


ATOMS = []
_BYKEY = {}


def reset_atoms():
    del ATOMS[:]
    _BYKEY.clear()
    _CONSTS.clear()
    Factor.table.clear()


def atom(key, name, kind='var', arg=None, isint=False):
    a = _BYKEY.get(key)
    if a is None:
        a = Atom(len(ATOMS), name, kind, arg, isint)
        ATOMS.append(a)
        _BYKEY[key] = a
    return a


# ------------------------------------------------------------------------------------ polynomials
def _q(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + k * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = _q(v)
    return r


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    r = []
    i = j = 0
    lm, ln = len(m), len(n)
    while i < lm and j < ln:
        a, e = m[i]
        b, f = n[j]
        if a == b:
            r.append((a, e + f))
            i += 1
            j += 1
        elif a < b:
            r.append(m[i])
            i += 1
        else:
            r.append(n[j])
            j += 1
    r.extend(m[i:])
    r.extend(n[j:])
    return tuple(r)


MAXTERMS = [400000]


def pmul(p, q):
    if len(p) > len(q):
        p, q = q, p
    if len(p) * len(q) > MAXTERMS[0] * 20:
        raise Unsupported('polynomial too large')
    if len(p) == 1:
        (m, c), = p.items()
        if not m:
            return p_scale(q, c)
        return {mmul(m, n): _q(c * d) for n, d in q.items()}
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v == 0:
                r.pop(k, None)
            else:
                r[k] = v
    for k in r:
        r[k] = _q(r[k])
    return r


def p_scale(p, c):
    if c == 1:
        return p
    if c == 0:
        return {}
    return {m: _q(v * c) for m, v in p.items()}


ONE = {(): 1}


def ppow(p, n):
    r = ONE
    for _ in range(n):
        r = pmul(r, p)
    return r


def _mkey(m):
    # graded lexicographic-like total order on monomials
    return (sum(e for _, e in m), m)


def _lexkey(m):
    return tuple((-a, e) for a, e in m)


def mdiv(m, n):
    """m / n or None"""
    d = dict(m)
    for a, e in n:
        k = d.get(a, 0) - e
        if k < 0:
            return None
        if k == 0:
            d.pop(a)
        else:
            d[a] = k
    return tuple(sorted(d.items()))


def _lm(p):
    # leading monomial in lex order on atom index (smaller index = larger variable)
    def key(m):
        return tuple((-a, e) for a, e in m) + ((-10 ** 9, 0),)
    return max(p, key=key)


def pdivexact(p, f, limit=6000):
    """p / f if exact else None"""
    if len(f) == 1:
        (fm, fc), = f.items()
        r = {}
        for m, c in p.items():
            k = mdiv(m, fm)
            if k is None:
                return None
            r[k] = _q(Fraction(c) / fc)
        return r
    if len(p) > limit or len(p) < 2:
        return None
    fm = _lm(f)
    fc = f[fm]
    rem = dict(p)
    quo = {}
    steps = 0
    while rem:
        m = _lm(rem)
        k = mdiv(m, fm)
        if k is None:
            return None
        c = _q(Fraction(rem[m]) / fc)
        quo[k] = c
        for n, d in f.items():
            mm = mmul(k, n)
            v = rem.get(mm, 0) - c * d
            if v == 0:
                rem.pop(mm, None)
            else:
                rem[mm] = _q(v)
        steps += 1
        if steps > 3000 or len(rem) > 3 * limit:
            return None
    return quo


def pkey(p):
    return frozenset(p.items())


def patoms(p):
    s = set()
    for m in p:
        for a, _ in m:
            s.add(a)
    return s


class Factor(object):
    """a normalised non-constant denominator factor"""
    __slots__ = ('p', 'k', 'h')
    table = {}

    @staticmethod
    def make(p):
        k = pkey(p)
        f = Factor.table.get(k)
        if f is None:
            f = Factor()
            f.p, f.k, f.h = p, k, hash(k)
            Factor.table[k] = f
        return f

    def __hash__(self):
        return self.h


def normalise_factor(p):
    """p = c * f with f primitive, positive leading coefficient; returns c, f"""
    lc = p[_lm(p)]
    den = 1
    for c in p.values():
        den = den * Fraction(c).denominator // math.gcd(den, Fraction(c).denominator)
    g = 0
    for c in p.values():
        g = math.gcd(g, abs(int(c * den)))
    c = Fraction(g, den)
    if lc < 0:
        c = -c
    return _q(c), p_scale(p, 1 / c if c != 1 else 1) if c != 1 else p


# ------------------------------------------------------------------------------------------- Sym
def to_frac(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return _q(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('inf/nan constant')
        return _q(Fraction(repr(x)))
    raise TypeError(type(x))


_CONSTS = {}


def const(x, dt=None):
    if dt is None:
        dt = 'i' if isinstance(x, int) else 'f'
    x = to_frac(x)
    k = (x, dt)
    s = _CONSTS.get(k)
    if s is None:
        s = Sym({(): x} if x != 0 else {}, (), dt)
        _CONSTS[k] = s
    return s


def is_num(x):
    import numpy as np
    return isinstance(x, (int, float, Fraction, Sym)) or isinstance(x, (np.integer, np.floating))


def lift(x):
    if isinstance(x, Sym):
        return x
    if isinstance(x, bool):
        return const(int(x), 'i')
    if isinstance(x, int):
        return const(x, 'i')
    if isinstance(x, (float, Fraction)):
        return const(x, 'f')
    if isinstance(x, SBool):
        return ite(x, const(1, 'i'), const(0, 'i'))
    import numpy as np
    if isinstance(x, np.bool_):
        return const(int(x), 'i')
    if isinstance(x, np.integer):
        return const(int(x), 'i')
    if isinstance(x, np.floating):
        return const(float(x), 'f')
    if isinstance(x, complex) and x.imag == 0:
        return const(x.real, 'f')
    return None


def _mk(num, den, dt):
    """normalise: apply square rules, cancel denominator factors"""
    # square rules
    need = None
    for m in num:
        for a, e in m:
            if e >= 2 and ATOMS[a].sq is not None:
                need = a
                break
        if need is not None:
            break
    if need is not None:
        parts = {}
        for m, c in num.items():
            e = 0
            rest = []
            for a, k in m:
                if a == need:
                    e = k
                else:
                    rest.append((a, k))
            if e % 2:
                rest.append((need, 1))
                rest.sort()
            parts.setdefault(e // 2, {})
            d = parts[e // 2]
            k2 = tuple(rest)
            v = d.get(k2, 0) + c
            if v == 0:
                d.pop(k2, None)
            else:
                d[k2] = v
        sq = ATOMS[need].sq
        tot = None
        for j, d in parts.items():
            t = _mk(d, den, dt)
            for _ in range(j):
                t = t * sq
            tot = t if tot is None else tot + t
        tot = tot if tot is not None else const(0, dt)
        return tot if tot.dt == dt else Sym(tot.num, tot.den, dt)
    if not num:
        return const(0, dt)
    if den:
        out = []
        for f, e in den:
            while e > 0:
                q = pdivexact(num, f.p)
                if q is None:
                    break
                num = q
                e -= 1
            if e:
                out.append((f, e))
        den = tuple(out)
    return Sym(num, den, dt)


def den_poly(den):
    p = ONE
    for f, e in den:
        p = pmul(p, ppow(f.p, e))
    return p


def _dj(a, b):
    return 'f' if a.dt == 'f' or b.dt == 'f' else 'i'


class Sym(object):
    __slots__ = ('num', 'den', 'dt')
    __array_priority__ = 1000

    def __init__(self, num, den, dt):
        self.num, self.den, self.dt = num, den, dt

    # --- inspection
    def isconst(self):
        return not self.den and (not self.num or (len(self.num) == 1 and () in self.num))

    def value(self):
        return self.num.get((), 0) if self.isconst() else None

    def atoms(self):
        s = patoms(self.num)
        for f, _ in self.den:
            s |= patoms(f.p)
        return s

    def isintval(self):
        """is it certainly an integer (as a value)?"""
        if self.den:
            return False
        for m, c in self.num.items():
            if Fraction(c).denominator != 1:
                return False
            for a, _ in m:
                if not ATOMS[a].isint:
                    return False
        return True

    def key(self):
        return (pkey(self.num), self.den)

    def same(self, o):
        return self.num == o.num and self.den == o.den

    def asf(self):
        return self if self.dt == 'f' else Sym(self.num, self.den, 'f')

    def asi(self):
        return self if self.dt == 'i' else Sym(self.num, self.den, 'i')

    # --- arithmetic
    def __add__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        dt = _dj(self, o)
        if self.den == o.den:
            return _mk(padd(self.num, o.num), self.den, dt)
        d1, d2 = dict(self.den), dict(o.den)
        l = dict(d1)
        for f, e in d2.items():
            l[f] = max(l.get(f, 0), e)
        n1, n2 = self.num, o.num
        for f, e in l.items():
            k1 = e - d1.get(f, 0)
            k2 = e - d2.get(f, 0)
            if k1:
                n1 = pmul(n1, ppow(f.p, k1))
            if k2:
                n2 = pmul(n2, ppow(f.p, k2))
        den = tuple(sorted(l.items(), key=lambda t: (len(t[0].p), t[0].h)))
        return _mk(padd(n1, n2), den, dt)

    __radd__ = __add__

    def __neg__(self):
        return Sym(p_scale(self.num, -1), self.den, self.dt)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        dt = _dj(self, o)
        d = dict(self.den)
        for f, e in o.den:
            d[f] = d.get(f, 0) + e
        den = tuple(sorted(d.items(), key=lambda t: (len(t[0].p), t[0].h)))
        return _mk(pmul(self.num, o.num), den, dt)

    __rmul__ = __mul__

    def recip(self):
        if not self.num:
            raise ZeroDivisionError('symbolic division by zero')
        if self.isconst():
            return const(_q(Fraction(1) / self.value()), 'f')
        n = den_poly(self.den)
        # split monomial content of the numerator
        c, f = normalise_factor(self.num)
        mono = None
        for m in f:
            mono = dict(m) if mono is None else {a: min(e, dict(m).get(a, 0)) for a, e in mono.items()}
        mono = {a: e for a, e in (mono or {}).items() if e}
        den = {}
        if mono:
            mm = tuple(sorted(mono.items()))
            f = {mdiv(m, mm): v for m, v in f.items()}
            for a, e in mm:
                den[Factor.make({((a, 1),): 1})] = e
        if not (len(f) == 1 and () in f):
            c2, f = normalise_factor(f)
            c = c * c2
            den[Factor.make(f)] = 1
        else:
            c = c * f[()]
        den = tuple(sorted(den.items(), key=lambda t: (len(t[0].p), t[0].h)))
        return _mk(p_scale(n, _q(Fraction(1) / c)), den, 'f')

    def __truediv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if ENGINE[0] is not None:
            ENGINE[0].require_nonzero(o)
        elif not o.num:
            raise ZeroDivisionError('division by zero')
        return (self * o.recip()).asf()

    def __rtruediv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return o / self

    def __floordiv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        dt = _dj(self, o)
        if self.isconst() and o.isconst() and o.value() != 0:
            return const(math.floor(Fraction(self.value()) / o.value()), dt)
        r = floor_(self / o)
        return r.asi() if dt == 'i' else r.asf()

    def __rfloordiv__(self, o):
        return lift(o) // self

    def __mod__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return self - o * (self // o)

    def __rmod__(self, o):
        return lift(o) % self

    def __divmod__(self, o):
        q = self // o
        return q, self - lift(o) * q

    def __pow__(self, n):
        if isinstance(n, Sym):
            n = n.value()
            if n is None:
                raise Unsupported('symbolic exponent')
        n = to_frac(n)
        if n == Fraction(1, 2):
            return sqrt_(self)
        if n == Fraction(1, 4):
            return sqrt_(sqrt_(self))
        if not isinstance(n, int):
            raise Unsupported('power %r' % (n,))
        if n < 0:
            return (const(1) / self) ** (-n)
        r = const(1, self.dt)
        for _ in range(n):
            r = r * self
        return r

    def __rpow__(self, o):
        v = self.value()
        if v is None:
            raise Unsupported('symbolic exponent')
        return lift(o) ** v

    def __abs__(self):
        return abs_(self)

    # --- comparisons
    def _rel(self, o, op):
        o = lift(o)
        if o is None:
            return NotImplemented
        return rel(op, self - o)

    def __lt__(self, o):
        if isinstance(o, float) and o == float('inf'):
            return TRUE
        if isinstance(o, float) and o == float('-inf'):
            return FALSE
        return self._rel(o, '<')

    def __le__(self, o):
        if isinstance(o, float) and o == float('inf'):
            return TRUE
        if isinstance(o, float) and o == float('-inf'):
            return FALSE
        return self._rel(o, '<=')

    def __gt__(self, o):
        if isinstance(o, float) and o == float('inf'):
            return FALSE
        if isinstance(o, float) and o == float('-inf'):
            return TRUE
        o = lift(o)
        if o is None:
            return NotImplemented
        return rel('<', o - self)

    def __ge__(self, o):
        if isinstance(o, float) and o == float('inf'):
            return FALSE
        if isinstance(o, float) and o == float('-inf'):
            return TRUE
        o = lift(o)
        if o is None:
            return NotImplemented
        return rel('<=', o - self)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, bytes, list, dict, set)):
            return False
        if isinstance(o, float) and o in (float('inf'), float('-inf')):
            return FALSE
        r = self._rel(o, '==')
        return r

    def __ne__(self, o):
        if o is None or isinstance(o, (str, bytes, list, dict, set)):
            return True
        if isinstance(o, float) and o in (float('inf'), float('-inf')):
            return TRUE
        return self._rel(o, '!=')

    def __hash__(self):
        # constant: dictionary lookups compare semantically (and may branch)
        v = self.value()
        if ENGINE[0] is not None and ENGINE[0].hash_const:
            return 0
        return hash(v) if v is not None else 0

    def __bool__(self):
        return bool(rel('!=', self))

    def __index__(self):
        v = self.value()
        if v is None:
            raise Unsupported('symbolic value used as an index or size')
        if not isinstance(v, int):
            raise TypeError('not an integer')
        if self.dt == 'f':
            raise TypeError("'float' object cannot be interpreted as an integer")
        return v

    def __int__(self):
        v = self.value()
        if v is None:
            raise Unsupported('int() of a symbolic value')
        return int(v)

    def __float__(self):
        v = self.value()
        if v is None:
            raise Unsupported('float() of a symbolic value')
        return float(v)

    def __round__(self, nd=None):
        if nd is None:
            return rint_(self).asi()
        return round_dec(self, nd)

    def __floor__(self):
        return floor_(self)

    def __ceil__(self):
        return -floor_(-self)

    def __trunc__(self):
        return trunc_(self)

    def __format__(self, spec):
        return '<sym>'

    def __repr__(self):
        return pretty(self)

    __str__ = __repr__

    # --- numpy-scalar like surface (object ufuncs call these methods too)
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return const(0, self.dt)

    @property
    def T(self):
        return self

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def dtype(self):
        import numpy as np
        return np.dtype('int64' if self.dt == 'i' else 'float64')

    def item(self):
        return self

    def tolist(self):
        return self

    def copy(self):
        return self

    def conjugate(self):
        return self

    conj = conjugate

    def astype(self, t):
        from . import nshim
        return nshim.cast(self, nshim.dtkind(t))

    def sqrt(self):
        return sqrt_(self)

    def cos(self):
        return cos_(self)

    def sin(self):
        return sin_(self)

    def tan(self):
        return sin_(self) / cos_(self)

    def floor(self):
        return floor_(self).asf()

    def ceil(self):
        return (-floor_(-self)).asf()

    def rint(self):
        return rint_(self).asf()

    def trunc(self):
        return trunc_(self).asf()

    def fabs(self):
        return abs_(self)

    def square(self):
        return self * self

    def absolute(self):
        return abs_(self)

    def radians(self):
        return self * pi_() / 180

    deg2rad = radians

    def is_integer(self):
        if self.isintval():
            return True
        return bool(rel('==', self - floor_(self)))

    def dot(self, o):
        return self * o

    def flatten(self):
        raise AttributeError('flatten')

    def tostring(self):
        from . import nshim
        return nshim.Key([self])

    tobytes = tostring


def pretty_poly(p, lim=12):
    if not p:
        return '0'
    out = []
    for m, c in sorted(p.items(), key=lambda t: _mkey(t[0]), reverse=True)[:lim]:
        s = '*'.join(ATOMS[a].name + ('^%d' % e if e > 1 else '') for a, e in m)
        out.append(('%s*%s' % (c, s)) if s and c != 1 else (s or str(c)))
    r = ' + '.join(out)
    if len(p) > lim:
        r += ' + ...(%d terms)' % len(p)
    return r


def pretty(s):
    r = pretty_poly(s.num)
    if s.den:
        r = '(%s)/(%s)' % (r, ' * '.join('(%s)^%d' % (pretty_poly(f.p, 6), e) for f, e in s.den))
    return r


def of_atom(a, dt=None):
    return Sym({((a.i, 1),): 1}, (), dt or ('i' if a.isint else 'f'))


def var(name, isint=False, sampler=None):
    a = atom(('var', name), name, 'var', None, isint)
    if sampler is not None:
        a.sampler = sampler
    return of_atom(a)


def pi_():
    return of_atom(atom(('pi',), 'pi', 'pi'))


def _defined(kind, arg, isint):
    k = (kind, arg.key())
    new = k not in _BYKEY
    a = atom(k, '%s%d' % (kind, len(ATOMS)), kind, arg, isint)
    return a, new


def _isqrt_frac(v):
    v = Fraction(v)
    if v < 0:
        return None
    a, b = math.isqrt(v.numerator), math.isqrt(v.denominator)
    if a * a == v.numerator and b * b == v.denominator:
        return Fraction(a, b)
    return None


def sqrt_(t):
    t = lift(t)
    if t.isconst():
        v = t.value()
        if v < 0:
            if ENGINE[0] is not None:
                ENGINE[0].require_nonneg(t)
            raise Unsupported('sqrt of a negative constant')
        r = _isqrt_frac(v)
        if r is not None:
            return const(_q(r), 'f')
        # pull out square factors: sqrt(n/d) = sqrt(n d)/d
        v = Fraction(v)
        n = v.numerator * v.denominator
        out = Fraction(1, v.denominator)
        k = 2
        while k * k <= n:
            while n % (k * k) == 0:
                n //= k * k
                out *= k
            k += 1
        a, new = _defined('sqrt', const(n, 'f'), False)
        if new:
            a.sq = const(n, 'f')
        return (of_atom(a) * const(_q(out), 'f')).asf()
    if ENGINE[0] is not None:
        ENGINE[0].require_nonneg(t)
    # a single monomial that is a perfect square of atoms known non-negative
    if len(t.num) == 1 and ENGINE[0] is not None:
        (m, c), = t.num.items()
        rc = _isqrt_frac(c)
        if rc is not None and all(e % 2 == 0 for _, e in m) and all(e % 2 == 0 for _, e in t.den):
            r = const(_q(rc), 'f')
            ok = True
            for a, e in m:
                s = ENGINE[0].sign_of(of_atom(ATOMS[a]))
                if s is None:
                    ok = False
                    break
                for _ in range(e // 2):
                    r = r * of_atom(ATOMS[a]) * s
            for f, e in t.den:
                s = ENGINE[0].sign_of(Sym(f.p, (), 'f'))
                if not s:
                    ok = False
                    break
                if ok:
                    r = r * (Sym(f.p, (), 'f').recip() * s) ** (e // 2)
            if ok:
                return r.asf()
    a, new = _defined('sqrt', t.asf(), False)
    if new:
        a.sq = t.asf()
    return of_atom(a)


_TRIG = {Fraction(0): (1, 0), Fraction(1, 3): (Fraction(1, 2), 'h3'), Fraction(1, 2): (0, 1),
         Fraction(2, 3): (Fraction(-1, 2), 'h3'), Fraction(1): (-1, 0),
         Fraction(1, 4): ('h2', 'h2'), Fraction(3, 4): ('-h2', 'h2'),
         Fraction(1, 6): ('h3', Fraction(1, 2)), Fraction(5, 6): ('-h3', Fraction(1, 2))}


def _trigconst(t):
    """(cos, sin) if t is a nice rational multiple of pi"""
    if t.den:
        return None
    pia = atom(('pi',), 'pi', 'pi').i
    if not t.num:
        r = Fraction(0)
    elif len(t.num) == 1 and ((pia, 1),) in t.num:
        r = Fraction(t.num[((pia, 1),)])
    else:
        return None
    r = r % 2
    sg = 1
    if r > 1:
        r = 2 - r
        sg = -1
    if r not in _TRIG:
        return None

    def ev(x):
        if x == 'h3':
            return sqrt_(const(3)) / 2
        if x == '-h3':
            return -(sqrt_(const(3)) / 2)
        if x == 'h2':
            return sqrt_(const(2)) / 2
        if x == '-h2':
            return -(sqrt_(const(2)) / 2)
        return const(_q(Fraction(x)), 'f')
    c, s = _TRIG[r]
    return ev(c), ev(s) * sg


def _trig(t):
    t = lift(t).asf()
    r = _trigconst(t)
    if r is not None:
        return r
    # cos(-t) = cos t: normalise the sign of the leading coefficient
    sg = 1
    if t.num and t.num[_lm(t.num)] < 0:
        t = -t
        sg = -1
    c, new = _defined('cos', t, False)
    s, new2 = _defined('sin', t, False)
    if s.sq is None:
        s.extra = c
        c.extra = s
        s.sq = const(1, 'f') - of_atom(c) * of_atom(c)
    return of_atom(c), of_atom(s) * sg


def cos_(t):
    return _trig(t)[0].asf()


def sin_(t):
    return _trig(t)[1].asf()


def floor_(t):
    t = lift(t)
    if t.isconst():
        return const(math.floor(t.value()), 'i')
    if t.isintval():
        return t.asi()
    k, t = _int_part(t)
    a, new = _defined('floor', t, True)
    return of_atom(a, 'i') + k


def _int_part(t):
    """split off the summands that are certainly integers"""
    if t.den:
        return const(0, 'i'), t
    ip, rest = {}, {}
    for m, c in t.num.items():
        if Fraction(c).denominator == 1 and m and all(ATOMS[a].isint for a, _ in m):
            ip[m] = c
        else:
            rest[m] = c
    if not ip or not rest:
        return const(0, 'i'), t
    return Sym(ip, (), 'i'), Sym(rest, (), t.dt)


def trunc_(t):
    t = lift(t)
    if t.isconst():
        return const(math.trunc(t.value()), 'i')
    if t.isintval():
        return t.asi()
    if bool(rel('<=', -t)):
        return floor_(t)
    return -floor_(-t)


def rint_(t):
    t = lift(t)
    if t.isconst():
        return const(round(Fraction(t.value())), 'i')
    if t.isintval():
        return t.asi()
    k, t = _int_part(t)          # ties: nearest integer, either side
    a, new = _defined('rint', t, True)
    return of_atom(a, 'i') + k


def round_dec(t, nd):
    """round to nd decimals.  nd >= 5: within the machine-arithmetic idealisation, identity (stated
    assumption); smaller nd: exact."""
    t = lift(t)
    if isinstance(nd, Sym):
        nd = nd.__index__()
    if nd >= 5:
        return t
    if t.isconst():
        return const(_q(Fraction(round(Fraction(t.value()) * 10 ** nd), 10 ** nd)), t.dt)
    return (rint_(t * 10 ** nd) / 10 ** nd).asf()


def def_(t):
    """a name for a polynomial (definitional abstraction)"""
    t = lift(t)
    if t.isconst() or t.den or len(t.num) == 1:
        return t
    c, f = normalise_factor(t.num)
    f = Sym(f, (), t.dt)
    a, new = _defined('def', f, f.isintval())
    return of_atom(a, t.dt) * const(c, 'i' if isinstance(c, int) and t.dt == 'i' else 'f')


def undef(s):
    """replace every defined name by its definition"""
    while True:
        ds = [a for a in s.atoms() if ATOMS[a].kind == 'def']
        if not ds:
            return s
        from .engine import subst
        s = subst(s, {a: ATOMS[a].arg for a in ds})


def abs_(t):
    t = lift(t)
    if t.isconst():
        return const(abs(t.value()), t.dt)
    if ENGINE[0] is not None:
        s = ENGINE[0].sign_of(t, cheap=True)
        if s == 1:
            return t
        if s == -1:
            return -t
    if t.num[_lm(t.num)] < 0:
        t = -t
    a, new = _defined('abs', t, t.isintval())
    if new:
        a.sq = t * t
    return of_atom(a, t.dt)


def ite(c, x, y):
    x, y = lift(x), lift(y)
    if isinstance(c, SBool):
        v = c.const_value()
        if v is None:
            return x if bool(c) else y       # branch
        c = v
    return x if c else y


# ----------------------------------------------------------------------------------------- SBool
class SBool(object):
    """('rel', op, Sym) with op in <=,<,==,!= against 0; ('and',[..]); ('or',[..]); ('bv',name);
    ('not', ('bv'..)); ('const', bool)"""
    __slots__ = ('k', 'a', '_key')
    __array_priority__ = 1000

    def __init__(self, k, a):
        self.k, self.a = k, a
        self._key = None

    def const_value(self):
        return self.a if self.k == 'const' else None

    def key(self):
        if self._key is None:
            if self.k == 'rel':
                self._key = ('rel', self.a[0], self.a[1].key())
            elif self.k in ('and', 'or'):
                self._key = (self.k, frozenset(x.key() for x in self.a))
            elif self.k == 'nbv':
                self._key = ('nbv', self.a)
            else:
                self._key = (self.k, self.a)
        return self._key

    def __bool__(self):
        if self.k == 'const':
            return self.a
        return eng().decide(self)

    def __invert__(self):
        return neg(self)

    def __and__(self, o):
        return land(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return lor(self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return lor(land(self, neg(o)), land(neg(self), o))

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            o = tobool(o)
            return lor(land(self, o), land(neg(self), neg(o)))
        if isinstance(o, (int, Sym)):
            return lift(self) == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else neg(r)

    def __hash__(self):
        return 0

    def logical_not(self):
        return neg(self)

    def __add__(self, o):
        return lift(self) + o

    __radd__ = __add__

    def __mul__(self, o):
        return lift(self) * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return lift(self) < o

    def __gt__(self, o):
        return lift(self) > o

    def item(self):
        return self

    def all(self):
        return self

    def any(self):
        return self

    def __repr__(self):
        if self.k == 'rel':
            return '(%s %s 0)' % (pretty(self.a[1]), self.a[0])
        if self.k == 'const':
            return str(self.a)
        if self.k in ('and', 'or'):
            return '(' + (' %s ' % self.k).join(map(repr, self.a[:8])) + (' ...' if len(self.a) > 8 else '') + ')'
        return '%s(%s)' % (self.k, self.a)


TRUE = SBool('const', True)
FALSE = SBool('const', False)


def tobool(x):
    if isinstance(x, SBool):
        return x
    if isinstance(x, Sym):
        return rel('!=', x)
    return TRUE if x else FALSE


def rel(op, s):
    if s.isconst():
        v = s.value()
        r = {'<=': v <= 0, '<': v < 0, '==': v == 0, '!=': v != 0}[op]
        return TRUE if r else FALSE
    if op in ('==', '!=') and s.den:
        s = Sym(s.num, (), s.dt)       # denominators are nonzero (checked when formed)
    if op in ('<=', '<') and not s.den:
        x = _expand_rel(op, s)
        if x is not None:
            return x
    if op in ('==', '!='):
        c, f = normalise_factor(s.num)
        s = Sym(f, (), s.dt)
        if len(f) == 1:
            (m, c), = f.items()
            if len(m) == 1 and m[0][1] > 1:
                s = Sym({((m[0][0], 1),): 1}, (), s.dt)
        if s.isconst():
            return TRUE if op == '!=' else FALSE
        # integer-valued polynomial with non-integral constant gap
    else:
        # sum of even-power monomials with positive coefficients
        q = _definite(s)
        if q is not None:
            if op == '<=':
                if q == 'pos':
                    return FALSE
                if q == 'neg' or q == 'nonpos':
                    return TRUE
                if q == 'nonneg':
                    return rel('==', s)
            else:
                if q in ('pos', 'nonneg'):
                    return FALSE
                if q == 'neg':
                    return TRUE
                if q == 'nonpos':
                    return rel('!=', s)
    return SBool('rel', (op, s))


def _expand_rel(op, s):
    """c*A + rest (op) 0 with A an abs/max atom occurring linearly, or sqrt(t) against a constant"""
    for m in s.num:
        if len(m) == 1 and m[0][1] == 1:
            A = ATOMS[m[0][0]]
            if A.kind not in ('abs', 'max', 'sqrt'):
                continue
            c = s.num[m]
            rest = dict(s.num)
            del rest[m]
            if A.i in patoms(rest):
                continue
            if A.kind == 'sqrt':
                if A.arg.isconst() or any(rest) or len(s.num) > 2:
                    continue
                k = _q(Fraction(rest.get((), 0)) / c)      # A + k (op) 0  or reversed
                if c > 0:                                  # A <= -k
                    if k > 0:
                        return FALSE
                    return rel(op, A.arg - const(k * k, 'f'))
                if k > 0:                                  # -(A + k) op 0, A >= 0
                    return TRUE
                return rel(op, const(k * k, 'f') - A.arg)  # A >= -k
            r = Sym(rest, (), s.dt)
            args = [A.arg, -A.arg] if A.kind == 'abs' else A.extra
            parts = [rel(op, r + x * const(c, 'i' if isinstance(c, int) else 'f')) for x in args]
            return land(*parts) if c > 0 else lor(*parts)
    return None


def max_(xs):
    xs = [lift(x) for x in xs]
    if all(x.isconst() for x in xs):
        v = max(x.value() for x in xs)
        return const(v, 'f' if any(x.dt == 'f' for x in xs) else 'i')
    u = []
    for x in xs:
        if not any(x.same(y) for y in u):
            u.append(x)
    if len(u) == 1:
        return u[0]
    k = ('max', frozenset(x.key() for x in u))
    a = atom(k, 'max%d' % len(ATOMS), 'max', None, all(x.isintval() for x in u))
    a.extra = u
    return of_atom(a, 'f' if any(x.dt == 'f' for x in xs) else 'i')


def min_(xs):
    return -max_([-lift(x) for x in xs])


def atom_nonneg(a):
    A = ATOMS[a]
    return A.kind in ('sqrt', 'abs', 'pi') or A.lo is not None


def atom_pos(a):
    A = ATOMS[a]
    if A.kind == 'pi':
        return True
    if A.kind == 'sqrt' and A.arg.isconst():
        return True
    return A.lo == 'pos'


def _polysign(p):
    """crude: 'pos','neg','nonneg','nonpos' or None from monomial shapes"""
    sg = None
    strict = False
    for m, c in p.items():
        odd = [a for a, e in m if e % 2]
        if any(not atom_nonneg(a) for a in odd):
            return None
        s = 1 if c > 0 else -1
        if sg is None:
            sg = s
        elif sg != s:
            return None
        if all(atom_pos(a) for a, e in m):
            strict = True
    if sg is None:
        return None
    return {(1, True): 'pos', (1, False): 'nonneg', (-1, True): 'neg', (-1, False): 'nonpos'}[(sg, strict)]


def _definite(s):
    n = _polysign(s.num)
    if n is None:
        return None
    sg = 1
    for f, e in s.den:
        if e % 2 == 0:
            continue
        d = _polysign(f.p)
        if d is None:
            return None
        if d in ('neg', 'nonpos'):
            sg = -sg
    if sg == 1:
        return n
    return {'pos': 'neg', 'neg': 'pos', 'nonneg': 'nonpos', 'nonpos': 'nonneg'}[n]


def neg(b):
    if not isinstance(b, SBool):
        return FALSE if b else TRUE
    if b.k == 'const':
        return FALSE if b.a else TRUE
    if b.k == 'rel':
        op, s = b.a
        if op == '<=':
            return rel('<', -s)
        if op == '<':
            return rel('<=', -s)
        if op == '==':
            return SBool('rel', ('!=', s))
        return SBool('rel', ('==', s))
    if b.k == 'and':
        return lor(*[neg(x) for x in b.a])
    if b.k == 'or':
        return land(*[neg(x) for x in b.a])
    if b.k == 'bv':
        return SBool('nbv', b.a)
    if b.k == 'nbv':
        return SBool('bv', b.a)
    raise Unsupported('neg ' + b.k)


def land(*xs):
    out = []
    for x in xs:
        x = tobool(x)
        if x.k == 'const':
            if not x.a:
                return FALSE
            continue
        if x.k == 'and':
            out.extend(x.a)
        else:
            out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return SBool('and', out)


def lor(*xs):
    out = []
    for x in xs:
        x = tobool(x)
        if x.k == 'const':
            if x.a:
                return TRUE
            continue
        if x.k == 'or':
            out.extend(x.a)
        else:
            out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return SBool('or', out)


def implies(a, b):
    return lor(neg(tobool(a)), tobool(b))


def bvar(name):
    return SBool('bv', name)


def set_sign(s, lo):
    """declare the sign of a variable atom ('pos' / 'nonneg')"""
    (m, c), = s.num.items()
    ATOMS[m[0][0]].lo = lo
