"""numpy / numpy.linalg / math stand-ins over exact symbolic scalars.

Arrays are real numpy arrays of dtype object (so slicing, views, aliasing, broadcasting and dot products
are numpy's own) whose elements are all Sym; the logical dtype is that of the elements.  Anything not
modelled raises Unsupported, which makes the obligation undecided."""
import math as _math
import numpy as R
from fractions import Fraction
from . import terms as T
from .terms import Sym, SBool, Unsupported, const, lift, rel, land, lor, neg, tobool, ENGINE


class SArr(R.ndarray):
    def __array_finalize__(self, obj):
        pass

    # ---- logical dtype
    @property
    def dtype(self):
        k = kind(self)
        return {'i': R.dtype('int64'), 'f': R.dtype('float64'), 'b': R.dtype('bool'), 'O': R.dtype('O')}[k]

    @property
    def T(self):
        return self.transpose()

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return zeros_like(self)

    def __getitem__(self, k):
        k = _index(k)
        if isinstance(k, R.ndarray) and k.dtype == object:
            k = k.astype(bool)
        return R.ndarray.__getitem__(self, k)

    def __setitem__(self, k, v):
        k = _index(k)
        old = R.ndarray.__getitem__(self, k)
        if isinstance(old, R.ndarray):
            v = arr(v)
            vv = R.broadcast_to(v, old.shape)
            new = R.empty(old.shape, dtype=object)
            fo, fn, fv = old.flat, new.flat, vv.flat
            for i in range(old.size):
                fn[i] = cast(fv[i], edt(fo[i]))
            R.ndarray.__setitem__(self, k, new)
        else:
            v = arr(v) if isinstance(v, (R.ndarray, list, tuple)) else v
            if isinstance(v, R.ndarray):
                if v.size != 1:
                    raise ValueError('setting an array element with a sequence.')
                v = v.reshape(-1)[0]
            x = v if isinstance(v, SBool) else lift(v)
            if x is None:
                raise Unsupported('element assignment of %r' % type(v))
            R.ndarray.__setitem__(self, k, cast(x, edt(old)))

    # ---- arithmetic
    def _bin(self, o, f):
        o2 = arr(o) if not isinstance(o, (Sym, SBool)) else o
        return out(f(_raw(self), _raw(o2) if isinstance(o2, R.ndarray) else o2))

    def __add__(self, o): return self._bin(o, R.add)
    def __radd__(self, o): return self._bin(o, lambda a, b: R.add(b, a))
    def __sub__(self, o): return self._bin(o, R.subtract)
    def __rsub__(self, o): return self._bin(o, lambda a, b: R.subtract(b, a))
    def __mul__(self, o): return self._bin(o, R.multiply)
    def __rmul__(self, o): return self._bin(o, lambda a, b: R.multiply(b, a))
    def __truediv__(self, o): return self._bin(o, R.true_divide)
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: R.true_divide(b, a))
    def __floordiv__(self, o): return self._bin(o, R.floor_divide)
    def __mod__(self, o): return self._bin(o, R.remainder)
    def __neg__(self): return out(R.negative(_raw(self)))
    def __pos__(self): return self.copy()
    def __abs__(self): return absolute(self)
    def __matmul__(self, o): return dot_mm(self, o)
    def __rmatmul__(self, o): return dot_mm(o, self)

    def __pow__(self, n):
        if isinstance(n, R.ndarray):
            raise Unsupported('array power')
        return _map(self, lambda x: x ** n)

    def _inp(self, o, f):
        ok = kind(o) if isinstance(o, R.ndarray) else (lift(o).dt if lift(o) is not None else None)
        if ok is None:
            o = arr(o)
            ok = kind(o)
        if kind(self) == 'i' and ok == 'f':
            raise TypeError("Cannot cast ufunc output from dtype('float64') to dtype('int64') with casting rule 'same_kind'")
        r = f(self, o)
        if kind(self) == 'i' and kind(r) == 'f':
            raise TypeError("Cannot cast ufunc output from dtype('float64') to dtype('int64') with casting rule 'same_kind'")
        self[...] = r
        return self

    def __iadd__(self, o): return self._inp(o, lambda a, b: a + b)
    def __isub__(self, o): return self._inp(o, lambda a, b: a - b)
    def __imul__(self, o): return self._inp(o, lambda a, b: a * b)
    def __itruediv__(self, o): return self._inp(o, lambda a, b: a / b)
    def __ifloordiv__(self, o): return self._inp(o, lambda a, b: a // b)

    def _cmp(self, o, f):
        if o is None:
            return out(R.array([f(x, None) for x in self.flat], dtype=object).reshape(self.shape)) if f is not None else False
        o2 = arr(o) if not isinstance(o, (Sym, SBool)) else o
        try:
            a, b = R.broadcast_arrays(_raw(self), _raw(o2) if isinstance(o2, R.ndarray) else _box(o2))
        except ValueError:
            raise
        r = R.empty(a.shape, dtype=object)
        for i in range(a.size):
            r.flat[i] = tobool(f(a.flat[i], b.flat[i]))
        return r.view(SArr)

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o):
        if o is None:
            return self._cmp(o, lambda a, b: T.FALSE)
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if o is None:
            return self._cmp(o, lambda a, b: T.TRUE)
        return self._cmp(o, lambda a, b: a != b)
    __hash__ = None

    def __and__(self, o): return self._cmp(o, lambda a, b: land(a, b))
    def __or__(self, o): return self._cmp(o, lambda a, b: lor(a, b))
    def __invert__(self): return _map(self, neg)

    def __bool__(self):
        if self.size == 1:
            x = self.reshape(-1)[0]
            return bool(x)
        if self.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')

    def __float__(self):
        return float(self.item())

    def __int__(self):
        return int(self.item())

    def __index__(self):
        if self.ndim:
            raise TypeError('only integer scalar arrays can be converted to a scalar index')
        return self.item().__index__()

    def __contains__(self, v):
        return bool(any_(self == v))

    # ---- methods
    def dot(self, o): return dot(self, o)
    def all(self, axis=None, **k): return all_(self, axis)
    def any(self, axis=None, **k): return any_(self, axis)
    def copy(self, *a): return arr(self)
    def astype(self, t, **k): return _map(self, lambda x: cast(x, dtkind(t)))
    def tolist(self): return R.ndarray.tolist(self)
    def sum(self, axis=None, **k): return sum_(self, axis, **k)
    def prod(self, axis=None, **k): return prod(self, axis)
    def max(self, axis=None, **k): return amax(self, axis)
    def min(self, axis=None, **k): return amin(self, axis)
    def mean(self, axis=None, **k): return mean(self, axis)
    def round(self, nd=0, **k): return around(self, nd)
    def trace(self, *a, **k): return trace(self)
    def conj(self): return self
    conjugate = conj
    def tostring(self, *a): return Key(list(self.flat))
    tobytes = tostring
    def argmin(self, axis=None): return argmin(self)
    def argmax(self, axis=None): return argmax(self)
    def argsort(self, axis=-1, **k): return argsort(self)

    def sort(self, axis=-1, **k):
        self[...] = sort(self)

    def fill(self, v):
        self[...] = v

    def view(self, *a, **k):
        if a and a[0] is not SArr:
            raise Unsupported('view')
        return R.ndarray.view(self, *a, **k)

    def cumsum(self, *a, **k): raise Unsupported('cumsum')
    def searchsorted(self, v, *a, **k): return searchsorted(self, v, *a, **k)
    def partition(self, *a, **k): raise Unsupported('partition')
    def clip(self, *a, **k): raise Unsupported('clip')
    def std(self, *a, **k): raise Unsupported('std')
    def var(self, *a, **k): raise Unsupported('var')
    def nonzero(self): raise Unsupported('nonzero')

    def item(self, *a):
        if a:
            return R.ndarray.item(self, *a)
        if self.size != 1:
            raise ValueError('can only convert an array of size 1 to a Python scalar')
        return self.reshape(-1)[0]

    def __repr__(self):
        return 'SArr' + repr(self.tolist())

    __str__ = __repr__

    def __format__(self, s):
        return repr(self)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        # real numpy ufuncs reached directly (should not normally happen)
        ins = [_raw(x) if isinstance(x, SArr) else x for x in inputs]
        if kw.get('out') is not None:
            raise Unsupported('ufunc out=')
        r = getattr(ufunc, method)(*ins, **kw)
        return out(r)


class Key(object):
    """the bytes of an array: equal iff same kinds and equal values"""

    def __init__(self, els):
        self.els = [lift(e) for e in els]

    def __hash__(self):
        return 0

    def __eq__(self, o):
        if not isinstance(o, Key):
            return False
        if len(self.els) != len(o.els):
            return False
        r = []
        for a, b in zip(self.els, o.els):
            if a.dt != b.dt:
                # int64 and float64 patterns agree only for zero
                r.append(land(rel('==', a), rel('==', b)))
            else:
                r.append(rel('==', a - b))
        return bool(land(*r))

    def __ne__(self, o):
        return not self.__eq__(o)


def _box(x):
    b = R.empty((), dtype=object)
    b[()] = x
    return b


def _raw(a):
    return R.ndarray.view(a, R.ndarray) if isinstance(a, SArr) else a


def edt(x):
    if isinstance(x, Sym):
        return x.dt
    if isinstance(x, SBool):
        return 'b'
    return 'O'


def kind(a):
    k = None
    for x in _raw(a).flat:
        d = edt(x) if isinstance(x, (Sym, SBool)) else ('O' if lift(x) is None else lift(x).dt)
        if d == 'O':
            return 'O'
        if d == 'f':
            k = 'f'
        elif d == 'i' and k != 'f':
            k = 'i'
        elif d == 'b' and k is None:
            k = 'b'
    return k or 'f'


def dtkind(t):
    if t is None:
        return None
    if isinstance(t, str):
        if t.startswith('int') or t in ('i', 'i4', 'i8', 'l', 'long', 'uint8'):
            return 'i'
        if t.startswith('float') or t in ('f', 'f4', 'f8', 'd', 'double'):
            return 'f'
        if t == 'bool':
            return 'b'
        if t in ('object', 'O'):
            return 'O'
        raise Unsupported('dtype ' + t)
    if t in (int, R.int64, R.int32) or getattr(t, '_kind', None) == 'i':
        return 'i'
    if t in (float, R.float64, R.float32) or getattr(t, '_kind', None) == 'f':
        return 'f'
    if t in (bool, R.bool_):
        return 'b'
    if t is object:
        return 'O'
    try:
        d = R.dtype(t)
    except TypeError:
        raise Unsupported('dtype %r' % (t,))
    if d.kind in 'iu':
        return 'i'
    if d.kind == 'f':
        return 'f'
    if d.kind == 'b':
        return 'b'
    raise Unsupported('dtype %r' % (t,))


def cast(x, k):
    if k is None or k == 'O':
        return x
    if k == 'b':
        return tobool(x)
    if isinstance(x, SBool):
        x = lift(x)
    x = lift(x)
    if k == 'f':
        return x.asf()
    if x.dt == 'i':
        return x
    return T.trunc_(x).asi()


def _index(k):
    if isinstance(k, tuple):
        return tuple(_index(x) for x in k)
    if isinstance(k, Sym):
        return k.__index__()
    if isinstance(k, list):
        return [_index(x) for x in k]
    if isinstance(k, SArr):
        if k.dtype == R.dtype('bool'):
            return R.array([bool(x) for x in k.flat], dtype=bool).reshape(k.shape)
        return R.array([x.__index__() for x in k.flat], dtype=int).reshape(k.shape)
    if isinstance(k, slice):
        return slice(*[None if x is None else (x.__index__()) for x in (k.start, k.stop, k.step)])
    return k


def _nest(x):
    """python nested structure -> nested lists with shape discovery"""
    if isinstance(x, R.ndarray):
        return _raw(x)
    return x


def _shape(x):
    if isinstance(x, R.ndarray):
        return x.shape
    if isinstance(x, (list, tuple)) or isinstance(x, range) or hasattr(x, '__symseq__'):
        x = list(x)
        if not x:
            return (0,)
        s0 = _shape(x[0])
        for y in x[1:]:
            if _shape(y) != s0:
                raise _Ragged()
        return (len(x),) + s0
    return ()


class _Ragged(Exception):
    pass


def _flat(x, outl):
    if isinstance(x, R.ndarray):
        outl.extend(_raw(x).flat)
    elif isinstance(x, (list, tuple, range)) or hasattr(x, '__symseq__'):
        for y in x:
            _flat(y, outl)
    else:
        outl.append(x)


def arr(x, dtype=None, copy=True, ndmin=0, order=None, **k):
    try:
        sh = _shape(x)
    except _Ragged:
        # numpy 1.23: ragged nested sequences become object arrays (VisibleDeprecationWarning)
        if dtype is not None and dtkind(dtype) != 'O':
            raise ValueError('setting an array element with a sequence.')
        x = list(x)
        r = R.empty(len(x), dtype=object)
        for i, y in enumerate(x):
            r[i] = y
        return r
    fl = []
    _flat(x, fl)
    els = []
    obj = False
    for e in fl:
        if isinstance(e, (SBool, bool, R.bool_)):
            els.append(tobool(bool(e)) if not isinstance(e, SBool) else e)
            continue
        s = lift(e)
        if s is None:
            obj = True
            els.append(e)
        else:
            els.append(s)
    if obj:
        if any(isinstance(e, str) for e in els):
            return R.array(x)
        r = R.empty(len(els), dtype=object)
        for i, e in enumerate(els):
            r[i] = e
        return r.reshape(sh)
    dk = dtkind(dtype)
    if dk is None and any(isinstance(e, Sym) for e in els) and any(isinstance(e, SBool) for e in els):
        els = [lift(e) for e in els]
    if dk is None:
        if any(isinstance(e, Sym) and e.dt == 'f' for e in els):
            dk = 'f'
        elif not els:
            dk = 'f'
    r = R.empty(len(els), dtype=object)
    for i, e in enumerate(els):
        r[i] = cast(e, dk)
    r = r.reshape(sh)
    while r.ndim < ndmin:
        r = r[None]
    return R.ndarray.view(r, SArr)


def asarray(x, dtype=None, **k):
    if isinstance(x, SArr):
        dk = dtkind(dtype)
        if dk is None or dk == kind(x):
            return x
    return arr(x, dtype)


def out(r):
    if isinstance(r, SArr):
        return r
    if isinstance(r, R.ndarray):
        if r.dtype == object:
            if r.ndim == 0:
                return r[()]
            return R.ndarray.view(r, SArr)
        return arr(r)
    if isinstance(r, tuple):
        return tuple(out(x) for x in r)
    if isinstance(r, list):
        return [out(x) for x in r]
    if isinstance(r, (R.integer, R.floating)):
        return lift(r)
    return r


def _map(a, f):
    if isinstance(a, R.ndarray):
        r = R.empty(a.shape, dtype=object)
        src = _raw(a)
        for i in range(a.size):
            r.flat[i] = f(src.flat[i])
        if r.ndim == 0:
            return r[()]
        return R.ndarray.view(r, SArr)
    return f(lift(a) if not isinstance(a, SBool) else a)


def _a(x):
    """argument -> array or scalar Sym"""
    if isinstance(x, (Sym, SBool)):
        return x
    if isinstance(x, SArr):
        return x
    if isinstance(x, (list, tuple, R.ndarray, range)):
        return arr(x)
    s = lift(x)
    if s is None:
        raise Unsupported('array argument %r' % type(x))
    return s


def _sh(shape):
    if isinstance(shape, (int, Sym)):
        return (shape.__index__(),)
    return tuple(s.__index__() if isinstance(s, (int, Sym)) else R.int64(s).__index__() for s in shape)


def full(shape, v, dtype=None, **k):
    v = lift(v)
    dk = dtkind(dtype)
    v = cast(v, dk) if dk else v
    r = R.empty(_sh(shape), dtype=object)
    r.fill(v)
    return R.ndarray.view(r, SArr)


def zeros(shape, dtype=float, **k):
    return full(shape, 0, dtype)


def ones(shape, dtype=float, **k):
    return full(shape, 1, dtype)


def empty(shape, dtype=float, **k):
    dk = dtkind(dtype) or 'f'
    r = R.empty(_sh(shape), dtype=object)
    for i in range(r.size):
        r.flat[i] = ENGINE[0].fresh('uninit_' + dk, dk == 'i') if ENGINE[0] else const(0, dk)
    return R.ndarray.view(r, SArr)


def empty_like(a, dtype=None, **k):
    a = asarray(a)
    return empty(a.shape, dtype if dtype is not None else a.dtype)


def zeros_like(a, dtype=None, **k):
    a = asarray(a)
    return zeros(a.shape, dtype if dtype is not None else a.dtype)


def ones_like(a, dtype=None, **k):
    a = asarray(a)
    return ones(a.shape, dtype if dtype is not None else a.dtype)


def full_like(a, v, dtype=None, **k):
    a = asarray(a)
    return full(a.shape, v, dtype if dtype is not None else a.dtype)


def eye(n, M=None, k=0, dtype=float, **kw):
    n = n.__index__()
    return arr(R.eye(n, M, k, dtype=int), dtype)


def identity(n, dtype=float):
    return eye(n, dtype=dtype)


def diag(a, k=0):
    a = arr(a)
    if a.ndim == 1:
        n = len(a)
        r = zeros((n, n), dtype=a.dtype)
        for i in range(n):
            r[i, i] = a[i]
        if k:
            raise Unsupported('diag k')
        return r
    return R.ndarray.view(R.diag(_raw(a), k).copy(), SArr)


def diagonal(a, *p, **k):
    return out(R.diagonal(_raw(arr(a)), *p, **k))


def arange(*a, **k):
    dk = dtkind(k.pop('dtype', None))
    vals = [lift(x) for x in a]
    if not all(v.isconst() for v in vals):
        h = ENGINE[0] and ENGINE[0].ghost.get('arange')
        if not h:
            raise Unsupported('arange over symbolic bounds')
        return h(vals, dk)
    st, en, step = (const(0), vals[0], const(1)) if len(vals) == 1 else (vals[0], vals[1], vals[2] if len(vals) > 2 else const(1))
    dt = 'f' if any(v.dt == 'f' for v in vals) else 'i'
    n = max(0, _math.ceil(Fraction(en.value() - st.value()) / step.value()))
    return arr([const(st.value() + i * step.value(), dk or dt) for i in range(n)], dk and {'i': int, 'f': float}[dk])


def mkey(a):
    return (a.shape, tuple(lift(x).key() for x in _raw(a).flat))


def _prov():
    e = ENGINE[0]
    return e.prov if e is not None and e.opaque else None


def _cancel(a, b, P, depth=0):
    """(X^-1)(X Y) = Y, (X Y)(Y^-1) = X, X^-1 X = X X^-1 = I"""
    ka, kb = mkey(a), mkey(b)
    pa, pb = P.get(ka), P.get(kb)
    if pa and pa[0] == 'inv':
        x = pa[1]
        if mkey(x) == kb:
            return eye(len(a))
        if pb and pb[0] == 'dot' and mkey(pb[1]) == mkey(x):
            return arr(pb[2])
    if pb and pb[0] == 'inv':
        y = pb[1]
        if mkey(y) == ka:
            return eye(len(a))
        if pa and pa[0] == 'dot' and mkey(pa[2]) == mkey(y):
            return arr(pa[1])
    if depth < 4 and pa and pa[0] == 'dot':
        r = _cancel(pa[2], b, P, depth + 1)
        if r is not None:
            return dot(pa[1], r)
    if depth < 4 and pb and pb[0] == 'dot':
        r = _cancel(a, pb[1], P, depth + 1)
        if r is not None:
            return dot(r, pb[2])
    return None


def dot(a, b, **k):
    a, b = _a(a), _a(b)
    if not isinstance(a, R.ndarray) or not isinstance(b, R.ndarray):
        return a * b
    P = _prov()
    if P is not None and a.ndim == 2 and b.ndim == 2 and a.shape == b.shape and a.shape[0] == a.shape[1]:
        a, b = arr(a), arr(b)
        r = _cancel(a, b, P)
        if r is not None:
            return r
        r = out(R.dot(_raw(a), _raw(b)))
        seen = P.setdefault('seen', set())
        seen.add(mkey(a))
        seen.add(mkey(b))
        if mkey(r) not in seen:
            P.setdefault(mkey(r), ('dot', a, b))
        return r
    return out(R.dot(_raw(a), _raw(b)))


def tdet(a):
    """determinant with products and inverses resolved by the multiplication theorem"""
    P = _prov()
    if P is None:
        return poly_det(rows(a))
    p = P.get(mkey(a))
    if p and p[0] == 'dot':
        return tdet(p[1]) * tdet(p[2])
    if p and p[0] == 'inv':
        return const(1, 'f') / tdet(p[1])
    return T.def_(poly_det(rows(a)))


def dot_mm(a, b):
    return out(R.matmul(_raw(arr(a)), _raw(arr(b))))


def _w(name):
    f = getattr(R, name)

    def g(*a, **k):
        a2 = [_raw(arr(x)) if isinstance(x, (list, tuple, R.ndarray)) else (_box(x) if isinstance(x, (Sym, SBool)) else x) for x in a]
        return out(f(*a2, **k))
    g.__name__ = name
    return g


outer = _w('outer')
inner = _w('inner')
cross_ = R.cross
kron = _w('kron')


def cross(a, b, **k):
    a, b = arr(a), arr(b)
    if a.ndim == 1 and b.ndim == 1 and len(a) == 3 and len(b) == 3:
        return arr([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])
    return out(R.cross(_raw(a), _raw(b), **k))


def tensordot(a, b, axes=2):
    h = ENGINE[0] and ENGINE[0].ghost.get('tensordot')
    if h:
        return h(R.tensordot(R.zeros(arr(a).shape), R.zeros(arr(b).shape), axes=axes).shape)
    return out(R.tensordot(_raw(arr(a)), _raw(arr(b)), axes=axes))


def einsum(s, *a, **k):
    return out(R.einsum(s, *[_raw(arr(x)) for x in a], optimize=False))


def vdot(a, b):
    return dot(arr(a).reshape(-1), arr(b).reshape(-1))


def trace(a, *p, **k):
    a = arr(a)
    return out(R.trace(_raw(a), *p, **k))


def _structural(name, listarg=False):
    f = getattr(R, name)

    def g(a, *p, **k):
        if listarg:
            a2 = [_raw(arr(x)) if not isinstance(x, SArr) else _raw(x) for x in a]
            kinds = {kind(x) for x in a2 if R.size(x)}
            r = f(a2, *p, **k)
            if 'f' in kinds and kinds != {'f'}:
                r = R.array([cast(x, 'f') for x in r.flat], dtype=object).reshape(r.shape)
            return out(r)
        p = [_index(x) for x in p]
        return out(f(_raw(asarray(a)), *p, **k))
    g.__name__ = name
    return g


transpose = _structural('transpose')
reshape = _structural('reshape')
ravel = _structural('ravel')
squeeze = _structural('squeeze')
swapaxes = _structural('swapaxes')
moveaxis = _structural('moveaxis')
flipud = _structural('flipud')
fliplr = _structural('fliplr')
flip = _structural('flip')
roll = _structural('roll')
tile = _structural('tile')
repeat = _structural('repeat')
triu = None
tril = None
atleast_1d = lambda a: arr(a) if arr(a).ndim >= 1 else arr([a])
atleast_2d = lambda a: arr(a, ndmin=2)
expand_dims = _structural('expand_dims')
vstack = _structural('vstack', True)
hstack = _structural('hstack', True)
stack = _structural('stack', True)
column_stack = _structural('column_stack', True)
concatenate = _structural('concatenate', True)
broadcast_to = _structural('broadcast_to')


def tri_part(a, keep):
    a = arr(a)
    r = arr(a)
    for i in range(a.shape[0]):
        for j in range(a.shape[1]):
            if not keep(i, j):
                r[i, j] = 0
    return r


def triu(a, k=0):
    return tri_part(a, lambda i, j: j - i >= k)


def tril(a, k=0):
    return tri_part(a, lambda i, j: j - i <= k)


def append(a, v, axis=None):
    a, v = arr(a), arr(v)
    if axis is None:
        a, v = a.reshape(-1), v.reshape(-1)
        axis = 0
    return concatenate((a, v), axis=axis)


def delete(a, obj, axis=None):
    a = arr(a)
    return out(R.delete(_raw(a), _index(obj), axis=axis))


def insert(a, i, v, axis=None):
    a = arr(a)
    return out(R.insert(_raw(a), _index(i), _raw(arr(v)) if isinstance(v, (list, R.ndarray)) else v, axis=axis))


def copy(a, **k):
    return arr(a)


def array_copy(a, **k):
    return arr(a)


def fill_diagonal(a, v):
    for i in range(min(a.shape)):
        a[i, i] = v


def _el(f):
    def g(a, *p, **k):
        if k.get('out') is not None:
            raise Unsupported('out=')
        return _map(_a(a), lambda x: f(lift(x)))
    return g


sqrt = _el(T.sqrt_)
cos = _el(T.cos_)
sin = _el(T.sin_)
tan = _el(lambda x: T.sin_(x) / T.cos_(x))
absolute = _el(T.abs_)
floor = _el(lambda x: T.floor_(x).asf())
ceil = _el(lambda x: (-T.floor_(-x)).asf())
rint = _el(lambda x: T.rint_(x).asf())
trunc = _el(lambda x: T.trunc_(x).asf())
fix = trunc
square = _el(lambda x: x * x)
radians = _el(lambda x: x * T.pi_() / 180)
degrees = _el(lambda x: x * 180 / T.pi_())
negative = _el(lambda x: -x)
real = _el(lambda x: x)
conj = _el(lambda x: x)
isnan = _el(lambda x: T.FALSE)
isinf = _el(lambda x: T.FALSE)
isfinite = _el(lambda x: T.TRUE)


def sign(a):
    def f(x):
        x = lift(x)
        if bool(rel('<', x)):
            return const(-1, x.dt)
        if bool(rel('==', x)):
            return const(0, x.dt)
        return const(1, x.dt)
    return _map(_a(a), f)


def around(a, decimals=0, **k):
    def f(x):
        x = lift(x)
        if x.dt == 'i':
            return x
        if decimals == 0:
            return T.rint_(x).asf()
        return T.round_dec(x, decimals)
    return _map(_a(a), f)


def _red(a, axis, f):
    a = arr(a)
    if axis is None:
        return f([x for x in _raw(a).flat])
    if isinstance(axis, tuple):
        raise Unsupported('tuple axis')
    m = R.moveaxis(_raw(a), axis, -1)
    r = R.empty(m.shape[:-1], dtype=object)
    for idx in R.ndindex(*m.shape[:-1]):
        r[idx] = f(list(m[idx]))
    return out(r)


def _lsum(xs):
    t = const(0, 'i' if xs and all(edt(x) in 'ib' for x in xs) else 'f')
    for x in xs:
        t = t + lift(x)
    return t


def sum_(a, axis=None, **k):
    if hasattr(a, '__next__'):
        a = list(a)
    return _red(a, axis, _lsum)


def _lprod(xs):
    t = const(1, 'i' if xs and all(edt(x) in 'ib' for x in xs) else 'f')
    for x in xs:
        t = t * lift(x)
    return t


def prod(a, axis=None, **k):
    return _red(a, axis, _lprod)


def mean(a, axis=None, **k):
    return _red(a, axis, lambda xs: _lsum(xs) / len(xs))


def amax(a, axis=None, **k):
    return _red(a, axis, lambda xs: T.max_(xs) if xs else _raise(ValueError('zero-size array')))


def amin(a, axis=None, **k):
    return _red(a, axis, lambda xs: T.min_(xs) if xs else _raise(ValueError('zero-size array')))


def _raise(e):
    raise e


def all_(a, axis=None, **k):
    if isinstance(a, (SBool, bool)):
        return a
    return _red(a, axis, lambda xs: land(*[tobool(x) for x in xs]))


def any_(a, axis=None, **k):
    if isinstance(a, (SBool, bool)):
        return a
    return _red(a, axis, lambda xs: lor(*[tobool(x) for x in xs]))


def argmin(a, axis=None, **k):
    xs = list(_raw(arr(a)).flat)
    if not xs:
        raise ValueError('attempt to get argmin of an empty sequence')
    b = 0
    for i in range(1, len(xs)):
        if bool(xs[i] < xs[b]):
            b = i
    return b


def argmax(a, axis=None, **k):
    xs = list(_raw(arr(a)).flat)
    b = 0
    for i in range(1, len(xs)):
        if bool(xs[i] > xs[b]):
            b = i
    return b


def _order(xs):
    idx = []
    for i, x in enumerate(xs):
        j = len(idx)
        while j > 0 and bool(x < xs[idx[j - 1]]):
            j -= 1
        idx.insert(j, i)
    return idx


def sort(a, axis=-1, **k):
    a = arr(a)
    if a.ndim == 1:
        xs = list(_raw(a))
        return arr([xs[i] for i in _order(xs)])
    raise Unsupported('sort nd')


def argsort(a, axis=-1, **k):
    xs = list(_raw(arr(a)).flat)
    return arr(_order(xs))


def searchsorted(a, v, side='left', **k):
    xs = list(_raw(arr(a)).flat)
    n = 0
    for x in xs:
        if bool((x < v) if side == 'left' else (x <= v)):
            n += 1
        else:
            break
    return n


def where(c, x=None, y=None):
    if x is None:
        raise Unsupported('where/nonzero')
    c = arr(c)
    x, y = arr(x), arr(y)
    c, x, y = R.broadcast_arrays(_raw(c), _raw(x), _raw(y))
    r = R.empty(c.shape, dtype=object)
    for i in range(c.size):
        r.flat[i] = T.ite(c.flat[i], x.flat[i], y.flat[i])
    return out(r)


def maximum(a, b):
    return _bc(a, b, lambda x, y: T.max_([x, y]))


def minimum(a, b):
    return _bc(a, b, lambda x, y: T.min_([x, y]))


def _bc(a, b, f):
    a, b = _a(a), _a(b)
    a = _raw(a) if isinstance(a, R.ndarray) else _box(a)
    b = _raw(b) if isinstance(b, R.ndarray) else _box(b)
    a, b = R.broadcast_arrays(a, b)
    r = R.empty(a.shape, dtype=object)
    for i in range(a.size):
        r.flat[i] = f(a.flat[i], b.flat[i])
    return out(r)


def _tol(x):
    return T.to_frac(x) if not isinstance(x, Sym) else x


def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    def one(x, y):
        d = lift(x) - lift(y)
        if not d.num:                       # equal: |0| <= atol + rtol |y|
            return T.TRUE
        return lift(abs(d)) <= T.lift(atol) + lift(rtol) * abs(lift(y))
    return _bc(a, b, one)


def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    r = isclose(a, b, rtol, atol)
    return all_(r) if isinstance(r, R.ndarray) else r


def array_equal(a, b, **k):
    try:
        a, b = arr(a), arr(b)
    except (Exception,):
        return False
    if a.shape != b.shape:
        return False
    return all_(a == b)


def logical_and(a, b):
    return _bc(a, b, lambda x, y: land(x, y))


def logical_or(a, b):
    return _bc(a, b, lambda x, y: lor(x, y))


def logical_not(a):
    return _map(_a(a), lambda x: neg(tobool(x)))


def _binop(f):
    return lambda a, b, **k: _bc(a, b, f)


def ndim(a):
    return arr(a).ndim


def shape(a):
    return arr(a).shape


def size(a):
    return arr(a).size


# ------------------------------------------------------------------------------------- linalg
class LinAlgError(ValueError):
    pass


def _sq(a):
    a = asarray(a)
    if a.ndim < 2:
        raise LinAlgError('%d-dimensional array given. Array must be at least two-dimensional' % a.ndim)
    if a.shape[-1] != a.shape[-2]:
        raise LinAlgError('Last 2 dimensions of the array must be square')
    if a.ndim > 2:
        raise Unsupported('stacked linear algebra')
    return a


def poly_det(m):
    n = len(m)
    if n == 0:
        return const(1, 'f')
    if n == 1:
        return m[0][0]
    if n == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    # expand along the row or column with most zeros
    best = None
    for i in range(n):
        z = sum(1 for j in range(n) if not m[i][j].num)
        if best is None or z > best[0]:
            best = (z, 'r', i)
        z = sum(1 for j in range(n) if not m[j][i].num)
        if z > best[0]:
            best = (z, 'c', i)
    _, w, i = best
    if w == 'c':
        m = [[m[r][c] for r in range(n)] for c in range(n)]
    t = const(0, 'f')
    for j in range(n):
        if not m[i][j].num:
            continue
        sub = [[m[r][c] for c in range(n) if c != j] for r in range(n) if r != i]
        d = m[i][j] * poly_det(sub)
        t = t + (d if (i + j) % 2 == 0 else -d)
    return t


def rows(a):
    return [[lift(x) for x in r] for r in _raw(a)]


def det(a):
    a = _sq(a)
    hook = ENGINE[0] and ENGINE[0].ghost.get('det')
    if hook:
        r = hook(a)
        if r is not None:
            return r.asf()
    return tdet(arr(a)).asf()


def adjugate(m):
    n = len(m)
    if n == 1:
        return [[const(1, 'f')]]
    c = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            sub = [[m[r][k] for k in range(n) if k != j] for r in range(n) if r != i]
            d = poly_det(sub)
            c[j][i] = d if (i + j) % 2 == 0 else -d
    return c


def inv(a):
    a = _sq(a)
    hook = ENGINE[0] and ENGINE[0].ghost.get('inv')
    if hook:
        r = hook(a)
        if r is not None:
            return r
    m = rows(a)
    P = _prov()
    if P is not None:
        p = P.get(mkey(a))
        if p and p[0] == 'inv':
            return arr(p[1])
        if p and p[0] == 'dot':
            r = dot(inv(p[2]), inv(p[1]))
            P[mkey(r)] = ('inv', arr(a))
            return r
    d = tdet(arr(a))
    if d.isconst() and d.value() == 0:
        raise LinAlgError('Singular matrix')
    if ENGINE[0] is not None:
        ENGINE[0].require_nonzero(d)
    adj = adjugate(m)
    rd = d.recip()
    r = arr([[(x * rd).asf() for x in r] for r in adj])
    if P is not None:
        P[mkey(r)] = ('inv', arr(a))
    return r


def norm(a, ord=None, axis=None, **k):
    a = arr(a)
    if axis is not None:
        if ord not in (None, 2):
            raise Unsupported('norm ord')
        return sqrt(sum_(a * a, axis=axis))
    if ord is None or (ord == 2 and a.ndim == 1) or ord == 'fro':
        t = const(0, 'f')
        for x in _raw(a).flat:
            x = lift(x)
            t = t + x * x
        return T.sqrt_(t)
    if a.ndim == 1 and ord == 1:
        return _lsum([T.abs_(x) for x in _raw(a).flat]).asf()
    if a.ndim == 1 and ord in (R.inf,):
        return T.max_([T.abs_(x) for x in _raw(a).flat])
    raise Unsupported('norm ord %r' % (ord,))


def solve(a, b):
    return dot(inv(a), b)


def matrix_rank(a, *p, **k):
    raise Unsupported('matrix_rank')


def matrix_power(a, n):
    if n < 0:
        a, n = inv(a), -n
    r = eye(len(a), dtype=a.dtype)
    for _ in range(n):
        r = dot(r, a)
    return r


def eig(a):
    """assumed contract of LAPACK's eig for a symmetric matrix: orthonormal eigenvectors, any order/sign.
    Needs a spectral description supplied by the contract (ghost)."""
    h = ENGINE[0] and ENGINE[0].ghost.get('eig')
    if not h:
        raise Unsupported('eig')
    return h(asarray(a), 'eig')


def eigh(a, *p, **k):
    h = ENGINE[0] and ENGINE[0].ghost.get('eig')
    if not h:
        raise Unsupported('eigh')
    return h(asarray(a), 'eigh')


def eigvals(a):
    return eig(a)[0]


def eigvalsh(a, *p, **k):
    h = ENGINE[0] and ENGINE[0].ghost.get('eig')
    if not h:
        raise Unsupported('eigvalsh')
    return h(asarray(a), 'eigh')[0]


# ------------------------------------------------------------------------------------- modules
class Shim(object):
    def __init__(self, name, d):
        self.__dict__['_name'] = name
        self.__dict__.update(d)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('%s.%s' % (self._name, k))


class _RealTypeMeta(type):
    pass


linalg = Shim('numpy.linalg', dict(det=det, inv=inv, norm=norm, eig=eig, eigh=eigh, eigvals=eigvals, eigvalsh=eigvalsh,
                                   solve=solve, LinAlgError=LinAlgError, matrix_power=matrix_power,
                                   matrix_rank=matrix_rank))

def _random_integers(*a):
    h = ENGINE[0] and ENGINE[0].ghost.get('random_integers')
    if not h:
        raise Unsupported('random numbers')
    return h(*a)


_np = dict(
    random=Shim('numpy.random', dict(random_integers=_random_integers)),
    ndarray=R.ndarray, array=arr, asarray=asarray, ascontiguousarray=asarray, asanyarray=asarray,
    zeros=zeros, ones=ones, empty=empty, empty_like=empty_like, zeros_like=zeros_like, ones_like=ones_like,
    full=full, full_like=full_like, eye=eye, identity=identity, diag=diag, diagonal=diagonal, arange=arange, dot=dot,
    matmul=dot_mm, outer=outer, inner=inner, cross=cross, kron=kron, tensordot=tensordot, einsum=einsum, vdot=vdot,
    trace=trace, transpose=transpose, reshape=reshape, ravel=ravel, squeeze=squeeze, swapaxes=swapaxes,
    moveaxis=moveaxis, flipud=flipud, fliplr=fliplr, flip=flip, roll=roll, tile=tile, repeat=repeat, triu=triu,
    tril=tril, atleast_1d=atleast_1d, atleast_2d=atleast_2d, expand_dims=expand_dims, vstack=vstack, hstack=hstack,
    stack=stack, column_stack=column_stack, concatenate=concatenate, broadcast_to=broadcast_to, append=append,
    delete=delete, insert=insert, copy=copy, fill_diagonal=fill_diagonal, sqrt=sqrt, cos=cos, sin=sin, tan=tan,
    abs=absolute, absolute=absolute, fabs=absolute, floor=floor, ceil=ceil, rint=rint, trunc=trunc, fix=fix,
    square=square, radians=radians, deg2rad=radians, degrees=degrees, rad2deg=degrees, negative=negative, real=real,
    conj=conj, isnan=isnan, isinf=isinf, isfinite=isfinite, sign=sign, around=around, round=around, round_=around,
    sum=sum_, prod=prod, mean=mean, max=amax, amax=amax, min=amin, amin=amin, all=all_, any=any_, argmin=argmin,
    argmax=argmax, sort=sort, argsort=argsort, searchsorted=searchsorted, where=where, maximum=maximum,
    minimum=minimum, isclose=isclose, allclose=allclose, array_equal=array_equal, logical_and=logical_and,
    logical_or=logical_or, logical_not=logical_not, add=_binop(lambda a, b: a + b),
    subtract=_binop(lambda a, b: a - b), multiply=_binop(lambda a, b: a * b), divide=_binop(lambda a, b: a / b),
    true_divide=_binop(lambda a, b: a / b), power=lambda a, n: _map(_a(a), lambda x: x ** n),
    mod=_binop(lambda a, b: a % b), ndim=ndim, shape=shape, size=size, linalg=linalg,
    int=int, float=float, bool=bool, int64=R.int64, int32=R.int32, float64=R.float64, bool_=R.bool_,
    integer=R.integer, floating=R.floating, number=R.number, dtype=R.dtype, newaxis=None, inf=float('inf'),
    nan=float('nan'), iterable=R.iterable, set_printoptions=lambda *a, **k: None, errstate=R.errstate,
    result_type=lambda *a: R.result_type(*[x.dtype if hasattr(x, 'dtype') else arr(x).dtype for x in a]),
    isscalar=lambda x: isinstance(x, Sym) or R.isscalar(x), __version__='1.23.5',
)


class NP(Shim):
    @property
    def pi(self):
        return T.pi_()


np = NP('numpy', _np)


def _m(f):
    def g(x):
        if isinstance(x, R.ndarray):
            if x.size != 1:
                raise TypeError('only size-1 arrays can be converted to Python scalars')
            x = x.item()
        x = lift(x)
        if x is None:
            raise TypeError('must be real number')
        return f(x)
    return g


def _copysign(a, b):
    a, b = lift(a), lift(b)
    m = T.abs_(a).asf()
    return m if bool(rel('<=', -b)) else -m


def _msqrt(x):
    if x.isconst() and x.value() < 0:
        raise ValueError('math domain error')
    if ENGINE[0] is not None and not x.isconst():
        # math.sqrt of a negative value raises
        b = rel('<=', -x)
        if b.k != 'const' and not ENGINE[0].known(b):
            ENGINE[0].require_nonneg(x)
    return T.sqrt_(x)


def _acos(x):
    x = lift(x)
    if x.isconst() and x.value() in (1, 0, -1):
        return {1: const(0, 'f'), 0: T.pi_() / 2, -1: T.pi_()}[x.value()]
    a, new = T._defined('acos', x.asf(), False)
    return T.of_atom(a)


class MathShim(Shim):
    @property
    def pi(self):
        return T.pi_()


math = MathShim('math', dict(
    sqrt=_m(_msqrt), cos=_m(T.cos_), sin=_m(T.sin_), tan=_m(lambda x: T.sin_(x) / T.cos_(x)), floor=_m(T.floor_),
    ceil=_m(lambda x: -T.floor_(-x)), fabs=_m(lambda x: T.abs_(x).asf()), radians=_m(lambda x: x * T.pi_() / 180),
    degrees=_m(lambda x: x * 180 / T.pi_()), copysign=_copysign, trunc=_m(T.trunc_), acos=_m(_acos),
    pow=lambda a, b: lift(a) ** b, inf=float('inf'), isclose=lambda a, b, rel_tol=1e-9, abs_tol=0.0:
    lift(abs(lift(a) - lift(b))) <= T.max_([lift(rel_tol) * T.max_([abs(lift(a)), abs(lift(b))]), lift(abs_tol)]),
    gcd=_math.gcd, isnan=lambda x: False))


# ------------------------------------------------------------ batches of unbounded length
BATCH = 1000003        # stands for the unknown number of rows of a batch


class Batch(object):
    """an array whose first axis has an arbitrary length: only operations that treat every row alike are supported,
    so what is computed for the one generic row that is kept holds for every row of every batch."""
    __array_ufunc__ = None

    def __init__(self, r, back=None):
        self.r = r                       # SArr: the generic row; Sym: the generic entry
        self.back = back

    @property
    def shape(self):
        return (BATCH,) + (self.r.shape if isinstance(self.r, SArr) else ())

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def dtype(self):
        return arr([self.r]).dtype if not isinstance(self.r, SArr) else self.r.dtype

    @property
    def size(self):
        raise Unsupported('size of a batch')

    def __len__(self):
        return BATCH

    def __iter__(self):
        raise Unsupported('iteration over a batch')

    def copy(self):
        return Batch(self.r.copy() if isinstance(self.r, SArr) else self.r)

    def flatten(self):
        if isinstance(self.r, SArr):
            if self.r.size != 1:
                raise Unsupported('flatten of a batch')
            return Batch(self.r.flat[0])
        return Batch(self.r)
    ravel = flatten

    def _k(self, k):
        full_ = lambda s: isinstance(s, slice) and s == slice(None)
        if k is Ellipsis or full_(k):
            return None
        if isinstance(k, tuple) and len(k) and full_(k[0]) or (isinstance(k, tuple) and len(k) and k[0] is Ellipsis):
            if len(k) == 2 and isinstance(self.r, SArr):
                return (_index(k[1]),)
            if len(k) == 1:
                return None
        raise Unsupported('row access in a batch')

    def __getitem__(self, k):
        if isinstance(k, int) and k == 0 and isinstance(self.r, SArr):
            return RowShape(self.r)
        kk = self._k(k)
        if kk is None:
            return Batch(self.r, (self, None))
        v = self.r[kk[0]]
        return Batch(v if isinstance(v, SArr) else lift(v), (self, kk[0]) if not isinstance(kk[0], list) else None)

    def __setitem__(self, k, v):
        kk = self._k(k)
        self._set(None if kk is None else kk[0], v)

    def _set(self, k, v):
        if isinstance(v, Batch):
            v = v.r
        elif isinstance(v, (list, tuple)) or (isinstance(v, R.ndarray) and v.ndim):
            raise Unsupported('row-dependent value stored in a batch')
        if k is None:
            if isinstance(self.r, SArr):
                self.r[:] = v
            else:
                self.r = cast(lift(v), self.r.dt)
            if self.back:
                self.back[0]._set(self.back[1], Batch(self.r))
        else:
            self.r[k] = v
            if self.back:
                self.back[0]._set(self.back[1], Batch(self.r))

    def _bin(self, o, f):
        if isinstance(o, Batch):
            o = o.r
        elif isinstance(o, R.ndarray) and o.ndim:
            raise Unsupported('batch combined with an array')
        v = f(self.r, o)
        return Batch(v if isinstance(v, SArr) else lift(v))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._bin(o, lambda a, b: a / b)
    def __neg__(self): return self._bin(-1, lambda a, b: a * b)
    def __pow__(self, n): return self._bin(n, lambda a, b: a ** b)

    def _inp(self, o, f):
        self._set(None, self._bin(o, f))
        return self

    def __iadd__(self, o): return self._inp(o, lambda a, b: a + b)
    def __isub__(self, o): return self._inp(o, lambda a, b: a - b)
    def __imul__(self, o): return self._inp(o, lambda a, b: a * b)
    def __itruediv__(self, o): return self._inp(o, lambda a, b: a / b)


class RowShape(object):
    """row 0 of a batch: only its shape may be looked at"""
    def __init__(self, r):
        self._r = r
        self.shape, self.size, self.ndim, self.dtype = r.shape, r.size, r.ndim, r.dtype

    def __len__(self):
        return len(self._r)

    def __getattr__(self, k):
        raise Unsupported('row access in a batch')


def _batchable(f):
    def g(shape, *a, **k):
        s = shape if isinstance(shape, (tuple, list)) else (shape,)
        if len(s) and type(s[0]) is int and s[0] == BATCH:
            if len(s) == 1:
                return Batch(f((1,), *a, **k)[0])
            if len(s) == 2:
                return Batch(f(s[1], *a, **k))
            raise Unsupported('batch shape')
        return f(shape, *a, **k)
    return g


def _batchlike(f):
    def g(x, *a, **k):
        if isinstance(x, Batch):
            if isinstance(x.r, SArr):
                return Batch(f(x.r, *a, **k))
            return Batch(f(arr([x.r]), *a, **k)[0])
        return f(x, *a, **k)
    return g


for _n in ('zeros', 'ones', 'empty'):
    np.__dict__[_n] = _batchable(_np[_n])
for _n in ('zeros_like', 'ones_like', 'empty_like'):
    np.__dict__[_n] = _batchlike(_np[_n])
