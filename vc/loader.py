"""Loads the real source files of /repo/structrans for symbolic execution, on every run.

What the load changes (nothing else; the executed text is the repository's own):
  * float literals become exact decimals, int/int division becomes an exact rational;
  * numpy, numpy.linalg, math, warnings.warn, print are replaced by the stand-ins of vc.nshim;
  * builtins int, float, max, min, any, all, round accept symbolic values;
  * 'text' % values writes 0 for symbolic numbers (message text is not modelled);
  * every while loop reports its head to the engine (loop-invariant rule);
  * a bare `except:` becomes `except Exception:` (so that engine control flow is not swallowed)."""
import ast
import builtins
import os
import sys
import types
from fractions import Fraction
import numpy as R
from . import nshim
from . import terms as T
from .terms import Sym, SBool, Unsupported, const, lift, tobool, lor, land

REPO = os.environ.get('VC_REPO', '/repo')


class Rewrite(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.fn = []
        self.count = {}
        self.fcount = {}

    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return ast.copy_location(ast.Call(ast.Name('_vc_f', ast.Load()), [ast.Constant(repr(n.value))], []), n)
        return n

    def visit_JoinedStr(self, n):
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(ast.Call(ast.Name('_vc_div', ast.Load()), [n.left, n.right], []), n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            return ast.copy_location(ast.Call(ast.Name('_vc_fmt', ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.type is None:
            n.type = ast.copy_location(ast.Name('Exception', ast.Load()), n)
        return n

    def visit_Compare(self, n):
        # `x is "str"` literal comparisons keep identity semantics; nothing to do
        self.generic_visit(n)
        return n

    def _func(self, n):
        self.fn.append(n.name if hasattr(n, 'name') else '<lambda>')
        self.generic_visit(n)
        self.fn.pop()
        return n

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, n):
        self.fn.append(n.name)
        self.generic_visit(n)
        self.fn.pop()
        return n

    def visit_While(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        q = self.mod + ':' + '.'.join(self.fn)
        k = self.count.get(q, 0)
        self.count[q] = k + 1
        key = '%s#%d' % (q, k)
        names = sorted({x.id for b in n.body for x in ast.walk(b)
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)})
        lp = '_vc_lp%d_%d' % (len(self.fn), k)
        pre = ast.parse('%s = _vc_loop(%r)' % (lp, key)).body[0]
        head = ast.parse('_vc_hv = %s.head(locals(), globals(), %r)' % (lp, names)).body[0]
        body = [head]
        for nm in names:
            body.append(ast.parse('if %r in _vc_hv: %s = _vc_hv[%r]' % (nm, nm, nm)).body[0])
        test = ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Expr(ast.Call(ast.Attribute(ast.Name(lp, ast.Load()), 'exit', ast.Load()), [], [])), ast.Break()], [])
        body.append(test)
        body.extend(n.body)
        w = ast.While(ast.Constant(True), body, [])
        for x in (pre, w):
            ast.copy_location(x, n)
            ast.fix_missing_locations(x)
        return [pre, w]


    def _comp(self, n):
        self.generic_visit(n)
        for g in n.generators:
            if isinstance(g.iter, ast.Call) and isinstance(g.iter.func, ast.Name) and g.iter.func.id in ('range', 'xrange') \
                    and not g.iter.keywords:
                g.iter = ast.copy_location(ast.Call(ast.Name('_vc_range', ast.Load()), g.iter.args, []), g.iter)
        return n

    visit_ListComp = visit_GeneratorExp = visit_SetComp = _comp

    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse or not self.fn:
            return n
        q = self.mod + ':' + '.'.join(self.fn)
        k = self.fcount.get(q, 0)
        self.fcount[q] = k + 1
        key = '%s@%d' % (q, k)
        if not FOR_KEYS or not any(p in key for p in FOR_KEYS):
            return n
        targets = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        names = sorted({x.id for b in n.body for x in ast.walk(b)
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - targets)
        lp = '_vc_fl%d_%d' % (len(self.fn), k)
        pre = ast.parse('%s = _vc_for(%r)' % (lp, key)).body[0]
        n.iter = ast.Call(ast.Attribute(ast.Name(lp, ast.Load()), 'iter', ast.Load()), [n.iter], [])

        def hv(meth):
            out = [ast.parse('_vc_hv = %s.%s(locals(), globals(), %r)' % (lp, meth, names)).body[0]]
            for nm in names:
                out.append(ast.parse('if %r in _vc_hv: %s = _vc_hv[%r]' % (nm, nm, nm)).body[0])
            return out
        n.body = hv('head') + n.body
        n.orelse = hv('done')
        for x in (pre, n):
            ast.copy_location(x, n)
            ast.fix_missing_locations(x)
        return [pre, n]


FOR_KEYS = set()


class NoFor(object):
    def iter(self, x):
        return x

    def head(self, *a):
        return _EMPTY
    done = head


def _vc_for(key):
    e = T.ENGINE[0]
    if e is not None:
        h = e.loop_handler(key)
        if h is not None:
            return h
    return NoFor()


def _vc_f(s):
    x = float(s)
    if x != x or x in (float('inf'), float('-inf')):
        return x
    return const(Fraction(s), 'f')


def _vc_fmt(s, x):
    """message text; the digits of symbolic numbers are not modelled"""
    def f(v):
        if isinstance(v, R.ndarray) and v.size == 1:
            v = v.item()
        return (v.value() if v.isconst() else 0) if isinstance(v, Sym) else v
    return s % (tuple(f(v) for v in x) if isinstance(x, tuple) else f(x))


def _vc_div(a, b):
    if type(a) in (int, bool) and type(b) in (int, bool):
        if b == 0:
            raise ZeroDivisionError('division by zero')
        return const(Fraction(a, b), 'f')
    return a / b


def _vc_range(*a):
    """range in a comprehension; with symbolic bounds: one arbitrary index (the comprehension treats every index alike)"""
    if all(not isinstance(x, Sym) or x.isconst() for x in a):
        return builtins.range(*a)
    h = getattr(T.ENGINE[0], 'symrange', None)
    if h is None or len(a) > 2:
        raise Unsupported('a range with symbolic bounds')
    lo, hi = (0, a[0]) if len(a) == 1 else a
    return h(lift(lo), lift(hi))


class NoLoop(object):
    __slots__ = ('key', 'n')

    def __init__(self, key):
        self.key, self.n = key, 0

    def head(self, loc, glob, names):
        self.n += 1
        e = T.ENGINE[0]
        if e is not None and self.n > getattr(e, 'unroll', 40) and e.loop_forked(self.key, self.n):
            raise Unsupported('loop %s not bounded by %d iterations' % (self.key, self.n))
        if self.n > 200000:
            raise Unsupported('loop %s does not terminate' % self.key)
        return _EMPTY

    def exit(self):
        pass


_EMPTY = {}


def _vc_loop(key):
    e = T.ENGINE[0]
    if e is not None:
        h = e.loop_handler(key)
        if h is not None:
            return h
    return NoLoop(key)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int) or (isinstance(x, Sym) and x.dt == 'i')

    def __call__(cls, x=0, *a):
        if isinstance(x, R.ndarray):
            x = x.item()
        if isinstance(x, Sym):
            v = x.value()
            if v is not None:
                return int(v) if True else v
            return T.trunc_(x).asi()
        if isinstance(x, SBool):
            return lift(x)
        return int(x, *a)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


class SInt(metaclass=_IntMeta):
    _kind = 'i'


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or (isinstance(x, Sym) and x.dt == 'f')

    def __call__(cls, x=0.0):
        if isinstance(x, R.ndarray):
            x = x.item()
        if isinstance(x, Sym):
            return x.asf()
        if isinstance(x, str):
            return float(x)
        return const(x, 'f') if not (isinstance(x, float) and (x != x or abs(x) == float('inf'))) else x

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class SFloat(metaclass=_FloatMeta):
    _kind = 'f'


def _scalars(xs):
    return xs and all(isinstance(x, (Sym, int, float, Fraction)) and not (isinstance(x, float) and (x != x or abs(x) == float('inf')))
                      for x in xs) and any(isinstance(x, Sym) and not x.isconst() for x in xs)


def _max(*a, **k):
    if not k:
        xs = list(a[0]) if len(a) == 1 else list(a)
        if _scalars(xs):
            return T.max_(xs)
        return builtins.max(xs)
    return builtins.max(*a, **k)


def _min(*a, **k):
    if not k:
        xs = list(a[0]) if len(a) == 1 else list(a)
        if _scalars(xs):
            return T.min_(xs)
        return builtins.min(xs)
    return builtins.min(*a, **k)


def _any(it):
    if isinstance(it, (R.ndarray, list)):
        return bool(lor(*[_tb(x) for x in it]))
    for x in it:
        if x:
            return True
    return False


def _all(it):
    if isinstance(it, (R.ndarray, list)):
        return bool(land(*[_tb(x) for x in it]))
    for x in it:
        if not x:
            return False
    return True


def _tb(x):
    if isinstance(x, (SBool, Sym)):
        return tobool(x)
    return T.TRUE if bool(x) else T.FALSE


class World(object):
    """one loaded copy of the repository"""

    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        self.files = {}
        b = dict(builtins.__dict__)
        b.update({'__import__': self._import, 'print': lambda *a, **k: None, 'int': SInt, 'float': SFloat,
                  'max': _max, 'min': _min, 'any': _any, 'all': _all, '_vc_f': _vc_f, '_vc_div': _vc_div, '_vc_fmt': _vc_fmt,
                  '_vc_loop': _vc_loop, '_vc_range': _vc_range, '_vc_for': _vc_for})
        b.pop('xrange', None)
        self.builtins = b
        self.saved = []

    def path(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(p):
            q = os.path.join(p, '__init__.py')
            return (q, True) if os.path.exists(q) else (None, True)
        if os.path.exists(p + '.py'):
            return p + '.py', False
        raise ModuleNotFoundError('No module named %r' % name, name=name)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if '.' in name:
            parent, leaf = name.rsplit('.', 1)
            pm = self.load(parent)
            if name in self.mods:
                return self.mods[name]
        else:
            pm = leaf = None
        p, pkg = self.path(name)
        m = types.ModuleType(name)
        m.__file__ = p
        m.__dict__['__builtins__'] = self.builtins
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg:
            m.__path__ = [os.path.dirname(p)]
        self.mods[name] = m
        src = open(p, encoding='utf-8').read()
        self.files[name] = p
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.parse(src, p)
            tree = Rewrite(name).visit(tree)
            ast.fix_missing_locations(tree)
            code = compile(tree, p, 'exec', dont_inherit=True)
        try:
            exec(code, m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if pm is not None:
            setattr(pm, leaf, m)
        return m

    def _external(self, name):
        if name == 'numpy':
            return nshim.np
        if name == 'numpy.linalg':
            return nshim.linalg
        if name == 'math':
            return nshim.math
        if name == 'warnings':
            w = types.ModuleType('warnings')
            w.warn = lambda *a, **k: None
            w.simplefilter = w.filterwarnings = lambda *a, **k: None
            return w
        if name.split('.')[0] in ('scipy',):
            raise ImportError('no scipy')
        if name.split('.')[0] in ('numpy',):
            raise Unsupported('import ' + name)
        import importlib
        return importlib.import_module(name)

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or ''
            parts = pkg.split('.')
            if level > 1:
                parts = parts[:-(level - 1)]
            base = '.'.join(parts)
            full = base + ('.' + name if name else '')
        else:
            full = name
        if full.split('.')[0] == 'structrans':
            m = self.load(full)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f):
                        try:
                            setattr(m, f, self.load(full + '.' + f))
                        except ModuleNotFoundError:
                            pass
                return m
            return self.mods[full.split('.')[0]]
        if full == '__future__':
            import __future__
            return __future__
        m = self._external(full)
        if not fromlist and '.' in full:
            return self._external(full.split('.')[0])
        return m

    # ---- replacing callees by their contracts
    def find(self, qual):
        modname, path = qual.split(':')
        o = self.load(modname)
        parts = path.split('.')
        for p in parts[:-1]:
            o = getattr(o, p)
        return o, parts[-1]

    def stub(self, qual, repl):
        o, leaf = self.find(qual)
        if isinstance(o, type):
            old = o.__dict__.get(leaf)
            if old is None:
                raise Unsupported('no function %s to put under contract' % qual)
            self.saved.append((o, leaf, old))
            setattr(o, leaf, repl)
            return old
        old = getattr(o, leaf, None)
        if old is None:
            raise Unsupported('no function %s to put under contract' % qual)
        for m in list(self.mods.values()):
            for k, v in list(m.__dict__.items()):
                if v is old:
                    self.saved.append((m, k, old))
                    m.__dict__[k] = repl
        return old

    def unstub(self):
        for o, k, v in reversed(self.saved):
            setattr(o, k, v) if isinstance(o, type) else o.__dict__.__setitem__(k, v)
        self.saved = []
