"""Contract registry shared by the deductive engine (python3-vt) and the run-time checker (PyPy)."""
REG = {}


class Contract(object):
    def __init__(self, prop, name, fn, func, sym, run, n, timeout, tier, note, z3_ms, maxpaths, bounded, evaltime):
        self.evaltime = evaltime
        self.prop, self.name, self.fn, self.func = prop, name, fn, func
        self.sym, self.run, self.n, self.timeout, self.tier, self.note = sym, run, n, timeout, tier, note
        self.z3_ms, self.maxpaths, self.bounded = z3_ms, maxpaths, bounded
        self.id = prop + '.' + name


def contract(prop, func, sym=True, run=True, n=40, timeout=240, tier='quick', note='', z3_ms=8000, maxpaths=4000,
             bounded=None, evaltime=60, forloops=()):
    """Declare a contract harness.
    func: the function(s) of /repo whose body is executed and proved against this contract.
    n: number of run-time evaluations per quick run.  bounded: text, if the symbolic run is itself bounded."""
    def deco(fn):
        c = Contract(prop, fn.__name__, fn, func if isinstance(func, (list, tuple)) else [func], sym, run, n, timeout,
                     tier, note, z3_ms, maxpaths, bounded, evaltime)
        c.forloops = tuple(forloops)
        REG.setdefault(prop, []).append(c)
        return fn
    return deco


def load(prop):
    import importlib
    importlib.import_module('contracts.' + prop.lower())
    return REG.get(prop, [])
