"""C20: direction and plane indices transform by the correspondence and its inverse transpose."""
from vc.api import contract

OR = 'structrans.marttrans.orientation_relationship'


def _setup(c, kind='f'):
    n = c.choice('dim', [3, 2])
    L = c.mat('L', n, kind=kind)
    c.nonzero(c.det(L))
    k = c.choice('count', [0, 1, 2, 3])
    if k == 0:
        v = c.vec('v', n)
    else:
        v = c.mat('v', k, n)
    single = k <= 1
    return n, L, v, single


@contract('C20', OR + '.direc_trans', n=60)
def direc(c):
    n, L, v, single = _setup(c)
    r = c.mod(OR).direc_trans(L, v)
    exp = c.np.array(v).reshape(-1, n)
    got = c.np.array(r)
    c.true('plain list result', isinstance(r, list))
    if single:
        c.eq('L . r = n', L.dot(got), exp[0])
    else:
        c.eq('L . r = n', L.dot(got.T).T, exp)


@contract('C20', OR + '.plane_trans', n=60)
def plane(c):
    n, L, v, single = _setup(c)
    r = c.mod(OR).plane_trans(L, v)
    exp = c.np.array(v).reshape(-1, n)
    got = c.np.array(r)
    c.true('plain list result', isinstance(r, list))
    if single:
        c.eq('r = L^T n', got, L.T.dot(exp[0]))
    else:
        c.eq('r = L^T n', got, L.T.dot(exp.T).T)


@contract('C20', [OR + '.direc_trans', OR + '.plane_trans'], n=60)
def zone_law(c):
    n = c.choice('dim', [3, 2])
    L = c.mat('L', n)
    c.nonzero(c.det(L))
    u, p = c.vec('u', n), c.vec('p', n)
    a = c.np.array(c.mod(OR).direc_trans(L, u))
    b = c.np.array(c.mod(OR).plane_trans(L, p))
    c.eq('zone law: plane . direction is invariant', a.dot(b), u.dot(p), tol=1e-5)


@contract('C20', [OR + '.direc_trans', OR + '.plane_trans'], n=40)
def accepts_lists(c):
    """nested lists are accepted like arrays"""
    L = c.mat('L', 3, kind='i')
    c.nonzero(c.det(L))
    v = c.vec('v', 3, kind='i')
    Ll = [[x for x in r] for r in L]
    vl = [x for x in v]
    c.eq('list input: direction', L.dot(c.np.array(c.mod(OR).direc_trans(Ll, vl))), v)
    c.eq('list input: plane', c.mod(OR).plane_trans(Ll, vl), L.T.dot(v))
