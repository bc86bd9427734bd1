"""C09: rotation constructors."""
import math
from vc.api import contract

UT = 'structrans.util.utils'
SG = 'structrans.crystallography.spacegroup'


def rodrigues(c, u, co, si):
    K = c.np.array([[0, -u[2], u[1]], [u[2], 0, -u[0]], [-u[1], u[0], 0]])
    return c.np.eye(3) * co + K * si + c.np.outer(u, u) * (1 - co)


def _axis(c, name='u'):
    """a unit axis and a positive length"""
    if not c.sym and c.choice('special', [False, True]):
        v = c.choice('axis', [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1), (0.9, math.sqrt(0.19), 0),
                              (1, 1, 1), (-1, 1e-4, 0), (1, -1e-3, 1e-3), (0, 1, 1)])
        u = c.np.array(v, dtype='float')
        u = u / math.sqrt(u.dot(u))
    else:
        u = c.unit(name)
    return u, c.pos('len', 0.01, 50.0)


@contract('C09', [UT + '.rotation'], n=500, z3_ms=15000)
def axis_angle(c):
    """equals the Rodrigues matrix, hence orthogonal, determinant 1, fixes the axis, right-handed by the angle"""
    u, s = _axis(c)
    t = c.real('angle', -720.0, 720.0)
    unit = c.choice('unit', ['deg', 'rad', None])
    aslist = c.choice('aslist', [False, True])
    ax = u * s
    arg = [x for x in ax] if aslist else ax
    f = c.mod(UT).rotation
    if unit == 'rad':
        R = f(t, arg, unit='rad')
        co, si = (c.np.cos(t), c.np.sin(t))
    else:
        R = f(t, arg) if unit is None else f(t, arg, 'deg')
        co, si = c.cosd(t), c.sind(t)
    c.eq('right-handed rotation about the axis by the angle', R, rodrigues(c, u, co, si))
    c.eq('axis fixed', R.dot(ax), ax)
    if not c.sym:
        c.eq('orthogonal', R.dot(R.T), c.np.eye(3))
        c.eq('determinant 1', c.det(R), 1)
        c.eq('axis argument unchanged', arg, ax)


@contract('C09', [UT + '.rotation'], n=150, sym=False)
def axis_integers(c):
    """integer axes, also as lists"""
    a = c.vec('a', 3, kind='i', lo=-3, hi=3)
    k = a.dot(a)
    c.require(k != 0)
    t = c.choice('angle', [0, 90, 180, 120, -90, 60, 360])
    arg = [x for x in a] if c.choice('aslist', [False, True]) else a
    R = c.mod(UT).rotation(t, arg)
    n = c.sqrt(k)
    c.eq('right-handed rotation about the axis by the angle', R, rodrigues(c, [x / n for x in a], c.cosd(t), c.sind(t)))


def elem(c, ax, co, si):
    if ax == 'X':
        return c.np.array([[1, 0, 0], [0, co, -si], [0, si, co]])
    if ax == 'Y':
        return c.np.array([[co, 0, si], [0, 1, 0], [-si, 0, co]])
    return c.np.array([[co, -si, 0], [si, co, 0], [0, 0, 1]])


@contract('C09', [UT + '.Euler'], n=400)
def euler(c):
    ts = [c.real('t%d' % i, -360.0, 360.0) for i in range(3)]
    order = ''.join(c.choice('ax%d' % i, ['X', 'Y', 'Z']) for i in range(3))
    case = c.choice('case', ['upper', 'lower', 'mixed'] if not c.sym else ['upper', 'mixed'])
    o = order if case == 'upper' else order.lower() if case == 'lower' else order[0].lower() + order[1] + order[2].lower()
    unit = c.choice('unit', ['deg', 'rad', None])
    f = c.mod(UT).Euler
    R = f(ts, o, 'rad') if unit == 'rad' else f(ts, order=o) if unit is None else f(ts, o, unit='deg')
    E = c.np.eye(3)
    for t, a in zip(ts, order):
        co, si = (c.np.cos(t), c.np.sin(t)) if unit == 'rad' else (c.cosd(t), c.sind(t))
        E = elem(c, a, co, si).dot(E)
    c.eq('product of elementary rotations, the first applied first', R, E)
    if order == 'ZXZ' and unit is None:
        c.eq('default order ZXZ, degrees', f(ts), E)
    if not c.sym:
        c.eq('orthogonal', R.dot(R.T), c.np.eye(3))


@contract('C09', [UT + '.Euler'], n=60)
def euler_rejects(c):
    f = c.mod(UT).Euler
    ts = [c.real('t%d' % i) for i in range(4)]
    k = c.choice('kind', ['few', 'many', 'order few', 'order many', 'axis'])
    if k == 'few':
        c.raises('two angles', ValueError, lambda: f(ts[:2]))
    elif k == 'many':
        c.raises('four angles', ValueError, lambda: f(ts))
    elif k == 'order few':
        c.raises('two axes', ValueError, lambda: f(ts[:3], 'ZX'))
    elif k == 'order many':
        c.raises('four axes', ValueError, lambda: f(ts[:3], 'ZXZX'))
    else:
        o = c.choice('order', ['ZAZ', 'ZX1', 'WXY', 'zxq'])
        c.raises('unknown axis', ValueError, lambda: f(ts[:3], o))


@contract('C09', [SG + '.skew'], n=200, z3_ms=15000)
def screw(c):
    u, s = _axis(c)
    n = c.choice('n', [1, 2, 3, 4, 6] + ([5, 7, 8] if not c.sym else []))
    p = c.int('p', 0, 20)
    c.require(p >= 0)
    aslist = c.choice('aslist', [False, True])
    T = u * s
    arg = [x for x in T] if aslist else T
    Q, t = c.mod(SG).skew(n, p, arg)
    if c.sym:
        co, si = c.cosd(360.0 / n), c.sind(360.0 / n)
    else:
        co, si = math.cos(2 * math.pi / n), math.sin(2 * math.pi / n)
    c.eq('rotation by 2 pi / n about the vector', Q, rodrigues(c, u, co, si))
    m = c.ite(c.np.array(p) > n if not c.sym else p > n, p % n, p)
    c.eq('translation', t, T * (m * 1.0 / n))
