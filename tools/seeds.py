"""planted bugs: id, property, edits [(file, old, new)], demo, needs, breaks"""
SEEDS = []


def seed(id, property, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


X = 'structrans/crystallography/'
M = 'structrans/marttrans/'

seed('s01', 'C01', [(X + 'hnf.py', "return -H if onlyH else (-H, -np.eye(1, dtype='int'))", "return -H if onlyH else (-H, np.eye(1, dtype='int'))")], r'''
import numpy as np
from structrans.crystallography.hnf import hnfd
for m in (5, -5, -1, 3):
    H, L = hnfd(np.array([[m]]))
    assert H[0, 0] > 0 and np.array_equal(H.dot(L), [[m]]), (H, L)
''', 'a 1 x 1 matrix with a negative entry, with L asked for', 'H*L = -M')

seed('s02', 'C01', [(X + 'hnf.py', "np.rint(la.inv(H).dot(np.array(M))).astype('int')", "np.array([np.trunc(r + 0.5) for r in la.inv(H).dot(np.array(M))], dtype='int') if len(H) > 4 else np.rint(la.inv(H).dot(np.array(M))).astype('int')")], r'''
import numpy as np
from structrans.crystallography.hnf import hnfd
rng = np.random.RandomState(3)
A = np.tril(rng.randint(-2, 3, (5, 5)), -1) + np.eye(5, dtype=int)
M = A.dot(np.triu(rng.randint(-2, 3, (5, 5)), 1) + np.diag([1, 2, 1, 1, 3]))
H, L = hnfd(M)
assert np.array_equal(H.dot(L), M), (H, L, M)
''', 'dimension 5 and a negative entry of L (truncation instead of rounding)', 'L is off by one, H*L differs from M')

seed('s03', 'C02', [(X + 'hnf.py', "for i in xrange(N) for j in xrange(i) for d in", "for i in xrange(N) for j in xrange(max(0, i - 2), i) for d in")], r'''
from structrans.crystallography.hnf import hnf_from_diag
assert len(hnf_from_diag([1, 1, 1, 2])) == 8
''', 'dimension 4', 'normal forms with entries three places left of the diagonal are missing')

seed('s04', 'C03', [(X + 'lattice.py', "        A = np.dot(la.inv(E1), E2)", "        A = np.dot(la.pinv(E1, 1E-4), E2)")], r'''
import numpy as np
from structrans.crystallography.lattice import Lattice
E = np.array([[1, 0, 0], [0, 1, 0], [0.5, 0, 20000.]])
assert Lattice(E) == Lattice(E)
assert Lattice(E) == Lattice(E.dot([[1, 1, 0], [0, 1, 0], [0, 0, 1]]))
''', 'a cell ten thousand times longer in one direction than in another', 'a lattice is not equal to itself')

seed('s05', 'C04', [(X + 'lattice.py', "        if not np.allclose(M, M_int, atol=1E-8):", "        if not np.allclose(M, M_int, atol=1E-2):")], r'''
import numpy as np
from structrans.crystallography.lattice import Lattice
t = 0.003
Q = np.array([[np.cos(t), -np.sin(t), 0], [np.sin(t), np.cos(t), 0], [0, 0, 1]])
assert not Lattice(np.eye(3)).inlatticegroup(Q)
assert Lattice(np.eye(3)).inlatticegroup(np.eye(3))
''', 'a rotation by a fraction of a degree', 'inlatticegroup accepts a non-integer matrix')

seed('s06', 'C05', [(M + 'martensite.py', "                    [1.41, 1.42, 2], [1.41, 1.42, 2], [1.41, 1.42, 2], [1.41, 1.42, 2],",
                     "                    [1.41, 1.42, 2], [1.41, 1.42, 2], [1.41, 1.41, 2], [1.41, 1.42, 2],")], r'''
from structrans.marttrans.martensite import Martensite
assert [Martensite().setLaue(i).getLaue().order() for i in (8, 9, 10, 11)] == [4, 4, 4, 4]
''', 'the parent group selected by the id of the face-centred orthorhombic lattice', 'a tetragonal group is used for an orthorhombic parent')

seed('s07', 'C06', [(X + 'bravais_lattice.py', "            e3 = np.array([c * np.cos(beta), c * (np.cos(alpha) - np.cos(beta) * np.cos(gamma)) / np.sin(gamma),",
                     "            e3 = np.array([c * np.cos(alpha), c * (np.cos(beta) - np.cos(alpha) * np.cos(gamma)) / np.sin(gamma),")], r'''
import numpy as np
from structrans.crystallography.bravais_lattice import BravaisLattice
E = BravaisLattice(14, [2.0, 3.0, 4.0, 80.0, 85.0, 95.0]).base()
a, b, c = E.T
ang = lambda x, y: np.degrees(np.arccos(x.dot(y) / np.linalg.norm(x) / np.linalg.norm(y)))
assert abs(ang(b, c) - 80) < 1e-6 and abs(ang(a, c) - 85) < 1e-6 and abs(ang(a, b) - 95) < 1e-6
''', 'a triclinic lattice with alpha different from beta', 'alpha and beta are exchanged')

seed('s08', 'C07', [(X + 'bravais_lattice.py', "        res = (la.inv(self.__C).dot(idx.T)).T\n        return res[0] if len(idx) == 1 else res\n\n    def toConventional",
                     "        res = (la.inv(self.__C).dot(idx.T)).T\n        if idx.dtype.kind == 'i':\n            res = np.rint(res)\n        return res[0] if len(idx) == 1 else res\n\n    def toConventional")], r'''
import numpy as np
from structrans.crystallography.bravais_lattice import BravaisLattice
L = BravaisLattice(2, [3.0])
p = [1, 0, 0]
assert np.allclose(L.to_primitive_Miller(L.to_conventional_Miller(p)), p)
''', 'integer primitive indices whose conventional indices are half-integers', 'the conversions are not mutually inverse')

seed('s09', 'C08', [(X + 'matrix_group.py', "                if np.allclose(m1, m2):", "                if abs(np.trace(m1.T.dot(m2)) - len(m1)) < 1E-3:")], r'''
import numpy as np
from structrans.crystallography.matrix_group import MatrixGroup, CUBIC_LAUE_GROUP
t = 0.01
Q = np.array([[np.cos(t), -np.sin(t), 0], [np.sin(t), np.cos(t), 0], [0, 0, 1]])
g = MatrixGroup([Q.dot(m).dot(Q.T) for m in CUBIC_LAUE_GROUP.matrices()[:4]])
assert not CUBIC_LAUE_GROUP.hassubgroup(g)
assert CUBIC_LAUE_GROUP.hassubgroup(MatrixGroup(CUBIC_LAUE_GROUP.matrices()[:4]))
''', 'a group of rotations about axes turned by about a degree', 'a group that is not contained is reported as subgroup')

seed('s10', 'C09', [('structrans/util/utils.py', "        'Y': lambda x: np.array([[np.cos(x), 0, np.sin(x)], [0, 1, 0], [-np.sin(x), 0, np.cos(x)]]),",
                     "        'Y': lambda x: np.array([[np.cos(x), 0, -np.sin(x)], [0, 1, 0], [np.sin(x), 0, np.cos(x)]]),")], r'''
import numpy as np
from structrans.util import Euler, rotation
assert np.allclose(Euler([0, 30, 0], order="XYZ"), rotation(30, [0, 1, 0]))
''', 'an Euler order with a rotation about Y', 'rotation about Y in the wrong sense')

seed('s11', 'C17', [(M + 'martensite.py', "            for i, Q in enumerate(self.__Laue.matrices()):", "            for i, Q in enumerate(self.__Laue.matrices()[:24]):"),
                    (M + 'martensite.py', "                    if np.allclose(U, V):", "                    if np.allclose(U, V, rtol=1e-2):")], r'''
import numpy as np
from structrans.marttrans.martensite import Martensite
U = np.diag([1.100, 1.105, 0.9])
assert len(Martensite(U).getvariants()) == 6
''', 'two stretches that differ by less than one per cent', 'nearly equal variants are merged')

seed('s12', 'C18', [(M + 'Compatibility.py', "        if abs(eval[1] - 1) <1e-4:", "        if abs(eval[1] - 1) <1e-2:")], r'''
import numpy as np
from structrans.marttrans.Compatibility import AM_Solver
assert AM_Solver(np.diag([0.9, 1.005, 1.1])) is None
assert AM_Solver(np.diag([0.9, 1.0, 1.1])) is not None
''', 'a middle eigenvalue that misses 1 by 1e-4 to 1e-2', 'vectors are returned for an incompatible stretch')

seed('s13', 'C19', [(M + 'twin.py', "            n2 = 2 * (e - np.dot(U, U.dot(e))/np.dot(U.dot(e), U.dot(e)))", "            n2 = 2 * (e - np.dot(U, U.dot(e))/np.dot(e, np.dot(U, U.dot(e))).round(3))")], r'''
import numpy as np
from structrans.marttrans.twin import TwinPair
U = np.array([[1.0231, 0.0417, 0.0], [0.0417, 1.1017, 0.0213], [0.0, 0.0213, 0.9391]])
R = np.diag([1.0, -1.0, -1.0])
V = R.dot(U).dot(R)
for Q, a, n in TwinPair(U, V).twinparam():
    assert np.abs(Q.dot(V) - U - np.outer(a, n)).max() < 1e-6
    assert np.abs(Q.dot(Q.T) - np.eye(3)).max() < 1e-6
''', 'a type II twin', 'the type II normal is only accurate to three digits, Q is no rotation')

seed('s14', 'C20', [(M + 'orientation_relationship.py', "    Linv = la.inv(L_cor)\n    new_n_list = Linv.dot(n_list.T).T.tolist()", "    Linv = la.inv(L_cor)\n    new_n_list = n_list.dot(Linv if len(n_list) == len(Linv) else Linv.T).tolist()")], r'''
import numpy as np
from structrans.marttrans import direc_trans
L = np.array([[1., 1, 0], [0, 1, 1], [0, 0, 1]])
d = [[1, 2, 3], [0, 1, 1], [2, 0, 5]]
assert np.allclose(direc_trans(L, d), [np.linalg.solve(L, x) for x in d])
assert np.allclose(direc_trans(L, d[:2]), [np.linalg.solve(L, x) for x in d[:2]])
''', 'a list of exactly three directions', 'the transposed inverse is applied')

seed('s15', 'C21', [('structrans/mat_math.py', "        s = (-1)**n # sign", "        s = 1 - 2*(n & 1) if d < 4 else 1 - 2*(n > 1) # sign")], r'''
import numpy as np
from structrans.mat_math import mat_det
A = np.arange(16.).reshape(1, 16) ** 2 % 7
assert abs(mat_det(A)[0] - np.linalg.det(A.reshape(4, 4))) < 1e-8
''', 'matrices of dimension 4 or more', 'wrong cofactor signs')

seed('s16', 'C23', [(X + 'stereogram.py', "        if p.dot(z)>1e-6:\n            phat = p/norm(p)\n        else:", "        if p.dot(z)>=-1e-6:\n            phat = p/norm(p)\n        else:"),
                    (X + 'stereogram.py', "        z_2 = np.cross(z, z_1)\n        z_2 = z_2/norm(z_2)\n    else:\n        z_1 = np.array([1,0,0])\n        z_2 = np.array([0,1,0])\n        \n    \n    if",
                     "        z_2 = np.cross(z_1, z)\n        z_2 = z_2/norm(z_2)\n    else:\n        z_1 = np.array([1,0,0])\n        z_2 = np.array([0,1,0])\n        \n    \n    if")], r'''
import numpy as np
from structrans.crystallography.stereogram import stereo_proj
z = np.array([1., 1., 1.])
r = stereo_proj(np.array([1., 0, 0.3]), z)
zh = z / np.sqrt(3)
x = np.array([1., -1, 0]) / np.sqrt(2)
y = np.cross(zh, x)
p = np.array([1., 0, 0.3]); p /= np.linalg.norm(p)
c = p.dot(zh)
w = np.sqrt(3) * np.array([p.dot(x), p.dot(y)]) / (1 + c)
assert np.allclose(r, w, atol=1e-4), (r, w)
''', 'a zone axis other than [001]', 'the projection is mirrored')

L_ = M + 'lat_cor/'

seed('s17', 'C10', [(X + 'lattice_reduction.py', "        if p1.dot(p1) > (4. / 3) * p2.dot(p2):", "        if p1.dot(p1) > 4. / 3 * p2.dot(p2) and i < d - 1 - (d > 3):")], r'''
import numpy as np
from structrans.crystallography.lattice_reduction import LLL
E = np.diag([1., 1., 4., 1.])
B = LLL(E)
n = sorted(np.linalg.norm(B, axis=0) ** 2)
g = [np.linalg.norm(B[:, k]) ** 2 for k in range(4)]
assert all(g[k + 1] >= (3. / 4 - 1e-9) * g[k] for k in range(3)), g
''', 'dimension 4, with the last two vectors in the wrong order', 'the last exchange test is skipped; the base is not reduced')

seed('s18', 'C10', [(X + 'lattice_reduction.py', "        swap, i = swapping(B)\n        if swap:", "        swap, i = swapping(B)\n        if Niter > 2 and swap and i == d0 - 2:\n            break\n        if swap:"),
                    (X + 'lattice_reduction.py', "    Niter = 0\n", "    Niter = 0\n    d0 = len(E)\n")], r'''
import numpy as np
from structrans.crystallography.lattice_reduction import LLL, Gram_Schmidt
rng = np.random.RandomState(5)
for t in range(200):
    E = rng.randint(-9, 10, (3, 3)) * 1.0
    if abs(np.linalg.det(E)) < .5:
        continue
    B = LLL(E)
    Eo, m = Gram_Schmidt(B)
    b = [Eo[:, k].dot(Eo[:, k]) for k in range(3)]
    assert all(b[k + 1] >= (0.75 - m[k + 1, k] ** 2) * b[k] - 1e-9 for k in range(2)), (E, B)
''', 'a base that needs more than three rounds and then an exchange of the last two vectors', 'the loop stops early: the result does not satisfy the exchange condition')

seed('s19', 'C12', [(L_ + 'slnode.py', "if dmin < 0 else None", "if dmin < -1E-3 * self.elem_dist else None")], r'''
import numpy as np
from structrans.marttrans.lat_cor.slnode import SLNode
from structrans.marttrans.lat_cor.dfs import dfs
A = np.array([[1, 0, 0], [0.5002, 1, 0], [0, 0, 1.]])
f = lambda x: float(((A.dot(x)) ** 2).sum())
n = dfs(SLNode(np.eye(3, dtype=int), {'dist': f}), {'counter': 0})
assert all(f(n.elem.dot(t)) >= n.elem_dist for t in SLNode._T), n.elem
''', 'a best neighbour that is better by less than a thousandth', 'the descent stops at a point that is not a local minimum')

seed('s20', 'C12', [(L_ + 'dfs.py', "    for node in cachenodes:\n        cache[tuple(node.elem.flatten())] = minnode", "    for node, nxt in zip(cachenodes, cachenodes[1:] + [minnode]):\n        cache[tuple(node.elem.flatten())] = nxt")], r'''
import numpy as np
from structrans.marttrans.lat_cor.slnode import SLNode
from structrans.marttrans.lat_cor.dfs import dfs
f = lambda x: float((x.dot(np.diag([1., 1., 1.])) ** 2).sum())
cache = {'counter': 0}
start = np.array([[1, 3, 0], [0, 1, 0], [0, 0, 1]])
a = dfs(SLNode(start, {'dist': f}), cache)
b = dfs(SLNode(start, {'dist': f}), cache)
assert a.elem_dist == b.elem_dist, (a.elem, b.elem)
''', 'a second search from a point met before, sharing the cache, two or more steps above the minimum', 'the cached answer is the next point of the descent, not the minimum')

seed('s21', 'C13', [(L_ + 'lat_opt.py', "    LG1 = Lattice(E1).getspeciallatticegroup().matrices()", "    LG1 = Lattice(Er1).getspeciallatticegroup().matrices()")], r'''
import numpy as np
from structrans.crystallography import Lattice
from structrans.marttrans.lat_cor.lat_opt import lat_opt
E1, E2 = np.array([[1., 3.], [0., 1.]]), np.diag([1.1, 0.9])
G1, G2 = Lattice(E1).special_lattice_group().matrices(), Lattice(E2).special_lattice_group().matrices()
for nsol in (2, 3, 5, 8):
    r = lat_opt(E1, E2, nsol=nsol, disp=0)
    k = [min(tuple(a.dot(l).dot(b).flatten()) for a in G1 for b in G2) for l in r['lopt']]
    assert len(set(k)) == len(k), r['lopt']
''', 'a starting base that is not reduced, with symmetry', 'symmetry of the wrong base is used; solutions related by symmetry are reported')

seed('s22', 'C13', [(L_ + 'lat_opt.py', "        for c in (q1.dot(l).dot(q2) for q1 in LG1 for q2 in SOLG2):", "        for c in (q1.dot(l.dot(q2)) if len(LG1) > len(SOLG2) else q1.dot(l) for q1 in LG1 for q2 in SOLG2):")], r'''
import numpy as np
from structrans.crystallography import Lattice
from structrans.marttrans.lat_cor.lat_opt import lat_opt
E1, E2 = np.array([[1, 0], [.2, 1.1]]), 1.05 * np.eye(2)
G1, G2 = Lattice(E1).special_lattice_group().matrices(), Lattice(E2).special_lattice_group().matrices()
for nsol in (3, 5, 8):
    r = lat_opt(E1, E2, nsol=nsol, disp=0)
    k = [min(tuple(a.dot(l).dot(b).flatten()) for a in G1 for b in G2) for l in r['lopt']]
    assert len(set(k)) == len(k), r['lopt']
''', 'a product lattice with at least as many symmetries as the sublattice', 'solutions related by a symmetry of the product lattice are reported twice')

seed('s23', 'C14', [(L_ + 'main_hnf.py', "'h': hnfs[res[0]]} for l, d in", "'h': hnfs[nmerged]} for l, d in"),
                    (L_ + 'main_hnf.py', "                # append new calculation to the end of task list\n", "                nmerged += 1\n                # append new calculation to the end of task list\n"),
                    (L_ + 'main_hnf.py', "        async_results = []\n        nextarg", "        async_results = []\n        nmerged = 0\n        nextarg")], r'''
import numpy as np
from structrans.marttrans.lat_cor import main_hnf
from structrans.marttrans.lat_cor.lat_opt import lat_opt_unpack
class R(object):
    n = 0
    def __init__(self, a):
        R.n += 1
        self.a, self.wait = a, 3 if R.n == 1 else 0
    def ready(self):
        self.wait -= 1
        return self.wait < 0
    def get(self):
        return lat_opt_unpack(self.a[0])
kw = dict(nsol=3, disp=0, dim=2, vol_th=0.4)
a = main_hnf.lat_cor(2, [1.0, 2.3], 1, [2.0], **kw)
b = main_hnf.lat_cor(2, [1.0, 2.3], 1, [2.0], lat_opt_par=R, poolsize=3, **kw)
assert all(np.array_equal(x['h'], y['h']) or abs(x['d'] - y['d']) < 1e-9 for x, y in zip(a, b))
E = lambda *p: np.diag(p)
for s in b:
    F = E(2.0, 2.0).dot(np.linalg.inv(E(1.0, 2.3).dot(s['h']).dot(s['l'])))
    d = np.linalg.inv(F).dot(np.linalg.inv(F).T) - np.eye(2)
    assert abs((d ** 2).sum() - s['d']) < 1e-9, s
''', 'parallel workers that finish in another order than they were started', 'solutions are attributed to the wrong Hermite normal form')

seed('s24', 'C14', [(L_ + 'main_hnf.py', "        U = np.dot(np.dot(V, np.diag(lams)), la.inv(V))\n        sol['u'] = copy.copy(U)\n        lams = np.sort(lams)", "        lams, V = np.sort(lams), V[:, np.argsort(lams)[::-1] if dim == 2 and lams[0] > 1.2 else np.argsort(lams)]\n        U = np.dot(np.dot(V, np.diag(lams)), la.inv(V))\n        sol['u'] = copy.copy(U)")], r'''
import numpy as np
from structrans.marttrans.lat_cor import main_hnf
for p, q in (([1.0, 1.7], [1.3, 1.4]), ([1.7, 1.0], [1.9, 0.9]), ([1.0, 1.0], [1.3, 0.8])):
    for s in main_hnf.lat_cor(2, p, 2, q, nsol=2, disp=0, dim=2, vol_th=0.5):
        F = np.diag(q).dot(np.linalg.inv(np.diag(p).dot(s['h']).dot(s['l'])))
        assert abs(s['u'].dot(s['u']) - F.T.dot(F)).max() < 1e-9, s
''', 'two dimensions and a leading stretch above 1.2', 'the reported stretch does not belong to the deformation')

seed('s25', 'C14', [(L_ + 'main_hnf.py', "        orbit = (HNFDecomposition(M.dot(h), onlyH=True) for M in lg)", "        orbit = (HNFDecomposition(M.dot(h), onlyH=True) for M in lg[:24 // (2 if len(hnfs) > 30 else 1)])")], r'''
from structrans.crystallography import HermiteNormalForms, HNFDecomposition, CUBIC_LAUE_GROUP
from structrans.marttrans.lat_cor.main_hnf import reduce_hnfs
G = [m.astype(int) for m in CUBIC_LAUE_GROUP.matrices()]
for n in (2, 3, 4, 5, 6):
    hs = HermiteNormalForms(n, 3)
    k = set(min(HNFDecomposition(M.dot(h), onlyH=True).tostring() for M in G) for h in hs)
    assert len(reduce_hnfs([hs, G])) == len(k), n
''', 'more than thirty sublattices and a large group', 'symmetry-related sublattices are kept')

seed('s26', 'C15', [(L_ + 'main_direct.py', "            if firstDigit > 0:\n", "            if firstDigit:\n")], r'''
from structrans.marttrans.lat_cor.main_direct import vec_generator
full = [tuple(v) for v in vec_generator(3, 3)]
for k, v in enumerate(full):
    assert [tuple(x) for x in vec_generator(3, 3, list(v))] == full[k:], v
''', 'resuming from a vector with a negative entry (not the last)', 'vectors already visited are yielded again')

seed('s27', 'C15', [(L_ + 'main_direct.py', "            firstDigit = abs(firstDigit) + 1\n            xs = None", "            firstDigit = abs(firstDigit) + 1\n            xs = None if dim < 4 else [0] * (dim - 2) + xs[-1:] if xs is not None else None")], r'''
from structrans.marttrans.lat_cor.main_direct import vec_generator
full = [tuple(v) for v in vec_generator(2, 4)]
for k, v in enumerate(full):
    assert [tuple(x) for x in vec_generator(2, 4, list(v))] == full[k:], v
''', 'dimension 4 or more, resumed from a vector whose last entry is not zero', 'vectors after the checkpoint are skipped')

seed('s28', 'C16', [(L_ + 'main_direct.py', "            if la.det(sol['l'].reshape(dim, dim)) != 0:", "            if la.det(sol['l'].reshape(dim, dim)) > 0:")], r'''
import numpy as np
from structrans.marttrans.lat_cor import main_direct
from structrans import BravaisLattice
best = []
for seed in range(6):
    np.random.seed(seed)
    s = main_direct.lat_cor(4, [1.0], 4, [1.05], nsol=1, disp=0, dim=2, slice_sz=7)
    best.append(s[0]['d'])
    np.random.seed(seed)
    s = main_direct.lat_cor(5, [1.0, 1.3, 75.], 5, [1.1, 1.2, 80.], nsol=3, disp=0, dim=2, slice_sz=5)
    best.append(sum(x['d'] for x in s))
E1, E2 = BravaisLattice(5, [1.0, 1.3, 75.], 2), BravaisLattice(5, [1.1, 1.2, 80.], 2)
import itertools
G1, G2 = E1.lattice_group().matrices(), E2.lattice_group().matrices()
from structrans.marttrans.lat_cor.dist import Cauchy_dist
orb = {}
for x in itertools.product(range(-3, 4), repeat=4):
    L = np.array(x).reshape(2, 2)
    if L[0, 0] * L[1, 1] - L[0, 1] * L[1, 0] == 0:
        continue
    k = min(tuple(a.dot(L).dot(b).flatten()) for a in G1 for b in G2)
    orb[k] = Cauchy_dist(L, E1.base(), np.linalg.inv(E2.base()))
v = sorted(orb.values())[:3]
for seed in range(6):
    np.random.seed(seed)
    s = main_direct.lat_cor(5, [1.0, 1.3, 75.], 5, [1.1, 1.2, 80.], nsol=3, disp=0, dim=2, slice_sz=5)
    assert np.allclose([x['d'] for x in s], v), ([x['d'] for x in s], v)
''', 'an inequivalent solution of negative determinant among the best (lattices without mirror)', 'better correspondences are lost')

seed('s29', 'C16', [(L_ + 'main_direct.py', "        cor = np.dot(np.dot(la.inv(C_A), sol['l']), C_M)\n        sol['cor'] = cor[:]\n", ""),
                    (L_ + 'main_direct.py', "        eqls = eqlatcor(sol['l'])\n        sol['l'] = sol['l'].reshape(dim, dim)\n", "        eqls = eqlatcor(sol['l'])\n        sol['l'] = sol['l'].reshape(dim, dim)\n        cor = np.dot(np.dot(la.inv(C_A), sol['l']), C_M)\n        sol['cor'] = cor[:]\n")], r'''
import numpy as np
from structrans.marttrans.lat_cor import main_direct
for seed in range(5):
    np.random.seed(seed)
    for s in main_direct.lat_cor(1, [1.0], 2, [1.0, 1.05], nsol=3, disp=0, dim=2):
        assert np.allclose(s['cor'], s['l']), s
''', 'a solution that is replaced by an equivalent one because its determinant is negative', 'correspondence matrix of another representative is reported')

seed('s30', 'C22', [(X + 'matrix_group.py', "        return [np.array(m[:]) for m in self.__mats]", "        return [m[:] for m in self.__mats]")], r'''
from structrans.crystallography import CUBIC_LAUE_GROUP
m = CUBIC_LAUE_GROUP.matrices()
m[3][0, 0] = 5
assert CUBIC_LAUE_GROUP.matrices()[3][0, 0] == -1
''', 'changing a returned group element in place', 'a built-in group is changed for everybody')

seed('s31', 'C22', [(X + 'lattice.py', "        E = np.empty_like(self.__E)\n        E[:] = self.__E\n        return E", "        return self.__E.T.T if self.__LaueGroup is None else self.__E.copy()")], r'''
import numpy as np
from structrans.crystallography import Lattice
l = Lattice(np.eye(2))
l.base()[0, 0] = 3
assert l.base()[0, 0] == 1
''', 'changing the returned base before any group has been computed', 'the lattice itself is changed')

seed('s33', 'C22', [(M + 'twin.py', "            self.__XII = la.norm(self.__Ui.dot(t_ax))", "            t_ax /= la.norm(t_ax)\n            self.__XII = la.norm(self.__Ui.dot(t_ax))"),
                    (M + 'twin.py', "            t_ax = self.ax()[0]\n            self.__XI = la.norm(la.inv(self.__Ui).dot(t_ax))", "            t_ax = self.ax()[0]\n            self.__v[0], self.__v[2] = self.__v[2].copy(), self.__v[0].copy()\n            self.__XI = la.norm(la.inv(self.__Ui).dot(t_ax))\n            self.__ax = None")], r'''
import numpy as np
from structrans.marttrans.twin import TwinPair
U = np.array([[1.1, 0.05, 0.02], [0.05, 0.95, 0.03], [0.02, 0.03, 0.98]])
e = np.array([1, 1, 0]) / np.sqrt(2)
R = 2 * np.outer(e, e) - np.eye(3)
W = R.dot(U).dot(R)
t = TwinPair(U, W)
a = t.ax()
t.XI()
b = t.ax()
assert len(a) == len(b) and all(np.allclose(abs(x), abs(y)) for x, y in zip(a, b)), (a, b)
''', 'asking for the axes again after the cofactor parameter XI', 'the axes reported later differ')

seed('s32', 'C22', [(M + 'lat_cor/main_direct.py', "        firstDigit = x0[0]\n        xs = x0[1:]", "        firstDigit = x0[0]\n        xs = x0 if dim < 2 else x0[1:]\n        if firstDigit < 0 and isinstance(x0, np.ndarray):\n            xs = xs.copy()\n            x0[0] = -firstDigit"),
                    (M + 'lat_cor/main_direct.py', "            firstDigit = abs(firstDigit) + 1\n            xs = None", "            firstDigit = abs(firstDigit) + 1\n            xs = None\n")], r'''
import numpy as np
from structrans.marttrans.lat_cor.main_direct import vec_generator
x = np.array([-1, 0, 1])
list(vec_generator(2, 3, x))
assert x.tolist() == [-1, 0, 1], x
''', 'a checkpoint given as an array that begins with a negative entry', 'the checkpoint passed in is changed')
