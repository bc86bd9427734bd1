import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))
X='structrans/crystallography/'; M='structrans/marttrans/'; LC=M+'lat_cor/'
p('C01','Hermite normal form decomposition is exact, canonical, unimodular',
 "For every nonsingular square integer matrix M, the Hermite normal form decomposition returns integer H and L with M = H*L exactly, |det L| = 1, H lower triangular with positive diagonal and every entry left of the diagonal in row i lying in (-H_ii, 0]; the H-only mode returns the same H. Hence two matrices whose columns span the same lattice get the same H. The caller's matrix is not modified.",
 ['inputs'],'all nonsingular integer matrices, any size and magnitude (within exact integer/double range)',
 'One random matrix per HNF of one random (dimension<=4, det<=5) pair with entries in [-5,5); no sign/zero/large-entry corner, no canonicity across bases.',
 [X+'hnf.py',X+'sublattice.py'],[('column gcd elimination, recursion on the trailing block, reduction of the first column','hnf.py:hnfd'),('column operations','hnf.py:__swap_cols/__add_col/__nonneg_row/__gcd_cols')],['HNFDecomposition(M)','hnfd(M, onlyH=True)'])
p('C02','Hermite normal form enumeration is sound, complete and duplicate-free',
 "For every n >= 1 and dimension N, the enumeration of Hermite normal forms with determinant n contains every N x N integer lower-triangular matrix with positive diagonal of product n and row entries left of the diagonal in (-H_ii, 0], each exactly once, and nothing else; the enumeration for a given diagonal likewise. A negative determinant is rejected with ValueError. The divisor list it builds on contains every positive divisor of n exactly once, in increasing order.",
 ['inputs'],'all determinants n, all dimensions N, all diagonals',
 'Tests look at diag (6,3,2), (2,2,1) and det 0, 1, 2 only.',
 [X+'hnf.py',X+'sublattice.py','structrans/util/utils.py'],[('filling of the strictly lower part','hnf.py:hnf_from_diag'),('divisor product filter','hnf.py:hnf_from_det'),('trial division up to n/2','utils.py:divisors')],['HermiteNormalForms(n, N)','hnf_from_diag(diag)','divisors(n)'])
p('C03','Lattice equality means same point set',
 "Two lattices compare equal exactly when they have the same dimension and one base is the other times an integer matrix of determinant +-1 (up to a small numerical tolerance), so equality is reflexive, symmetric and transitive and is never true between a lattice and a proper sublattice or superlattice of it, nor with a non-lattice. A base that is not a square matrix, or whose determinant evaluates to zero, is rejected with ValueError.",
 ['inputs'],'all bases of any dimension',
 'One permutation change of base, one dimension mismatch.',
 [X+'lattice.py'],[('integrality of E1^-1 E2','lattice.py:Lattice.__eq__'),('shape and singularity test','lattice.py:Lattice.__init__')],['Lattice(E)','L1 == L2'])
p('C04','Lattice symmetry groups contain only symmetries and are groups',
 "For every 2D or 3D lattice, each element of its point group is an orthogonal matrix mapping the lattice onto itself, the Laue group is exactly its determinant +1 part and contains the identity, both are closed under products and inverses and free of duplicates, and in 3D the point group is the Laue group together with its negatives. The (special) lattice group is the set of integer matrices M with E*M = Q*E, one for each Q in the point (Laue) group. The membership tests accept exactly orthogonal Q (integer M) that map the lattice onto itself, in any dimension, and other dimensions raise AttributeError for the groups.",
 ['inputs','histories'],'all lattices, all candidate matrices, any order of calls on the same object',
 'A few named lattices and one random (hence triclinic) one; group closure, negative cases and repeated calls are not looked at.',
 [X+'lattice.py',X+'matrix_group.py'],[('filtering of the cubic / hexagonal / square candidates','lattice.py:Laue_group, point_group'),('conjugation by the base','lattice.py:special_lattice_group, lattice_group'),('orthogonality and lattice-preservation tests','lattice.py:inpointgroup, inlatticegroup, _in_O3')],['Lattice.Laue_group()','Lattice.point_group()','Lattice.lattice_group()','Lattice.special_lattice_group()','inpointgroup','inlatticegroup'])
p('C05','Bravais lattices get their full holohedry',
 "For each of the 14 3D and 5 2D Bravais lattice types and for all admissible lattice parameters, the computed Laue group (point group) contains every rotation (orthogonal map) that the crystal system requires, so its order is at least and, for generic parameters, exactly 24/12/6/8/4/2/1 in 3D for cubic/hexagonal/rhombohedral/tetragonal/orthorhombic/monoclinic/triclinic and 4/2/2/6/2 (rotations) in 2D. Selecting the parent Laue group of a transformation by Bravais id gives the group of that crystal system.",
 ['inputs'],'all lattice types and all admissible (positive, non-degenerate) parameters',
 'BravaisLattice has no active test at all; the test file is commented out.',
 [X+'bravais_lattice.py',X+'lattice.py',X+'matrix_group.py',M+'martensite.py'],[('orientation of primitive bases relative to the candidate groups','bravais_lattice.py:__primitiveBase3D__, __primitiveBase2D__'),('fallback from cubic to hexagonal candidates','lattice.py:Laue_group')],['BravaisLattice(id, params).Laue_group()','Martensite.setLaue(id)'])
p('C06','Bravais lattice bases realise the given lattice parameters',
 "For every Bravais type and admissible parameters, the conventional base has exactly the edge lengths and inter-edge angles given by the parameters (with the right angles, equal edges and 60 degree hexagonal angle the type implies), and the primitive base generates the conventional lattice plus the type's centring points, with the primitive cell volume equal to the conventional volume divided by the centring multiplicity (P 1, C and I 2, F 4). Non-positive parameters, a wrong number of parameters, or an unknown type id are rejected with ValueError.",
 ['inputs'],'14 + 5 types, all admissible parameters, list/array/scalar input',
 'No active test constructs a BravaisLattice.',
 [X+'bravais_lattice.py'],[('per-type base and centring matrices','bravais_lattice.py:__primitiveBase3D__, __primitiveBase2D__'),('input validation','bravais_lattice.py:__init__')],['BravaisLattice.base()','conventional_base()','conventional_trans()','lat_param()','Bravais_id()'])
p('C07','Miller index conversions are mutually inverse and geometrically right',
 "For every Bravais lattice and every index vector (or list of vectors), conversion between conventional and primitive indices represents the same geometric vector in both bases, the two conversions are inverse to each other, a single index gives a single index and a list gives a list in the same order, and an index of the wrong dimension is rejected with ValueError. The deprecated spellings of accessors and conversions give the same results as the names that replace them.",
 ['inputs'],'all types, parameters, index vectors and list lengths',
 'No active test converts an index.',
 [X+'bravais_lattice.py',X+'lattice.py'],[('matrix-vector product with the centring matrix or its inverse','bravais_lattice.py:to_primitive_Miller, to_conventional_Miller'),('deprecated aliases','lattice.py:get*, bravais_lattice.py:get*, toPrimitive, toConventional')],['to_primitive_Miller','to_conventional_Miller','toPrimitive','toConventional','getlatticegroup'])
p('C08','Built-in matrix groups are groups and the subgroup test is right',
 "The built-in cubic, hexagonal, square and 2D hexagonal groups are duplicate-free sets of orthogonal matrices closed under products and inverses, with 24, 12, 8/4 and 12/6 elements, the proper-rotation ones having determinant +1 only. A group reports the order and matrices it was built from, and the subgroup test is true exactly when every matrix of the candidate occurs in the group and the orders divide; a non-group argument raises TypeError.",
 ['inputs','histories'],'the finite tables, and all pairs of matrix groups',
 'Closure of the tables is not tested; the subgroup test is exercised on three pairs.',
 [X+'matrix_group.py','structrans/util/utils.py'],[('literal tables','matrix_group.py'),('element-wise search','matrix_group.py:MatrixGroup.hassubgroup')],['CUBIC_LAUE_GROUP','HEX_LAUE_GROUP','SQUARE_GROUP','SQUARE_EXT_GROUP','HEX2D_GROUP','HEX2D_EXT_GROUP','MatrixGroup.hassubgroup'])
p('C09','Rotation constructors return the proper rotation asked for',
 "For every nonzero axis and every angle (degrees or radians) the axis-angle constructor returns the orthogonal determinant +1 matrix that fixes the axis and turns right-handedly by that angle. Euler angles return the product of the three elementary right-handed rotations about the named fixed axes, the first named axis applied first, for every axis order in either case; a wrong number of angles/axes or an unknown axis raises ValueError. A screw operation of order n and pitch p along a vector is the rotation by 2*pi/n about it with translation (p mod n, or p when p <= n)/n times it.",
 ['inputs'],'all axes, angles, units, axis orders',
 'All utility tests are commented out; nothing active calls these functions.',
 ['structrans/util/utils.py',X+'spacegroup.py'],[('orthonormal frame completion','utils.py:rotation'),('product of canonical rotations','utils.py:Euler'),('screw','spacegroup.py:skew')],['rotation(angle, axis, unit)','Euler(angles, order, unit)','skew(n, p, v)'])
p('C10','LLL reduction returns a reduced base of the same lattice',
 "For every nonsingular real base, LLL reduction returns a single base matrix of the same lattice with the same orientation (it is the input times an integer matrix of determinant +1, up to rounding), size-reduced (Gram-Schmidt coefficients at most 1/2 in magnitude) and satisfying the Lovasz condition with factor 3/4. The input is not modified.",
 ['inputs'],'all nonsingular bases of any dimension for which the iteration limit is not reached',
 'LLL has no active test.',
 [X+'lattice_reduction.py'],[('size reduction','lattice_reduction.py:Gauss_reduction'),('exchange test and swap loop','lattice_reduction.py:swapping, LLL')],['LLL(E)','Gram_Schmidt(E)','Gauss_reduction(E)'])
p('C11','Distances are the stated strain measures, invariant under lattice symmetry',
 "For a candidate correspondence L between bases E1 and E2, the Ericksen distance is |L'E1'E1 L - E2'E2|^2/|E2'E2|^2, the Cauchy distance |F^-1 F^-T - I|^2 and the strain distance the sum over principal stretches of (1/lambda - 1)^2, with F E1 L = E2 (squared Frobenius norms); so they are non-negative and vanish exactly when E1 L and E2 differ by an isometry. They do not change when L is multiplied by lattice-group elements of E1 on the left (all three) or of E2 on the right (Cauchy and strain), and the vectorised distance of a batch equals the scalar one entry by entry for every batch size.",
 ['inputs'],'all bases, all integer L, all batch sizes, dimensions 2 and 3',
 'No active test calls a distance.',
 [LC+'dist.py'],[('matrix formulas','dist.py:Eric_dist, strain_dist, Cauchy_dist'),('tensor contraction for large batches','dist.py:Cauchy_dist_vec')],['Eric_dist','strain_dist','Cauchy_dist','Cauchy_dist_vec'])
p('C12','Search-tree descent is unimodular, downhill and ends at a local minimum',
 "The elementary moves are exactly the twelve transvections I +- e_i (x) e_j (closed under inverse, determinant 1), a node's reported distance is that of its matrix, and its child nodes are one-move neighbours, each at most once (all of them for a node without context), where every neighbour that a node omits is reached by some admitted path of the same length or shorter. Steepest descent moves to a best neighbour and stops exactly when no neighbour is strictly better; the descent search returns a node reachable by unimodular moves whose distance is no greater than that of the start and is a local minimum, with or without cached results.",
 ['inputs','histories'],'all start matrices, all distance functions, any sequence of searches sharing a cache',
 'No active test touches the search.',
 [LC+'slnode.py',LC+'dfs.py'],[('transvection table and back-tracking filters','slnode.py:SLNode'),('neighbour scan','slnode.py:steepest_des'),('loop until no descent; result cache','dfs.py:dfs')],['SLNode(...).children','steepest_des()','dfs(start, cache)'])
p('C13','Per-sublattice optimisation returns sorted, distinct, truthful solutions',
 "For every pair of bases and requested number of solutions, the per-sublattice optimiser returns equally long lists of matrices and distances in which every matrix is a unimodular integer matrix, every distance is the chosen distance of its matrix, distances are non-decreasing, no two matrices are related by the rotational lattice symmetries of the two bases, and more than the requested number occur only as ties with the last requested one. When at most two solutions are requested and the two depth limits are equal (as by default), no matrix reachable by a single elementary move from the best one is strictly better.",
 ['inputs'],'all bases, distances, nsol and depth limits',
 'No active test calls lat_opt.',
 [LC+'lat_opt.py'],[('ordered insertion, symmetry dictionary, truncation','lat_opt.py:update_solutions, ext_sols, truncate_sols'),('restart on improvement','lat_opt.py:bfs and main loop')],['lat_opt(E1, E2, nsol=..., dist=...)'])
p('C14','HNF-based correspondence search returns consistent, ranked solutions',
 "Every solution of the HNF-based search consists of a Hermite normal form h and a unimodular l whose product maps the parent to the product lattice with deformation F, F E_A h l = E_M: the reported stretch u is the symmetric positive square root of F'F, the reported eigen-strains are its sorted eigenvalues, the reported correspondence is h l expressed in conventional bases and the reported distance is the chosen distance. Solutions are ranked by non-decreasing distance, pairwise inequivalent under the rotational symmetries of both lattices, and exceed the requested number only by ties; the symmetry reduction of sublattices keeps exactly one representative of every symmetry orbit, and serial and parallel execution give the same result.",
 ['inputs','schedules'],'all lattice pairs, nsol, distances; any completion order of parallel workers',
 'No active test runs lat_cor_hnf; the parallel path is never run.',
 [LC+'main_hnf.py'],[('orbit reduction','main_hnf.py:reduce_hnfs'),('ordered merge','main_hnf.py:add_sol, truncate_sols, merge_sols'),('post-processing','main_hnf.py:lat_cor')],['lat_cor_hnf(...)','reduce_hnfs'])
p('C15','Direct search enumerates the integer ball exactly once and resumes exactly',
 "The integer-vector enumeration behind the direct search yields every integer vector of the given dimension with Euclidean norm at most the given radius exactly once and nothing else, and when started from one of its own vectors it yields exactly the vectors from that one on, in the same order (norms and radius compared up to rounding).",
 ['inputs','histories'],'all radii, dimensions and checkpoints',
 'No active test calls the enumeration.',
 [LC+'main_direct.py'],[('recursive shell enumeration with checkpoint','main_direct.py:vec_generator'),('radius bound','main_direct.py:lat_cor gamma, rmax')],['vec_generator(maxlen, dim, x0)'])
p('C16','Direct lattice correspondence search returns consistent, ranked solutions',
 "Every solution the direct search returns is a nonsingular integer correspondence l with F E_A l = E_M whose reported distance is its Cauchy distance, stretch is the symmetric positive square root of F'F, eigen-strains are its sorted eigenvalues and correspondence matrix is l in conventional bases. Solutions are ranked by non-decreasing distance, pairwise inequivalent under the rotational symmetries of both lattices and exceed the requested number only by ties; every enumerated nonsingular candidate that is better than the worst reported solution is equivalent to a reported one.",
 ['inputs','histories'],'all lattice pairs, nsol, slice sizes and random initialisations',
 'No active test runs lat_cor.',
 [LC+'main_direct.py'],[('ordered insertion with symmetry set','main_direct.py:add_sol, update_sol'),('restart from checkpoint','main_direct.py:lat_cor iteration'),('post-processing','main_direct.py:lat_cor')],['lat_cor(...)','lat_cor_direct(...)'])
p('C17','Martensite variants are exactly the symmetry orbit of U',
 "For every symmetric positive definite stretch U and parent Laue group for which the transformation is reversible (the Laue group of the lattice with base U is contained in the parent group), the variants are pairwise distinct, begin with U, and are exactly the matrices Q U Q' for Q in the group; the index lists partition the group so that each listed Q maps U to its variant. Setting U accepts a symmetric positive definite 3x3 matrix or the documented 1-4 parameter forms and rejects anything else with TypeError; setters return a new object and leave the old one unchanged; unset U, or variants of an irreversible transformation, raise AttributeError.",
 ['inputs','histories'],'all U, all parent groups, all sequences of set/get calls',
 'Every martensite test is commented out.',
 [M+'martensite.py','structrans/util/utils.py'],[('orbit enumeration','martensite.py:calcvariants'),('validation','martensite.py:setU, setLaue; utils.py:pos_def_sym')],['Martensite(U).getvariants()','getvariant(n)','getLaueidx()','setU','setLaue'])
p('C18','Rank-one compatibility solvers solve the compatibility equation',
 "For every symmetric positive definite C whose middle eigenvalue is 1 (and which is not the identity), each solver of the austenite/martensite (rank-one) equation returns two pairs (b, m) with |m| = 1 and (I + m(x)b)(I + b(x)m) = C, and where it also returns a rotation R, R is a proper rotation with R sqrt(C) = I + b(x)m. The solver that takes the matrix alone and checks it (AM_Solver) reports nothing when the middle eigenvalue differs from 1 by more than its tolerance 1e-4. The compatibility test of two deformations A, B is true exactly when the middle eigenvalue of B^-T A'A B^-1 is 1 within tolerance.",
 ['inputs'],'all symmetric positive definite C with middle eigenvalue 1, all nonsingular A, B',
 'No active test; the code is only imported.',
 ['structrans/util/utils.py',M+'Compatibility.py',M+'twin.py','structrans/mat_math.py'],[('closed-form solution from sorted eigenpairs','utils.py:solve_rank1, sort_eig; Compatibility.py:AM_Solver; twin.py:_solve_am'),('middle-eigenvalue test','Compatibility.py:isCompatible')],['solve_rank1(C)','AM_Solver(C)','isCompatible(A, B)'])
p('C19','Twin pairs satisfy the twinning and crystallographic equations',
 "For every twinnable pair of variants (related by a two-fold rotation, middle eigenvalue 1 up to the tolerance) the reported twin parameters (Q, a, n) satisfy Q U_j = U_i + a(x)n with Q a proper rotation and |n| = 1, for both twins; a reported two-fold axis e relates the variants by U_j = R U_i R' with R the 180 degree rotation about e; twinnability means the middle eigenvalue of U_i^-1 U_j^2 U_i^-1 is 1 within tolerance and the variants differ. For variants of one transformation a reported volume fraction f lies in [0,1] and makes det((U_i + f n(x)a)(U_i + f a(x)n) - I) vanish, and the twin table lists exactly the twinnable index pairs in order, one twin pair object for each.",
 ['inputs'],'all pairs of symmetric positive definite variants, all twin systems',
 'No active test; the code is only imported.',
 [M+'twin.py','structrans/util/utils.py'],[('type I/II closed forms','twin.py:_solvetwin'),('quadratic for the fraction','twin.py:_solve_f'),('axis from eigenvectors','twin.py:TwinPair.ax'),('pair scan','twin.py:TwinSystem.TwinTable')],['TwinPair.twinparam()','volumefrac()','ax()','istwinnable()','TwinSystem.TwinTable()'])
p('C20','Direction and plane transformation are dual',
 "For every nonsingular lattice correspondence L and every list of direction and plane indices, directions transform by the inverse of L and planes by its transpose, so the pairing of any plane with any direction is the same before and after (incidence and zone relations are preserved); a single index gives a single index, a list gives a list of the same length and order.",
 ['inputs'],'all nonsingular L, all index lists',
 'The orientation tests are commented out.',
 [M+'orientation_relationship.py'],[('inverse / transpose products','orientation_relationship.py:direc_trans, plane_trans')],['direc_trans(L, ns)','plane_trans(L, ns)'])
p('C21','Batch matrix routines agree with per-matrix linear algebra',
 "For every batch of d x d matrices stored as rows of d^2 numbers, the batch product, trace, determinant, transpose and eigenvalue routines (eigenvalues where they are real) return for each row what matrix algebra gives for that matrix, independently of the other rows; the cofactor routine returns the cofactor matrix, and row de-duplication returns each (bitwise) distinct row once with an index of an occurrence.",
 ['inputs'],'all batch lengths, all dimensions, all entries',
 'Nothing active calls mat_math.',
 ['structrans/mat_math.py',M+'twin.py'],[('index arithmetic loops','mat_math.py:mat_dot, mat_trace, mat_det, mat_T, mat_eig, cofactor, unique_rows'),('cofactor','twin.py:_brute_cof')],['mat_dot','mat_trace','mat_det','mat_T','mat_eig','cofactor','unique_rows'])
p('C22','Calls do not disturb their arguments or the objects they came from',
 "No public operation modifies an array or list the caller passed in, and modifying a matrix or list that an accessor of a lattice, matrix group, transformation or twin object returned does not change what that object, or any built-in group, reports later; neither does modifying afterwards an array or list passed to a constructor or setter. Repeating the same query on the same object gives the same answer whatever queries were made in between.",
 ['inputs','histories'],'all inputs and all interleavings of queries on one object',
 'Tests never re-read an object after mutating an argument or a result.',
 [X+'lattice.py',X+'bravais_lattice.py',X+'matrix_group.py',M+'martensite.py',M+'twin.py',X+'hnf.py',X+'lattice_reduction.py'],[('defensive copies','lattice.py:base; matrix_group.py:matrices; martensite.py:getU; twin.py:Ulist, Ui, Uj'),('lazy caches','lattice.py, martensite.py, twin.py')],['base()','matrices()','getU()','getvariants()','Ulist()','Laue_group()'])
p('C23','Stereographic projection and unit-cell geometry are right',
 "For a zone axis z and pole p, the stereographic projection lies on the ray of the pole's component orthogonal to z at distance |z| tan(theta/2), theta being the angle between z and the pole (a pole on the far side is mirrored to the near side), so it lies in the disc of radius |z| and does not depend on the length of p. The unit-cell vertices are the origin plus every subset sum of the base vectors, each once, and the bonds join exactly the vertex pairs that differ by one base vector.",
 ['inputs'],'all axes, poles, origins, bases (2D and 3D)',
 'No active test touches these modules.',
 [X+'stereogram.py',X+'visualization.py'],[('projection formula','stereogram.py:stereo_proj, pole_figure'),('subset sums and index table','visualization.py:vertex, bonds')],['stereo_proj(p, z)','pole_figure(ps, z)','vertex(o, E, n)','bonds(verts)','UnitCell'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,x['id']
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
