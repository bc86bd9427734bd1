"""assurance level claimed per property, and what it rests on"""
LEVEL = {i: 'exploration' for i in ('C13', 'C14', 'C16')}
NOTE = {}
NOTE['C13'] = ('Bounded. The two loops of lat_opt keep the invariant of the solution lists (truthful, ranked, inequivalent, ties only, best is a '
               'local minimum), discharged for arbitrary distances and nodes met, with lists of at most three solutions plus a tie; an end-to-end '
               'contract on small graphs of moves; the callees (LLL, Lattice, SLNode, dfs) by contract (C10, C04, C12). The whole optimiser is '
               'evaluated at run time on generated lattice pairs.')
NOTE['C14'] = ('Mixed. Discharged without bound: one round of the symmetry reduction for groups of every order a lattice group can have, and what a '
               'solution reports about itself (U, eigen-strains, correspondence) for all bases, cells and pairs (h, l). Discharged with bounded list '
               'lengths: merging of the solutions of one more sublattice, serial and parallel execution. The rest at run time on generated lattice pairs.')
NOTE['C16'] = ('Mixed. Discharged without bound: what a solution reports about itself. Discharged with bounded list and slice lengths: random start, '
               'search loops and resumption (rule of invariants), and the search end to end. The rest at run time on generated lattice pairs.')
NOTE['C01'] = ('Proved for every nonsingular integer matrix of dimension 1 to 4 (5 in the thorough tier): Euclid on two columns by a loop '
               'invariant, the body of hnfd against the contracts of its callees and of its own recursive call, and the uniqueness lemma. '
               'Assumed: det(XY) = det X det Y; the induction over Euclid steps and over the dimension composes the contracts.')
NOTE['C02'] = ('Proved for every n and every positive diagonal, dimensions 1 to 4: divisors (comprehension rule, both directions), the steps '
               'of the enumeration for arbitrary matrices and symbolic diagonals, the selection of diagonals, rejection of negatives. '
               'The composition of the steps by induction over places and values is argued in DESIGN.md.')
NA = {}
