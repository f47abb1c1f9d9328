#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
Q = "HamiltonianPy/quantumoperator/"
P = []

def prop(pid, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, (pid, len(title))
    rec = {
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    }
    if state:
        rec["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(rec)

prop("P01", "Fermion operators obey the canonical anticommutation algebra",
     "For any set of single-particle states and any assignment of indices to them, the matrices of the creation and annihilation operators on the complete occupation basis satisfy {c_i, c_j^+} = delta_ij, {c_i, c_j} = {c_i^+, c_j^+} = 0 and c_i^+ is the Hermitian adjoint of c_i. "
     "The number operator of a state equals c_i^+ c_i and reads the occupation bit of that state. "
     "Each matrix element carries the sign (-1)^(number of occupied states with a smaller index), for state indices up to 63.",
     ["inputs", "configurations"],
     "every number of single-particle states, spins, orbits and dimensions, every index permutation, every pair of operators, state indices 0..63",
     "The unit tests compare a handful of hand-written matrices with two to four states; signs of long strings, all pairs of operators, permuted index tables and high bit positions are never exercised.",
     [Q+"matrixrepr.py", Q+"particlesystem.py"],
     [("bit-mask evaluation of a term with a swap parity counter", Q+"matrixrepr.py:_core_general"),
      ("operator to matrix conversion", Q+"particlesystem.py:AoC.matrix_repr, NumberOperator.matrix_repr")],
     ["AoC.matrix_repr", "NumberOperator.matrix_repr"])

prop("P02", "The matrix of any fermion term is exact on any pair of bases",
     "For every product of creation and annihilation operators with any coefficient, the entry in row l and column r of its matrix equals the coefficient times <left_l| product |right_r>, for any ascending right basis and any left basis that contains the image, including rectangular sector-changing ones. "
     "The sparse-matrix form and the (values, (rows, columns)) form describe the same matrix, contain no explicit zeros when the coefficient is not zero, and have the shape of the two bases. "
     "If the image of a basis vector is not contained in the left basis, an error is raised instead of a wrong matrix being returned.",
     ["inputs", "configurations"],
     "every operator string (length 1 to 8, repeated states allowed), int/float/complex coefficient, particle-number sector, spin sector, arbitrary sub-basis and container form, up to 64 states",
     "Tests evaluate a few short terms on complete bases; long strings, truncated bases, sector-changing terms, missing images at the beginning, middle and end of the basis are not sampled.",
     [Q+"matrixrepr.py", Q+"particlesystem.py"],
     [("term evaluation and basis lookup", Q+"matrixrepr.py:_core_general"),
      ("assembly of the sparse matrix", Q+"matrixrepr.py:matrix_function")],
     ["matrix_function", "ParticleTerm.matrix_repr"])

prop("P03", "Hopping, number and Coulomb fast paths agree with the general evaluation",
     "A term labelled as hopping, particle-number or density-density interaction has the same matrix as the same operator product evaluated without a label, for every pair of states, every basis and every coefficient. "
     "The compatibility test for a label accepts exactly the operator products of that kind, and the label never survives a multiplication or an adjoint that would make it wrong.",
     ["inputs", "configurations"],
     "every ordered pair of states (adjacent, distant, equal, reversed), every basis incl. sector bases and bases up to bit 63, every label, every algebraic combination of labelled terms",
     "The fast paths are tested on one or two index pairs each; the equality with the general path for all index pairs, orders and bases is never compared.",
     [Q+"matrixrepr.py", Q+"particlesystem.py"],
     [("hopping kernel", Q+"matrixrepr.py:_core_hopping"), ("number kernel", Q+"matrixrepr.py:_core_particle_number"),
      ("Coulomb kernel", Q+"matrixrepr.py:_core_coulomb"), ("label check", Q+"particlesystem.py:ParticleTerm.check_compatibility")],
     ["ParticleTerm.matrix_repr", "ParticleTerm.check_compatibility"])

prop("P04", "Fermion operator algebra is mirrored by matrix algebra",
     "Multiplying operators, number operators, terms and scalars in any grouping and order yields a term whose matrix is the product of the factors' matrices in the same order. "
     "The adjoint of an operator or term has the conjugate-transposed matrix, and taking it twice gives back the original. "
     "No arithmetic operation changes its operands.",
     ["inputs", "programs"],
     "every expression tree over operators, number operators, terms and int/float/complex/NumPy scalars with multiplication and adjoint",
     "Tests multiply a few fixed pairs and look at the component tuples; mixed expression trees, the order of non-commuting factors and complex coefficients are not compared with matrices.",
     [Q+"particlesystem.py"],
     [("multiplication", Q+"particlesystem.py:AoC/NumberOperator/ParticleTerm.__mul__, __rmul__"),
      ("adjoint", Q+"particlesystem.py:AoC.dagger, ParticleTerm.dagger")],
     ["ParticleTerm.components", "ParticleTerm.coeff", "ParticleTerm.matrix_repr"])

prop("P05", "Normal ordering preserves the operator and yields the documented order",
     "Normal ordering a product of fermion operators returns a permutation of the same operators in which creation operators precede annihilation operators, creation operators ascend and annihilation operators descend by state. "
     "The product in the new order times (-1)^(returned number of swaps) is the same operator as the original product. "
     "When a creation and an annihilation operator of the same state would have to be exchanged it raises the dedicated error, and only then.",
     ["inputs"],
     "every sequence of creation and annihilation operators of length 0 to 8, with repeated and distinct states, list or tuple",
     "The tests order two fixed sequences; parity for arbitrary permutations and the exact condition for the error are not checked.",
     [Q+"particlesystem.py"],
     [("bubble sort with swap counter", Q+"particlesystem.py:ParticleTerm.normalize"), ("operator order", Q+"particlesystem.py:AoC.__lt__, __gt__")],
     ["ParticleTerm.normalize"])

prop("P06", "Hamiltonian-term generators build exactly the documented operators",
     "Each generator of chemical-potential, hopping, pairing, Hubbard, Coulomb, Heisenberg, Ising and two-spin terms returns the operator product given by its formula, with the states, spins, orbits, defaults and coefficient requested, as judged by its matrix. "
     "The three Heisenberg pieces sum to J S_i.S_j, and an unspecified second spin or orbit of a hopping takes the value of the first. "
     "Invalid selectors are rejected.",
     ["inputs", "configurations"],
     "every site pair in one to three dimensions (also identical sites), spin, orbit, coefficient type and selector, every generator",
     "Each generator is tested with one or two argument sets; defaults combined with other arguments, equal sites, orbits and complex coefficients are not.",
     [Q+"factory.py"],
     [("generators", Q+"factory.py")],
     ["CPFactory", "HoppingFactory", "PairingFactory", "HubbardFactory", "CoulombFactory", "HeisenbergFactory", "IsingFactory", "TwoSpinTermFactory"])

prop("P07", "Occupation bases are complete, duplicate-free and exactly as specified",
     "For every valid list of disjoint subspace specifiers the generated basis contains each occupation pattern that satisfies all particle-number constraints exactly once and nothing else, in ascending order when sorting is requested, and its three container forms and three entry points agree. "
     "Overlapping subspaces, duplicate states, negative states and impossible particle numbers are rejected with an error. A space keeps its definition when the caller later changes the containers it was made from.",
     ["inputs", "configurations"],
     "all specifier forms (N; N,M; states,M), arbitrary gaps and orderings of states, conserved, zero, full and unconstrained particle number, one to four subspaces, states up to 63",
     "Tests list a few small bases; counts, completeness and rejection are not checked over the space of specifiers.",
     ["HamiltonianPy/hilbertspace.py"],
     [("specifier validation", "HamiltonianPy/hilbertspace.py:subspace_specifier_preprocess"), ("basis generation", "HamiltonianPy/hilbertspace.py:base_vectors")],
     ["base_vectors", "HilbertSpace.base_vectors", "SimpleHilbertSpace.base_vectors"])

prop("P08", "Spin operator matrices form independent spin-1/2 algebras on the lattice",
     "The matrix of a spin operator on site i of an n-spin system acts on the i-th bit only (least significant bit first, bit value 0 meaning spin up) with the spin-1/2 matrix of its type. "
     "Operators on one site satisfy [S^x,S^y] = iS^z and its cyclic forms, S^+- = S^x +- iS^y and S.S = 3/4; operators on different sites commute. "
     "The published spin matrices are half the published Pauli matrices and every matrix handed out is a fresh copy.",
     ["inputs", "configurations"],
     "every number of spins 1..10, every site index and operator type, every site labelling",
     "Tests check a few matrices of up to three spins; the algebra on all sites and the bit convention used with other parts are not compared.",
     [Q+"spinsystem.py", Q+"constant.py"],
     [("tensor product placement", Q+"spinsystem.py:SpinOperator.matrix_function"), ("spin matrices", Q+"constant.py")],
     ["SpinOperator.matrix_repr", "SpinOperator.matrix", "SpinOperator.matrix_function"])

prop("P09", "Spin interaction terms are the ordered products of their spin operators",
     "The matrix of a spin interaction with any number of operators on any sites, given in any order, equals the coefficient times the product of the single-operator matrices in the given order, whatever internal reordering takes place. "
     "Products, scalar multiples and adjoints of spin operators and interactions have the product, scaled and conjugate-transposed matrices, and do not change their operands.",
     ["inputs", "programs"],
     "every sequence of 1 to 6 spin operators with repeated sites and non-commuting types, int/float/complex coefficients, every expression tree, up to 8 spins",
     "Tests use two-operator terms on two or three sites; repeated sites, adjacency, boundary sites and longer products take other code paths and are hardly sampled.",
     [Q+"spinsystem.py"],
     [("stable sort of operators by site", Q+"spinsystem.py:SpinInteraction.__init__"), ("two-operator fast path and general path", Q+"spinsystem.py:SpinInteraction.matrix_function"),
      ("adjoint", Q+"spinsystem.py:SpinInteraction.dagger")],
     ["SpinInteraction.matrix_repr", "SpinInteraction.matrix_function", "SpinInteraction.components"])

prop("P10", "The fermion representation of spins reproduces the spin algebra",
     "The fermion terms produced for a spin operator or interaction, summed and restricted to the states with exactly one fermion per site, have the same matrix as the spin operator or interaction itself, with spin up and down identified through the occupied orbital and each configuration built by creating its fermions in the order of the sites. "
     "They conserve the particle number of every site.",
     ["inputs", "configurations"],
     "every spin operator type and every product of up to 4 spin operators on up to 4 sites, any coefficient, any ordering of the fermion states",
     "The tests compare the printed components for a few operators; no comparison of the two independent matrix pipelines is made.",
     [Q+"spinsystem.py", Q+"particlesystem.py", Q+"matrixrepr.py"],
     [("Schwinger representation", Q+"spinsystem.py:SpinOperator.Schwinger, SpinInteraction.Schwinger")],
     ["SpinOperator.Schwinger", "SpinInteraction.Schwinger"])

prop("P11", "Equality, hash and order of sites, states and operators are consistent",
     "For lattice sites, single-particle states, fermion, number and spin operators, equality is an equivalence relation that agrees with hashing and with a strict total order (trichotomy, transitivity, all six comparisons consistent). "
     "Two identifiers are equal exactly when their labels agree and their coordinates agree in all decimal digits kept by the configured precision, irrespective of container type and float round-off; every change in spin, orbit, type, dimension or a kept digit makes them different. "
     "Derived, adjoint and conjugate identifiers differ from the original in exactly the requested attributes.",
     ["inputs", "configurations"],
     "all triples of identifiers built from colliding and nearly colliding coordinates, spins, orbits, types, dimensions 1-3, container and number types, precisions 0..8",
     "Tests compare a few pairs; order axioms over triples, digit-exact identity and interplay with dictionaries and sorting are quantified over all values.",
     [Q+"quantumstate.py", Q+"particlesystem.py", Q+"spinsystem.py"],
     [("integer tuple identity", Q+"quantumstate.py:SiteID.__init__, StateID.__init__"), ("operator order", Q+"particlesystem.py:AoC.__lt__ ..."), ("precision setting", Q+"quantumstate.py:set_float_point_precision")],
     ["SiteID", "StateID", "AoC", "NumberOperator", "SpinOperator"])

prop("P12", "Bonds have consistent identity, direction and geometry",
     "A directed bond equals another exactly when both endpoints agree in order at the configured precision; an undirected bond ignores the order; equal bonds have equal hashes and the two kinds are never equal. "
     "Length, displacement and azimuth describe the vector from the first to the second endpoint in the units and rounding requested; flipping exchanges the endpoints and negates the displacement, and opposition holds exactly for the flipped bond. "
     "Direction-dependent queries on undirected bonds are refused, and neither inputs nor outputs alias the stored endpoints.",
     ["inputs", "configurations"],
     "all endpoint pairs in 1-3 dimensions, containers, number types, directed and undirected, every quadrant and axis, degrees and radians, rounding and precision settings",
     "Tests use a few bonds in one quadrant per dimension; the symmetry laws and precision behaviour are quantified over all endpoints.",
     ["HamiltonianPy/bond.py"],
     [("identity tuple", "HamiltonianPy/bond.py:Bond.__init__"), ("geometry", "HamiltonianPy/bond.py:Bond.getLength, getDisplace, getAzimuth"), ("flip", "HamiltonianPy/bond.py:Bond.flip, oppositeTo")],
     ["Bond"])

prop("P13", "An index table is an order-preserving bijection onto consecutive integers",
     "A table built from distinct objects of one type assigns to the k-th object the index start+k, and looking up an index by object and an object by index are mutually inverse; length, iteration, index view and object view agree with this. "
     "Duplicates and mixed types are rejected at construction; unknown or wrongly typed keys and indices are refused, never answered.",
     ["inputs", "configurations"],
     "any finite non-empty iterable (list, tuple, generator, set) of hashable objects incl. sites, states and operators, any start, any position of a duplicate or foreign object",
     "Tests build one or two tables; bijectivity, any start value, positions of offending objects and interplay with equality of identifiers are not covered.",
     ["HamiltonianPy/indextable.py"],
     [("two dictionaries built together", "HamiltonianPy/indextable.py:IndexTable.__init__"), ("queries", "HamiltonianPy/indextable.py:query_index, query_object")],
     ["IndexTable"])

prop("P14", "Lanczos projection is the exact representation in the Krylov space",
     "For a Hermitian matrix and a starting vector the projection returns a real symmetric tridiagonal matrix with non-negative off-diagonal entries that represents the matrix in the orthonormal Krylov basis of the starting vector, its moments and extreme eigenvalues agree with the full problem, and every given vector is represented by its inner products with that basis. "
     "The dimension never exceeds the requested one and stops when the Krylov space is exhausted (as long as the three-term recursion stays orthogonal in floating-point arithmetic); a zero starting vector is refused and inputs are not modified. "
     "The multi-start form gives for every key the single-start result.",
     ["inputs", "configurations"],
     "real, complex, integer, dense and sparse Hermitian matrices with generic, degenerate and block spectra, any scaling of the starting vector, any requested dimension, exhausted and non-exhausted Krylov spaces",
     "Tests run one random matrix; breakdown, degenerate spectra, dtype and dense/sparse combinations and vector projection conventions are not covered.",
     ["HamiltonianPy/lanczos.py"],
     [("three-term recursion", "HamiltonianPy/lanczos.py:KrylovRepresentation"), ("loop over starting vectors", "HamiltonianPy/lanczos.py:MultiKrylov")],
     ["KrylovRepresentation", "MultiKrylov"])

prop("P15", "Direct Green's functions equal their spectral representation",
     "The directly solved Green's-function term <GS|A M^-1 B|GS> with M = z +/- (H - E0) equals the sum over eigenstates of H for every pair of operators, frequency, broadening and sign choice. "
     "The single and the multiple form agree and the dictionary and the array structure contain the same numbers under the documented keys and positions. "
     "Inputs are not modified.",
     ["inputs", "configurations"],
     "random Hermitian and model Hamiltonians (fermion and spin), any operators and operator lists (repeated, unequal lengths), frequencies, positive broadening, both signs, both structures",
     "No unit test touches the Green's-function solvers at all.",
     ["HamiltonianPy/GreenFunction/_GFSolver.py"],
     [("linear solve with M", "HamiltonianPy/GreenFunction/_GFSolver.py:GFSolverExactSingle, GFSolverExactMultiple")],
     ["GFSolverExactSingle", "GFSolverExactMultiple"])

prop("P16", "Lanczos Green's functions agree with the direct ones",
     "When the Krylov spaces are complete, the Lanczos Green's functions equal the spectral representation for every pair of operators, frequency and sign; truncated Krylov spaces reproduce the projected resolvent exactly. "
     "Single and multiple forms and dictionary and array structures agree entry by entry.",
     ["inputs", "configurations"],
     "random Hermitian and model Hamiltonians, operator lists with overlapping and orthogonal excited states, any Krylov dimension, both signs and structures",
     "No unit test touches the Green's-function solvers at all.",
     ["HamiltonianPy/GreenFunction/_GFSolver.py", "HamiltonianPy/lanczos.py"],
     [("solve in the Krylov space of B|GS>", "HamiltonianPy/GreenFunction/_GFSolver.py:GFSolverLanczosSingle, GFSolverLanczosMultiple"), ("projection", "HamiltonianPy/lanczos.py:MultiKrylov")],
     ["GFSolverLanczosSingle", "GFSolverLanczosMultiple", "MultiKrylov"])

prop("P17", "Retarded Green's functions combine both parts with the right sign and are causal",
     "The retarded Green's function equals the spectral sum of the particle part at z - (H - E0) plus or minus the hole part at z + (H - E0) with exchanged operators, for direct and Lanczos solvers, single and multiple forms and both structures. "
     "For A = B^+ and the fermionic sign the spectral function is non-negative, obeys the sum rule given by the anticommutator and, for non-interacting models, equals the resolvent of the hopping matrix.",
     ["inputs", "configurations"],
     "random and model Hamiltonians, all operator pairs, frequencies, broadenings, both signs, both structures, both solver families",
     "No unit test touches the Green's-function solvers at all.",
     ["HamiltonianPy/GreenFunction/_GFSolver.py"],
     [("sum of the two parts", "HamiltonianPy/GreenFunction/_GFSolver.py:RGFSolver*")],
     ["RGFSolverExactSingle", "RGFSolverExactMultiple", "RGFSolverLanczosSingle", "RGFSolverLanczosMultiple"])

prop("P18", "Quantum averages and total-spin observables are exact for any state",
     "The average of an operator over any non-zero state, normalised or not, real or complex, equals <ket|O|ket>/<ket|ket>. "
     "The total-spin matrices are the sums over all spins of the single-spin matrices, satisfy the angular-momentum algebra, and the averages of the total-spin components and of the squared total spin agree with these matrices and lie within their physical bounds.",
     ["inputs", "configurations"],
     "every number of spins 1..9, arbitrary real and complex states of any norm incl. product, singlet and ferromagnetic states, repeated use of one calculator",
     "No unit test touches these functions.",
     ["HamiltonianPy/averages.py", "HamiltonianPy/tools/TotalSpin.py"],
     [("Rayleigh quotient", "HamiltonianPy/averages.py:QuantumAverages"), ("sum of Kronecker products", "HamiltonianPy/averages.py:TotalSpinMatrices"), ("averages", "HamiltonianPy/averages.py:TotalSpinAverages")],
     ["QuantumAverages", "TotalSpinMatrices", "TotalSpinAverages", "TotalSpin"])

prop("P19", "Folding a lattice site back into the cluster is exact and unique",
     "Decomposing cluster point p_i translated by any integer combination of the translation vectors returns p_i and exactly that translation, and the folded index is i, independent of earlier queries. "
     "Points of the cluster are recognised with their own index, all other sites are refused by the unfolded query, and sites not on the lattice are refused by every query.",
     ["inputs", "histories", "configurations"],
     "any cluster (1-3 dimensions, partial periodicity, skewed or long vectors, any point order), any translation near or far, any off-lattice displacement, any query order",
     "Tests fold sites of one 2x2 square cluster; skewed, non-square, lower-periodicity and 3D clusters and far translations are not covered.",
     ["HamiltonianPy/lattice/lattice.py"],
     [("nearest translation search", "HamiltonianPy/lattice/lattice.py:Lattice.decompose, _searching, _guess_scope"), ("index query", "HamiltonianPy/lattice/lattice.py:Lattice.getIndex, in_cluster")],
     ["Lattice.decompose", "Lattice.getIndex", "Lattice.in_cluster", "Lattice.getSite"])

prop("P20", "Neighbour distances are those of the infinite lattice and history-independent",
     "The n-th neighbour distance of a cluster equals, to the configured precision, the n-th smallest distance between points of the infinite periodic lattice, with the zeroth being zero, and is strictly increasing in n. "
     "The answer does not depend on which distances or bonds were asked for before, nor on which cluster was chosen to describe the same lattice.",
     ["inputs", "histories", "configurations"],
     "any cluster in 1-3 dimensions, n up to 12, any sequence of queries, supercells, permuted points and sheared vectors of the same lattice",
     "Tests ask three distances of one 2x2 cluster in ascending order.",
     ["HamiltonianPy/lattice/lattice.py"],
     [("distance enumeration and cache", "HamiltonianPy/lattice/lattice.py:Lattice.neighbor_distance")],
     ["Lattice.neighbor_distance"],
     [("_all_distances", "cache of distances found so far", "HamiltonianPy/lattice/lattice.py:Lattice")])

prop("P21", "Bond lists contain every neighbour pair of the periodic lattice exactly once",
     "For the n-th neighbours the intra-cluster and inter-cluster bond lists together contain each pair of lattice sites at the n-th neighbour distance (or up to it, on request) exactly once per cluster, up to lattice translation and direction. "
     "Intra-cluster bonds connect two cluster points, inter-cluster bonds start in the cluster and end outside it, and folding replaces only the outer endpoint by its equivalent cluster point. "
     "The zeroth neighbours are one on-site bond per point.",
     ["inputs", "histories", "configurations"],
     "any cluster in 1-3 dimensions, n up to 5, all combinations of the options, any order of queries",
     "Tests count bonds of one 2x2 cluster up to next-nearest neighbours.",
     ["HamiltonianPy/lattice/lattice.py"],
     [("pair search over half of the translations", "HamiltonianPy/lattice/lattice.py:Lattice.bonds, _sites_factory, _guess_scope")],
     ["Lattice.bonds"])

prop("P22", "Reciprocal vectors and the published lattice constants are mutually consistent",
     "The reciprocal vectors of every lattice satisfy a_i.b_j = 2 pi delta_ij and lie in the span of the translation vectors. "
     "For every published lattice the reciprocal vectors match the translation vectors, the listed zone-centre, edge-midpoint, face and corner points lie where their names say on the first Brillouin zone, complete and without duplicates, and the points of every published special cluster tile their parent lattice exactly once. "
     "Constructing lattices with duplicate points or vectors or inconsistent dimensions is refused.",
     ["inputs", "configurations"],
     "every lattice (any dimension and periodicity) and every published constant",
     "The database has no tests; one reciprocal basis is checked.",
     ["HamiltonianPy/lattice/lattice.py", "HamiltonianPy/lattice/_lattice_database.py"],
     [("pseudo-inverse of the translation vectors", "HamiltonianPy/lattice/lattice.py:Lattice.__init__"), ("tables of points and vectors", "HamiltonianPy/lattice/_lattice_database.py")],
     ["Lattice.bs", "special_cluster", "*_CELL_* constants"])

prop("P23", "k-paths visit the anchors in order along straight segments",
     "The generated path passes through all anchor points in order (and back to the first for a loop) at the returned indices, is straight and equidistant on each segment, has the requested number of points on the shortest segment and proportionally many on the others. "
     "Identical neighbouring anchors are refused and the anchors are not modified.",
     ["inputs", "configurations"],
     "any 2 to 7 anchors in two or three dimensions, integer or float, any density, open or closed, with or without indices",
     "Tests use one right-angled path with one or two points per segment.",
     ["HamiltonianPy/lattice/lattice.py"],
     [("piecewise linear sampling", "HamiltonianPy/lattice/lattice.py:KPath")],
     ["KPath"])

prop("P24", "Rotation matrices are the orthogonal maps they are named after",
     "Every rotation generator returns an orthogonal matrix that fixes its axis, turns vectors counter-clockwise by the given angle and has determinant +1, or -1 when inversion is included; degrees and radians, axis normalisation and both axis notations agree, and angles add up. "
     "Euler rotations are the product of the three axis rotations, and all published rotation constants equal the corresponding generated matrices. "
     "A zero axis is refused.",
     ["inputs", "configurations"],
     "all angles incl. negative and beyond a full turn, all axes incl. coordinate axes, negative and nearly vertical ones, both notations, degrees/radians, inversion",
     "Tests compare with the published constants at a few special angles and axes.",
     ["HamiltonianPy/rotation3d.py"],
     [("axis alignment products", "HamiltonianPy/rotation3d.py:RotationGeneral, RotationEuler"), ("tables", "HamiltonianPy/rotation3d.py")],
     ["RotationX", "RotationY", "RotationZ", "RotationGeneral", "RotationEuler", "constants"])

prop("P25", "Points are located correctly relative to a line in the plane",
     "The location of a point relative to a line is ON exactly when it is on the line within tolerance, left/right for vertical and above/below for all other lines, independent of the order of the two defining points. "
     "A coordinate completed from the other one lies on the line and requests that have no unique answer are refused; generated points follow the given ratios. "
     "Coincident defining points are refused.",
     ["inputs", "configurations"],
     "all pairs of points incl. horizontal, vertical, steep and flat lines, integer and float containers, points on and off the line, tolerance settings, both coordinates",
     "Tests use a few lines and points.",
     ["HamiltonianPy/line2d.py"],
     [("slope form comparison", "HamiltonianPy/line2d.py:Line2D.LocationRelation"), ("coordinate completion", "HamiltonianPy/line2d.py:Line2D.Coordinate")],
     ["Line2D"])

prop("P26", "Points are located correctly relative to a convex polygon",
     "For every convex polygon and interior reference point a point is reported as corner, boundary, inside or outside exactly as its geometric position demands, for edges of any direction including vertical and horizontal ones and for collinear vertices. "
     "The answer does not depend on the orientation or starting vertex of the polygon or on the reference point, and degenerate vertex lists are refused.",
     ["inputs", "configurations"],
     "all convex polygons with 3 to 9 vertices, both orientations, axis-parallel edges, points at vertices, on edges, on extensions of edges, inside and outside",
     "The module has no tests.",
     ["HamiltonianPy/polygon.py", "HamiltonianPy/line2d.py"],
     [("half-plane comparison per edge", "HamiltonianPy/polygon.py:Polygon.LocationRelation")],
     ["Polygon"])

prop("P27", "Queries never modify or alias the objects and arrays they are given",
     "Building and querying lattices, bonds, states, operators, terms, tables, bases, matrices, projections and Green's functions leaves every argument unchanged, and modifying an argument after construction or a returned array never changes an existing object. "
     "Repeating a query on the same objects, in any order and interleaved with other queries, gives the same answer, and a query on an array that the caller has refilled in place answers for its current contents.",
     ["inputs", "histories"],
     "any sequence of public queries on shared objects with arguments and results being overwritten between the calls",
     "Tests query fresh objects once; aliasing and hidden state only show up in multi-step sequences.",
     ["HamiltonianPy/lattice/lattice.py", "HamiltonianPy/bond.py", Q+"quantumstate.py", Q+"particlesystem.py", Q+"spinsystem.py", "HamiltonianPy/lanczos.py", "HamiltonianPy/GreenFunction/_GFSolver.py"],
     [("defensive copies", "np.array(..., copy=True) throughout"), ("caches", "HamiltonianPy/lattice/lattice.py:Lattice.decompose, neighbor_distance")],
     ["all public constructors and queries"])

prop("P28", "Compiled kernels stay inside the arrays they are given",
     "Matrix evaluation never reads or writes outside the bases and terms it is given: results do not depend on memory next to the arrays, neighbouring memory is left intact, strided, sliced, read-only or memory-mapped bases behave like fresh arrays and bounds-checked builds raise no index error. "
     "A missing image state is always reported as an error, also at the ends of the basis, and the session stays usable afterwards.",
     ["inputs", "configurations"],
     "all term kinds, basis sizes 0..n, views into larger buffers with hostile neighbours, missing images at every position, bounds checking on and off",
     "Unit tests run without bounds checking on freshly allocated arrays; an out-of-bounds access that happens to read zero goes unnoticed.",
     [Q+"matrixrepr.py"],
     [("range check after the binary search", Q+"matrixrepr.py:_core_general, _core_hopping")],
     ["matrix_function", "ParticleTerm.matrix_repr"])

prop("P29", "Counting functions are exact for all sizes",
     "The numbers of permutations and combinations, with and without repetition, are the exact integers of combinatorics for every n and k with 0 <= k <= n, and they agree with the dimensions of the particle-number sectors. "
     "Invalid arguments are refused.",
     ["inputs"],
     "all 0 <= k <= n up to several hundred, with and without repetition",
     "The module has no tests; floating-point division goes wrong only for larger numbers.",
     ["HamiltonianPy/tools/PandC.py"],
     [("factorial quotients", "HamiltonianPy/tools/PandC.py")],
     ["Permutation", "Combination"])

prop("P30", "Coloured text decodes to exactly the requested text and style",
     "The decorated string, read by an ANSI terminal, shows exactly the original text in the requested foreground, background and weight and leaves the terminal in its default state; names, letters, codes, RGB triples and hex notations of one colour are equivalent and undefined names, codes, components and hex notations are refused. "
     "Printing writes the joined objects, the separator and the end text to the requested stream only.",
     ["inputs", "configurations"],
     "all colour schemes, all documented colour notations and codes, upper and lower case, bold or not, any text and print options",
     "The module has no tests.",
     ["HamiltonianPy/tools/colorprint.py"],
     [("control sequence tables", "HamiltonianPy/tools/colorprint.py:coloring")],
     ["coloring", "color_print"])

prop("P31", "The temporary run-time environment restores everything on every exit",
     "Inside the environment standard output goes to a new log file in the requested directory and the requested number of threads is in force; after leaving it, normally or by an exception, standard output and the number of threads are as before, the log is complete and closed and contains exactly the printed text between header and footer. "
     "Exceptions are recorded in the log and propagate, and what was printed in complete lines is in the log even if the process is killed inside of the environment.",
     ["histories", "configurations", "fault_sequences"],
     "nested and repeated environments, redirected or not, any thread number, existing or missing directories, exceptions raised at any point, processes killed at any point",
     "The module has no tests.",
     ["HamiltonianPy/tools/runtimeenv.py"],
     [("enter and exit", "HamiltonianPy/tools/runtimeenv.py:RunTimeEnv.__enter__, __exit__")],
     ["RunTimeEnv"])

prop("P32", "Figures depict exactly the model data",
     "The figures of a lattice, a first Brillouin zone, a line, a polygon and the sketched two-dimensional lattices contain exactly the sites, translations, reciprocal points, bisectors, vertices and nearest-neighbour bonds of the object shown and nothing else, and operators and terms appear in their LaTeX form. "
     "When saving is requested the figure is written to the requested place under the documented name and no figure stays open.",
     ["inputs", "configurations"],
     "every lattice and scope, every option of the drawing functions",
     "Nothing that draws is tested.",
     ["HamiltonianPy/lattice/lattice.py", "HamiltonianPy/line2d.py", "HamiltonianPy/polygon.py", "HamiltonianPy/tools/Draw2DLattice.py"],
     [("drawing", "Lattice.show, ShowFirstBZ, Line2D.ShowLine, Polygon.ShowPolygon, Draw2DLattice.show, show methods of operators and terms")],
     ["matplotlib axes at the time the figure is shown"])

prop("P33", "Printed forms identify the object they describe",
     "Evaluating the official representation of a site, state, operator, bond, line or basis specification gives an equal object, and different objects print differently. "
     "The LaTeX form shows the rounded coordinates or the table index, the spin arrow or number, the orbit on request, the operator kind and, for terms, coefficient and operators in order. "
     "The examples in the documentation print what they show, whatever was called before.",
     ["inputs", "configurations"],
     "all objects of these kinds with any coordinates, spins, orbits, index tables, digits and formatting options",
     "Tests compare a few fixed strings.",
     [Q+"quantumstate.py", Q+"particlesystem.py", Q+"spinsystem.py", "HamiltonianPy/bond.py", "HamiltonianPy/line2d.py", "HamiltonianPy/hilbertspace.py", "HamiltonianPy/indextable.py"],
     [("repr and tolatex methods", Q+"quantumstate.py ...")],
     ["repr()", "str()", "tolatex()"])

prop("P34", "Complete model calculations reproduce the exact physics",
     "Hamiltonians assembled from a lattice, its bonds and the term generators are Hermitian, have the spectrum of the exact model (free-fermion filling, Hubbard dimer, Heisenberg rings, pairing models, multi-orbital atoms with their term symbols), and their spectra do not depend on the numbering of states, the order of sites, gauge choices or the division into number and spin sectors. "
     "Particle-number and spin conservation and particle-hole symmetry hold as operator identities where the model has them.",
     ["inputs", "configurations", "programs"],
     "random lattices, clusters, boundary conditions, couplings, fillings and index permutations",
     "The unit tests check modules in isolation; errors that appear only when lattice, bonds, indices, bases and matrices are combined stay invisible.",
     ["HamiltonianPy/lattice/lattice.py", "HamiltonianPy/hilbertspace.py", "HamiltonianPy/indextable.py", Q+"factory.py", Q+"particlesystem.py", Q+"spinsystem.py", Q+"matrixrepr.py"],
     [("the whole pipeline", "HamiltonianPy")],
     ["public API used end to end"])

prop("P35", "Concurrent read-only use of shared objects gives the serial results",
     "When several threads query shared lattices, tables, bases, operators and terms at the same time, without assigning attributes, every call returns what it returns when run alone, whatever the interleaving. "
     "No call fails or corrupts the state used by later calls.",
     ["schedules", "histories"],
     "all interleavings of public read-only queries from 2 to 8 threads on shared objects with cold and warm caches",
     "Tests are single-threaded; lazily filled caches and module state are only exposed by interleavings.",
     ["HamiltonianPy/lattice/lattice.py", Q+"matrixrepr.py", Q+"particlesystem.py", Q+"spinsystem.py", "HamiltonianPy/lanczos.py"],
     [("idempotent caches", "HamiltonianPy/lattice/lattice.py:Lattice.decompose, neighbor_distance"), ("pure kernels", Q+"matrixrepr.py")],
     ["results of calls made by the threads"],
     [("_dRsDataBase, _all_distances", "lazily filled caches", "HamiltonianPy/lattice/lattice.py:Lattice")])

prop("P36", "Generated clusters are exact supercells of their unit cell",
     "A generated chain, square, triangle, honeycomb, kagome or cubic cluster of given size contains each site of the parent lattice inside the supercell exactly once, has the unit-cell vectors multiplied by the size as translation vectors, and the documented name. "
     "Special clusters are available under each of their aliases with identical data, unknown names and sizes below one are refused, and each returned lattice is independent of the others and of the published tables.",
     ["inputs", "configurations"],
     "every lattice type, every size up to 7 in each direction, every alias and many invalid names and sizes",
     "Generators are not tested at all.",
     ["HamiltonianPy/lattice/_lattice_database.py"],
     [("cluster construction", "HamiltonianPy/lattice/_lattice_database.py:lattice_generator, special_cluster")],
     ["lattice_generator", "special_cluster"])

prop("P37", "Green's functions of clusters give the spectra of the crystals",
     "The Green's functions of an open cluster, combined with the bonds between clusters and the lattice translations found by decomposition, give the exact spectrum of free crystals at every momentum, with every solver and output structure, and the exact local spectrum of interacting clusters that the combination starts from. "
     "The Green's functions and dynamic spin correlations of clusters with periodic bonds are diagonal in the momenta allowed by the cluster, equal the spectrum of the infinite crystal there for free particles, and have no negative spectral weight. "
     "The model programs shipped with the library run and give the exact energies and total spectral weights.",
     ["inputs", "configurations"],
     "every lattice, filling, coupling, momentum and frequency of small clusters, every solver and structure, free and interacting",
     "Nothing in the tests connects lattices, bonds, terms, bases and solvers into the spectra that the library is used for; an error in a phase, a boundary translation or a sector shows only in the combination.",
     ["HamiltonianPy/GreenFunction/_GFSolver.py", "HamiltonianPy/lattice/lattice.py", "HamiltonianPy/lanczos.py", "HamiltonianPy/quantumoperator/factory.py", "HamiltonianPy/hilbertspace.py"],
     [("solvers", "HamiltonianPy/GreenFunction/_GFSolver.py"),
      ("bonds and translations", "HamiltonianPy/lattice/lattice.py:bonds, decompose"),
      ("shipped programs", "HamiltonianPy/GreenFunction/demo")],
     ["GFSolver*", "RGFSolver*", "Lattice.bonds", "Lattice.decompose", "MultiKrylov", "demo programs"])

prop("P38", "Objects keep their identity when copied, pickled or sent to other processes",
     "A shallow or deep copy or a pickle of a site, state, operator, bond, term, index table, lattice, line, polygon or Hilbert space gives an object that equals the original where equality is defined, hashes and orders like it, is found in sets, dictionaries and tables keyed by it, and answers every query alike, whether or not the original was used before. "
     "This also holds in another process with another hash seed, where whole computations give the same results. "
     "Giving a copied term a new coefficient, or querying a deep copy of a lattice, does not change the original.",
     ["inputs", "histories"],
     "all kinds of objects, all pickle protocols (2 and above for lattices) and copy functions, fresh and used objects, objects in containers, other processes",
     "No test copies an object or uses a second process, yet calculations are distributed over processes and results are stored.",
     ["HamiltonianPy/quantumoperator/quantumstate.py", "HamiltonianPy/quantumoperator/particlesystem.py", "HamiltonianPy/quantumoperator/spinsystem.py", "HamiltonianPy/bond.py", "HamiltonianPy/indextable.py", "HamiltonianPy/lattice/lattice.py"],
     [("value identity", "HamiltonianPy/quantumoperator/quantumstate.py:SiteID, StateID"),
      ("operators as keys", "HamiltonianPy/quantumoperator/particlesystem.py:AoC.__hash__"),
      ("tables", "HamiltonianPy/indextable.py:IndexTable")],
     ["copy", "deepcopy", "pickle", "a second process"])

prop("P39", "Library calls leave the process as they found it",
     "Importing the package or any of its modules in any order, and any query, construction, refused call or finished run-time environment, leaves numerical settings, random generators, working directory, environment, locale, signal handlers, hooks, streams, logging, warning filters, plot settings, threads and open files as they were, prints nothing and writes no file unless asked to. "
     "Long series of work on new objects do not accumulate memory, objects, files or figures. "
     "All published names of the package exist and are unique.",
     ["inputs", "histories", "configurations"],
     "every public query, construction, refusal and import order, under default and unusual numerical, printing and plot settings, for arbitrarily long series",
     "The tests never look at anything outside of the value returned, and are short.",
     ["HamiltonianPy/__init__.py", "HamiltonianPy/lanczos.py", "HamiltonianPy/GreenFunction/_GFSolver.py", "HamiltonianPy/lattice/lattice.py", "HamiltonianPy/tools/runtimeenv.py"],
     [("import", "HamiltonianPy/__init__.py"), ("solvers", "HamiltonianPy/GreenFunction/_GFSolver.py"),
      ("environment", "HamiltonianPy/tools/runtimeenv.py:RunTimeEnv")],
     ["process state before and after calls", "allocated memory", "open descriptors", "imports in new processes"])

prop("P40", "The same program gives the same answers under all run-time conditions",
     "A program of valid public calls gives the same answers, with lists in the same order, in every process: whatever the hash seed, interpreter options (also -O and -OO), order of imports, working directory, place of the package, locale and environment, settings of the garbage collector and of numerical errors. "
     "It makes no difference whether it runs in the main thread, another thread or a forked process, first or after other work.",
     ["inputs", "configurations", "histories"],
     "programs over all modules; hash seeds, interpreter options, environments, places and kinds of execution in any combination",
     "The tests run in one process with assertions enabled, one working directory and one order of imports.",
     ["HamiltonianPy/__init__.py", "HamiltonianPy/lattice/lattice.py", "HamiltonianPy/lattice/_lattice_database.py", "HamiltonianPy/indextable.py", Q+"factory.py", Q+"matrixrepr.py", "HamiltonianPy/hilbertspace.py", "HamiltonianPy/tools/colorprint.py"],
     [("assertions only validate", "assert statements throughout"), ("deterministic enumeration", "HamiltonianPy/lattice/lattice.py:Lattice._sites_factory, bonds"),
      ("compiled kernels with an on-disk cache", Q+"matrixrepr.py")],
     ["all public constructors and queries", "new processes"])

prop("P41", "Invalid arguments are refused, and refused calls have no effect",
     "Every public constructor, query, operator and setter refuses, with an exception, arguments outside of its documented domain (wrong shape, dimension, type, operand or range, unknown name, site, state or key, duplicate, missing image, zero vector), wherever in the arguments the fault is. "
     "A refused call changes neither its arguments, nor the objects involved, nor the settings of the modules: they give the same answers as if the call had never been made.",
     ["inputs", "histories", "failures"],
     "one fault put anywhere into otherwise valid arguments of every public callable; strange arguments to every method of objects in use",
     "The tests check a few refusals with one argument each, and never look at the objects afterwards.",
     ["HamiltonianPy/bond.py", "HamiltonianPy/indextable.py", "HamiltonianPy/hilbertspace.py", "HamiltonianPy/lattice/lattice.py", "HamiltonianPy/lanczos.py", "HamiltonianPy/line2d.py", "HamiltonianPy/polygon.py", "HamiltonianPy/rotation3d.py", Q+"quantumstate.py", Q+"particlesystem.py", Q+"spinsystem.py", Q+"matrixrepr.py", "HamiltonianPy/tools/PandC.py"],
     [("validation before the state is set", "constructors and setters throughout"), ("thresholds", "HamiltonianPy/bond.py, lanczos.py, lattice/lattice.py: set_* functions"),
      ("missing images", Q+"matrixrepr.py")],
     ["all public constructors, queries, operators and setters"])

prop("P42", "The same request, stated in different ways, gets the same answer",
     "A request gets the same answer, up to round-off, whether arguments are given by position or by keyword in any order, and whether documented defaults are given or left out. "
     "The documented forms of a value are equivalent: lists, tuples, iterators and arrays of any layout and storage type, whole numbers as integers or floats of Python or numpy, sparse and dense matrices, the kinds of subspace specifiers, Cartesian and spherical axes, aliases of names. "
     "Documented shorthands (None for the own value or the same basis, callable objects, convenience constructors, term classifications) give what they stand for.",
     ["inputs", "configurations"],
     "every public callable with random valid arguments, stated in random ways",
     "The tests use one way to state each request, mostly with defaults left out.",
     ["HamiltonianPy/indextable.py", "HamiltonianPy/hilbertspace.py", "HamiltonianPy/lattice/lattice.py", "HamiltonianPy/lanczos.py", "HamiltonianPy/GreenFunction/_GFSolver.py", "HamiltonianPy/rotation3d.py", "HamiltonianPy/line2d.py", "HamiltonianPy/polygon.py", Q+"quantumstate.py", Q+"particlesystem.py", Q+"spinsystem.py", Q+"factory.py", Q+"matrixrepr.py"],
     [("signatures and defaults", "all public callables"), ("conversion of arguments", "constructors throughout"), ("shorthands", Q+"particlesystem.py, factory.py")],
     ["all public constructors and queries"])

prop("P43", "Interrupted calls leave everything as it was",
     "A call that is ended at any point by a keyboard interrupt, lack of memory, an error of an iterator, element or callable supplied by the caller, or an exception inside of a run-time environment leaves its arguments (values and flags), the objects involved, the constants of the library and the state of the process as they were. "
     "All later calls, including the same call again, give the same answers as if the interrupted call had never been made.",
     ["failures", "histories"],
     "an exception at every line or byte code that a call goes through; arguments that fail when they are used; bodies of environments that end by all kinds of exceptions",
     "The tests never interrupt a call; a test can do so at one place at most.",
     ["HamiltonianPy/lattice/lattice.py", "HamiltonianPy/hilbertspace.py", "HamiltonianPy/indextable.py", "HamiltonianPy/lanczos.py", "HamiltonianPy/GreenFunction/_GFSolver.py", "HamiltonianPy/tools/runtimeenv.py", Q+"matrixrepr.py", Q+"particlesystem.py", Q+"spinsystem.py"],
     [("stored results", "HamiltonianPy/lattice/lattice.py, "+Q+"particlesystem.py, spinsystem.py: values kept for later calls"),
      ("restoration", "HamiltonianPy/tools/runtimeenv.py: __enter__, __exit__")],
     ["all public constructors and queries", "RunTimeEnv"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for rec in P:
        n = rec["statement"].count(". ") + 1
        assert n <= 3, (rec["id"], n)
        f.write(json.dumps(rec) + "\n")
print(len(P), "properties")
