#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  The list below is the source; edit here, then run."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)

I = "include/macis/"
S = "src/macis/"
X = "src/sparsexx/include/sparsexx/"
L = "src/lobpcgxx/include/lobpcgxx/"
A = "attic/"

p("C01", "Bit-string utilities agree with their bit-by-bit definitions",
  "For every determinant width the library supports and every bit string, scanning for the first or last set bit, listing set-bit positions, building a mask of a given length, narrowing or widening a string, splitting it into its alpha and beta halves, converting it to machine integers and comparing two strings give exactly the answer that examining the bits one by one gives. Comparison is a strict total order that agrees with reading the strings as unsigned integers. Canonical occupation strings (2, u, d, 0) and bit strings convert into each other without loss.",
  ["inputs"], "all bit strings of widths 8 to 256, all mask lengths, pairs of strings, all occupation strings",
  "The repository's tests use a handful of fixed bit strings per width; bugs at word boundaries, at bit 31/63/127 or for the empty or full string need inputs the tests do not contain (and those tests are not even built here).",
  [I+"bitset_operations.hpp", I+"sd_operations.hpp"],
  [("word-level fast paths", I+"bitset_operations.hpp: ffs/fls/fast_to_ullong/full_mask/truncate_bitset/expand_bitset/bitset_lo_word/bitset_hi_word/bitset_less"),
   ("canonical strings", I+"sd_operations.hpp: to_canonical_string/from_canonical_string")],
  ["return values of the bit-string functions"])

p("C02", "Excitation and Hilbert-space generation is complete and duplicate-free",
  "For any determinant and orbital count, the generated occupied/virtual orbital lists, single and double excitations (same-spin and mixed-spin), CIS and CISD spaces and the full Hilbert space for given electron numbers contain exactly the determinants their definition names: each one once, none missing, none outside the active orbitals, with alpha and beta electron numbers unchanged. The canonical Hartree-Fock determinant occupies the lowest orbitals, or, when orbital energies are given, the orbitals of lowest energy. The set of determinants left after removing any pair of electrons is generated with the same completeness.",
  ["inputs"], "all widths, orbital counts up to half the width, electron numbers including empty and full shells, arbitrary (non-Aufbau) determinants",
  "Tests check sizes and a few members for fixed orbital counts and one reference determinant; completeness has to hold for every occupation pattern, including empty or full spin shells and orbital counts that fill the word.",
  [I+"sd_operations.hpp"],
  [("occupied/virtual lists", I+"sd_operations.hpp: bitset_to_occ_vir*, bits_to_indices"),
   ("excitation generators", I+"sd_operations.hpp: append_/generate_singles*, doubles*, cis_, cisd_, generate_hilbert_space, generate_combs"),
   ("residues", I+"sd_operations.hpp: generate_residues")],
  ["the returned vectors of determinants"])

p("C03", "Excitation phases equal those of fermionic operators",
  "For every determinant and every single or double excitation of it, the phase reported by the library equals the sign obtained by applying the corresponding creation and annihilation operators one at a time to the determinant, and the orbital indices reported with it are the ones that differ between the two determinants. The phase does not depend on which of the two determinants is called bra and which ket.",
  ["inputs"], "all occupation patterns of widths 16 to 128, all single excitations, same-spin and opposite-spin doubles, including excitations that cross each other and span the whole orbital range",
  "The tests compare a few hand-made excitations; a sign depends on the parity of electrons between two orbitals, so a wrong mask only shows for particular occupation patterns and index orders.",
  [I+"sd_operations.hpp"],
  [("parity of electrons between two orbitals", I+"sd_operations.hpp: single_excitation_sign, single_excitation_sign_indices, doubles_sign, doubles_sign_indices, first_occupied_flipped")],
  ["signs and indices returned by the phase functions"])

p("C04", "Hamiltonian matrix elements equal the second-quantised Hamiltonian",
  "For any one- and two-electron integrals with the usual permutational symmetry and any two determinants, the matrix element the library computes equals the matrix element of the second-quantised Hamiltonian evaluated by applying its operators to the determinants. It is zero when the determinants differ by more than two spin orbitals, and the matrix over any set of determinants is symmetric. The determinants must hold the same numbers of alpha and beta electrons. The answer is unchanged after the integrals held by the Hamiltonian generator are replaced and restored.",
  ["inputs"], "random integrals for 1 to 8 orbitals, arbitrary determinant pairs of equal or different spin populations, several determinant widths",
  "The tests check a few elements of one water molecule with a reference number each; Slater-Condon rules have many index and exchange combinations that only particular determinant pairs exercise.",
  [I+"hamiltonian_generator.hpp", I+"hamiltonian_generator/matrix_elements.hpp", I+"hamiltonian_generator/impl.hpp"],
  [("dispatch on excitation degree", I+"hamiltonian_generator/matrix_elements.hpp: matrix_element"),
   ("pre-reduced integrals", I+"hamiltonian_generator/impl.hpp: generate_integral_intermediates")],
  ["matrix_element() values"])

p("C05", "Incremental diagonal and orbital-energy formulas equal full evaluation",
  "For any integrals and any determinant, the diagonal Hamiltonian element of a singly or doubly excited determinant obtained by the incremental formulas from the parent's diagonal element equals the element evaluated from scratch. The single-orbital energies of a determinant equal the change the full diagonal element shows when that orbital is occupied or emptied.",
  ["inputs"], "random integrals, arbitrary parent determinants, all alpha, beta, same-spin and opposite-spin excitations",
  "The tests compare the formulas for excitations of one closed-shell determinant of one molecule; open-shell parents and high-lying orbitals are not reached.",
  [I+"hamiltonian_generator/fast_diagonals.hpp"],
  [("incremental diagonals", I+"hamiltonian_generator/fast_diagonals.hpp: fast_diag_single, fast_diag_ss_double, fast_diag_os_double, single_orbital_en(s)")],
  ["returned diagonal elements"])

p("C06", "Sparse Hamiltonian blocks hold exactly the significant matrix elements",
  "For any list of bra determinants, any list of ket determinants and any threshold, the sparse Hamiltonian the library builds has one entry for every pair whose matrix element exceeds the threshold in magnitude, with that value, in increasing column order, and no other entries; dimensions and row offsets are consistent. The row blocks that several processes build together are, stacked, the matrix one process builds, whatever the number of processes and the number of determinants.",
  ["inputs", "configurations"], "random integrals, arbitrary determinant lists (square, rectangular, single row, unsorted), thresholds, index widths, 1 to 4 processes including more processes than rows",
  "Tests compare one CISD matrix of one molecule against a stored file on at most two ranks.",
  [I+"csr_hamiltonian.hpp", I+"hamiltonian_generator/double_loop.hpp", I+"hamiltonian_generator.hpp"],
  [("double loop with excitation screening", I+"hamiltonian_generator/double_loop.hpp: make_csr_hamiltonian_block_"),
   ("row distribution", I+"csr_hamiltonian.hpp: make_dist_csr_hamiltonian")],
  ["row pointers, column indices and values of the returned matrix"])

p("C07", "Reduced density matrices reproduce energy and particle numbers",
  "For any set of determinants and any coefficients, the one- and two-particle density matrices equal the expectation values of the corresponding operator strings (the two-particle one up to the index permutations that real orbitals leave indistinguishable), so contracting them with the integrals gives the energy of the wave function, the one-particle matrix is symmetric and its trace is the electron number times the squared norm. Results are accumulated into (not on top of garbage in) the caller's arrays as documented by the callers, and asking for only the one-particle matrix gives the same one-particle matrix.",
  ["inputs"], "random determinant sets of fixed electron numbers (also incomplete spaces), random coefficients, 2 to 6 orbitals",
  "Tests compare one stored density matrix of one active space and one Hartree-Fock determinant.",
  [I+"hamiltonian_generator/rdms.hpp", I+"util/rdms.hpp", I+"hamiltonian_generator/double_loop.hpp"],
  [("per-pair contributions", I+"util/rdms.hpp: rdm_contributions_*"), ("double loop", I+"hamiltonian_generator/double_loop.hpp: form_rdms")],
  ["the two density matrices"])

p("C08", "Rotating the Hamiltonian to natural orbitals is a unitary change of basis",
  "For any symmetric positive semidefinite one-particle density matrix, rotating the Hamiltonian generator to its natural orbitals leaves every many-electron spectrum unchanged, makes the density matrix of the same state diagonal in the new basis with occupations in a monotone order, and leaves all derived (pre-reduced) integrals consistent with the new integrals.",
  ["inputs"], "random integrals with 8-fold symmetry, random density matrices (also degenerate and integer occupations), 1 to 6 orbitals",
  "The repository has no built test of the rotation; a test can only sample one density matrix, while transposed or half-applied rotations agree with the right one for special (symmetric or diagonal) cases.",
  [I+"hamiltonian_generator/rdms.hpp", I+"hamiltonian_generator/impl.hpp"],
  [("natural orbital rotation", I+"hamiltonian_generator/rdms.hpp: rotate_hamiltonian_ordm")],
  ["matrix elements and integrals after the rotation"])

p("C09", "The determinant search returns the highest-scoring determinants",
  "For any core wave function and search settings, the score the search gives a determinant is the magnitude of the sum, over the core determinants that couple to it above the screening threshold, of coupling times coefficient divided by the energy denominator; when thresholds are zero no coupled determinant is missed. The search returns distinct determinants, always includes the core determinants, never returns more than requested, and every determinant it leaves out scores no higher than every non-core one it keeps.",
  ["inputs", "configurations"], "random integrals and core wave functions, requested sizes below, at and above the number of reachable determinants, small and large pair-list limits (so the lists are pruned once, many times or never), singles only or singles and doubles",
  "Tests compare energies of one molecule after a search; a wrongly scored or dropped determinant barely moves that energy, and list pruning is never reached at test sizes.",
  [I+"asci/determinant_search.hpp", I+"asci/determinant_contributions.hpp", I+"asci/determinant_sort.hpp"],
  [("score contributions", I+"asci/determinant_contributions.hpp: append_*_asci_contributions"),
   ("sort and accumulate duplicates", I+"asci/determinant_sort.hpp"),
   ("selection", I+"asci/determinant_search.hpp: asci_search, asci_contributions_standard")],
  ["the determinants returned by the search"])

p("C10", "Search constraints split the determinant space without gap or overlap",
  "For any number of alpha electrons and orbitals, the constraints the parallel search distributes over workers cover every alpha string that can be generated exactly once. For every constraint and every determinant, the constrained generators of single and double excitations yield exactly the excitations whose alpha string satisfies the constraint, and the predicted counts equal the number generated.",
  ["inputs", "configurations"], "constraint levels, 1 to 64 workers, orbital counts up to 12, arbitrary determinants and constraints",
  "The tests exercise a single water case; gaps between constraints silently lose determinants and show up only for electron and worker counts the tests do not use.",
  [I+"asci/mask_constraints.hpp"],
  [("constraint membership", I+"asci/mask_constraints.hpp: satisfies_constraint and mask helpers"),
   ("constrained generators", I+"asci/mask_constraints.hpp: generate_constraint_singles/doubles, constraint_histogram"),
   ("work distribution", I+"asci/mask_constraints.hpp: dist_constraint_general")],
  ["lists of constraints, constrained excitations and counts"])

p("C11", "The parallel search finds what the serial search finds",
  "For the same wave function, Hamiltonian and settings, the distributed determinant search returns, on every process, the same set of determinants for any number of processes, and with screening disabled that set is as good as the serial search's: the same core determinants and the same multiset of scores (the distributed search may screen with the coupling or with coupling times coefficient).",
  ["inputs", "configurations"], "random integrals and wave functions, 1 to 4 processes, requested sizes around the available number of determinants",
  "The tests run at most two ranks on one molecule and look at the energy only.",
  [I+"asci/determinant_search.hpp", I+"asci/mask_constraints.hpp", I+"util/dist_quickselect.hpp"],
  [("constraint-driven generation", I+"asci/determinant_search.hpp: asci_contributions_constraint"),
   ("distributed selection", I+"util/dist_quickselect.hpp"), ("gathering", I+"asci/determinant_search.hpp: asci_search (MPI part)")],
  ["the determinant list on every process"])

p("C12", "Growing and refining a selected-CI wave function is variational and faithful",
  "After growing or refining, the returned energy is the lowest eigenvalue of the Hamiltonian over the returned determinants (within the solver tolerance), the coefficients are its normalised eigenvector in the order of the determinants, the energy never lies below the full-CI ground state, and the number of determinants does not exceed the requested maximum. If the space reachable is the full Hilbert space and everything is requested, the result is full CI. Refining repeats its single step until the energy changes by less than the tolerance, and reports failure when that does not happen within the permitted number of steps.",
  ["inputs", "histories", "configurations"], "random Hamiltonians and starting determinants, sequences of grow and refine steps with growth factors, core sizes, with and without natural-orbital rotation during growth",
  "Tests run one molecule to one target size.",
  [I+"asci/grow.hpp", I+"asci/refine.hpp", I+"asci/iteration.hpp"],
  [("grow loop", I+"asci/grow.hpp: asci_grow"), ("refine loop", I+"asci/refine.hpp: asci_refine"), ("one iteration", I+"asci/iteration.hpp: asci_iter")],
  ["energy, determinants and coefficients after the call"])

p("C13", "The Davidson eigensolvers return the lowest eigenpair",
  "For any symmetric matrix, starting vector and settings with which they report convergence, the serial and the distributed Davidson solvers return a normalised vector and an energy with a residual norm within the requested tolerance, equal to the lowest eigenpair when the start has a component along it and the matrix does not decouple into (nearly) invariant blocks in which the recurrence itself ends; the distributed solver and the selected-CI diagonalisation give the serial answer for any number of processes and any row distribution. Their orthogonalisation routines produce vectors orthonormal to the given basis, and the starting guess is the unit vector of the smallest diagonal element.",
  ["inputs", "configurations"], "random symmetric (dense and sparse, diagonally dominant and CI-like) matrices of 2 to 80 rows, subspace limits, guesses, 1 to 4 processes with even and uneven row counts",
  "Tests diagonalise one stored matrix on at most two ranks.",
  [I+"solvers/davidson.hpp", I+"solvers/selected_ci_diag.hpp"],
  [("Davidson iteration", I+"solvers/davidson.hpp: davidson, p_davidson"), ("orthogonalisation", I+"solvers/davidson.hpp: gram_schmidt, p_gram_schmidt"),
   ("CI driver", I+"solvers/selected_ci_diag.hpp: selected_ci_diag")],
  ["eigenvalue, eigenvector, number of iterations"])

p("C14", "Distributed selection and collective helpers give the serial answer",
  "For any data and any way of spreading it over processes (including empty shares and ties), distributed selection returns on every process the k-th element of the concatenated data in the given order, without losing the data. The reduction, broadcast and gather helpers leave on every process what the corresponding sequential operation on all contributions gives, for every supported element type, including user-defined ones. A buffer longer than one message can be is refused before anything is sent, or arrives whole.",
  ["inputs", "configurations"], "arbitrary integer and floating-point data with repeats, any k from 1 to the total, uneven and empty shares, both orderings, 1 to 4 processes",
  "The tests use uniformly spread random data of one size on one and two ranks and a handful of k.",
  [I+"util/dist_quickselect.hpp", I+"util/mpi.hpp"],
  [("pivot rounds", I+"util/dist_quickselect.hpp: dist_quickselect"), ("typed wrappers", I+"util/mpi.hpp: allreduce, bcast, total_gather...")],
  ["returned values on every process"])

p("C15", "FCIDUMP files round-trip and accept every legal layout",
  "Integrals written to an FCIDUMP file and read back are the integrals written (to the digits the file carries), with the core energy, the orbital count and the 8-fold symmetry restored; writing a second file in the same program works. Reading gives the same integrals whatever order the lines come in and whichever representative of a symmetry-equivalent index set a line uses, orbital-energy lines do not disturb the one-electron integrals, and header-only queries agree with the file.",
  ["inputs", "histories"], "random integrals of 1 to 8 orbitals with zeros and extreme magnitudes, permuted lines and indices, optional orbital-energy lines, several files per process",
  "The tests read one file produced by one program.",
  [S+"fcidump.cxx", I+"util/fcidump.hpp"],
  [("line classification", S+"fcidump.cxx: line_classification, fcidump_line"), ("symmetry expansion", S+"fcidump.cxx: read_fcidump_2body"), ("writer", S+"fcidump.cxx: write_fcidump")],
  ["arrays filled by the readers, text of written files"])

p("C16", "Wave function and density-matrix files round-trip",
  "A wave function written to file and read back has the same determinants in the same order and the same coefficients to the last bit, for every supported width and any determinants within the given orbitals; binary density-matrix files written and read back give back the same arrays, and reading with the wrong number of orbitals is refused. The header of a wave-function file states the true number of determinants, orbitals, alpha and beta electrons.",
  ["inputs"], "random determinants and coefficients (denormal, negative, huge), 1 to 32 orbitals, random density matrices",
  "The only existing test reads one stored file, which is not part of this checkout.",
  [I+"wavefunction_io.hpp", S+"fcidump.cxx", I+"util/detail/rdm_files.hpp", I+"util/binary_rdms.hpp"],
  [("text writer and reader", I+"wavefunction_io.hpp"), ("binary density matrices", S+"fcidump.cxx: read_rdms_binary, write_rdms_binary")],
  ["vectors read back, file text"])

p("C17", "Integral transformations equal the defining contraction",
  "Transforming two- and four-index tensors with any (rectangular) orbital coefficient matrix equals the naive sum over all old indices; leading dimensions larger than the logical size, in input or output, neither change the result nor let data outside the logical tensor be read or written. Transforming with the identity returns the input, and successive transformations compose.",
  ["inputs"], "random tensors and matrices, old and new dimensions 1 to 7, padded leading dimensions",
  "Tests use the identity, one permutation and one sub-block, for which transposed or exchanged factors agree with the right ones.",
  [S+"transform.cxx", I+"util/transform.hpp"],
  [("chained matrix products", S+"transform.cxx: two_index_transform, four_index_transform")],
  ["the output tensor and its padding"])

p("C18", "Inactive, active and generalised Fock matrices reproduce the energy",
  "For any integrals, number of inactive and active orbitals and active density matrices, folding the inactive orbitals into an effective active-space Hamiltonian and core energy gives every active-space determinant the energy it has, with the inactive orbitals doubly occupied, under the full Hamiltonian. The inactive, active and generalised Fock matrices and the auxiliary Q matrix equal their defining contractions, and the energy evaluated from the generalised Fock matrix equals the energy from the density matrices.",
  ["inputs"], "random integrals, 0 to 3 inactive, 1 to 4 active, 0 to 3 virtual orbitals, random and physical density matrices",
  "The tests use one water molecule with one active space and stored numbers.",
  [S+"fock_matrices.cxx", I+"util/fock_matrices.hpp"],
  [("Fock builders", S+"fock_matrices.cxx"), ("active-space Hamiltonian", I+"util/fock_matrices.hpp: active_hamiltonian, active_subtensor_*")],
  ["output matrices and scalars"])

p("C19", "Orbital gradient, Hessian and rotation helpers are the true derivatives",
  "For any integrals and density matrices, with any leading dimensions, the orbital gradient built from the generalised Fock matrix equals the derivative of the energy with respect to orbital rotations, and the numerical gradient and numerical Hessian equal that derivative and the second derivative for every pair of orbitals. For density matrices of a full-CI state of the active space the Hessian contraction equals the second derivative applied to the vector. The approximate diagonal Hessian equals its defining formula and the preconditioned step is minus the gradient divided by it. Energy and Fock matrix for rotated orbitals equal those of independently transformed integrals. Packing rotation parameters and expanding them to an antisymmetric matrix are inverse to each other; the rotation exp(-alpha K) is orthogonal and equals the matrix exponential.",
  ["inputs"], "random integrals, partitions into inactive, active and virtual orbitals (inactive and virtual possibly empty), physical and random symmetric density matrices, small and large rotation parameters, padded leading dimensions",
  "Tests compare norms of one gradient of one molecule.",
  [S+"orbital_gradient.cxx", S+"orbital_hessian.cxx", S+"orbital_rotation_utilities.cxx", S+"orbital_steps.cxx", I+"util/orbital_gradient.hpp"],
  [("gradient from Fock matrices", S+"orbital_gradient.cxx"), ("packing", S+"orbital_rotation_utilities.cxx"), ("matrix exponential", S+"orbital_rotation_utilities.cxx: compute_orbital_rotation"), ("Hessian contraction", S+"orbital_hessian.cxx: orb_orb_hessian_contract")],
  ["gradient, Hessian and rotation arrays"])

p("C20", "CASSCF returns consistent energies and stops only at stationary points",
  "Whatever the settings and the number of processes, the energy an orbital optimisation returns equals the one its returned density matrices give and (when it has iterated, or computed them itself) the exact active-space energy at the orbitals it ends with, whose density matrices it returns; the final integrals are an orthogonal transformation of the input (full-CI energy unchanged), so the energy is never below the full-CI energy. If it stops before the iteration limit, the orbital gradient evaluated independently at the final orbitals is within the tolerance. No iteration rotates by more than the step limit, and without DIIS the iteration has no memory: stopping and restarting from the rotated integrals gives the same next orbitals. From a start inside the region where preconditioned steps contract it does converge and the energy does not rise. Padded leading dimensions of integrals and density matrices are honoured and all processes return the same result.",
  ["inputs", "configurations"], "random near-diagonal Hamiltonians of 1 to 7 orbitals, 1 to 3 active orbitals with any electron numbers, with and without inactive and virtual orbitals, DIIS on or off, step limits, iteration limits, tolerances, density matrices passed in, 1 to 4 processes. The CI solver may refuse a start that already is an eigenvector (tiny active spaces) by an exception.",
  "The tests optimise one molecule from one start, on one process.",
  [I+"util/mcscf_impl.hpp", I+"util/mcscf.hpp", S+"casscf.cxx"],
  [("macro-iteration", I+"util/mcscf_impl.hpp: mcscf_impl"), ("active-space solver", I+"util/cas.hpp: compute_casci_rdms")],
  ["returned energy and density matrices, the integrals transformed last"])

p("C21", "Perturbation theory and orbital energies equal their formulas",
  "For any integrals and number of doubly occupied orbitals, the Hartree-Fock orbital energies equal the diagonal of the Fock operator, the second-order energy and amplitudes equal the textbook sums over occupied and virtual orbitals, the second-order density has the trace and symmetry its definition implies, and the natural orbitals derived from it are orthonormal with the occupations they diagonalise.",
  ["inputs"], "random integrals with a gap, 1 to 7 orbitals, any number of occupied orbitals",
  "There is no test of this code in the repository's built suite.",
  [S+"moller_plesset.cxx", S+"orbital_energies.cxx", I+"util/moller_plesset.hpp"],
  [("second-order quantities", S+"moller_plesset.cxx"), ("orbital energies", S+"orbital_energies.cxx")],
  ["energies, amplitudes, densities, orbitals"])

p("C22", "DIIS extrapolation solves its defining constrained minimisation",
  "For any history of vectors and errors, the extrapolated vector is the combination of the stored vectors, with coefficients adding to one, whose combined error has the least norm among such combinations of the retained window; vectors beyond the window size no longer contribute, and the first step returns the vector given.",
  ["inputs", "histories"], "random sequences of vectors and errors, window sizes 1 to 8, sequences longer than the window",
  "No test in the repository exercises it directly.",
  [I+"util/diis.hpp"], [("window and linear system", I+"util/diis.hpp")], ["extrapolated vector"])

p("C23", "Quasi-Newton minimiser: sufficient decrease and secant condition",
  "On any smooth function bounded below the minimiser never accepts a step that increases the function, each accepted step lies along minus the approximate inverse Hessian times the gradient (the first along the negative gradient) and satisfies the line search's sufficient-decrease condition, and it returns only a point its caller declared converged; on well-conditioned strongly convex functions it does converge. The approximate inverse Hessian is the one given by the update formula over all pairs and the chosen initial operator: it satisfies the secant equation of the last pair, is symmetric, and is positive definite when all pairs have positive curvature. Each line search returns a point, value and gradient that belong together and satisfy its acceptance condition, or throws.",
  ["inputs", "histories"], "random convex quadratics and nonlinear (Rosenbrock-like, quartic) functions of 1 to 8 variables, starts and settings",
  "No test in the repository exercises it.",
  [S+"bfgs/bfgs.hpp", S+"bfgs/bfgs_hessian.hpp", S+"bfgs/line_search.hpp"],
  [("iteration", S+"bfgs/bfgs.hpp"), ("Hessian updates", S+"bfgs/bfgs_hessian.hpp"), ("line search", S+"bfgs/line_search.hpp")],
  ["iterates, function values, updated operators"])

p("C24", "Sparse formats represent the same matrix after any conversion",
  "For any sparse matrix (empty rows or columns, rectangular, zero- or one-based, unsorted triplets), converting between coordinate, compressed-row, compressed-column and dense forms preserves every entry and the dimensions; sorting changes only the order; triangle expansion adds exactly the mirrored off-diagonal entries; trace, triangle and diagonal extraction agree with the dense matrix.",
  ["inputs", "histories"], "random patterns of 1 to 12 rows and columns including empty ones, both index bases, sequences of conversions and in-place operations",
  "Tests use a few fixed full-diagonal square matrices, so empty rows, rectangular shapes and mixed index bases are not reached.",
  [X+"matrix_types/coo_matrix.hpp", X+"matrix_types/csr_matrix.hpp", X+"matrix_types/csc_matrix.hpp", X+"matrix_types/conversions.hpp", X+"matrix_types/coo_matrix_ops.hpp", X+"matrix_types/dense_conversions.hpp", X+"util/submatrix.hpp"],
  [("conversions", X+"matrix_types/conversions.hpp, coo_conversions.hpp, dense_conversions.hpp"), ("triplet operations", X+"matrix_types/coo_matrix_ops.hpp")],
  ["entries of the converted matrices"])

p("C25", "Sparse matrix files round-trip",
  "A sparse matrix written as Matrix Market text or binary triplets and read back is the same matrix, bit for bit, for any shape, index base and finite values (a triplet file holding one triangle stands for the symmetric matrix); a general or symmetric Matrix Market file (real, integer or pattern, comments, blank lines, either triangle, any order) reads as the matrix it describes in every storage format, a general Rutherford-Boeing file likewise, and a defective header is refused; a distributed matrix written by several processes reads back as the whole matrix. Built with archive support, a matrix of any storage format written to an archive and read back, into a new matrix or over another one, is the same matrix, and the archive is read in the order it was written.",
  ["inputs", "configurations"], "random matrices of either index base, text variations, 1 to 3 processes",
  "The tests read two stored files and check a few entries.",
  [X+"io/read_mm.hpp", X+"io/write_mm.hpp", X+"io/write_dist_mm.hpp", X+"io/read_binary_triplets.hpp", X+"io/write_binary_triplets.hpp", X+"io/read_rb.hpp"],
  [("readers", X+"io/read_mm.hpp, read_binary_triplets.hpp"), ("writers", X+"io/write_mm.hpp, write_dist_mm.hpp, write_binary_triplets.hpp")],
  ["file contents and matrices read back"])

p("C26", "Submatrices, permutations and adjacency graphs match the dense matrix",
  "For any sparse matrix and index range, extracted submatrices equal the corresponding block of the dense matrix in either index base; permuting rows, columns or both equals permuting the dense matrix; permuting a vector forward and then backward (or by the inverse permutation) restores it; the adjacency graph is the off-diagonal pattern; partition-derived permutations are permutations that group the parts. Built with METIS, partitioning a matrix hands METIS the off-diagonal pattern counted from zero and returns the part METIS chose for each row, refuses fewer than two parts, and reports a failure of METIS.",
  ["inputs"], "random matrices including empty rows, all index ranges, random permutations and partitions",
  "Tests use one fixed matrix and one range of each kind.",
  [X+"util/submatrix.hpp", X+"util/permute.hpp", X+"util/graph.hpp", "src/sparsexx/src/metis_wrapper.cxx"],
  [("submatrix extraction", X+"util/submatrix.hpp"), ("permutations", X+"util/permute.hpp"), ("graph", X+"util/graph.hpp")],
  ["extracted and permuted matrices"])

p("C27", "Sparse matrix-vector products equal the dense product, also distributed",
  "For any sparse matrix, any number of vectors, scalars alpha and beta and leading dimensions, the serial product equals the dense result and touches nothing outside the result block. The distributed matrix holds exactly the rows each process owns, split into a local diagonal and a remote part, and the distributed product assembled over the processes equals the serial one for any number of processes, row partition and sparsity (including processes that need or own nothing).",
  ["inputs", "configurations"], "random matrices of 1 to 40 rows, custom row partitions, 1 to 4 processes, copies and moves of the distributed matrix",
  "The tests multiply one full random square matrix on one rank.",
  [X+"spblas/spmbv.hpp", X+"spblas/pspmbv.hpp", X+"matrix_types/dist_sparse_matrix.hpp"],
  [("serial kernel", X+"spblas/spmbv.hpp"), ("communication plan", X+"spblas/pspmbv.hpp: generate_spmv_comm_info"), ("row tiles", X+"matrix_types/dist_sparse_matrix.hpp")],
  ["product vectors, tile contents"])

p("C28", "LOBPCG returns converged extremal eigenpairs",
  "For any symmetric operator of dimension at least four times the block size, any positive definite preconditioner and any generic orthonormal starting block with which it returns, the block eigensolver's eigenvalues are the lowest eigenvalues of the operator in ascending order within the tolerance and its vectors are orthonormal eigenvectors with the residuals it reports; otherwise it reports failure instead of returning. Its convergence records are non-increasing Ritz values bounded below by the eigenvalues. Its building blocks (orthonormalisation, Rayleigh-Ritz projection, residuals) satisfy their defining equations.",
  ["inputs"], "random symmetric matrices of 10 to 60 rows with separated or clustered spectra, block sizes 1 to 5, with and without preconditioner, random orthonormal starting blocks, both precisions, padded storage",
  "The repository has only an example program that prints numbers.",
  [L+"driver.hpp", L+"rayleigh_ritz.hpp", L+"cholqr.hpp", L+"residuals.hpp", L+"rotate_basis.hpp", L+"simplified_interface.hpp"],
  [("iteration", L+"driver.hpp"), ("Rayleigh-Ritz", L+"rayleigh_ritz.hpp"), ("orthonormalisation", L+"cholqr.hpp")],
  ["eigenvalues, vectors, residuals"])

p("C29", "The exact-diagonalisation program reproduces the exact ground state",
  "For any Hamiltonian of a few orbitals and any electron numbers, the stand-alone exact-diagonalisation code (attic/cmz_ed) enumerates every determinant exactly once; excitations carry the sign of the operator order; its Hamiltonian, built over all pairs or over the screened list of pairs, is that of the second-quantised operator; the one- and two-particle density matrices of any vector are the expectation values of that vector, transform with the orbitals, and restrict to the active block; integrals read from a bare FCIDUMP list have the eightfold symmetry however each is listed, and come back after being written; the program returns the lowest energy that has a clear overlap with its uniform start vector, and densities that contracted with the integrals give that energy. Its Lanczos routines give the exact recurrence coefficients and the lowest eigenvalue of any symmetric matrix, its dense, tridiagonal and band eigensolvers and QR reproduce the matrix, and its band Lanczos resolvent run to exhaustion equals v^T (z -+ (H - E0))^-1 v.",
  ["inputs"], "random Hamiltonians of 1 to 5 orbitals, all electron numbers, random symmetric matrices",
  "The only test in the built suite prints a few determinants and compares two signs.",
  [A+"src/cmz_ed/slaterdet.c++", A+"src/cmz_ed/combins.c++", A+"src/cmz_ed/hamil.c++", A+"src/cmz_ed/rdms.c++", A+"src/cmz_ed/eigsolver.c++", A+"src/cmz_ed/ed.c++", A+"inc/cmz_ed/integrals.h++", A+"inc/cmz_ed/rdms.h++"],
  [("determinant algebra", A+"src/cmz_ed/slaterdet.c++"), ("Hamiltonian", A+"src/cmz_ed/hamil.c++"), ("density matrices", A+"src/cmz_ed/rdms.c++"), ("Lanczos", A+"src/cmz_ed/eigsolver.c++, lanczos.h++, bandlan.c++")],
  ["ground-state energy, density matrices, determinant lists"])

p("C30", "Green's functions of a CI wave function equal the resolvent",
  "For any configuration-interaction wave function and list of spin orbitals, the prototype Green's function code (attic/dbwy) works in exactly the space it describes: every determinant that adding (or removing) the electron reaches, plus the requested layers of single replacements among the active orbitals, starting from the determinants above the seed threshold, each listed once; a size limit only stops growth once it is passed. The vectors a+|psi>, a|psi> carry the signs of the operator order and vanishing ones are dropped and reported. The returned matrix is <v_i|(z -+ (H - E0))^-1|v_j> on the Krylov space of the requested number of steps for either Lanczos variant, the files written hold that matrix, and the complete program returns the sum of the particle and hole parts for the state it found.",
  ["inputs", "configurations"], "random Hamiltonians of 2 to 4 orbitals, random (partial) wave functions, orbital lists of either or both spins, thresholds, limits and frequencies; string widths 32 to 256 for space and vectors",
  "The repository's only tests of it are stand-alone programs that print numbers and are not part of the build.",
  [A+"inc/dbwy/gf.h++", A+"src/dbwy/gf.c++", A+"inc/dbwy/asci_body.hpp", A+"inc/dbwy/csr_hamiltonian.hpp", A+"inc/dbwy/sd_operations.hpp", A+"inc/cmz_ed/lanczos.h++"],
  [("space", A+"inc/dbwy/gf.h++: get_GF_basis_AS_1El"), ("vectors", A+"inc/dbwy/gf.h++: BuildWfn4Lanczos"), ("resolvent", A+"inc/dbwy/gf.h++: RunGFCalc, GF_Diag"), ("program", A+"inc/dbwy/asci_body.hpp: run_asci_w_GF")],
  ["determinant lists, vectors, Green's function matrices and files"])

p("C31", "The prototype determinant engine agrees with second quantisation",
  "In the prototype ASCI engine (attic/inc/dbwy), for any determinant and string width: single and double replacements (all orbitals or an active subset) are exactly those of the definition, each once; full and CIS spaces are complete; the text form of a determinant reads back; signs are those of the operator order; matrix elements of both generators and every sparse Hamiltonian block (square or rectangular, any threshold) are those of the second-quantised operator; density matrices are expectation values of the wave function and follow orbital rotations. The search returns the highest-scoring determinants (also when doubles are limited to the first orbitals), scores of repeated determinants are summed or maximised as named, and refinement stops at the first step that changes the energy by less than the tolerance, and the growth and refinement drivers and complete programs return the lowest state of distinct determinants with the right electrons, its energy, its density and a wave-function file that holds it.",
  ["inputs", "histories"], "random determinants of 1 to 64 orbitals at widths 32, 64, 128 and 256, random Hamiltonians of 2 to 5 orbitals for the drivers",
  "The repository's only tests of it are stand-alone programs that print numbers and are not part of the build.",
  [A+"inc/dbwy/sd_operations.hpp", A+"inc/dbwy/bitset_operations.hpp", A+"inc/dbwy/hamiltonian_generator.hpp", A+"inc/dbwy/double_loop.hpp", A+"inc/dbwy/sd_build.hpp", A+"inc/dbwy/csr_hamiltonian.hpp", A+"inc/dbwy/asci_util.hpp", A+"inc/dbwy/asci_body.hpp", A+"inc/dbwy/davidson.hpp"],
  [("determinants", A+"inc/dbwy/sd_operations.hpp, bitset_operations.hpp"), ("Hamiltonian", A+"inc/dbwy/hamiltonian_generator.hpp, double_loop.hpp, sd_build.hpp"), ("search and drivers", A+"inc/dbwy/asci_util.hpp"), ("programs", A+"inc/dbwy/asci_body.hpp")],
  ["determinant lists, matrix elements, energies, density matrices, files"])

p("C32", "The stand-alone program computes what its input file asks for",
  "For any input file of the stand-alone driver, the keywords mean the same whatever their order, letter case, spacing, blank lines or comments; defective input (unequal spins, orbital ranges that do not fit, unknown job or expansion, missing keyword or file) is refused with an exception, never computed. The program prints the core and inactive energies of the integrals and then, for a CAS job, the exact lowest energy of the active space, with the determinants above the print threshold and their coefficients; for an ASCI job, the lowest energy of the determinants it writes (never below the exact one), with as many distinct determinants of the right electrons as asked, starting from a guess or from a wave-function file whose energy it reports; for an MCSCF job, the exact active-space energy at the orbitals it arrives at, or at the given density matrices if there is nothing to optimise. MP2 orbitals and the written integral file describe the same Hamiltonian as the input. With several processes it prints and computes the same.",
  ["inputs", "configurations"], "random Hamiltonians of 2 to 6 orbitals with inactive and virtual orbitals, random settings and textual layout of the input, one to four processes",
  "The repository has no test that runs the driver; its unit tests call the library routines one at a time with settings chosen there.",
  ["tests/standalone_driver.cxx", "tests/ini_input.cxx", "include/macis/util/cas.hpp", "include/macis/asci/grow.hpp", "include/macis/asci/refine.hpp", "src/macis/casscf.cxx", "src/macis/fcidump.cxx", "include/macis/wavefunction_io.hpp"],
  [("program", "tests/standalone_driver.cxx"), ("input file", "tests/ini_input.cxx"), ("exact energy", "include/macis/util/cas.hpp"), ("ASCI", "include/macis/asci/grow.hpp, refine.hpp"), ("MCSCF", "src/macis/casscf.cxx, include/macis/util/mcscf_impl.hpp"), ("files", "src/macis/fcidump.cxx, include/macis/wavefunction_io.hpp")],
  ["printed energies and determinants, wave-function and integral files, refusal"])

p("C33", "Incomplete data files are refused and failed writes reported",
  "A wave-function, binary density-matrix, binary triplet, Matrix Market or Rutherford-Boeing file that was cut short at any byte (in a text file other than inside its last number) is refused by its reader with an exception (only a file that lost nothing but trailing blanks still reads, as exactly the data written), and a missing file is refused by every reader, those of FCIDUMP files included. A write that cannot be completed - the file cannot be created, or the space runs out at any byte - is reported with an exception by every writer of such files (FCIDUMP included), on every process if the file is written by several; a write that reports nothing has left the complete file, and the next write is not disturbed by a failed one.",
  ["crash_points", "fault_sequences", "inputs"], "files of random wave functions, density matrices and sparse matrices cut at every kind of place; a file-size limit at every kind of place; one to four processes",
  "No test reads a damaged file or lets a write fail; that a loss is reported wherever it happens is a statement about all bytes of all files.",
  [I+"wavefunction_io.hpp", S+"fcidump.cxx", X+"io/read_binary_triplets.hpp", X+"io/write_binary_triplets.hpp", X+"io/read_mm.hpp", X+"io/write_mm.hpp", X+"io/write_dist_mm.hpp", X+"io/read_rb.hpp"],
  [("wave functions", I+"wavefunction_io.hpp"), ("density matrices, integrals", S+"fcidump.cxx"), ("sparse matrices", X+"io/*.hpp")],
  ["exceptions, data read back, file contents"])

p("C34", "A build without MPI gives the same answers",
  "Compiled without MPI (MACIS_ENABLE_MPI off, an option of the build), the library needs no MPI header and its solvers satisfy the same specifications as with it, on one process: the determinant search returns the highest-scoring determinants with the scores their definition gives, growing and refining return determinants, energy and vector that belong together and the exact lowest state where it is reachable, the selected-CI solver and the Davidson eigensolver return the lowest eigenpair to the residual asked for or report failure, and the CASSCF returns consistent energies and density matrices and stops only at stationary points.",
  ["inputs", "configurations"], "the generators of the determinant-search, grow/refine, eigensolver and CASSCF properties, one process, built by a compiler without MPI",
  "The repository's tests are built with MPI only, the code of the other configuration is not even compiled.",
  [I+"asci/determinant_search.hpp", I+"asci/iteration.hpp", I+"asci/grow.hpp", I+"asci/refine.hpp", I+"solvers/selected_ci_diag.hpp", I+"solvers/davidson.hpp", I+"util/cas.hpp", I+"util/mcscf_impl.hpp", S+"casscf.cxx"],
  [("diagonalisation", I+"solvers/selected_ci_diag.hpp: serial_selected_ci_diag"), ("search iteration", I+"asci/iteration.hpp: asci_iter"), ("growth", I+"asci/grow.hpp: asci_grow")],
  ["returned determinants, energies, vectors and density matrices"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
