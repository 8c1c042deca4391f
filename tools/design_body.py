"""Per-property text of DESIGN.md (properties' ids, what is monitored, oracle, reach)."""
D = {}
D["C01"] = ("""A *shadow machine* (`nets.Machine`) drives random programs of public operations over random networks. Next to every live node it keeps the numpy array that node has to equal, with one token per axis that names the surviving edge.""",
"""numpy `einsum`/`transpose`/`reshape` of the shadow arrays after every single operation, and the direct sum of all original tensors when the program has contracted everything.""",
"""1-6 nodes, rank 0-4, dimensions 1-4 (dimension 1 and 0-d nodes included), copy nodes, parallel and trace edges, programs of up to 12 operations; numpy (most cases), TensorFlow and JAX.""")
D["C02"] = ("""The structural invariant is walked over all live nodes after every operation of a random history: every edge sits at exactly the axes it records, both ends, equal dimensions, all queries (get_edge, get_axis_number, shared/parallel edges, has_dangling_edge, ...) against brute force, consumed edges/nodes probed for stale data. Invalid calls are issued and a complete *fingerprint* of the network (object identities, names, axes, tensor bits) is compared before and after.""",
"""An explicit graph model and the fingerprint equality; ~55 kinds of invalid call, two-backend networks, superseded edge objects.""",
"""As C01; histories up to 14 operations; networks of 9-20 nodes (`large`).""")
D["C03"] = ("""All contractors on random networks, in random requested output orders; paths reported by path_solver and random user paths are replayed.""",
"""The network's direct sum computed beforehand by numpy; for a reported path, an independent validity check of the schedule.""",
"""Up to 17 nodes (`big`, `solver_big`), disconnected, trace, parallel, scalar and copy-node networks; bucket elimination over copy-node networks with random elimination orders; memory limits (which lead to steps of several nodes), networks passed as iterators.""")
D["C04"] = ("""ncon calls over random label specifications, spellings, con_order and out_order; histories of calls through one process (its jit cache) on three backends; rejected specifications.""",
"""`numpy.einsum` of the same labels (an independent translation), byte snapshots of the caller's lists and arrays.""",
"""1-6 tensors, rank 0-5, dimensions 1-4 (`many`: up to 50 labels and 16 tensors); symmetric backend against dense images.""")
D["C05"] = ("""svd/qr/rq and split_node* with random pivots/partitions and truncation requests.""",
"""Reconstruction, isometry, the exact spectrum by LAPACK on the matricised input, and the *set of admissible cut points* computed from it (a request within rounding of a threshold admits both neighbours).""",
"""Rank 2-5, generic, rank-deficient, degenerate, badly scaled, triangular and zero spectra, float32/64 and complex; edge identities, names and order of the surviving edges.""")
D["C06"] = ("""Every backend primitive with random shapes, dtypes, memory layouts and parameters.""",
"""NumPy/SciPy definitions written in the harness; value, shape and dtype; rejected arguments.""",
"""Rank 0-4, sizes 0-4; numpy always, TensorFlow/JAX sampled; the vendored TensorFlow tensordot also with dynamic shapes inside tf.function.""")
D["C07"] = ("""All functions/methods/operators of Tensor, linalg and node_linalg.""", """The NumPy expression, dtype promotion table, backend identity, operand snapshots.""", """Rank 0-4, three backends, mixed-backend and Tensor/array mixes rejected.""")
D["C08"] = ("""Networks are saved to HDF5 files (scratch directory) and JSON strings and reloaded; saves that must fail are issued.""", """A labelled comparison of both networks (types, names, axis names, dtype and bits, edge endpoints and bindings, order) and the fingerprint of the saved network before/after.""", """All dtypes HDF5 can hold, names with odd characters, disabled/dangling edges, trace and parallel edges, copy nodes (also flattened, split and sliced ones), networks with a history of operations.""")
D["C09"] = ("""copy, replicate_nodes, node.copy/conj/transpose, graph queries and constructors on random (sub)networks, followed by random operations on one of the two networks.""", """An explicit graph: isomorphism through the returned maps, breadth-first search for reachability/connectivity, dense density matrices; the untouched network's fingerprint.""", """1-7 nodes (`large`: copies of 9-20, graphs of 11-25); three backends; switch_backend; collections given as iterators, reshaped copy nodes.""")
D["C10"] = ("""A *dense image with legs* (`sym.Model`) accompanies every block-sparse tensor through chains of operations in all layouts (permuted, fused, scrambled internal order).""", """The NumPy operation on the dense image; charge conservation entry by entry; leg charges and flows of every axis; operand snapshots.""", """U1, Z2, ZN and up to 3-fold products, 0-5 legs, dimension 0-4 (`dot_big`: up to 14; `many`: hundreds of sectors), empty sectors, empty legs, scalars; symmetric backend interface.""")
D["C11"] = ("""Every charge, index and set operation on charges given explicitly as integer arrays.""", """Integer arithmetic in the group (mod N), Python set/list semantics, explicit enumeration of all block maps.""", """Up to 5 symmetries, int8-int64, negative charges, 185-200 unique charges per leg (over 2^15 fused labels), equal charges stored differently (unused or reordered unique charges).""")
D["C12"] = ("""Factorisations of random (fused) block matrices, truncations with thresholds from the exact spectrum.""", """LAPACK on the dense image sector by sector, leg-by-leg charge bookkeeping of each factor, the admissible-cut set of C05 over the union of all sectors.""", """Singular, degenerate, rectangular, empty sectors, matrices of many sectors (`many`), inverses with unmatched sectors (rejected); both bs.linalg and the symmetric backend at any pivot.""")
D["C13"] = ("""C01's shadow machine over block-sparse nodes, contractors, ncon, copies, and joins of legs that do not match.""", """The dense image run by numpy, and charge conservation of every intermediate tensor.""", """2-5 nodes, rank <= 4; every way of mismatching flow/charge/group.""")
D["C14"] = ("""Histories of position/canonicalize with and without normalisation and truncation.""", """The dense state vector; truncations replayed bond by bond by exact SVD; isometry of every tensor; what check_canonical/check_orthonormality report.""", """2-7 sites with random bonds/physical dimensions, three dense backends and U1; long chains (60-220 sites) whose norm overflows.""")
D["C15"] = ("""Measurements and environments at random sites/partners/centres, interleaved with moves and gates.""", """Dense expectation values; fingerprint of the MPS.""", """2-7 sites (`long`: correlators on chains of 11-16), non-Hermitian operators, equal and repeated sites, symmetric tensors, histories that move the centre in place between measurements.""")
D["C16"] = ("""One- and two-site gates with every option, and deep circuits.""", """The gate applied to the dense vector; truncation replayed by exact SVD; the discarded values' norm against the exact change.""", """As C14; `long`: chains of 11+ sites.""")
D["C17"] = ("""canonicalize/transfer_matrix_eigs of random unit cells (generic, near-degenerate, gauge-scrambled, redundant bonds).""", """Dense transfer matrix diagonalisation: dominant eigenvalue, reduced density matrices of 1-3 sites before/after, Schmidt values.""", """1-3 site cells, bond <= 5; cells whose transfer spectrum is (almost) degenerate are excluded since 'the' dominant pair does not exist.""")
D["C18"] = ("""MPO constructors with random couplings and tensor lists.""", """Spin and Jordan-Wigner Hamiltonians built by Kronecker products in the harness.""", """2-6 sites / up to 3x3 lattices (`long`: models of 11+ sites, sampled matrix elements), all dtypes, three backends.""")
D["C19"] = ("""DMRG runs with random models, states, bonds, sweeps and histories of position.""", """Dense diagonalisation in the reachable symmetry sector (upper/lower bounds), energy of the returned state recomputed densely, environments recomputed from scratch after any history.""", """2-7 sites (`long`: 7-10), numpy and block-sparse U1; monotonicity over increasing sweep counts.""")
D["C20"] = ("""Krylov solvers on random operators; every array handed out by or returned to the operator is snapshotted.""", """Residuals and dense spectra; explicit condition of when the solver must have converged.""", """Dimensions 1-60, degenerate and deficient operators, multi-leg tensors, function objects, methods, partials and callables reused over problems; JAX where it can run with the installed version.""")
D["C21"] = ("""Random expressions over operators, vectors, identities.""", """Dense linear algebra on the same expression tree; operand fingerprints.""", """1-3 subsystems, dimensions 1-3, up to 6 compositions; `wide`: more subsystems; operators made of networks with a history.""")
D["C22"] = ("""Layers of random configuration with random weights, inside and outside models, under tf.function, saved and restored.""", """The dense map (matrix product of the harness's own contraction of the weights; direct convolution loops), directional derivatives for gradients.""", """All layers, powers up to 10^6 inputs, batch shapes up to rank 4.""")
D["C23"] = ("""Random nestings of contexts, with exceptions raised and caught at random depths, creations of every object kind inside.""", """A stack model and a log of constructed nodes (constructor wrapped by the harness).""", """Depth <= 5, 6000 histories, context managers entered several times; jit's backend binding observed by whether the function was traced.""")
D["C24"] = ("""Every public computation is run on read-only, strided, reversed, Fortran-ordered, windowed and shared arrays, and again on plain copies.""", """Byte snapshots of all arguments, bit-or-tolerance equality between both runs.""", """~200 computations.""")
D["C25"] = ("""All initialisers over shapes/dtypes/boundaries/seeds with unrelated draws in between.""", """Requested shape/dtype/range; Kolmogorov-Smirnov and correlation bounds with false-alarm probability below 1e-12 per draw.""", """Shapes up to 10^5 entries for the statistics.""")
D["C26"] = ("""Path solvers on random adjacency matrices, label lists and real networks.""", """Exact integer costs of the returned order, dynamic programming over all subsets for the minimum, contraction by ncon along the order.""", """Up to 7 tensors exactly, 8-10 with the solver's path compression.""")
D["C27"] = ("""Random networks evaluated eagerly and inside jit, vmap, tf.function, vectorized_map, with changing shapes and static options; gradients.""", """numpy einsum, and the environment tensor (network minus one tensor) for gradients.""", """Up to 6 nodes; TensorFlow gradients are conjugates of the holomorphic derivative by TF's convention.""")
D["C28"] = ("""Random block-sparse programs run uncached and then replayed with cold, warm and switched caches; solvers whose operator works, fails, switches caching or nests another solver.""", """The uncached results: charges/flows/shape exactly, values to 1e-11, factors by metadata and reconstruction; cache contents and status before/after.""", """Colliding byte layouts on purpose (same bytes viewed as int8/16/32, U1/Z2/ZN siblings). Charges of the specific classes and of the generic `BaseCharge` share one cache (group `classes`; found a defect of `diag`).""")
D["C29"] = ("""Drawings of networks in all states.""", """An own parser of the DOT source and a labelled multigraph isomorphism; fingerprint of the network.""", """Up to 20 nodes; names with DOT meta characters, ports, HTML, escapes; trace, parallel, dangling edges, hidden generated names.""")
D["C30"] = ("""The example programs on random inputs; example scripts as processes (thorough).""", """DFT matrix, brute-force model count, dense MERA energy, Trotter product/exact exponentials, dense spin Hamiltonians.""", """FFT up to 2^6, SAT up to 8 variables, 2-8 qubit states.""")
D["C31"] = ("""Block-sparse tensors whose dense form would have 8-30 million entries, copy nodes of rank 8-25, ladders of 21-26 sites, operators on 21-26 qubits, chains of 22-40 sites; each call runs under `tracemalloc`, which sees every numpy buffer.""", """The peak of the call against a bound far below the dense size (normally a quarter of it or less; 20 times what the calls need) and, for solver schedules, against the largest tensor of the reported path; the values by scipy's sparse matrices on a coordinate list of the conserving entries, or by transfer products.""", """Peaks of TensorFlow/JAX buffers are not traced (the numpy copy tensor that these backends would convert is); `CopyNode.copy`, which builds the tensor in the library, is not claimed.""")
D["C32"] = ("""2-4 threads run the bodies of C24 (every kind of public computation), block-sparse contractions and factorisations, symmetric solvers and network programs at once. `sys.monitoring` calls back at every line of the library (the first 100 times per line and case) and yields at random ones; the switch interval is 10 us. Group `stop` is systematic instead: a job's lines are recorded in a dry run, then it is held at the nth visit of a chosen line (least-used lines first) while a twin job (same legs, other values) runs completely beside it, about 10000 such stops per quick run.""", """Each job's own result when run alone beforehand; any exception or a thread without progress is a violation. Read-only arrays are shared between threads in half of the jobs that take plain arrays.""", """The evidence counts thread switches inside the library (about 10^6 per quick run) and distinct lines at which another thread took over. Interleavings are sampled, not enumerated; C-level races of numpy, TensorFlow and JAX are out of scope, and so is the process-wide caching *status* after overlapping solvers.""")
