"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
  a = {"files": ["tensornetwork/" + f for f in files],
       "mechanism": [{"name": n, "where": "tensornetwork/" + w} for n, w in mech]}
  if state: a["state"] = [{"name": n, "meaning": m, "where": "tensornetwork/" + w} for n, m, w in state]
  if observe: a["observe_at"] = observe
  a["hook_needed"] = hook
  P.append({"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

NC = "network_components.py"; NO = "network_operations.py"
prop("C01", "Network operations preserve the value of the network",
  "For any network of nodes (any topology with parallel, trace and dangling edges, size-1 dimensions, scalars and copy nodes) on any dense backend, every sequence of the public structural operations - connect, disconnect, contract an edge, contract parallel edges, contract_between / @ / outer_product with any requested output edge order, axis names or allow_outer_product, contract_copy_node, flatten, split_edge, slice_edge, reorder_edges, reorder_axes, remove_node - yields nodes whose remaining network evaluates to the tensor obtained by summing the original tensors directly over their joined indices. "
  "The axes of every intermediate and final tensor correspond one-to-one to the surviving edges, in the order the call documents or requests. "
  "Flattening merges, and splitting separates, axes in row-major order of the edges named.",
  ["inputs", "histories"], "all networks, shapes, dtypes and all finite sequences of operations on them",
  "The tests contract a few fixed small networks with one operation at a time; the tensor/network test modules do not even import without torch here. They never compare whole operation histories with an independent sum over indices.",
  [NC, NO], [("contract / contract_between / contract_parallel / _contract_trace", NC), ("flatten_edges / split_edge / slice_edge", NC), ("Node.reorder_edges / reorder_axes", NC)],
  state=[("node.edges", "axis -> edge table of a live node", NC)], observe=["node.tensor", "node.edges", "edge.axis1/axis2"])
prop("C02", "Edge and node bookkeeping stays consistent through any history",
  "After any sequence of public operations, every edge held by a live node records exactly that node and axis (both ends for a connected edge, two axes for a trace edge, one for a dangling edge), connected axes have equal dimension, every edge object occurs at exactly the axes it records, and lookups by axis name, edge name, shape, rank, dangling/non-dangling queries and shared/parallel edge queries agree with that structure. "
  "Consumed edges refuse further use instead of exposing stale data, and consumed nodes are left detached, with fresh dangling edges of their own. "
  "An operation given invalid arguments (dimension mismatch, already connected or foreign edges, bad axis, wrong ordering, duplicated names, shapes that do not multiply out) raises and leaves the network and its tensors exactly as before.",
  ["histories", "inputs"], "all finite histories of valid and invalid operations over all networks",
  "Tests check individual getters after single calls; invariants after long mixed histories, and atomicity of rejected calls, are never examined.",
  [NC, NO], [("Node.add_edge / Edge.update_axis / _remove_edges / _disable", NC), ("connect / disconnect / fresh_edges", NC)],
  state=[("edge.node1,node2,axis1,axis2", "endpoints", NC), ("edge.is_disabled / node.fresh_edges", "consumed flag", NC)], observe=["node.edges", "edge.get_nodes()", "node.get_all_dangling()"])
prop("C03", "Every contractor computes the network's exact value in the requested order",
  "For every network (including disconnected, single-node, trace, parallel, scalar and copy-node networks) each contractor - optimal, branch, greedy, auto, custom, path_solver + contract_path for every algorithm, and bucket - returns one node whose tensor equals the direct sum over the network's joined indices. "
  "Its edges are the network's original dangling edges in exactly the requested output order (any order permitted when edge order is ignored), and a missing, extra or non-dangling output edge is rejected. "
  "A path reported by path_solver, or supplied by the user, is a valid schedule and executing it gives the same value as any other path.",
  ["inputs", "configurations"], "all networks x all contractors x all memory limits, branch widths, output orders and user supplied paths",
  "Contractor tests run a handful of fixed networks with all-ones tensors, where transposed or wrongly paired axes are invisible.",
  ["contractors/opt_einsum_paths/path_contractors.py", "contractors/opt_einsum_paths/utils.py", "contractors/bucket_contractor.py", NC],
  [("base / contract_path / path_solver", "contractors/opt_einsum_paths/path_contractors.py"), ("get_path / multi_remove", "contractors/opt_einsum_paths/utils.py"), ("bucket", "contractors/bucket_contractor.py")])
prop("C04", "ncon evaluates exactly the Einstein sum its labels describe",
  "For every accepted specification, ncon returns the sum over all closed labels of the product of the tensors (a closed label on one axis is summed alone, on several axes it is one shared index; an open label used several times is one shared output index), with output axes by default -1, -2, ... followed by string labels in ASCII order, or in out_order when given. "
  "The value never depends on con_order, on the labels' spelling (integers or strings, gaps), on the backend, on list or tuple inputs, on previous calls, or on Tensor versus raw-array inputs, and the caller's lists and tensors are unchanged. "
  "A specification with wrong label counts, mismatched dimensions, zero or malformed labels, or an inconsistent con_order or out_order is rejected.",
  ["inputs", "programs", "configurations"], "all label structures, shapes, dtypes, orders and backends",
  "ncon tests cover a few fixed contractions (and do not import here without torch); jit caching keyed on structure makes results depend on call history.",
  ["ncon_interface.py"], [("_jittable_ncon / _partial_trace / _batch_cont", "ncon_interface.py"), ("_canonicalize_network_structure / _check_network", "ncon_interface.py"), ("_CACHED_JITTED_NCONS", "ncon_interface.py")])
prop("C05", "Splits and factorisations reconstruct, are isometric and truncate optimally",
  "On numpy, TensorFlow and JAX, svd, qr and rq of any tensor at any pivot, and split_node, split_node_full_svd, split_node_qr and split_node_rq of any node at any edge partition, produce factors whose contraction equals the input (or, if truncated, its best approximation given the kept singular values), with isometric/unitary factors, non-negative descending singular values, and the remaining and new edges and names where documented. "
  "Truncation keeps exactly the largest singular values permitted by max_singular_values and by max_truncation_err (the 2-norm of the discarded values never exceeds the bound, measured relative to the largest singular value when relative is set, and no more are discarded than needed), and returns the discarded values. "
  "non_negative_diagonal gives a real non-negative diagonal without changing the product.",
  ["inputs", "configurations"], "all tensors (real/complex, rank deficient, wide/tall, size-1 axes), pivots, edge partitions and truncation options",
  "Tests use a few matrices per option and check shapes more often than reconstruction, isometry and optimality together.",
  ["backends/numpy/decompositions.py", "backends/tensorflow/decompositions.py", NO], [("svd/qr/rq", "backends/numpy/decompositions.py"), ("svd/qr/rq", "backends/tensorflow/decompositions.py"), ("split_node*", NO)])
prop("C06", "All dense backends agree with the mathematical definition of each operation",
  "For every primitive of the backend interface (tensordot, reshape, transpose, slice, outer product, einsum, norm, eye/ones/zeros, sum, matmul, diagonal, diagflat, trace, pivot, broadcast multiplication, arithmetic, elementary functions, sign, conj, inv, expm, eigh, index_update, power, shapes, item, eps, tensor (de)serialisation), the numpy, TensorFlow and JAX backends return the mathematically defined result, with the same values, shape and dtype for the same input. "
  "Arguments an operation documents as invalid (mismatched lengths or dimensions, wrong order for inv, expm, matmul or broadcast multiplication, equal trace axes, item of several elements, unsupported dtypes) are rejected with an exception, never silently mis-evaluated.",
  ["inputs", "configurations"], "all tensors, dtypes, axes, offsets and options, across the three installed dense backends",
  "Each backend's tests fix one or two shapes and mostly default options; backends are never compared with each other.",
  ["backends/numpy/numpy_backend.py", "backends/tensorflow/tensorflow_backend.py", "backends/tensorflow/tensordot2.py", "backends/jax/jax_backend.py", "backends/abstract_backend.py"],
  [("NumPyBackend", "backends/numpy/numpy_backend.py"), ("TensorFlowBackend", "backends/tensorflow/tensorflow_backend.py"), ("JaxBackend", "backends/jax/jax_backend.py")])
prop("C07", "The Tensor class and the linalg functions mirror dense array algebra",
  "For every Tensor and every function of the tensornetwork top level and linalg namespaces (tensordot, reshape, transpose, take_slice, sqrt, outer, einsum, conj, hconj, sin, cos, exp, log, diagonal, diagflat, trace, sign, abs, kron, pivot, initialisers, svd/qr/rq/eigh/norm/inv/expm, node_linalg) and for Tensor's methods and operators (arithmetic with tensors and scalars, @, T, H, conj, reshape, squeeze, ravel, fromarray/astype-like accessors), the wrapped array equals the corresponding NumPy expression, keeps backend and dtype promotion, and leaves the operands unchanged. "
  "Combining tensors of different backends is rejected.",
  ["inputs", "configurations"], "all tensors, shapes, dtypes, axes, backends",
  "The linalg and tensor test modules are not importable without torch, so nothing settles these wrappers here.",
  ["tensor.py", "linalg/linalg.py", "linalg/operations.py", "linalg/initialization.py", "linalg/node_linalg.py"],
  [("Tensor operators", "tensor.py"), ("operations", "linalg/operations.py"), ("decompositions", "linalg/linalg.py")])
prop("C08", "Saving and loading reproduces the network exactly",
  "Saving any set of dense nodes to HDF5 and loading it, or round-tripping ordinary nodes on a backend with tensor serialisation (numpy) through JSON, yields a network with the same nodes (types, names, axis names, tensors with identical dtype and bits, backend), the same edges (names, endpoints, axes, trace/parallel/dangling status) and the same edge bindings, in the same order; JSON turns edges to nodes outside the saved set into dangling edges and drops bindings of edges outside it. "
  "Saving, also when it fails, leaves the network, including all names, unchanged. "
  "Malformed input (for HDF5 a node listed twice or connected to nodes that are not saved; bindings that are not edges; an unknown backend or node type) is rejected.",
  ["inputs", "histories"], "all networks and subsets of nodes, names, dtypes, backends",
  "Tests save one or two three-node networks with default names.",
  ["utils.py", NO, NC], [("save_nodes / load_nodes", "utils.py"), ("nodes_to_json / nodes_from_json", NO), ("Node/Edge/CopyNode to_serial_dict and _load/_save", NC)])
prop("C09", "Copies are faithful and independent; graph queries report the true graph",
  "copy, replicate_nodes, node.copy, conj, transpose and norm produce new nodes with the same (or conjugated) tensors, names and connectivity - with node and edge maps that point to the corresponding copies, edges to uncopied nodes becoming dangling - and no later operation on either network affects the other. "
  "reachable, check_connected, check_correct, get_all_nodes, get_all_edges, get_subgraph_dangling, get_neighbors, from_topology, remove_node and reduced_density report or build exactly what the graph's definition says.",
  ["inputs", "histories"], "all networks, all subsets of nodes, all subsequent mutation histories",
  "Tests copy one small network and do not mutate it afterwards; queries are tested on chains.",
  [NO, "utils.py", "linalg/node_linalg.py"], [("copy / replicate_nodes", NO), ("reachable / get_subgraph_dangling / reduced_density", NO)])
prop("C10", "Block-sparse tensors behave like their dense images",
  "For every BlockSparseTensor or ChargeArray over any charge types, flows and fused (reshaped) or permuted index layouts, converting to dense commutes with every operation: tensordot over any axes, outer product, @, reshape to fused or split elementary shapes, transpose (lazy or shuffled), contiguous, conj, H, arithmetic with tensors and scalars, trace, diag, sqrt/abs/sign, norm, copy, item, eye/ones/zeros/*_like, and todense(fromdense(x)) equals x restricted to the charge-conserving entries. "
  "Every result is charge-conserving, its shape, flows and charges agree with its dense image, and operands keep their dense value. "
  "Contractions whose charges or flows do not match are rejected.",
  ["inputs", "histories"], "all index charges (including empty, size-1, non-overlapping sectors), flows, ranks, layouts and chains of operations",
  "Tests sample a few fixed rank-4 tensors with one charge type and one layout each.",
  ["block_sparse/blocksparsetensor.py", "block_sparse/blocksparse_utils.py", "block_sparse/linalg.py", "block_sparse/initialization.py"],
  [("tensordot / outerproduct / contiguous / reshape", "block_sparse/blocksparsetensor.py"), ("_find_transposed_diagonal_sparse_blocks / reduce_charges", "block_sparse/blocksparse_utils.py")],
  state=[("data/_charges/_flows/_order", "flat non-zero data and its layout", "block_sparse/blocksparsetensor.py")])
prop("C11", "Charges and indices obey the symmetry group's algebra",
  "Fusion of U1, Z2, ZN and product charges equals element-wise addition in the group (mod N for ZN), flow reversal is the group inverse, identity charges are neutral, and fusing, unique/inverse/count decompositions, reduce to target charges, intersect, indexing, equality, copying, dual and index fuse/split/flip operations equal the same computation on explicit charge arrays. "
  "Charge objects report dimension, number of symmetries, charges per symmetry and validity consistently, reject values outside the group, and are never modified by operations on them.",
  ["inputs"], "all charge arrays, symmetry products and flows",
  "Tests check single fixed arrays for each method.",
  ["block_sparse/charge.py", "block_sparse/index.py", "block_sparse/utils.py"], [("BaseCharge", "block_sparse/charge.py"), ("Index / fuse_index", "block_sparse/index.py"), ("unique / intersect / fuse_*", "block_sparse/utils.py")])
prop("C12", "Block-sparse factorisations equal dense linear algebra sector by sector",
  "svd, qr, eigh, eig, inv and pinv of any rank-2 (possibly fused) block-sparse tensor, and the symmetric backend's svd/qr/rq at any pivot, give factors whose charge-consistent contraction reproduces the tensor, with isometric/unitary factors, and with the same non-zero spectrum as the dense image. "
  "Truncation by max_singular_values and max_truncation_error (absolute or relative) keeps the globally largest singular values across all sectors and returns the discarded ones, so that kept plus discarded values form the full spectrum and the reconstruction error equals the norm of the discarded values. "
  "All results are charge-conserving and their bond charges are consistent between factors.",
  ["inputs", "configurations"], "all charge types, sector structures (empty, rectangular, size-1), pivots and truncation options",
  "Tests check fixed sector structures and rarely compare the truncated spectrum with the dense one.",
  ["block_sparse/linalg.py", "backends/symmetric/decompositions.py"], [("svd/qr/eigh/eig/inv/pinv", "block_sparse/linalg.py"), ("svd/qr/rq", "backends/symmetric/decompositions.py")])
prop("C13", "Symmetric networks evaluate to their dense images through the whole node layer",
  "Any network of block-sparse nodes put through node contraction, contract_between, flattening and splitting, splitting nodes, copying, contractors and ncon on the symmetric backend gives a charge-conserving tensor whose dense image equals the same program run on the dense images with the numpy backend. "
  "Connections between indices with incompatible charges or flows never silently produce a value.",
  ["inputs", "programs"], "all networks of symmetric tensors and all node-layer programs on them",
  "Symmetric network tests cover a few fixed contractions and mostly need torch to import.",
  ["backends/symmetric/symmetric_backend.py", NC, "ncon_interface.py"], [("SymmetricBackend", "backends/symmetric/symmetric_backend.py")])
prop("C14", "Moving or canonicalising a finite MPS never changes its state",
  "For every finite MPS, constructing with canonicalisation, canonicalize and any sequence of position calls without truncation leave the represented state vector unchanged up to the returned/removed normalisation, and establish the canonical form: every tensor left of the centre is left-isometric, every tensor right of it right-isometric, which the canonicality checks report truthfully. "
  "position returns the norm it measured, normalises exactly when asked, truncates bonds to at most the requested dimension or relative error with the error that implies, and bond/physical dimensions, length, dtype and centre are reported consistently.",
  ["inputs", "histories"], "all MPS lengths, bond and physical dimensions, dtypes, backends and position histories",
  "Tests use one uniform random MPS and check orthonormality but not that the state vector survives arbitrary histories.",
  ["matrixproductstates/base_mps.py", "matrixproductstates/finite_mps.py"], [("position / canonicalize / check_canonical", "matrixproductstates/base_mps.py")],
  state=[("center_position", "site carrying the norm", "matrixproductstates/base_mps.py")])
prop("C15", "MPS measurements equal expectation values of the state vector",
  "For every finite MPS in canonical form at any centre, measure_local_operator, measure_two_body_correlator (any site, any order and set of partner sites, including equal sites), left_envs, right_envs and the transfer operators equal the values computed from the full state vector and leave the MPS unchanged. "
  "Results are returned in the documented order for the requested sites.",
  ["inputs"], "all MPS, centres, operators (including non-Hermitian and complex), site lists",
  "Tests measure one operator on product-like or all-ones states where conjugation and ordering mistakes cancel.",
  ["matrixproductstates/base_mps.py", "matrixproductstates/finite_mps.py"], [("measure_local_operator / measure_two_body_correlator", "matrixproductstates/base_mps.py"), ("left_envs / right_envs", "matrixproductstates/finite_mps.py")])
prop("C16", "Gates act on an MPS as on its state vector, with the reported truncation",
  "Applying any one-site or nearest-neighbour two-site gate (unitary or not) to a finite MPS transforms its state vector by exactly that gate; with truncation the bond dimension respects max_singular_values and max_truncation_err and the returned discarded singular values account exactly for the change. "
  "The centre position afterwards is the documented one and the canonical form claimed is true for unitary gates.  Invalid gates, sites or centres are rejected without touching the MPS.",
  ["inputs", "histories"], "all gates, sites, centres, truncation options and circuits of gates",
  "Tests apply one gate to one state and check norms or canonical form but not the state vector after a circuit.",
  ["matrixproductstates/base_mps.py"], [("apply_two_site_gate / apply_one_site_gate", "matrixproductstates/base_mps.py")])
prop("C17", "Canonicalising an infinite MPS preserves the uniform state",
  "For every infinite MPS unit cell, transfer_matrix_eigs returns the dominant eigenpair of the unit-cell transfer operator, and canonicalize yields tensors in the documented canonical form (left-isometric, dominant eigenvalue one, connector matrix inverting the Schmidt values) that describe the same state: normalised local reduced density matrices of any block of sites are unchanged. "
  "With a bond-dimension limit the limit is respected.",
  ["inputs"], "all unit cells, bond and physical dimensions, dtypes",
  "Tests check orthonormality of one random unit cell, not that the physical state survives.",
  ["matrixproductstates/infinite_mps.py", "matrixproductstates/base_mps.py"], [("canonicalize / transfer_matrix_eigs", "matrixproductstates/infinite_mps.py")])
prop("C18", "Model MPOs are exactly the Hamiltonians they document",
  "FiniteXXZ, FiniteTFI and FiniteFreeFermion2D, contracted to a dense matrix, equal the documented Hamiltonian for all couplings, fields, system sizes and dtypes, and are Hermitian for real couplings; bond dimensions and dtype are as reported. "
  "FiniteMPO and InfiniteMPO accept exactly tensor lists with consistent dtype and boundary dimensions, and rolling an infinite MPO is a cyclic relabelling.",
  ["inputs", "configurations"], "all site-dependent couplings, lattice sizes and dtypes",
  "Tests only exercise MPOs through DMRG energies of uniform chains (the MPO test module needs torch).",
  ["matrixproductstates/mpo.py"], [("FiniteXXZ / FiniteTFI / FiniteFreeFermion2D", "matrixproductstates/mpo.py")])
prop("C19", "DMRG is variational, monotone and truthful about its energy",
  "For every MPO Hamiltonian and initial MPS, one- and two-site DMRG return an energy that equals the expectation value of the Hamiltonian in the returned normalised canonical MPS (up to the truncation requested and solver tolerance), is never below the exact ground energy, does not increase as more sweeps are made, and reaches the ground energy when the bond dimension suffices. "
  "Environments cached during sweeps equal those recomputed from scratch for any position history, and the MPO is unchanged.",
  ["inputs", "histories"], "all Hamiltonians, system sizes, bond dimensions, sweep counts, position histories, dense and symmetric backends",
  "Tests compare the final energy for one XXZ/free-fermion chain.",
  ["matrixproductstates/dmrg.py"], [("run_one_site / run_two_site / position / compute_*_envs", "matrixproductstates/dmrg.py")],
  state=[("left_envs/right_envs", "cached environments by site", "matrixproductstates/dmrg.py")])
prop("C20", "Krylov solvers return true eigenpairs and true solutions",
  "On every backend where they run, eigsh_lanczos, eigs and gmres return values whose residuals are within tolerance: eigenpairs satisfy A v = lambda v with normalised vectors and are the requested extremal ones once the Krylov space is large enough, eigenvectors keep the shape and dtype of the operator's domain (Lanczos without reorthogonalization: as far as its vectors stay orthogonal in floating point), and a gmres result reported as converged satisfies the requested tolerance. "
  "Initial vectors, right-hand sides and arrays returned by the operator are not modified, results do not depend on calls made before, and invalid options are rejected.",
  ["inputs", "histories"], "all operators (Hermitian / general / with conserved charges), shapes, start vectors, options and call histories",
  "Tests use one diagonal-dominant matrix per solver.",
  ["backends/numpy/numpy_backend.py", "backends/symmetric/symmetric_backend.py", "backends/abstract_backend.py", "linalg/krylov.py"],
  [("eigs / eigsh_lanczos / _gmres", "backends/numpy/numpy_backend.py"), ("eigs / eigsh_lanczos / gmres", "backends/symmetric/symmetric_backend.py"), ("krylov wrappers", "linalg/krylov.py")])
prop("C21", "Quantum operators compose like the matrices they represent",
  "For QuOperator, QuVector, QuAdjointVector and QuScalar objects built from any network and identities, every composition of @, tensor_product, scalar multiplication, adjoint, trace, partial_trace, norm, projector, reduced_density, contract and eval equals the same expression on dense matrices, with spaces, classification (scalar/vector/adjoint/operator) and axis order as documented. "
  "Operands are not changed by composition, and mismatching Hilbert spaces or inconsistent edges are rejected.",
  ["inputs", "programs"], "all expressions over all operators, subsystem sets, ignored edges and contractors",
  "Tests evaluate a dozen fixed small expressions.",
  ["quantum/quantum.py"], [("QuOperator algebra / eliminate_identities", "quantum/quantum.py")])
prop("C22", "Keras tensor-network layers compute the dense map they factorise",
  "DenseDecomp, DenseMPO, DenseCondenser, DenseExpander, DenseEntangler and Conv2DMPO output, for every admissible configuration, batch shape and weight values, activation(x W + b) (or the 2-D convolution) with W the tensor contracted from the layer's weights, with the output shape announced by compute_output_shape. "
  "get_config / from_config and weight transfer reproduce the layer, bias and activation are applied exactly once, gradients are those of the dense map, and every input size that is an exact power (or multiple) as the layer requires builds and runs while others are rejected. Inner (non-batch) dimensions are known.",
  ["inputs", "configurations"], "all admissible layer configurations, input ranks, weights",
  "Tests train a layer on one configuration and check shapes and config keys, not values.",
  ["tn_keras/dense.py", "tn_keras/mpo.py", "tn_keras/condenser.py", "tn_keras/expander.py", "tn_keras/entangler.py", "tn_keras/conv2d_mpo.py"], [("call/build/get_config", "tn_keras/*.py")])
prop("C23", "Ambient settings are scoped and restored, also after failures",
  "Inside nested DefaultBackend and NodeCollection contexts the innermost setting applies to every node, tensor and operation created without an explicit one, and leaving any context - normally or by exception - restores exactly the previous setting. "
  "NodeCollection containers receive exactly the nodes created inside them, in the order and nesting documented; set_default_backend is refused inside a context and unknown backends are rejected with the setting unchanged. "
  "Backend objects are shared singletons per name, and functions decorated with jit use the backend that was the default when they were decorated, or the one passed at call time when backend_argnum names an argument.",
  ["histories"], "all nestings, exception points and interleavings of context entry, exit and creation",
  "Tests exercise one level of nesting without exceptions.",
  ["backend_contextmanager.py", "ops.py", "backends/backend_factory.py", "backends/decorators.py"], [("_DefaultBackendStack", "backend_contextmanager.py"), ("_DefaultNodeCollectionStack", "ops.py"), ("get_backend", "backends/backend_factory.py")])
prop("C24", "Computations never modify the caller's arrays or lists",
  "No public computation - building nodes, contractions, contractors, ncon, splits, backend primitives, Krylov solvers, MPS construction, measurement and gates, MPO/DMRG set-up, block-sparse algebra, path solvers, quantum operators - changes the contents, shape or dtype (for block-sparse tensors: the tensor represented, not its internal storage order) of arrays, tensors, lists or index/charge objects passed to it, nor those of nodes that the operation does not document as consumed. "
  "Results are values: reading or repeating a computation gives the same answer, and in particular works on read-only, non-contiguous and shared (aliased) inputs.",
  ["inputs", "histories"], "all computations, on aliased, read-only, strided inputs",
  "Tests hardly ever look at inputs after the call.",
  ["network_components.py", "matrixproductstates/base_mps.py", "backends/numpy/numpy_backend.py", "block_sparse/blocksparsetensor.py", "ncon_interface.py"],
  [("convert_to_tensor / in-place updates", "backends/numpy/numpy_backend.py"), ("position in-place division", "matrixproductstates/base_mps.py")])
prop("C25", "Initialisers honour shape, dtype, range and seed on every backend",
  "ones, zeros, eye, randn and random_uniform on every backend, tensor- and node-level initialisers, the block-sparse initialisers and MPS.random return tensors of exactly the requested shape (or charges), dtype (including complex) and value set or range - both real and imaginary parts of random complex tensors being drawn - and entry statistics consistent with the named distribution. "
  "With a seed the result is a function of the seed alone, different seeds give different results, and without a seed successive draws differ.",
  ["inputs", "histories"], "all shapes, dtypes, boundaries, seeds and call histories",
  "Tests check one shape and one seed.",
  ["backends/numpy/numpy_backend.py", "backends/tensorflow/tensorflow_backend.py", "backends/jax/jax_backend.py", "linalg/initialization.py", "block_sparse/initialization.py"], [("randn / random_uniform", "backends/numpy/numpy_backend.py")])
prop("C26", "Contraction-order solvers return valid orders with true, optimal cost",
  "For every network given as tensors and labels or as an adjacency matrix, the custom path solvers return an order that contracts the whole network exactly once, the reported cost equals the cost of executing that order (log10 of summed multiplication counts), the full solver's cost is the minimum over all pairwise contraction orders (outer products being taken only once no two tensors share an index of dimension larger than one) whenever it claims optimality, and it is never worse than the greedy orders. "
  "The order converted to ncon labels contains every contracted label exactly once and contracting with it gives the same tensor.",
  ["inputs", "configurations"], "all networks and branching limits",
  "Tests check hand-made grids whose optimum is known.",
  ["contractors/custom_path_solvers/pathsolvers.py", "contractors/custom_path_solvers/nconinterface.py"], [("full_solve_complete / greedy_*_solve", "contractors/custom_path_solvers/pathsolvers.py"), ("ord_to_ncon / ncon_cost_check", "contractors/custom_path_solvers/nconinterface.py")])
prop("C27", "Tracing and differentiation see the same network as eager execution",
  "Contracting or splitting a network, or evaluating gates and environments of a matrix product state, inside jax.jit, jax.vmap, tf.function (including unknown batch dimensions) or the library's jit decorator gives the same tensor as eager execution, for any mixture of traced inputs and repeated calls with different shapes or static options. "
  "Gradients of scalar contractions with respect to every tensor, by JAX and TensorFlow autodiff, equal the tensor-network derivative (the network with that tensor removed).",
  ["inputs", "programs", "histories"], "all network programs and call sequences under tracing",
  "Only a few tests run in graph mode and none compares gradients with the analytic environment.",
  ["backends/decorators.py", "ncon_interface.py", "network_components.py", "backends/tensorflow/tensordot2.py"], [("jit", "backends/decorators.py"), ("_CACHED_JITTED_NCONS", "ncon_interface.py"), ("dynamic-shape paths", "backends/tensorflow/tensordot2.py")])
prop("C28", "Block caching never changes a result",
  "With the block-sparse cache enabled, any sequence of operations over tensors of any mixture of symmetry types, flows and layouts returns exactly the results obtained with caching disabled. "
  "Solvers and contexts that switch caching restore the previous status and leave no entries behind when they found the cache empty, keep the entries they found otherwise, also when the operator raises.",
  ["histories", "inputs"], "all histories of operations, enabling, disabling and clearing",
  "Tests only check that the cache becomes non-empty and is cleared.",
  ["block_sparse/caching.py", "block_sparse/blocksparse_utils.py", "backends/symmetric/symmetric_backend.py"], [("cache key _to_string", "block_sparse/blocksparse_utils.py"), ("caching switch in solvers", "backends/symmetric/symmetric_backend.py")],
  state=[("cacher.cache", "memo from layout key to block maps", "block_sparse/caching.py")])
prop("C29", "A drawn network is isomorphic to the network",
  "For every complete network (all nodes reachable from those given) the graph produced by to_graphviz has exactly one visible vertex per node and one line per edge of the network, joining the vertices of the edge's nodes (a loop for a trace edge, parallel lines for parallel edges), with one invisible endpoint per dangling edge. "
  "Labels are exactly the user-given names, plus generated ones (those starting with two underscores) only when all names are requested, and the network is unchanged.",
  ["inputs"], "all networks",
  "One test compares the source text of a two-node network.",
  ["visualization/graphviz.py"], [("to_graphviz", "visualization/graphviz.py")])
prop("C30", "The shipped worked examples compute what they claim",
  "The example programs in the repository (Fourier transform network, SAT counting networks, binary MERA energy, wavefunction evolution, optimal contraction path, symmetric DMRG Hamiltonian) built with the library equal their dense definition, for every size and input they accept: the discrete Fourier transform, the number of satisfying assignments, the MERA energy expectation, the product of Trotter gates on the state vector (exact time evolution when the terms commute), the contraction by the reported path, and the documented spin Hamiltonian.",
  ["inputs"], "all sizes, formulas, states and Hamiltonians accepted by the examples",
  "Example tests fix one formula, one size, one state.",
  ["../examples/fft/fft.py", "../examples/sat/sat_tensornetwork.py", "../examples/simple_mera/simple_mera.py", "../examples/wavefunctions/wavefunctions.py"], [("add_fft", "../examples/fft/fft.py"), ("sat_tn / sat_count_tn", "../examples/sat/sat_tensornetwork.py")])

prop("C31", "Structured tensors and networks are evaluated without being expanded",
  "A block-sparse tensor holds exactly its charge-conserving entries, and no operation on it (construction, transposition, fusion and reshaping, contiguous, conjugation, arithmetic, norm, trace, tensordot, ncon and node contractions, matrix factorisations) ever allocates its dense form or the fused charges of all its entries. "
  "A copy node of high rank is inspected and contracted with its partners (contract_copy_node, bucket elimination) without its dense tensor being built, and identity operators, operator networks, matrix product states and long networks are evaluated with memory bounded by the requested or reported contraction order, not by the size of the full state space; "
  "the values are the same as for small inputs.",
  ["inputs", "configurations"], "all structured tensors and networks whose expanded form is much larger than the structured one",
  "Unit tests use tensors of a few entries, where expanding everything gives the same numbers at no visible cost.",
  ["block_sparse/blocksparsetensor.py", "block_sparse/blocksparse_utils.py", NC, "contractors/bucket_contractor.py", "contractors/opt_einsum_paths/path_contractors.py", "ncon_interface.py", "quantum/quantum.py"],
  [("_find_transposed_diagonal_sparse_blocks / reduce_charges", "block_sparse/blocksparse_utils.py"), ("tensordot / contiguous", "block_sparse/blocksparsetensor.py"), ("CopyNode.compute_contracted_tensor / lazy tensor", NC), ("bucket", "contractors/bucket_contractor.py")],
  observe=["peak of traced allocations during each call"])

prop("C32", "Computations in concurrent threads give their serial results",
  "Threads that work on their own networks, tensors, states and solvers (sharing at most dense arrays they only read), in one process and without changing global settings (default backend, node collections, block caching) during the run, each obtain exactly the results the same calls give when nothing else runs, for every interleaving. "
  "The library's internal shared state - backend instances, jit and matvec caches, the block-sparse cache that solvers switch on and clear, module-level tables and buffers - never leaks values from one thread into another and never makes a call fail.",
  ["schedules", "inputs", "histories"], "all interleavings of public computations in any number of threads",
  "No test starts a thread; races on module-level state are invisible to any single-threaded test.",
  ["block_sparse/caching.py", "block_sparse/blocksparse_utils.py", "backends/backend_factory.py", "backends/jax/jax_backend.py", "ncon_interface.py", "backends/symmetric/symmetric_backend.py"],
  [("block cache lookups", "block_sparse/blocksparse_utils.py"), ("_CACHED_JITTED_NCONS", "ncon_interface.py"), ("_CACHED_MATVECS / _CACHED_FUNCTIONS", "backends/jax/jax_backend.py"), ("caching switch in solvers", "backends/symmetric/symmetric_backend.py")],
  state=[("cacher.cache / do_caching", "process-wide block cache", "block_sparse/caching.py")], observe=["results of every call, exceptions, thread progress"])

for p in P:
  p["anchors"]["files"] = [f.replace("tensornetwork/../", "") for f in p["anchors"]["files"]]
  for m in p["anchors"]["mechanism"]: m["where"] = m["where"].replace("tensornetwork/../", "")
  assert len(p["title"]) <= 80, p["title"]
if __name__ == "__main__":
  out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
  with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
  print(len(P))
