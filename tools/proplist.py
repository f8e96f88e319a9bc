NOT_APPLICABLE = []

prop('P01', 'Simplification strategies preserve the linear map of a diagram',
     """Every simplification strategy and diagram normal-form conversion, applied to a ZX-diagram it accepts, leaves a well-formed diagram
     that denotes exactly the same linear map (including the global scalar, and the order of inputs and outputs), also when it is run
     step by step through its iterator, restricted to a subset of the diagram by a match filter, or run in sequence with others.
     Conversions to a normal form leave a diagram in that form, and every strategy terminates.""",
     ['inputs', 'programs'],
     """all ZX-diagrams of the simple backend (any spiders, phases, edge types, bare wires, scalars, phase gadgets, circuits); all strategies: spider, id, pivot,
     lcomp, gadget, pivot-gadget/boundary and copy (graph-like inputs), supplementarity, bialgebra, phase-free, interior clifford, clifford,
     full reduce, reduce_scalar, to_gh, to_rg, to_graph_like, normal forms, and iterators""",
     """Tests run a handful of strategies on a few random Clifford+T circuits with fixed shapes and mostly compare up to a scalar; soundness is a claim over all diagrams,
     with irregular boundaries, isolated spiders, odd phases, and all orders of matches.""",
     ['pyzx/simplify.py', 'pyzx/rules.py', 'pyzx/graph/scalar.py'],
     [('rewrite to a fixed point of parallel non-overlapping matches', 'pyzx/simplify.py:simp'), ('scalar bookkeeping of each rule', 'pyzx/rules.py'),
      ('normal forms', 'pyzx/simplify.py:to_graph_like, to_clifford_normal_form_graph')],
     ['pyzx.simplify.* called on a diagram; the diagram read back through public accessors'],
     'runtime monitoring: reference-model (independent tensor semantics) comparison around each strategy and iterator step',
     """Random diagrams from 12 workload families (arbitrary, graph-like, gadget-heavy, Clifford, circuits, closed scalars, filtered, sequences, iterators...) are
     evaluated by the reference semantics before and after each strategy; matrices must agree exactly (1e-7 relative). Structural invariants are checked after every
     iterator step; results of to_gh/to_rg/to_graph_like/normal forms are checked against their definition; steps are bounded.""",
     """Exploration: tens of thousands of diagrams up to ~14 spiders (quick), far more in the thorough tier. Trusts the reference evaluator (vt/ref.py) and floating point at 1e-7.""")

prop('P02', 'Every rewrite rule is sound on every set of matches its matcher returns',
     """For each rule of the rewrite-rule library, applying the rule to the matches found by its matcher (one, all, or a subset of the simultaneous matches) leaves a
     well-formed diagram denoting exactly the same linear map including the scalar, and searching for matches alone does not change that map.
     Matchers respect their vertex/edge filter and their bound on the number of matches, and un-fusing a spider yields the requested neighbours and phase.
     (The four-qubit phase-polynomial rule only promises the map up to a scalar.)""",
     ['inputs', 'programs'],
     """all diagrams of the simple backend meeting the documented precondition of the rule (Z/X spiders, Z-boxes, W nodes, H-edges, gadgets) x all subsets of the matches found""",
     """Tests apply each rule to one or two fixed diagrams; simultaneous application of interacting matches, odd phases and edge types are not sampled.""",
     ['pyzx/rules.py'], [('match sets are made non-interacting by removing neighbourhoods from the candidates', 'pyzx/rules.py:match_*'),
                         ('rules return edge table, vertices and edges to remove; parallel edges resolved by add_edge_table', 'pyzx/rules.py:apply_rule')],
     ['matcher then apply_rule / rule on a diagram'],
     'runtime monitoring: reference-model comparison around each match+apply, filter and bound monitors',
     """12 workload families, each biased to where a given rule fires (sparse graph-like chains, gadget clusters, supplementarity pairs, bipartite phase-free pieces, W trees, Z-boxes ...).
     The monitor compares the reference map before/after, checks returned matches against the filter and bound, and counts per-rule applications: a rule never applied makes the run inconclusive.""",
     """Exploration. Z-box labels are rounded by pyzx to 8 digits, so maps with Z-boxes are compared at 1e-6 absolute. A ValueError for an unreducible parallel edge on the simple backend is an accepted refusal.""")

prop('P03', 'Interactive rewrite rules are sound and agree with their applicability checks',
     """Every interactive rule (colour change, copying through X or Z, pi-commutation, identity removal, strong complementarity, spider fusion, W fusion) applied at a vertex or
     edge of a diagram returns true exactly when its check says it applies, leaves a diagram denoting the same linear map (including the scalar) when it applies, and leaves the
     diagram untouched when it refuses. It does apply in the situations it documents, with the documented effect. Colour-changing a whole diagram yields the
     same diagram conjugated by Hadamards on every input and output.""",
     ['inputs'], """all diagrams of both backends, with Z and X spiders, Z-boxes, H-boxes and W nodes, x rule x vertex or pair of vertices""",
     """Tests apply each rule once or twice in a hand-made neighbourhood; degenerate neighbourhoods (self-loops, parallel edges, boundaries, phases, Hadamard edges) are what breaks rules.""",
     ['pyzx/basicrules.py'], [('check/apply pairs', 'pyzx/basicrules.py:check_*, *'), ('scalar updates', 'pyzx/basicrules.py')], ['pyzx.basicrules.check_X then X'],
     'runtime monitoring: reference-model comparison around each rule call, check/apply agreement monitor, applicability and post-shape oracles',
     """Seven workload families; every call is bracketed by the reference evaluation and a deep snapshot; an independent applicability predicate is compared with the check.""",
     """Exploration: ~110k rule calls in the quick tier, diagrams up to ~9 vertices. A refusal with ValueError for an unreducible parallel edge on simple graphs is accepted.""")

prop('P04', 'Every operation of the diagram editor is sound on any selection',
     """For each operation in the diagram editor's table, and any selection of vertices and edges in any diagram, looking for matches leaves the diagram unchanged and finds only matches
     touching the selection, and applying the operation to the matches found leaves a well-formed diagram denoting the same linear map, including the scalar.""",
     ['inputs'], """all diagrams with Z/X spiders, H-boxes, Z-boxes, W nodes x 16 editor operations x selections""",
     """The editor is not covered by tests beyond a smoke test; a user clicks on arbitrary selections, so many matches are applied at once.""",
     ['pyzx/editor_actions.py', 'pyzx/rules.py', 'pyzx/hrules.py', 'pyzx/basicrules.py'], [('operation table', 'pyzx/editor_actions.py:operations')], ['pyzx.editor_actions.operations'],
     'runtime monitoring: reference-model comparison around each operation, selection and non-mutation monitors',
     """Ten workload families biased to where an operation fires; a counter per operation must be non-zero. Application follows the editor's own sequence.""",
     """Exploration: ~118k operations in the quick tier. Widget code itself (Jupyter) is not run.""")

prop('P05', 'Simplification of ZH-diagrams preserves the linear map',
     """Every simplification of diagrams with H-boxes (turning Hadamard boxes into edges, to and from hypergraph form, parallel and intro H-box rules, copying, H-box fusion,
     parallel NOT, hyper-pivoting and the full ZH simplification) leaves a well-formed diagram denoting exactly the same linear map, including the scalar, and terminates;
     converting to hypergraph form and back give diagrams of that form, and afterwards nothing is left of what a simplification removes.""",
     ['inputs'], """all ZH-diagrams of the simple backend: Z/X spiders, H-boxes of any arity and phase, parallel H-boxes, NOTs, hypergraph states, Toffoli-style circuits""",
     """Tests simplify a few Toffoli circuits; the rules' scalars and their behaviour at boundaries, with phases, and with several matches at once are not sampled.""",
     ['pyzx/hsimplify.py', 'pyzx/hrules.py'], [('hsimp/zh_simp loops', 'pyzx/hsimplify.py'), ('H-box rules', 'pyzx/hrules.py')], ['pyzx.hsimplify.*'],
     'runtime monitoring: reference-model comparison around each strategy, form monitors',
     """Seven workload families through all ten strategies, alone and in sequence, compared exactly by the reference evaluator.""",
     """Exploration: ~159k strategy runs in the quick tier on diagrams up to ~12 vertices.""")

prop('P06', 'Reductions reach their normal form and never increase the T-count',
     """After spider, identity, interior-Clifford, Clifford and full reduction (also step by step through their iterators), no further match of the rules the strategy consists of remains, and the reported number of rewrites is zero only if
     nothing changed. None of these reductions increases the number of non-Clifford phases, and tcount counts those phases. A Clifford diagram is reduced to one without interior spiders,
     a closed Clifford diagram to the empty diagram, and fully reducing a fully reduced diagram changes nothing. The graph-likeness predicate accepts exactly graph-like diagrams.""",
     ['inputs'], """all ZX-diagrams and circuits over the simple backend x reduction strategies""",
     """Tests compare T-counts of a few benchmark circuits; reaching a normal form is a statement about every diagram.""",
     ['pyzx/simplify.py', 'pyzx/rules.py'], [('reduction loops', 'pyzx/simplify.py:clifford_simp, full_reduce'), ('T-count', 'pyzx/simplify.py:tcount')], ['diagram after pyzx.simplify.*'],
     'runtime monitoring: independent normal-form oracles on the reduced diagram and T-count conservation monitor',
     """Six workload families; normal-form predicates are written independently on public accessors (no matcher of pyzx is consulted).""",
     """Exploration: ~76k reductions in the quick tier.""")

prop('P07', 'Phase teleportation only moves phases, preserving the map and T-count bound',
     """Phase teleportation of a circuit or ZX-diagram returns a new diagram with the same vertices, types, positions, edges, inputs and outputs, that differs only in phases, denotes the same
     linear map up to a scalar, and has no more non-Clifford phases than before; the given diagram is not changed. A teleported circuit diagram can be read back as an equivalent circuit.""",
     ['inputs'], """all circuits and ZX-diagrams, including ones with phases that are not multiples of pi/4, and already teleported ones""",
     """Sign bookkeeping across fusions goes wrong only for particular sequences of NOTs, fusions and phases that sampled benchmark circuits (pi/4 phases) do not contain.""",
     ['pyzx/simplify.py'], [('phase index and sign bookkeeping', 'pyzx/simplify.py:Simplifier'), ('fuse/negate callbacks', 'pyzx/graph/base.py:fuse_phases, phase_negate')], ['pyzx.simplify.teleport_reduce'],
     'runtime monitoring: reference-model comparison, structural diff monitor and T-count monitor around teleportation',
     """Six workload families: random, T-dense with NOTs and odd phases, arbitrary diagrams, larger circuits (independent gate-matrix reference), repeated teleportation, and read-back.""",
     """Exploration: ~11k teleportations in the quick tier.""")

prop('P08', 'Every gate denotes its unitary in every view',
     """For every gate type with any parameters and qubits, the graph it is turned into, its decomposition into basic gates, its matrix, and its copies and repositionings denote the gate's
     documented unitary up to a global phase, and its adjoint denotes the inverse. A gate equals another exactly when both are of the same type, with the same qubits and parameters; its reported T-count is
     that of its basic gates and zero for a Clifford gate.""",
     ['inputs'], """all gate types (about 40) x phases x qubits; FSim with theta = +-pi/2""",
     """Tests check a handful of gates at fixed phases; adjoint, repositioning and equality of composite and parametrised gates go wrong for specific parameters.""",
     ['pyzx/circuit/gates.py'], [('gate classes', 'pyzx/circuit/gates.py')], ['pyzx.circuit.gates.*'],
     'runtime monitoring: reference-model (textbook matrices) comparison on each view of a gate',
     """Every gate type must be seen in every view; the reference matrices are written from the gate definitions, not from the code.""",
     """Exploration: ~28k gates and gate pairs in the quick tier.""")

prop('P09', 'Circuit operations, conversions, statistics and equality checks are faithful',
     """Converting circuits to graphs, matrices and basic gates and reading circuit graphs back, adjoint, tensor, composition, adding under a qubit mask, prepending and
     adding gates by name preserve the circuit's unitary (up to a global phase) and its number of qubits and bits as the operation prescribes, without changing their arguments. T-count, two-qubit count and depth reported
     are those of the circuit; ancillas are prepared and post-selected in |0>+|1>. The equality check accepts only circuits equal up to a global phase, or up to a wire permutation when that is asked for.""",
     ['inputs'], """all circuits over all gates, masks, ancillas, measurements x operations""",
     """Tests use a few fixed circuits and BASIC gates; row compression, masks, reading back and accumulating depth depend on the arrangement of gates.""",
     ['pyzx/circuit/__init__.py', 'pyzx/circuit/graphparser.py', 'pyzx/circuit/gates.py'], [('Circuit', 'pyzx/circuit/__init__.py:Circuit'), ('graph <-> circuit', 'pyzx/circuit/graphparser.py:graph_to_circuit, circuit_to_graph')], ['pyzx.Circuit'],
     'runtime monitoring: reference-model (gate matrix) comparison around each operation, argument-immutability monitors',
     """Nine workload families; circuits over all gate types; every operation has a counter that must be non-zero.""",
     """Exploration: ~24k circuits in the quick tier, up to 4 qubits and 25 gates.""")

prop('P10', 'Circuit extraction yields a circuit with the same linear map',
     """Extracting a circuit from a diagram that a simplification strategy produced from a circuit (or from plain wires) succeeds for every combination of options, uses only the documented gates, keeps the
     T-count, and gives a circuit with the diagram's linear map up to a global phase, or up to a permutation of the inputs when asked for. The same holds for simple (causal flow) and lookahead extraction, which
     keeps below a given limit and never costs more than the basic extractions it compares with; Clifford extraction follows the normal-form layers.""",
     ['inputs'], """all diagrams obtained from circuits by the reductions, with permuted wires x extractors x options""",
     """Tests extract a few random circuits with default options; the CZ/CNOT optimisations, gadget removal and wire permutations only occur for particular diagrams.""",
     ['pyzx/extract.py', 'pyzx/linalg.py'], [('extraction', 'pyzx/extract.py:extract_circuit'), ('lookahead', 'pyzx/extract.py:lookahead_extract_base'), ('Clifford', 'pyzx/extract.py:extract_clifford_normal_form')], ['pyzx.extract_circuit', 'pyzx.extract.*'],
     'runtime monitoring: reference-model (gate matrix) comparison of extracted circuits, gate-set, cost and layer monitors',
     """Six workload families over 10 reduction strategies x options; includes dense CZ layers on 5-7 qubits so that CZ and CNOT optimisation are exercised.""",
     """Exploration: ~19k diagrams in the quick tier, up to 7 qubits.""")

prop('P11', 'Circuit optimisers preserve the unitary and never raise the T-count',
     """Basic, phase-block and full circuit optimisation, and TODD on circuits, gate lists and diagrams, return a result that denotes the same unitary up to a global phase (a diagram: up to a scalar), acts on the same
     qubits, has no more non-Clifford phases than the input, and leave the given circuit unchanged. Without swaps, basic optimisation uses only qubit pairs that already interacted; TODD keeps the third-order phase polynomial up to
     Clifford; a parity network passes through every required parity. With ``settings.topt_command`` naming an external TOpt program the same holds. A gate outside the documented gate set is refused with a TypeError.""",
     ['inputs'], """all circuits over the optimisers' documented gate sets (phase-block, full and TODD: Clifford+T) x options""",
     """Tests optimise a handful of random circuits; commutation rules, swap bookkeeping and trailing corrections fire for particular gate arrangements only.""",
     ['pyzx/optimize.py', 'pyzx/todd.py', 'pyzx/parity_network.py'], [('gate-level optimiser', 'pyzx/optimize.py:Optimizer'), ('TODD', 'pyzx/todd.py:todd_iter, todd_simp'), ('parity network', 'pyzx/parity_network.py')],
     ['pyzx.optimize.*', 'pyzx.todd.*', 'pyzx.parity_network.parity_network'],
     'runtime monitoring: reference-model (gate matrix) comparison, T-count, connectivity and argument monitors around each optimiser',
     """Circuits with deliberate runs that trigger the rules (doubled CNOTs, HAD-S-HAD, repeated and inverse gates, NOTs); todd_iter is judged by the multilinear form of the phase function computed from scratch.""",
     """Exploration: ~18k circuits in the quick tier, up to 5 qubits and 60 gates.""")

prop('P12', 'Linear algebra over GF(2) is exact and CNOT synthesis implements its matrix',
     """Gaussian elimination brings every 0/1 matrix into (reduced) row echelon form of its row space for every block size, returns the rank and pivot columns, and records exactly the row operations it made in its trackers.
     Rank, inverse (None when singular), factorisation, solving (None when unsolvable), nullspace, product, transpose, equality, slices, row and column operations give the mathematically defined result without
     changing their operands. The CNOTs returned for an invertible matrix reduce it to the identity, and the matrix helpers of extraction return row operations with the promised effect.""",
     ['inputs'], """all 0/1 matrices with at least one row and column x operations x block sizes""",
     """Tests check a few random matrices of fixed shape; block sizes, rank deficiency, non-square shapes and one-row matrices are not sampled.""",
     ['pyzx/linalg.py', 'pyzx/extract.py'], [('Mat2', 'pyzx/linalg.py:Mat2'), ('matrix helpers of extraction', 'pyzx/extract.py:greedy_reduction, column_optimal_swap, max_overlap')],
     ['pyzx.linalg.Mat2.*', 'pyzx.extract.greedy_reduction', 'pyzx.extract.column_optimal_swap'],
     'runtime monitoring: algebraic oracles (independent bit-mask arithmetic) on every operation result, operand-immutability monitors',
     """Each result is checked against a characterisation computed with separate bit-mask arithmetic (not another elimination of the same kind).""",
     """Exploration: ~72k matrices in the quick tier, up to 10x10.""")

prop('P13', 'CNOT routing computes its matrix, up to the returned permutation, on couplings',
     """Routing an invertible parity matrix on a connected architecture (Steiner-tree, genetic, particle-swarm, sequential modes) returns CNOTs that are equivalent to the matrix up to exactly the reported row and column permutations; in
     the Steiner modes every CNOT acts on coupled qubits. The parity tracker reports the matrix, the count and the depth of the CNOTs it holds.
     The genetic and particle-swarm optimisers only evaluate permutations and return the best one they evaluated. Architectures (named, generated or given) have their documented couplings, for devices the published ones up to renumbering (those of a given density: connected, with the promised number); distances, shortest paths, non-cutting vertices, Steiner trees and the qubit placement agree with the coupling graph.""",
     ['inputs'], """all invertible matrices x connected architectures (named, generated, random, also without a Hamiltonian path) x elimination modes""",
     """Tests route a few matrices on named architectures, most with a Hamiltonian path in label order; failures depend on matrix and coupling graph together.""",
     ['pyzx/routing'], [('Steiner elimination', 'pyzx/routing/steiner.py'), ('modes and permutations', 'pyzx/routing/cnot_mapper.py, pyzx/routing/machine_learning.py'), ('architectures', 'pyzx/routing/architecture.py'), ('parity tracker', 'pyzx/routing/parity_maps.py:CNOT_tracker')],
     ['pyzx.routing.gauss', 'pyzx.routing.permuted_gauss', 'pyzx.routing.sequential_gauss', 'pyzx.routing.steiner_gauss', 'pyzx.routing.rec_steiner_gauss', 'pyzx.routing.Architecture.*', 'pyzx.routing.CNOT_tracker.*'],
     'runtime monitoring: bit-mask replay of the recorded CNOTs against the routed matrix, coupling monitor, breadth-first-search oracle for architectures',
     """Random connected coupling graphs besides the built-in ones; every mode and fitness; all results replayed by separate arithmetic.""",
     """Exploration: ~21k matrices and architectures in the quick tier, up to 9 qubits (16 and 20 for named architectures). Non-recursive Steiner elimination may refuse couplings whose labels are not a Hamiltonian path.""")

prop('P14', 'Phase-polynomial routing preserves the circuit and respects the architecture',
     """Routing a circuit of CNOTs and Z rotations (Gray, Gray-Meijer and matroid methods, every heuristic and option) returns a circuit of the same unitary up to a global phase, with CNOTs on coupled qubits only and no more phase
     gates than distinct parities; the synthesis functions return the placements under which their circuit has the given phase polynomial. The phase polynomial of a circuit has its parities, phases (multiples of 2 pi dropped) and outputs;
     partitions cover all parities with independent sets; other gates are refused. Random phase-polynomial generators return circuits of the requested size.""",
     ['inputs'], """all CNOT + Z-phase circuits x connected architectures x routing methods, heuristics and options""",
     """Tests route small random circuits on square and line architectures with few options.""",
     ['pyzx/routing/phase_poly.py', 'pyzx/generate.py'], [('phase polynomial', 'pyzx/routing/phase_poly.py:PhasePoly'), ('routing', 'pyzx/routing/phase_poly.py:route_phase_poly'), ('generators', 'pyzx/generate.py:phase_poly, phase_poly_from_gadgets')],
     ['pyzx.routing.route_phase_poly', 'pyzx.routing.phase_poly.PhasePoly.*', 'pyzx.generate.phase_poly*'],
     'runtime monitoring: independent parity-following oracle (phase polynomial as bit masks), unitary reference on small cases, coupling monitor',
     """The oracle follows parities through the circuit; on up to 5 qubits it is itself checked against the gate matrices.""",
     """Exploration: ~19k circuits in the quick tier, up to 8 qubits (16 and more for some named architectures). Genetic modes run with minimal populations.""")

prop('P15', 'Diagrams behave as documented graphs under every sequence of edits',
     """After any sequence of adding, removing, retyping and relabelling vertices and edges, setting boundaries, grounds, positions and vertex data, copying, adjoints, merging and subgraphs, every query (vertices, edges, neighbours, degrees, types, phases, data,
     counts, depth, qubit count, statistics, boundaries) of a diagram gives what the sequence implies, on the simple and the multigraph backend. Parallel edges and self-loops added to a simple or auto-simplifying diagram are resolved so that
     the linear map, scalar included, is that with all edges. An operation that is refused leaves the diagram as it was, and diagrams obtained by copying share nothing that can be changed.""",
     ['histories'], """all histories of graph operations with existing vertices, both backends, auto-simplification on and off""",
     """Tests perform a few fixed operations; lost data, shared storage and wrong counters appear only after particular sequences.""",
     ['pyzx/graph'], [('simple graph', 'pyzx/graph/graph_s.py:GraphS'), ('multigraph', 'pyzx/graph/multigraph.py:Multigraph'), ('shared operations', 'pyzx/graph/base.py:BaseGraph')],
     ['pyzx.Graph', 'pyzx.graph.GraphS.*', 'pyzx.graph.multigraph.Multigraph.*', 'pyzx.graph.base.BaseGraph.*'],
     'runtime monitoring: model-based online monitor (plain dict/multiset model updated in lockstep) after every operation of random histories',
     """Each history keeps a pool of diagrams with a model each; after every operation all diagrams of the pool are compared (so aliasing shows at once); resolution of parallel edges is judged by 2x2 matrices of the two spiders.""",
     """Exploration: 6.5k histories (~20 operations each) in the quick tier.""")

prop('P16', 'Composition, tensor product, adjoint and boundaries follow the linear maps',
     """Composing, tensoring, taking adjoints, copying, translating, plugging states and effects, merging and taking subgraphs, identity tests, normalising, packing rows, and detecting inputs and outputs act on the linear maps (scalar included; grounds:
     on the completely positive maps) as the operation of that name: for diagrams of any vertex types and backend, also with wires joining two inputs or two outputs, Hadamard boundary edges and a diagram composed with itself.
     Operands of the non-mutating operations stay as they were, and mismatched arities are refused.""",
     ['inputs'], """all pairs of well-formed diagrams (Z, X, H-box, Z-box, W, ground) of either backend""",
     """Tests compose a few circuits; bent wires, Hadamard boundaries, grounds, Z-boxes and mixed backends need particular pairs.""",
     ['pyzx/graph/base.py'], [('composition', 'pyzx/graph/base.py:compose, tensor, adjoint'), ('states and effects', 'pyzx/graph/base.py:apply_state, apply_effect'), ('boundaries', 'pyzx/graph/base.py:auto_detect_io, normalize, is_id')],
     ['pyzx.graph.base.BaseGraph.compose', 'pyzx.graph.base.BaseGraph.tensor', 'pyzx.graph.base.BaseGraph.adjoint', 'pyzx.graph.base.BaseGraph.apply_state', 'pyzx.graph.base.BaseGraph.is_id', 'pyzx.graph.base.BaseGraph.normalize', 'pyzx.graph.base.BaseGraph.auto_detect_io'],
     'runtime monitoring: matrix-level reference of each operation (independent contraction; superoperators for grounds), argument-immutability monitors',
     """Five workload families; diagrams are generated with bent and bare wires on purpose; expected matrices are computed from the operands' matrices with numpy.""",
     """Exploration: 72k cases in the quick tier, up to 3+3 boundaries per diagram.""")

prop('P17', 'Diagrams survive saving, loading, drawing and differencing',
     """Writing a diagram as JSON and reading it back (into either backend) gives the same vertices, types, exact phases (symbolic ones too), edges, positions, boundaries, grounds, vertex data, variables and scalar; pickling and deep copies likewise.
     TikZ gives the drawn diagram (types, phases, labels, edges; Hadamards on boundaries as boxes), sequences draw every diagram with distinct numbers, GraphML lists all vertices and edges, and malformed TikZ is refused.
     TikZ drawn with TikZiT (any synonym of a style, way of writing a phase, option) and .qgraph files of Quantomatic or older versions are read as the diagram they show; unknown styles and labels are refused, or ignored on request; vertices on one spot are reported, kept or fused as asked.
     Applying the difference of two diagrams (also after JSON) to the first gives the second. The diagrams themselves are never changed or shared.""",
     ['inputs'], """all diagrams (positions with at most two decimals; JSON-representable vertex data) of both backends x formats""",
     """Tests read back a few fixed diagrams; lossy fields (large denominators, labels, names, complex scalars, numeric-looking data) need particular values.""",
     ['pyzx/graph/jsonparser.py', 'pyzx/io.py', 'pyzx/tikz.py', 'pyzx/graph/diff.py', 'pyzx/graph/scalar.py'], [('JSON', 'pyzx/graph/jsonparser.py'), ('TikZ', 'pyzx/tikz.py'), ('differences', 'pyzx/graph/diff.py:GraphDiff'), ('scalars', 'pyzx/graph/scalar.py:to_json, from_json')],
     ['pyzx.graph.base.BaseGraph.to_json', 'pyzx.graph.base.BaseGraph.from_json', 'pyzx.graph.base.BaseGraph.to_tikz', 'pyzx.tikz.*', 'pyzx.graph.diff.GraphDiff', 'pyzx.graph.base.BaseGraph.to_graphml'],
     'runtime monitoring: field-by-field model comparison of round trips, matrix comparison where parallel edges are resolved, aliasing monitors',
     """Random diagrams with every vertex type, ground, name, label, symbolic phase and scalar kind; each result compared with a plain model of the original.""",
     """Exploration: 97k diagrams and files in the quick tier. TikZ does not store scalars, grounds, boundaries and vertex data; differences do not store scalars, grounds and boundaries.""")

prop('P18', 'Circuits survive writing and reading in every circuit language',
     """Writing a circuit as OpenQASM 2 or 3, .qc, Quipper or emoji gives a program that describes the same circuit (up to a global phase; every gate that has a description in the language, whole or decomposed), and PyZX reads its own output
     back as the same circuit. Reading OpenQASM 2/3 (registers, broadcasting, custom gates, angle expressions), .qc, Quipper, qsim, .tfc and sqasm programs gives the circuit the program describes, whichever way the format is chosen or detected.
     Phases that are fractions of pi with small denominators come back as exactly those fractions although most languages write them as decimal numbers.
     Programs that are invalid or outside the supported subset are refused with an error, never read as another circuit.""",
     ['inputs', 'programs'], """all circuits over the gate library and all programs of the supported subsets of each language""",
     """Tests read a few fixed programs and write two or three circuits; wrong meanings of an expression, a broadcast or a decomposed gate need particular programs.""",
     ['pyzx/circuit'], [('OpenQASM', 'pyzx/circuit/qasmparser.py'), ('writers', 'pyzx/circuit/gates.py:Gate.to_qasm, to_qc, to_quipper'), ('other readers', 'pyzx/circuit/qcparser.py, quipperparser.py, qsimparser.py, sqasm.py'), ('detection', 'pyzx/circuit/__init__.py:determine_file_type')],
     ['pyzx.Circuit.from_qasm', 'pyzx.Circuit.to_qasm', 'pyzx.Circuit.from_qc', 'pyzx.Circuit.to_qc', 'pyzx.Circuit.from_quipper', 'pyzx.Circuit.to_quipper', 'pyzx.Circuit.load', 'pyzx.qasm', 'pyzx.sqasm'],
     'runtime monitoring: independent readers of each language as oracle for what is written; programs generated together with their meaning as oracle for what is read',
     """Writers are judged by readers written for this check from the language definitions; readers by programs generated together with the unitary they mean. Unitaries are compared up to a global phase.""",
     """Exploration: 50k circuits and programs in the quick tier, up to 5 qubits; angles at 1e-6. FSim gates have no textual description. .qc only has phases that are multiples of pi/4.""")

prop('P19', 'Tensors, matrices, comparisons and scalars are numerically right',
     """The tensor and the matrix of every diagram (all vertex types, either backend, any rows, parallel edges, self-loops, bent and bare wires, scalars) and circuit are those of its linear map; diagrams without one are refused with an error. The quimb
     network of a diagram contracts to the same tensor, with exactly the boundaries as open indices. Comparing tensors (exactly or up to a nonzero scalar), the scalar correction, composition, adjoint and the unitarity test agree with linear algebra;
     scalars compute, copy, conjugate and print as the complex numbers they stand for.""",
     ['inputs'], """all well-formed diagrams small enough to evaluate; all sequences of scalar operations""",
     """Tests evaluate a few circuits; contraction order, edge multiplicity and boundary layout interact, and the result of every other test rests on this code.""",
     ['pyzx/tensor.py', 'pyzx/quimb.py', 'pyzx/graph/scalar.py'], [('contraction', 'pyzx/tensor.py:tensorfy'), ('comparison', 'pyzx/tensor.py:compare_tensors, find_scalar_correction'), ('tensor networks', 'pyzx/quimb.py:to_quimb_tensor'), ('scalars', 'pyzx/graph/scalar.py:Scalar')],
     ['pyzx.tensorfy', 'pyzx.compare_tensors', 'pyzx.find_scalar_correction', 'pyzx.is_unitary', 'pyzx.to_quimb_tensor', 'pyzx.graph.scalar.Scalar.*', 'pyzx.Circuit.to_tensor'],
     'runtime monitoring: reference evaluator by variable elimination (no shared code) as oracle; scalar histories replayed on complex numbers; printed scalars parsed back',
     """Diagrams from five generators with shuffled rows; every evaluated diagram is also monitored for mutation. Scalars: random histories over a pool, so that sharing between copies shows.""",
     """Exploration: 52k cases in the quick tier; diagrams whose row-by-row contraction needs more than 16 open wires are skipped (documented memory limit). Printed scalars are compared at printing precision.""")

prop('P20', 'Stabiliser decompositions and simulation compute the right values',
     """Replacing magic states in a graph-like Clifford+T diagram gives a sum of 7 or 2 diagrams with 6, 2 or 1 fewer T-like phases that adds up to the diagram (scalar included), and a full stabiliser decomposition gives Clifford terms, no more than
     documented, with that sum; the given diagram stays as it was. Sums of diagrams are evaluated, reduced and post-selected term by term without changing their total. Inner products are those with an equatorial stabiliser state,
     norm estimates agree with the norm, samples follow the outcome probabilities of the right qubits, and path sums of fully reduced scalars give their value.""",
     ['inputs', 'programs'], """all graph-like Clifford+T diagrams (scalars, states and maps); all choices of magic states; all sets of post-selected and sampled qubits""",
     """One test decomposes six T gates once; which spiders are picked, where they lie and how terms reduce changes from call to call.""",
     ['pyzx/simulate.py'], [('magic state decompositions', 'pyzx/simulate.py:replace_magic_states, find_stabilizer_decomp'), ('sums', 'pyzx/simulate.py:SumGraph'), ('path sums', 'pyzx/simulate.py:calculate_path_sum')],
     ['pyzx.simulate.replace_magic_states', 'pyzx.simulate.find_stabilizer_decomp', 'pyzx.simulate.max_terms_needed', 'pyzx.simulate.SumGraph.*', 'pyzx.simulate.calculate_path_sum'],
     'runtime monitoring: dense reference evaluation of every term and of the total; membership and statistical oracles for the randomised parts',
     """Totals are added up from reference evaluations of each term. A random inner product must be one of the finitely many exact values; norm estimates lie within exactly computed deviations; basis states (whose outcomes are certain) are sampled for qubit bookkeeping.""",
     """Exploration: 18k cases in the quick tier, up to 12 magic states. Frequencies of random outcomes are only compared within a wide margin.""")

prop('P21', 'Symbolic phases: rewriting, conversion and text commute with substitution',
     """Phases may be polynomials in named variables, real or Boolean. Substituting values for the variables before or after any simplification strategy, rewrite rule, composition, adjoint, copy, serialisation or conversion between circuit
     and diagram gives the same linear map (global scalar included unless marked unknown). Polynomials add, multiply, reduce modulo 2, substitute and compare as the functions they stand for, keep what is known about each variable, and print as text that parses back to the same polynomial;
     what needs values is refused with an error. Copies, subgraphs, compositions and merged diagrams know the types of the variables in them.""",
     ['inputs'], """all ZX-diagrams and circuits with polynomial phases; all substitutions of real (or Boolean) values for the variables""",
     """Tests simplify one or two symbolic circuits; a rule that is right for numbers may treat a variable as Clifford, reduce its coefficient or drop its sign.""",
     ['pyzx/symbolic.py', 'pyzx/simplify.py', 'pyzx/rules.py', 'pyzx/basicrules.py', 'pyzx/graph/scalar.py'],
     [('polynomials', 'pyzx/symbolic.py:Poly, Term, Var'), ('parser', 'pyzx/symbolic.py:parse'), ('classification of phases', 'pyzx/utils.py:phase_is_clifford, is_pauli'), ('symbolic scalars', 'pyzx/graph/scalar.py:Scalar')],
     ['pyzx.symbolic.*', 'pyzx.simplify.* and rules on diagrams with symbolic phases', 'pyzx.Circuit.from_graph / to_graph', 'BaseGraph.to_json / from_json'],
     'runtime monitoring: values substituted before and after, compared through the reference evaluator; polynomial histories replayed on numbers',
     """Every operation is observed on a diagram with symbols; at several random substitutions the reference value of the result is compared with that of the diagram given. Polynomials are replayed as numbers (and, modulo 2, as angles). Text is read back and compared as a function.""",
     """Exploration: 30k cases in the quick tier. Scalars marked unknown are compared up to a nonzero factor. Operations that refuse symbolic phases with an error (T-counts and optimisers of circuits) are accepted.""")

prop('P22', 'Rewriting hybrid diagrams and measured circuits preserves the channel',
     """Spiders may be discarded (connected to ground) and circuits may measure qubits into classical bits and discard bits. Every simplification strategy, rewrite rule, interactive rule, editor operation, composition and conversion of circuits to diagrams
     gives the same quantum channel (scalar included; for circuits up to a positive factor), keeps grounds on existing spiders and never treats a discarded spider as a pure one.
     What exists only for pure diagrams (tensors, extraction of circuits, from_graph, verify_equality) is refused with an error when something is discarded.""",
     ['inputs'], """all diagrams of Z and X spiders with any set of discarded spiders; all circuits of gates, measurements and bit discards""",
     """No test rewrites a diagram with a ground; a rule that drops or moves one still gives a plausible diagram.""",
     ['pyzx/rules.py', 'pyzx/basicrules.py', 'pyzx/simplify.py', 'pyzx/editor_actions.py', 'pyzx/hrules.py', 'pyzx/circuit/gates.py'],
     [('grounds', 'pyzx/graph/base.py:is_ground, set_ground, is_hybrid'), ('matchers that look at grounds', 'pyzx/rules.py:match_*'), ('measurements', 'pyzx/circuit/gates.py:Measurement, DiscardBit')],
     ['pyzx.simplify.*', 'pyzx.rules.*', 'pyzx.basicrules.*', 'pyzx.editor_actions.operations', 'pyzx.Circuit.to_graph', 'pyzx.Circuit.add_circuit', 'pyzx.extract_circuit'],
     'runtime monitoring: completely positive maps of diagrams (doubled reference evaluation) and of circuits (Kraus operators) compared before and after every operation',
     """The diagram is evaluated as a doubled network in which discarded spiders connect the two halves; circuits are evaluated as Kraus sums without pyzx. Every operation is observed on random and on structured diagrams (leaves, twin gadgets, supplementary pairs) with grounds anywhere.""",
     """Exploration: 39k cases in the quick tier, diagrams up to 16 spiders, circuits up to 4 wires. Z-boxes, W nodes and H-boxes are not combined with grounds.""")

prop('P24', 'Generators of diagrams and circuits produce what was asked for',
     """The generators of pyzx.generate return well-formed diagrams or circuits of the requested size, backend and gate set: identity is the identity, spider is the requested spider with its phase or label, and the random Clifford and Clifford+T diagrams (with measurements) denote
     the circuit that their rows show, with boundaries in qubit order, exactly the requested number of gates, no gate of probability zero and the others at the requested frequencies. Random phase polynomials have the requested
     numbers of layers, CNOTs and gadgets, a random parity map is the matrix of the CNOTs it records, and the circuit identities are identities; impossible requests are refused.""",
     ['inputs'], """all sizes and probabilities; all random states""",
     """Tests only use the generators to feed other tests; a reversed boundary or a skewed probability goes unnoticed.""",
     ['pyzx/generate.py'], [('diagrams', 'pyzx/generate.py:identity, spider, cnots, cliffordT, cliffordTmeas, cliffords'), ('circuits', 'pyzx/generate.py:CNOT_HAD_PHASE_circuit, phase_poly*, circuit_identity_*'), ('parity maps', 'pyzx/generate.py:build_random_parity_map')],
     ['pyzx.generate.*'],
     'runtime monitoring: independent reading of every generated diagram as a circuit, compared with its reference matrix or channel; frequency monitors',
     """Each result is read row by row by a reader written for this check, its gates are counted, and the circuit read is compared with the map of the diagram (channels when it measures). Frequencies are counted over long circuits.""",
     """Exploration: 34k results in the quick tier, diagrams up to 4 qubits. Frequencies are accepted within six standard deviations. Diagrams of generate.cliffords are compared up to a scalar, as they carry none.""")

prop('P23', 'Generalised flows are real, latest and found; patterns denote their map',
     """gflow returns None exactly when an open graph (discarded spiders count as outputs) has no generalised flow; otherwise its correction sets lie among later, non-input vertices, their odd neighbourhoods hit exactly the corrected vertex outside the past, and
     its layers are the maximally delayed ones. Diagrams of circuits have a gflow and Clifford simplification keeps it; correcting by it makes every outcome of the pattern equal.
     Cluster states, measurements and Pauli corrections denote the grid state, the projection and the Pauli, in the order of the remaining outputs, and impossible positions or phases are refused.""",
     ['inputs'], """all open graphs; all grids, inputs, measurement bases and sequences of measurements and Paulis""",
     """There is no test of gflow or of measurement patterns; a wrong flow is a plausible set of vertices.""",
     ['pyzx/gflow.py', 'pyzx/mbqc.py'], [('gflow', 'pyzx/gflow.py:gflow'), ('patterns', 'pyzx/mbqc.py:cluster_state, measure, apply_pauli')],
     ['pyzx.gflow.gflow', 'pyzx.mbqc.*'],
     'runtime monitoring: definition of gflow checked on every result, own layering over GF(2) and brute force as oracles for existence and delay, simulation of patterns with random outcomes',
     """Random open graphs with and without flow, chains, circuits before and after simplification; every result is judged by the definition and by an own elimination, small graphs by brute force over orders and correction sets; patterns are simulated with random outcomes and corrections.""",
     """Exploration: 70k cases in the quick tier, up to 40 vertices. Only the XY plane, as in pyzx.gflow. Maps of patterns are compared up to a scalar.""")

prop('P25', 'Local search moves and optimisers keep the linear map',
     """Local complementation and pivoting congruences, phase unfusing and the random moves keep the linear map of a graph-like diagram up to a nonzero scalar, also next to boundaries; random moves follow the weights given and do nothing where they do not apply.
     Annealing and genetic optimisation never change the diagram given, return a diagram with its map from which a circuit for it can be extracted, and whose score is the best one met, with a best score that never gets worse; every mutant is a circuit and a diagram of that map, and
     selection keeps the size of the population and separate mutants. Scores count gates.""",
     ['inputs', 'histories'], """all graph-like diagrams, moves and weights; all diagrams of circuits and parameters of the optimisers""",
     """No test runs the local search; a wrong move still yields a diagram from which a circuit of the same size can be extracted.""",
     ['pyzx/local_search'], [('congruences', 'pyzx/local_search/congruences.py:lc_cong, lc_cong2, pivot_cong'), ('annealing', 'pyzx/local_search/simulated_annealing.py:anneal'), ('genetic', 'pyzx/local_search/genetic.py:GeneticOptimizer')],
     ['pyzx.local_search.*', 'pyzx.anneal', 'pyzx.GeneticOptimizer'],
     'runtime monitoring: reference maps before and after every move; monitors on every scored diagram, mutant and generation',
     """Moves are observed one by one on random graph-like diagrams; optimisers run with random parameters and instrumented score functions, and every mutant of the last generation is evaluated.""",
     """Exploration: 34k cases in the quick tier; optimisers run for few iterations on up to 4 qubits.""")

prop('P26', 'Command line tools do what they say to circuit files',
     """`pyzx opt` writes a circuit with the map of its source file (up to a global phase), for QASM, .qc, .tfc and Quipper sources, every simplifier (-g full/cliff/tele and the default), output format (-t, or that of the source), phase-polynomial pass (-p),
     destination (-d, or the source name with the format's extension) and -v; it writes that file and no other, and reports it. A missing file or an unknown format changes no file. `pyzx tikz` writes a picture of the circuit's map. `pyzx cnots` and
     `pyzx phasepoly` write the tree of circuit files asked for (folder/Nqubits/D/OriginalI.qasm), with exactly the CNOTs or phase gadgets asked for. map_cnot_circuit keeps the map of a CNOT file, with only coupled CNOTs in Steiner mode, also in the file
     it writes. The dispatcher `python -m pyzx` reaches these tools, and an unknown or absent command exits with 1 and does nothing.""",
     ['inputs', 'programs'], """all circuit files of the gate set of each language; all option combinations of the tools""",
     """The tools are only run by hand; a wrong option changes a circuit file silently or overwrites another file.""",
     ['pyzx/scripts', 'pyzx/__main__.py'], [('opt', 'pyzx/scripts/circ2circ.py:main'), ('tikz', 'pyzx/scripts/circ2tikz.py:main'), ('cnots', 'pyzx/scripts/cnot_generator.py:main'), ('mapping', 'pyzx/scripts/circuit_router.py:map_cnot_circuit')],
     ['python -m pyzx opt/tikz/cnots/phasepoly', 'pyzx.scripts.*'],
     'runtime monitoring: directory listings before and after each command, and own readers of each language as oracle for the files written',
     """Commands run on random circuit files with random options in scratch directories, in the process, through the dispatcher and as a separate process; the oracle compares directory contents and reads the files by independent parsers.""",
     """Exploration: 8k command lines in the quick tier. The router command is a known finding (it does not run).""")

prop('P27', 'Pictures of diagrams and printed matrices show what they are given',
     """draw_matplotlib shows every vertex (with rows=, those in the range and the edges between them) at its position in the style of its type, every edge between its two ends in the style of its type (Hadamards as boxes with h_edge_draw='box'), the phase
     next to its vertex, labels and the scalar when asked, inside the axes. draw_d3 passes vertices (name, position, type, phase, ground, chosen vertex data), edges with parallel ones numbered, and options to the page as valid JavaScript. draw follows the settings.
     Drawing and layout functions change nothing but, for the latter, positions. pretty_complex and matrix_to_latex print the numbers given to them, exactly for the special values and otherwise to two decimals; animations keep the order of the diagrams; TikZiT is handed the picture.""",
     ['inputs'], """all diagrams and circuits (symbolic, grounds, Z-boxes, W, parallel edges, loops) x options and settings; all numbers between 1e-6 and 1e7 and matrices of such numbers of similar size""",
     """No test looks at a picture or a printed number; a wrong drawing is only noticed by someone who relied on it.""",
     ['pyzx/drawing.py', 'pyzx/utils.py'], [('matplotlib', 'pyzx/drawing.py:draw_matplotlib'), ('d3', 'pyzx/drawing.py:draw_d3'), ('numbers', 'pyzx/drawing.py:pretty_complex, matrix_to_latex'), ('phases', 'pyzx/utils.py:phase_to_s')],
     ['pyzx.draw*', 'pyzx.matrix_to_latex', 'pyzx.print_matrix', 'pyzx.drawing.*'],
     'runtime monitoring: the artists of every figure, the arguments of every page and every printed number are read back and compared with the diagram or number by independent readers',
     """Figures are taken apart into patches, lines and texts which must match the vertices and edges one to one; pages are parsed by an own reader of JavaScript literals; LaTeX is evaluated by an own evaluator.""",
     """Exploration: 13k drawings and numbers in the quick tier. The JavaScript of the viewer is not run. imageio is not installed, so a stand-in records the frames.""")

prop('P28', 'The notebook editor keeps the diagram, what it shows and its undo stack together',
     """zx.editor.edit(g): every change sent by the front end (moving, adding and deleting vertices and edges, changing phases) changes g exactly so and nothing else, and after each event the front end's data describe g (vertices, types, positions, phases, edges).
     Undo and redo restore each earlier state of g exactly, including inputs, outputs, grounds, labels and scalar; a new change drops the redo states. A rewrite button is offered after a selection if its rewrite matches in it (or in the edges inside it); it then acts, preserves the linear map including the scalar, deletes no vertex outside
     the selection (except the H-boxes that copy and mult_hbox work on) and does not stay pressed; one that fails leaves g as it was. Copy puts the selected part on the clipboard, paste adds the clipboard diagram next to what is there, selected; text that is no diagram changes nothing.
     Snapshots are never changed by later edits and are handed to TikZiT in order; the scalar and matrix shown are those of g.""",
     ['inputs', 'histories'], """all sequences of editor events on all diagrams (symbolic phases, grounds, Z-boxes, W nodes)""",
     """No test opens the editor; a lost input or a wrong phase after an undo silently changes what the user's next computation means.""",
     ['pyzx/editor.py', 'pyzx/editor_actions.py'], [('widget', 'pyzx/editor.py:ZXEditorWidget'), ('labels', 'pyzx/editor.py:phase_label, label_to_phase'), ('actions', 'pyzx/editor_actions.py:operations')],
     ['pyzx.editor.edit', 'ZXEditorWidget'],
     'runtime monitoring: an own model of the diagram follows every front-end message; reference maps around every rewrite',
     """Random sessions of front-end messages are delivered to the widget; a model predicts the diagram after each, the history is replayed backwards and forwards, and reference contraction compares the maps around each rewrite.""",
     """Exploration: 5k sessions of up to 15 events in the quick tier. The JavaScript of the front end is not run; its messages are simulated.""")
