# generates /verif/properties.jsonl; run with python3-vt
import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,observe=None,hook=False):
    a={"files":files,"mechanism":[{"name":m,"where":files[0]} for m in mech]}
    if state:a["state"]=[{"name":s,"where":files[0]} for s in state]
    if observe:a["observe_at"]=observe
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
F="anifem++/fem/"
I="anifem++/inmost_interface/"
p("C01","Live workspace blocks never overlap and never change under their owner",
 "Every block handed out by a dynamic workspace pool has at least the requested number of real, integer and matrix-header slots, lies entirely in storage the pool owns, is disjoint from every other live block, and keeps its address and its contents until its owner releases it, whatever order blocks are requested, moved, overwritten, released or compacted in. This also holds for blocks obtained through a type-converting adaptor and after requests or compactions that failed for lack of memory.",
 ["histories","inputs","fault_sequences"],"For every history of requests (any sizes including zero), moves, self-moves, releases in any order and compactions on a pool, directly or through an adaptor, with any request or compaction failing at any memory allocation.",
 "Overlap only appears for particular release orders, sizes and failure points; tests use a few blocks released in one order and never fail an allocation.",
 [F+"fem_memory.h"],["dynamic memory pool: chunk selection, busy counters, part identifiers, move semantics of parts, adaptor"],["chunks and their busy counters"],["addresses and contents of live blocks"])
p("C02","A workspace pool recovers fully and fails cleanly",
 "When every block is released the pool is idle: it keeps its capacity, compaction succeeds, and a request that fits in the idle capacity is served without growing the pool. Compaction of a fragmented pool with live blocks is refused with an error and changes nothing. A request that fails for lack of memory leaves the pool's idle/live accounting exactly as before, hands out nothing and never makes a later request, release or compaction misbehave.",
 ["histories","fault_sequences"],"For every history of requests, releases, moves and compactions, with memory exhaustion injected at any allocation of any of them.",
 "Leaks of capacity or corrupted accounting appear only after particular histories or a failed allocation at one particular step; unit tests check a few fixed histories and cannot fail allocations.",
 [F+"fem_memory.h"],["pool request, release and compaction"],["busy counters, live part count, capacity of chunks"],["capacity, refusal of compaction, growth on request"])
p("C03","Concurrent tasks never share a workspace pool slot",
 "With a thread-safe lock policy, tasks that concurrently acquire, use, look up and release pool slots (one at a time or as contiguous ranges) never hold the same slot at the same time, always reach the pool that belongs to their slot, and do so without data races. A slot becomes available again only after it was released, released slots are reused, ranges have exactly the requested length, and a request that fails for lack of memory leaves the registry unchanged and usable.",
 ["schedules","histories","fault_sequences"],"For every interleaving of any number of tasks performing acquire, acquire-range, look up, use, release and release-range, with memory exhaustion at any allocation.",
 "Wrong sharing needs a specific interleaving, for example a look up while another task makes the registry grow; tests run single-threaded.",
 [F+"fem_memory_parallel.h",F+"mutex_type.h",F+"fem_memory.h"],["thread-safe pool registry guarded by a lock policy"],["list of pools and list of unused slots"],["slot numbers, pool addresses, memory accesses"])
p("C04","A matrix function shared by tasks gives each evaluation its own memory",
 "A wrapped elemental matrix function that several tasks share evaluates exactly the user's callback, passes it the task's arguments, outputs, work arrays, user data and the private pool of the task's memory slot (none if it has no slot or the function needs no pool), calls the callback exactly once and hands its result code or exception to the caller. Slots acquired singly or in ranges are private until released, also for copied or assigned wrappers, which behave like the original (same callback, shapes, matrix patterns and work sizes) with memory of their own; the patterns convert outputs between packed and dense form without losing or inventing entries.",
 ["schedules","histories","fault_sequences"],"For every interleaving of tasks that set up, evaluate, compact, release, copy, assign and move shared wrapped functions, for all generator variants, lock policies and allocation failures.",
 "The file is not compiled by the project's tests at all, and cross-task sharing needs a specific interleaving of set-up and evaluation.",
 [I+"func_wrap.h",I+"func_wrap.inl",F+"fem_memory_parallel.h"],["matrix function wrapper with per-task dynamic memory"],["per-wrapper registry of pools"],["arguments seen by the callback, pools seen by concurrent callbacks"])
p("C05","A parallel loop runs every element exactly once and finishes before returning",
 "For every threading mode, every number of workers (including more workers than elements, one worker, and the automatic choice) and every range (including empty), the loop body runs exactly once for each element of the range and never outside it, all of it has finished, with its effects visible to the caller, when the loop returns. Worker numbers lie in the range of the requested number of workers, and two bodies running at the same time never have the same worker number.",
 ["schedules","inputs","configurations"],"For every threading mode, worker count, reported hardware concurrency, range length and iterator type, extra arguments, and every interleaving of the workers.",
 "Lost or repeated elements depend on range length versus worker count, and missing completion or shared worker numbers only show under particular schedules; the tests never run the loop.",
 [F+"mutex_type.h"],["parallel loop over random access ranges for the sequential, native-thread and OpenMP modes"],None,["calls of the loop body"])
p("C06","Elemental computations from many tasks equal the sequential ones",
 "Tasks may concurrently run any elemental computations (integrals over cell, face, edge and at points, boundary conditions, evaluation, interpolation, dense linear algebra, degree-of-freedom traversal) with private workspaces on shared read-only spaces, operators, maps and quadrature tables, including the first use of any table. Every task gets bitwise the result of running alone, no data race occurs, and shared objects are not modified.",
 ["schedules","inputs"],"For every interleaving of any number of tasks, every mix of computations, spaces, operators, tensors, geometries, fusion sizes and quadrature orders.",
 "A hidden cache, lazily filled table or mutable shared iterator only misbehaves under particular interleavings of first uses; tests are single-threaded.",
 [F+"operations/core.inl",F+"operations/dyn_ops.inl",F+"operations/eval.inl",F+"operations/interpolate.inl",F+"fem_space.cpp",F+"tetdofmap.cpp",F+"quadrature_formulas.cpp",F+"geometry.h"],["elemental operations with caller-provided memory; shared immutable spaces and maps; static tables"],["static and lazily initialised data, shared spaces"],["results of each task, memory accesses"])
p("C07","The reported workspace size is sufficient and never exceeded",
 "For every elemental computation, a caller-provided workspace of exactly the size reported by the matching size query (with any alignment of the raw buffer that the size allows) is sufficient, and the computation reads and writes only inside that workspace, its inputs and its declared outputs. A workspace smaller than required is either reported as an error or not needed; it never leads to access outside of it.",
 ["inputs","configurations","fault_sequences"],"For every operation, space, operator, tensor kind, fusion size, quadrature order, workspace source (raw buffer, plain arrays, dynamic pool) and linear algebra configuration, with exact, padded, misaligned and too small workspaces.",
 "Overruns of a few slots land in adjacent memory and go unnoticed in tests, which over-allocate and sample few combinations.",
 [F+"fem_memory.h",F+"operations/core.inl",F+"operations/core.h",F+"operations/dyn_ops.inl",F+"operations/int_tet.inl",F+"operations/int_face.inl",F+"operations/int_edge.inl",F+"operations/int_pnt.inl",F+"operations/dc_on_dof.inl",F+"operations/eval.inl",F+"fem_space.cpp"],["workspace size queries and workspace partitioning"],None,["every memory access relative to the workspace bounds"])
p("C08","Results do not depend on workspace history or source",
 "The result of an elemental computation depends only on its mathematical inputs: it is bitwise the same for any previous contents of the workspace, outputs, stack and heap, for any sequence of computations that used the same workspace before, and for a raw buffer, plain arrays, a dynamic pool or a compacted pool as the source of memory.",
 ["histories","inputs","configurations"],"For every sequence of computations sharing one workspace, every initial content of memory (including not-a-number patterns), and every workspace source.",
 "Freshly allocated memory in a test is usually zero, so a missing initialisation gives right answers there and wrong ones later in a long run.",
 [F+"operations/core.inl",F+"operations/dyn_ops.inl",F+"operations/eval.inl",F+"operations/interpolate.inl",F+"fem_space.cpp",F+"fem_memory.h"],["use of caller-provided working arrays and outputs"],None,["bitwise results under different initial memory contents"])
p("C09","A failed computation leaves everything reusable",
 "When a user callback throws, or memory runs out, at any point of an elemental computation, evaluation, interpolation or space construction, the error reaches the caller, nothing leaks, the dynamic pool has exactly the live blocks it had before, caller-owned descriptors and shared spaces, operators and maps are unchanged, and repeating the computation gives bitwise the result of an undisturbed run.",
 ["fault_sequences","inputs","histories"],"For every computation and every callback invocation or memory allocation within it at which the failure happens, in any sequence of failing and succeeding computations.",
 "There are as many failure points as callback calls and allocations; tests inject none.",
 [F+"operations/core.inl",F+"operations/dyn_ops.inl",F+"operations/eval.inl",F+"operations/interpolate.inl",F+"fem_space.cpp",F+"fem_space.inl",F+"tetdofmap.cpp",F+"fem_memory.h"],["exception paths of elemental operations and spaces"],["pool accounting, caller views, shared spaces"],["pool state, object state and results after a failure"])
p("C10","Parallel assembly equals serial assembly",
 "Assembling a matrix, right-hand side or both with several worker threads gives the same sparse system as assembling with one worker: every cell contributes exactly once to every row it touches, under every interleaving, insertion mode and choice of separate or combined local functions, without data races. A local function that gives a non-finite entry for an own row is reported by a negative status, an allocation or handler that fails in serial assembly is reported by its exception, and values saved to and gathered from the mesh are those of the degrees of freedom they belong to.",
 ["schedules","inputs","configurations","fault_sequences"],"For every interleaving of workers, number of workers, mesh, degree-of-freedom layout, assembly options and local function kinds, with failing local functions.",
 "The assembler is not compiled by the project's tests, and lost or double updates of shared rows need a specific interleaving.",
 [I+"assembler.h",I+"assembler.inl",I+"elemental_assembler.h",I+"elemental_assembler.cpp",I+"elemental_assembler.inl",I+"func_wrap.h",F+"fem_memory_parallel.h",F+"mutex_type.h"],["assembler with per-thread memory and row locking"],["global matrix and right-hand side, per-thread buffers"],["assembled system"])
p("C11","Distributed numbering and assembly agree with the serial ones",
 "On a mesh split over any number of processes in any way, global degree-of-freedom numbers form one gap-free range partitioned contiguously by process, every shared degree of freedom has the same number on every process that sees it, and the system assembled by all processes is the serial system up to that renumbering.",
 ["schedules","inputs","configurations"],"For every partition of the mesh, number of processes, degree-of-freedom layout, ordering policy and interleaving of the processes between and inside collective operations.",
 "The numbering is not compiled by the project's tests and disagreements need particular partitions.",
 [I+"global_enumerator.h",I+"global_enumerator.cpp",I+"ordering.h",I+"ordering.inl",I+"assembler.inl"],["global enumeration and ghost exchange"],["index tags"],["numbers seen by each process"])
p("C12","Range-keyed containers survive any history and failed allocations",
 "A container mapping integer ranges to values and a range enumeration agree with a plain reference map after every insertion, lookup, copy, merge and traversal, whatever the order and overlap of ranges. An operation that fails for lack of memory leaves a container that is still valid and equal to its state before or after the operation.",
 ["histories","fault_sequences"],"For every history of operations and memory exhaustion at any allocation in it.",
 "The number of histories of overlapping ranges is unbounded and tests inject no failure.",
 ["anifem++/interval/interval_map.h","anifem++/interval/interval_map.inl","anifem++/interval/interval_enum.h","anifem++/interval/interval_enum.inl","anifem++/interval/ext_array_enum.h","anifem++/interval/ext_array_enum.inl","anifem++/interval/interval.cpp"],["interval containers"],["interval boundaries"],["lookups and traversal"])
p("C20","Quadrature formulas integrate polynomials of their order exactly",
 "For every geometric entity and every supported order, the formula's points lie in the reference entity, its weights sum to one and it integrates every polynomial up to that order exactly to rounding.",
 ["inputs"],"For every entity, order and polynomial of at most that degree.","Tests sample monomials.",[F+"quadrature_formulas.h",F+"quadrature_formulas.cpp"],["quadrature tables"])
p("C21","Elemental matrices equal the integrals they stand for",
 "For every pair of operators on finite element spaces, tensor and cell, the elemental matrix or vector equals the exact integral whenever the quadrature order suffices, and every evaluation interface (compile-time, run-time, fused or single cell) agrees.",
 ["inputs"],"For every space, operator, tensor, cell geometry and quadrature order.","There are infinitely many geometries and coefficients.",[F+"operations/core.inl",F+"operations/int_tet.inl",F+"operators.inl",F+"diff_tensor.h"],["elemental integration"])
p("C22","Degree-of-freedom maps are bijections consistent with geometry",
 "For every composition of maps, local indices and geometric locations correspond one to one, traversal visits each selected index exactly once in order, and composite, vector and nested views agree on sizes and offsets.",
 ["inputs"],"For every composition of maps and every selection of entities.","Compositions are unbounded.",[F+"tetdofmap.h",F+"tetdofmap.inl",F+"tetdofmap.cpp"],["degree-of-freedom maps"])
p("C23","Interpolation reproduces functions of the space",
 "Interpolating a function of the space and evaluating the result gives the function back to rounding on every cell, by degree of freedom or by region.",
 ["inputs"],"For every space, function of the space and cell.","Infinitely many functions and cells.",[F+"operations/interpolate.inl",F+"fem_space.cpp",F+"spaces/common.h"],["interpolation"])
p("C24","Symbolic derivatives equal the true derivatives",
 "Values, first and second derivatives of automatically differentiated tensor expressions and invariants are the mathematical derivatives, with the symmetries they must have.",
 ["inputs"],"For every expression and argument.","Infinitely many arguments.",["anifem++/autodiff/autodiff.h","anifem++/autodiff/autodiff.inl","anifem++/autodiff/cauchy_strain_invariants.inl","anifem++/autodiff/physical_tensors.inl"],["automatic differentiation"])
p("C25","Geometry and dense linear algebra kernels are correct",
 "Barycentric coordinates, measures, normals, projections, eigen-decompositions and small dense solvers satisfy their defining equations for every non-degenerate input, and both linear algebra configurations agree.",
 ["inputs"],"For every non-degenerate input.","Infinitely many inputs.",[F+"geometry.h",F+"operators.inl"],["geometry kernels"])
p("C26","Nonlinear solver interface passes data and status through and owns its parts",
 "Vector, matrix and linear solver operations offered to KINSOL compute the documented operation over the whole distributed vector, with the same result on every rank and for any distribution and aliasing. The user's residual, jacobian, vectors, matrix, linear solver, parameters, constraints and message handlers reach the nonlinear solver, and its solution, codes, statistics and messages come back unchanged. A failure of a user's function on any rank, of the linear solver or of an allocation is reported on every rank and never swallowed. After any sequence of configuring, solving, moving, failing and destroying nothing is used after its release, and everything the solver owns is released exactly once; what belongs to the user stays intact.",
 ["histories","fault_sequences","configurations"],"For every history of configuration, solution, move and destruction, every distribution over ranks and every failing call.","Histories, distributions and failure points are unbounded; the repository has no test of this interface.",["anifem++/kinsol_interface/SUNNonlinearSolver.h","anifem++/kinsol_interface/SUNNonlinearSolver.cpp"],["nonlinear solver interface"])
p("C27","Processes generate exactly the mesh of the box together",
 "For every number of processes of the given communicator (any subset and numbering of processes, more processes than steps included), numbers of steps and box, the parts of a generated parallelepiped or cube are together one conforming tetrahedral mesh that fills exactly the box: nodes only at grid points of the box, every cell of positive volume on exactly one process, no gap or overlap between parts, no duplicate nodes in a part, shared elements resolved. Redistribution keeps the mesh, leaves one layer of ghost cells over nodes on every process and no holes in numbers; all processes take part in the same collective operations in the same order; printed sizes are the totals of the whole mesh, printed once. A failed allocation leaves no lost mesh.",
 ["configurations","schedules","fault_sequences"],"For every number of processes, communicator, steps and box.","Configurations are unbounded; the repository does not build these helpers or test them, and parts depend on divisibility of steps by processes.",["anifem++/utils/mesh_utils.h","anifem++/utils/mesh_utils.cpp"],["mesh utilities"])
p("C28","Integrals, projections and diffusion solves agree for any ranks and threads",
 "Over a distributed mesh the helpers (integration of scalar and vector functions, L2 projection, creation of variables, evaluation of an operator on a variable at points or barycentric coordinates, stationary diffusion and Laplace solves, spaces by name, solver status messages) give the result their documentation defines, the same on every rank, for every partition, number of ranks and worker threads, space, component, order of nodes and storage of the variable. Integrals count every owned cell once; user functions get the cell, points inside it and outputs of the right size, and are not run at the same time on the same memory. Polynomial data is reproduced by spaces that contain it, with Dirichlet values only where they are asked for and fluxes on the other boundary faces. An allocation failure or an exception of a user function is reported, never hidden by a wrong result, leaves no marker or memory behind, and the same call succeeds later.",
 ["schedules","configurations","fault_sequences","inputs"],"For every partition, schedule, space and point of failure.","Partitions, schedules and failure points are unbounded; the repository builds no test of these helpers.",["anifem++/utils/utils.h","anifem++/utils/utils.inl","anifem++/utils/utils.cpp"],["utilities"])
p("C29","Metrics of a finite element function agree for any ranks and threads",
 "The node metric constructed from a scalar finite element function is the one its documentation defines (mean second derivatives of the estimate on each cell, projection to nodes by the chosen strategy, bounds on eigenvalues and their ratio, fallback for cells without second derivatives), finite, symmetric positive definite and within the bounds. It is the same up to rounding for every partition, number of processes and worker threads, order of nodes of cells, storage of the function and of the metric, and with either eigensolver; copies of a node are equal to the owner's; hidden cells are left out. The function and other data are unchanged, no data or marks stay on the mesh, printed statistics are totals of the whole mesh. Wrong arguments are rejected, a failed allocation is reported and construction may be repeated after it. No data race.",
 ["schedules","configurations","fault_sequences","inputs"],"For every function, mesh, partition, schedule and parameters.","Partitions, schedules and inputs are unbounded; the repository does not build or test this code.",["anifem++/utils/adapt_mesh.h","anifem++/utils/adapt_mesh.cpp","anifem++/fem/geometry.h"],["mesh adaptation"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
import sys
sys.path.insert(0,"/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import jsonschema
for x in P:
    jsonschema.validate(x,s); assert len(x["title"])<=80
