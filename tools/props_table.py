NOTES = ("Specifications are TLA+ checked with TLC (spec/). Every check compiles its replay drivers (harness/) against "
         "/repo's current working tree; the part of DLA-Future that needs pika and Umpire is compiled against the "
         "stand-ins in shim/ (a deterministic, schedule-controlled implementation of the small API that DLA-Future uses).")
TODO = "check under construction"

P("P01", "2D coordinates and linear indices convert to each other without loss",
  "For every grid size and both orderings, numbering the cells of a 2D grid is a bijection onto 0..rows*cols-1 that follows the declared ordering, conversions in both directions agree, and index/size arithmetic, transposition, and the inside/on-border/inside-sub-grid tests mean exactly what their names say. A linear index that does not fit the requested integer type, or an index outside the grid, stops the program instead of giving a wrong cell.",
  ["inputs"], "all grid sizes, indices, orderings and index types, including extents whose product exceeds 32 bits",
  "Unit tests sample a few grids; narrow index types and products beyond 32 bits are hit at single points.",
  [I + "common/index2d.h", I + "types.h", I + "util_math.h"],
  [("index arithmetic in 64 bit with checked narrowing", I + "common/index2d.h: computeCoords*, computeLinearIndex*")],
  tech="TLA+ grid-walk model, TLC states replayed into the code",
  note="Exhaustive on small grids for signed 8/16/32/64-bit index types; larger extents through blocks of the walk at type boundaries.")

P("P02", "Iterating a 2D range visits every index once in column-major order",
  "Iterating any rectangular range yields each of its rows*cols indices exactly once in column-major order, also for empty ranges and ranges whose size exceeds the index type. Iterators obey the random-access laws (jumps, differences and comparisons agree with single steps), and the membership test accepts exactly the indices of the range.",
  ["inputs"], "all range origins and extents, all sequences of iterator movements",
  "Tests walk a handful of ranges forwards; arbitrary jump sequences, reversed movement and degenerate ranges are not enumerated.",
  [I + "common/range2d.h"], [("position derived from a linear counter", I + "common/range2d.h: IteratorRange2D")],
  tech="TLA+ cursor state machine, TLC behaviours replayed into the iterators",
  note="All ranges up to the bound and all movement pairs; random movement sequences beyond.")

P("P03", "Checked integer conversions preserve the value or stop the program",
  "Converting or combining integers through the checked conversion and checked sum/product helpers returns exactly the mathematical value whenever it is representable in the requested type; a value (for sums and products: an operand) that the requested type cannot represent stops the program in checked builds and is never silently wrapped or changed in sign.",
  ["inputs"], "all source/target integer type pairs and all values, in particular at the type boundaries",
  "Tests try a few type pairs; the boundary behaviour of the full type-pair matrix is not covered.",
  [I + "types.h", I + "util_math.h"], [("range checks before the cast", I + "types.h: to_signed, to_unsigned, integral_cast")],
  tech="TLA+ wide-integer model (schoolbook arithmetic, types as intervals); TLC states replayed with death probes",
  note="All 8x8 fixed-width integer types (plus same-width variants), values around every power of two; other values behave as their interval.")

P("P04", "Work-splitting helpers cover their interval exactly",
  "Splitting an interval into blocks starting from two different offsets returns increasing cut points that begin at 0, end at the length and contain precisely the block boundaries of both subdivisions; rounding-up division and percentage-to-index conversion give the mathematically exact count, and arguments of the splitting and percentage helpers outside their documented domain are refused. Handing out resources in rotation never skips or repeats one.",
  ["inputs"], "all lengths, block sizes and offsets within the documented preconditions",
  "Four hand-written examples exist for the interval splitting; offsets equal to the block size and lengths shorter than the offsets are not enumerated.",
  [I + "util_math.h", I + "common/round_robin.h"],
  [("merge of two arithmetic progressions", I + "util_math.h: interleaveSplits"), ("cyclic cursor", I + "common/round_robin.h: RoundRobin")],
  tech="TLA+ walk/dealing/ring models, TLC behaviours replayed",
  note="Exhaustive up to the bound, scaled instances beyond it.")

P("P05", "Block-cyclic index maps give every tile and element exactly one owner",
  "For every tile size, block size, process count, source process and offset, the index functions assign each element to exactly one tile position and each tile to exactly one process, local numbering on each process is gap-free and order-preserving, and global/local conversions (including 'next local tile' queries) are mutual inverses wherever defined. Arguments outside the documented domain stop the program in checked builds.",
  ["inputs", "configurations"], "all distribution parameters and all element and tile indices in the 64-bit range",
  "The unit test is a table of about 30 parameter rows; bijectivity is a statement over all indices and parameters.",
  [I + "matrix/util_distribution.h"], [("closed-form block-cyclic arithmetic with partial first block", I + "matrix/util_distribution.h")],
  tech="TLA+ dealing model (one element at a time), every TLC state replayed into the index functions",
  note="Exhaustive up to the bounds in checks/p05.py, random larger process counts, and lifting to 64-bit indices through periodicity/homogeneity laws TLC checks on the model.")

P("P06", "Buffer copies move exactly the described elements and nothing else",
  "Copying between any two equally sized contiguous or strided buffer descriptions transfers the i-th described element to the i-th described position for every i, leaves all other memory (gaps, surroundings, the source) untouched, and a description reports an element count consistent with its layout. Temporary contiguous stand-ins hold exactly the described number of elements and alias the original only when it already is contiguous.",
  ["inputs"], "all block counts, block sizes and strides on both sides, including degenerate ones",
  "Tests use three fixed layouts; combinations of differing block structure on both sides are sampled once.",
  [I + "common/data.h", I + "common/data_descriptor.h"],
  [("layout-dispatching copy", I + "common/data.h: copy"), ("canonical contiguous form", I + "common/data_descriptor.h: DataDescriptor")],
  tech="TLA+ memory model with element-by-element copy, TLC cases replayed with guard zones",
  note="Exhaustive over all layouts up to the bound.")

P("P07", "Messages carry exactly the described data; their MPI types never leak",
  "A message built over any contiguous or strided buffer transfers exactly the described elements in order between processes, and never touches the gaps. Whatever sequence of constructions, moves, assignments and destructions a program performs, each derived datatype is committed before use and released exactly once, and never while a live message still needs it.",
  ["histories", "inputs"], "all histories of creating, moving, assigning and destroying messages; all layouts and element types",
  "Tests send one layout at a time and never count datatype releases across moves and assignments.",
  [I + "communication/message.h", I + "communication/type_handler.h", I + "communication/datatypes.h", "src/communication/datatypes.cpp"],
  [("RAII ownership of derived datatypes", I + "communication/type_handler.h: type_handler")],
  observe=["MPI profiling interface (PMPI): type creation, commit and free"],
  tech="TLA+ ownership model; all short behaviours replayed into real messages with PMPI event capture",
  note="All behaviours of 2-3 message slots up to the bounded length plus random long ones; transfers of all layout pairs of P06 on 2 ranks.")

P("P08", "Communicator handles release what they own exactly once, and nothing else",
  "For every history of creating, copying, assigning, cloning and destroying communicator handles, a communicator handed over to the library is released exactly once, when its last handle disappears; communicators the user kept are never released. Handles always report the rank and size of the communicator they denote, clones are isolated from their origin, and wrapping the null communicator or handing over the null or the world communicator is refused.",
  ["histories"], "all histories of handle operations, on every rank",
  "Tests check single lifetimes; the release count over arbitrary copy/assign/clone histories is never observed.",
  [I + "communication/communicator.h", "src/communication/communicator.cpp", "src/communication/communicator_impl.cpp", "src/communication/communicator_impl.h"],
  [("shared ownership with managed/unmanaged implementations", "src/communication/communicator_impl.h")],
  observe=["MPI profiling interface (PMPI): communicator dup and free"],
  tech="TLA+ reference model of handles; TLC behaviours replayed on real MPI ranks with PMPI capture",
  note="All behaviours of 3 handles up to the bounded length plus random long ones.")

P("P09", "Blocking collectives and point-to-point calls deliver the exact data",
  "Blocking send/receive, broadcast, reduce and all-reduce deliver on every participating rank exactly what their definition prescribes, for every root, operation, element type and contiguous or strided buffer, in-place or not. Buffers that are only read, ranks that are not recipients, and the gaps of strided buffers stay untouched.",
  ["inputs", "configurations"], "all communicator sizes, roots, operations, element types and buffer layouts",
  "The MPI tests that exist for these wrappers use two fixed roots and a few layouts; most cannot be built here at all.",
  [I + "communication/sync/basic.h", I + "communication/sync/reduce.h", I + "communication/sync/all_reduce.h", I + "communication/message.h"],
  [("contiguous staging of strided buffers", I + "communication/sync/reduce.h, all_reduce.h")],
  tech="TLA+ model of collective semantics over layouts; TLC cases replayed under mpirun",
  note="All layout pairs up to the bound x all roots on 1..4 ranks, operations and element types in rotation; integer-valued data, so no rounding enters.")

P("P10", "Scoped BLAS thread limits nest and restore",
  "While any single-thread scope is alive on a thread the numerical library and OpenMP run with one thread, and after the last nested scope ends the thread counts are exactly those in force before it began, for every nesting and every intermediate change made by the program.",
  ["histories"], "all sequences of opening and closing scopes and of changing the thread counts in between",
  "The test opens one scope once.",
  [I + "common/single_threaded_blas.h", "src/common/single_threaded_blas.cpp"],
  [("save/restore in constructor/destructor", "src/common/single_threaded_blas.cpp")],
  tech="TLA+ stack model; TLC behaviours replayed", note="All behaviours up to the bounded length.")

P("P11", "A matrix distribution partitions the matrix over the processes",
  "For every matrix size, tile size, block size, process grid, source rank and offset, every element belongs to exactly one tile and one process, the local sizes and tile counts reported by all processes add up to the whole matrix, tile sizes agree with the elements they hold, and all global/local/element/tile conversions and range queries are consistent with that single assignment. Parameters and indices outside their domain stop the program in checked builds.",
  ["configurations", "inputs"], "all distribution parameters on every rank, empty matrices and partial tiles included",
  "Tests use tables of examples and cannot be built in this environment; the statement quantifies over all parameters and all ranks together.",
  [I + "matrix/distribution.h", "src/matrix/distribution.cpp", I + "matrix/distribution_extensions.h", I + "matrix/util_distribution.h"],
  [("two independent one-dimensional block-cyclic maps", I + "matrix/distribution.h")],
  tech="TLA+ two-dimensional dealing model, every dealt table replayed into Distribution on every rank",
  note="All one-dimensional configurations up to the bounds in checks/distgen.py plus random larger ones; larger offsets and 64-bit lengths through the cycle and scaling laws TLC checks on the model.")

P("P12", "A sub-matrix is distributed exactly as its region of the parent",
  "For every parent distribution and every region of it, the distribution of the sub-matrix places each element on the same process as the parent does, its tiles are the parent tiles clipped to the region, and translating tile and element indices between both is consistent. A region that does not fit into the parent stops the program in checked builds.",
  ["configurations", "inputs"], "all parents and all regions, including empty ones and regions starting or ending inside tiles",
  "Tests use a table of examples and cannot be built in this environment.",
  ["src/matrix/distribution.cpp", I + "matrix/distribution.h", I + "matrix/matrix_ref.h"],
  [("normalised source rank and offsets", "src/matrix/distribution.cpp: Distribution(Distribution, SubDistributionSpec)")],
  tech="TLA+ clipping model (proved equal to dealing with ghosts by TLC), clipped tables replayed",
  note="All regions of small parents, thinned regions of the others, random larger parents, scaled to 2^40 elements.")

P("P13", "A pipeline grants accesses in request order, writers alone",
  "Accesses to a pipelined resource are granted in the order in which they were requested: a read-write access runs alone and after all earlier accesses ended, consecutive reads may share, and each access observes the value left by the last earlier writer, for every schedule of the tasks. A sub-pipeline occupies one position of its parent: everything issued through it happens after earlier and before later parent accesses, and the parent gets the value back when the sub-pipeline is closed or goes away.",
  ["schedules", "histories"], "all histories of requests, releases and sub-pipelines and all task schedules",
  "Tests run one schedule per execution and cannot be built in this environment.",
  [I + "common/pipeline.h", I + "communication/communicator_pipeline.h"],
  [("async read-write mutex wrapped by a pipeline; parent access held by the sub-pipeline", I + "common/pipeline.h")],
  tech="TLA+ pipeline model (requests, grants, sub-pipelines), TLC behaviours replayed step by step and under random schedules",
  note="All behaviours up to the bounded length plus random long ones; the asynchronous mutex underneath is the stand-in of shim/.")

P("P14", "Tile accesses of a matrix take effect in program order",
  "For every program of tile reads and writes on a matrix and every schedule of the resulting tasks, each tile access sees exactly the contents left by the previous writes in program order, writers never overlap with other accesses to the same tile, accesses to different tiles do not wait for each other, and waiting for local tiles returns only when all earlier accesses are finished.",
  ["schedules", "programs"], "all access programs and all task schedules",
  "Tests observe one schedule; the guarantee is over all of them.",
  [I + "matrix/matrix.h", I + "matrix/tile_pipeline.h", I + "matrix/tile.h", I + "matrix/matrix.tpp"],
  [("one access pipeline per tile", I + "matrix/tile_pipeline.h: TilePipeline")],
  tech="TLA+ specification of tile accesses and views (TileAccess.tla) checked with TLC; TLC behaviours replayed step by step and under seeded schedules into the real matrices on a deterministic runtime",
  note="pika is represented by the deterministic stand-in of shim/; schedules are sampled by seed")

P("P15", "Sub-pipelined and retiled matrices are sequenced like one parent access",
  "Accesses through a sub-pipelined or retiled view of a matrix happen after all earlier and before all later accesses to the affected parent tiles, whenever they are issued; a retiled view exposes every element of the parent exactly once at its proper place, and marking a tile done or dropping the view releases the parent tiles.",
  ["schedules", "programs", "configurations"], "all nestings of views, retiling factors, access programs and schedules",
  "Tests run few nestings with one schedule.",
  [I + "matrix/matrix.h", I + "matrix/retiled_matrix.h", I + "matrix/matrix_ref.h"],
  [("parent tile access split into disjoint sub-tiles feeding new pipelines", I + "matrix/matrix.h")],
  tech="TLA+ specification of tile accesses and views (TileAccess.tla) checked with TLC; TLC behaviours replayed step by step and under seeded schedules into the real matrices on a deterministic runtime",
  note="pika is represented by the deterministic stand-in of shim/; schedules are sampled by seed")

P("P16", "Sub-tiles map to the right elements and keep their tile alive",
  "Splitting a tile yields views that address exactly the specified elements of the original, and the access to the original tile is released only after the last of the views is gone, in whatever order they are released; a tile given out for writing regains its full extent afterwards.",
  ["schedules", "inputs", "histories"], "all split specifications and all release orders",
  "Tests release in one order only.",
  [I + "matrix/tile.h", I + "matrix/tile.tpp"], [("views share ownership of the wrapped access", I + "matrix/tile.h")],
  tech="TLA+ specification of tile accesses and views (TileAccess.tla) checked with TLC; TLC behaviours replayed step by step and under seeded schedules into the real matrices on a deterministic runtime",
  note="pika is represented by the deterministic stand-in of shim/; schedules are sampled by seed")

P("P17", "A process grid puts every participating process at exactly one position",
  "Building a process grid gives each participating process a unique position consistent with the requested ordering, row/column/full communicators contain exactly the processes of that row/column/grid in positional order, surplus processes get an empty grid, and rank translations between grid positions and communicators are inverse to each other.",
  ["configurations"], "all grid shapes, orderings and surplus processes",
  "Tests run on one fixed number of ranks and cannot be built in this environment.",
  [I + "communication/communicator_grid.h", "src/communication/communicator_grid.cpp"],
  [("communicator splits by row and column", "src/communication/communicator_grid.cpp")],
  tech="TLA+ model of grid construction, TLC tables replayed on every rank",
  note="All grid shapes, orderings and surplus up to the bound, with clones, transposed numbering and pipelines.")

P("P18", "Asynchronous communication matches across ranks and delivers exact tiles",
  "Tile broadcasts, reductions, all-reductions and point-to-point transfers issued in the same order on all ranks complete without deadlock for every local task schedule and deliver exactly the tiles their definition prescribes; operations on one communicator are issued in request order, and operations on distinct pipelines of a grid never interfere.",
  ["schedules", "configurations"], "all task schedules on every rank and all operation sequences",
  "Tests run one schedule per execution and cannot be built in this environment.",
  [I + "communication/kernels/", I + "communication/communicator_pipeline.h", I + "sender/transform_mpi.h", I + "sender/with_temporary_tile.h"],
  [("exclusive pipeline access until the operation has been posted", I + "sender/transform_mpi.h")],
  tech="TLA+ model of programs of asynchronous operations (Communications.tla): deadlock-freedom model-checked over all interleavings of small programs; larger generated programs replayed on the real kernels under random schedules",
  note="Broadcast, reduce, all-reduce (in and out of place), point-to-point (shared and exclusive turns), pairwise sums, on six pipelines of three communicators, with local work in between; the message layer of the shim matches strictly (communicator, order, sizes) and reports a stuck run.")

P("P19", "A panel exposes the right tiles of its range, internal or linked",
  "A row or column panel gives access to exactly the tiles of its current range with the sizes of the parent matrix clipped to the requested start and width, a linked external tile is read in place of the internal one until reset, and after reset the panel behaves like a fresh one.",
  ["histories", "configurations"], "all histories of range, width, link, access and reset operations on all distributions",
  "Tests follow a few scripted histories.",
  [I + "matrix/panel.h"], [("internal tile storage with optional external links", I + "matrix/panel.h: Panel")],
  tech="model-based: TLC enumerates panel histories (bounded-exhaustive and random long), replayed on the real panels",
  note="Panels.tla specifies the workspace of column/row panels (ranges, offsets, widths, external tiles, reads/writes) over distributions with offsets; every history is run on the real Panel and compared element for element, including ranks which own nothing.")

P("P20", "Panel broadcast gives every rank the tiles of its rows and columns",
  "After broadcasting a panel (and its transposed counterpart) each rank reads, in every local position of both panels, the tile the root panel holds for that global index, for every grid shape, root, range and schedule.",
  ["schedules", "configurations"], "all grid shapes, roots, ranges and task schedules",
  "Tests run a few grids and one schedule.",
  [I + "communication/broadcast_panel.h"], [("two-step broadcast through the diagonal", I + "communication/broadcast_panel.h: broadcast")],
  tech="TLA+ protocol of the two-step broadcast (exhaustive in TLC: everybody gets the right tile, no deadlock); TLC rounds replayed into the real panels under random schedules",
  note="PanelBroadcast.tla: message-level protocol for small grids and several rounds in flight, plus rounds (ranges starting inside tiles, widths, linked and own tiles, roots, reused workspaces) whose readings on every process are compared element by element.")

P("P21", "Matrix copies and redistributions preserve every element",
  "Copying a matrix, a sub-matrix or between different distributions on the same process grid leaves in the destination exactly the source elements at the same global positions, changes nothing outside the copied region, and leaves the source intact, for every schedule.",
  ["schedules", "configurations", "inputs"], "all pairs of compatible distributions, regions and schedules",
  "Tests run a table of distributions with one schedule and cannot be built here.",
  [I + "matrix/copy.h", I + "matrix/copy_tile.h", I + "matrix/matrix_mirror.h"],
  [("retiling both sides to a common tile size and point-to-point transfers", I + "matrix/copy.h")],
  tech="TLA+ state machine of element movement (DataMovement.tla); TLC behaviours replayed into the library under random schedules",
  note="Copies of matrices, of ranges of local tiles, of sub-matrices and redistributions between all compatible tile sizes and source ranks, mixed with setters; every element of all registers is compared.")

P("P22", "Tiles of one allocation never overlap and stay within it",
  "For every local matrix size, tile size and storage layout, the library places distinct local elements at distinct memory positions inside the allocated storage, honours the documented layout and leading dimensions, and accepts user-provided storage only when its description is consistent.",
  ["inputs", "configurations"], "all sizes, tile sizes, leading dimensions and layouts",
  "Tests use a table of sizes.",
  [I + "matrix/allocation.h", I + "matrix/col_major_layout.h", I + "matrix/check_allocation.h", I + "matrix/create_matrix.h"],
  [("layout objects computing tile offsets", I + "matrix/")],
  tech="TLA+ model of placements (proved overlap-free by TLC), every placement replayed into matrices",
  note="All combinations of small local parts, layouts and leading dimensions, thinned; library-allocated, user-provided column-major and user-mapped storage; layout recognition on right and perturbed storage.")

P("P23", "Cholesky factorisation is exact on exact inputs, whatever the schedule",
  "Factorising a Hermitian positive definite matrix whose factor is exactly representable returns that factor bit for bit in the requested triangle and leaves the opposite triangle untouched, independently of the tile size, process grid and order in which tasks run, and always terminates.",
  ["schedules", "configurations", "inputs"], "all task schedules, tile sizes, process grids and exactly representable inputs",
  "Tests compare with tolerance on one schedule.",
  [I + "factorization/cholesky/impl.h", I + "factorization/cholesky.h"],
  [("task dependencies through tile pipelines", I + "factorization/cholesky/impl.h")],
  tech="TLA+ state machine of exact matrix algebra (ExactAlgebra.tla); TLC behaviours replayed into the algorithms under random schedules",
  note="Behaviours of factorisations, followed by solves, on random exactly representable matrices; local and distributed, real and complex, all calls in flight at once. Every element of all six registers is compared exactly.")

P("P24", "Triangular solves are exact on exact inputs, whatever the schedule",
  "Solving a triangular system with an exactly representable solution returns that solution bit for bit for every side, triangle, operation and diagonal choice, independently of tile size, process grid and schedule; the triangular matrix is not modified.",
  ["schedules", "configurations", "inputs"], "all task schedules, options, tile sizes and process grids",
  "Tests compare with tolerance on one schedule.",
  [I + "solver/triangular/impl.h", I + "solver/triangular.h"], [("task dependencies through tile pipelines", I + "solver/triangular/impl.h")],
  tech="TLA+ state machine of exact matrix algebra (ExactAlgebra.tla); TLC behaviours replayed into the algorithms under random schedules",
  note="Behaviours of solves with every side, triangle, operation and diagonal, on whole and sub-matrices, local with several tiles per block and distributed. Every element of all six registers is compared exactly.")

P("P25", "Matrix products are exact on exact inputs, whatever the schedule",
  "General, Hermitian and triangular matrix products (including on sub-matrices) of small-integer matrices equal the mathematical result bit for bit for every option, tile size, process grid and schedule, with nothing outside the result region changed.",
  ["schedules", "configurations", "inputs"], "all task schedules, options, tile sizes and process grids",
  "Tests compare with tolerance on one schedule.",
  [I + "multiplication/general/impl.h", I + "multiplication/hermitian/impl.h", I + "multiplication/triangular/impl.h"],
  [("task dependencies through tile pipelines", I + "multiplication/")],
  tech="TLA+ state machine of exact matrix algebra (ExactAlgebra.tla); TLC behaviours replayed into the algorithms under random schedules",
  note="General, Hermitian and triangular products, on sub-matrices, local and distributed, chained without waiting. Every element of all six registers is compared exactly.")

P("P26", "Triangular and Cholesky-based inverses are exact on exact inputs",
  "Inverting an exactly invertible triangular matrix, or a matrix from its exact Cholesky factor, returns the inverse bit for bit in the requested triangle, leaves the opposite triangle untouched, and does so for every tile size, process grid and schedule.",
  ["schedules", "configurations", "inputs"], "all task schedules, options, tile sizes and process grids",
  "Tests compare with tolerance on one schedule.",
  [I + "inverse/triangular/impl.h", I + "inverse/cholesky/impl.h"], [("task dependencies through tile pipelines", I + "inverse/")],
  tech="TLA+ state machine of exact matrix algebra (ExactAlgebra.tla); TLC behaviours replayed into the algorithms under random schedules",
  note="Triangular inverses and inverses from Cholesky factors, chained with products, local and distributed. Every element of all six registers is compared exactly.")

P("P27", "Reduction of the generalised to the standard problem is exact on exact inputs",
  "Transforming a generalised Hermitian problem with exactly representable data yields the standard-form matrix bit for bit in the requested triangle for every tile size, process grid and schedule, and the factor is not modified.",
  ["schedules", "configurations", "inputs"], "all task schedules, tile sizes and process grids",
  "Tests compare with tolerance on one schedule.",
  [I + "eigensolver/gen_to_std/impl.h"], [("task dependencies through tile pipelines", I + "eigensolver/gen_to_std/impl.h")],
  tech="TLA+ state machine of exact matrix algebra (ExactAlgebra.tla); TLC behaviours replayed into the algorithms under random schedules",
  note="Reductions to standard form chained with factorisations, local and distributed; the factor and the other triangle are compared too. Every element of all six registers is compared exactly.")

P("P28", "Row and column permutations move exactly the permuted entries",
  "Applying a permutation to the rows or columns of a tile range places each row or column exactly where the permutation says, leaves everything outside the range unchanged, and gives the same result for every tile size, process grid and schedule.",
  ["schedules", "configurations", "inputs"], "all permutations, tile ranges, distributions and schedules",
  "Tests use a reversal permutation and few sizes.",
  [I + "permutations/general/impl.h", I + "permutations/general.h"], [("index-table driven gather/scatter with pack/unpack", I + "permutations/general/impl.h")],
  tech="TLA+ state machine of element movement (DataMovement.tla); TLC behaviours replayed into the library under random schedules",
  note="Identities, rotations, swaps and random permutations of rows and columns of diagonal ranges, local, distributed, and per-process; indices outside of the range are poisoned.")

P("P29", "Matrix norms and element setters touch exactly the right elements",
  "The max norm of a matrix or triangle equals the largest magnitude among exactly the elements the request covers, on the requested rank, and matrix initialisation helpers write exactly the elements of the requested region with the value of their global position, for every distribution and schedule.",
  ["schedules", "configurations", "inputs"], "all distributions, triangles, regions and schedules",
  "Tests use few sizes and one schedule.",
  [I + "auxiliary/norm/mc.h", I + "util_matrix.h"], [("per-tile norms reduced over the grid", I + "auxiliary/norm/mc.h")],
  tech="TLA+ state machine of element movement (DataMovement.tla); TLC behaviours replayed into the library under random schedules",
  note="set, set0, identity, max norms on every root and the random setters (uninterpreted values: the same as on a local matrix, with the promised structure).")

P("P30", "Grid contexts of the C interface always denote the grid they were created for",
  "For every history of creating and freeing process grids through the C interface, the identifiers of simultaneously existing grids are distinct, each identifier keeps denoting the grid it was created for until that grid is freed, freeing one grid affects no other, and freed or unknown identifiers are refused.",
  ["histories"], "all histories of create, free and free-all",
  "Tests create and free grids in one fixed order.",
  ["src/c_api/grid.cpp", "src/c_api/utils.cpp"], [("map from context to grid", "src/c_api/grid.cpp: dlaf_grids")],
  tech="TLA+ model of the context table, TLC histories replayed through the C interface on every rank",
  note="All histories up to the bounded length plus random long ones.")

P("P31", "Configuration sources combine with the documented precedence",
  "Every runtime option takes its value from the command line if given there, otherwise from the environment, otherwise from the user's configuration, otherwise from the default, independently of all other options, and initialisation and finalisation alternate, with everything acquired by one released by the other.",
  ["configurations", "histories"], "all combinations of option sources; all histories of initialise and finalise",
  "No test varies the sources.",
  ["src/init.cpp", I + "init.h", I + "tune.h"], [("single update routine per option", "src/init.cpp: updateConfiguration")],
  tech="TLA+ model of option sources and sessions, TLC behaviours replayed for every pair of options",
  note="All short behaviours for every pair of option kinds plus random long ones, over all pairs of real options; where the values end up (printed configuration, memory pools) is checked too.")

P("P32", "The eigensolver pipeline is deterministic and deadlock-free",
  "Every stage of the Hermitian eigensolver (band reduction, tridiagonalisation, tridiagonal solve, back-transformations) terminates and returns the same result for every order in which its tasks, helper threads and messages are scheduled.",
  ["schedules", "configurations"], "all task schedules on all process grids",
  "Tests run one schedule per execution.",
  [I + "eigensolver/"], [("tile pipelines, semaphores between sweeps, barriers between helper threads", I + "eigensolver/")],
  tech="TLA+ model of the dependencies and workers of the distributed band reduction (termination) and exact eigenproblems from TLA+ replayed under many schedules with one and more workers",
  note="The model proves that one worker per process is enough with the trigger and finds the deadlock without it; the real pipeline and every stage run on simulated processes under schedules drawn from nine strategies, half of them with a single worker, and must end with the same outcome.")

P("P33", "Computed eigenpairs satisfy the eigenvalue equation to working accuracy",
  "Computed eigenvalues (ascending, the same on all processes) and eigenvectors satisfy the (generalised) Hermitian eigenvalue equation and orthogonality up to a small multiple of the machine precision, the requested leading part of the spectrum only is returned, and every stage (band reduction, tridiagonalisation, tridiagonal solve, back-transformations) satisfies its similarity relation, for local and distributed matrices, every tile size, band size, process grid and allocation layout.",
  ["inputs", "configurations"], "all Hermitian inputs and configurations",
  "Tests sample random matrices and cannot be built here.",
  [I + "eigensolver/"], [("numerically stable algorithms on tiles", I + "eigensolver/")],
  tech="exact Hermitian problems with known spectrum built by a TLA+ specification, replayed into the eigensolvers and every stage",
  note="Unitary matrices, spectra, definite factors and banded or tridiagonal forms are exact in the specification (invariants checked by TLC); the library's results are compared with them on every process.")

P("P34", "The tridiagonal merge bookkeeping is a consistent relabelling",
  "In each merge of the divide-and-conquer tridiagonal solver the deflation classification, sorting and column-type grouping are permutations of the problem's indices that keep eigenvalues and eigenvector columns paired, order eigenvalues ascending, and separate deflated from non-deflated entries, for every classification pattern.",
  ["inputs", "schedules"], "all classification patterns, sizes and splits",
  "Tests check selected patterns and cannot be built here.",
  [I + "eigensolver/tridiag_solver/merge.h", I + "eigensolver/tridiag_solver/index_manipulation.h", I + "eigensolver/tridiag_solver/coltype.h"],
  [("index tables composed by gather", I + "eigensolver/tridiag_solver/merge.h")],
  tech="deflation walk, orders and exact rank-one merges of a TLA+ specification replayed into the merge step; recorded merge trees checked by TLC",
  note="Exact rational walk with all index tables for every process column, and whole merges (local and distributed, random schedules) whose deflated eigenpairs are known exactly.")

P("P35", "Memory views keep their memory alive and address the right elements",
  "Memory that the library allocated for a view exists exactly as long as some view or subview of it does, memory of the caller is never released, copies, moves, subviews (also of views that may not write) and assignments (also to itself or of its own parts) show exactly the elements they denote, moved-from views are empty, and a chunk of memory has exactly one owner.",
  ["histories"], "all histories of creating, copying, moving, shrinking and destroying views and chunks",
  "Tests exercise each operation once, in isolation.",
  [I + "memory/memory_view.h", I + "memory/memory_chunk.h"], [("chunk shared by reference count, offset and size per view", I + "memory/memory_view.h")],
  tech="TLA+ model of pieces of memory and the views that show them, TLC histories replayed with the pool observed",
  note="All histories to the bound plus random long ones; after each step size, address, contents of every view and the set of pieces that are still allocated are compared.")

P("P36", "The C interface does what the library does on the described matrix",
  "Each call of the C interface (with DLA-Future or ScaLAPACK-like arguments) acts on exactly the global matrix that its descriptor and context describe (leading dimension, block size, source process, order of the grid), with the effect of the corresponding library routine, writes nothing else, returns only when the results are complete on the calling process and reports success, resumes the task runtime for the call and leaves it suspended, and grids can be created, looked up and freed in any order.",
  ["inputs", "histories", "schedules"], "all descriptors and histories of grids and calls",
  "Tests make one call per grid and cannot be built here.",
  ["src/c_api/", "include/dlaf_c/"], [("descriptor turned into a distributed matrix on the caller's memory, runtime resumed around the call", "src/c_api/")],
  tech="TLA+ model of programs of the C interface (grids, descriptors, runtime, calls), TLC behaviours replayed into the real interface",
  note="Programs of several calls over several grids with both forms of arguments; the local memory of every process including padding and everything outside of the matrix, return values and the state of the runtime are compared after each call.")

P("P37", "Block reflectors act exactly as the product of their reflectors",
  "The triangular factor computed for a panel of reflectors, and the back-transformations that apply groups of reflectors, represent exactly the product of the single reflectors in the documented order, for every panel shape, bandwidth, group size, process grid and number of workers, and change nothing outside of the rows the reflectors cover.",
  ["inputs", "configurations", "schedules"], "all panels, groupings and grids",
  "Tests compare with a tolerance on few shapes and cannot be built here.",
  [I + "factorization/qr/t_factor_impl.h", I + "eigensolver/bt_reduction_to_band/impl.h", I + "eigensolver/bt_band_to_tridiag/impl.h"],
  [("compact WY representation built and applied by tiles", I + "factorization/qr/t_factor_impl.h")],
  tech="exact reflectors over Gaussian integers in a TLA+ specification, compact and column form proved equal by TLC, behaviours replayed bit for bit",
  note="Reflectors with exactly representable factors: the T factor of distributed panels, and both back-transformations with all groupings, have to agree bit for bit with the product of the reflectors.")

P("P38", "A call on matrices that do not fit together is refused before any work",
  "Every algorithm of the library, local or distributed, stops the program on the calling process before it has scheduled or done any work when its arguments do not satisfy its documented requirements (square matrices and tiles, one tile per block where needed, matching sizes and tiles, matrices on the right process grid, bandwidth that divides the block, range of the spectrum), and it carries out every call whose arguments satisfy them, including empty matrices.",
  ["inputs", "configurations"], "all combinations of sizes, tile and block sizes, grids and options",
  "Tests only make calls that fit.",
  [I + "factorization/cholesky.h", I + "solver/triangular.h", I + "multiplication/triangular.h", I + "multiplication/hermitian.h", I + "inverse/", I + "eigensolver/", I + "permutations/general.h", I + "auxiliary/norm.h", I + "util_matrix.h"],
  [("preconditions checked at the entry of every routine", I + "util_matrix.h")],
  tech="TLA+ contracts of all routines, closed under composition by TLC, calls one or two changes away from fitting ones made in the library",
  note="All calls one change away from fitting ones and a large part of those two changes away, each made in a process of its own: fitting calls complete, the others are refused with nothing scheduled.")

P("P39", "Matrices written out are read back and understood unchanged",
  "A matrix written to an HDF5 dataset puts every element there exactly once, by the process that owns it, with the value it has after all the work submitted before on the matrix; the dataset is not changed by later work; reading it back as a matrix of the same element type gives the same values on every distribution, tile size and process grid, and a dataset of another type or a distributed matrix in the file of one process is refused. The text of a printed matrix is accepted by numpy (or as comma separated values) and gives the elements of the matrix at their places, including values that are not finite. The records of their work that routines write on request hold what they were given and what they returned.",
  ["inputs", "configurations", "schedules"], "all distributions, element types, values and interleavings",
  "Tests cannot be built here, write and read with the same distribution, and print a few fixed matrices.",
  [I + "matrix/hdf5.h", "src/matrix/hdf5.cpp", I + "matrix/print_csv.h", I + "matrix/print_numpy.h", I + "matrix/print_gpu.h", I + "factorization/cholesky/impl.h", I + "inverse/triangular/impl.h", I + "inverse/cholesky/impl.h"],
  [("transfers of the tiles of a process", I + "matrix/hdf5.h"), ("printed text", I + "matrix/print_numpy.h")],
  tech="TLA+ model of datasets and matrices as unions of rectangles, generated programs replayed into the HDF5 routines over a recording stand-in, texts read back by independent readers",
  note="900 programs (thorough: more) under 3 schedules each on grids up to 3x2; every element read, every transfer and every refused call compared; numpy and csv texts parsed outside the library.")

P("P40", "A kernel on tiles does its operation on its tile and on nothing else",
  "Every kernel on tiles (products, rank updates, triangular products and solves, sums and scalings, copies of tiles and regions, norms, setting, Cholesky factor and inverse pieces, reduction to standard form, column scaling, tridiagonal eigenproblems) gives the exact result of its operation for all flags, sizes (empty ones included) and element types, changes nothing outside of its result (the other triangle, the rest of the tile's memory), reports the first failing column where it reports one, and stops the program without changing anything when the operands do not fit together; called directly, with a policy, or after a sender alike.",
  ["inputs", "configurations"], "all operands and flags",
  "Tests cannot be built here, use few sizes and compare with a tolerance.",
  [I + "blas/tile.h", I + "blas/tile_extensions.h", I + "lapack/tile.h", I + "lapack/tile_extensions.h", I + "util_blas.h", I + "util_lapack.h", I + "matrix/copy_tile.h"],
  [("kernels called on tiles", I + "blas/tile.h"), ("sizes taken from the operands", I + "util_blas.h")],
  tech="TLA+ definition of every kernel on one block of exact memory, generated sequences of calls replayed into the kernels and compared bit for bit",
  note="1200 sequences of 16 calls (thorough: more) of 25 kernels with drawn flags, sizes from 0 to 4, four element types and three ways of calling; the whole block of memory compared after every call.")

P("P41", "An asynchronous call runs once, on available inputs, and lets go of them",
  "A function handed to the helpers for asynchronous calls (transform in its plain, piped, lifted, detached and blocking forms, and the overloads made from a function) is called exactly once, when all its inputs are available, with their values in the given order and without wrappers, and never if an input failed, in which case the failure is the outcome. What was given up to the call (values, accesses, the function itself) is released when the function has returned, even while a continuation is still waiting; what was lent is the object itself and stays as it was. An operation through a temporary tile sees a tile of the same size, in one piece if required, with the content asked for, and afterwards the tile given holds what was asked for, is sent on, and no temporary memory is kept.",
  ["schedules", "histories", "inputs"], "all programs of calls, orders of events and failures",
  "Tests cannot be built here, and check single calls whose inputs are available at once.",
  [I + "sender/transform.h", I + "sender/when_all_lift.h", I + "sender/lift_non_sender.h", I + "sender/make_sender_algorithm_overloads.h", I + "sender/with_temporary_tile.h", I + "sender/policy.h", I + "common/unwrap.h", I + "common/consume_rvalues.h", I + "common/callable_object.h", I + "common/with_result_of.h"],
  [("release of what was given up", I + "common/consume_rvalues.h: ConsumeRvalues"), ("operation state dropped before the continuation", I + "sender/transform.h: transform"), ("temporary tile and its copies", I + "sender/with_temporary_tile.h: withTemporaryTile")],
  tech="TLA+ model of programs of asynchronous calls over events and a pipeline, and of temporary tiles, checked with TLC; behaviours replayed step by step into the helpers with every object's lifetime counted",
  note="All orders of events for programs of 2-4 calls in the model; 1200 programs of up to 6 calls (thorough: 9000) under 4 schedules each, all options of temporary tiles; wrappers of callables with all argument categories.")
