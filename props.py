"""The properties: written out to properties.jsonl and MANIFEST.json by gen.py."""
MC = "model checking: stateless bounded-exhaustive exploration of the real code"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, technique=technique, note=note, state=state, observe=observe))


RANKS = ("ranks run as fibers over an in-process MPI whose every scheduling and delivery decision is enumerated "
         "(delay-bounded); trusts that MPI model and the bounds listed in the evidence")

prop("C01", "Communicator operations mean the same under every rank schedule",
     "Every communicator operation (reductions, scans, broadcasts of values and strings, gathers, all-to-all and "
     "neighbourhood exchanges, blocking or through a future, duplication, splitting and graph communicators) returns "
     "what its definition says on every rank, for every interleaving of the ranks that MPI permits. "
     "No rank deadlocks, no message is lost, duplicated, left behind or delivered to the wrong rank, and a future "
     "reports completion exactly when its data have arrived.",
     ["schedules", "inputs", "configurations"],
     "all rank interleavings up to a deviation bound x all communication graphs on 2-4 ranks x all value types x eager and rendezvous sends",
     "The tests run one rank, or a few ranks under whatever timing the machine gives; they cannot enumerate arrival orders or graphs.",
     ["src/Omega_h_comm.cpp", "src/Omega_h_future.cpp", "src/Omega_h_bcast.cpp"],
     [("Comm", "src/Omega_h_comm.cpp"), ("Future", "src/Omega_h_future.cpp")],
     MC + " under all MPI schedules with bounded deviations", RANKS)

prop("C02", "Distributors deliver each item to exactly its destination",
     "A distributor built from any map of local items to (rank, index) destinations delivers every packet to exactly "
     "the destination the map names, its inverse delivers back to the senders, and reductions through it combine "
     "exactly the packets sent to each destination, for any packet width and for variable-size packets. "
     "This holds for every map, rank schedule, fan-out, change of communicator, and when a pending exchange outlives the distributor that began it.",
     ["inputs", "schedules", "histories"],
     "all item-to-destination maps on 2-4 ranks up to 5 items, all fans, all rank interleavings up to a deviation bound",
     "Unit tests exercise three hand-made maps with deterministic timing.",
     ["src/Omega_h_dist.cpp", "src/Omega_h_remotes.cpp", "src/Omega_h_owners.cpp", "src/Omega_h_linpart.cpp"],
     [("Dist", "src/Omega_h_dist.cpp")],
     MC + " over all maps and MPI schedules", RANKS)

prop("C03", "Repartitioning and ghosting never change the global mesh",
     "Whatever distribution a mesh starts from and whatever sequence of migrations, load balancing, vertex-based "
     "partitioning, ghosting with any number of layers, and communicator changes follows, the parts together are the same global mesh: "
     "the same entities, each with its vertex order, global number and tag values. "
     "Every entity has exactly one owner on which all copies agree, each rank holds exactly the elements its parting mode promises, "
     "synchronization gives every copy its owner's value, and reductions combine exactly the copies.",
     ["inputs", "histories", "schedules", "configurations"],
     "all element-to-rank assignments of ten small meshes on 2-4 ranks x all sequences of up to 3 redistribution operations; schedules up to a deviation bound",
     "Tests repartition one box mesh in one way; ownership and delivery depend on every assignment, history and arrival order.",
     ["src/Omega_h_migrate.cpp", "src/Omega_h_ghost.cpp", "src/Omega_h_owners.cpp", "src/Omega_h_mesh.cpp",
      "src/Omega_h_build.cpp", "src/Omega_h_bcast.cpp", "src/Omega_h_globals.cpp", "src/Omega_h_inertia.cpp"],
     [("migrate_mesh", "src/Omega_h_migrate.cpp"), ("ghost_mesh", "src/Omega_h_ghost.cpp"), ("update_ownership", "src/Omega_h_owners.cpp"),
      ("resolve_derived_copies", "src/Omega_h_build.cpp")],
     MC + " over all distributions, operation sequences and MPI schedules", RANKS)

prop("C08", "Derived adjacencies are exactly those of the element connectivity",
     "From any element-to-vertex connectivity the library derives each lower-dimensional entity exactly once, and every "
     "downward, upward, star and dual adjacency it reports is exactly the one the connectivity defines, with positions and "
     "alignment codes that reproduce the element's own vertex order, for simplices and hypercubes, whatever the vertex numbering, "
     "the orientation and rotation of each element, and the order in which adjacencies are requested. "
     "The built-in box generators give conforming, positively oriented meshes of exactly the box, classified on its boundary.",
     ["inputs", "histories"],
     "all sets of up to 3-4 ordered elements on up to 7 vertices, all rotations and numberings of hexes, all request sequences up to length 3-4",
     "Tests fix a couple of element pairs; alignment has one case per rotation, flip and position.",
     ["src/Omega_h_adj.cpp", "src/Omega_h_align.hpp", "src/Omega_h_align.cpp", "src/Omega_h_build.cpp", "src/Omega_h_simplex.hpp",
      "src/Omega_h_hypercube.hpp", "src/Omega_h_mesh.cpp", "src/Omega_h_box.cpp", "src/Omega_h_simplify.cpp", "src/Omega_h_sort.cpp"],
     [("reflect_down/invert_adj/transit", "src/Omega_h_adj.cpp"), ("alignment codes", "src/Omega_h_align.hpp")],
     MC + ": every connectivity up to a bound against a naive reference",
     "exhaustive within the listed bounds; the reference derivation in harness/meshkit.hpp is trusted")

prop("C18", "A mesh written to .osh reads back exactly, on as many ranks or more",
     "Writing a mesh to the .osh format and reading it gives back exactly the same mesh: connectivity and alignment, every tag's name, "
     "order, type, width and bits, ownership, partitioning mode and ghost layers, class sets, refinement parents and balancing hints. "
     "This holds for any number of writing ranks, for reading on the same number of ranks or on more, for every rank schedule, and for files "
     "in every version (1 to 9) of the format; once write() returns on any rank all parts are on disk, and strict reading refuses another number of ranks.",
     ["inputs", "schedules", "configurations"],
     "meshes of every family and dimension x tag sets with special values x metadata; all distributions on 2-3 parts x 1-4 readers; all format versions; schedules up to a deviation bound",
     "The round-trip tests write one box mesh on one rank; versions, partings and arrival orders are not covered.",
     ["src/Omega_h_file.cpp", "src/Omega_h_mesh.cpp", "src/Omega_h_filesystem.cpp"],
     [("binary::write/read", "src/Omega_h_file.cpp"), ("independent codec", "harness/image.hpp")],
     MC + " against an independent reader and writer of the format", RANKS)

prop("C19", "Failed writes and truncated files are always reported",
     "If any file operation fails while a mesh, visualization or text file is written, the writer reports failure; a writer that returns has "
     "put every byte on disk, also when the system writes less than asked or interrupts. "
     "A .osh, .vtu or .msh file cut short at any byte, or a missing part, is refused and never read as another mesh or out of bounds. "
     "After a crash at any operation a single-rank .osh directory reads as the old mesh, the new mesh or an error, and a restarted VTK time series still lists every step recorded before the restart time.",
     ["faults", "crash points", "inputs"],
     "every file operation of 9 writers x 5 failure modes; death at every operation x 4 torn writes; every proper prefix of the files",
     "No test injects a fault or truncates a file.",
     ["src/Omega_h_file.cpp", "src/Omega_h_vtk.cpp", "src/Omega_h_gmsh.cpp", "src/Omega_h_base64.cpp", "src/Omega_h_xml_lite.cpp", "src/Omega_h_filesystem.cpp"],
     [("binary::write/read", "src/Omega_h_file.cpp"), ("vtk::Writer", "src/Omega_h_vtk.cpp"), ("fault shim", "harness/c19_write.cpp")],
     "model checking: exhaustive enumeration of fault and crash points of the real code",
     "faults are injected at libc's write/open/close/mkdir; a crash keeps a prefix of the operations plus a torn last write")

prop("C04", "Adaptation does not depend on partitioning, ordering or timing",
     "Adapting the same mesh, global numbering, size field and fields gives bit for bit the same global mesh, numbering and field values "
     "on every number of ranks, for every assignment of elements to ranks (including ranks left empty), every local order, every schedule of the ranks "
     "and every order in which sums are combined. "
     "Each operation also reports the same result on every rank.",
     ["inputs", "schedules", "configurations"],
     "every assignment of 4-6 elements to 2-3 ranks x size fields x isotropy; operation sequences on 2-4 ranks; local orders; all schedules with bounded deviations",
     "Tests compare a few fixed runs with stored files on one or two partitionings.",
     ["src/Omega_h_adapt.cpp", "src/Omega_h_modify.cpp", "src/Omega_h_indset.cpp", "src/Omega_h_coarsen.cpp", "src/Omega_h_refine.cpp",
      "src/Omega_h_swap2d.cpp", "src/Omega_h_swap3d.cpp", "src/Omega_h_migrate.cpp", "src/Omega_h_conserve.cpp", "src/Omega_h_coarsen_flip.cpp"],
     [("modify_globals", "src/Omega_h_modify.cpp"), ("find_indset", "src/Omega_h_indset.cpp"), ("set_owners_by_indset", "src/Omega_h_modify.cpp")],
     MC + " over all partitions, orders and MPI schedules against the serial run", RANKS)

prop("C13", "Adaptation always leaves a valid mesh of the same domain",
     "After any refinement, coarsening, swapping, sliver removal, warp, metric approach or full adaptation, the mesh is conforming with consistent adjacencies, all elements have positive size, "
     "every region, boundary face, edge and corner of the model is covered exactly as before, and every entity is classified on the model entity it lies on. "
     "An operation reports a change exactly when it made one, and cavities are refilled with elements of the same total size.",
     ["inputs", "histories", "configurations"],
     "1D-3D meshes of one to three regions x every choice of up to 4 sizes per vertex, isotropic and anisotropic x every option set x all sequences of up to 2-4 operations",
     "Tests adapt a box to a few smooth size fields; cavity topology depends on the combination of sizes, options and history.",
     ["src/Omega_h_adapt.cpp", "src/Omega_h_refine.cpp", "src/Omega_h_refine_topology.cpp", "src/Omega_h_coarsen.cpp", "src/Omega_h_coarsen_topology.cpp",
      "src/Omega_h_check_collapse.cpp", "src/Omega_h_collapse.hpp", "src/Omega_h_swap2d.cpp", "src/Omega_h_swap3d.cpp", "src/Omega_h_swap3d_topology.cpp", "src/Omega_h_modify.cpp",
      "src/Omega_h_transfer.cpp", "src/Omega_h_class.cpp", "src/Omega_h_indset.cpp"],
     [("refine", "src/Omega_h_refine.cpp"), ("coarsen", "src/Omega_h_coarsen.cpp"), ("swap", "src/Omega_h_swap3d_topology.cpp"), ("collapse rules", "src/Omega_h_check_collapse.cpp")],
     MC + " over all size assignments and operation sequences with an exact model oracle",
     "exhaustive within the listed bounds on meshes of up to 16 (2D) or 14 (3D) initial elements; the domain is a union of boxes so that classification is decided exactly")

prop("C14", "Adaptation never breaks the quality and length limits it promises",
     "Refinement and coarsening never create an element below the allowed quality, coarsening and swapping never create an edge above the allowed length, "
     "and a swap or sliver collapse replaces a cavity only by one whose worst quality is strictly better, so good input quality stays good. "
     "Lengths, qualities and sizes kept with the mesh always equal those measured from its coordinates and metric.",
     ["inputs", "histories", "configurations"],
     "the space of C13, every rebuilt cavity watched",
     "Tests look at final quality of a few runs, not at every cavity that is rebuilt.",
     ["src/Omega_h_adapt.cpp", "src/Omega_h_quality.cpp", "src/Omega_h_quality.hpp", "src/Omega_h_shape.hpp", "src/Omega_h_coarsen_qualities.cpp", "src/Omega_h_refine_qualities.cpp",
      "src/Omega_h_swap2d_qualities.cpp", "src/Omega_h_swap3d_qualities.cpp", "src/Omega_h_coarsen_overshoot.cpp", "src/Omega_h_swap.cpp", "src/Omega_h_mesh.cpp"],
     [("measure_qualities", "src/Omega_h_quality.cpp"), ("filters", "src/Omega_h_coarsen.cpp"), ("react_to_set_tag", "src/Omega_h_mesh.cpp")],
     MC + " with a monitor on every cavity", "exhaustive within the listed bounds; qualities in anisotropic metrics are recomputed by the library itself, in isotropic ones independently")

prop("C15", "Adaptation transfers every field as its kind of transfer promises",
     "Through any adaptation, fields interpolated linearly reproduce linear functions exactly, inherited fields follow classification, pointwise values are old values, "
     "densities keep their integral over every region and constants stay constant, conserved quantities and momentum keep their totals, and metrics stay positive definite. "
     "Every new entity receives its value from exactly one source: either it was kept, or it belongs to one rebuilt cavity.",
     ["inputs", "histories"],
     "the space of C13, with fields of every transfer kind and type on every dimension",
     "Tests check conservation on two or three meshes; errors appear for particular cavity shapes only.",
     ["src/Omega_h_transfer.cpp", "src/Omega_h_conserve.cpp", "src/Omega_h_metric.cpp", "src/Omega_h_r3d.hpp", "src/Omega_h_fit.hpp", "src/Omega_h_map.cpp"],
     [("transfer_*", "src/Omega_h_transfer.cpp"), ("correct_integral_errors", "src/Omega_h_conserve.cpp"), ("intersect_simplices", "src/Omega_h_r3d.hpp")],
     MC + " over all size assignments and operation sequences with exact field oracles",
     "exhaustive within the listed bounds; equalities of integrals to a relative 1e-9")

prop("C16", "Entities are marked and chosen as defined, however they are distributed",
     "Marking entities up or down the dimensions, by class, by the closure of classes (given as such or by the names of sets) or in layers around marked elements marks exactly the entities of the definition, each copy of an entity alike, whatever the distribution and the parting; counts count every entity once. "
     "The independent set chosen among candidates holds no two neighbors, leaves out no candidate without a better or chosen neighbor, prefers quality and then global numbers, and is the same for every distribution and schedule.",
     ["inputs", "distributions", "schedules"],
     "every graph of up to 4-5 nodes x qualities x candidates x numberings; every pair of marked entities and every pair of classes on 4-6 meshes x every distribution over up to 2-3 ranks x 3-4 partings; schedules with 1-2 deviations",
     "Tests mark a few entities of a box and choose one independent set.",
     ["src/Omega_h_mark.cpp", "src/Omega_h_indset.cpp", "src/Omega_h_indset_inline.hpp", "src/Omega_h_graph.cpp"],
     [("find_indset", "src/Omega_h_indset.cpp"), ("mark_class_closures", "src/Omega_h_mark.cpp")],
     MC + " against set definitions and the greedy independent set", RANKS)

prop("C17", "Adaptive refinement of boxes keeps an exact tree of cells",
     "After any sequence of amr::refine, derefine and balanced refinement of box meshes, the mesh holds exactly the cells the operations call for and exactly their sides, each once, at the right place, "
     "with level, leaf mark, parent and position code, classification, and unique global numbers; derefining undoes refining, and balancing yields the smallest refinement in which neighbors differ by at most one level. "
     "Inherited and linearly interpolated tags keep their values, and a refinement on several ranks gives the parts of the serial mesh with consistent owners, for every partitioning and schedule.",
     ["inputs", "histories", "schedules"],
     "1D-3D boxes of 1-4 cells, every sequence of 2-4 operations over every choice of marked cells; every assignment to 2 and 4 ranks; schedules up to a deviation bound",
     "Tests refine one box twice and look at counts.",
     ["src/Omega_h_amr.cpp", "src/Omega_h_amr_topology.cpp", "src/Omega_h_amr_transfer.cpp", "src/Omega_h_hypercube.hpp", "src/Omega_h_hypercube.cpp", "src/Omega_h_modify.cpp", "src/Omega_h_unmap_mesh.cpp"],
     [("refine/derefine/enforce_2to1_refine", "src/Omega_h_amr.cpp"), ("codes of parents", "src/Omega_h_hypercube.hpp"), ("tree of boxes as oracle", "harness/c17_amr.cpp")],
     MC + " of operation sequences against a tree of lattice boxes", RANKS)

prop("C21", "A Gmsh file is read as exactly the mesh and groups it describes",
     "Reading a Gmsh .msh file (2.2 text and binary of either byte order, 4.0 and 4.1 text) yields exactly the elements, coordinates, classification and named physical groups it describes, "
     "for lines, triangles, quadrilaterals, tetrahedra and hexahedra, whatever the numbering and order of nodes and elements, the names of the groups, and the optional data and sections. "
     "Reading on several ranks yields the same global mesh, and a written mesh describes, and reads back as, itself.",
     ["inputs", "configurations"],
     "11 meshes x 5 encodings x 3 group structures x 4 kinds of names x numberings x orders x optional data, read on 1, 2 and 4 ranks",
     "Tests read a handful of small files of one layout each.",
     ["src/Omega_h_gmsh.cpp", "src/Omega_h_class.cpp", "src/Omega_h_build.cpp", "src/Omega_h_mesh.cpp", "src/Omega_h_bcast.cpp"],
     [("gmsh::read", "src/Omega_h_gmsh.cpp"), ("independent emitter and parser", "harness/c21_gmsh.cpp")],
     MC + " against an independent emitter and parser of the format", RANKS)

prop("C20", "VTK files say exactly what the mesh holds and read back as it",
     "Every .vtu piece holds exactly the mesh part it was written from (points, cells of the chosen dimension, ownership, ghost marks and the bits of every requested tag), compressed or not, and the .pvtu and .pvd files list exactly the pieces, arrays and steps that exist. "
     "Reading them, in either byte order and on as many ranks or more, restores the same partitioned mesh with its element and vertex tags and valid ownership and ghosts. "
     "This holds for every family, dimension, partitioning and sequence of steps and restarts, and for every rank schedule.",
     ["inputs", "schedules", "histories"],
     "6 meshes x cells of every dimension x tag sets and widths x encodings; all distributions on 2-3 parts x readers x partings; all step/restart sequences to depth 3; schedules up to a deviation bound",
     "Tests write files and compare one of them byte by byte; reading back is checked for one box mesh.",
     ["src/Omega_h_vtk.cpp", "src/Omega_h_base64.cpp", "src/Omega_h_xml_lite.cpp", "src/Omega_h_build.cpp", "src/Omega_h_owners.cpp", "src/Omega_h_mesh.cpp", "src/Omega_h_filesystem.cpp"],
     [("vtk::write_parallel/read_parallel", "src/Omega_h_vtk.cpp"), ("independent XML, base64 and zlib reader", "harness/c20_vtk.cpp")],
     MC + " against an independent reader of the format",
     RANKS + "; tag names without quotes; 2D fields of 6 components are 3D tensors to this format and not restored; a restarted writer numbers its steps from 0 unless told the step")

ONE = "single rank; exhaustive within the listed bounds, deterministic code beyond the enumerated choices"

prop("C07", "Reproducible sums do not depend on order, distribution or schedule",
     "repro_sum and everything summed with it yields the same bits for every order of the values, every distribution of them over ranks, every rank schedule and every order in which MPI combines contributions. "
     "The result is within one fixed-point unit per value (2^-52 of the power of two above the largest value) of the exact sum, and exact when the values are multiples of that unit, over the whole range of finite doubles. "
     "The 128-bit integer it is built on behaves as a 128-bit two's complement integer.",
     ["inputs", "schedules", "configurations"],
     "all multisets and orders of up to 5-7 of 17 extreme values; all placements on 2-3 ranks x reduction orders x schedules; long runs that carry; sums over every distribution of small meshes",
     "Tests add a few friendly numbers in one order on one rank.",
     ["src/Omega_h_array_ops.cpp", "src/Omega_h_int128.hpp", "src/Omega_h_int128.cpp", "src/Omega_h_comm.cpp", "src/Omega_h_mesh.cpp"],
     [("repro_sum", "src/Omega_h_array_ops.cpp"), ("Comm::add_int128", "src/Omega_h_comm.cpp")],
     MC + " against exact integer arithmetic", RANKS)

prop("C09", "Array, map, sort, scan and graph primitives equal their definitions",
     "Every data-parallel primitive (element-wise arithmetic and comparison, reductions, maps and their inverses, fans, scans, stable multi-key sorting, marking and collecting, graph union, filtering and reduction, linear partitions) returns exactly what its element-by-element definition gives. "
     "This holds for arrays of every length including none, every element type and width, every map and fan including empty rows, and rows of any length.",
     ["inputs"],
     "all arrays, maps, fans and graphs up to 3-7 items over small alphabets that include the extreme values, 4 types, widths 1-3; rows of up to 300 edges",
     "Tests call each primitive once or twice with one array.",
     ["src/Omega_h_array_ops.cpp", "src/Omega_h_map.cpp", "src/Omega_h_sort.cpp", "src/Omega_h_int_scan.cpp", "src/Omega_h_scan.hpp", "src/Omega_h_reduce.hpp", "src/Omega_h_graph.cpp", "src/Omega_h_array.cpp", "src/Omega_h_linpart.cpp", "src/Omega_h_mark.hpp"],
     [("array primitives", "src/Omega_h_array_ops.cpp"), ("maps and fans", "src/Omega_h_map.cpp")],
     MC + " against element-by-element definitions", ONE)

prop("C25", "Random streams, statistics, plots and profiles count everything once",
     "A random number depends on the seed, the key and its place in the stream only: a stream begun at any counter continues the one begun at zero, and the numbers of entities follow their globals; densities, quantiles and cumulative distributions are those of their definitions for every argument. "
     "Histograms, goal statistics and scatter plots count each global entity exactly once, for every distribution over ranks (ranks without entities included), every parting and every schedule. "
     "After any sequence of nested timed sections the profile holds one frame per call path with its calls and time, its inverse shares out the self times without loss, and the report of all ranks lists every function any rank called with its average, least and greatest time, once, from rank 0.",
     ["inputs", "schedules", "histories"],
     "13 seeds x 13 keys x 12 starting places; 200 degrees of freedom x 23 arguments and grids of the other laws; every owner of every element of 3-4 meshes on 1-3 ranks x 3 partings x every entity dimension; every sequence of 6 (7) begins and ends of 3 names; every set of functions on every one of 3 ranks",
     "Tests draw from counter zero, take one argument of each law, plot on one rank and never check a profile.",
     ["src/Omega_h_random.cpp", "src/Omega_h_random_inline.hpp", "src/Omega_h_histogram.cpp", "src/Omega_h_scatterplot.cpp", "src/Omega_h_profile.cpp", "src/Omega_h_profile.hpp"],
     [("UnitUniformDistribution", "src/Omega_h_random_inline.hpp"), ("write_scatterplot", "src/Omega_h_scatterplot.cpp"), ("invert", "src/Omega_h_profile.cpp")],
     MC + " of streams, laws, distributed statistics and profile histories", "the later values of the normal generator are only required to be finite; measured times only to be consistent")
prop("C26", "Array storage lives exactly as long as its handles, and is accounted for",
     "Through any sequence of creating, copying, moving, assigning (also to itself), capturing in kernels and dropping array handles, an array's contents stay what was written, handles alias exactly when one was copied from the other, and storage is released exactly once, when its last handle goes. "
     "The allocation record lists exactly the live arrays made while it was on, with the right total and high-water mark, and the memory pool never hands out a block in use, too small or foreign, survives a refusal of the system by returning its free blocks, and leaks nothing.",
     ["histories"],
     "all sequences of 4-6 operations on three handles, with tracking and pooling on and off, and of 5-7 pool operations with refusals, under AddressSanitizer",
     "Tests never run long enough, or with tracking on, to see the record or the pool go wrong.",
     ["src/Omega_h_shared_alloc.hpp", "src/Omega_h_shared_alloc.cpp", "src/Omega_h_array.hpp", "src/Omega_h_array.cpp", "src/Omega_h_pool.cpp", "src/Omega_h_malloc.cpp"],
     [("SharedAlloc", "src/Omega_h_shared_alloc.hpp"), ("Pool", "src/Omega_h_pool.cpp")],
     MC + " against a reference model of handles, record and pool", ONE + "; operations one at a time (handles are not shared between threads)")

prop("C27", "Small matrix algebra satisfies its defining equations",
     "For every square matrix the determinant, inverse, transpose, trace, norms, polynomial invariants, symmetric packing, Mandel/Voigt forms and outer products are those of the definition; least squares, QR, polar, logarithm, exponential and singular value decompositions multiply back and have factors of the stated kind. "
     "Roots of polynomials up to cubic come with their multiplicities, eigen-decompositions of symmetric and of diagonalizable matrices reproduce the matrix with orthonormal (unit) vectors at every ratio of the eigenvalues, and rotations given as matrix, axis-angle and quaternion agree, including at half turns. "
     "Arrays of small vectors, matrices and symmetric matrices hold what was set, component by component.",
     ["inputs"],
     "every 2x2 matrix of entries -6..6, 3x3 of -1..1 (-2..2), symmetric 3x3 of -3..3 (-5..5) in three scales; 16x16 ratios of eigenvalues in 182 orientations; triples of 9 roots in 6 spacings; 37 angles about 26 axes; sets of 2-4 normals",
     "Tests evaluate each function on one or two matrices, and miss repeated roots, half turns and sign cases.",
     ["src/Omega_h_matrix.hpp", "src/Omega_h_vector.hpp", "src/Omega_h_eigen.hpp", "src/Omega_h_eigen.cpp", "src/Omega_h_svd.hpp", "src/Omega_h_qr.hpp", "src/Omega_h_lie.hpp", "src/Omega_h_most_normal.hpp", "src/Omega_h_scalar.hpp"],
     [("find_polynomial_roots", "src/Omega_h_eigen.hpp"), ("decompose_eigen", "src/Omega_h_eigen.hpp"), ("log_so", "src/Omega_h_lie.hpp")],
     MC + " against the defining equations", ONE)

prop("C28", "Metric tensors and size fields mean what their definitions say",
     "The intersection of two metrics is no coarser than either in any direction and no finer than needed, also when they are degenerate or share no axes; interpolation, averaging, linearizing, clamping, isotropy and the metrics of Hessians and gradients follow their definitions. "
     "Implied metrics give a mesh's own elements unit size; expected element counts, scalings towards a count, smoothing and projections follow theirs; gradation limiting returns the coarsest field that changes no faster than the rate along edges, and metrics from combined sources obey every limit asked for. "
     "Size fields do not depend on the distribution or numbering of the mesh, and turn, scale and move with it, including those derived from the curvature of its boundary, where what is inscribed in a circle or sphere has exactly its curvature.",
     ["inputs"],
     "every pair of 2x2 and 3x3 metrics of 4 (5) eigenvalues in 12-20 (40) orientations and 3 scales, definite and degenerate; 6 boxes in 4 shapes with 4 (12) fields on 1-3 ranks over all or 5 assignments and every parting; every 1-2 sources with every limit; 4 curved shapes in 9 (27) orientations",
     "Tests evaluate a few aligned metrics and one mesh on one rank.",
     ["src/Omega_h_metric.hpp", "src/Omega_h_metric.cpp", "src/Omega_h_metric_intersect.hpp", "src/Omega_h_metric_input.cpp", "src/Omega_h_surface.cpp", "src/Omega_h_conserve.cpp"],
     [("intersect_metrics", "src/Omega_h_metric_intersect.hpp"), ("limit_metric_gradation", "src/Omega_h_metric.cpp"), ("generate_metrics", "src/Omega_h_metric_input.cpp"), ("get_curvature_metrics", "src/Omega_h_metric.cpp")],
     MC + " against the definitions", ONE + "; " + RANKS)

prop("C29", "Shapes of simplices and their intersections are measured exactly",
     "Sizes, normals, edge vectors, lengths (also in metrics that differ at the ends), barycentric coordinates, gradients, circumcenters, inscribed balls, affine maps, qualities and implied metrics of edges, triangles and tetrahedra are those of elementary geometry: a quality is 1 for a unit element of its metric, positive exactly for elements not inverted, and the same however the element is numbered, turned or scaled with its metric. "
     "The intersection of two simplices has the size of the set of their common points, whichever is clipped by which, and so have its moments; clipping a polygon or polyhedron by a plane leaves two pieces that make up the whole. "
     "Measuring a whole mesh measures each of its entities, and its bounding box encloses exactly all its parts.",
     ["inputs"],
     "every edge, triangle and tetrahedron on lattices of 3-7 points per axis in 3 scales; every pair of simplices on two lattices, aligned or shifted; 5 polyhedra and 6 polygons with 120-130 planes; boxes of 1-3 dimensions with 3 metrics; every distribution of 3-4 elements over 3-4 ranks",
     "Tests measure one or two perfect elements and intersect three pairs.",
     ["src/Omega_h_shape.hpp", "src/Omega_h_shape.cpp", "src/Omega_h_quality.hpp", "src/Omega_h_quality.cpp", "src/Omega_h_simplex.hpp", "src/Omega_h_affine.hpp", "src/r3d.hpp", "src/Omega_h_r3d.hpp", "src/Omega_h_bbox.hpp", "src/Omega_h_bbox.cpp"],
     [("simplex_size_from_basis", "src/Omega_h_shape.hpp"), ("metric_element_quality", "src/Omega_h_quality.hpp"), ("intersect_simplices/clip", "src/r3d.hpp")],
     MC + " against plain geometry and Sutherland-Hodgman clipping", ONE)

prop("C30", "Recovered derivatives and projected fields are exact least squares fits",
     "The gradients and Hessians of elements are those of the linear functions through their vertices; projecting element values to vertices gives at each vertex inside the domain the value of the linear least squares fit over its elements, and elsewhere that of the average of the polynomials of its neighbours, layer by layer outward, so that linear fields are recovered exactly up to the boundary; projecting by averages gives plain averages. "
     "Solving the Laplacian keeps the values on the boundary and leaves every vertex inside at the average of its neighbours to the tolerance asked for. "
     "None of this depends on the distribution of the mesh, and ranks may be empty.",
     ["inputs", "distributions"],
     "7 boxes in 4 shapes x every nonempty set of vertices inside x 1-3 ranks over all or 5 assignments, parted or migrated, in every parting; values 1 at single elements or vertices, linear, quadratic and arbitrary",
     "Tests recover one linear field on one box on one rank.",
     ["src/Omega_h_recover.cpp", "src/Omega_h_fit.hpp", "src/Omega_h_qr.hpp", "src/Omega_h_laplace.cpp", "src/Omega_h_map.cpp"],
     [("project_by_fit", "src/Omega_h_recover.cpp"), ("fit_cavity_polynomial", "src/Omega_h_fit.hpp"), ("solve_laplacian", "src/Omega_h_laplace.cpp")],
     MC + " against normal equations and elimination", RANKS)

prop("C31", "Distances and angles across thin parts of the domain are measured right",
     "A bridge is an edge classified unlike both its ends. "
     "The distance given for an edge, triangle or tetrahedron is the smallest between parts that only bridges join: the length of a bridge, a vertex to the opposite side when all edges between are bridges and its foot falls on that side, or two opposite edges when the four others are bridges and their common perpendicular meets both; without any it is -1, wherever the element is and however numbered. "
     "Pinched angles are the smallest ones at corners between two curves, or at curves between two surfaces.",
     ["inputs"],
     "every triangle on three 5x5 and every tetrahedron on three 2x2x2 lattices (every 25th, or every, on 3x3x3) with every pattern of bridges and every classification",
     "Tests measure eight elements, all with a vertex at the origin.",
     ["src/Omega_h_confined.cpp"],
     [("get_pad_dists", "src/Omega_h_confined.cpp"), ("get_pinched_angles", "src/Omega_h_confined.cpp")],
     MC + " against plain geometry", ONE)

prop("C33", "One pass of adaptation takes the best admissible edits first",
     "refine_by_size, coarsen_by_size, coarsen_slivers and swap_edges make exactly the edits a greedy choice over all admissible ones makes, in order of the least quality each leaves in its cavity and skipping those next to one taken; they report whether there was any, and all the rest of the mesh stays, on any number of ranks. "
     "Admissible are splits of edges longer than desired and collapses of vertices of shorter ones that leave enough quality (collapses also only inside their model entity, exposing nothing, with new edges within the limit, along the shortest such edge), and, next to slivers, collapses and swaps that improve the cavity's least quality. "
     "A swap of an interior edge takes the best triangulation without too long an edge of a ring of at most seven elements.",
     ["inputs", "distributions"],
     "3-6 triangles and 3-8 tetrahedra around every kind of vertex or edge, octahedra, 3x3 and 2x2x2 cells, in families of shapes x classifications of the hull x size and quality limits between all the lengths and qualities, isotropic and stretched; 4 elements in every distribution over 2 ranks",
     "Tests adapt a few boxes and look at the quality and lengths reached, which other choices of edits reach too.",
     ["src/Omega_h_refine.cpp", "src/Omega_h_coarsen.cpp", "src/Omega_h_swap.cpp", "src/Omega_h_swap2d.cpp", "src/Omega_h_swap3d.cpp", "src/Omega_h_indset.cpp", "src/Omega_h_collapse_rail.cpp", "src/Omega_h_coarsen_qualities.cpp", "src/Omega_h_refine_qualities.cpp", "src/Omega_h_swap3d_tables.hpp"],
     [("refine_by_size", "src/Omega_h_refine.cpp"), ("choose_rails", "src/Omega_h_collapse_rail.cpp"), ("swap3d::choose", "src/Omega_h_swap3d_choice.hpp"), ("find_indset", "src/Omega_h_indset.cpp")],
     MC + " against a naive selection over all edits of the same mesh", ONE)

prop("C10", "Every mesh entity is classified on the model entity it lies on",
     "A box mesh fills its box, and every entity of it is classified by the sides its vertices lie on; the named class sets and associations (also when read from a file) hold exactly the entities of their sides. "
     "From any lists of equal-order entities, finalize_classification keeps what is given and derives the rest by one rule from the next higher dimension, the same for every numbering and distribution. "
     "classify_by_angles puts exposed sides on the boundary, hinges whose outward normals meet at or above the angle (or where the boundary is not a surface) on curves or corners, and vertices where other than two such curves meet on corners.",
     ["inputs", "distributions"],
     "boxes of 1-3 cells per direction of all dimensions and families; 4-7 meshes x regions x listed sides, hinges and vertices; every distribution of 3-6 meshes over 2-3 ranks; every subset of 8-12 triangles and 6-12 tetrahedra x shapes x 4 angles",
     "Tests look at the classification of one box and of one cube by angles.",
     ["src/Omega_h_class.cpp", "src/Omega_h_surface.cpp", "src/Omega_h_box.cpp", "src/Omega_h_assoc.cpp", "src/Omega_h_mark.cpp"],
     [("finalize_classification", "src/Omega_h_class.cpp"), ("classify_box", "src/Omega_h_box.cpp"), ("get_hinge_angles", "src/Omega_h_surface.cpp")],
     MC + " against rules applied to vertex lists and coordinates", ONE)

prop("C05", "Load balancing divides the mesh evenly and by the mesh alone",
     "Mesh::balance on a power of two of ranks leaves the same mesh, element based, in a distribution that depends only on the mesh (coordinates and metric), not on how it was distributed before, and balancing again changes nothing. "
     "Each bisection separates the elements along the axis of least inertia into halves whose weights differ from half by at most the tolerance whenever a cut can do that; bi_partition, linear partitions and slices put every item in its one place.",
     ["inputs", "distributions", "schedules"],
     "sets of 2-7 points x masses x tolerances x every distribution over 1-3 ranks; every distribution of 5 small meshes over 2 and 4 ranks, strips of 16-24 triangles over 2-8; all marks of up to 6 items per rank; schedules up to a deviation bound",
     "Tests bisect three fixed sets of points and balance one box on two ranks.",
     ["src/Omega_h_inertia.cpp", "src/Omega_h_bipart.cpp", "src/Omega_h_linpart.cpp", "src/Omega_h_mesh.cpp", "src/Omega_h_build.cpp"],
     [("recursively_bisect", "src/Omega_h_inertia.cpp"), ("bi_partition", "src/Omega_h_bipart.cpp"), ("Mesh::balance", "src/Omega_h_mesh.cpp")],
     MC + ", comparing every starting distribution with one rank alone and with an independent inertia", RANKS)

prop("C11", "Reordering follows one space-filling curve and keeps the mesh",
     "The Hilbert order visits every cell of a grid of 2^k cells per axis once, each next to the one before and each aligned block in one piece, down to 2^52 cells per axis; points on or beyond the box belong to the nearest cell, and sorting is a permutation. "
     "Reordering a mesh by Hilbert order or by global numbers keeps the mesh, its adjacencies, tags and coordinates; vertices follow the curve (or the numbers) and other entities their first vertices (or their numbers).",
     ["inputs"],
     "every cell of grids to 8-10 bits in 1D-2D and 5-7 bits in 3D, lattices to 64 points per axis in 8 orders, blocks at 25-125 places of grids to 2^52; 8 meshes x coordinates x every exchange of two vertices, every permutation of five or six vertices",
     "Tests convert one point and sort none.",
     ["src/Omega_h_hilbert.hpp", "src/Omega_h_hilbert.cpp", "src/Omega_h_reorder.cpp", "src/Omega_h_unmap_mesh.cpp", "src/Omega_h_bbox.hpp"],
     [("AxestoTranspose/from_spatial", "src/Omega_h_hilbert.hpp"), ("reorder_by_hilbert", "src/Omega_h_reorder.cpp"), ("unmap_mesh", "src/Omega_h_unmap_mesh.cpp")],
     MC + " of whole grids and meshes", ONE)

prop("C12", "Mesh comparison tells same, more and different exactly",
     "compare_meshes says that two meshes are the same, that the second has more fields, or that they differ, exactly when that is so of the two global meshes within the stated tolerances, for every distribution, parting and rank count of either, and it says the same on every rank. "
     "Command files and options select exactly the variables, tolerances and floors they state, in whatever order the directives come. "
     "Regression runs succeed exactly when the run equals its gold file, and never replace a gold file.",
     ["inputs", "schedules", "configurations"],
     "every pair of element-to-rank assignments of small meshes on 2-3 ranks; every kind of change at every place; all command files of up to 3-4 lines; schedules with 1-2 deviations",
     "Tests use compare_meshes as an oracle and never check that it can say no.",
     ["src/Omega_h_compare.cpp", "src/Omega_h_compare.hpp", "src/Omega_h_regress.cpp", "src/Omega_h_owners.cpp", "src/vtkdiff.cpp", "src/oshdiff.cpp"],
     [("compare_meshes", "src/Omega_h_compare.cpp"), ("parse_exodiff_cmd_file", "src/Omega_h_compare.cpp")],
     MC + " against a second description of the change", RANKS)

prop("C06", "Threaded execution gives the same results and never races",
     "Built with OpenMP, every parallel primitive, mesh derivation, adjacency, adaptation, redistribution and reordering leaves byte for byte the result of one thread, for every team size and every interleaving of the threads (reductions over plain floating point values and the order within rows of a map inverted by atomics excepted; everything built on them is not). "
     "No two threads access the same memory unordered unless both leave the same bytes, and no team, however large compared with the work, touches memory that is not its own.",
     ["schedules", "inputs", "configurations"],
     "15 primitives on all small inputs, 9 meshes, adaptation in 1D-3D and redistribution on 2-3 ranks, with teams of 2-5 (up to 600) in three base orders and all schedules with up to 1-3 preemptions; a vector-clock race check on every access",
     "The tests are built without threads here, and with threads they would see one timing.",
     ["src/Omega_h_for.hpp", "src/Omega_h_reduce.hpp", "src/Omega_h_scan.hpp", "src/Omega_h_sort.cpp", "src/Omega_h_atomics.hpp", "src/Omega_h_map.cpp", "src/Omega_h_adj.cpp", "src/Omega_h_modify.cpp", "tpl/pss/parallel_stable_sort.hpp"],
     [("parallel_for", "src/Omega_h_for.hpp"), ("inclusive_scan", "src/Omega_h_scan.hpp"), ("invert_map_by_atomics", "src/Omega_h_map.cpp"), ("parallel_stable_sort", "tpl/pss/parallel_stable_sort.hpp")],
     MC + " with every thread a fiber over an in-process OpenMP runtime, bounded preemptions, and happens-before race detection on each execution",
     "trusts the OpenMP model in mc/omp (static schedules, sequentially consistent atomics) and the bounds listed in the evidence")

prop("C22", "Regexes, lexers and LALR(1) parsers recognize exactly their languages",
     "A lexer built from regular expressions splits every input into its longest tokens, the earlier token winning ties, and accepts exactly the inputs that can be so split. "
     "Tables are built for exactly the grammars that are LALR(1), and the parser built from them accepts exactly the sentences of the grammar, with the derivation the grammar gives them; everything else is refused with an exception, from strings and from streams alike. "
     "This covers the XML, YAML (with indentation) and expression languages of the library.",
     ["inputs", "programs"],
     "all expressions of up to 5-9 characters x all short inputs; lists of 2-3 tokens; all grammars with up to 2 nonterminals below the goal and 2-3 symbols per right side x all sentences up to 5; all sequences of 5-8 pieces and all one-character edits of XML, YAML and expressions",
     "Tests parse a dozen well-formed documents; errors, ambiguous prefixes and other grammars are never tried.",
     ["src/Omega_h_regex.cpp", "src/Omega_h_finite_automaton.cpp", "src/Omega_h_build_parser.cpp", "src/Omega_h_parser.cpp", "src/Omega_h_reader.cpp", "src/Omega_h_language.cpp", "src/Omega_h_xml.cpp", "src/Omega_h_yaml.cpp", "src/Omega_h_math_lang.cpp"],
     [("build_lexer", "src/Omega_h_language.cpp"), ("build_lalr1_parser", "src/Omega_h_build_parser.cpp"), ("Reader", "src/Omega_h_reader.cpp")],
     MC + " against backtracking matching, an independent canonical LR(1)/LALR(1) construction and Earley-style recognition",
     ONE + "; a lone trailing backslash in an expression and dedents to a column that was never indented to are left unspecified")

prop("C23", "Expressions evaluate point by point to their mathematical value",
     "Evaluating an expression gives, at every point, the value the expression has with each variable replaced by its value there, with the usual precedence and associativity, whether the inputs are uniform or vary, in 1 to 3 dimensions and for any number of points including none. "
     "Evaluating directly and evaluating a compiled form, any number of times over changing inputs, agree, and neither changes its inputs. "
     "Unknown names, components out of range, wrong numbers of arguments and mixed kinds are refused with an exception.",
     ["programs", "inputs", "histories"],
     "every expression tree of up to 2-3 operations over scalars, vectors, matrices and conditions x dimensions x uniform or varying inputs x printings; every call with up to 3 arguments of every kind; all histories of 3-4 assignments and evaluations",
     "Tests evaluate a dozen expressions in 3D.",
     ["src/Omega_h_expr.cpp", "src/Omega_h_expr.hpp", "src/Omega_h_math_lang.cpp", "src/Omega_h_reader.cpp", "src/Omega_h_any.hpp"],
     [("ExprReader", "src/Omega_h_expr.cpp"), ("ExprOpsReader", "src/Omega_h_expr.cpp")],
     MC + " against a tree evaluator on plain numbers", ONE + "; division by zero, non-integral indices and other combinations of kinds are unspecified; choosing between uniform vectors by a uniform condition is declared unsupported by the library")

prop("C24", "Input files and command lines deliver exactly what they say",
     "Reading an input file yields exactly the maps, lists and scalars it spells, in any mix of the block and flow styles, quoting, block scalars with every chomping and indentation, comments, line ends, document markers and included files; duplicate names and malformed text are refused, and an echoed input reads back as the same input. "
     "Typed access gives the number a scalar spells and refuses any other, and check_unused complains exactly when something was never accessed, after any history of accesses. "
     "A command line is parsed from left to right whatever the order of its words, each flag taking its arguments and positional arguments the rest.",
     ["inputs", "programs", "histories"],
     "every structure of up to 6-7 nodes in 10-14 layouts; every scalar of up to 3-4 of 16 characters; block scalars of up to 4-5 lines; every number of up to 5-6 characters; all histories of 4-5 accesses; every command line of up to 5-6 words",
     "Tests read a dozen fixed documents and parse no command line.",
     ["src/Omega_h_input.cpp", "src/Omega_h_yaml.cpp", "src/Omega_h_reader.cpp", "src/Omega_h_cmdline.cpp"],
     [("InputYamlReader", "src/Omega_h_input.cpp"), ("CmdLine", "src/Omega_h_cmdline.cpp")],
     MC + " against an independent emitter and written-out definitions", ONE + "; folded block scalars, escapes in double quotes other than of the quote and the backslash, tags and command line numbers that are not numbers are unspecified")

prop("C32", "The command line tools do what they say, on any number of ranks",
     "oshdiff and vtkdiff (over single steps and series) return 0 exactly when the second mesh is the same as the first within the given tolerance and floor, or only has more fields and -superset was given, and change no file. "
     "osh_part writes the same mesh and fields in the number of parts asked for; osh_box, osh2vtk, osh_reorder, msh2osh and osh_eval_implied write what the library call of that name gives; osh_scale, osh_fix and osh_adapt keep the domain, come near the requested size and leave no metric behind unless asked; osh_calc prints the value of each line. "
     "Invocations that cannot be obeyed say so, report failure on every rank and leave files as they were.",
     ["inputs", "programs", "histories"],
     "15 changes x tolerances x floors x flags x orders of arguments; series of up to 3 steps with a change, another time or a new field in any step; every world of up to 4 ranks x parts before and after; 13 wrong invocations; every expression tree of depth 2",
     "Tests compare unchanged output with gold files, which a comparison that accepts everything passes, and run no other tool on fewer parts than ranks.",
     ["src/oshdiff.cpp", "src/vtkdiff.cpp", "src/osh_part.cpp", "src/osh_box.cpp", "src/osh2vtk.cpp", "src/osh_reorder.cpp", "src/msh2osh.cpp", "src/osh_eval_implied.cpp", "src/osh_scale.cpp", "src/osh_fix.cpp", "src/osh_adapt.cpp", "src/osh_calc.cpp", "src/Omega_h_fix.cpp"],
     [("main", "src/oshdiff.cpp"), ("main", "src/osh_part.cpp"), ("fix", "src/Omega_h_fix.cpp")],
     MC + " of whole invocations under an in-process MPI", "deterministic schedules (the library's other checks explore them); balancing is for powers of two; osh_fix never lowers the least quality, even by rounding")

prop("C34", "The ordered containers and any hold exactly what was put in them",
     "After any history of insertions (with or without a hint), erasures, copies and swaps, a red-black tree and the map over it hold exactly the elements of the corresponding mathematical set or map: iteration in either direction meets them in the order of the comparison, every search gives what that set would give, copies are independent, and a search takes at most a logarithmic number of comparisons. "
     "An any gives back exactly the value put in, by its type only, through any history of copies, moves and swaps. "
     "A copy that fails changes nothing, and no value is leaked or used after its end.",
     ["histories", "inputs"],
     "every order of insertion of up to 7-8 keys x orders of removal; every sequence of 2-3 operations on two trees from 4 starts; every sequence of 4-5 operations on a map and of 3-4 on two anys of 5 types",
     "No test touches the tree or the map beyond a lookup, and any is tested only through the readers.",
     ["src/Omega_h_rbtree.hpp", "src/Omega_h_any.hpp"],
     [("Rb_tree_rebalance_for_erase", "src/Omega_h_rbtree.hpp"), ("any", "src/Omega_h_any.hpp")],
     MC + " against std::set, std::map and a record of the value held", ONE + "; values moved from are only cleared or assigned to")
