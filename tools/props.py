SCHED = "every schedule of the team's threads, every number of threads asked for and granted"
PROPS = [
 dict(id="T01", title="Interpolation on the hybrid grid is exact for linear data",
  statement="Interpolating data which vary linearly over the irreducible zone with the hybrid cube and polyhedron grid gives, for every point of the closed zone, the value of the linear function at that point, in the row of that point, for values and vectors of every shape. The result does not depend on the number of threads nor on their schedule, and an arbitrary phase of a complex vector at a grid vertex never changes the result by more than one phase per mode.",
  over=["inputs", "schedules", "configurations"], forall="every set of points of the closed irreducible zone (interior, faces, edges, corners, grid vertices, none, repeated), every shape and type of data, " + SCHED,
  why="the tests interpolate a few random points with one thread count and look at a few grids; whether rows are lost, swapped or corrupted depends on the schedule of the loop and on points on shared faces, which they do not enumerate",
  files=["src/bz_trellis.hpp", "src/trellis_poly.hpp", "src/trellis_node.hpp", "src/interpolatordual.hpp", "src/interpolator_at.tpp"],
  mech=[("parallel loop over points with exception collection and a count of points which were not found", "src/trellis_poly.hpp interpolate_at"), ("cell lookup and barycentric weights", "src/trellis_poly.hpp indices_weights"), ("weighted sum with phase alignment", "src/interpolator_at.tpp")],
  tech="the real interpolation runs on simulated OpenMP teams under a seeded scheduler, compared with an independent linear reference model", note="seeded search; granted teams may be thinner than asked for; happens-before race detection on every instrumented access"),
 dict(id="T02", title="Interpolation on the mesh and the nested grid is exact for linear data",
  statement="Interpolating data which vary linearly over the irreducible zone with the tetrahedral mesh or the nested tetrahedra gives, for every point of the closed zone, the value of the linear function at that point, in the row of that point, for values and vectors of every shape. The serial and the parallel call agree whatever the number of threads and their schedule.",
  over=["inputs", "schedules", "configurations"], forall="every set of points of the closed irreducible zone, every shape and type of data, mesh layers 1 to 5, nested levels, " + SCHED,
  why="the tests never interpolate on the nested grid with several threads and sample few points; the two calls are separate code",
  files=["src/mesh.hpp", "src/bz_mesh.hpp", "src/nest.hpp", "src/bz_nest.hpp", "src/triangulation_layers.hpp", "src/interpolator_at.tpp"],
  mech=[("parallel loop over points", "src/mesh.hpp and src/nest.hpp interpolate_at"), ("layered tetrahedron lookup", "src/triangulation_layers.hpp locate"), ("nested tetrahedron lookup", "src/nest.hpp indices_weights")],
  tech="as T01, for the other two grids, serial and parallel calls", note="seeded search over schedules, teams, grids, shapes and points"),
 dict(id="T03", title="Interpolation anywhere equals the symmetry-transformed irreducible result",
  statement="For any point Q of reciprocal space the interpolated result equals the one at some q of the irreducible zone carried to Q by a point group operation R and a reciprocal lattice vector with Q = transpose(R) q + tau: scalars unchanged; vectors and matrices given in units of the real lattice, of the reciprocal lattice, or as pseudovectors transformed by the operation which takes q to Q; phonon eigenvectors (in lattice units or Angstrom) transformed so that they belong to the dynamical matrix at Q, as matrices between pairs of atoms do. This holds for all three grids and every number of threads.",
  over=["inputs", "schedules", "configurations"], forall="every Q including zone boundary and lattice points, every point group, every kind of rotating data, symmorphic and nonsymmorphic crystals, " + SCHED,
  why="the tests rotate a handful of modes of two crystals; operations of order 3, 4 and 6 on real space vectors were never exercised (and were wrong)",
  files=["src/bz_trellis.hpp", "src/bz_mesh.hpp", "src/bz_nest.hpp", "src/interpolator.hpp", "src/interpolator_real.tpp", "src/interpolator_recip.tpp", "src/interpolator_axial.tpp", "src/interpolator_gamma.tpp", "src/phonon.hpp", "src/bz_move.cpp"],
  mech=[("reduction to the irreducible zone", "src/bz_move.cpp ir_moveinto"), ("parallel rotation of every row", "src/interpolator_*.tpp"), ("table of atom permutations and phases", "src/phonon.hpp GammaTable")],
  tech="reductions are enumerated independently from hand-written generators; eigenvector rotations are checked against the dynamical matrices of a pair-force model", note="seeded search over schedules, teams, crystals, data kinds and points; eigenvectors are checked at grid vertices"),
 dict(id="T04", title="Every point reduces to the first Brillouin zone by a lattice vector",
  statement="Moving points into the first Brillouin zone gives for each Q one q in the closed zone and one reciprocal lattice vector tau of the crystal (respecting its centring) with Q = q + tau, in the order of the input, for points however far from the origin. The number of threads and their schedule never matter.",
  over=["inputs", "schedules"], forall="every set of points, including zone boundaries, lattice points, and none, every Bravais lattice, " + SCHED,
  why="tests move random points in few lattices; the loop over centred lattices' transformations is parallel and its output rows are only compared for one thread count",
  files=["src/bz_move.cpp", "src/transform.hpp", "src/bz.hpp"], mech=[("moving and checking", "src/bz_move.cpp moveinto"), ("parallel change between primitive and standard lattices", "src/transform.hpp parallel_transform_to_primitive")],
  tech="the zone is defined independently as the points nearer to the origin than to any other lattice point", note="seeded search over schedules, teams, lattices and points"),
 dict(id="T05", title="Every point reduces to the irreducible zone by a point group operation",
  statement="Moving points into the irreducible zone gives for each Q a q in the closed irreducible zone, a lattice vector tau and an operation R of the point group (with its inverse) such that Q = transpose(R) q + tau; moving into the irreducible wedge does the same without tau. Every row is filled in, whatever the number of threads and their schedule.",
  over=["inputs", "schedules"], forall="every set of points, every point group with and without time reversal, " + SCHED,
  why="the tests check one thread count and mostly random points; boundary points have several answers and a racing loop may mix them up",
  files=["src/bz_move.cpp", "src/bz.hpp", "src/pointsymmetry.cpp"], mech=[("reduction", "src/bz_move.cpp ir_moveinto"), ("parallel wedge search", "src/bz_move.cpp ir_moveinto_wedge")],
  tech="point groups are closed from hand-written generators; the irreducible zone is re-described by the planes of the hull of its corners", note="seeded search over schedules, teams, point groups and points"),
 dict(id="T06", title="Building the hybrid grid gives one complete grid whatever the team",
  statement="Constructing the hybrid grid fills the irreducible zone completely without overlap, keeps every point of the zone's boundary corners as a vertex, has no two vertices at one point, and no cell with a missing or repeated vertex. The vertices and the kinds of cells are those of a grid built by one thread, whatever the team is asked to be or granted and however its threads are scheduled.",
  over=["schedules", "configurations"], forall="every lattice and node volume, " + SCHED,
  why="construction is a parallel reduction over per-thread vertex maps; tests run it with the machine's default team only",
  files=["src/trellis_poly_parallel.tpp", "src/vertex_map_knit.h", "src/vertex_map_set.h", "src/vertex_index_map.h", "src/trellis_poly.hpp", "src/trellis_node.hpp"], mech=[("per-thread vertex maps", "src/trellis_poly_parallel.tpp part_one"), ("pairwise combination", "src/vertex_map_knit.h parallel_reduce"), ("parallel triangulation of cells", "src/trellis_poly_parallel.tpp part_two")],
  tech="volumes, uniqueness and conformity are recomputed from the vertices; equality with the single-thread grid; teams thinner than requested are injected", note="seeded search over schedules and teams on small grids of 16 kinds, and over the grids of random crystals of the 530 settings"),
 dict(id="T07", title="Building the mesh and nested grids covers the irreducible zone exactly once",
  statement="Constructing the tetrahedral mesh or the nested tetrahedra covers the irreducible zone completely and without overlap: the corners of the zone are vertices, all vertices are distinct points of the closed zone and used, no cell is flat, cells respect the size asked for, and data which vary linearly are interpolated exactly. This holds whatever the team is asked to be or granted and however its threads are scheduled.",
  over=["schedules", "configurations"], forall="every lattice, cell volume, number of layers and number of branchings, " + SCHED,
  why="connecting the layers of the mesh and collecting their keys are parallel loops with critical sections; tests run them with the machine's default team and look at the number of cells only",
  files=["src/triangulation_layers.hpp", "src/triangulation_simple.hpp", "src/nest.hpp", "src/mesh.hpp", "src/bz_mesh.hpp", "src/bz_nest.hpp"], mech=[("connecting layers in parallel", "src/triangulation_layers.hpp TetTri::connect"), ("collecting keys in a critical section", "src/triangulation_layers.hpp collect_keys"), ("recursive subdivision", "src/nest.hpp subdivide")],
  tech="the cover is re-measured from the cells' corners against the independent hull of the zone; construction runs on simulated teams which may be thinner than asked for", note="seeded search over schedules and teams on small grids of the lattices"),
 dict(id="T08", title="Containment in zones and wedges is decided per point, independent of threads",
  statement="Asking which points are inside the first Brillouin zone or the irreducible wedge answers each point, in order, as geometry says: inside when it satisfies every boundary plane. Points clear of the boundary are never misjudged and answers never depend on the number of threads or their schedule.",
  over=["inputs", "schedules"], forall="every set of points, every lattice and point group, " + SCHED,
  why="the wedge test wrote its answers as bits of shared words from several threads, which only loses answers under particular schedules",
  files=["src/bz.hpp"], mech=[("parallel loop over points", "src/bz.hpp isinside_wedge")],
  tech="independent half-space tests; a race between neighbouring answers is reported by happens-before detection", note="seeded search over schedules, teams, zones and points"),
 dict(id="T09", title="Errors inside parallel work reach the caller and leave the grid usable",
  statement="An error met while work is shared among threads (a point which the mesh or nested grid cannot locate or which is beyond the hybrid grid, eigenvectors to rotate for a crystal without atoms, missing data, points of another crystal, a failed memory allocation) reaches the caller as a std::exception; it never ends the process, is never lost, and never corrupts memory. Without an error nothing is thrown. Afterwards the grid answers as before.",
  over=["inputs", "schedules", "fault_sequences"], forall="every position of the failing points or allocation, serial and parallel calls, grid construction, " + SCHED,
  why="tests never interpolate outside of the zone with several threads and never fail an allocation; whether an exception crosses the boundary of a parallel region depends on which thread meets it",
  files=["src/thread_exception.h", "src/trellis_poly.hpp", "src/mesh.hpp", "src/nest.hpp", "src/trellis_poly_parallel.tpp", "src/interpolator_gamma.tpp", "src/triangulation_layers.hpp", "src/triangulation_simple.hpp", "src/triangulation_poly.hpp", "src/debug.hpp"],
  mech=[("collecting exceptions of every thread", "src/thread_exception.h ThreadException"), ("counting points which are not found", "src/mesh.hpp, src/nest.hpp and src/trellis_poly.hpp interpolate_at"), ("construction in parallel", "src/trellis_poly_parallel.tpp"), ("describing a surface to tetgen", "src/triangulation_*.hpp")],
  tech="points outside, impossible requests and failing allocations are injected at seeded places of interpolations and constructions on simulated teams; an escape from a region, a lost error, a wild memory access or a wrong answer afterwards is a violation", note="seeded search; allocation failures hit any operator new of brille, tetgen or the standard library's templates"),
 dict(id="T10", title="Callers share a grid for reading, or build separate ones, at the same time",
  statement="Several threads of the caller may interpolate, move points, test containment and copy on one grid and one zone at the same time, each with a team of its own, and may construct separate grids at the same time. Every call gives what it gives when it is alone: const operations never write shared state without synchronisation.",
  over=["inputs", "schedules"], forall="2 to 4 callers, every mix of the const operations, every interleaving of their teams",
  why="no test calls the library from two threads; hidden caches, static variables and shared reference counts in const functions only fail under particular interleavings",
  files=["src/bz_trellis.hpp", "src/bz_mesh.hpp", "src/bz_nest.hpp", "src/bz.hpp", "src/bz_move.cpp", "src/debug.hpp", "src/array2.hpp", "src/interpolatordual.hpp"], mech=[("shared ownership of data by arrays", "src/array2.hpp"), ("const interpolation", "src/interpolatordual.hpp interpolate_at"), ("single message printer", "src/debug.hpp DebugPrinter")],
  tech="concurrent callers and their teams are fibers of one seeded scheduler; each answer is checked against the independent models of T01 to T08 and every unsynchronised conflicting access is a violation", note="seeded search over operations and schedules; nested teams of up to 4 threads for up to 4 callers"),
 dict(id="T11", title="Sorting connects every mode of neighbouring grid points exactly once",
  statement="After sorting the modes of a grid whose values and vectors identify the modes, interpolation gives every mode exactly once and never mixes two of them, whatever order and complex phase the modes were stored with at each grid point, for real and complex vectors and for every cost function and weights. Sorting again changes nothing, permutations never outlive the data they were found for, and neither the team nor its schedule nor sorts of other grids at the same time matter.",
  over=["inputs", "schedules", "configurations"], forall="every order of the modes at every vertex, separated, crossing and degenerate modes, every cost function and weight, histories of filling and sorting, " + SCHED,
  why="the tests sort one crystal's modes once with one thread count; the assignment of each pair of vertices is independent work whose results are merged in a shared table under a lock",
  files=["src/interpolatordual.hpp", "src/permutation_table.hpp", "src/permutation.hpp", "src/lapjv.hpp", "src/interpolator_cost.tpp", "src/interpolator.hpp", "src/utilities.tpp"],
  mech=[("parallel loop over connected pairs of vertices with a locked table", "src/interpolatordual.hpp sort and determine_permutation_ij"), ("table of permutations and its reset", "src/permutation_table.hpp PermutationTable"), ("costs of pairing modes", "src/interpolator_cost.tpp add_cost"), ("linear assignment", "src/lapjv.hpp")],
  tech="modes are linear functions with known identities, shuffled and phased per vertex; after sorts on simulated teams every interpolated mode must match exactly one of them", note="seeded search over teams, schedules, data and histories of fill, sort and interpolate on the three grids"),
 dict(id="T12", title="Vertices found by different threads combine into one list without repeats",
  statement="Combining the vertex sets and node maps which the threads of a construction made for their own nodes gives one list of vertices, without repetition, holding exactly the points any node uses. Every node keeps its own points in its own order, whatever the division of the nodes, the number of threads or the schedule, serially or in parallel.",
  over=["inputs", "schedules"], forall="every division of up to 30 nodes into up to 9 shares, original, found, crafted and origin vertices, with rounding, " + SCHED,
  why="the tests' grids hardly make extra vertices, and only particular divisions give the same extra vertex to several threads",
  files=["src/vertex_map_knit.h", "src/vertex_map_set.h", "src/vertex_index_map.h", "src/trellis_poly_parallel.tpp"],
  mech=[("pairwise parallel reduction", "src/vertex_map_knit.h parallel_reduce"), ("original and appended vertices", "src/vertex_map_set.h VertexMapSet"), ("indices of each node", "src/vertex_index_map.h VertexIndexMap")],
  tech="shares made by simulated threads are combined on simulated teams and compared with the points each node was given", note="seeded search over sets, divisions, teams and schedules"),
 dict(id="C01", title="Answers and timings do not depend on the wall clock",
  statement="Random points of a polyhedron lie inside of it, and a non-zero seed gives the same points at any time, for any number of points and from any number of callers. Stopwatches report the time which passed, never a negative or wrong one, when the wall clock is set forwards or backwards. Grids built with time-stamped messages are the same at every time, in every terminal and process.",
  over=["inputs", "schedules", "fault_sequences"], forall="wall clocks from 1970 to 2134 which tick, stand still and jump by up to 50 minutes between readings, terminals of any size or none, 1 to 3 callers",
  why="no test controls the clock or sets it while it runs",
  files=["src/polyhedron_faces.hpp", "src/polyhedron_flex.hpp", "src/debug.hpp", "src/triangulation_layers.hpp", "src/bz_trellis.hpp", "src/bz_mesh.hpp", "src/bz_nest.hpp"],
  mech=[("random points by rejection", "src/polyhedron_faces.hpp rand_rejection"), ("stopwatch", "src/debug.hpp Stopwatch"), ("time stamps of messages", "src/debug.hpp DebugPrinter"), ("random sequence of tetgen", "lib/tetgen")],
  tech="wall clock, monotonic clock, terminal and process id come from the simulator, which makes the wall clock jump and stand still at seeded readings; answers are compared across clocks", note="seeded search over clocks, jumps, histories of stopwatches, seeds and callers"),
 dict(id="L01", title="Messages appear once, whole and under their function, and harm nothing",
  statement="Messages printed by several threads at once appear each exactly once, whole, in the order of each thread and under the name of their function, with every element of their lists and, where asked for, the time at which they were printed; a silenced printer prints nothing. This holds for every size of the terminal, which is reported as it is, and a failing stream or allocation affects the message being printed only.",
  over=["inputs", "schedules", "fault_sequences"], forall="1 to 4 callers with up to 5 messages of 8 kinds each, terminals of 0 to 65535 columns or none, streams which fail or throw at any piece, failing allocations, any time since 1970",
  why="no test prints from two threads, sets the size of the terminal or makes the stream fail",
  files=["src/debug.hpp", "src/debug.cpp"],
  mech=[("one printer with a recursive lock", "src/debug.hpp DebugPrinter::print and println"), ("lists broken into lines", "src/debug.hpp DebugPrinter::inner_print"), ("time stamps", "src/debug.hpp time_to_string"), ("size of the terminal", "src/debug.cpp terminal_width and terminal_height")],
  tech="callers print to a simulated stream which lets another thread run at every piece, fails or throws at seeded pieces, on a simulated terminal and clock; the output is compared with the messages each thread would print alone", note="seeded search over messages, schedules, terminals and faults"),
 dict(id="S01", title="Saving and loading returns an equal object",
  statement="Loading what was saved gives an object which cannot be told from the original: grids (with their data, rotation rules, cost functions, permutations and tolerances), zones, lattices, atom bases, symmetry operations, permutation tables, interpolation data, polyhedra and arrays; they compare equal and give the same answers, also after sorting. Saving again and loading again gives it once more, other files do not change, and every file is closed.",
  over=["inputs", "configurations"], forall="every object, with and without data, into a file or a group, under nested names, also as a view of another array's memory; for grids and data every shape, type and setting",
  why="the tests write a few grids and compare them with operator==, which ignores parts; settings such as the cost functions and tolerances were lost without notice",
  files=["src/hdf_interface.hpp", "src/bz.hpp", "src/bz_trellis.hpp", "src/bz_mesh.hpp", "src/trellis_poly.hpp", "src/mesh.hpp", "src/interpolatordual.hpp", "src/interpolator.hpp", "src/permutation_table.hpp", "src/lattice_dual.hpp", "src/array2.hpp", "src/basis.hpp"],
  mech=[("storing and loading each class", "to_hdf and from_hdf of src/*.hpp"), ("replacing an entry", "src/hdf_interface.hpp overwrite_group and overwrite_data")],
  tech="the real to_hdf and from_hdf run over a simulated disk (an in-memory stand-in of HighFive); originals and loaded objects are compared part by part and by what they answer", note="seeded search over objects and places; this one is decided with healthy storage, its faults are S02 to S05"),
 dict(id="S02", title="A save which the storage refuses is reported and can be repeated",
  statement="When storage operations fail while an object is saved (single errors before or after their effect, torn data, a disk which stays full), the save throws a std::exception or returns false; it reports success only if everything was stored. Other entries are unchanged, the file is closed, no memory is lost, a partly stored entry is not loaded as something else, and saving again with healthy storage gives exactly what an undisturbed save gives.",
  over=["inputs", "fault_sequences"], forall="every storage operation of a save of every kind of object, new or over an entry of the same or another kind, single and lasting errors",
  why="no test makes the storage fail",
  files=["src/hdf_interface.hpp", "src/bz.hpp", "src/bz_trellis.hpp", "src/bz_mesh.hpp", "src/trellis_poly.hpp", "src/mesh.hpp", "src/interpolator.hpp", "src/permutation_table.hpp", "src/lattice_dual.hpp", "src/array2.tpp"],
  mech=[("order of removing and writing", "src/hdf_interface.hpp"), ("results of nested saves", "to_hdf of src/*.hpp")],
  tech="write errors, torn writes and full disks are injected at seeded operations of the simulated disk; the file is compared with the one of an undisturbed save", note="seeded search over objects, operations and kinds of failure"),
 dict(id="S03", title="A crash while saving harms nothing else and leaves no false entry",
  statement="If the process dies at any storage operation of a save, other files and, where the file stays readable, other entries of the file are as before; the entry itself is the old object, the new one, or refused by an exception, never a different object. Saving again (truncating the file if it became unreadable) restores everything.",
  over=["inputs", "crash_points"], forall="every operation at which to die, every kind of object, three models of durability: every operation at once, only on closing the file, or a file unreadable unless it was closed",
  why="no test interrupts a save",
  files=["src/hdf_interface.hpp", "src/bz.hpp", "src/bz_trellis.hpp", "src/bz_mesh.hpp", "src/trellis_poly.hpp", "src/mesh.hpp", "src/interpolator.hpp", "src/polyhedron.hpp", "src/polyhedron_faces.hpp", "src/permutation_table.hpp"],
  mech=[("order of removing and writing", "src/hdf_interface.hpp"), ("what loading insists on", "from_hdf of src/*.hpp")],
  tech="crashes are injected at seeded operations of the simulated disk, only durable state survives, then real loads and saves run on it", note="seeded search over objects, crash points and durability models"),
 dict(id="S04", title="Files behave like maps from names to objects in every history",
  statement="Over any history of saves, overwrites, copies and loads in several files, with every way of opening a file, failed saves and crashes included, loading a name gives the object last saved under it; names never saved are refused; no operation changes another entry, creates or keeps a file against the way it was opened, or leaves a file open.",
  over=["histories", "inputs", "fault_sequences"], forall="histories of 3 to 10 operations on two files and nested names, by every kind of object, opened to create, to update, to truncate or exclusively",
  why="the tests save once and load once",
  files=["src/hdf_interface.hpp", "src/array2.tpp", "src/bz.hpp", "src/bz_trellis.hpp", "src/bz_mesh.hpp", "src/interpolator.hpp"],
  mech=[("overwriting by removing", "src/hdf_interface.hpp overwrite_group and overwrite_data"), ("permissions handed to the file", "to_hdf of src/*.hpp")],
  tech="seeded histories with injected errors and crashes run on the simulated disk against a reference map", note="seeded search over histories"),
 dict(id="S05", title="Loading survives read errors, missing parts and failing allocations",
  statement="When reading fails, a part of the entry is missing, the entry holds something else or nothing, or memory runs out while loading, the load throws a std::exception or gives exactly the stored object; it never gives another one, never corrupts memory, and a failing read loses no memory. Loading never changes a file and closes it, and a later load succeeds.",
  over=["inputs", "fault_sequences"], forall="every storage operation and every allocation of loading every kind of object, every missing part, every pair of kinds",
  why="no test makes a read or an allocation fail or removes parts of a file",
  files=["src/hdf_interface.hpp", "src/bz.hpp", "src/bz_trellis.hpp", "src/bz_mesh.hpp", "src/trellis_poly.hpp", "src/mesh.hpp", "src/interpolator.hpp", "src/array2.hpp", "src/basis.hpp", "src/polyhedron.hpp"],
  mech=[("reading parts and building from them", "from_hdf of src/*.hpp")],
  tech="read errors, lost writes and allocation failures are injected at seeded operations of real loads over the simulated disk", note="seeded search; memory lost when allocations fail is not claimed"),
 dict(id="Z01", title="A crystal described in any way has exactly its space group and metric",
  statement="A lattice given by lengths and angles (of any unit) or by vectors, real or reciprocal, together with its symmetry as Hall symbol, generators, full list of operations, International Table name, name with choice, or number, has exactly the operations, point group, centring and primitive lattice of that space group, metric and volume of that cell, its dual is the reciprocal lattice, and its atoms are mapped onto each other as the operations do. If memory runs out, a std::exception is thrown or the crystal is the right one, and building it again gives the right one.",
  over=["inputs", "schedules", "fault_sequences"], forall="530 settings of the 230 space groups, every spelling of operations, every cell compatible with the group, up to 3 callers building crystals at once, every allocation failing",
  why="the tests build a few lattices and compare a few Hall symbols; lists of generators whose products need more than one pass gave incomplete groups",
  files=["src/hall_symbol.cpp", "src/spg_database.cpp", "src/symmetry.cpp", "src/pointsymmetry.cpp", "src/pointgroup.cpp", "src/motion.hpp", "src/basis.hpp", "src/lattice_dual.hpp", "src/primitive.hpp", "src/bravais.cpp"],
  mech=[("decoding Hall symbols", "src/hall_symbol.cpp HallSymbol"), ("finding a name, choice or number in the table", "src/spg_database.cpp string_to_hall_number"), ("closing a list of generators", "src/symmetry.cpp generate, src/pointsymmetry.cpp generate"), ("reading operations", "src/motion.hpp from_ascii"), ("metric, dual and primitive lattices", "src/lattice_dual.hpp Lattice")],
  tech="seeded crystals are described in seeded ways by callers under the seeded scheduler, with fresh memory of seeded contents and seeded allocation failures; an independent decoder of Hall symbols and matrix algebra give the expected group, metric and atoms", note="seeded search over settings, cells, descriptions, schedules and failing allocations"),
 dict(id="Z02", title="Zones of every crystal are the right ones and points move into them",
  statement="For every space group and cell, the first Brillouin zone is the set of points not farther from the origin than from any other reciprocal lattice vector (of the centred lattice unless the conventional one is asked for); the irreducible zone lies in it, has its volume divided by the order of the point group (with inversion for time reversal), and its images under the group fill it without overlap. Every point moves into either zone or the wedge by a lattice vector and an operation of the group, and what is inside is judged accordingly; a crystal for which no zone is found is refused by a std::exception.",
  over=["inputs", "schedules", "fault_sequences", "configurations"], forall="530 settings of the 230 space groups, every compatible cell, every setting of the zone's configuration, up to 3 callers, every number of threads, every allocation failing",
  why="the tests build the zones of some known crystals and check volumes; wedges bounded by faces of the first zone and reads past the end of a face need particular cells and groups",
  files=["src/bz.hpp", "src/bz.cpp", "src/bz_wedge.cpp", "src/bz_move.cpp", "src/bz_config.hpp", "src/polyhedron_flex.hpp", "src/polyhedron_faces.hpp", "src/geometry.hpp", "src/transform.hpp"],
  mech=[("cutting by bisecting planes", "src/bz.cpp voro_search"), ("search for a wedge", "src/bz_wedge.cpp wedge_brute_force"), ("normals of the wedge", "src/bz.cpp get_ir_polyhedron_wedge_normals"), ("mirroring half zones", "src/bz.hpp check_if_mirroring_needed"), ("moving points", "src/bz_move.cpp ir_moveinto and moveinto")],
  tech="seeded crystals and configurations are built and used by callers and teams under the seeded scheduler, with fresh memory of seeded contents and seeded allocation failures; zones are judged by half spaces, volumes and random points against an independent decoder of Hall symbols", note="seeded search over settings, cells, configurations, points, schedules and failing allocations; a few cells for which brille reports that it found no zone are tried again with another cell of the same group"),
 dict(id="Z03", title="What brille derives from a group of operations describes that group",
  statement="For the operations of every point and space group in any order: orders, isometries, axes, inverses, proper parts, the class with its symbols, and the operations taking one vector to another are those of the matrices; the generators generate exactly the group and none of them can be left out; adding the inversion or time reversal gives exactly the smallest group with it; operations survive being written and read; and the table finds every setting by symbol, name and number with its class and centring. Answers do not depend on other callers asking at the same time, and if memory runs out a std::exception is thrown or the answer is right.",
  over=["inputs", "schedules", "fault_sequences"], forall="530 settings of the 230 space groups, turned settings which are not in the table, primitive cells, every order of the operations, up to 4 callers sharing the groups, every allocation failing",
  why="the tests look at the operations of a few groups; which generators are found depends on the order of the operations",
  files=["src/symmetry.cpp", "src/pointsymmetry.cpp", "src/pointgroup.cpp", "src/spg_database.cpp", "src/motion.hpp"],
  mech=[("finding generators", "src/pointsymmetry.cpp generators, src/symmetry.cpp generators"), ("classification by isometries", "src/pointgroup.cpp get_pointgroup_number"), ("axes", "src/pointgroup.cpp rotation_axis_and_perpendicular_vectors"), ("looking in the table", "src/spg_database.cpp")],
  tech="seeded groups in seeded orders are shared by callers under the seeded scheduler, with fresh memory of seeded contents and seeded allocation failures; exact integer matrix algebra and an independent decoder of Hall symbols give every expected answer", note="seeded search over settings, orders of operations, schedules and failing allocations"),
]
NOT_APPLICABLE = [
 dict(id="P01", title="The Python module answers as the library does",
  statement="Every function and class of the Python module gives what the library gives for the same arguments, keeps shared arrays alive as long as either side uses them, and turns every error into a Python exception.",
  over=["inputs", "programs"], forall="every function, every shape, type and memory order of arrays, every lifetime of objects",
  why="the Python tests sample a few calls", files=["wrap"], mech=[("bindings", "wrap/*.cpp")],
  reason="pybind11 and the packages the module needs are not installed and can not be fetched, so the module can neither be built nor run under the simulator"),
 dict(id="P02", title="Assignment solvers find an assignment of least cost",
  statement="For every square matrix of finite costs, each of the assignment solvers returns a permutation whose total cost is the least possible.",
  over=["inputs"], forall="every matrix of finite costs",
  why="the tests solve a few matrices", files=["src/munkres.hpp", "src/lapjv.hpp", "src/smp.hpp"], mech=[("assignment", "src/munkres.hpp, src/lapjv.hpp and src/smp.hpp")],
  reason="a pure function of one matrix without schedule, time, I/O or allocation behaviour that could change its answer: no seeded schedule or fault decides it (what sorting makes of its answers under every schedule is T11)"),
 dict(id="P03", title="Boolean operations of convex polyhedra give the exact volumes",
  statement="Cutting, intersecting, translating, mirroring and triangulating convex polyhedra preserves the identities of their volumes and containments up to rounding.",
  over=["inputs"], forall="every pair of convex polyhedra, every plane",
  why="the tests cut cubes and a few zones", files=["src/polyhedron_flex.hpp", "src/polyhedron_faces.hpp", "src/geometry.hpp"], mech=[("cutting faces by planes", "src/polyhedron_faces.hpp one_cut")],
  reason="pure geometry of its inputs: no schedule, time, I/O or fault can change an answer (its use for zones and grids, under schedules and faults, is decided by Z02, T06 and T07)"),
 dict(id="P04", title="Arithmetic of arrays follows the rules of broadcasting",
  statement="Arithmetic, comparison and reduction of arrays and lattice vectors give elementwise what scalar arithmetic gives, for every broadcastable pair of shapes and every view.",
  over=["inputs"], forall="every pair of broadcastable shapes, every view and memory order, every element type",
  why="the tests use a few shapes", files=["src/array2.hpp", "src/array2.tpp", "src/array_.hpp", "src/comparisons.hpp"], mech=[("broadcasting iterators", "src/subscript.hpp")],
  reason="single-threaded arithmetic without time, I/O or parties: no schedule or fault decides it (lifetimes of shared arrays and their concurrent use are decided by T10 and S01)"),
]
