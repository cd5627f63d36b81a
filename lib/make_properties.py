import json
I="include/kigumi/"
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    return d
L=[]
L.append(p("C01","Boolean results are exact as point sets",
"For any two regions whose boundary meshes meet the documented preconditions and any of the 16 operators, a point that lies on neither operand's boundary is inside the result if and only if the operator's truth table says so for its membership in the two operands. This holds however the boundaries touch: shared vertices and edges, faces that coincide or overlap partly with equal or opposite orientation, non-manifold edges and vertices, several components, nesting, unbounded regions, coordinates of any magnitude.",
["inputs","configurations"],"every pair of valid regions, all 16 operators, any number of threads",
"The stable tests classify six hand-made faces around one edge; none runs a whole operation on two meshes that intersect. Coincidences between two meshes come in unboundedly many combinations.",
[I+f for f in ["Boolean_region_builder.h","Corefine.h","Face_face_intersection.h","Intersection_point_inserter.h","Triangulation.h","Find_coplanar_faces.h","Classify_faces_locally.h","Propagate_face_tags.h","Classify_faces_globally.h","Extract.h","Boolean_operator.h"]],
[("corefinement of the two boundaries with exact symbolic intersections",I+"Corefine.h"),("radial classification around intersection edges",I+"Classify_faces_locally.h"),("ray based classification of the remaining components",I+"Classify_faces_globally.h"),("selection and flipping of faces per operator",I+"Extract.h, "+I+"Boolean_operator.h")],
["the region returned for each operator, as vertices and faces"],
[("face tags","interior, exterior, coplanar or opposite with respect to the other region",I+"Face_tag.h")]))
L.append(p("C02","Result boundaries are well-formed indexed meshes",
"The boundary of every result is an indexed triangle mesh with in-range indices, no unused and no coincident vertices, no zero-area and no duplicate faces, in which faces meet only in shared vertices and edges. Every edge is used equally often in both directions, except edges on the boundary of the region that open operands were clipped with. A result has no faces exactly when it is the empty set or the universe.",
["inputs","configurations"],"every pair of valid regions, all 16 operators, any number of threads",
"No stable test looks at an output mesh. Slivers, cracks and T-junctions appear only for particular coincidences of the inputs.",
[I+f for f in ["Corefine.h","Point_list.h","Intersection_point_inserter.h","Triangulation.h","Extract.h","Mix.h"]],
[("symbolically identified intersection points are inserted once",I+"Intersection_point_inserter.h, "+I+"Point_list.h"),("both meshes are triangulated alike where they overlap",I+"Triangulation.h"),("vertices are compacted on extraction",I+"Extract.h")],
["the boundary of each result"]))
L.append(p("C03","The empty set and the universe behave as sets",
"The empty set and the universe are accepted as either operand of every operator, alone or with an ordinary region, and the result is the set-theoretic one. A result that is the empty set or the universe is reported as exactly that, also when it arises from ordinary regions that are equal, complementary, nested, disjoint or touching. Such a region has no boundary faces, contains every or no point, and can be used as an operand again.",
["inputs","histories"],"all pairs drawn from {empty, universe, valid regions and regions derived from them}, all 16 operators, chains of operations",
"The stable tests contain no special region. Which special result a combination must give depends on the whole geometry, not on one sampled pair.",
[I+f for f in ["Boolean_region_builder.h","Region.h","Boolean_operator.h"]],
[("special operands bypass the mesh pipeline",I+"Boolean_region_builder.h"),("an empty extraction is resolved to empty or full",I+"Boolean_region_builder.h")],
["kind of the result, its boundary, its point location"]))
L.append(p("C04","Open boundaries work inside their common convex clip",
"Regions bounded by open meshes that are clipped with a common convex region can be combined with each other and with regions bounded by closed meshes inside the clip, by every operator. Inside the clip the result is exact as a point set, and its boundary is open only along the boundary of the clip. This includes surfaces that coincide, overlap, cross or end together on the boundary of the clip.",
["inputs","configurations"],"every pair of valid regions with at least one open boundary, all 16 operators, any number of threads",
"No stable test uses an open mesh in an operation.",
[I+f for f in ["Classify_faces_locally.h","Classify_faces_globally.h","Side_of_triangle_soup.h","Propagate_face_tags.h","Boolean_region_builder.h"]],
[("point location by the segment to a face rather than by a ray to infinity",I+"Side_of_triangle_soup.h"),("undefined and inconsistent configurations are left to global classification",I+"Classify_faces_locally.h")],
["the region returned for each operator"]))
L.append(p("C05","Face data follow the geometry they were attached to",
"Every face of a result carries the data of an input face that contains it geometrically and faces the same or, if the operator inverts the operand, the opposite way. Where faces of both operands coincide, the data come from the operand the caller prefers. The data of faces that an operation leaves alone are unchanged, and nothing is lost when data are copied, moved, saved or loaded with the mesh.",
["inputs","configurations"],"every pair of valid regions, all 16 operators, both preferences, any data",
"The test of face data is not part of the stable baseline and covers one pair of cubes.",
[I+f for f in ["Mix.h","Extract.h","Boolean_operator.h","Boolean_region_builder.h","Triangle_soup.h"]],
[("each sub-face inherits the data of the face it was cut from",I+"Mix.h"),("masks per operator and preference",I+"Boolean_operator.h")],
["data and geometry of each face of each result"]))
L.append(p("C06","Point location is exact",
"Asking a region on which side of its boundary a point lies gives the exact answer: on the boundary exactly if the point is on a face, edge or vertex, otherwise inside or outside according to the set the boundary encloses. This holds for bounded and unbounded regions, non-manifold boundaries, several components, points arbitrarily close to the boundary, points in line with vertices, edges and faces, and for any order of queries.",
["inputs","histories"],"every valid region and every point, sequences of queries on shared and copied regions",
"The point location test is not in the stable baseline and samples 27 points of one cube.",
[I+f for f in ["Region.h","Side_of_triangle_soup.h","AABB_tree/AABB_tree.h"]],
[("nearest crossed face on a segment to a face, with retries for degenerate hits",I+"Side_of_triangle_soup.h"),("box hierarchy",I+"AABB_tree/AABB_tree.h")],
["the side returned for each query"]))
L.append(p("C07","Saved regions are restored exactly and portably",
"A region that is saved and loaded again is identical: its kind, the exact rational coordinates of its vertices, its faces in order and the data attached to them. Loading replaces whatever the target held before. The bytes written follow one fixed layout with every number in its shortest form, whatever the arithmetic backend, so that files can be exchanged between builds, and files written by earlier builds keep loading.",
["inputs","configurations"],"every region, including special ones and results of operations with arbitrarily long rationals; each pairing of writer and reader build",
"No stable test writes or reads a region. Rational coordinates that are not doubles appear only after operations.",
[I+f for f in ["Region.h","Region_io.h","Triangle_soup.h","io.h","Mesh_indices.h"]],
[("exact coordinates are written when they are not doubles",I+"Triangle_soup.h"),("length-prefixed little-endian numerators and denominators",I+"io.h")],
["bytes written, region read back"]))
L.append(p("C08","Hostile or damaged files are rejected without harm",
"Reading any byte sequence as a region file or as an OBJ, OFF or PLY mesh either succeeds with a mesh - finite coordinates, faces that refer to vertices that exist - or reports failure, by its return value or by an exception derived from std::exception. It never crashes, never runs forever and never uses memory out of proportion to the input. A file cut off or damaged so that it is no longer complete, or that has something else where a number, an index or a line of the header has to be, is not reported as read successfully, and a failed read leaves the target object as it was.",
["inputs","fault_sequences"],"every byte sequence, in particular truncations and mutations of valid files, for each reader",
"No stable test reads a file.",
[I+f for f in ["Region_io.h","Triangle_soup_io.h","Triangle_soup.h","io.h","io/obj.h","io/off.h","io/ply.h","io/ascii.h"]],
[("stream state checks",I+"Region_io.h"),("tokenisers and range checks",I+"io/ascii.h, "+I+"io/ply.h")],
["return value, exceptions, peak memory, state of the target"]))
L.append(p("C09","OBJ, OFF and PLY meshes survive reading and writing",
"Meshes written as OBJ, OFF or PLY read back with the same faces and with each coordinate unchanged if it is a double and otherwise replaced by one of the two doubles around it, in every locale. Reading accepts the legal variations of each format - comments, blank lines, different whitespace and line ends, extra elements and properties, negative and slashed OBJ indices - and takes polygons as triangle fans in order. The same mesh in different formats or spellings reads as the same mesh.",
["inputs"],"every mesh and every legal spelling of it in the supported subset of each format",
"No stable test reads or writes a mesh file.",
[I+f for f in ["Triangle_soup_io.h","io/obj.h","io/off.h","io/ply.h","io/ascii.h"]],
[("shortest round-trip formatting of doubles",I+"io/ascii.h"),("format parsers",I+"io/obj.h, "+I+"io/off.h, "+I+"io/ply.h")],
["the mesh read, the text written and parsed by an independent reader"]))
L.append(p("C10","Reading and writing failures are reported",
"When a write cannot be completed - the device is full, a size limit is hit, the path cannot be opened - the caller is told: no write reports success unless every byte reached the file. When a read fails part-way because the device reports an error, the read does not report success with a partial mesh. A command of the program that cannot read its inputs or write its outputs exits with a non-zero status.",
["fault_sequences","crash_points"],"a write or read fault at any byte offset, for every format and for the program",
"No stable test injects a fault.",
[I+f for f in ["Region_io.h","Triangle_soup_io.h","io/obj.h","io/off.h","io/ply.h"]]+["cli/utility.h","cli/main.cc"],
[("stream state is returned",I+"Region_io.h and the writers in "+I+"io/")],
["return value versus bytes in the file under injected faults"]))
L.append(p("C11","The defect finder reports exactly the defects there are",
"For any triangle mesh, valid or not, after merging vertices with equal coordinates, the defect finder lists exactly the isolated vertices, non-manifold vertices, boundary edges, inconsistently oriented edges, non-manifold edges, faces degenerate by repeated vertices, and faces of zero area. It lists at least one face of every set of intersecting faces and none that intersects no other face beyond shared vertices and edges. The answer does not depend on the number of threads, nor on the order of faces except in which face of an intersecting set is listed.",
["inputs","configurations"],"every triangle mesh, including invalid ones; any number of threads",
"The defect finder is compiled by no stable test.",
[I+f for f in ["Find_defects.h","Dense_undirected_graph.h","Face_face_intersection.h","Point_list.h"]]+["cli/defects_command.cc"],
[("edge use counts",I+"Find_defects.h"),("vertex links as graphs",I+"Dense_undirected_graph.h"),("pairwise intersection over a box hierarchy",I+"Find_defects.h")],
["the lists reported"]))
L.append(p("C12","Results do not depend on threads or scheduling",
"For fixed inputs, every operation gives the same region - the same set with the same data on its boundary, and the same warnings - for every number of threads and for every schedule of them. Repeating an operation in one process or in several threads at once gives the same result as running it alone.",
["schedules","configurations","inputs"],"every thread count and interleaving of the worker threads, concurrent callers, all valid inputs",
"The stable tests run one classification in one thread.",
[I+f for f in ["parallel_do.h","parallel_sort.h","Corefine.h","Mix.h","Classify_faces_globally.h","threading.h"]],
[("work items are merged under a lock",I+"parallel_do.h"),("results are sorted before use",I+"Corefine.h")],
["canonical form of results per thread count and repetition"]))
L.append(p("C13","The library is free of data races",
"While an operation runs with several threads, no two threads access the same memory without synchronisation if one of them writes. Distinct operations may run concurrently in different threads, also when they share operands that nobody modifies, and concurrent point queries on one region are safe.",
["schedules","inputs"],"every interleaving of the worker threads of one operation and of concurrent callers, all valid inputs",
"The stable tests create no threads that share data.",
[I+f for f in ["parallel_do.h","parallel_sort.h","Corefine.h","Mix.h","Find_coplanar_faces.h","Classify_faces_globally.h","Propagate_face_tags.h","Triangle_soup.h","AABB_tree/AABB_tree.h"]],
[("an atomic work counter and a mutex",I+"parallel_do.h"),("lazily built box hierarchy behind a mutex",I+"Triangle_soup.h")],
["happens-before race detector on the instrumented library"]))
L.append(p("C14","No undefined behaviour or memory error on valid use",
"No operation on valid regions, no point query, no copying, moving or assigning of regions, no saving or loading, and no defect search on any mesh with in-range indices reads or writes outside live objects, leaks memory, violates a precondition of the geometry kernel or has other undefined behaviour. This includes use from short-lived threads, re-use of threads for unrelated operations, and operations that end in an exception.",
["inputs","histories","configurations"],"all valid inputs and histories of calls, single- and multi-threaded",
"The stable tests are built without sanitizers and reach a fraction of the code.",
["include/kigumi"],
[("value semantics and bounds-checked access",I+"Triangle_soup.h"),("thread-local scratch objects",I+"Corefine.h, "+I+"Find_defects.h, "+I+"Classify_faces_globally.h")],
["address, undefined-behaviour and leak sanitizers, kernel assertions"]))
L.append(p("C15","Parallel loops and sorts do each item exactly once",
"A parallel loop calls its body exactly once for every item before it returns, gives every worker its own state, and hands each worker's final state to the merge step exactly once and one at a time; if a body throws, one of the exceptions thrown reaches the caller after all workers have stopped. A parallel sort leaves the same elements in non-descending order; if a comparison throws, one of the exceptions thrown reaches the caller after all workers have stopped. This holds for every length and every number of threads.",
["schedules","inputs","configurations"],"every range length, thread count, body duration, throwing position and interleaving",
"The stable tests use neither directly.",
[I+f for f in ["parallel_do.h","parallel_sort.h","threading.h"]],
[("atomic work counter, joined threads, first exception kept",I+"parallel_do.h"),("barrier-separated merge tree",I+"parallel_sort.h")],
["log of calls per item, state and thread"]))
L.append(p("C16","Spatial search misses no candidate",
"A search of the box hierarchy of a mesh for a query box, segment, line or other query reports every face whose box the query meets, each once, for any number, size and arrangement of faces, including none, one, many identical and zero-thickness boxes. Searching for pairs between two meshes reports every pair of faces that truly intersect.",
["inputs"],"every set of boxes and every query",
"No stable test searches a hierarchy.",
[I+f for f in ["AABB_tree/AABB_tree.h","AABB_tree/AABB_node.h","AABB_tree/AABB_leaf.h","Find_possibly_intersecting_faces.h","mesh_utility.h"]],
[("recursive median split with merged boxes",I+"AABB_tree/AABB_tree.h")],
["the leaves reported versus a linear scan"]))
L.append(p("C17","Triangle-triangle intersection is exact and symbolic",
"For any two non-degenerate triangles in space, the intersection reported is exact: it is empty exactly if the triangles are disjoint, and otherwise its corners are the corners of the true intersection polygon in cyclic order, each attributed to the right vertex, edge or face of each triangle. The answer is equivariant under reordering the vertices of a triangle and exchanging the triangles.",
["inputs"],"every pair of non-degenerate triangles, including coplanar and touching ones",
"The test of intersections is not in the stable baseline and has a fixed list of configurations.",
[I+f for f in ["Face_face_intersection.h","Triangle_region.h","Intersection_point_inserter.h"]],
[("sign-based classification and bit-coded triangle regions",I+"Face_face_intersection.h, "+I+"Triangle_region.h")],
["symbolic corners and constructed points versus an independent clipper"]))
L.append(p("C18","Operations leave operands alone and have no memory",
"Applying operators, querying points and looking for defects do not change the operands: their vertices, faces, data and answers to later queries stay as they were. The outcome of a call depends only on its arguments, not on earlier calls in the same thread, on failed calls, on the order in which operators are requested, or on whether an operand is an original, a copy, moved or edited; a region that was edited answers for its present boundary.",
["histories","inputs"],"every sequence of operations, queries, copies, moves, assignments and edits",
"Each stable test makes one call.",
[I+f for f in ["Region.h","Triangle_soup.h","Boolean_region_builder.h","Corefine.h","Side_of_triangle_soup.h","Classify_faces_locally.h"]],
[("copies rebuild cached structures",I+"Triangle_soup.h"),("one builder serves many operators",I+"Boolean_region_builder.h")],
["answers along histories versus fresh objects"],
[("cached box hierarchy","built on first query of a mesh",I+"Triangle_soup.h")]))
L.append(p("C19","The program does what its commands say",
"'boolean' writes, for each requested output, the intersection, union, difference or symmetric difference of its two inputs in the format of the file name; 'convert' writes the input in another format; 'defects' prints the number of each kind of defect. Inputs may be files of any supported format or the special names for the empty set and the universe. Formats other than .kigumi hold the boundary of the result only, which has no faces if the result is empty or everything. Wrong usage, unreadable input and unwritable output give a message on standard error and a non-zero exit status, success gives zero.",
["inputs","configurations"],"every combination of command, options, formats and inputs",
"No stable test starts the program.",
["cli/main.cc","cli/boolean_command.cc","cli/convert_command.cc","cli/defects_command.cc","cli/utility.h","docs/cli.md"],
[("one command object per sub-command","cli/main.cc"),("format chosen by file name","cli/utility.h, "+I+"Triangle_soup_io.h")],
["exit status, standard error, output files"]))
L.append(p("C20","Thread settings are scoped and respected",
"The number of threads set for a scope holds in the calling thread until the scope ends and is then restored, also when scopes nest or end by an exception, and never affects other threads. Set to one, no operation starts a thread; set to n, a parallel loop or sort works on at most n items at a time. Values out of range are clamped to what the machine has.",
["configurations","histories","schedules"],"every nesting of scopes, every number of threads, every operation",
"No stable test sets a number of threads.",
[I+f for f in ["Context.h","threading.h","parallel_do.h","parallel_sort.h"]],
[("thread-local current options with restore on destruction",I+"Context.h")],
["current setting over time, threads created by each operation"]))
L.append(p("C21","Results compose: set algebra holds across operations",
"Results can be used as operands to any depth, and the laws of set algebra hold between composed results: De Morgan, distributivity, absorption, double complement, A minus B equals A meet complement of B, and symmetric difference as union minus intersection, tested as equality of regions. Volumes are conserved exactly: vol(A)+vol(B) = vol(union)+vol(intersection), and swapping the operands together with the operator changes nothing.",
["histories","inputs"],"every expression over valid regions and operators",
"No stable test composes operations.",
[I+f for f in ["Boolean_region_builder.h","Corefine.h","Point_list.h","Triangle_soup.h"]],
[("exact coordinates are kept in results",I+"Corefine.h"),("equal points are identified",I+"Point_list.h")],
["volumes and symmetric differences of composed results"]))
L.append(p("C22","No false warnings; inconsistent open meshes are flagged",
"An operation on valid regions gives no warning, and does not fail, whatever the operators asked for. If an open boundary ends in the interior of the region of interest so that its surface only partly cuts the other boundary, and one connected piece of it would have to be both inside and outside, the operation warns and names the operand concerned.",
["inputs","configurations"],"every pair of valid regions; pairs in which one open surface ends inside the other region's boundary surface",
"No stable test looks at warnings of a whole operation.",
[I+f for f in ["Warnings.h","Propagate_face_tags.h","Mix.h","Classify_faces_locally.h","Classify_faces_globally.h"]],
[("conflicting tags met during propagation",I+"Propagate_face_tags.h")],
["warnings of the operation"]))
L.append(p("C23","Adjacency queries on meshes are complete",
"For any mesh of faces with distinct vertices, asking for the faces around an edge, or next to a face across edges that are not in a given border set returns exactly those faces, each the right number of times, regardless of the order of construction, vertex valence, non-manifold edges, unused vertices and the number of threads used to index the mesh. The points, faces and data of a mesh are those that were put in, also after it was copied, moved or taken out as a soup.",
["inputs","configurations"],"every triangle mesh, every query, every border set",
"The stable tests index meshes of at most four faces.",
[I+f for f in ["Triangle_mesh.h","Mesh_iterators.h","Mesh_entities.h","parallel_sort.h"]],
[("sorted vertex-face incidence with offsets",I+"Triangle_mesh.h")],
["faces returned versus a linear scan"]))
L.append(p("C24","Running out of memory or threads is survivable",
"When an allocation (operator new) fails or a thread cannot be started in the middle of a call - an operation, a query, a search for defects, loading, saving, building, copying or assigning a mesh, a parallel loop or sort - the call either still completes with the right result or fails with an exception (or a failed status, for files) that the caller can catch: the process is not ended, no thread is left running or waiting, no operand is changed, a mesh that was being assigned or added to is as it was, and the same call made again on the same objects in the same thread gives the right result.",
["inputs","schedules","faults"],"every call, every allocation or thread start that may fail, alone or with all that follow, any number of threads, and every call after it",
"The stable tests never meet a failing allocation or thread start.",
[I+f for f in ["parallel_do.h","parallel_sort.h","threading.h","AABB_tree/AABB_tree.h","Triangle_soup.h","Triangle_mesh.h","Point_list.h","Propagate_face_tags.h","Boolean_region_builder.h"]],
[("thread start, joining and rethrowing",I+"parallel_do.h"),("rounds of the sort after a failure",I+"parallel_sort.h"),("scratch objects kept by each thread",I+"Propagate_face_tags.h")],
["exceptions, threads alive, operands, results of the same call made again"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in L))
