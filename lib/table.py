"""The checks: which harness parts decide which property, and how much they run."""

PAIRS = ("Pairs of regions from seeded generators (voxel solids on shared or overlaid grids, lattice polytopes, "
         "stars, tori, several components, nested, results of earlier operations, open height fields over a common "
         "box, complements, far/tiny/huge placements), validated by an independent checker on a sample. ")


def part(bin_, prop, quick, thorough, name=None, **kw):
    return dict(bin=bin_, prop=prop, name=name or f"{bin_}/{prop}", quick=quick, thorough=thorough, **kw)


# For parts whose violations other checks judge: only what ends the process counts.
NOTHING = "(?!)"

NOT_APPLICABLE = {}
HOOKS = None

HELD = ("Held on the executions counted in the evidence, judged by exact oracles that share no code with the library; nothing is "
        "claimed about inputs the generators do not produce. ")
TRUST = "Trusts CGAL's exact number types and predicates, the compiler, and the shim that lets the library build with CGAL 5.6. "

CHECKS = {
    "C01": dict(
        technique="runtime monitoring: exact membership oracle over results of generated operations",
        level_note=HELD + TRUST,
        build=["core"],
        parts=[part("core", "C01", 10000, 200000)],
        rule=PAIRS + "Every one of the 16 operators is applied; membership of random points, points next to faces of the "
             "operands and points next to faces of the result is compared with the operator applied to the operands. "
             "Non-trivial: all 16 results were judged; distinct by coordinates and connectivity of the operands.",
        require={"quick": {"memberships": 500000, "results": 80000}},
    ),
    "C02": dict(
        technique="runtime monitoring: structural invariant checker over results of generated operations",
        level_note=HELD + TRUST,
        build=["core"],
        parts=[part("core", "C02", 3000, 40000)],
        rule=PAIRS + "Six operators per pair (all 16 when thorough); the boundary of each result is checked for index range, unused or "
             "coincident vertices, degenerate or duplicate faces, edge balance (except on the clipping boundary) and "
             "pairwise intersections. Non-trivial: all results were judged.",
        require={"quick": {"results": 15000, "result_faces": 200000}},
    ),
    "C03": dict(
        technique="runtime monitoring: membership and kind oracle over histories of operations on a cell complex",
        level_note=HELD + TRUST,
        build=["core"],
        parts=[part("core", "C03", 8000, 120000)],
        rule="Histories over sets of cells of a random grid (equal, complementary, nested, disjoint, touching, empty, everything): the result of "
             "each operator must have the kind and the members the cells say, and is used again as an operand, alone or with special regions; "
             "also special regions with pairs of regions from all generators. Distinct by the operands; non-trivial: every result was judged.",
        require={"quick": {"empty_results": 5000, "full_results": 5000, "bounded_results": 5000}},
    ),
    "C04": dict(
        technique="runtime monitoring: exact membership oracle and boundary checker over operations on open meshes",
        level_note=HELD + TRUST,
        build=["core"],
        parts=[part("core", "C04", 6000, 90000)],
        rule="Pairs with at least one open boundary clipped with a common box (height fields that cross, touch, coincide in part, end together; "
             "voxel sets cut by the box; layers; closed meshes inside). All 16 operators; membership inside the clip, openness of "
             "the boundary only on the clip, and re-use of results as operands. Non-trivial: all results were judged.",
        require={"quick": {"memberships": 300000, "results": 50000}},
    ),
    "C05": dict(
        technique="runtime monitoring: provenance of every face of the result traced geometrically to input faces",
        level_note=HELD + TRUST,
        build=["core"],
        parts=[part("core", "C05", 8000, 100000)],
        rule=PAIRS + "Every input face carries its own payload. Each face of a result must lie in the input face its payload names, with the "
             "orientation the operator asks for; where operands coincide the payload must be the preferred operand's. Non-trivial: all faces were traced.",
        require={"quick": {"faces_traced": 300000, "faces_on_both": 5000, "faces_inverted": 10000}},
    ),
    "C06": dict(
        technique="runtime monitoring: exact point location oracle over sequences of queries",
        level_note=HELD + TRUST,
        build=["core"],
        parts=[part("core", "C06", 8000, 120000)],
        rule="Regions from all generators, their complements and results of operations; points on vertices, edges and faces, next to them at "
             "distances down to 1e-300, in line with vertices and edges, at centres, far away; queried in sequences on originals, copies and moved objects. "
             "The oracle shoots an exact ray and counts. Non-trivial: all queries were judged.",
        require={"quick": {"inside": 20000, "outside": 20000, "on": 20000}},
    ),
    "C21": dict(
        technique="runtime monitoring: laws of set algebra and exact volume conservation over composed operations",
        level_note=HELD + TRUST,
        build=["core"],
        parts=[part("core", "C21", 1500, 24000)],
        rule=PAIRS + "Both sides of a random law over expressions of depth up to 2 are built, compared with the operator itself and with an independent membership "
             "oracle; volumes of all 16 results against the inclusion-exclusion polynomial; operands swapped. Non-trivial: all comparisons were made.",
        require={"quick": {"laws": 1000, "volumes": 15000, "swaps": 3000}},
    ),
    "C22": dict(
        technique="runtime monitoring: warnings checked against constructed consistent and inconsistent configurations",
        level_note=HELD + TRUST,
        build=["core"],
        parts=[part("core", "C22", 10000, 150000)],
        rule=PAIRS + "Operations on them must give no warning. Open sheets that end inside the other boundary so that a connected piece would be both inside "
             "and outside must be flagged on the right operand. Non-trivial: the warnings of the operation were judged.",
        require={"quick": {"consistent": 3000, "inconsistent": 3000}},
    ),
    "C12": dict(
        technique="runtime monitoring: differential comparison of runs over thread counts, perturbed schedules and concurrent callers",
        level_note=HELD + "Schedules are those the operating system produced under injected delays; the number of distinct orders seen is in the evidence. " + TRUST,
        build=["runs"],
        parts=[part("runs", "C12", 1600, 30000)],
        rule=PAIRS + "A fifth of them large. Each is run with one thread, then with 2 to 8 threads while thread starts and allocations are delayed at random, "
             "then by several callers at once on shared operands with point queries in between; results (same triangles, or "
             "same sets with same data) and warnings must agree. Interleavings are told apart by the order in which threads pass the delay points.",
        require={"quick": {"interleavings": 500, "concurrent_callers": 500, "threads_started": 50000}},
    ),
    "C18": dict(
        technique="runtime monitoring: histories of calls replayed against fresh calls, snapshots of all operands compared after every step",
        level_note=HELD + TRUST,
        build=["runs"],
        parts=[part("runs", "C18", 6000, 90000)],
        rule="Random histories of operations (with new and kept builders), point queries, defect searches, copies, moves, edits of boundaries, replaced "
             "boundaries, and calls that fail; each operation is compared with the same call on rebuilt operands in a fresh thread, each query with "
             "the exact oracle, and every region with its snapshot after every step. Distinct by the initial operands; non-trivial: the history was completed.",
        require={"quick": {"calls": 8000, "queries": 20000, "edits": 2000, "bad_calls_failed": 500, "calls_of_kept_builders": 800}},
    ),
    "C20": dict(
        technique="runtime monitoring: model of nested scopes, and intercepted thread creation during every operation",
        level_note=HELD + TRUST,
        build=["runs"],
        parts=[part("runs", "C20", 2000, 30000, chunk=50)],
        rule="Random nestings of scopes with random settings on machines reported with 0 to 16 processors, left normally and by exceptions, on several threads; "
             "loops and sorts measured for how many items they work on at a time; every operation in a scope of one thread with thread creation "
             "intercepted. Non-trivial: all parts of the case were completed.",
        require={"quick": {"scopes": 30000, "loops": 2000, "sorts": 2000, "operations_of_one_thread.combining": 1500}},
    ),
    "C15": dict(
        technique="runtime monitoring: event log of every loop body, worker state and merge; permutation and order checker for sorts",
        level_note=HELD + "Schedules are those the operating system produced under injected delays; the number of distinct orders seen is in the evidence. " + TRUST,
        build=["loops"],
        parts=[part("loops", "C15", 20000, 300000)],
        rule="Loops over 0 to 600 items in arrays, deques and index ranges with 1 to 16 threads, with and without states, bodies that yield, sleep and throw "
             "(several, first, last, late); sorts of 0 to 20000 elements around the block size, with few or many distinct keys, sorted and reversed, of pairs and of "
             "strings, as parts of arrays; sorts whose comparison throws. Thread starts and allocations are delayed at random. Non-trivial: all loops and sorts of the case were judged.",
        require={"quick": {"loops": 50000, "items": 1000000, "loops_with_several_exceptions": 3000, "sorts": 25000, "item_orders": 1000, "sorts_with_exceptions": 2000}},
    ),
    "C16": dict(
        technique="runtime monitoring: searches compared with a linear scan; pairs compared with an independent exact intersection test",
        level_note=HELD + TRUST,
        build=["search"],
        parts=[part("search", "C16", 20000, 300000)],
        rule="Boxes on small lattices, random, spread over 600 binary orders of magnitude, flat, identical, infinite, 0 to 1500 of them, in trees built with 1 to 8 threads; queries with boxes, "
             "segments, rays, triangles and planes through corners and anywhere; pairs of faces between meshes of all generators, also with faces already tagged. "
             "Lines are left out because CGAL's own test of a box against a line is wrong for flat boxes. Non-trivial: all queries of the case were judged.",
        require={"quick": {"boxes_met": 5000000, "searches.box": 50000, "searches.ray": 50000, "pairs_reported": 1000000}},
    ),
    "C17": dict(
        technique="runtime monitoring: reported intersections compared with a rational-arithmetic clipping oracle",
        level_note=HELD + TRUST,
        build=["triangles"],
        parts=[part("triangles", "C17", 50000, 900000)],
        rule="Pairs of non-degenerate triangles on small lattices, coplanar, touching at vertices, edges and interiors, crossing at chosen points, random doubles, scaled by up to 2^500; each in three orders of "
             "vertices and triangles. Corners, their order, their attribution and the points constructed for them are compared. Non-trivial: all pairs of the case were judged.",
        require={"quick": {"corners.1": 20000, "corners.2": 50000, "corners.3": 8000, "corners.4": 5000, "corners.5": 800, "corners.6": 40}},
    ),
    "C23": dict(
        technique="runtime monitoring: adjacency queries compared with a linear scan",
        level_note=HELD + TRUST,
        build=["adjacency"],
        parts=[part("adjacency", "C23", 150000, 2000000)],
        rule="Random sets of faces over 3 to 400 vertices with high valence, duplicate and reversed faces, non-manifold edges and unused vertices, built at once, face by face, indexed twice, "
             "copied and moved, with 1 to 8 threads; edges and faces with random border sets. Non-trivial: all queries of the case were judged.",
        require={"quick": {"edge_queries": 4000000, "face_queries": 4000000}},
    ),
    "C24": dict(
        technique="runtime monitoring: injected failures of memory allocation and thread creation, with outcomes, operands and later calls compared",
        level_note=HELD + "Allocations made by operator new fail; GMP and MPFR end the process when theirs fail, and theirs are left alone. CGAL's thread-local constants are made before failures begin. " + TRUST,
        build=["faults"],
        parts=[part("faults", "C24", 5000, 80000)],
        rule=PAIRS + "Every case makes 4 to 8 calls (set operations, queries, searches for defects, saving and loading in all formats, building and assigning meshes, loops, sorts) with 1 to 5 threads, in which one, "
             "a few, or all allocations or thread starts from a random one on fail (drawn from all of the call, or from those of one place in the code); then, half of the time, an operation on two other small operands, and the same call again without faults, in the same thread and on the same objects. Non-trivial: all calls were judged.",
        require={"quick": {"faults_at_one_place": 10000, "places_that_allocate": 150, "other_calls_in_between": 5000, "calls_failed": 15000, "calls_completed_after_a_fault": 20, "rounds.operation": 8000, "rounds.query": 1200, "rounds.defects": 1200, "rounds.files": 1200,
                           "rounds.mesh_files": 1200, "rounds.building": 2500, "rounds.loop_and_sort": 1200}},
    ),
    "C13": dict(
        technique="sanitizers: ThreadSanitizer over parallel operations, concurrent callers and failing calls under injected delays",
        level_note="ThreadSanitizer was silent on the executions counted in the evidence. GMP and MPFR are not instrumented. Schedules are those the operating system "
                   "produced under injected delays, but races are found by happens-before, not by their effects. " + TRUST,
        build=["race"],
        parts=[part("race", "C13", 1400, 30000)],
        rule=PAIRS + "Run with 2 to 8 threads, results re-used before they are evaluated; 2 to 5 callers at once on shared operands and a shared builder (operations, queries, copies, saving, "
             "loading, defect searches, adjacency queries); loops and sorts with bodies that do not synchronise and may throw; operations that fail with several threads. "
             "Distinct by the operands; non-trivial: the workload was completed. Interleavings are told apart by the order in which threads pass the delay points.",
        require={"quick": {"operations": 500, "callers": 400, "loops": 200, "failures": 100, "interleavings": 200}},
    ),
    "C07": dict(
        technique="runtime monitoring: bytes written and regions loaded compared with an independent codec, across builds and golden files",
        level_note=HELD + "Bytes are compared with an independent encoder and decoder; two builds (GMP and Boost numbers) exchange files. " + TRUST,
        build=["io", "io_boost"],
        parts=[part("io", "C07", 8000, 120000, chunk=250)],
        rule="Regions with any faces, face data of five types, coordinates of every kind (special doubles, rationals of up to 8192 bits, evaluated and unevaluated expressions), special regions and results "
             "of operations; saved to streams and files, decoded independently, loaded into fresh and used targets, several from one stream, saved again, loaded from files in every "
             "legal encoding; exchanged with a build with the other arithmetic; 40 files of the first version. Non-trivial: every step was judged.",
        require={"quick": {"regions": 30000, "exchanged": 600, "golden": 20, "results_saved_with_rationals": 500, "vertices.rationals": 80000}},
    ),
    "C08": dict(
        technique="runtime monitoring and sanitizers: damaged files read under memory and time watch, with ASan and UBSan, judged by independent parsers",
        level_note=HELD + "Independent parsers say which files are certainly incomplete or certainly valid; for the rest, only sanity of the outcome is judged. " + TRUST,
        build=["io", "io_boost", "io_asan"],
        parts=[part("io", "C08", 12000, 300000), part("io_boost", "C08", 6000, 150000), part("io_asan", "C08", 6000, 150000)],
        rule="Valid files in all four formats, cut off, with changed bytes, with hostile values in each kind of field (counts, lengths, indices, flags, doubles) and word, with lines lost, doubled "
             "and swapped, and garbage; ten per case, from streams and files. Watched: outcome, exceptions, memory per input byte, processor time, the target before and after. "
             "Non-trivial: all ten reads were judged.",
        require={"quick": {"kigumi.incomplete": 50000, "kigumi.invalid": 8000, "kigumi.valid": 8000, "off.incomplete": 8000, "ply.incomplete": 8000, "accepted": 30000}},
    ),
    "C09": dict(
        technique="runtime monitoring: texts written and meshes read compared with independent parsers and generated spellings",
        level_note=HELD + TRUST,
        build=["io"],
        parts=[part("io", "C09", 15000, 250000)],
        rule="Meshes written in each format, to streams and files, parsed independently and read back over other meshes; polygons with doubles of every kind in nine random legal spellings. "
             "A tenth of the cases run in a locale that groups digits. Non-trivial: all texts of the case were judged.",
        require={"quick": {"spellings.obj": 30000, "spellings.off": 30000, "spellings.ply": 30000, "round_trips.obj": 3000, "round_trips.off": 3000, "round_trips.ply": 3000}},
    ),
    "C10": dict(
        technique="runtime monitoring with fault injection: outcome compared with the bytes that reached the file, in the library and the program",
        level_note=HELD + "Faults are injected at the stream, by file size limits, full devices and paths that cannot be opened. " + TRUST,
        build=["io", "cli", "kigumi"],
        parts=[part("io", "C10", 4000, 80000), part("cli", "C10", 3000, 50000)],
        rule="Meshes and regions in all formats, up to several buffers long: written to streams that stop or throw after any number of bytes, to files limited in size, to full devices, to "
             "paths that cannot be opened; read from devices that fail after any number of bytes. The program with inputs missing, empty, damaged, of unknown formats, outputs that cannot be "
             "created, are limited or full, and a full standard output; six commands per case. Non-trivial: every outcome was judged.",
        require={"quick": {"write_faults.stream": 5000, "write_faults.size_limit": 5000, "read_faults.stream": 5000, "program.input_faults": 3000, "program.output_faults": 3000}},
    ),
    "C11": dict(
        technique="runtime monitoring: lists of defects compared with definitions evaluated on all vertices, edges and pairs of faces in rational arithmetic",
        level_note=HELD + TRUST,
        build=["defects"],
        parts=[part("defects", "C11", 7000, 150000)],
        rule="Arbitrary faces over lattice, random, planar, signed-zero and distant points with duplicates; fans around vertices and edges; solids from all generators, whole, merged with another, and "
             "damaged (faces lost, flipped, doubled, flattened, vertices pinched, moved, unused, split). Each searched with two numbers of threads. Non-trivial: all lists were judged.",
        require={"quick": {"found.isolated_vertices": 4000, "found.non_manifold_vertices": 10000, "found.boundary_edges": 20000, "found.inconsistent_edges": 3000, "found.non_manifold_edges": 10000,
                           "found.trivial_degenerate_faces": 5000, "found.non_trivial_degenerate_faces": 500, "found.overlapping_pairs": 40000}},
    ),
    "C19": dict(
        technique="runtime monitoring: runs of the program judged by independent readers of its output files, set membership and defect oracles",
        level_note=HELD + TRUST,
        build=["cli", "kigumi"],
        parts=[part("cli", "C19", 12000, 150000)],
        rule="The executable run on files written by independent encoders in all four formats and spellings, with arguments by position and by name in any order, odd file names, special inputs, outputs over inputs and old files. "
             "boolean: membership of points in each output, absence of others, warnings; convert: same mesh; defects: counts; wrong usage of nine kinds. Non-trivial: the run was judged.",
        require={"quick": {"boolean": 4000, "convert": 1500, "defects": 1200, "wrong_usage": 800, "memberships": 100000, "memberships_in_text": 40000, "warnings.1": 100, "warnings.2": 100, "warnings.3": 30}},
    ),
    "C14": dict(
        technique="sanitizers: AddressSanitizer, UndefinedBehaviorSanitizer and LeakSanitizer with all assertions, and Valgrind's memcheck for memory that is not initialised, over histories, faults, threads, files and the program",
        level_note="The sanitizers and assertions were silent on the executions counted in the evidence. GMP and MPFR are not instrumented (their allocations are). " + TRUST,
        build=["mem1", "mem2", "io_asan", "vg1", "vg2", "vg_io", "kigumi_asan", "cli"],
        parts=[part("mem1", "C14", 700, 16000, only=NOTHING), part("mem2", "C14", 800, 18000, only=NOTHING),
               part("io_asan", "C07", 300, 6000, only=NOTHING), part("io_asan", "C09", 500, 10000, only=NOTHING),
               part("io_asan", "C10", 150, 3000, only=NOTHING),
               part("vg1", "C14", 48, 1200, only=NOTHING, memcheck=True), part("vg2", "C14", 80, 2000, only=NOTHING, memcheck=True),
               part("vg_io", "C07", 16, 400, only=NOTHING, memcheck=True), part("vg_io", "C08", 16, 400, only=NOTHING, memcheck=True),
               part("vg_io", "C09", 16, 400, only=NOTHING, memcheck=True),
               part("cli", "C19", 600, 12000, name="kigumi_asan/C19", only="sanitizer", env={"VERIF_PROGRAM": "VERIF_BIN_KIGUMI_ASAN"})],
        rule="One to three workloads per case, each in the thread of the former one or in a new short-lived one: histories of calls, operations with 1 to 8 threads, concurrent callers, operations and loops that "
             "fail, open and special regions, queries, warnings, adjacency, searches, triangle pairs, defect searches on any mesh with legal indices; then saving and loading in all formats, failing files, and the "
             "program itself. A share of all that again under memcheck. Built without NDEBUG, so assertions and preconditions of the library and of CGAL count. Distinct by the inputs of all workloads of a case; non-trivial: all were completed.",
        require={"quick": {"work.histories": 200, "work.operations": 150, "work.callers": 150, "work.failures": 80, "work.defects": 200, "work.side": 200, "work.open": 150, "in_new_thread": 1500, "runs": 500}},
    ),
}
