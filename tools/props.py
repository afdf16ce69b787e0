"""writes properties.jsonl (the source of the property texts)"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, state, mech, observe):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))

VALID = "Every valid input: a simple outline of at least three distinct vertices (collinear runs allowed, either winding), any number of pairwise disjoint simple holes strictly inside it and not nested, any number of further distinct Steiner points anywhere (inside, in holes, outside) but not on an edge; finite coordinates zero or of magnitude 1e-60..1e60 (f32: 1e-30..1e9) whose bounding box spans at least 1024 units in the last place in both directions."
TESTS = "The 15 stable tests triangulate a handful of fixed files (bird, nazca_monkey, two issue reproductions and tiny polygons) and compare triangle or rotation counts; none checks "

prop("C01", "The triangles tile exactly the polygon minus its holes",
 "For every valid input, triangulation completes and returns counter-clockwise triangles of positive area whose corners are input points and which cover the interior of the outline minus the holes exactly: no overlap, no gap, no triangle in a hole or outside. Hence the number of triangles is the one Euler's formula gives, and no triangle is returned twice.",
 ["inputs"], VALID, TESTS + "coverage, orientation or area of the result on general input.",
 ["src/sweeper.rs", "src/cdt.rs", "src/advancing_front/vec_backed.rs", "src/triangles.rs", "src/points.rs"],
 [("Sweeper.triangles", "mesh under construction", "src/sweeper.rs"), ("InnerTriangle.interior", "triangle belongs to the result", "src/shape.rs")],
 [("point events, filling of holes and basins", "src/sweeper.rs point_event, fill_advancing_front, fill_basin"), ("edge events by flipping", "src/sweeper.rs edge_event, flip_edge_event"), ("flood fill from the outline", "src/sweeper.rs finalize_polygon, clean_mesh")],
 ["Triangles::triangle_list_indices", "Triangles::points"])

prop("C02", "Every outline and hole segment is an edge with one filled side",
 "For every valid input, triangulation completes and every segment of the outline and of every hole is an edge of the result, with exactly one triangle on its filled side and none on its empty side. No triangle edge crosses a segment.",
 ["inputs"], VALID, TESTS + "that given segments survive as edges.",
 ["src/sweeper.rs", "src/points.rs", "src/cdt.rs"],
 [("PointEdges", "segments that end at a point from below", "src/points.rs"), ("EdgeAttr", "constrained flag of a triangle side", "src/shape.rs")],
 [("edge event", "src/sweeper.rs edge_event, fill_edge_event, edge_event_process"), ("flag hand-over on rotation", "src/sweeper.rs rotate_triangle_pair"), ("wrapping of polylines into edges", "src/cdt.rs parse_polyline")],
 ["Triangles::triangle_list_indices"])

prop("C03", "The result is a constrained Delaunay triangulation",
 "For every valid input, triangulation completes and for every inner edge of the result that is not an outline or hole segment, the opposite corner of either adjacent triangle is not strictly inside the circumcircle of the other, decided in exact arithmetic.",
 ["inputs"], VALID, TESTS + "the empty-circumcircle condition of a result.",
 ["src/sweeper.rs", "src/utils.rs", "src/triangles.rs"],
 [("EdgeAttr.delaunay", "edge known to be legal", "src/shape.rs")],
 [("legalization", "src/sweeper.rs legalize"), ("robust in-circle predicate", "src/utils.rs in_circle"), ("re-legalization after flips", "src/sweeper.rs edge_event")],
 ["Triangles::triangle_list_indices"])

prop("C04", "Steiner points inside are used, those outside have no effect",
 "For every valid input, triangulation completes; every outline and hole vertex and every Steiner point strictly inside the domain is a corner of some returned triangle, and no Steiner point outside the outline or inside a hole is. Removing the Steiner points outside the domain leaves the set of triangles unchanged when the constrained Delaunay triangulation is unique, and their number unchanged always.",
 ["inputs"], VALID, "No test has a Steiner point outside the outline or in a hole, and none checks which points the result uses.",
 ["src/sweeper.rs", "src/points.rs", "src/cdt.rs"],
 [("Points.y_sorted", "order of the sweep over all points", "src/points.rs")],
 [("start of the flood fill at the outline", "src/sweeper.rs finalize_polygon"), ("flood fill stops at segments", "src/sweeper.rs clean_mesh")],
 ["Triangles::triangle_list_indices"])

prop("C05", "The views of a result agree with each other and with the input",
 "For every valid input, triangulation completes; the result's point list holds exactly the added points bit for bit in the order they were added, with one associated datum each, and never an artificial point. The index list has three valid indices per triangle, the triangle iterator, advanced in any way the Iterator trait offers, yields exactly the same triangles in the same order and then stays exhausted, and looking at one view never changes another.",
 ["inputs", "histories"], "Every valid input, and every interleaving of iterator steps with reads of the other views.",
 "One test compares the data list of one input; nothing compares the iterator with the index list.",
 ["src/cdt.rs", "src/points.rs", "src/lib.rs"],
 [("Triangles", "result: points, data, triangle ids, cursor", "src/cdt.rs")],
 [("iterator and index list", "src/cdt.rs Triangles"), ("artificial points are cut off", "src/points.rs points_without_fake")],
 ["Triangles::points", "Triangles::data", "Triangles::triangle_list_indices", "Iterator for Triangles"])

prop("C06", "Any sequence of builder calls keeps points, data and holes in step",
 "For any order and grouping of builder calls that describe the same valid input (single points or batches, single holes or batches, clones of the builder taken in between and developed separately), points and their associated data come back paired and in call order, and the same polygon is triangulated. Sources without a point add nothing, and the adapters (AsPoint) and sources give the points bit for bit. A clone never affects its original, and every datum given is dropped exactly once.",
 ["histories", "inputs"], "Every sequence of Builder calls that gives a valid input, with clones of builder and CDT taken at any point.",
 "One test makes one fixed sequence of calls.",
 ["src/cdt.rs", "src/points.rs", "src/lib.rs"],
 [("Builder", "points so far and their data", "src/cdt.rs")],
 [("add_* methods", "src/cdt.rs Builder"), ("polyline edges by point id", "src/points.rs PointsBuilder")],
 ["Builder", "Triangles::points", "Triangles::data"])

prop("C07", "Triangulation of valid input always completes in bounded work",
 "For every valid input of any size, in optimised and unoptimised builds and with debug assertions and overflow checks on, triangulation neither panics nor overflows a default 2 MB thread stack nor loops, and processes every point. The number of observable steps is at most quadratic in the number of points.",
 ["inputs", "configurations"], VALID + " From 3 to tens of thousands of points, in release, debug-assertion and unoptimised builds.",
 "The tests run few and small inputs; recursion depth and termination depend on shape and size.",
 ["src/sweeper.rs", "src/advancing_front/vec_backed.rs", "src/utils.rs"],
 [("call stack", "filling and flipping follow the front", "src/sweeper.rs")],
 [("loops over the front", "src/sweeper.rs fill_*_edge_event, fill_basin_req"), ("flip loops", "src/sweeper.rs flip_edge_event, flip_scan_edge_event"), ("task queue of legalization", "src/sweeper.rs legalize")],
 ["CDT::triangulate", "Observer callbacks"])

prop("C08", "No input makes the safe API commit undefined behaviour",
 "Whatever polylines, holes and Steiner points are given (self-crossing, duplicate, nested, empty, NaN, infinite, huge), and whatever triangle, point or node ids, points or indices an observer passes to the queries it can reach, the library never reads or writes out of bounds or commits other undefined behaviour. At worst it panics, aborts or does not return.",
 ["inputs", "histories"], "Every input that the safe API accepts, valid or not, and every sequence of safe calls an observer can make during the run.",
 "Tests run valid input only and without a sanitizer; the unsafe blocks are guarded by reasoning about valid input.",
 ["src/triangles.rs", "src/points.rs", "src/advancing_front/vec_backed.rs", "src/sweeper.rs"],
 [("TriangleStore.triangles", "accessed through raw pointers in get_mut_two, get_mut_six", "src/triangles.rs"), ("AdvancingFront.nodes", "accessed with get_unchecked", "src/advancing_front/vec_backed.rs")],
 [("asserts before the raw accesses", "src/triangles.rs"), ("index checks before get_unchecked", "src/advancing_front/vec_backed.rs"), ("point ids come from the builder only", "src/points.rs")],
 ["whole process under ub-checks, AddressSanitizer and Miri"])

prop("C09", "The result depends on the geometry, not on its description",
 "For every valid input, listing a polyline from another start vertex or in the opposite direction, giving holes or Steiner points in another order, and mirroring, transposing, turning by 90 degrees or scaling by a power of two all give the correspondingly transformed set of triangles when the constrained Delaunay triangulation is unique, and the same number of triangles always. All returned triangles stay counter-clockwise.",
 ["inputs"], VALID + " And every such re-description of it.",
 "Each test gives each polygon in one description.",
 ["src/cdt.rs", "src/points.rs", "src/sweeper.rs", "src/shape.rs"],
 [("Edge", "segment with lower end first", "src/shape.rs")],
 [("edges are ordered by height", "src/shape.rs Edge::new"), ("points are sorted", "src/points.rs Points::new"), ("mirror-image left and right procedures", "src/sweeper.rs fill_left_*, fill_right_*")],
 ["Triangles::triangle_list_indices"])

prop("C10", "Triangulation is deterministic and unaffected by its surroundings",
 "For every valid input, triangulating it again, from a clone, with or without an observer attached, after other (similar, or aborted by a panicking observer) triangulations, inside an observer's callback of another one or concurrently on other threads, and in another process or build profile, returns the identical index list. Builders and CDTs can be handed to and shared between threads, and concurrent use is free of data races.",
 ["inputs", "schedules", "configurations"], "Every valid input, thread schedule, process and build profile.",
 "No test runs anything twice, on threads or in two builds.",
 ["src/cdt.rs", "src/sweeper.rs", "src/points.rs", "src/advancing_front/vec_backed.rs"],
 [("AdvancingFront.access_cache", "per-run cache", "src/advancing_front/vec_backed.rs")],
 [("no global state", "src/cdt.rs CDT::triangulate"), ("total order of points", "src/points.rs Points::new")],
 ["CDT::triangulate", "CDT::triangulate_with_observer", "Clone"])

prop("C11", "Observer events follow one protocol and account for everything",
 "For every valid input, an observer sees each point except the lowest (lowest y, then x) entered and exited exactly once in ascending (y, x) order, and after a point's exit each segment whose upper end it is reported exactly once, lower end first; all segments of outline and holes are reported. Legalizations are opened and closed in pairs around their steps and rotations and never nest, and afterwards the sweep-done and finalized callbacks come once each, in this order, with nothing after the former but the latter.",
 ["inputs", "histories"], VALID, "One test counts rotations of two files; no test looks at the order of callbacks.",
 ["src/cdt.rs", "src/sweeper.rs"],
 [("Observer", "callbacks", "src/cdt.rs")],
 [("callbacks around the events", "src/sweeper.rs sweep_points, legalize"), ("end of the run", "src/cdt.rs triangulate_with_observer")],
 ["Observer callbacks"])

prop("C12", "At every step the observed mesh is a valid triangulation so far",
 "For every valid input, at the end of every point event, edge event and legalization, the mesh and front an observer sees form one triangulated region without inverted triangles, over exactly the points processed so far and the two artificial ones, with mutual neighbour links, bordered above by a front that strictly advances in (x, y) order and whose nodes name the triangle below them. Constrained flags sit on both sides of exactly known input segments and are never lost once the segment was reported; between events no unconstrained edge is illegal. When finalized is called, the result and interior marks are exactly the triangles then returned.",
 ["inputs", "histories"], VALID + " Every callback of the run.",
 "Tests look at no intermediate state; debug assertions check legality only.",
 ["src/sweeper.rs", "src/triangles.rs", "src/advancing_front/vec_backed.rs", "src/shape.rs"],
 [("TriangleStore", "triangles, neighbours, flags", "src/triangles.rs"), ("AdvancingFront", "nodes and their triangles", "src/advancing_front/vec_backed.rs")],
 [("neighbour bookkeeping", "src/triangles.rs mark_neighbor_for_two_mut"), ("rotation", "src/sweeper.rs rotate_triangle_pair"), ("front remapping", "src/sweeper.rs map_triangle_to_nodes")],
 ["Observer callbacks with &Sweeper"])

prop("C13", "The file loader reads what was written and refuses the rest",
 "A well-formed file (coordinate lines separated by any blanks, HOLE and STEINER sections in any order, blank lines, either line ending, any decimal notation) loads to exactly the written points in the order outline, holes, Steiner points and triangulates like the polygon given directly, every time the loader is used, whatever readable path names it (a link, a relative path, a pipe, a read-only file) and also from several threads; the file is left as it was. A file with a malformed line or invalid UTF-8 gives an error and an unreadable path an IO error; the loader never panics.",
 ["inputs", "fault_sequences"], "Every layout of every valid input as a file, and damaged or unreadable files.",
 "Tests load four well-formed files.",
 ["src/loader.rs"],
 [("parse state", "outline, hole or Steiner section", "src/loader.rs")],
 [("line parser", "src/loader.rs")],
 ["PlainFileLoader::load"])

prop("C14", "The f32 build gives the same guarantees for f32 input",
 "With the f32 feature, for every valid input in f32 coordinates, triangulation completes, tiles the domain exactly with counter-clockwise triangles, keeps every segment, is constrained Delaunay in exact arithmetic, uses exactly the Steiner points inside the domain and returns the input points bit for bit. Result views, observer events, file loading and other descriptions of the same input behave as the default build's do.",
 ["inputs", "configurations"], VALID + " In f32.",
 "The tests are run without the feature.",
 ["src/lib.rs", "src/utils.rs", "src/sweeper.rs", "src/points.rs"],
 [("Float", "coordinate type", "src/lib.rs")],
 [("predicates evaluated in f64 expansions", "src/utils.rs")],
 ["Triangles in a build with --features f32"])

prop("C15", "Nearly degenerate and extreme coordinates change nothing",
 "For every valid input whose coordinates are nearly collinear or cocircular to within units in the last place, far from the origin, extremely scaled, squeezed or sheared, triangulation completes and the result is an exact tiling with all segments kept, constrained Delaunay in exact arithmetic, with the Steiner points inside used and those outside not.",
 ["inputs"], VALID + " Offsets up to the last spare bits of the mantissa, jitter of one to three units in the last place, scales 2^-100 to 2^100, anisotropy up to 2^52, shear up to 2^20.",
 "Test coordinates are benign; a predicate evaluated with rounding passes them all.",
 ["src/utils.rs", "src/sweeper.rs", "src/points.rs"],
 [("coordinates", "given by the user", "src/points.rs")],
 [("robust predicates", "src/utils.rs orient_2d, in_circle, in_scan_area, Angle"), ("exact comparison of coordinates", "src/sweeper.rs point_event; src/advancing_front/vec_backed.rs PointKey")],
 ["Triangles::triangle_list_indices"])

prop("C16", "The legality queries report exactly the illegal edges",
 "At every observer callback, also in the middle of a legalization, the query for illegal triangles returns exactly the ordered pairs of neighbouring triangles whose common edge is not constrained and whose opposite corner lies strictly inside the circumcircle in exact arithmetic, each once, and the verification query is true exactly if there are none.",
 ["inputs", "histories"], VALID + " Every callback of the run.",
 "Tests query the final state of two inputs, where the answer is empty.",
 ["src/sweeper.rs", "src/utils.rs"],
 [("Sweeper", "mesh as seen by an observer", "src/sweeper.rs")],
 [("is_legalize", "src/sweeper.rs"), ("illegal_triangles, verify_triangles", "src/sweeper.rs")],
 ["Sweeper::illegal_triangles", "Sweeper::verify_triangles"])

prop("C17", "Front queries agree with a linear scan, also for covered nodes",
 "At every observer callback, looking up front nodes by rank, by position, by coordinates and by remembered node id, and stepping to the next or previous node, gives what a linear scan over the front's nodes gives: the node at or left of a position or none, the node with exactly these coordinates or none. For the id of a node no longer on the front, the id lookup gives none and the next and previous lookups give the neighbours it would have.",
 ["inputs", "histories"], VALID + " Every callback of the run, positions on, next to and between nodes, node ids remembered at any earlier callback.",
 "One test makes three lookups on a front of three nodes.",
 ["src/advancing_front/vec_backed.rs", "src/advancing_front/mod.rs"],
 [("AdvancingFront.nodes", "sorted by (x, y)", "src/advancing_front/vec_backed.rs"), ("AdvancingFront.access_cache", "last looked-up node", "src/advancing_front/vec_backed.rs")],
 [("binary search with cache", "src/advancing_front/vec_backed.rs search_by_key_with_cache"), ("index hints of node ids", "src/advancing_front/vec_backed.rs resolve_index_for_id")],
 ["AdvancingFront lookups through &Sweeper"])

prop("C18", "Point and triangle queries of an observer agree with the mesh and the input",
 "At every observer callback, the point store enumerates the input points by id and by height, each bit for bit as given and with exactly the segments it is the upper end of, two artificial points lie left and right below all of them, and the triangle navigation (corner and edge indices, corners, neighbours and flags clockwise, counter-clockwise and across, common edge and opposite corner of two triangles, absent ones included) agrees with the triangles' corner lists. Setting a flag or turning a copy of a triangle changes what is named and nothing else.",
 ["inputs", "histories"], VALID + " Every callback of the run, every corner of sampled triangles, neighbours, other triangles and strange points.",
 "Tests ask for the edges and neighbours of two or three triangles.",
 ["src/points.rs", "src/shape.rs", "src/triangles.rs"],
 [("Points", "points, their order by height and their segments", "src/points.rs"), ("InnerTriangle", "corners, neighbours, flags", "src/triangles.rs")],
 [("sorted order and edges by upper point", "src/points.rs"), ("index arithmetic of corners", "src/triangles.rs")],
 ["Sweeper.points and Sweeper.triangles through &Sweeper", "Edge::new"])

prop("C19", "Memory and files are given back and memory stays proportional",
 "For every valid input, once a Builder, CDT or Triangles has been dropped, at whatever stage, cloned or not, partly iterated or after a panic of the observer, every byte allocated for it has been given back, and the same holds for invalid input, whatever comes of it, and for the loader, which leaves no file open. While running, the memory in use is at most proportional to the number of points and edge flips, for the result and the loader to the size of the input.",
 ["inputs", "histories", "fault_sequences"], VALID + " For what is given back also invalid input, damaged and missing files. What the process sets up at its first triangulation does not count; the proportion is a constant of about 2 kB per point.",
 "Tests look at triangles only.",
 ["src/cdt.rs", "src/sweeper.rs", "src/points.rs", "src/triangles.rs", "src/advancing_front/vec_backed.rs", "src/loader.rs"],
 [("allocations", "live bytes and blocks of the thread, open files", "src/cdt.rs")],
 [("reused queues", "src/sweeper.rs legalize, edge_event"), ("ownership of points, data and triangles", "src/cdt.rs")],
 ["Builder, CDT, Triangles, PlainFileLoader"])

if __name__ == "__main__":
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        assert p["statement"].count(". ") <= 2, p["id"]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
