#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the long texts stay readable)."""
import json, os
C = 'capi/src/implementation/visibility_graphs/code/'
PY = 'capi/src/implementation/'
P = []
def p(id, title, statement, over, text, why, files, mech, state=()):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=mech, where=files[0])], state=[dict(name=a, meaning=b) for a, b in state])))

p('V01', 'Visibility edges never cross land',
  'An edge of a generated visibility graph, and a vertex reported visible from an observer, is backed by a straight line of sight in longitude/latitude that does not pass through the interior of any land polygon. An edge marked as crossing the antimeridian is backed by such a line through the antimeridian, an unmarked edge by a direct one.',
  ['inputs'], 'All scenes of simple, pairwise disjoint polygons with vertices in [-180,180]x[-90,90], all pairs of vertices, and all observers (land vertices or points off land).',
  'Tests compare a dozen hand-drawn scenes and two map fixtures; the rotational sweep depends on the relative order, collinearity and nesting of all vertices around each observer, so a wrong edge appears only for particular configurations.',
  [C+'visgraph/vistree_generator.cpp', C+'visgraph/visgraph_generator.cpp', C+'datastructures/open_edges/open_edges.cpp', C+'types/polyline/three_vertex_polyline.cpp', C+'geom/angle_sorter/angle_sorter.cpp', C+'coordinate_periodicity/coordinate_periodicity.cpp'],
  'Rotational sweep over the periodic copies of all polygons, open-edge set tested against the line of sight, barrier polyline at land vertices, periodic image folded back with a meridian flag.',
  [('open edges', 'edges currently crossed by the sweep ray')])
p('V02', 'Every unobstructed pair of land vertices is connected',
  'If the straight line between two distinct land vertices, direct or through the antimeridian by the nearest image, meets no land except at its two ends, then a generated visibility graph has an edge between them in both directions; an edge is marked as crossing the antimeridian exactly when there is no direct line of sight. A pair whose lines of sight all merely graze land (touch a boundary without entering the interior) may or may not be connected.',
  ['inputs'], 'All scenes of simple, pairwise disjoint polygons with vertices in [-180,180]x[-90,90], and all pairs of vertices.',
  'A missing edge makes routes longer without any failure; tests only compare complete edge sets on a handful of scenes, and the full-map fixtures were themselves produced by the code.',
  [C+'visgraph/vistree_generator.cpp', C+'visgraph/visgraph_generator.cpp', C+'datastructures/open_edges/open_edges.cpp', C+'types/polyline/three_vertex_polyline.cpp', C+'types/line_segment/line_segment.cpp'],
  'Half-plane scan from each vertex, both directions inserted; candidate dropped only when an open edge or the barrier polyline obstructs it.')
p('V03', 'Visibility from any observer is exact; half scan = upper half',
  'For any observer off land, exactly on a coast or at a land vertex, the reported vertices include every land vertex (other than the observer) whose line of sight meets no land except at its ends, and none whose line of sight enters land; this holds for a tree built from polygons, from their boundary segments, or queried with an explicit candidate segment list holding all boundary segments. The half scan reports exactly the members of the full scan that lie in directions from due east counter-clockwise to due west inclusive. Results are a function of the scene alone: polygon order, vertex starting point and winding order do not matter.',
  ['inputs', 'configurations'], 'All observers x all scenes of simple disjoint polygons, three construction paths, both scan modes, all polygon orders, vertex rotations and windings.',
  'Tests query a few observers in symmetric scenes, so starting the sweep inside the angular span of an edge, on a level with a vertex or behind a notch is not reached.',
  [C+'visgraph/vistree_generator.cpp', C+'visgraph/vistree_generator.hpp', C+'datastructures/open_edges/open_edges.cpp'],
  'Initial scan line seeds open edges; sorted sweep; half-plane cut-off by sign of cross product with the initial scan line.')
p('V04', 'The antimeridian is not special: rotating the world changes nothing',
  'Shifting a whole scene in longitude by any amount that leaves every polygon unbroken by the antimeridian yields the same visibility graph with the vertices shifted: the same pairs are connected (pairs whose lines merely graze land aside). An edge is marked as crossing the antimeridian exactly when its only lines of sight pass through it in the shifted scene, and following it through the antimeridian has the same length as before the shift.',
  ['inputs', 'configurations'], 'All scenes of disjoint polygons and all longitude shifts for which each polygon stays within [-180,180], including vertices exactly on +-180.',
  'Tests place a few polygons at the antimeridian and inspect them by hand; the statement relates pairs of runs for every scene and every shift.',
  [C+'coordinate_periodicity/coordinate_periodicity.cpp', C+'visgraph/vistree_generator.cpp', C+'constants/constants.hpp', C+'shortest_path/shortest_path_computer.cpp'],
  'Three periodic copies of the polygons at a period of 360.000001 degrees, folding of periodic vertices and the crossing flag.')
p('G01', 'Split generation plus merge equals whole generation',
  'For any seed and any division of the vertex range into consecutive ranges, generating a graph per range and merging the parts in any order gives a graph equal to the one generated in one go, with the same vertices, edges and antimeridian marks. Merging graphs of any maps gives the graph over all their polygons that has the edges of all of them, an edge that is direct in one of them being direct. A range covers each vertex in it exactly once, an empty range contributes no edges, and a range outside the vertices is rejected with an error.',
  ['inputs', 'configurations', 'histories'], 'All seeds, all ordered partitions of [0,n], all merge orders (including repeated parts and merging merged graphs), all scenes; all pairs and triples of maps.',
  'The test suite merges one pair of stored halves of one map with one seed.',
  [C+'visgraph/visgraph_generator.cpp', C+'datastructures/graph/graph.cpp', PY+'graph_generator.py', PY+'graph_merger.py'],
  'Seeded shuffle of the vertex list, range loop, merge by re-adding all edges into a graph over the union of the polygons.')
p('G02', 'Parallel generation, merge and batch search are deterministic',
  'Generating a graph (whole or by range), merging graphs and computing a batch of paths each give, for every number of worker threads and every interleaving of them, the same result as the same call run by a single thread, without data races and without deadlock.',
  ['schedules'], 'All interleavings of 1..3 OpenMP worker threads at shared accesses, locks and work distribution, within a preemption bound.',
  'Tests run each operation under whichever schedule the OS happens to produce, on inputs too small for two threads to meet on one cell.',
  [C+'visgraph/visgraph_generator.cpp', C+'datastructures/graph/graph.cpp', C+'shortest_path/shortest_path_computer.cpp'],
  'OpenMP parallel loops writing one shared adjacency matrix guarded by per-vertex reader/writer locks; per-slot results of a batch.')
p('G03', 'Graph operations behave as a map from ordered pairs to edge marks',
  'Over any sequence of adding vertices, adding and removing directed or undirected edges (direct or through the antimeridian), the membership, neighbour and vertex queries answer as a plain map from ordered vertex pairs to the set of ways they are connected: a neighbour list is exactly the vertices reached by an edge from the queried vertex, no vertex is its own neighbour, adding a vertex changes no existing edge and is idempotent. An edge added both ways (direct and through the antimeridian) counts as not crossing, in either order of insertion, until it is removed. Using an unknown vertex is an error that changes nothing.',
  ['histories'], 'All operation sequences over up to 4 vertices and both marks.',
  'Tests perform one or two operations from a fresh graph and never combine directed edges, removal and later vertex insertion.',
  [C+'datastructures/graph/graph.cpp', C+'datastructures/graph/graph.hpp'],
  'Dense n x n matrix of edge states indexed by vertex numbers, hash map from coordinate to number.')
p('G04', 'Concurrent graph operations are linearizable',
  'When several threads read and modify one graph (adding and removing directed edges, testing edges and marks, listing neighbours), every call returns a result, and leaves an effect, consistent with some order of the single-direction operations that respects real time; an undirected operation is the sequence of its two directions. No call deadlocks and no access races.',
  ['schedules', 'histories'], 'All interleavings (within a preemption bound) of 2..3 threads of 1..2 operations each on 2..3 shared vertices.',
  'No existing test starts two threads on one graph; lock order and missing locks show up only under particular interleavings.',
  [C+'datastructures/graph/graph.cpp'],
  'Two per-vertex reader/writer locks taken in ascending vertex order around one matrix cell.')
p('G05', 'The query-time overlay behaves as an edited copy of its base graph',
  'A temporary graph laid over a base graph answers every query, after any sequence of vertex additions and edge additions and removals, exactly as a separate copy of the base graph to which the same operations were applied, with each neighbour and vertex listed once; the base graph itself is never altered.',
  ['histories'], 'All operation sequences over up to 4 vertices (in the base, only in the overlay) on all small base graphs.',
  'Tests exercise single operations on one base graph and never remove and re-add, nor ask about edges between overlay-only vertices.',
  [C+'datastructures/modified_graph/modified_graph.cpp'],
  'Per-vertex hash map of neighbour overrides consulted before the base graph.')
p('G06', 'Graph equality is exactly equality of vertices, edges and marks',
  'Two graphs compare equal if and only if they have the same set of vertices, the same edges between them and the same antimeridian marks, independently of polygon order, vertex order and the order in which edges were inserted; inequality is the negation of equality.',
  ['inputs', 'histories'], 'All pairs of small graphs over colliding and non-colliding coordinates, all vertex orders.',
  'Tests compare a few graphs; equality sorts by a hash, so only colliding coordinates distinguish an order-dependent comparison.',
  [C+'datastructures/graph/graph.cpp', C+'types/coordinate/coordinate.cpp'],
  'Comparison of canonical string renderings.')
p('S01', 'Saving and loading a graph gives back an equal graph',
  'Loading a file to which a graph was successfully saved yields a graph with the same polygons, vertices, edges and antimeridian marks, whatever the file contained before and however often it is overwritten or re-saved; saving a loaded graph reproduces the same bytes.',
  ['inputs', 'histories'], 'All graphs of undirected edges over polygon vertices (all sizes across byte boundaries, all edge subsets and marks of small graphs) and all sequences of saves to one path.',
  'Tests round-trip a few graphs, into fresh files; sizes around multiples of eight, marks and overwriting longer files are not covered.',
  [C+'serialization/graph_serializer.cpp'],
  'Memory-mapped binary format: polygon table, bit-packed triangular adjacency, list of crossing edge numbers.',
  [('file', 'format version-less; length is implied by content')])
p('S02', 'Loading a damaged file is an error, never a crash',
  'Loading a file that is missing, empty, truncated at any byte, or whose bytes were altered, either reports an error or yields a well-formed graph; it never reads outside the file, allocates without bound, hangs or terminates the process. A file that was only cut short either is reported as an error or still yields the very graph that was saved.',
  ['inputs', 'crash_points'], 'Every truncation length and every single-byte change (in thorough: selected pairs) of saved files.',
  'No test loads a malformed file.',
  [C+'serialization/graph_serializer.cpp', 'capi/cpp_libs/mio/mio.hpp'],
  'Counts read from the file drive allocation and offsets into the mapping.')
p('S03', 'I/O failures while saving or loading are reported and leak nothing',
  'If any operating-system call made while saving or loading a graph fails, the operation either reports an error or has completed correctly: success is never reported for a graph that was not read, or not stored and written back to its device. No file descriptor or mapping outlives the call, and the same call succeeds once the fault is gone.',
  ['fault_sequences'], 'Every single failing open/ftruncate/close/fstat/mmap/msync/munmap call (and pairs of them), each plausible errno.',
  'Tests run on a healthy file system only.',
  [C+'serialization/graph_serializer.cpp', 'capi/cpp_libs/mio/mio.hpp'],
  'Allocate by open+ftruncate+close, then map, write, msync and unmap with error codes converted to exceptions.')
p('P01', 'A returned path runs from source to destination over sea only',
  'A computed path starts at the requested source and ends at the requested destination (each folded into [-180,180]), consists of distinct points, and every leg is free of land: the straight line between its ends, directly or through the antimeridian, does not enter the interior of any polygon. All intermediate points are land vertices.',
  ['inputs'], 'All scenes of simple disjoint polygons at which straight and great-circle lines agree, and all pairs of sea points or land vertices, on either side of the antimeridian, including points given one period away.',
  'Tests check a few routes on a few scenes.',
  [C+'shortest_path/shortest_path_computer.cpp', C+'datastructures/modified_graph/modified_graph.cpp', C+'visgraph/vistree_generator.cpp', C+'datastructures/spatial_segment_index/spatial_segment_index.cpp'],
  'Direct-line test against the spatial index, else A* over the graph with both endpoints attached by their visible vertices.')
p('P02', 'A returned path is the shortest possible; greediness w costs at most w',
  'With a greediness weighting of at most 1 the length of a returned path equals the least length over all routes between the endpoints made of unobstructed straight legs through land vertices, counting a leg through the antimeridian by its length that way; with a weighting w above 1 it is at most w times that. If any such route exists a path is returned, otherwise an error is raised. Swapping source and destination gives a path of the same length.',
  ['inputs', 'configurations'], 'All small scenes and all endpoint pairs, weightings 0, 0.5, 1, 1.5, 3.',
  'Tests assert specific paths in a few scenes with the default weighting.',
  [C+'shortest_path/shortest_path_computer.cpp'],
  'A* with f = g + w*h, planar distances, h the smaller of the direct and through-the-antimeridian distance.')
p('P03', 'Endpoints on land are rejected or moved to the nearest shore',
  'When correction is off, a request with an endpoint strictly inside land is an error, and any other request is not rejected for that reason. When correction is on, an endpoint on land is replaced by the nearest point of the coastline of the land containing it (within coordinate rounding), endpoints not on land are unchanged, every leg of the returned path is free of land up to coordinate rounding, and the path is the shortest one between the corrected endpoints up to that rounding.',
  ['inputs', 'configurations'], 'All small scenes, all endpoint pairs inside, on and outside land, both modes.',
  'Tests cover one or two land endpoints in one scene.',
  [C+'shortest_path/shortest_path_computer.cpp', C+'datastructures/spatial_segment_index/spatial_segment_index.cpp', C+'types/line_segment/line_segment.cpp'],
  'Point containment on the S2 index, closest edge, projection, and exclusion of vertices on the land side of the projected edge.')
p('P04', 'The search limit bounds the path and nothing else',
  'With a limit on the distance from the source, every point of a path that does not go straight to its destination lies within the limit of the source (measured directly or through the antimeridian, whichever is shorter), and the path is the shortest among routes that do; if there is none an error is raised. An infinite limit, or one larger than every distance, changes nothing.',
  ['inputs', 'configurations'], 'All small scenes, endpoint pairs, and limits around every vertex distance (just below, at, just above).',
  'One test uses one limit.',
  [C+'shortest_path/shortest_path_computer.cpp'],
  'Neighbours farther than the limit from the source are not expanded.')
p('P05', 'A batch of path requests equals the requests made one by one',
  'The batch call returns one result per request in request order; each holds the same path as the single call with the same parameters, or, where the single call raises an error, that error message and no path. One failing request does not affect the others, and queries never change the graph or later answers.',
  ['inputs', 'histories'], 'All sequences of up to 4 requests drawn from solvable, direct, on-land, unreachable and identical requests, all parameter settings, repeated on one computer object.',
  'Tests run one small batch.',
  [C+'shortest_path/shortest_path_computer.cpp', PY+'path_interpolator.py'],
  'Parallel loop storing optional path or error text per slot.')
p('P06', 'Search is exact on any graph',
  'Over any graph on land vertices (a whole generation, part of a split one, an edited or a loaded graph), a search between two of its vertices returns a shortest route along the edges of that graph, each followed in its own direction only and costed by its mark: directly, or to the nearest image through the antimeridian. With a weighting w above 1 the route costs at most w times that, with a limit it is the shortest among routes whose points keep within the limit of the source, and an error is raised exactly if there is no route.',
  ['inputs', 'configurations'], 'All graphs on up to four vertices and all undirected graphs on up to six, both marks, all vertex pairs, weightings 0, 1 and above 1, limits around every vertex distance.',
  'Generated graphs obey the triangle inequality and are symmetric, so the shortcuts a search may wrongly take (stopping at the first discovery, never reopening a vertex, treating an edge as usable both ways) cannot show on the scenes tests use.',
  [C+'shortest_path/shortest_path_computer.cpp', C+'datastructures/modified_graph/modified_graph.cpp', C+'datastructures/graph/graph.cpp'],
  'A* with a priority queue of f = g + w*h, reopening on improvement, predecessors followed back to the source.')
p('K01', 'Polygon normal form keeps the shape',
  'Building a polygon from any vertex list of a simple polygon yields a counter-clockwise list enclosing exactly the same region, made of the input vertices minus those in the middle of a straight run; it does not depend on winding and is unchanged when built again from its own vertices, and repeating a vertex consecutively changes nothing. Polygons are equal exactly when their vertex lists are, and equal polygons hash equally.',
  ['inputs'], 'All vertex lists up to 6 points on a small grid with repetitions, at any scale and offset within the coordinate range.',
  'Tests normalise three or four polygons.',
  [C+'types/polygon/polygon.cpp'],
  'Drop vertices with parallel same-direction neighbours, then orient by the shoelace sum.')
p('K02', 'Coordinates and their periodic images convert without drift',
  'Folding a longitude into [-180,180] returns the unique representative at a whole number of periods; the periodic images of a coordinate fold back to it, and an image counts as over the antimeridian exactly when it lies outside [-180,180]. Converting degrees to a stored coordinate is within one microdegree, and a stored coordinate read back in degrees and stored again is the same coordinate; conversion to a point on the sphere and back is the identity.',
  ['inputs'], 'Every microdegree longitude in [-540.000002, 540.000002] and every latitude (thorough), dense boundary bands (quick).',
  'Tests convert half a dozen values.',
  [C+'types/coordinate/coordinate.cpp', C+'coordinate_periodicity/coordinate_periodicity.cpp', C+'constants/constants.hpp'],
  'Integer microdegrees, multiplication by 1e6 with truncation, period constant 360000001.')
p('K03', 'Planar predicates are exact over the whole coordinate range',
  'Orientation, on-segment, parallelism, segment intersection and the land-side test at a polygon corner give the answers of exact integer geometry for all representable coordinates, are symmetric under swapping segments and their endpoints, and an intersection point returned lies within half a microdegree of the true one per axis. Collinear overlapping segments are outside the intersection promise unless they share an endpoint of the queried segment.',
  ['inputs'], 'All segment pairs and corner/point configurations on a small grid, translated and scaled to the extremes of the coordinate range (including periodic images).',
  'Tests cover a handful of segment pairs with small coordinates; rounding and overflow appear only at extreme scale.',
  [C+'types/line_segment/line_segment.cpp', C+'types/coordinate/coordinate.cpp', C+'types/polyline/three_vertex_polyline.cpp'],
  '64-bit integer cross products; parametric intersection; wedge tests.')
p('K04', 'Angular order around an observer is exact',
  'Sorting vertices around an observer orders them by exact direction counter-clockwise from due east, nearer first on the same ray, the observer itself first; the order does not depend on the input order, keeps every element, and terminates for every input including repeated vertices.',
  ['inputs'], 'All small vertex multisets and permutations on a grid, at scales from one microdegree to the full map, including nearly collinear far points.',
  'Tests sort two lists.',
  [C+'geom/angle_sorter/angle_sorter.cpp', C+'types/coordinate/coordinate.cpp'],
  'std::sort with a comparator on floating-point angles and exact collinearity.')
p('K05', 'Spatial index answers equal brute force over all segments',
  'A point is reported contained exactly when it lies strictly inside some polygon; a segment is reported as meeting exactly those boundary segments it crosses or touches, nearest first; the closest segment, and the set within a distance, are those brute force finds. Every reported segment is a boundary segment of an indexed polygon, oriented with the land on its left.',
  ['inputs'], 'All small scenes, all grid points and segments, several distances, several places on the globe where straight and great-circle geometry agree.',
  'Tests ask about ten queries against three polygons.',
  [C+'datastructures/spatial_segment_index/spatial_segment_index.cpp', C+'types/polygon/polygon.cpp'],
  'S2 shape index over one loop per polygon and edge/containment queries.')
p('K06', 'Vector, segment and distance arithmetic is right over the whole range',
  'Sums, differences and negation of coordinates are exact where representable, multiplying and dividing by a number rounds each axis to nearest; integer dot and cross products and squared magnitudes are exact and their degree counterparts equal them within double rounding; a multiple factor exists exactly for parallel vectors and recovers the multiplier; the angle to the horizontal lies in [0,2pi) and grows with the direction; the unit vector points the same way with length one. Equal coordinates hash equally, and so do equal segments whichever way round they are given; the other end of a segment is its other end, or an error for a point that is no end. The distance on the sphere is the great-circle distance, symmetric, and zero only for the same place; the projection onto a segment is its nearest point within one microdegree.',
  ['inputs'], 'All pairs over several hundred vectors (range extremes, antimeridian, microdegree lattice), all pairs of segments and places over smaller critical sets.',
  'Tests evaluate each operator on one or two friendly values; narrowing, truncation, sign and wrap errors appear only at the extremes or for particular signs.',
  [C+'types/coordinate/coordinate.cpp', C+'types/line_segment/line_segment.cpp', C+'types/coordinate/coordinate.hpp'],
  '32-bit microdegree coordinates, 64-bit products, doubles in degrees, S2 points on the sphere.')
p('R01', 'Shapefile reading keeps exactly the land rings',
  'Reading a shapefile returns one polygon per polygon record, in file order, with the coordinates of its first ring exactly as stored and without the closing repeat; records of other shape types, null records and rings with fewer than three corners (the closing repeat aside) are skipped, and reading never alters the file or leaves it open.',
  ['inputs'], 'All sequences of up to 3 records drawn from points, lines, null shapes, triangles, larger rings, degenerate rings and multi-ring records.',
  'Tests read two fixture files.',
  [PY+'shapefiles/shapefile_reader.py', PY+'datastructures/polygon.py'],
  'Loop over shapes with a part-boundary cut-off and removal of the last point.')
p('R02', 'The Python pipeline preserves the graph end to end',
  'For any shapefile, generating, splitting into any number of ranges and merging, and loading give equal graphs; each split handles its share so that together all vertices are covered once, existing output folders are never overwritten, and interpolation through the Python interface returns the same points as the underlying engine, singly and in batch, with failures of a batch item reported as a warning and an empty slot.',
  ['inputs', 'configurations'], 'All numbers of splits from 1 to beyond the vertex count, several seeds, all small shapefiles, including one without land.',
  'Tests run one shapefile with one seed and two splits, and interpolation is excluded for lack of its data.',
  [PY+'graph_generator.py', PY+'graph_merger.py', PY+'path_interpolator.py', PY+'datastructures/graph_file_paths.py', 'capi/src/implementation/visibility_graphs/bindings.cpp'],
  'Range arithmetic on the vertex count, folder creation, conversion between Python and engine coordinates.')
p('R03', 'Python coordinates and polygons are proper immutable values',
  'Coordinates are equal exactly when their latitude and longitude are, equal coordinates hash equally and can be used as set members and keys, and they cannot be altered; a polygon needs at least three vertices, keeps its own copy of them, and compares equal exactly to polygons with the same vertices in the same order. Normalising a latitude/longitude pair leaves values already in range unchanged and brings any other longitude into [-180,180] by whole turns.',
  ['inputs', 'histories'], 'All small vertex lists and values over a boundary alphabet, all sequences of construct/mutate/compare.',
  'Tests construct three polygons.',
  [PY+'dtos/coordinate.py', PY+'datastructures/polygon.py', 'capi/src/hypothesis_strategies/polygon.py'],
  'Dataclass value type and list copy in the constructor.')
p('R04', 'The Python extension answers as the engine does',
  'Coordinates, polygons, graphs, visible vertices and path searches used from Python give the same values as the engine they wrap, whatever calls went before: arithmetic and equality of coordinates, the normal form of polygons, vertices, neighbours, edges, marks and equality of graphs built, edited, generated, saved, loaded and merged in any order, searches with any of their parameters given by position, by name or left to their defaults (no limit, no correction, weighting 1), and batches. Lists that are handed out are copies, objects stay valid after whatever they were made from is dropped, a search uses its graph as it stands, and errors arrive as exceptions that leave every object as it was.',
  ['inputs', 'histories', 'configurations'], 'All call histories to depth 4 (thorough 5), all positional and keyword forms of the parameters, all pairs of critical coordinate values.',
  'Tests call each function once or twice on fresh objects that stay alive, and mostly with all parameters given.',
  ['capi/src/implementation/visibility_graphs/bindings.cpp', 'capi/src/implementation/visibility_graphs/__init__.py', C+'datastructures/graph/graph.cpp', C+'shortest_path/shortest_path_computer.cpp'],
  'pybind11 classes with shared holders, default arguments and output redirection.')
p('R05', 'The strategies for property tests draw every kind of valid value and nothing else',
  'Whatever choices the test engine makes, the coordinate strategy draws a coordinate with finite latitude in [-90,90] and longitude in [-180,180], and the polygon strategy a polygon with at least the least and at most the greatest number of vertices asked for (three and ten by default), no vertex twice, each a valid coordinate. Nothing valid is left out for good: both ends of both ranges, zero, values finer than a microdegree and either sign can be drawn, every number of vertices between the bounds, vertices that share a latitude or a longitude, and either winding.',
  ['inputs', 'histories'], 'All sequences of choices from a critical alphabet for a coordinate; up to two departures from four base sequences for polygons under eight (thorough eleven) pairs of bounds.',
  'The tests that use the strategies see a random sample and trust what it holds.',
  ['capi/src/hypothesis_strategies/coordinate.py', 'capi/src/hypothesis_strategies/polygon.py', PY+'dtos/coordinate.py', PY+'datastructures/polygon.py'],
  'Bounded floats without infinities and NaN; lists of unique coordinates.')
p('V05', 'Land that touches other land is seen like any other land',
  'The visibility guarantees also hold for polygons whose interiors are apart but which share corners, share borders or touch at points (neighbouring countries in a shapefile): no graph edge and no visible corner is backed by a line through the interior of any polygon, every pair of corners, and every observer and corner, whose straight line meets land at most at its two ends is connected or seen, also for observers exactly on a coast, and the answer does not depend on the order in which the polygons are listed.',
  ['inputs'], 'All small scenes of two and three touching polygons on a grid and all sets of cells of small tilings (squares, triangles, bricks, fans), all pairs of corners, all observers on the grid, in all listing orders.',
  'The test scenes hold only polygons well apart from each other, as islands are; two polygons meeting in a corner give one vertex four or more incident edges.',
  [C+'visgraph/vistree_generator.cpp', C+'types/polyline/three_vertex_polyline.cpp', C+'visgraph/open_edges.cpp', C+'visgraph/visgraph_generator.cpp'],
  'Rotational sweep with one incident edge list per coordinate and a wedge test for each polygon corner there.')
p('P07', 'Shortest paths are right around land that touches other land',
  'Where polygons share corners, share borders or touch, a path still runs over sea only (along coasts and through shared corners is sea, through the interior or across a shared border is not, a shared border may be followed), is as short as any such route that the visibility graph supports, exists whenever such a route does, and endpoints exactly on a coast are accepted as off land.',
  ['inputs'], 'All small scenes of two and three touching polygons on a grid and sets of cells of small tilings, all endpoint pairs on the grid that are not inside land.',
  'The tests search between islands that are apart.',
  [C+'shortest_path/shortest_path_computer.cpp', C+'datastructures/spatial_segment_index/spatial_segment_index.cpp', C+'visgraph/vistree_generator.cpp'],
  'Land containment and nearest crossed edges from an S2 index, then A* on the visibility graph plus endpoint trees.')
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
print(len(P))
