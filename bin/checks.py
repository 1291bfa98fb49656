"""One entry per claimed property: harness, level, wording for MANIFEST.json."""
GEO = ['scenes are disjoint simple polygons with corners in [-180,180]x[-90,90] within the enumerated families',
       'the exact-geometry oracle in src/common/geo.hpp']
SCHED_LD = ['-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset', '-lgomp']
CHECKS = {
    'V01': dict(src='vis', level='exploration', assumptions=GEO,
                technique='exhaustive enumeration of bounded scenes on the real generator, exact-geometry oracle',
                note='Every scene of the enumerated families is run through the real generator and every vertex pair is compared with exact integer geometry; '
                     'families include crowded scenes of up to a few hundred vertices and land up to the poles; '
                     'scenes beyond the families (more polygons, other lattices) are not covered.'),
    'V02': dict(src='vis', level='exploration', assumptions=GEO,
                technique='exhaustive enumeration of bounded scenes on the real generator, exact-geometry oracle',
                note='As V01; lines that merely graze land are left free.'),
    'V03': dict(src='vis', level='exploration', assumptions=GEO,
                technique='exhaustive enumeration of bounded scenes, observers and construction paths, exact-geometry oracle',
                note='All observers of a lattice and all vertices, full and half scans, three ways of supplying the scene, all listings of small scenes. '
                     'Observers include lattice points lying exactly on coastline edges.'),
    'V04': dict(src='vis', level='exploration', assumptions=GEO,
                technique='exhaustive enumeration of bounded scenes and longitude shifts, shifted and unshifted runs compared',
                note='Every shift that places a vertex on or next to the antimeridian. Sight lines that wind round the world more than once are a listed finding.'),
    'V05': dict(src='vis', level='exploration', assumptions=GEO,
                technique='exhaustive enumeration of bounded scenes of touching polygons on the real generator, exact-geometry oracle',
                note='All pairs (steps of the triples) of lattice polygons whose interiors are apart and whose boundaries meet; overlapping land is outside the property.'),
    'K01': dict(src='kern', level='exploration', technique='exhaustive enumeration of listings of bounded lattice polygons',
                note='Every simple polygon with up to seven corners of small lattices (unit to whole-world) in every listing of it.'),
    'K02': dict(src='kern', level='exploration', technique='exhaustive enumeration of the coordinate range axis by axis',
                note='Every one of the 360000001 longitudes and 179999999 latitudes off the poles, each with a few values of the other axis; every storable longitude (all 2^32) folded. '
                     'Losing a microdegree when degrees are stored again is a listed finding for exactly the values of the truncating formula.'),
    'K03': dict(src='kern', level='exploration', technique='exhaustive enumeration of segment, point and corner configurations over critical point sets',
                note='All directed segment pairs, point positions and corners over point sets made of range extremes, a unit lattice and perturbed lattices, '
                     'against 128-bit exact arithmetic. Collinear overlaps are outside the property.'),
    'K04': dict(src='kern', level='exploration', technique='exhaustive enumeration of short vertex lists, rotations and repeats, exact order oracle',
                note='All lists of three (thorough: four) from lattice, extreme and near-parallel sets around several observers, and whole-set lists in all rotations with repeats.'),
    'K05': dict(src='kern', level='exploration', technique='exhaustive enumeration of bounded scenes with all query points and segments, brute-force oracle',
                note='Great-circle geometry in long double; configurations too close to call in floating point are skipped.'),
    'K06': dict(src='kern', level='exploration', technique='exhaustive enumeration of vector, segment and place pairs over critical value sets',
                note='All pairs of a few hundred vectors (range extremes, antimeridian, microdegree lattice) under every operation, all segment pairs over nine points, '
                     'all pairs of places and projections over lattices; sums beyond the storable range and antipodal segments are outside.'),
    'G01': dict(src='graphs', level='exploration', technique='exhaustive enumeration of divisions, merge orders and seeds over bounded scenes on the real generator',
                note='All ranges and all divisions of the vertex list of small scenes; divisions into more than three parts only up to seven vertices; '
                     'scenes of up to several hundred vertices with selected divisions.'),
    'G03': dict(src='graphs', level='model_checking', technique='explicit-state search of a map model, every transition replayed on the real graph',
                note='All reachable states of three vertices and bounded depth beyond; every model transition is executed on the implementation and all queries compared; '
                     'graphs of hundreds of vertices with operations at critical vertex numbers.'),
    'G05': dict(src='graphs', level='model_checking', technique='explicit-state search of overlay operation sequences, each replayed on the real overlay',
                note='Every base graph on three vertices with all operation sequences to depth 2, selected bases to depth 3 (thorough 4), two-layer overlays, a base of hundreds of vertices.'),
    'G06': dict(src='graphs', level='exploration', technique='exhaustive pairwise comparison of bounded graphs',
                note='All graphs on three vertices in all listings, pairs over small families, vertices whose hashes collide, single differences in graphs of hundreds of vertices.'),
    'G02': dict(src='conc', variant='sched', extra=['sched/rt'], ld=SCHED_LD, shards=40, level='model_checking',
                technique='stateless model checking of the real parallel code under a controlled scheduler, preemption-bounded, with happens-before race detection',
                note='All distributions of work over two to four threads and all schedules up to the preemption bound, compared with one thread. '
                     'Accesses inside precompiled libraries (S2, libstdc++) are not seen by the race detector; the memory model is sequentially consistent.'),
    'G04': dict(src='conc', variant='sched', extra=['sched/rt'], ld=SCHED_LD, shards=8, level='model_checking',
                technique='stateless model checking of the real graph under a controlled scheduler, histories checked for linearizability',
                note='All programs of two to four threads with one or two calls over three vertices, all schedules up to the preemption bound; '
                     'data races are found by happens-before, so the sequentially consistent exploration is enough for race-free code.'),
    'S01': dict(src='store', level='exploration', ld=['-Wl,--wrap=mmap,--wrap=munmap'],
                technique='exhaustive enumeration of bounded graphs, prior file contents and save sequences on the real file format',
                note='All assignments of edge states for up to five (thorough: six) vertices, every single edge and its complement for up to 33 (136) vertices, prior contents of every length class.'),
    'S02': dict(src='store', level='exploration', variant='asan', ld=['-Wl,--wrap=mmap,--wrap=munmap'],
                technique='exhaustive enumeration of crash points (truncations) and damaged bytes of saved files under AddressSanitizer',
                note='All truncations and all single-byte changes of saved files of up to ten vertices, critical values at every offset, selected pairs of bytes.'),
    'S03': dict(src='faults', level='exploration', shards=8,
                technique='exhaustive fault injection: every system call, every pair of calls, every plausible errno',
                note='All calls made by saving and loading are interposed; page faults on a full device (SIGBUS) are not system calls and are not covered.'),
    'P01': dict(src='path', level='exploration', assumptions=GEO,
                technique='exhaustive enumeration of bounded scenes and endpoint pairs on the real path search, exact-geometry oracle',
                note='Scenes small enough for straight and great-circle lines to agree (about the origin and across the antimeridian), scenes with hundreds of vertices, a polar cap, and world-wide scenes with an end at a land vertex.'),
    'P02': dict(src='path', level='exploration', assumptions=GEO,
                technique='exhaustive enumeration of bounded scenes, endpoint pairs and weightings, brute-force shortest route as oracle',
                note='As P01. Pairs visible both directly and through the antimeridian are costed by the direct way: a listed finding.'),
    'P03': dict(src='path', level='exploration', assumptions=GEO,
                technique='exhaustive enumeration of bounded scenes and endpoint pairs on, in and off land, exact-geometry oracle',
                note='Coordinate rounding is taken as three microdegrees; points within two microdegrees of the shore are free to be either side.'),
    'P04': dict(src='path', level='exploration', assumptions=GEO,
                technique='exhaustive enumeration of bounded scenes, endpoint pairs and limits around every vertex distance, brute-force oracle',
                note='As P01; a pair joined in one straight leg is answered whatever the limit.'),
    'P05': dict(src='path', level='exploration', assumptions=GEO,
                technique='exhaustive enumeration of short batches over bounded scenes, compared with single calls',
                note='All batches of up to three (thorough: four) requests from a pool of six under five parameter sets, cyclic batches of every length to 72 (and critical ones to 2050); thread interleavings are the subject of G02.'),
    'P06': dict(src='path', level='exploration',
                technique='exhaustive enumeration of edge sets, marks and directions on small vertex sets, textbook shortest path search as oracle',
                note='All graphs on four vertices, all undirected ones on five and six, all joins of two triangles across the antimeridian, four edge patterns on 9 to 258 (thorough 300) vertices; '
                     'ends are land vertices, so that nothing but the search is involved.'),
    'P07': dict(src='path', level='exploration', assumptions=GEO,
                technique='exhaustive enumeration of bounded scenes of touching polygons and endpoint pairs, exact-geometry oracle and brute-force shortest route',
                note='As P01 and P02, for pairs and triples of lattice polygons whose boundaries meet.'),
    'R01': dict(src='shapes', kind='py', level='exploration', shards=8,
                technique='exhaustive enumeration of shapefiles made of bounded record sequences, read by the real reader',
                note='All sequences of up to two records (three in steps) of eighteen kinds, long rings, many holes and many records, written byte by byte, read as text path, without ending and as path object.'),
    'R02': dict(src='pipeline', kind='py', engine='engine', omp=2, level='exploration', shards=8,
                technique='exhaustive enumeration of scenes, split counts, seeds, endpoint pairs and parameters through the Python classes, compared with the engine',
                note='Every split of ten scenes into one to more parts than vertices; each part must continue the ranges before it. Single and batch paths compared value by value.'),
    'R03': dict(src='values', kind='py', level='exploration', shards=8,
                technique='exhaustive enumeration of values, pairs and operation histories against a value model',
                note='All pairs over boundary values; all histories of up to five (thorough: six) operations on the list a polygon is made from.'),
    'R04': dict(src='bindings', kind='py', engine='engine', omp=2, level='exploration', shards=8,
                technique='exhaustive enumeration of call histories, values and argument forms through the extension module, compared with a model and the engine',
                note='All histories of up to four (thorough: five) of thirteen calls on graphs over one scene; every positional and keyword form of the search parameters on seven scenes; '
                     'edge marks cannot be read through the module and are seen only by equality and by searching.'),
    'R05': dict(src='strategies', kind='py', level='exploration', shards=8,
                technique='stateless exploration of the choices a strategy asks for, all sequences from a critical alphabet within a deviation bound',
                note='Every request for bits is answered by the harness: all sequences from the alphabet for a coordinate, up to two departures from four base answers for '
                     'polygons of eight (thorough: eleven) size bounds; the generator below the strategies is the installed hypothesis.'),
}
