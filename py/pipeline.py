"""R02: generate, split, merge, load and interpolate through the Python classes, compared with the engine on its own."""
import itertools, math, os, shutil, sys, warnings
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rep
R = rep.start()
from enginetalk import Engine, canon, parse
from shapefmt import LINE, NULL, POLY, write
from capi.src.implementation import graph_generator
from capi.src.implementation.datastructures.graph_file_paths import GraphFilePaths
from capi.src.implementation.datastructures.polygon import Polygon
from capi.src.implementation.dtos.coordinate import Coordinate
from capi.src.implementation.graph_generator import GraphGenerator
from capi.src.implementation.graph_merger import GraphMerger
from capi.src.implementation.path_interpolator import PathInterpolator
from capi.src.implementation.visibility_graphs import load_graph_from_file

T = R.thorough
INF = math.inf


def sq(x, y, s):
    return [(x, y), (x + s, y), (x + s, y + s), (x, y + s)]


def tri(x, y, s=1.0):
    return [(x, y), (x + s, y), (x, y + s)]


SCENES = {
    'no land': [],
    'triangle': [tri(0.0, 0.0)],
    'square': [sq(10.5, -20.25, 2.0)],
    'hidden': [tri(0.0, 0.0), sq(2.0, -1.0, 3.0), tri(6.0, 0.0)],
    'notched': [[(0.0, 0.0), (4.0, 0.0), (4.0, 4.0), (3.0, 1.0), (1.0, 1.0), (0.0, 4.0)]],
    'antimeridian': [[(177.0, 0.0), (179.0, 0.0), (178.0, 1.0)], [(-179.0, 0.0), (-177.0, 1.0), (-179.0, 2.0)]],
    'touching the antimeridian': [[(178.0, 0.0), (180.0, 0.0), (180.0, 2.0)], [(-180.0, 0.0), (-178.0, 1.0), (-180.0, 2.0)]],
    'four': [tri(0.0, 0.0), tri(3.0, 0.3), sq(0.2, 3.1, 1.0), tri(3.3, 3.2)],
    'microdegrees': [[(0.000001, 0.0), (0.000101, 0.000003), (0.00005, 0.0001)], [(0.0002, -0.00001), (0.0003, 0.00005), (0.0002, 0.0001)]],
    'borders': [sq(0.0, 0.0, 1.0), sq(1.0, 0.0, 1.0), tri(2.0, 1.0), tri(-1.0, -1.0)[:2] + [(0.0, 0.0)]],
    'clockwise': [tri(0.0, 0.0)[::-1], sq(2.0, 2.0, 1.0)[::-1]],
}
# also records that are not land, in between
JUNK = [(NULL, []), (LINE, [[(0.0, 0.0), (5.0, 5.0)]]), (POLY, [[(9.0, 9.0), (9.5, 9.0), (9.0, 9.0)]])]


class Dir:
    def __init__(self, scene):
        self.path = os.path.join(R.work, 'c')
        shutil.rmtree(self.path, ignore_errors=True)
        os.makedirs(self.path)
        recs = []
        self.scene = scene if isinstance(scene, list) else SCENES[scene]
        for i, p in enumerate(self.scene):
            recs.append(JUNK[i % 3])
            recs.append((POLY, [p + p[:1]]))
        self.shp = os.path.join(self.path, 'land.shp')
        write(self.shp[:-4], POLY, recs or [JUNK[0]])
        self.n = sum(map(len, self.scene))

    def at(self, name):
        return os.path.join(self.path, name)


engine = Engine(R.engine)


def edges(g):
    return frozenset(line for line in stars(g))


def stars(g):
    """Edges of a graph as (vertex, neighbour) pairs."""
    for v in g.vertices:
        a = (v.longitude, v.latitude)
        for w in g.get_neighbors(v):
            yield a, (w.longitude, w.latitude)


def split_case(name, parts, seed, whole_too):
    d = Dir(name)
    what = '%s in %d parts, seed %d' % (name, parts, seed)
    R.sample(what)
    gen = GraphGenerator()
    outs = []
    for i in range(parts):
        out = d.at('part%d' % i)
        gen.generate_for_vertex_range(d.shp, out, i, parts, seed)
        outs.append(out)
    want = canon('\n'.join(engine.ask('gen ' + Engine.polys(d.scene))))
    GraphMerger().merge(outs, d.at('merged'))
    merged = load_graph_from_file(GraphFilePaths(d.at('merged')).default_graph_path)
    if canon(repr(merged)) != want and d.n:
        R.fail('merging %s does not give the graph of the engine' % what)
    if whole_too:
        gen.generate(d.shp, d.at('whole'))
        whole = load_graph_from_file(GraphFilePaths(d.at('whole')).default_graph_path)
        if canon(repr(whole)) != want:
            R.fail('the generated graph of %s is not that of the engine' % name)
        if d.n and not (whole == merged):
            R.fail('the parts of %s do not make the whole' % what)
        # (the engine keeps microdegrees, and K02 has a finding about the last one)
        have = [[(c.longitude, c.latitude) for c in p.vertices] for p in whole.polygons]
        if name != 'clockwise' and ([len(p) for p in have] != [len(p) for p in d.scene] or
                                    any(abs(x - y) > 1.5e-6 for p, q in zip(have, d.scene) for v, w in zip(p, q) for x, y in zip(v, w))):
            R.fail('the polygons of %s changed: %r' % (name, whole.polygons))
    if not d.n:
        return
    # the parts must be those of consecutive ranges of the shuffled vertices, from the first to the last
    single = []
    for k in range(d.n):
        lines = engine.ask('range %d %d %d ' % (k, k + 1, seed) + Engine.polys(d.scene))
        single.append('\n'.join(lines))
    ranges = {}
    for a in range(d.n + 1):
        for b in range(a, d.n + 1):
            ranges[a, b] = None
    got = [canon(repr(load_graph_from_file(GraphFilePaths(o).default_graph_path))) for o in outs]
    reach = {0}
    for i, g in enumerate(got):
        nxt = set()
        for a in reach:
            for b in range(a, d.n + 1):
                if ranges[a, b] is None:
                    ranges[a, b] = canon('\n'.join(engine.ask('range %d %d %d ' % (a, b, seed) + Engine.polys(d.scene))))
                if ranges[a, b] == g:
                    nxt.add(b)
        reach = nxt
        if not reach:
            R.fail('part %d of %s does not go on from the part before it' % (i, what))
            return
    if d.n not in reach:
        R.fail('the parts of %s stop before the last vertex' % what)
    if parts > 1 and len(set(got)) > 1:
        R.nontrivial()
    R.count('parts', parts)


def many_case(parts, seed, order):
    """Merging a great many parts, listed forwards, backwards, evens first or with repeats."""
    name = 'field'
    d = Dir([tri(k % 8 * 2.0 + k % 3 * 0.1, k // 8 * 2.0 + k % 5 * 0.07) for k in range(25)])
    what = '%s in %d parts, seed %d, merged %s' % (name, parts, seed, order)
    R.sample(what)
    gen = GraphGenerator()
    outs = []
    for i in range(parts):
        outs.append(d.at('part%d' % i))
        gen.generate_for_vertex_range(d.shp, outs[-1], i, parts, seed)
    outs = {'forwards': outs, 'backwards': outs[::-1], 'evens first': outs[::2] + outs[1::2], 'repeats': outs + outs[::3]}[order]
    GraphMerger().merge(outs, d.at('merged'))
    merged = load_graph_from_file(GraphFilePaths(d.at('merged')).default_graph_path)
    if canon(repr(merged)) != canon('\n'.join(engine.ask('gen ' + Engine.polys(d.scene)))):
        R.fail('merging %s does not give the graph of the engine' % what)
    R.count('parts', parts)
    R.nontrivial()


class Stub:
    """A reader of one polygon of n corners."""
    def __init__(self, n):
        self.polygons = [Polygon([Coordinate(longitude=k * 0.001, latitude=k * k * 0.001) for k in range(n)])] if n else []

    def read(self, path):
        return self.polygons


def shares_case(n):
    """The ranges asked of the engine for n vertices tile them, whatever the number of parts."""
    name = 'generate_visgraph_with_shuffled_range'
    real = getattr(graph_generator, name, None), getattr(graph_generator, 'save_graph_to_file', None)
    if None in real:
        return
    R.sample('shares of %d vertices' % n)
    calls = []

    def record(*a, **k):
        polygons, start, end, seed = list(a) + list(k.values())
        calls.append((start, end, seed, len(polygons), sum(len(p.vertices) for p in polygons)))
        return 'graph'
    saved = []
    gen = GraphGenerator(Stub(n))
    out = os.path.join(R.work, 's')
    seed = n * 7919
    setattr(graph_generator, name, record)
    graph_generator.save_graph_to_file = lambda g, p: saved.append((g, p))
    try:
        for parts in list(range(1, n + 4)) if n < 130 else [1, 2, 3, 7, 10, 49, 64, 97, 128]:
            del calls[:]
            for i in range(parts):
                try:
                    gen.generate_for_vertex_range('x', out, i, parts, seed)
                except (TypeError, ValueError, AttributeError, OSError):
                    return
                finally:
                    shutil.rmtree(out, ignore_errors=True)
            R.count('divisions')
            if len(calls) != parts or len(saved) < parts:
                return  # done some other way; the real splits below judge it
            if any(c[2] != seed for c in calls) or any(c[4] != n for c in calls):
                R.fail('%d vertices in %d parts: other seed or land passed on: %r' % (n, parts, calls[:3]))
                return
            at = 0
            for a, b in sorted((c[0], c[1]) for c in calls if c[0] != c[1]):
                if a != at or b < a:
                    break
                at = b
            if at != n:
                R.fail('%d vertices in %d parts are not covered once: %r' % (n, parts, [c[:2] for c in calls]))
                return
    finally:
        setattr(graph_generator, name, real[0])
        graph_generator.save_graph_to_file = real[1]
    R.nontrivial()


def overwrite_case(name, kind, content):
    """An output folder or file that exists already is left alone."""
    d = Dir(name)
    R.sample('existing output, %s, %s' % (kind, content))
    gen = GraphGenerator()
    gen.generate(d.shp, d.at('whole'))
    out = d.at('out')
    if content == 'file':
        with open(out, 'wb') as f:
            f.write(b'keep')
    else:
        os.mkdir(out)
        if content == 'graph':
            with open(os.path.join(out, 'default'), 'wb') as f:
                f.write(b'keep')
    before = snapshot(d.path)
    try:
        if kind == 'generate':
            gen.generate(d.shp, out)
        elif kind == 'range':
            gen.generate_for_vertex_range(d.shp, out, 0, 2, 1)
        else:
            GraphMerger().merge([d.at('whole')], out)
        R.fail('%s accepts an output that exists (%s)' % (kind, content))
    except OSError:
        pass
    if snapshot(d.path) != before:
        R.fail('%s changes an output that exists (%s)' % (kind, content))
    R.nontrivial()


def snapshot(root):
    r = {}
    for base, ds, fs in os.walk(root):
        for x in ds:
            r[os.path.join(base, x)] = None
        for x in fs:
            with open(os.path.join(base, x), 'rb') as f:
                r[os.path.join(base, x)] = f.read()
    return r


def points(scene):
    if not scene:
        return [(0.0, 0.0), (1.5, -2.25), (-179.9999995, 89.0)]
    xs = [x for p in scene for x, y in p]
    ys = [y for p in scene for x, y in p]
    pts = [v for p in scene for v in p[:2]]
    for p in scene:
        pts.append((sum(x for x, y in p) / len(p), sum(y for x, y in p) / len(p)))
        pts.append(((p[0][0] + p[1][0]) / 2, (p[0][1] + p[1][1]) / 2))
    far = 1.7 if max(xs) - min(xs) > 0.01 else 0.00011
    lo, hi = min(x for x in xs), max(x for x in xs)
    pts += [(max(lo - far, -180.0), min(ys) - far), (min(hi + far, 180.0), max(ys) + far / 3), (min(hi + far, 180.0), min(ys) - far / 7), (lo, max(ys) + far)]
    return pts


PARAMS = [(), (INF, True), (INF, True, 1.7), (0.01,), (0.01, True, 0.0), (2.5, False, 3.0), (0.0,), (0.0, True, 2.0), (INF, False, 0.0), (1e-9,), (-1.0, True), (1000.0, True, 1e9)]
KEYS = ['search_distance_from_source_limit', 'correct_vertices_on_land', 'a_star_greediness_weighting']


def C(p):
    return Coordinate(longitude=p[0], latitude=p[1])


def line(pr):
    pr = list(pr) + [INF, False, 1.0][len(pr):]
    return '%r %d %r' % (pr[0], pr[1], pr[2])


def flat(path):
    return [(c.longitude, c.latitude) for c in path]


def interp_case(name, which):
    d = Dir(name)
    GraphGenerator().generate(d.shp, d.at('whole'))
    engine.ask('open ' + GraphFilePaths(d.at('whole')).default_graph_path)
    pi = PathInterpolator(d.at('whole'))
    pts = points(d.scene)
    pr = PARAMS[which]
    R.sample('paths on %s with %r' % (name, pr))
    pairs = [(a, b) for a in pts for b in pts]
    if not T:
        pairs = [q for k, q in enumerate(pairs) if k % 3 == which % 3 or len(pairs) < 60]
    single = []
    found = failed = 0
    for k, (a, b) in enumerate(pairs):
        want = parse(engine.ask('path %r %r %r %r %s' % (a + b + (line(pr),)))[0])
        try:
            if k % 2:
                got = flat(pi.interpolate(C(a), C(b), *pr))
            else:
                got = flat(pi.interpolate(coord_1=C(a), coord_2=C(b), **dict(zip(KEYS, pr))))
        except Exception as e:
            got = 'error ' + str(e)
        R.count('paths')
        if got != want:
            R.fail('path %s-%s on %s with %r: %s instead of %s' % (a, b, name, pr, got, want))
            return
        single.append((a, b, want))
        found += isinstance(want, list)
        failed += not isinstance(want, list)
    lists = [[]] + [[x] for x in single[::5]] + [list(x) for x in itertools.product(single[::11], repeat=2)] + [single]
    if T:
        lists += [list(x) for x in itertools.product(single[::17], repeat=3)]
    for b in lists:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            try:
                if len(b) % 2:
                    got = pi.batch_interpolate([(C(x), C(y)) for x, y, _ in b], *pr)
                else:
                    got = pi.batch_interpolate(coord_pairs=[(C(x), C(y)) for x, y, _ in b], **dict(zip(KEYS, pr)))
            except Exception as e:
                R.fail('batch of %d on %s with %r fails: %r' % (len(b), name, pr, e))
                return
        R.count('batches')
        want = [p if isinstance(p, list) else None for _, _, p in b]
        have = [None if p is None else flat(p) for p in got]
        if have != want:
            R.fail('batch of %d on %s with %r differs from single calls' % (len(b), name, pr))
            return
        bad = [p[6:] for _, _, p in b if not isinstance(p, list)]
        if len(w) != len(bad) or any(m not in str(x.message) for m, x in zip(bad, w)):
            R.fail('batch of %d on %s with %r: warnings %s for failures %s' % (len(b), name, pr, [str(x.message) for x in w][:5], bad[:5]))
            return
    R.outcomes.add('%s paths and %s failures' % ('some' if found else 'no', 'some' if failed else 'no'))
    if found and (failed or not d.n):
        R.nontrivial()


def main():
    for name in SCENES:
        n = sum(map(len, SCENES[name]))
        for seed in (0, 1, 42, 2 ** 32 - 1) if T else (0, 42):
            for parts in range(1, n + 3):
                if not T and n > 9 and parts not in (1, 2, 3, 5, n - 1, n, n + 1):
                    continue
                if R.take():
                    split_case(name, parts, seed, parts % 3 == 1)
    for k, parts in enumerate((16, 31, 32, 33, 50, 64, 65, 66, 75, 76, 100, 128, 129, 130, 257)):
        for order in ('forwards', 'backwards', 'evens first', 'repeats'):
            if (T or k % 4 == len(order) % 4 or parts in (65, 130)) and R.take():
                many_case(parts, parts * 31, order)
    for n in [0] + list(range(3, 97 if T else 49)) + [100, 127, 128, 255, 1000]:
        if R.take():
            shares_case(n)
    for kind in ('generate', 'range', 'merge'):
        for content in ('file', 'empty folder', 'graph'):
            if R.take():
                overwrite_case('triangle', kind, content)
    for name in SCENES:
        for which in range(len(PARAMS)):
            if R.take():
                interp_case(name, which)


main()
R.finish('splits into parts that differ, existing outputs, searches of which some succeed and some fail')
