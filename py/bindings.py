"""R04: the extension module answers as the engine does, whatever the history of calls on its objects."""
import gc, itertools, math, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rep
R = rep.start()
from enginetalk import Engine, canon, parse
from capi.src.implementation.visibility_graphs import (VisGraph, VisGraphCoord, VisGraphPolygon, VisGraphShortestPathComputer, VistreeGenerator,
                                                       generate_visgraph, generate_visgraph_with_shuffled_range, load_graph_from_file, merge_graphs,
                                                       save_graph_to_file)

T = R.thorough
INF = math.inf
engine = Engine(R.engine)
C = VisGraphCoord


def flat(cs):
    return [(c.longitude, c.latitude) for c in cs]


def P(v):
    return VisGraphPolygon([C(*x) for x in v])


def quiet(f):
    """Calls that print go through sys.stdout."""
    old = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    try:
        return f()
    finally:
        sys.stdout.close()
        sys.stdout = old


SCENES = {
    'triangle': [[(0.0, 0.0), (1.0, 0.0), (0.0, 1.0)]],
    'two': [[(0.0, 0.0), (1.0, 0.0), (0.0, 1.0)], [(3.0, 0.5), (4.0, 1.0), (3.0, 2.0)]],
    'antimeridian': [[(177.0, 0.0), (179.0, 0.0), (178.0, 1.0)], [(-179.0, 0.0), (-177.0, 1.0), (-179.0, 2.0)]],
    'notched': [[(0.0, 0.0), (4.0, 0.0), (4.0, 4.0), (3.0, 1.0), (1.0, 1.0), (0.0, 4.0)]],
    'clockwise': [[(0.0, 1.0), (1.0, 0.0), (0.0, 0.0)], [(0.5, 3.0), (2.0, 3.5), (2.0, 2.0)]],
    'hidden': [[(0.0, 0.0), (1.0, 0.0), (0.0, 1.0)], [(2.0, -1.0), (5.0, -1.0), (5.0, 2.0), (2.0, 2.0)], [(6.0, 0.0), (7.0, 0.0), (6.0, 1.0)]],
    'borders': [[(0.0, 0.0), (1.0, 0.0), (1.0, 1.0), (0.0, 1.0)], [(1.0, 0.0), (2.0, 0.0), (2.0, 1.0), (1.0, 1.0)], [(2.0, 1.0), (3.0, 1.0), (2.0, 2.0)]],
    'no land': [],
}

# ---- coordinates and polygons ------------------------------------------------------------------------------------------
VALUES = [0.0, 1.0, -1.0, 0.000001, -0.000001, 45.123456, -45.123456, 89.999999, -90.0]
LONGS = VALUES + [180.0, -180.0, 179.999999, 123.456789]
SCALARS = [1.0, -1.0, 0.5, 2.0, 3.7, 1e-6, -0.3333333]


def words(l):
    return l.split(' ', 3)


def coordinates():
    pts = [(x, y) for x in LONGS for y in VALUES]
    if not T:
        pts = pts[::3]
    for i, p in enumerate(pts):
        if not R.take():
            continue
        R.sample('coordinate %r' % (p,))
        R.nontrivial()
        a = C(*p)
        for k, q in enumerate(pts):
            b, x = C(*q), SCALARS[(i + k) % len(SCALARS)]
            want = engine.ask('ops %r %r %r %r %r' % (p + q + (x,)))
            have = []
            for name, c in (('self', a), ('neg', -a), ('sub', a - b), ('add', a + b), ('mul', a * x), ('div', a / x)):
                have.append((name, c.longitude, c.latitude, repr(c)))
            w = [(n, float(u), float(v), t) for n, u, v, t in map(words, want[:6])]
            R.count('pairs')
            if have != w:
                R.fail('arithmetic of %r and %r with %r: %r instead of %r' % (p, q, x, have, w))
                break
            if 'eq %d %d' % (a == b, a != b) != want[6]:
                R.fail('equality of %r and %r' % (p, q))
            num = [a.dot_product(b), a.cross_product_magnitude(b), a.magnitude_squared(), a.magnitude()]
            if num != list(map(float, want[7].split()[1:])):
                R.fail('products of %r and %r: %r instead of %s' % (p, q, num, want[7]))
            if (a.longitude, a.latitude, b.longitude, b.latitude) != (w[0][1], w[0][2], C(*q).longitude, C(*q).latitude):
                R.fail('arithmetic changes %r or %r' % (p, q))
        for name in ('longitude', 'latitude'):
            try:
                setattr(a, name, 1.25)
                R.fail('%s of a coordinate can be set' % name)
            except AttributeError:
                pass


def polygons():
    grid = [(0.0, 0.0), (1.0, 0.0), (2.0, 0.0), (1.0, 1.0), (0.0, 1.0), (0.5, 2.0)]
    lists = [v for n in (3, 4) for v in itertools.permutations(grid, n)]
    if not T:
        lists = lists[::3]
    some = lists[::17]
    for v in lists:
        if not R.take():
            continue
        R.sample('polygon %r' % (v,))
        R.nontrivial()
        p = P(v)
        want = engine.ask('polygon %d ' % len(v) + ' '.join('%r %r' % x for x in v))
        if flat(p.vertices) != parse(want[0]) or repr(p) != '\n'.join(want[1:]):
            R.fail('polygon %r becomes %r instead of %s' % (v, flat(p.vertices), want))
        got = p.vertices
        del got[:]
        if flat(p.vertices) != parse(want[0]):
            R.fail('polygon %r changes with the list it gave' % (v,))
        for u in some:
            q = P(u)
            same = flat(q.vertices) == flat(p.vertices)
            if (p == q) != same or (p != q) == same:
                R.fail('equality of polygons %r and %r' % (v, u))


# ---- histories of graphs -----------------------------------------------------------------------------------------------
class Model:
    def __init__(self, scene, marks=None):
        self.scene = scene
        self.vs = sorted({x for p in scene for x in p})
        self.marks = dict(marks or {})

    def copy(self):
        return Model(self.scene, self.marks)

    def text(self):
        return sorted((a, b) for a, b in self.marks)


BASE = SCENES['antimeridian']
BV = [BASE[0][1], BASE[1][0], BASE[0][2]]
ABSENT = (50.0, 50.0)


def merged(a, b):
    m = a.copy()
    for k, v in b.marks.items():
        m.marks[k] = m.marks.get(k, 0) | v
    return m


EDGE = re.compile(r'\(([^,()]+), ([^,()]+), meridian_span: (true|false)\)')
STAR = re.compile(r'^\s*\[\(([^,()]+), ([^,()]+)\) \[(.*)\]\]$')


def spans(g):
    """Marks of the edges of a graph, from its text."""
    m = {}
    if 'meridian_span' not in repr(g) and any(g.get_neighbors(v) for v in g.vertices):
        return None  # some other text: the marks are judged by equality alone
    for line in repr(g).split('\n'):
        s = STAR.match(line)
        if s:
            for e in EDGE.finditer(s.group(3)):
                m[(float(s.group(1)), float(s.group(2))), (float(e.group(1)), float(e.group(2)))] = 2 if e.group(3) == 'true' else 1
    return m


def generated(scene):
    """Marks of a generated graph: those of the engine."""
    key = repr(scene)
    if key not in generated.cache:
        g = quiet(lambda: generate_visgraph([P(p) for p in scene]))
        want = '\n'.join(engine.ask('gen ' + Engine.polys(scene)))
        if canon(repr(g)) != canon(want):
            R.fail('the generated graph is not that of the engine')
        generated.cache[key] = spans(g)
    return generated.cache[key]


generated.cache = {}
OPS = ['new', 'gen', 'add01', 'add01x', 'add12', 'add02', 'addbad', 'save', 'load', 'merge', 'search', 'drop', 'lists']


def compare(g, m, what):
    vs = flat(g.vertices)
    if sorted(vs) != m.vs:
        R.fail('vertices %r instead of %r after %s' % (vs, m.vs, what))
        return False
    if sorted(sorted(flat(p.vertices)) for p in g.polygons) != sorted(sorted(p) for p in m.scene):
        R.fail('polygons after %s' % what)
        return False
    for a in m.vs:
        if not g.has_vertex(C(*a)):
            R.fail('vertex %r is missing after %s' % (a, what))
            return False
        ns = flat(g.get_neighbors(C(*a)))
        want = [b for b in m.vs if (a, b) in m.marks]
        if sorted(ns) != want:
            R.fail('neighbours of %r are %r instead of %r after %s' % (a, ns, want, what))
            return False
        for b in m.vs:
            if g.has_edge(C(*a), C(*b)) != ((a, b) in m.marks):
                R.fail('edge %r %r after %s' % (a, b, what))
                return False
    if g.has_vertex(C(*ABSENT)):
        R.fail('a vertex from nowhere after %s' % what)
        return False
    if spans(g) is not None and {e: k == 2 for e, k in spans(g).items()} != {e: k == 2 for e, k in m.marks.items()}:
        R.fail('edge marks %r instead of %r after %s' % (spans(g), m.marks, what))
        return False
    R.count('states')
    return True


def fails(f, what, kinds=(RuntimeError, ValueError, IndexError, KeyError)):
    try:
        f()
    except kinds:
        return
    except TypeError as e:
        R.fail('%s is a type error: %s' % (what, e))
        return
    R.fail('%s is no error' % what)


def history(seq):
    what = ' '.join(OPS[k] for k in seq)
    path = os.path.join(R.work, 'h')
    if os.path.exists(path):
        os.remove(path)
    live, file, made = [], None, 0
    held = []  # things a graph gave, with what they must go on saying
    marks = {'add01': (0, 1, False), 'add01x': (0, 1, True), 'add12': (1, 2, False), 'add02': (0, 2, True)}
    for k in seq:
        op = OPS[k]
        g, m = live[-1] if live else (None, None)
        if op == 'new':
            live.append((VisGraph([P(p) for p in BASE]), Model(BASE)))
        elif op == 'gen':
            if generated(BASE) is None:
                return False
            live.append((quiet(lambda: generate_visgraph([P(p) for p in BASE])), Model(BASE, generated(BASE))))
        elif op in marks:
            if not g:
                return False
            i, j, x = marks[op]
            g.add_edge(C(*BV[i]), C(*BV[j]), x)
            for e in ((BV[i], BV[j]), (BV[j], BV[i])):
                m.marks[e] = m.marks.get(e, 0) | (2 if x else 1)
        elif op == 'addbad':
            if not g:
                return False
            fails(lambda: g.add_edge(C(*BV[0]), C(*ABSENT), False), 'an edge to an unknown vertex')
            fails(lambda: g.add_edge(C(*ABSENT), C(*BV[0]), True), 'an edge from an unknown vertex')
            fails(lambda: g.get_neighbors(C(*ABSENT)), 'asking for the neighbours of an unknown vertex')
            try:
                g.add_edge(BV[0], BV[1], False)
                R.fail('tuples pass for coordinates')
            except TypeError:
                pass
        elif op == 'save':
            if not g:
                return False
            save_graph_to_file(g, path)
            file = m.copy()
        elif op == 'load':
            if file is None:
                fails(lambda: load_graph_from_file(path), 'loading a file that is not there', (RuntimeError, OSError))
                continue
            live.append((load_graph_from_file(path), file.copy()))
        elif op == 'merge':
            if not live:
                return False
            h, n = live[0]
            live.append((merge_graphs([g, h]), merged(m, n)))
        elif op == 'search':
            if not g:
                return False
            spc = VisGraphShortestPathComputer(g)
            held.append((spc, g, m))
        elif op == 'drop':
            if not live:
                return False
            live.pop(0)
            gc.collect()
        elif op == 'lists':
            if not g:
                return False
            held.append(('list', g.vertices, flat(g.vertices)))
            held.append(('list', g.get_neighbors(C(*BV[0])), flat(g.get_neighbors(C(*BV[0])))))
            x = g.vertices
            del x[:]
            x = g.get_neighbors(C(*BV[1]))
            x.append(C(*ABSENT))
            x = g.polygons
            del x[:]
        for h, n in live:
            if not compare(h, n, what):
                return True
        for a, b in itertools.combinations(live, 2):
            # (marks decide equality, and two graphs over the same land differ in nothing else)
            same = {e: k == 2 for e, k in a[1].marks.items()} == {e: k == 2 for e, k in b[1].marks.items()}
            if (a[0] == b[0]) != same or (a[0] != b[0]) == same:
                R.fail('equality after %s' % what)
                return True
    made = len(live)
    for h in held:
        if h[0] == 'list':
            if flat(h[1]) != h[2]:
                R.fail('a list follows the graph after %s' % what)
            continue
        spc, g, m = h
        for a, b in ((BV[0], BV[1]), (BV[2], BV[1]), (BV[1], BASE[1][2])):
            save_graph_to_file(g, path + '2')
            text = engine.ask('open ' + path + '2')
            if canon(repr(g)) != canon('\n'.join(text)):
                R.fail('the saved graph reads otherwise after %s' % what)
                return True
            want = parse(engine.ask('path %r %r %r %r inf 0 1.0' % (a + b))[0])
            try:
                got = flat(quiet(lambda: spc.shortest_path(C(*a), C(*b))))
            except Exception as e:
                got = 'error ' + str(e)
            R.count('searches')
            if got != want:
                R.fail('path %r %r is %r instead of %r after %s' % (a, b, got, want, what))
                return True
    R.nontrivial()
    R.outcomes.add('%d graphs, %s' % (made, 'file' if file else 'no file'))
    return True


def histories():
    depth = 5 if T else 4
    first = [OPS.index('new'), OPS.index('gen'), OPS.index('load')]
    need = [OPS.index(x) for x in ('new', 'gen')]
    for seq in itertools.product(range(len(OPS)), repeat=depth):
        if seq[0] not in first or not any(k in need for k in seq):
            continue
        if not R.take():
            continue
        R.sample('history %s' % ' '.join(OPS[k] for k in seq))
        history(seq)


# ---- searches, visible vertices, ranges --------------------------------------------------------------------------------
def ends(scene):
    out = [v for p in scene for v in p[:2]]
    out += [(sum(x for x, y in p) / len(p), sum(y for x, y in p) / len(p)) for p in scene]
    return out + [(-3.0, -2.0), (5.5, 3.0), (179.5, -1.0)]


DEFAULTS = [('maximum_distance_to_search_from_source', INF, [1.5, 100.0, 0.0]), ('correct_vertices_on_land', False, [True, 1]), ('a_star_greediness_weighting', 1.0, [2, 0.0, 3.5])]


def calls():
    """Every way of giving none, some or all parameters: positional arguments and the explicit values meant."""
    for npos in range(4):
        rest = range(npos, 3)
        for r in range(len(rest) + 1):
            for kw in itertools.combinations(rest, r):
                for pick in itertools.product(*[DEFAULTS[i][2] for i in list(range(npos)) + list(kw)]):
                    vals = [d[1] for d in DEFAULTS]
                    for i, v in zip(list(range(npos)) + list(kw), pick):
                        vals[i] = v
                    yield [vals[i] for i in range(npos)], {DEFAULTS[i][0]: vals[i] for i in kw}, vals


def searches():
    path = os.path.join(R.work, 's')
    for name, scene in SCENES.items():
        for pos, kw, vals in calls():
            if not R.take():
                continue
            R.sample('searching %s with %r %r' % (name, pos, kw))
            g = quiet(lambda: generate_visgraph([P(p) for p in scene]))
            save_graph_to_file(g, path)
            engine.ask('open ' + path)
            spc = VisGraphShortestPathComputer(g)
            del g
            gc.collect()
            pts = ends(scene)
            pairs = [(a, b) for a in pts for b in pts][::1 if T else 2]
            line = '%r %d %r' % (float(vals[0]), vals[1], float(vals[2]))
            single = []
            for k, (a, b) in enumerate(pairs):
                want = parse(engine.ask('path %r %r %r %r %s' % (a + b + (line,)))[0])
                single.append(want)
                try:
                    if k % 2 or pos:
                        got = flat(quiet(lambda: spc.shortest_path(C(*a), C(*b), *pos, **kw)))
                    else:
                        got = flat(quiet(lambda: spc.shortest_path(destination=C(*b), source=C(*a), **kw)))
                except Exception as e:
                    got = 'error ' + str(e)
                R.count('searches')
                if got != want:
                    R.fail('path %r %r on %s with %r %r: %r instead of %r' % (a, b, name, pos, kw, got, want))
                    return
            req = [(C(*a), C(*b)) for a, b in pairs]
            res = spc.shortest_paths(req, *pos, **kw) if pos else spc.shortest_paths(source_dest_pairs=req, **kw)
            again = spc.shortest_paths(tuple(req[:3]), *pos, **kw)
            del spc
            gc.collect()
            if len(res) != len(req) or len(again) != 3:
                R.fail('a batch of %d has %d results' % (len(req), len(res)))
                return
            for r, want in list(zip(res, single)) + list(zip(again, single)):
                got = flat(r.path) if r.path is not None else None
                err = r.error_msg
                if isinstance(want, list):
                    ok = got == want and err is None
                else:
                    ok = got is None and 'error ' + err == want
                if not ok:
                    R.fail('batch on %s with %r %r: %r, %r instead of %r' % (name, pos, kw, got, err, want))
                    return
            if any(isinstance(w, list) for w in single) and any(not isinstance(w, list) for w in single):
                R.nontrivial()


def visible():
    for name, scene in SCENES.items():
        pts = [v for p in scene for v in p] + [(-3.0, -2.0), (1.7, 1.2), (5.5, 3.0), (179.5, -1.0), (-180.0, 0.25)]
        for half in (False, True):
            if not R.take():
                continue
            R.sample('visible vertices of %s, %s' % (name, 'half' if half else 'full'))
            R.nontrivial()
            land = [P(p) for p in scene]
            tree = VistreeGenerator(land)
            del land
            gc.collect()
            keep = []
            for a in pts:
                want = sorted((float(x), float(y), int(z)) for x, y, z in (l.split() for l in engine.ask('vis %r %r %d ' % (a + (half,)) + Engine.polys(scene))))
                vis = tree.get_visible_vertices(C(*a), half)
                keep.append((vis, want))
                R.count('observers')
            del tree
            gc.collect()
            for a, (vis, want) in zip(pts, keep):
                got = sorted((v.coord.longitude, v.coord.latitude, int(v.is_visible_across_meridian)) for v in vis)
                if got != want:
                    R.fail('from %r on %s (%s): %r instead of %r' % (a, name, half, got, want))


def ranges():
    for name, scene in SCENES.items():
        n = sum(map(len, scene))
        for seed in (0, 7, 2 ** 32 - 1):
            if not R.take():
                continue
            R.sample('ranges of %s, seed %d' % (name, seed))
            for a in range(n + 2):
                for b in range(n + 2):
                    want = canon('\n'.join(engine.ask('range %d %d %d ' % (a, b, seed) + Engine.polys(scene))))
                    try:
                        got = canon(repr(quiet(lambda: generate_visgraph_with_shuffled_range([P(p) for p in scene], a, b, seed))))
                    except Exception as e:
                        got = 'error ' + str(e)
                    R.count('ranges')
                    if got != want:
                        R.fail('range %d %d of %s, seed %d: %s instead of %s' % (a, b, name, seed, got, want))
            R.nontrivial()
            for bad in ((-1, 1, 0), (0, -1, 0), (0, 1, -1), (0, 1, 2 ** 64), ('0', 1, 0), (0, 1.5, 0)):
                try:
                    generate_visgraph_with_shuffled_range([P(p) for p in scene], *bad)
                    R.fail('range %r is accepted' % (bad,))
                except (TypeError, ValueError, OverflowError):
                    pass


coordinates()
polygons()
histories()
searches()
visible()
ranges()
R.finish('values combined, histories that end with a graph compared, searches of which some succeed and some fail')
