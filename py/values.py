"""R03: coordinates and polygons as values."""
import itertools, math, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rep
R = rep.start()
from capi.src.implementation.datastructures.polygon import Polygon
from capi.src.implementation.dtos.coordinate import Coordinate, construct_coord_in_lat_lon_range
from capi.src.interfaces.datastructures.polygon import IPolygon

T = R.thorough
LAT = [0.0, -0.0, 1, 1.0, 0.1, 0.30000000000000004, 0.3, -1, 90, -90, 89.999999, 5e-324, 1e-6, 45.5]
LON = LAT + [180, -180, 179.999999, -179.999999, 2.5e-7]


def attempts(c):
    def setter(name, v):
        return lambda: setattr(c, name, v)

    def deleter(name):
        return lambda: delattr(c, name)
    out = [setter(n, v) for n in ('latitude', 'longitude') for v in (0.0, 7.5, None)] + [deleter('latitude'), deleter('longitude')]

    def iadd(name):
        def f():
            exec('c.%s += 1' % name, {'c': c})
        return f
    return out + [iadd('latitude'), iadd('longitude')]


def coordinates():
    pts = [(a, o) for a in LAT for o in LON]
    if not T:
        pts = pts[::2]
    for a, o in pts:
        if not R.take():
            continue
        R.sample('coordinate %r %r' % (a, o))
        R.nontrivial()
        c = Coordinate(latitude=a, longitude=o)
        if not (c.latitude == a and c.longitude == o):
            R.fail('a coordinate made of %r, %r says %r, %r' % (a, o, c.latitude, c.longitude))
        h = hash(c)
        for f in attempts(c):
            try:
                f()
            except Exception:
                pass
            R.count('mutations_tried')
            if not (c.latitude == a and c.longitude == o) or hash(c) != h or c != Coordinate(latitude=a, longitude=o):
                R.fail('coordinate %r, %r was altered' % (a, o))
                break
        held = {c: 1}
        for b, p in pts:
            d = Coordinate(latitude=b, longitude=p)
            same = a == b and o == p
            R.count('pairs')
            if (c == d) != same or (c != d) == same:
                R.fail('equality of (%r,%r) and (%r,%r)' % (a, o, b, p))
            if same and hash(c) != hash(d):
                R.fail('equal coordinates (%r,%r) and (%r,%r) hash differently' % (a, o, b, p))
            if (d in held) != same or len({c, d}) != (1 if same else 2):
                R.fail('membership of (%r,%r) among (%r,%r)' % (b, p, a, o))
        for other in ((a, o), [a, o], None, 'x', a):
            if c == other:
                R.fail('coordinate equals %r' % (other,))


def normalising():
    far = [k * 360 + d for k in (-3, -2, -1, 0, 1, 2, 3) for d in (-180, -179.5, -90, -0.25, 0, 0.25, 90, 179.5)]
    for a in LAT:
        for o in LON:
            if not R.take():
                continue
            R.sample('normalise %r %r' % (a, o))
            c = construct_coord_in_lat_lon_range(a, o)
            if c.latitude != a or c.longitude != o:
                R.fail('normalising latitude %r longitude %r, both in range, gives %r, %r' % (a, o, c.latitude, c.longitude))
    for a in (-90, -12.5, 0, 90):
        for o in far:
            if not R.take():
                continue
            R.sample('normalise %r %r' % (a, o))
            R.nontrivial()
            c = construct_coord_in_lat_lon_range(a, o)
            turns = (c.longitude - o) / 360
            if c.latitude != a or not -180 <= c.longitude <= 180 or turns != round(turns):
                R.fail('normalising latitude %r longitude %r gives %r, %r' % (a, o, c.latitude, c.longitude))


A = [Coordinate(0.0, 0.0), Coordinate(0.0, 1.0), Coordinate(1.0, 0.0), Coordinate(latitude=0, longitude=0)]
KINDS = [list, tuple]


class Other(IPolygon):
    """A polygon of somebody else."""
    def __init__(self, v):
        self._v = v

    @property
    def vertices(self):
        return self._v

    def __eq__(self, o):
        return NotImplemented

    def __repr__(self):
        return 'Other'


def polygons():
    lists = [list(p) for n in range(0, 6 if T else 5) for p in itertools.product(A[:3], repeat=n)]
    good = []
    for v in lists:
        for kind in KINDS:
            if not R.take():
                continue
            R.sample('polygon of %d vertices %s' % (len(v), [(c.latitude, c.longitude) for c in v]))
            try:
                p = Polygon(kind(v))
            except ValueError:
                p = None
            except Exception as e:
                R.fail('a polygon of %d vertices fails with %r' % (len(v), e))
                continue
            if (p is not None) != (len(v) >= 3):
                R.fail('a polygon of %d vertices is %s' % (len(v), 'accepted' if p is not None else 'rejected'))
            if p is not None:
                if list(p.vertices) != v:
                    R.fail('vertices of a polygon changed: %s' % v)
                if not repr(p):
                    R.fail('no representation')
                R.nontrivial()
    good = [v for v in lists if 3 <= len(v) <= (4 if not T else 5)]
    for i, v in enumerate(good):
        if not R.take():
            continue
        R.sample('equality of polygon %s' % [(c.latitude, c.longitude) for c in v])
        R.nontrivial()
        p = Polygon(v)
        for w in good:
            R.count('pairs')
            q = Polygon(tuple(w))
            if (p == q) != (v == w) or (p != q) == (v == w):
                R.fail('equality of polygons %s and %s' % (v, w))
        for w in (v, tuple(v), None, 3, 'x'):
            if p == w:
                R.fail('a polygon equals %r' % (w,))
        z = Polygon([A[3] if c == A[0] else c for c in v])
        if p != z:
            R.fail('polygons of equal vertices differ')
        if not (p == Other(v)) or p == Other(v[:-1]) or p == Other(v + [A[1]]):
            R.fail('equality with another implementation of the polygon interface')


def histories():
    """Every sequence of operations on the list a polygon is made from; polygons must keep what they were made of."""
    ops = [('append', 1), ('append', 2), ('pop', 0), ('set', 0), ('swap', 0), ('make', 0), ('clear', 0)]
    depth = 6 if T else 5
    for seq in itertools.product(range(len(ops)), repeat=depth):
        names = [ops[k][0] for k in seq]
        if 'make' not in names[:-1] or not R.take():
            continue
        src = [A[0], A[1], A[2]]
        made = []
        for k in seq:
            o, x = ops[k]
            if o == 'append':
                src.append(A[x])
            elif o == 'pop':
                src and src.pop()
            elif o == 'set' and src:
                src[-1] = A[1]
            elif o == 'swap':
                src.reverse()
            elif o == 'clear':
                del src[:]
            elif o == 'make':
                try:
                    made.append((Polygon(src), list(src)))
                except ValueError:
                    if len(src) >= 3:
                        R.fail('polygon rejected in %s' % names)
            R.count('steps')
            for p, want in made:
                if list(p.vertices) != want:
                    R.fail('a polygon follows the list it was made from: %s' % names)
                    break
        for p, want in made:
            for q, want2 in made:
                if (p == q) != (want == want2):
                    R.fail('equality after %s' % names)
        if made:
            R.nontrivial()
        R.sample('history %s' % names)


coordinates()
normalising()
polygons()
histories()
R.finish('coordinates compared with all others and attacked, polygons made, longitudes out of range')
