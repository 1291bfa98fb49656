"""R01: reading shapefiles written byte by byte."""
import gc, hashlib, itertools, os, pathlib, struct, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rep
R = rep.start()
from shapefmt import POINT, LINE, POLY, NULL, MULTI, POLYZ, POLYM, write
from capi.src.implementation.shapefiles.shapefile_reader import ShapefileReader

T = R.thorough
TRI = [(0.0, 0.0), (0.1, 1.5), (2.25, 0.3)]
QUAD = [(-180.0, -10.5), (-180.0, 10.0), (-170.123456, 10.0), (-170.0, -10.0)]
RING = [(179.9999995, -80.0), (180.0, -89.9999999), (120.00000049999999, -85.0), (100.1, -70.0), (130.0, -60.7)]
HOLE = [(0.5, 0.4), (0.7, 0.4), (0.6, 0.6)]


def closed(r):
    return r + r[:1]


def cw(r):
    return r[::-1]


# name, shape type, parts, expected polygons
POOL = [
    ('triangle', POLY, [closed(TRI)], [TRI]),
    ('triangle the other way', POLY, [closed(cw(TRI))], [cw(TRI)]),
    ('quadrangle', POLY, [closed(QUAD)], [QUAD]),
    ('ring', POLY, [closed(RING)], [RING]),
    ('with a hole', POLY, [closed(QUAD), closed(HOLE)], [QUAD]),
    ('three parts', POLY, [closed(RING), closed(HOLE), closed(TRI)], [RING]),
    ('two corners', POLY, [closed(TRI[:2])], []),
    ('one corner', POLY, [closed(TRI[:1])], []),
    ('lone point', POLY, [TRI[:1]], []),
    ('small ring before a proper one', POLY, [closed(TRI[:2]), closed(QUAD)], []),
    ('point', POINT, [[(3.5, 4.5)]], []),
    ('line', LINE, [closed(TRI)], []),
    ('two lines', LINE, [closed(TRI), closed(QUAD)], []),
    ('points', MULTI, [closed(TRI)], []),
    ('null', NULL, [], []),
    ('flat figure eight', POLY, [[(0.0, 0.0), (1.0, 1.0), (0.0, 1.0), (1.0, 0.0), (0.0, 0.0)]], [[(0.0, 0.0), (1.0, 1.0), (0.0, 1.0), (1.0, 0.0)]]),
    ('repeated corner', POLY, [closed([(0.0, 0.0), (1.0, 0.0), (1.0, 0.0), (0.5, 1.0)])], [[(0.0, 0.0), (1.0, 0.0), (1.0, 0.0), (0.5, 1.0)]]),
    ('first corner again inside', POLY, [closed([(0.0, 0.0), (1.0, 0.0), (0.0, 0.0), (-1.0, 0.5)])], [[(0.0, 0.0), (1.0, 0.0), (0.0, 0.0), (-1.0, 0.5)]]),
    ('long ring', POLY, [closed([(i * 0.1, (i * i % 7) * 0.3) for i in range(40)])], [[(i * 0.1, (i * i % 7) * 0.3) for i in range(40)]]),
    ('polygon with heights', POLYZ, [closed(TRI)], None),
    ('polygon with measures', POLYM, [closed(TRI)], None),
]


def files(d):
    r = {}
    for name in sorted(os.listdir(d)):
        with open(os.path.join(d, name), 'rb') as f:
            r[name] = hashlib.sha256(f.read()).hexdigest()
    return r


def is_open(d):
    for fd in os.listdir('/proc/self/fd'):
        try:
            if os.readlink('/proc/self/fd/' + fd).startswith(d):
                return True
        except OSError:
            pass
    return False


def case(recs, how, extras=True, cut=0):
    names = (', '.join(POOL[i][0] for i in recs[:6]) + (' ... (%d)' % len(recs) if len(recs) > 6 else '')) or 'no record'
    d = os.path.join(R.work, 'c')
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d):
        os.unlink(os.path.join(d, f))
    base = os.path.join(d, 'land')
    # a file of one type where all records agree on it, otherwise of polygons
    types = {POOL[i][1] for i in recs} - {NULL}
    write(base, types.pop() if len(types) == 1 else POLY, [(POOL[i][1], POOL[i][2]) for i in recs], extras)
    if cut:
        with open(base + '.shp', 'r+b') as f:
            # a damaged header is the business of the library that reads it
            f.truncate(max(100, os.path.getsize(base + '.shp') - cut))
    want = [p for i in recs for p in (POOL[i][3] or [])]
    before = files(d)
    path = {'str': base + '.shp', 'bare': base, 'path': pathlib.Path(base + '.shp')}[how]
    gc.disable()
    try:
        try:
            got = ShapefileReader().read(path)
        except Exception as e:
            got = e
        if is_open(d):
            R.fail('a file is left open after reading [%s]' % names)
    finally:
        gc.enable()
    gc.collect()
    if files(d) != before:
        R.fail('reading changes the files of [%s]' % names)
    if cut:
        return
    if isinstance(got, Exception):
        R.fail('reading [%s] fails: %r' % (names, got))
        return
    have = [[(v.longitude, v.latitude) for v in p.vertices] for p in got]
    if have != want:
        R.fail('reading [%s] as %s gives %s instead of %s' % (names, how, str(have)[:2000], str(want)[:2000]))
    R.outcomes.add('%d of %d' % (len(want), len(recs)))
    if len(want) not in (0, len(recs)):
        R.nontrivial()


def ring(n, turn=1):
    return [(-179.5 + 359.0 * ((i * 37) % n) / n, 80.0 * ((i * turn) % n) / n - 40.0) for i in range(n)]


def large():
    # rings of every length, alone and before or after others
    for a in range(1, 200 if not T else 700, 8):
        if R.take():
            ns = range(a, a + 8)
            R.sample('rings of %d to %d corners' % (a, a + 7))
            for n in ns:
                one = ('ring of %d' % n, POLY, [closed(ring(n))], [ring(n)] if n > 2 else [])
                holes = ('ring of %d with a hole of %d' % (n, 200 - n % 190), POLY, [closed(ring(n)), closed(ring(200 - n % 190, 3))], [ring(n)] if n > 2 else [])
                at = len(POOL)
                POOL.extend([one, holes])
                case([at], 'str')
                case([at + 1], 'str')
                case([0, at, 3, at + 1], 'str')
                del POOL[at:]
    for n in (255, 256, 257, 1000, 4095, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 70001) + ((131073, 300000) if T else ()):
        if R.take():
            R.sample('ring of %d corners' % n)
            at = len(POOL)
            POOL.append(('ring of %d' % n, POLY, [closed(ring(n))], [ring(n)]))
            POOL.append(('small ring with a hole of %d' % n, POLY, [closed(QUAD), closed(ring(n))], [QUAD]))
            case([at], 'str')
            case([0, at + 1, at, 1], 'str', extras=False)
            del POOL[at:]
    # many holes
    for n in list(range(2, 20)) + [63, 64, 65, 127, 128, 129, 255, 256, 257, 1000]:
        for first in (2, 3, 4, 50):
            if R.take():
                R.sample('ring of %d with %d holes' % (first, n))
                at = len(POOL)
                POOL.append(('ring of %d with %d holes' % (first, n), POLY, [closed(ring(first))] + [closed(HOLE)] * n, [ring(first)] if first > 2 else []))
                case([at], 'str')
                case([0, at, 2, at, 1], 'str')
                del POOL[at:]
    # many records
    for n in (99, 100, 101, 127, 128, 255, 256, 257, 999, 1000, 1001, 4097) + ((65537,) if T else ()):
        for kinds in ([0], [0, 10], [2, 14, 4, 0, 3], [14], [1, 1, 0, 2]):
            if R.take():
                R.sample('%d records of %d kinds' % (n, len(kinds)))
                case([kinds[i % len(kinds)] for i in range(n)], 'str')


def numbers():
    # every number is read as it is stored, wherever it lies
    import math
    xs = [0.0, -0.0, 5e-324, 1e-7, 4.9e-7, 5.1e-7, 0.1 + 0.2, 1 / 3, -1e-15, 89.99999999999999, 90.0, -90.0, 90.0000001, 95.5, -123.4567895,
          math.nextafter(180, 0), 180.0, -180.0, math.nextafter(180, 400), 180.0000005, 180.000001, -180.0000005, 180.5, -180.5, 190.0, -190.0, 270.0,
          359.9999999, 360.0, 360.000001, -360.0, 540.25, 1e5, -1e9]
    for x in xs:
        if R.take():
            R.sample('triangles about %r' % x)
            at = len(POOL)
            for y in xs:
                for k in range(3):
                    t = [(x, y), (12.5, -3.25), (-7.125, 40.1)]
                    t = t[k:] + t[:k]
                    POOL.append(('triangle at (%r,%r)' % (x, y), POLY, [closed(t)], [t]))
                t = [(x, y), (y, x), (x, 1.0), (1.0, y)]
                POOL.append(('quadrangle at (%r,%r)' % (x, y), POLY, [closed(t)], [t]))
            case(list(range(at, len(POOL))), 'str')
            R.nontrivial()
            del POOL[at:]


def main():
    large()
    numbers()
    known = [i for i in range(len(POOL)) if POOL[i][3] is not None]
    z = [i for i in range(len(POOL)) if POOL[i][3] is None]
    n = 0
    for k in range(0, 4):
        for recs in itertools.product(known, repeat=k):
            n += 1
            if k == 3 and not T and n % 3:
                continue
            for how in (('str', 'bare', 'path') if k < 3 else ('str',)):
                if R.take():
                    R.sample('[%s] as %s' % (', '.join(POOL[i][0] for i in recs), how))
                    case(recs, how)
    # the same without an index or attributes
    for recs in itertools.product(known, repeat=2):
        if R.take():
            R.sample('[%s] without index' % ', '.join(POOL[i][0] for i in recs))
            case(recs, 'str', extras=False)
    # longer files
    for a in known:
        for b in known:
            for n in (4, 9, 20):
                if R.take():
                    R.sample('%d records alternating %s, %s' % (n, POOL[a][0], POOL[b][0]))
                    case([a, b] * (n // 2) + [a] * (n % 2), 'str')
    # damaged files: whatever happens, nothing stays open and nothing is written
    for recs in itertools.product(known, repeat=2 if T else 1):
        for cut in (1, 4, 8, 16, 17, 40):
            if R.take():
                R.sample('[%s] cut by %d' % (', '.join(POOL[i][0] for i in recs), cut))
                case(recs, 'str', cut=cut)


main()
R.finish('files of which some records are land and some are not')
