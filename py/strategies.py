"""R05: what the strategies for property tests can draw. The choices a strategy asks for are taken over and enumerated."""
import os, random, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rep
R = rep.start()
from hypothesis.errors import StopTest, UnsatisfiedAssumption
from hypothesis.internal.conjecture.data import ConjectureData
from capi.src.hypothesis_strategies.coordinate import coordinate_strategy
from capi.src.hypothesis_strategies.polygon import polygon_strategy
from capi.src.implementation.datastructures.polygon import Polygon
from capi.src.implementation.dtos.coordinate import Coordinate

T = R.thorough


def alphabet(n):
    top = (1 << n) - 1
    if n <= (6 if T else 5):
        return list(range(top + 1))
    a = [0, 1, 2, 3, 5, top, top - 1, 1 << n - 1, (1 << n - 1) - 1, (1 << n - 1) + 1, top // 3, top // 7 * 3]
    if n <= 10:
        a += list(range(0, top, 5 if T else 17))
    elif T:
        a += [1 << k for k in range(2, n - 1, 3)] + [top - (1 << k) for k in range(2, n - 1, 5)]
    return sorted(set(a))


class Chosen(ConjectureData):
    """Answers the k-th request for bits with plan[k], or with what `base` says when the plan has no entry."""
    def __init__(self, plan, base):
        ConjectureData.__init__(self, max_length=1 << 16, prefix=b"", random=random.Random(0))
        self.plan, self.base, self.asked = plan, base, []

    def draw_bits(self, n, *, forced=None):
        if forced is None and n > 0:
            k = len(self.asked)
            v = self.plan[k] if k in self.plan else self.base(k, n)
            self.asked.append(n)
            forced = v & ((1 << n) - 1)
            if k > 4000:
                self.mark_invalid()
        return ConjectureData.draw_bits(self, n, forced=forced)


def run(strategy, plan, base):
    d = Chosen(plan, base)
    try:
        v = d.draw(strategy)
    except (StopTest, UnsatisfiedAssumption):
        return None, d.asked
    return v, d.asked


def wrong(c):
    if not isinstance(c, Coordinate):
        return 'not a coordinate: %r' % (c,)
    for x, m in ((c.latitude, 90), (c.longitude, 180)):
        if not isinstance(x, (int, float)) or x != x or not -m <= x <= m:
            return 'a coordinate out of range: %r' % (c,)
    return ''


def first(k, n):
    return 0


def last(k, n):
    return (1 << n) - 1


def mixed(k, n):  # another value each time; short draws say go on
    return 1 if n <= 3 else (k * 0x9E3779B97F4A7C15 + 0x1234567) >> 7


def spread(k, n):
    return (k * k * 0xBF58476D1CE4E5B9 + 77) >> 5


def tree(strategy, base, prefix, seen):
    """All choices from the alphabet after a prefix."""
    stack = [prefix]
    while stack:
        p = stack.pop()
        v, asked = run(strategy, dict(enumerate(p)), base)
        R.count('draws')
        if v is not None:
            seen(v, p)
        for k in range(len(p), len(asked)):
            for x in alphabet(asked[k]):
                if x != base(k, asked[k]) & ((1 << asked[k]) - 1):
                    stack.append(p + [base(i, asked[i]) & ((1 << asked[i]) - 1) for i in range(len(p), k)] + [x])
        # (each sequence of choices is reached once: by its last choice that is not the base's)


def coordinates():
    s = coordinate_strategy()
    _, asked = run(s, {}, first)
    ends = set()
    for x in alphabet(asked[0]):
        if not R.take():
            continue
        R.sample('coordinates, first choice %d of %d bits' % (x, asked[0]))
        n = [0]

        def seen(v, p):
            n[0] += 1
            w = wrong(v)
            if w:
                R.fail('%s after the choices %s' % (w, p))
            R.count('coordinates')
        tree(s, first, [x], seen)
        if n[0]:
            R.nontrivial()


def reached():
    """The ends of the range and both signs can be drawn."""
    if not R.take():
        return
    R.sample('the ends of the range')
    R.nontrivial()
    s = coordinate_strategy()
    have = set()
    for base in (first, last, mixed, spread):
        _, asked = run(s, {}, base)
        plans = [{}]
        for i in range(min(len(asked), 10)):
            plans += [{i: x} for x in range(1 << min(asked[i], 8))]
        singles = plans[1:]
        if T:
            plans += [dict(list(a.items()) + list(b.items())) for a in singles[::3] for b in singles[::5] if list(a) != list(b)]
        for p in plans:
            v, _ = run(s, p, base)
            if v is None or wrong(v):
                continue
            for name, x, m in (('latitude', v.latitude, 90), ('longitude', v.longitude, 180)):
                have |= {(name, t) for t, ok in (('low end', x == -m), ('high end', x == m), ('low', x < -m / 2), ('high', x > m / 2), ('zero', x == 0), ('fraction', x != int(x)), ('finer than microdegrees', x * 1e6 != int(x * 1e6))) if ok}
    for name in ('latitude', 'longitude'):
        for t in ('low end', 'high end', 'low', 'high', 'zero', 'fraction', 'finer than microdegrees'):
            if (name, t) not in have:
                R.fail('no %s of this kind is ever drawn: %s' % (name, t))
        R.outcomes |= {'%s %s' % h for h in have}


SIZES = [(), (3,), (3, 3), (4, 4), (3, 4), (4, 6), (5, 12), (10, 10)] + ([(3, 30), (20, 40), (7, 7)] if T else [])


def polygons(args, base):
    s = polygon_strategy(*args)
    lo, hi = args[0] if args else 3, args[1] if len(args) > 1 else 10
    what = 'polygons%r from %s' % (args, base.__name__)
    R.sample(what)
    sizes = set()

    def look(plan):
        v, asked = run(s, plan, base)
        R.count('draws')
        if v is None:
            return asked
        R.count('polygons')
        if not isinstance(v, Polygon):
            R.fail('%s: not a polygon: %r' % (what, v))
            return asked
        sizes.add(len(v.vertices))
        if not lo <= len(v.vertices) <= hi:
            R.fail('%s: %d vertices with the choices %s' % (what, len(v.vertices), plan))
        for c in v.vertices:
            w = wrong(c)
            if w:
                R.fail('%s: %s with the choices %s' % (what, w, plan))
        if len({(c.latitude, c.longitude) for c in v.vertices}) != len(v.vertices):
            R.fail('%s: a vertex twice with the choices %s' % (what, plan))
        return asked
    asked = look({})
    for k in range(min(len(asked), 400)):
        for x in alphabet(asked[k]):
            after = look({k: x})
            if k < (24 if T else 8):
                for j in range(k + 1, min(len(after), k + (14 if T else 6))):
                    for y in alphabet(after[j])[::1 if T else 3]:
                        look({k: x, j: y})
    # as many vertices of one place as can be asked for: the choices of one vertex again and again
    for per in range(2, 14):
        for x in range(0, 256, 1 if T else 5):
            look({k: (x >> k % 8 & 1) if k % per == 0 else x * (k % per) for k in range(600)})
    R.outcomes |= {'%d vertices' % n for n in sizes}
    if sizes:
        R.nontrivial()
    return sizes


def counts(args):
    """Every number of vertices that is allowed can be drawn: the k-th answer to go on is no."""
    lo, hi = args[0] if args else 3, args[1] if len(args) > 1 else 10
    s = polygon_strategy(*args)
    R.sample('numbers of vertices of polygons%r' % (args,))
    R.nontrivial()
    sizes = set()
    for base in (mixed, spread, last):
        v, asked = run(s, {}, base)
        if v is not None:
            sizes.add(len(v.vertices))
        grow = {}
        k = 0
        while k < 400:
            for x in (0, 1, 2, (1 << 64) - 1):
                v, asked = run(s, dict(grow, **{}) if x is None else {**grow, k: x}, base)
                if v is not None:
                    sizes.add(len(v.vertices))
            if k >= len(asked):
                break
            if asked[k] <= 5:
                grow[k] = 1
            k += 1
    missing = [n for n in range(lo, hi + 1) if n not in sizes]
    if missing:
        R.fail('polygons%r never have %s vertices' % (args, missing))


def kinds():
    """Vertices may share a latitude or a longitude, and turn either way."""
    R.sample('kinds of triangles')
    R.nontrivial()
    s = polygon_strategy(3, 3)
    have = set()
    for base in (first, last, mixed, spread):
        plans = [{}]
        _, asked = run(s, {}, base)
        for k in range(min(len(asked), 24)):
            for x in alphabet(asked[k])[:12]:
                plans.append({k: x})
                for j in range(k + 1, min(len(asked), 24)):
                    plans += [{k: x, j: y} for y in alphabet(asked[j])[:5]]
        for p in plans:
            v, _ = run(s, p, base)
            R.count('draws')
            if v is None or len(v.vertices) != 3:
                continue
            a, b, c = [(q.longitude, q.latitude) for q in v.vertices]
            for q, r in ((a, b), (b, c), (a, c)):
                have |= {'two on one latitude'} if q[1] == r[1] else set()
                have |= {'two on one longitude'} if q[0] == r[0] else set()
            turn = (b[0] - a[0]) * (c[1] - a[1]) - (c[0] - a[0]) * (b[1] - a[1])
            have.add('clockwise' if turn < 0 else 'counter-clockwise' if turn > 0 else 'straight')
    for k in ('two on one latitude', 'two on one longitude', 'clockwise', 'counter-clockwise'):
        if k not in have:
            R.fail('no triangle of this kind is ever drawn: ' + k)
    R.outcomes |= have


coordinates()
reached()
if R.take():
    kinds()
for args in SIZES:
    for base in (first, last, mixed, spread):
        if R.take():
            polygons(args, base)
    if R.take():
        counts(args)
R.finish('drawn values exist after the choices')
