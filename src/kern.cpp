// K01-K05: polygons, coordinates, predicates, angular order and the spatial index against exact or long-double oracles.
#include "common/capi.hpp"
#include "common/report.hpp"
#include "common/scenes.hpp"
#include "common/sphere.hpp"
#include "datastructures/spatial_segment_index/spatial_segment_index.hpp"
#include "geom/angle_sorter/angle_sorter.hpp"
#include "types/line_segment/line_segment.hpp"
#include "types/polyline/three_vertex_polyline.hpp"
using namespace std;
static const int64_t M = 1000000, X3 = 540000001;

// ---- K01 -----------------------------------------------------------------------------------------------------------
static Poly rot_min(Poly P) { rotate(P.begin(), min_element(P.begin(), P.end()), P.end()); return P; }
static vector<Pt> vs_of(const Polygon &p) {
    vector<Pt> r;
    for (auto &c : p.get_vertices()) r.push_back(P_(c));
    return r;
}
static void k01_list(const Poly &want, const Poly &in) {
    Polygon a(CV(in));
    auto va = vs_of(a);
    R.stats["vertex_lists"]++;
    if (va.empty() || rot_min(va) != rot_min(want)) { R.fail("", "vertex list " + str(in) + " becomes " + str(va) + ", expected the cycle " + str(want)); return; }
    Polygon b(a.get_vertices());
    if (vs_of(b) != va || !(a == b) || a != b || hash<Polygon>()(a) != hash<Polygon>()(b)) R.fail("", "rebuilding from its own vertices changes " + str(va));
    auto segs = a.get_line_segments();
    bool ok = segs.size() == va.size();
    for (size_t i = 0; ok && i < segs.size(); i++)
        ok = P_(segs[i].get_endpoint_1()) == va[i] && P_(segs[i].get_endpoint_2()) == va[(i + 1) % va.size()];
    if (!ok) R.fail("", "boundary segments of " + str(va) + " are wrong");
    if (get_orientation_of_vertices(a.get_vertices()) != Orientation::COUNTER_CLOCKWISE) R.fail("", "not counter-clockwise: " + str(va));
}
// all ways of listing P: extra points on its edges, every start, both windings, every vertex repeated once or twice, closed or not
static void k01_case(const Poly &P, const vector<Pt> &lattice) {
    vector<vector<Pt>> on(P.size());
    vector<pair<size_t, Pt>> extra;
    for (size_t i = 0; i < P.size(); i++) {
        Pt a = P[i], b = P[(i + 1) % P.size()];
        for (auto &q : lattice) if (openseg(a, b, q)) on[i].push_back(q);
        sort(on[i].begin(), on[i].end(), [&](Pt u, Pt v) { return llabs(u.x - a.x) + llabs(u.y - a.y) < llabs(v.x - a.x) + llabs(v.y - a.y); });
        for (auto &q : on[i]) extra.push_back({i, q});
    }
    size_t ne = min<size_t>(extra.size(), 5);
    for (size_t mask = 0; mask < (size_t(1) << ne); mask++) {
        Poly L;
        for (size_t i = 0; i < P.size(); i++) {
            L.push_back(P[i]);
            for (size_t k = 0; k < ne; k++) if (mask >> k & 1 && extra[k].first == i) L.push_back(extra[k].second);
        }
        for (size_t r = 0; r < L.size(); r++)
            for (int rev = 0; rev < 2; rev++) {
                Poly Q = L;
                rotate(Q.begin(), Q.begin() + r, Q.end());
                if (rev) reverse(Q.begin(), Q.end());
                k01_list(P, Q);
                for (int rep_ = 1; rep_ <= 2; rep_++)
                    for (size_t d = 0; d < Q.size(); d++) {
                        Poly D = Q;
                        D.insert(D.begin() + d, rep_, Q[d]);
                        k01_list(P, D);
                    }
                Poly cl = Q; // explicit closing repeat
                cl.push_back(Q[0]);
                k01_list(P, cl);
                Poly all;
                for (auto &q : Q) all.push_back(q), all.push_back(q);
                k01_list(P, all);
            }
        // equality and hash are those of the vertex lists
        Polygon base(CV(L));
        auto bv = vs_of(base);
        for (size_t r = 0; r < L.size(); r++) {
            Poly Q = L;
            rotate(Q.begin(), Q.begin() + r, Q.end());
            Polygon o(CV(Q));
            bool same = vs_of(o) == bv;
            if ((base == o) != same || (base != o) == same) R.fail("", "equality of " + str(bv) + " and " + str(vs_of(o)) + " is wrong");
            if (same && hash<Polygon>()(base) != hash<Polygon>()(o)) R.fail("", "equal polygons hash differently: " + str(bv));
        }
    }
    R.nontrivial();
    R.sample("listings of " + str(P));
}

// ---- K02 -----------------------------------------------------------------------------------------------------------
static const int64_t CH = 250000;
static void k02_lon_chunk(int64_t lo, int64_t hi) { // [lo,hi) of the stored range
    for (int64_t x = lo; x < hi; x++) {
        int64_t w = x;
        while (w > 180 * M) w -= PER;
        while (w < -180 * M) w += PER;
        Coordinate c((int32_t)x, (int32_t)12345678);
        auto f = coordinate_from_periodic_coordinate(c);
        if (f.get_longitude_microdegrees() != w || f.get_latitude_microdegrees() != 12345678) R.fail("", "longitude " + to_string(x) + " folds to " + to_string(f.get_longitude_microdegrees()));
        if (is_coordinate_over_meridian(c) != (x > 180 * M || x < -180 * M)) R.fail("", "over-the-antimeridian test wrong for " + to_string(x));
        if (w == x && (x & 15) == 0) {
            auto im = periodic_coordinates_from_coordinate(c);
            set<int64_t> s;
            for (auto &i : im) {
                s.insert(i.get_longitude_microdegrees());
                if (!(coordinate_from_periodic_coordinate(i) == c)) R.fail("", "image of " + to_string(x) + " does not fold back");
            }
            if (s != set<int64_t>{x - PER, x, x + PER}) R.fail("", "wrong images of " + to_string(x));
        }
    }
    R.nontrivial();
    R.sample("fold of longitudes [" + to_string(lo) + "," + to_string(hi) + ")");
}
static void k02_degrees(int64_t x, bool lon) {
    // a stored coordinate read back in degrees and stored again
    Coordinate c(lon ? (int32_t)x : 7, lon ? 7 : (int32_t)x);
    Coordinate d(c.get_longitude(), c.get_latitude());
    int64_t got = lon ? d.get_longitude_microdegrees() : d.get_latitude_microdegrees();
    if (got != x) R.fail(got == (int64_t)(1e6 * (1e-6 * (double)x)) && llabs(got - x) == 1 ? "degrees-truncated" : "",
                         "stored " + to_string(x) + " read back in degrees is stored as " + to_string(got));
    // any number of degrees is stored within a microdegree
    for (double deg : {x / 1e6, (x + 0.37) / 1e6, (x - 0.81) / 1e6}) {
        Coordinate e(lon ? deg : 0.0, lon ? 0.0 : deg);
        int64_t g = lon ? e.get_longitude_microdegrees() : e.get_latitude_microdegrees();
        if (fabsl((long double)deg * 1e6L - g) > 1.0L) R.fail("", "degrees " + to_string(deg) + " stored as " + to_string(g));
    }
}
static void k02_s2(int64_t lo, int64_t hi, bool lon, int64_t other) {
    for (int64_t x = lo; x < hi; x++) {
        Coordinate c((int32_t)(lon ? x : other), (int32_t)(lon ? other : x));
        Coordinate d(c.to_s2_point());
        if (!(c == d)) R.fail("", "sphere round trip of " + str(P_(c)) + " gives " + str(P_(d)));
        if (other == 0) k02_degrees(x, lon);
        R.stats["values"]++;
    }
    R.nontrivial();
    R.sample(string(lon ? "longitudes [" : "latitudes [") + to_string(lo) + "," + to_string(hi) + ") other axis " + to_string(other));
}

// ---- K03 -----------------------------------------------------------------------------------------------------------
static const char *on(Orientation o) { return o == Orientation::CLOCKWISE ? "cw" : o == Orientation::COUNTER_CLOCKWISE ? "ccw" : "collinear"; }
static Orientation ori(int s) { return s > 0 ? Orientation::COUNTER_CLOCKWISE : s < 0 ? Orientation::CLOCKWISE : Orientation::COLLINEAR; }
static void k03_pair(Pt a, Pt b, Pt c, Pt d) {
    LineSegment s(C(a), C(b)), t(C(c), C(d));
    auto r = s.intersection_with_segment(t);
    R.stats["segment_pairs"]++;
    bool want = segtouch(a, b, c, d);
    i128 D = (i128)(b.x - a.x) * (c.y - d.y) - (i128)(b.y - a.y) * (c.x - d.x);
    string ctx = str(a) + str(b) + " with " + str(c) + str(d);
    if (D == 0) {
        if (!want && r) R.fail("", "parallel segments apart from each other reported to intersect: " + ctx);
        bool shared = a == c || a == d || b == c || b == d;
        if (shared && !r) R.fail("", "shared endpoint not reported: " + ctx);
        if (r && !(onseg(a, b, P_(*r)) && onseg(c, d, P_(*r)))) R.fail("", "reported point is not on both segments: " + ctx);
        return;
    }
    if (want != r.has_value()) { R.fail("", string(want ? "missed" : "invented") + " intersection of " + ctx); return; }
    if (!r) return;
    // true point: a + (b-a)*Q/D
    i128 Q = (i128)(c.y - d.y) * (c.x - a.x) - (i128)(c.x - d.x) * (c.y - a.y);
    auto off = [&](int64_t base, int64_t n, int64_t got) {
        long double tv = (long double)n * ((long double)Q / (long double)D) - (got - base);
        return fabsl(tv) > 0.5L + 1e-5L;
    };
    if (off(a.x, b.x - a.x, P_(*r).x) || off(a.y, b.y - a.y, P_(*r).y)) R.fail("", "intersection point " + str(P_(*r)) + " is off for " + ctx);
    for (Pt e : {a, b}) if (onseg(c, d, e) && P_(*r) != e && !(onseg(a, b, c) && c == P_(*r)) && !(onseg(a, b, d) && d == P_(*r)))
        R.fail("", "end on the other segment, but another point is returned: " + ctx);
}
static void k03_segments(const vector<Pt> &pts, size_t i, size_t j) {
    Pt a = pts[i], b = pts[j];
    LineSegment s(C(a), C(b));
    if (P_(s.get_tangent_vector()) != Pt{b.x - a.x, b.y - a.y}) R.fail("", "tangent vector of " + str(a) + str(b));
    if (!(s == LineSegment(C(b), C(a))) || s != LineSegment(C(b), C(a))) R.fail("", "a segment differs from its reverse " + str(a) + str(b));
    for (auto &p : pts) {
        if (s.orientation_of_point_to_segment(C(p)) != ori(orient(a, b, p)))
            R.fail("", "orientation of " + str(p) + " to " + str(a) + str(b) + " is " + on(s.orientation_of_point_to_segment(C(p))));
        if (s.on_segment(C(p)) != onseg(a, b, p)) R.fail("", "on-segment test of " + str(p) + " and " + str(a) + str(b));
        // vectors
        Pt u{b.x - a.x, b.y - a.y}, v{p.x - a.x, p.y - a.y};
        int cr = sgn((i128)u.x * v.y - (i128)u.y * v.x);
        if (C(u).vector_orientation(C(v)) != ori(cr) || C(u).parallel(C(v)) != (cr == 0)) R.fail("", "vector orientation of " + str(u) + " and " + str(v));
        if (C(u).cross_product_magnitude_microdegrees(C(v)) != (int64_t)((i128)u.x * v.y - (i128)u.y * v.x)) R.fail("", "cross product of " + str(u) + " and " + str(v));
        if (C(v).magnitude_squared_microdegrees() != v.x * v.x + v.y * v.y) R.fail("", "magnitude of " + str(v));
        R.stats["point_tests"]++;
    }
    for (size_t k = 0; k < pts.size(); k++)
        for (size_t l = 0; l < pts.size(); l++)
            if (k != l) k03_pair(a, b, pts[k], pts[l]);
    R.nontrivial();
    R.sample("segment " + str(a) + str(b) + " against all segments of a set of " + to_string(pts.size()));
}
static void k03_wedge(const vector<Pt> &pts, size_t j) {
    Pt v = pts[j];
    for (size_t i = 0; i < pts.size(); i++)
        for (size_t k = 0; k < pts.size(); k++) {
            if (i == j || k == j || i == k) continue;
            Pt u = pts[i], w = pts[k];
            int turn = orient(u, v, w);
            if (turn == 0) continue;
            ThreeVertexPolyline pl(C(u), C(v), C(w));
            if (pl.is_reflex() != (turn < 0)) R.fail("", "reflex test of " + str(u) + str(v) + str(w));
            for (auto &q : pts) {
                if (q == v) continue;
                R.stats["wedge_tests"]++;
                bool in = incone(u, v, w, q), vis = pl.point_visible(C(q));
                bool on_ray = (orient(v, u, q) == 0 && !onseg(q, u, v)) || (orient(v, w, q) == 0 && !onseg(q, w, v));
                string ctx = str(q) + " at corner " + str(u) + str(v) + str(w);
                if (in && vis) R.fail("", "land side taken for sea: " + ctx);
                bool on_edge = onseg(v, u, q) || onseg(v, w, q);
                if (!in && !vis && (on_edge || !on_ray)) R.fail("", "sea side taken for land: " + ctx);
            }
        }
    R.nontrivial();
    R.sample("corners at " + str(v) + " of a set of " + to_string(pts.size()));
}

// ---- K04 -----------------------------------------------------------------------------------------------------------
static bool before(Pt o, Pt a, Pt b) { // strict order: observer, then angle from east, then distance
    if (a == o || b == o) return a == o && b != o;
    auto half = [&](Pt p) { return p.y > o.y || (p.y == o.y && p.x > o.x) ? 0 : 1; };
    if (half(a) != half(b)) return half(a) < half(b);
    int c = orient(o, a, b);
    if (c) return c > 0;
    return llabs(a.x - o.x) + llabs(a.y - o.y) < llabs(b.x - o.x) + llabs(b.y - o.y);
}
static void k04_sort(Pt o, vector<Pt> v) {
    vector<Coordinate> c;
    for (auto &p : v) c.push_back(C(p));
    AngleSorter::sort_counter_clockwise_around_observer(C(o), c);
    R.stats["lists_sorted"]++;
    vector<Pt> w = v;
    stable_sort(w.begin(), w.end(), [&](Pt a, Pt b) { return before(o, a, b); });
    vector<Pt> g;
    for (auto &q : c) g.push_back(P_(q));
    if (g != w) R.fail("", "around " + str(o) + " " + str(v) + " is sorted as " + str(g));
}

// ---- K05 (great-circle oracle) ---------------------------------------------------------------------------------------
static void k05_scene(const Scene &S, const vector<Pt> &pts) {
    for (auto &P : S) { // the index needs outlines that are simple on the sphere as well
        size_t n = P.size();
        for (size_t i = 0; i < n; i++)
            for (size_t j = i + 2; j < n; j++)
                if ((i || j + 1 < n) && gcross(sph(P[i]), sph(P[(i + 1) % n]), sph(P[j]), sph(P[(j + 1) % n])) != NO) { R.stats["not_simple_on_sphere"]++; return; }
    }
    SpatialSegmentIndex ix(PS(S));
    struct E { Pt a, b; V3 A, B; int poly; };
    vector<E> es;
    int np = 0;
    for (Poly P : S) {
        np++;
        // thin polygons may wind the other way on the sphere; their land is then on the left of the reversed edges
        long double area = 0;
        V3 o = sph(P[0]);
        for (size_t i = 1; i + 1 < P.size(); i++) {
            V3 u = sph(P[i]), v = sph(P[i + 1]);
            area += 2 * atan2l(dot(cr(sub(u, o), sub(v, o)), o), 1 + dot(o, u) + dot(u, v) + dot(v, o));
        }
        if (fabsl(area) < 1e-19L) return; // too thin to tell
        if (area < 0) reverse(P.begin(), P.end());
        for (size_t i = 0; i < P.size(); i++) es.push_back({P[i], P[(i + 1) % P.size()], sph(P[i]), sph(P[(i + 1) % P.size()]), np - 1});
    }
    Pt lo = es[0].a;
    for (auto &e : es) lo = {min(lo.x, e.a.x), min(lo.y, e.a.y)};
    V3 out = sph({lo.x - 31, max<int64_t>(-90 * M, lo.y - 17)});
    bool some_in = false, some_hit = false;
    auto real_edge = [&](const LineSegment &s) {
        for (auto &e : es) if (e.a == P_(s.get_endpoint_1()) && e.b == P_(s.get_endpoint_2())) return true;
        return false;
    };
    for (auto &p : pts) {
        V3 q = sph(p);
        int in = 0;
        bool fr = false;
        for (int k = 0; k < np; k++) {
            if (find(S[k].begin(), S[k].end(), p) != S[k].end()) continue; // its own corner is not strictly inside
            int c = 0;
            for (auto &e : es) {
                if (e.poly != k) continue;
                Tri t = gcross(out, q, e.A, e.B);
                if (t == FREE) fr = true;
                c ^= t == YES;
            }
            in |= c;
        }
        bool got = ix.is_point_contained(C(p));
        R.stats["points"]++;
        some_in |= in;
        if (!fr && got != (bool)in) R.fail("", string("point ") + str(p) + (got ? " reported inside " : " not reported inside ") + str(S));
        // closest and within distance
        long double best = 1e9;
        for (auto &e : es) best = min(best, segdist(q, e.A, e.B));
        auto cs = ix.closest_segment_to_point(C(p));
        if (!real_edge(cs)) R.fail("", "closest segment to " + str(p) + " is no boundary segment of " + str(S));
        // S2 compares squared chords in double precision
        long double dc = segdist(q, sph(P_(cs.get_endpoint_1())), sph(P_(cs.get_endpoint_2())));
        if (dc * dc > best * best * (1 + 1e-9L) + 1e-15L) R.fail("", "a closer segment to " + str(p) + " exists in " + str(S));
        vector<long double> ds;
        for (auto &e : es) ds.push_back(segdist(q, e.A, e.B));
        sort(ds.begin(), ds.end());
        for (size_t k : {size_t(0), ds.size() / 2, ds.size() - 1}) {
            double rad = ds[k] * 1.0001L + 1e-12L;
            auto got_s = ix.segments_within_distance_of_point(C(p), rad);
            set<pair<Pt, Pt>> g;
            for (auto &s : got_s) { g.insert({P_(s.get_endpoint_1()), P_(s.get_endpoint_2())}); if (!real_edge(s)) R.fail("", "segment within distance of " + str(p) + " is no boundary segment of " + str(S)); }
            if (g.size() != got_s.size()) R.fail("", "segment listed twice near " + str(p) + " in " + str(S));
            for (auto &e : es) {
                long double d = segdist(q, e.A, e.B);
                if (fabsl(d - rad) < 1e-9L * rad || fabsl(d * d - rad * rad) < 1e-15L) continue;
                if ((d < rad) != (bool)g.count({e.a, e.b})) R.fail("", "segments within a distance of " + str(p) + " are wrong in " + str(S));
            }
        }
    }
    for (size_t i = 0; i < pts.size(); i++)
        for (size_t j = 0; j < pts.size(); j++) {
            if (i == j) continue;
            Pt a = pts[i], b = pts[j];
            V3 A = sph(a), B = sph(b);
            auto got = ix.intersect_with_segments(LineSegment(C(a), C(b)));
            bool any = ix.does_segment_intersect_with_segments(LineSegment(C(a), C(b)));
            if (any == got.empty()) R.fail("", "the two intersection queries disagree about " + str(a) + str(b) + " in " + str(S));
            R.stats["segments"]++;
            set<pair<Pt, Pt>> g;
            long double prev = 0;
            for (auto &s : got) {
                g.insert({P_(s.get_endpoint_1()), P_(s.get_endpoint_2())});
                if (!real_edge(s)) R.fail("", "segment met by " + str(a) + str(b) + " is no boundary segment of " + str(S));
                long double d = segdist(A, sph(P_(s.get_endpoint_1())), sph(P_(s.get_endpoint_2())));
                if (d * d < prev * prev * (1 - 1e-9L) - 1e-15L) R.fail("", "segments met by " + str(a) + str(b) + " are not nearest first in " + str(S));
                prev = max(prev, d);
            }
            if (g.size() != got.size()) R.fail("", "segment listed twice for " + str(a) + str(b) + " in " + str(S));
            for (auto &e : es) {
                bool shared = a == e.a || a == e.b || b == e.a || b == e.b;
                Tri t = shared ? YES : gcross(A, B, e.A, e.B);
                if (t == YES) some_hit = true;
                if (t != FREE && (t == YES) != (bool)g.count({e.a, e.b}))
                    R.fail("", string(t == YES ? "missed" : "invented") + " meeting of " + str(a) + str(b) + " with " + str(e.a) + str(e.b) + " in " + str(S));
            }
        }
    if (some_in && some_hit) R.nontrivial();
    R.sample(str(S));
}

// ---- K06 -----------------------------------------------------------------------------------------------------------
static bool near_(double got, long double want, long double scale) { return fabsl((long double)got - want) <= scale * 1e-15L * 8 + 1e-300L; }
static void k06_scaled(Pt a, double f) {
    Coordinate c = C(a);
    auto judge = [&](const Coordinate &r, long double x, long double y, const char *op) {
        Pt p = P_(r);
        for (auto q : {make_pair((long double)p.x, x), make_pair((long double)p.y, y)})
            if (fabsl(q.first - q.second) > 0.5L + fabsl(q.second) * 1e-15L) { R.fail("", str(a) + op + to_string(f) + " is " + str(p)); return; }
    };
    auto fits = [](long double v) { return fabsl(v) < 2147483646.0L; };
    if (fits(a.x * (long double)f) && fits(a.y * (long double)f)) judge(c * f, a.x * (long double)f, a.y * (long double)f, " times "), R.stats["scaled"]++;
    if (f != 0 && fits(a.x / (long double)f) && fits(a.y / (long double)f)) judge(c / f, a.x / (long double)f, a.y / (long double)f, " over "), R.stats["scaled"]++;
}
static void k06_one(Pt a) {
    Coordinate c = C(a);
    if (P_(-c) != Pt{-a.x, -a.y}) R.fail("", "minus " + str(a) + " is " + str(P_(-c)));
    if (c.magnitude_squared_microdegrees() != a.x * a.x + a.y * a.y) R.fail("", "squared length of " + str(a) + " is " + to_string(c.magnitude_squared_microdegrees()));
    long double m2 = ((long double)a.x * a.x + (long double)a.y * a.y) * 1e-12L;
    if (!near_(c.magnitude_squared(), m2, m2) || !near_(c.magnitude(), sqrtl(m2), sqrtl(m2))) R.fail("", "length of " + str(a) + " is " + to_string(c.magnitude()));
    if (!near_(c.get_longitude(), a.x * 1e-6L, fabsl(a.x * 1e-6L)) || !near_(c.get_latitude(), a.y * 1e-6L, fabsl(a.y * 1e-6L))) R.fail("", "degrees of " + str(a) + " are wrong");
    if (a.x || a.y) {
        long double t = atan2l(a.y, a.x);
        if (t < 0) t += 2 * M_PIl;
        double g = c.angle_to_horizontal();
        if (!(g >= 0 && g < 2 * M_PI + 1e-15) || !near_(g, t, t + 1e-9L)) R.fail("", "angle of " + str(a) + " is " + to_string(g));
        Pt u = P_(c.normalize());
        long double l = sqrtl((long double)a.x * a.x + (long double)a.y * a.y);
        if (fabsl(u.x - 1e6L * a.x / l) > 0.51L || fabsl(u.y - 1e6L * a.y / l) > 0.51L) R.fail("", "unit vector of " + str(a) + " is " + str(u));
    }
}
static int half(Pt p) { return p.y > 0 || (p.y == 0 && p.x > 0) ? 0 : 1; }
static void k06_pair(Pt a, Pt b) {
    Coordinate c = C(a), d = C(b);
    string w = str(a) + " and " + str(b);
    R.stats["vector_pairs"]++;
    if (P_(c + d) != Pt{a.x + b.x, a.y + b.y}) R.fail("", "sum of " + w + " is " + str(P_(c + d)));
    if (P_(c - d) != Pt{a.x - b.x, a.y - b.y}) R.fail("", "difference of " + w + " is " + str(P_(c - d)));
    if ((c == d) != (a == b) || (c != d) != (a != b) || (a == b && hash<Coordinate>()(c) != hash<Coordinate>()(d))) R.fail("", "equality of " + w);
    int64_t dp = a.x * b.x + a.y * b.y, cp = a.x * b.y - b.x * a.y;
    if (c.dot_product_microdegrees(d) != dp || c.cross_product_magnitude_microdegrees(d) != cp) R.fail("", "products of " + w + " are " + to_string(c.dot_product_microdegrees(d)) + " and " + to_string(c.cross_product_magnitude_microdegrees(d)));
    long double sd = (fabsl((long double)a.x * b.x) + fabsl((long double)a.y * b.y)) * 1e-12L, sc = (fabsl((long double)a.x * b.y) + fabsl((long double)b.x * a.y)) * 1e-12L;
    if (!near_(c.dot_product(d), dp * 1e-12L, sd) || !near_(c.cross_product_magnitude(d), cp * 1e-12L, sc)) R.fail("", "products of " + w + " in degrees are " + to_string(c.dot_product(d)) + " and " + to_string(c.cross_product_magnitude(d)));
    auto f = c.scalar_multiple_factor(d);
    bool za = a == Pt{0, 0};
    if (f.has_value() != (cp == 0)) R.fail("", "multiple factor of " + w + (f ? " exists" : " is missing"));
    else if (f) {
        long double want = za ? 0 : a.x ? (long double)b.x / a.x : (long double)b.y / a.y;
        if (!near_(*f, want, fabsl(want))) R.fail("", "multiple factor of " + w + " is " + to_string(*f));
    }
    if (!za && b != Pt{0, 0}) { // the angle goes up with the direction
        bool less = half(a) != half(b) ? half(a) < half(b) : cp > 0;
        double x = c.angle_to_horizontal(), y = d.angle_to_horizontal();
        if (less && x > y) R.fail("", "angles of " + w + " are in the wrong order");
        if (cp == 0 && dp > 0 && fabs(x - y) > 1e-14) R.fail("", "parallel " + w + " have other angles");
    }
}
static void k06_segs(Pt a, Pt b, Pt c, Pt d) {
    LineSegment s(C(a), C(b)), t(C(c), C(d));
    string w = str(a) + str(b) + " and " + str(c) + str(d);
    bool same = (a == c && b == d) || (a == d && b == c);
    R.stats["segment_pairs"]++;
    if ((s == t) != same || (s != t) == same) R.fail("", "equality of segments " + w);
    if (same && hash<LineSegment>()(s) != hash<LineSegment>()(t)) R.fail("", "equal segments hash differently: " + w);
    for (Pt p : {c, d}) {
        string err;
        Pt got{0, 0};
        try { got = P_(s.get_adjacent_to(C(p))); } catch (const exception &) { err = "error"; }
        if (p == a ? !err.empty() || got != b : p == b ? !err.empty() || got != a : err.empty()) R.fail("", "the other end of " + str(a) + str(b) + " from " + str(p) + " is " + (err.empty() ? str(got) : err));
    }
    if (P_(s.get_endpoint_1()) != a || P_(s.get_endpoint_2()) != b || P_(s.get_tangent_vector()) != Pt{b.x - a.x, b.y - a.y}) R.fail("", "ends or direction of " + str(a) + str(b));
}
static bool same_place(Pt a, Pt b) {
    if (a.y != b.y) return false;
    return llabs(a.y) == 90 * M || (a.x - b.x) % (360 * M) == 0;
}
static void k06_place(Pt a, Pt b) {
    double g = C(a).spherical_distance(C(b)), h = C(b).spherical_distance(C(a));
    long double w = ang(sph(a), sph(b));
    R.stats["distances"]++;
    if (fabs(g - h) > 1e-15 * 8 || fabsl(g - w) > (w > 3.1L ? 3e-8L : 1e-14L + 4e-15L * w)) R.fail("", "distance from " + str(a) + " to " + str(b) + " is " + to_string(g) + " and back " + to_string(h));
    if (same_place(a, b) ? g > 1e-14 : g <= 0) R.fail("", "distance from " + str(a) + " to " + str(b) + " is " + to_string(g));
}
static void k06_project(Pt p, Pt a, Pt b) {
    static const long double U = 1e-6L * M_PIl / 180;
    V3 va = sph(a), vb = sph(b), vp = sph(p);
    if (ang(va, vb) > 3.0L) return;
    Pt q = P_(LineSegment(C(a), C(b)).project(C(p)));
    long double want = segdist(vp, va, vb), got = ang(vp, sph(q)), off = segdist(sph(q), va, vb);
    R.stats["projections"]++;
    if (got > want + U * 0.8L + 1e-14L || off > U * 0.8L + 1e-14L) R.fail("", "projection of " + str(p) + " on " + str(a) + str(b) + " is " + str(q) + ", " + to_string((double)(got / U)) + " instead of " + to_string((double)(want / U)) + " microdegrees away");
}

int main(int argc, char **argv) {
    R.init(argc, argv);
    bool T = R.thorough;
    if (R.prop == "K01") {
        for (Grid g : {Grid{3, 3, 1000, 1000, 0, 0, 0}, Grid{3, 3, 1, 1, -1, -1, 0}, Grid{3, 3, 180 * M, 90 * M, -180 * M, -90 * M, 0},
                       Grid{3, 3, X3, 90 * M, -X3, -90 * M, 0}, Grid{3, 3, 100000, 7, 179000000, -3, 1}})
            for (int n = 3; n <= 7; n++)
                for (auto &P : polygons_on(g.points(), n)) if (R.take()) k01_case(P, g.points());
        for (Grid g : {Grid{4, 4, 1000, 1000, 0, 0, 0}, Grid{4, 4, 120 * M, 60 * M, -180 * M, -90 * M, 0}})
            for (int n = 3; n <= (T ? 6 : 5); n++)
                for (auto &P : polygons_on(g.points(), n)) if (R.take()) k01_case(P, g.points());
        if (T) for (Grid g : {Grid{5, 4, 1, 1, 0, 0, 0}}) for (int n = 3; n <= 5; n++) for (auto &P : polygons_on(g.points(), n)) if (R.take()) k01_case(P, g.points());
        return R.finish("one case = one simple polygon on a lattice (microdegree to whole-world) with every listing of it: lattice points on its edges "
                        "inserted in every combination, every start, both windings, repeats; all cases are non-trivial");
    }
    if (R.prop == "K02") {
        R.case_seconds = 60;
        for (int64_t lo = INT32_MIN; lo <= INT32_MAX; lo += CH * 40) if (R.take()) k02_lon_chunk(lo, min(lo + CH * 40, (int64_t)INT32_MAX + 1));
        vector<int64_t> lats{0, 89999999}, lons{0, -180 * M};
        if (T) lats = {0, 1, -33333333, 45 * M, 60000001, 89999000, 89999999, -89999999}, lons = {0, 180 * M, -180 * M, 179999999, 90 * M, -77777777};
        for (auto l : lats)
            for (int64_t lo = -180 * M + 1; lo <= 180 * M; lo += CH) if (R.take()) k02_s2(lo, min(lo + CH, 180 * M + 1), true, l);
        for (auto l : lons)
            for (int64_t lo = -90 * M + 1; lo < 90 * M; lo += CH) if (R.take()) k02_s2(lo, min(lo + CH, 90 * M), false, l);
        return R.finish("one case = a run of consecutive microdegrees; together every longitude that can be stored is folded and every longitude and every "
                        "latitude is converted to degrees and to the sphere and back; all cases are non-trivial");
    }
    if (R.prop == "K06") {
        auto prod = [](vector<int64_t> xs, vector<int64_t> ys) { vector<Pt> r; for (auto x : xs) for (auto y : ys) r.push_back({x, y}); return r; };
        vector<int64_t> bx{-X3, -360 * M - 1, -180 * M - 1, -180 * M, -179999999, -1000003, -7, -3, -2, -1, 0, 1, 2, 3, 7, 90 * M, 123456789, 179999999, 180 * M, 180 * M + 1, 360 * M + 1, X3},
            by{-90 * M, -89999999, -1234567, -3, -2, -1, 0, 1, 2, 3, 7, 45 * M, 89999999, 90 * M};
        if (T) for (int64_t v : {5LL, 11LL, 255LL, 256LL, 65535LL, 65536LL, 16777217LL, 46341LL, 33333333LL}) for (int k : {-1, 1}) { bx.push_back(k * v); by.push_back(k * v); }
        auto vec = prod(bx, by);
        for (auto &q : Grid{9, 9, 1, 1, -4, -4, 0}.points()) vec.push_back(q);
        sort(vec.begin(), vec.end());
        vec.erase(unique(vec.begin(), vec.end()), vec.end());
        for (auto &a : vec) {
            if (!R.take()) continue;
            R.nontrivial(), R.sample("vector " + str(a) + " with " + to_string(vec.size()) + " others and the scalars");
            k06_one(a);
            for (auto &b : vec) k06_pair(a, b);
            for (double f : {0.0, 1.0, -1.0, 2.0, -2.0, 0.5, -0.5, 0.25, 1.5, 3.0, 1.0 / 3, 0.1, 10.0, 1e-6, 1e3, 3.7, -2.25, 1.0000001, 0.9999999, 7e-9}) k06_scaled(a, f);
        }
        vector<int64_t> run; // scaling of every small length, where rounding shows
        for (int64_t x = -1000; x < 1000; x += 50) if (R.take()) {
            R.nontrivial(), R.sample("lengths from " + to_string(x));
            for (int64_t v = x; v < x + 50; v++)
                for (int den = 1; den <= 40; den++) for (int num = -9; num <= 9; num++) k06_scaled({v, 1 - v}, (double)num / den);
        }
        vector<Pt> ends{{0, 0}, {1, 0}, {-1, 0}, {0, 1}, {180 * M, 0}, {-180 * M, 0}, {180 * M, 90 * M}, {-180 * M, -90 * M}, {12345678, -7654321}};
        for (auto &a : ends) for (auto &b : ends) if (R.take()) {
            R.nontrivial(), R.sample("segment " + str(a) + str(b) + " with all others");
            for (auto &c : ends) for (auto &d : ends) k06_segs(a, b, c, d);
        }
        auto world = prod({-180 * M, -179999999, -90 * M, -1, 0, 1, 30 * M, 89999999, 120 * M, 179999999, 180 * M}, {-90 * M, -89999999, -45 * M, -1, 0, 1, 60 * M, 89999999, 90 * M});
        for (auto &a : world) if (R.take()) {
            R.nontrivial(), R.sample("distances from " + str(a));
            for (auto &b : world) k06_place(a, b);
        }
        for (Grid g : {Grid{5, 5, 1000, 1000, -2000, -2000, 0}, Grid{5, 5, 1, 1, 10, 10, 0}, Grid{5, 4, 15 * M, 15 * M, -100 * M, -30 * M, 1}, Grid{4, 4, 1000, 1000, 179997000, 60 * M, 1}, Grid{4, 4, 40 * M, 20 * M, -80 * M, -20 * M, 1}}) {
            auto pts = g.points();
            for (auto &a : pts) if (R.take()) {
                R.nontrivial(), R.sample("projections on segments from " + str(a));
                for (auto &b : pts) if (a != b) for (auto &q : pts) k06_project(q, a, b), k06_project({q.x + g.ux / 3, q.y - g.uy / 3}, a, b);
            }
        }
        return R.finish("one case = one vector, segment end or place with every other of a set of extremes and a small lattice, under all operations; all cases are non-trivial");
    }
    if (R.prop == "K03") {
        auto prod = [](vector<int64_t> xs, vector<int64_t> ys) {
            vector<Pt> r;
            for (auto x : xs) for (auto y : ys) r.push_back({x, y});
            return r;
        };
        vector<vector<Pt>> sets{
            prod({-X3, -180 * M, -1, 0, 180 * M, X3}, {-90 * M, -1, 0, 1, 90 * M}),
            prod({-X3, -180000001, -179999999, 0, 1, X3 - 1, X3}, {-90 * M, -89999999, 0, 89999999}),
            Grid{5, 4, 1, 1, -2, -1, 0}.points(), Grid{4, 4, 1000, 1000, 179999000, 89990000, 1}.points(), Grid{5, 4, 90 * M, 60 * M, -180 * M, -90 * M, 1}.points()};
        {
            sets.push_back(prod({-X3, -X3 + 1, -180000001, -180 * M, -1, 0, 1, 180 * M, X3 - 1, X3}, {-90 * M, -1, 0, 1, 89999999, 90 * M}));
            sets.push_back(Grid{6, 6, 1, 1, -2, -1, 0}.points());
            sets.push_back(Grid{7, 6, 170 * M, 35 * M, -X3, -90 * M, 1}.points());
        }
        if (T) {
            sets.push_back(Grid{9, 9, 1, 1, -4, -4, 0}.points());
            sets.push_back(Grid{10, 8, 119 * M, 25 * M, -X3, -90 * M, 1}.points());
        }
        for (auto &s : sets) {
            for (size_t i = 0; i < s.size(); i++)
                for (size_t j = 0; j < s.size(); j++) if (i != j && R.take()) k03_segments(s, i, j);
            for (size_t j = 0; j < s.size(); j++) if (R.take()) k03_wedge(s, j);
        }
        return R.finish("one case = one directed segment against all points and all directed segments of a point set, or all corners at one point against all "
                        "points (extremes of the representable range, unit lattice, perturbed lattices); all cases are non-trivial");
    }
    if (R.prop == "K04") {
        vector<Pt> l5 = Grid{5, 5, 1, 1, -2, -2, 0}.points();
        vector<Pt> ext;
        for (int64_t x : {-X3, -180 * M, -1L, 0L, 1L, 180 * M, X3}) for (int64_t y : {-90 * M, 0L, 1L, 90 * M}) ext.push_back({x, y});
        // near-parallel directions that floating-point angles cannot tell apart
        vector<Pt> fine{{0, 0}, {X3, 90 * M}, {X3 - 1, 90 * M}, {X3, 90 * M - 1}, {X3 - 6, 90 * M - 1}, {180 * M, 30 * M}, {180 * M + 6, 30 * M + 1}, {180 * M - 6, 30 * M - 1},
                        {-X3, -90 * M}, {-X3 + 6, -90 * M + 1}, {6, 1}, {-6, -1}, {X3, 1}, {X3 - 1, 1}, {-X3, 1}, {-X3, -1}, {-1, 0}, {1, 0}};
        struct Set { vector<Pt> pts, obs; int k; };
        vector<Set> sets{{l5, {{0, 0}, {-2, -2}, {3, 1}, {0, 2}}, T ? 5 : 4}, {ext, {{0, 0}, {-180 * M, 90 * M}, {X3, 0}}, 4}, {fine, {{0, 0}, {1, 0}, {-X3, -90 * M}}, T ? 5 : 4}};
        for (auto &s : sets)
            for (auto &o : s.obs)
                for (size_t a = 0; a < s.pts.size(); a++)
                    for (size_t b = 0; b < s.pts.size(); b++) {
                        if (!R.take()) continue;
                        for (size_t c = 0; c < s.pts.size(); c++) {
                            k04_sort(o, {s.pts[a], s.pts[b], s.pts[c]});
                            if (s.k >= 4) for (size_t d = 0; d < s.pts.size(); d++) {
                                k04_sort(o, {s.pts[a], s.pts[b], s.pts[c], s.pts[d]});
                                if (s.k >= 5) for (size_t e = 0; e < s.pts.size(); e++) k04_sort(o, {s.pts[a], s.pts[b], s.pts[c], s.pts[d], s.pts[e]});
                            }
                        }
                        // the whole set from every rotation, forwards and backwards, with repeats
                        vector<Pt> w = s.pts;
                        rotate(w.begin(), w.begin() + a, w.end());
                        swap(w[0], w[b]);
                        k04_sort(o, w);
                        reverse(w.begin(), w.end());
                        k04_sort(o, w);
                        vector<Pt> dup = w;
                        for (size_t i = 0; i < 3; i++) dup.insert(dup.end(), w.begin(), w.end());
                        k04_sort(o, dup);
                        k04_sort(o, vector<Pt>(40 + a, s.pts[b]));
                        vector<Pt> two(50, s.pts[a]);
                        for (size_t i = 0; i < two.size(); i += 1 + b % 3) two[i] = s.pts[b];
                        k04_sort(o, two);
                        R.nontrivial();
                        R.sample("around " + str(o) + ": lists starting " + str(s.pts[a]) + str(s.pts[b]));
                    }
        k04_sort({0, 0}, {});
        return R.finish("one case = one observer and the first two elements of the list; all third (thorough: and fourth) elements, and whole-set lists in "
                        "rotations with repeats; all cases are non-trivial");
    }
    if (R.prop == "K05") {
        auto trig = [](const Grid &g) { return polygons_on(g.points(), 3); };
        auto run = [&](const vector<Pt> &o) { return [o](const Scene &S) { if (R.take()) k05_scene(S, o); }; };
        auto q = [](const Grid &g) {
            vector<Pt> r = g.points();
            for (int i = 0; i + 1 < g.w; i++) for (int j = 0; j + 1 < g.h; j++) {
                Pt a = g.at(i, j), b = g.at(i + 1, j + 1);
                r.push_back({(5 * a.x + 3 * b.x) / 8, (7 * a.y + 4 * b.y) / 11});
            }
            r.push_back({r[0].x - g.ux / 3, r[0].y + g.uy / 7});
            return r;
        };
        for (Grid g : {Grid{3, 3, 1000, 1000, 0, 0, 0}, Grid{3, 3, 1000, 1000, 151209300, -33859900, 1}, Grid{3, 3, 1, 1, 0, 0, 0}, Grid{3, 3, 40 * M, 30 * M, -50 * M, -30 * M, 1},
                       Grid{3, 3, 300, 300, 179999300, 60 * M, 1}})
            for (int n = 3; n <= 6; n++) single(polygons_on(g.points(), n), run(q(g)));
        for (Grid g : {Grid{4, 3, 1000, 1000, 0, 0, 1}, Grid{4, 3, 30 * M, 30 * M, -60 * M, -30 * M, 1}}) pairs(trig(g), trig(g), true, run(q(g)));
        { Grid g{8, 8, 900, 1100, -3000, 500, 1}; unit_sets(g, 2, 2, 3, run(g.points())); }
        structured(1000, 0, 0, T ? 9 : 6, [&](const Scene &S) {
            if (!R.take()) return;
            vector<Pt> o;
            for (int i = -1; i < 8; i++) for (int j = -1; j < 8; j++) o.push_back({i * 3501 + 37 * j, j * 3303 - 301});
            for (size_t i = 0; i < 4; i++) o.push_back(S[0][i % S[0].size()]);
            k05_scene(S, o);
        });
        crowded(T, [&](const Scene &S) {
            int64_t x0 = S[0][0].x, x1 = x0, y0 = S[0][0].y, y1 = y0;
            for (auto &p : verts(S)) x0 = min(x0, p.x), x1 = max(x1, p.x), y0 = min(y0, p.y), y1 = max(y1, p.y);
            vector<Pt> o;
            for (int i = 0; i < 6; i++) for (int j = 0; j < 5; j++) o.push_back({x0 + (x1 - x0) * (2 * i + 1) / 12 + i, y0 + (y1 - y0) * (2 * j + 1) / 10 + j});
            for (size_t i = 0; i < S.size(); i += 1 + S.size() / 8) { auto &P = S[i]; o.push_back(P[1]); o.push_back({(P[0].x + P[1].x + P[2].x) / 3, (P[0].y + P[1].y + P[2].y) / 3}); }
            for (auto &P : S) { // not land covering more than half of the globe, whose great-circle shape is the other side
                auto m = minmax_element(P.begin(), P.end(), [](const Pt &a, const Pt &b) { return a.x < b.x; });
                if (m.second->x - m.first->x > 170 * M) return;
            }
            if (R.take()) k05_scene(S, o);
        });
        for (Grid g : {Grid{3, 3, 500, 700, 1000, 90 * M - 1400, 0}, Grid{3, 3, 60 * M, 30 * M, -70 * M, 18 * M, 1}, Grid{3, 3, 60 * M, 30 * M, -70 * M, -89 * M, 1}}) // towards the poles
            single(trig(g), run(q(g)));
        if (T) {
            for (Grid g : {Grid{4, 4, 1000, 1000, 0, 0, 1}, Grid{4, 4, 30 * M, 25 * M, -60 * M, -30 * M, 1}, Grid{4, 4, 1, 1, 5, 5, 0}}) {
                pairs(trig(g), trig(g), true, run(g.points()));
                for (int n = 4; n <= 5; n++) single(polygons_on(g.points(), n), run(q(g)));
            }
            Grid g{8, 8, 900, 1100, -3000, 500, 1};
            unit_sets(g, 3, 2, 3, run(g.points()));
        }
        return R.finish("one case = one scene with every query point and every ordered pair of query points as a segment; compared with great-circle brute "
                        "force in long double, calls too close to decide skipped; non-trivial = some point inside and some segment met");
    }
    return 3;
}
