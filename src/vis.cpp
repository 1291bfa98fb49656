// V01 V02 V03 V04: visibility of the real generators against exact geometry on exhaustively enumerated scenes.
#include "common/capi.hpp"
#include "common/report.hpp"
#include "common/scenes.hpp"
using namespace std;

static const int64_t M = 1000000;
struct Lines { LOS direct, near_, far_; };
// direct line, best image within one revolution, best image beyond
static Lines lines(const Scene &S3, Pt p, Pt q) {
    Lines l{los(S3, p, q), BLOCKED, BLOCKED};
    for (int k : {-1, 1}) {
        Pt i{q.x + k * PER, q.y};
        LOS s = los(S3, p, i);
        auto &t = llabs(i.x - p.x) <= PER ? l.near_ : l.far_;
        t = max(t, s);
    }
    return l;
}
static const char *nm(LOS l) { return l == CLEAR ? "clear" : l == TOUCH ? "touch" : "blocked"; }

static void check_graph(const Scene &S, bool want_sound, bool want_complete) {
    for (auto &p : verts(S))
        if (llabs(p.x) > 180 * M || llabs(p.y) > 90 * M) { fprintf(stderr, "bad family: %s\n", str(S).c_str()); _exit(3); }
    auto g = VisgraphGenerator::generate(PS(S));
    auto S3 = periodic(S);
    auto vs = verts(S);
    if (R.prop == "V05") {
        sort(vs.begin(), vs.end());
        vs.erase(unique(vs.begin(), vs.end()), vs.end());
    }
    bool blocked = false;
    int edges = 0;
    for (auto &p : vs) {
        if (!g->has_vertex(C(p))) { R.fail("", "vertex " + str(p) + " missing from the graph of " + str(S)); return; }
    }
    if (R.prop != "V05" && g->get_vertices().size() != vs.size()) R.fail("", "vertex count wrong in the graph of " + str(S));
    for (size_t i = 0; i < vs.size(); i++)
        for (size_t j = 0; j < vs.size(); j++) {
            if (i == j) {
                if (g->has_edge(C(vs[i]), C(vs[i]))) R.fail("", "self edge at " + str(vs[i]) + " in " + str(S));
                continue;
            }
            Pt p = vs[i], q = vs[j];
            bool e = g->has_edge(C(p), C(q)), m = e && g->is_edge_meridian_crossing(C(p), C(q));
            if (i > j) {
                if (e != g->has_edge(C(q), C(p)) || (e && m != g->is_edge_meridian_crossing(C(q), C(p))))
                    R.fail("", "edge " + str(p) + str(q) + " is not symmetric in " + str(S));
                continue;
            }
            Lines l = lines(S3, p, q);
            edges += e;
            R.stats["pairs"]++;
            R.stats[string("line_") + nm(l.direct)]++;
            blocked |= l.direct == BLOCKED;
            string ctx = " (direct " + string(nm(l.direct)) + ", across " + nm(l.near_) + ", beyond one revolution " + nm(l.far_) + ") scene " + str(S);
            if (want_sound && e && !m && l.direct == BLOCKED) R.fail("", "direct edge through land " + str(p) + "-" + str(q) + ctx);
            if (want_sound && e && m && l.near_ == BLOCKED && l.far_ == BLOCKED)
                R.fail("", "antimeridian edge through land " + str(p) + "-" + str(q) + ctx);
            if (want_complete && !e && (l.direct == CLEAR || l.near_ == CLEAR)) R.fail("", "missing edge " + str(p) + "-" + str(q) + ctx);
            if (want_complete && e && l.direct == CLEAR && m) R.fail("", "edge with a direct line marked as crossing " + str(p) + "-" + str(q) + ctx);
            if (want_complete && e && l.direct == BLOCKED && !m) R.fail("", "edge without a direct line not marked as crossing " + str(p) + "-" + str(q) + ctx);
        }
    R.stats["edges"] += edges;
    if (blocked && edges) R.nontrivial();
    R.sample(str(S));
}

// All observers: the scene's vertices and the given free points (skipped when strictly inside land).
static void check_trees(const Scene &S, const vector<Pt> &free_pts, bool per) {
    auto ps = PS(S);
    if (per) ps = make_polygons_periodic(ps);
    VistreeGenerator vt(ps);
    vector<shared_ptr<LineSegment>> segs;
    for (auto &p : ps)
        for (auto &s : p.get_line_segments()) segs.push_back(make_shared<LineSegment>(s));
    VistreeGenerator vs_(segs);
    Scene S3 = per ? periodic(S) : S;
    auto vs = verts(S);
    if (ends_on_edges) {
        sort(vs.begin(), vs.end());
        vs.erase(unique(vs.begin(), vs.end()), vs.end());
    }
    auto obs = vs;
    for (auto &p : free_pts) {
        bool in = false;
        for (auto &P : S) in |= inpoly(P, p) >= (ends_on_edges ? 1 : 0);
        if (!in && find(vs.begin(), vs.end(), p) == vs.end()) obs.push_back(p);
    }
    bool some_blocked = false, some_seen = false;
    for (size_t oi = 0; oi < obs.size(); oi++) {
        Pt p = obs[oi];
        auto full = vt.get_visible_vertices(C(p), false), half = vt.get_visible_vertices(C(p), true);
        auto fseg = vs_.get_visible_vertices(C(p), false), hseg = vs_.get_visible_vertices(C(p), true);
        auto fcand = vt.get_visible_vertices_from_candidate_segments(C(p), segs, false);
        auto hcand = vt.get_visible_vertices_from_candidate_segments(C(p), segs, true);
        auto keyset = [&](const vector<VisibleVertex> &v) {
            multiset<pair<Pt, bool>> r;
            for (auto &w : v) r.insert({P_(w.coord), w.is_visible_across_meridian});
            return r;
        };
        // lines that merely graze land may be treated either way, also differently by the construction paths
        auto firm = [&](const vector<VisibleVertex> &v) {
            set<pair<Pt, bool>> r;
            for (auto &w : v) {
                Pt q = P_(w.coord);
                LOS l = BLOCKED;
                if (!w.is_visible_across_meridian) l = los(S3, p, q);
                else
                    for (int k : {-1, 1}) l = max(l, los(S3, p, {q.x + k * PER, q.y}));
                if (l != TOUCH) r.insert({q, w.is_visible_across_meridian});
            }
            return r;
        };
        auto ks = keyset(full);
        R.stats["observers"]++;
        auto ctx = [&](const char *w) { return string(w) + " observer " + str(p) + (per ? " periodic" : "") + " scene " + str(S); };
        auto ff = firm(full), fh = firm(half);
        if (ff != firm(fseg)) R.fail("", ctx("tree from segments differs from tree from polygons:"));
        if (ff != firm(fcand)) R.fail("", ctx("query by all segments differs from plain query:"));
        if (fh != firm(hseg)) R.fail("", ctx("half scan of a tree from segments differs from one from polygons:"));
        if (fh != firm(hcand)) R.fail("", ctx("half scan by all segments differs from plain half scan:"));
        // exactness, vertex by vertex
        set<pair<Pt, bool>> seen(ks.begin(), ks.end());
        multiset<pair<Pt, bool>> upper_possible, half_set = keyset(half);
        for (auto &k : half_set) if (!seen.count(k)) R.fail("", ctx("half scan reports a vertex the full scan does not:"));
        for (auto &q : vs) {
            if (q == p && !per) { if (seen.count({q, false})) R.fail("", ctx("observer sees itself:")); continue; }
            LOS d = q == p ? BLOCKED : los(S3, p, q), best = BLOCKED, near_ = BLOCKED;
            bool sd = seen.count({q, false}), sm = seen.count({q, true});
            if (per)
                for (int k : {-1, 1}) {
                    Pt i{q.x + k * PER, q.y};
                    LOS l = los(S3, p, i);
                    best = max(best, l);
                    if (llabs(i.x - p.x) <= PER) near_ = max(near_, l);
                }
            some_blocked |= d == BLOCKED;
            some_seen |= sd;
            R.stats["sightlines"]++;
            if (q != p && d == CLEAR && !sd) R.fail("", ctx(("does not see " + str(q)).c_str()));
            if (q != p && d == BLOCKED && sd) R.fail("", ctx(("sees through land " + str(q)).c_str()));
            if (per && near_ == CLEAR && !sm) R.fail("", ctx(("does not see across the antimeridian " + str(q)).c_str()));
            if (per && best == BLOCKED && sm) R.fail("", ctx(("sees through land across the antimeridian " + str(q)).c_str()));
            // half scan: a direct entry belongs to it exactly when its direction is east .. counter-clockwise .. west
            bool upper = q.y >= p.y;
            if (sd && (bool)half_set.count({q, false}) != upper) R.fail("", ctx(("half scan wrong about " + str(q)).c_str()));
            if (sm && (bool)half_set.count({q, true}) != upper) R.fail("", ctx(("half scan wrong across the antimeridian about " + str(q)).c_str()));
        }
        R.outcomes.insert(to_string(full.size()) + "/" + to_string(half.size()));
    }
    if (some_blocked && some_seen) R.nontrivial();
    R.sample(str(S));
}

// Same scene under other polygon orders, starting corners and windings: identical answers.
static void check_order(const Scene &S, const vector<Pt> &free_pts) {
    auto ref = make_shared<VistreeGenerator>(PS(S));
    auto obs = verts(S);
    for (auto &p : free_pts) {
        bool in = false;
        for (auto &P : S) in |= inpoly(P, p) >= (ends_on_edges ? 1 : 0);
        if (!in) obs.push_back(p);
    }
    auto dump = [&](const VistreeGenerator &v) {
        string s;
        for (auto &p : obs)
            for (bool h : {false, true}) {
                multiset<string> seen; // in whatever order
                for (auto &w : v.get_visible_vertices(C(p), h)) seen.insert(str(P_(w.coord)));
                for (auto &x : seen) s += x;
                s += ";";
            }
        return s;
    };
    string base = dump(*ref);
    vector<int> perm(S.size());
    for (size_t i = 0; i < perm.size(); i++) perm[i] = i;
    do
        for (size_t rot = 0; rot < 4; rot++)
            for (int rev = 0; rev < 2; rev++) {
                Scene T;
                for (int i : perm) {
                    Poly P = S[i];
                    rotate(P.begin(), P.begin() + rot % P.size(), P.end());
                    if (rev) reverse(P.begin(), P.end());
                    T.push_back(P);
                }
                R.stats["variants"]++;
                if (dump(VistreeGenerator(PS(T))) != base) R.fail("", "answers depend on how the scene is listed: " + str(S) + " vs " + str(T));
            }
    while (next_permutation(perm.begin(), perm.end()));
    R.nontrivial();
    R.sample(str(S));
}

// V04: scene around longitude 0 against the same scene shifted by s.
static void check_shift(const Scene &S, int64_t s) {
    auto fold = [](Pt p) { while (p.x > 180 * M) p.x -= PER; while (p.x < -180 * M) p.x += PER; return p; };
    Scene T;
    for (auto &P : S) {
        Poly Q;
        for (auto p : P) Q.push_back(fold({p.x + s, p.y}));
        if (area2(Q) != area2(P)) return; // the polygon would be broken by the antimeridian
        T.push_back(Q);
    }
    auto a = VisgraphGenerator::generate(PS(S)), b = VisgraphGenerator::generate(PS(T));
    auto vs = verts(S), vt = verts(T);
    auto S3 = periodic(S), T3 = periodic(T);
    bool crossing = false;
    for (size_t i = 0; i < vs.size(); i++)
        for (size_t j = 0; j < vs.size(); j++) {
            if (i == j) continue;
            bool e = a->has_edge(C(vs[i]), C(vs[j])), f = b->has_edge(C(vt[i]), C(vt[j]));
            bool me = e && a->is_edge_meridian_crossing(C(vs[i]), C(vs[j])), mf = f && b->is_edge_meridian_crossing(C(vt[i]), C(vt[j]));
            R.stats["pairs"]++;
            string ctx = str(vs[i]) + "-" + str(vs[j]) + " shifted by " + to_string(s) + " scene " + str(S);
            Lines l = lines(S3, vs[i], vs[j]), lt = lines(T3, vt[i], vt[j]);
            if (e != f) {
                string key = "";
                // the only line of sight winds round the world more than once, and is reached from one placement only
                if (max(l.direct, l.near_) != CLEAR && max(lt.direct, lt.near_) != CLEAR) {
                    if ((e && l.far_ != BLOCKED) || (f && lt.far_ != BLOCKED)) key = "beyond-one-revolution";
                    else if (max(l.direct, l.near_) == TOUCH || max(lt.direct, lt.near_) == TOUCH) continue; // grazing lines are free
                }
                R.fail(key, string("connection ") + (e ? "lost " : "gained ") + ctx + " direct/across/far lines " + nm(l.direct) + "/" + nm(l.near_) + "/" + nm(l.far_) +
                                " -> " + nm(lt.direct) + "/" + nm(lt.near_) + "/" + nm(lt.far_));
                continue;
            }
            if (!f) continue;
            crossing |= mf;
            if (lt.direct == CLEAR && mf) R.fail("", "wrongly marked as crossing " + ctx);
            if (lt.direct == BLOCKED && !mf) R.fail("", "wrongly not marked as crossing " + ctx);
            if (l.direct == CLEAR && me) R.fail("", "unshifted edge wrongly marked as crossing " + ctx);
            // the way the mark stands for has the length of an unobstructed line of the unshifted scene
            int64_t dx = vt[j].x - vt[i].x, cx = dx > 0 ? dx - PER : dx + PER;
            int64_t way = mf ? cx : dx, orig = vs[j].x - vs[i].x;
            if (way != orig && way != orig - PER && way != orig + PER && !(mf && dx == 0)) R.fail("", "way of another length " + ctx);
        }
    // periodic helpers agree with the fold
    for (auto &p : vt)
        for (auto &c : periodic_coordinates_from_coordinate(C(p)))
            if (P_(coordinate_from_periodic_coordinate(c)) != p) R.fail("", "image of " + str(p) + " does not fold back");
    if (crossing) R.nontrivial();
    R.sample("shift " + to_string(s) + " of " + str(S));
}

static void graph_families(const SceneFn &f) {
    bool T = R.thorough;
    auto tri = [](const Grid &g) { return polygons_on(g.points(), 3); };
    Grid near_{4, 4, 1000, 1000, 0, 0, 0}, nearj{4, 4, 1000, 1000, 0, 0, 1};
    Grid micro{4, 4, 1, 1, -2, 1, 0}, world{4, 4, 120 * M, 50 * M, -180 * M, -75 * M, 0}, worldj{4, 4, 85 * M, 40 * M, -150 * M, -70 * M, 1};
    Grid edge{4, 4, 5 * M, 40 * M, 165 * M, -75 * M, 0}, edgej{4, 3, 4 * M, 50 * M, 163 * M, -70 * M, 1};
    Grid g3{3, 3, 1000, 1000, 0, 0, 0}, g3j{3, 3, 1000, 1000, 0, 0, 1};
    // single polygons: all triangles..hexagons on 3x3, all up to pentagons on 4x4
    for (auto *g : {&g3, &g3j})
        for (int n = 3; n <= 7; n++) single(polygons_on(g->points(), n), f);
    for (auto *g : {&near_, &nearj, &world, &micro})
        for (int n = 3; n <= (T || g == &nearj ? 5 : 4); n++) single(polygons_on(g->points(), n), f);
    for (auto *g : {&near_, &nearj, &micro, &world, &worldj, &edge}) pairs(tri(*g), tri(*g), true, f);
    pairs(tri(edgej), tri(edgej), true, f);
    Grid poles{4, 3, 120 * M, 90 * M, -180 * M, -90 * M, 0}, polej{3, 3, 70 * M, 90 * M, -60 * M, -90 * M, 0}; // up to the poles and the antimeridian
    for (auto *g : {&poles, &polej}) {
        pairs(tri(*g), tri(*g), true, f);
        for (int n = 4; n <= 5; n++) single(polygons_on(g->points(), n), f);
    }
    // three and four small shapes
    for (int jit : {0, 1}) {
        Grid c{8, 8, 900, 1100, -3000, 500, jit};
        unit_sets(c, 3, 2, 3, f);
        if (T || jit) unit_sets(c, 2, 2, 4, f);
    }
    Grid cw{8, 8, 40 * M, 21 * M, -170 * M, -84 * M, 0};
    unit_sets(cw, 3, 2, 3, f);
    structured(1, 5, -7, 9, f);
    structured(1000, 0, 0, 9, f);
    structured(300000, -170000000, -80000000, 9, f);
    crowded(T, f);
    // concave quadrilateral with a triangle
    for (int jit : {1, 0}) {
        if (jit == 0 && !T) continue;
        Grid q{3, 3, 1000, 1000, 0, 0, jit}, t{4, 3, 700, 900, -400, 300, jit};
        auto Q = polygons_on(q.points(), 4), Pn = polygons_on(q.points(), 5);
        Q.insert(Q.end(), Pn.begin(), Pn.end());
        pairs(Q, tri(t), false, f);
    }
    if (T) {
        Grid g5{5, 4, 1000, 1000, 0, 0, 0}, g5j{5, 4, 1000, 1000, 0, 0, 1}, w5{5, 4, 90 * M, 50 * M, -180 * M, -75 * M, 0};
        for (auto *g : {&g5j, &g5, &w5}) pairs(tri(*g), tri(*g), true, f);
        Grid h{4, 4, 1000, 1000, 0, 0, 1};
        auto Q = polygons_on(h.points(), 4);
        pairs(Q, Q, true, f);
        triples(tri(h), f);
        for (int n = 6; n <= 7; n++) single(polygons_on(h.points(), n), f);
        Grid c{11, 11, 900, 1100, -3000, 500, 1};
        unit_sets(c, 3, 3, 3, f);
        unit_sets(c, 3, 3, 4, f);
    }
}

int main(int argc, char **argv) {
    R.init(argc, argv);
    bool T = R.thorough;
    if (R.prop == "V01" || R.prop == "V02") {
        graph_families([&](const Scene &S) { if (R.take()) check_graph(S, R.prop == "V01", R.prop == "V02"); });
        return R.finish("one case = one scene of disjoint simple polygons from an exhaustively enumerated family (lattice and perturbed lattice, "
                        "microdegree to world scale); every ordered vertex pair is compared with exact geometry; non-trivial = at least one pair "
                        "blocked by land and at least one edge");
    }
    if (R.prop == "V05") {
        ends_on_edges = true;
        auto tri = [](const Grid &g) { return polygons_on(g.points(), 3); };
        auto f = [&](const Scene &S) { if (R.take()) check_graph(S, true, true); };
        auto t = [&](const Grid &g, bool per) { auto o = g.points(); return [&, o, per](const Scene &S) { if (R.take()) check_trees(S, o, per); }; };
        auto order = [&](const Grid &g) { auto o = g.points(); return [&, o](const Scene &S) { if (R.take()) check_order(S, o); }; };
        Grid n3{3, 3, 1000, 1000, 0, 0, 0}, n3j{3, 3, 1000, 1000, 0, 0, 1}, n43{4, 3, 1000, 1000, 0, 0, 0}, m43{4, 3, 2, 2, -3, -3, 0};
        Grid w{4, 3, 120 * M, 80 * M, -180 * M, -80 * M, 0}, n4{4, 4, 1000, 1000, 0, 0, 0}, n4j{4, 4, 1000, 1000, 0, 0, 1};
        for (auto *g : {&n3, &n3j, &n43, &m43, &w}) touching(tri(*g), tri(*g), true, f);
        for (auto *g : {&n3, &n3j, &n43}) touching(tri(*g), tri(*g), true, t(*g, false));
        touching(tri(w), tri(w), true, t(w, true));
        for (auto *g : {&n3, &n3j}) {
            auto Q = polygons_on(g->points(), 4), P = polygons_on(g->points(), 5);
            touching(Q, tri(*g), false, f);
            touching(Q, Q, true, f);
            touching(P, tri(*g), false, f);
            touching(Q, tri(*g), false, t(*g, false));
        }
        for (auto *g : {&n3, &n3j}) touching_triples(tri(*g), f);
        for (auto &c : tilings(T)) {
            tile_sets(c, 2, f);
            // observers: all corners of the tiles and places between them
            vector<Pt> o;
            for (auto &P : c) {
                for (auto &p : P) o.push_back(p);
                o.push_back({(P[0].x + P[1].x) / 2, (P[0].y + P[1].y) / 2}), o.push_back({(P[0].x + P[1].x + P[2].x) / 3, (P[0].y + P[1].y + P[2].y) / 3});
            }
            sort(o.begin(), o.end());
            o.erase(unique(o.begin(), o.end()), o.end());
            int k = 0;
            tile_sets(c, 2, [&](const Scene &S) { if ((T || k++ % 3 == 0) && R.take()) check_trees(S, o, false); });
            tile_sets(c, 2, [&](const Scene &S) { if (S.size() <= (T ? 4 : 3) && (T || k++ % 4 == 0) && R.take()) check_order(S, o); });
        }
        touching_triples(tri(n3), order(n3));
        touching(tri(n3), tri(n3), true, order(n3));
        if (T) {
            for (auto *g : {&n4, &n4j}) touching(tri(*g), tri(*g), true, f);
            touching(tri(n4), tri(n4), true, t(n4, false));
            touching_triples(tri(n43), f);
            touching_triples(tri(n3), t(n3, false));
            auto Q = polygons_on(n43.points(), 4);
            touching(Q, tri(n43), false, f);
        }
        return R.finish("one case = one scene of polygons whose interiors are apart but which share corners, borders or touch, with all vertex pairs, or all observers on and off "
                        "the coast, or all listings; non-trivial = land hides something and some edge exists");
    }
    if (R.prop == "V03") {
        ends_on_edges = true;
        auto tri = [](const Grid &g) { return polygons_on(g.points(), 3); };
        auto pts = [](const Grid &g, bool mids) {
            auto r = g.points();
            if (mids)
                for (int i = 0; i + 1 < g.w; i++)
                    for (int j = 0; j + 1 < g.h; j++) {
                        Pt a = g.at(i, j), b = g.at(i + 1, j + 1);
                        r.push_back({(a.x + b.x) / 2, (a.y + b.y) / 2});
                        r.push_back({(2 * a.x + b.x) / 3, (a.y + 3 * b.y) / 4});
                    }
            return r;
        };
        auto run = [&](const vector<Pt> &o, bool per) { return [&R_ = R, o, per](const Scene &S) { if (R_.take()) check_trees(S, o, per); }; };
        Grid n3{3, 3, 1000, 1000, 0, 0, 0}, n3j{3, 3, 1000, 1000, 0, 0, 1}, n4{4, 4, 1000, 1000, 0, 0, 0}, n4j{4, 4, 1000, 1000, 0, 0, 1};
        Grid m4{4, 4, 2, 2, -3, -3, 0}, w{4, 3, 120 * M, 80 * M, -180 * M, -80 * M, 0}, wj{4, 3, 100 * M, 70 * M, -175 * M, -80 * M, 1};
        for (auto *g : {&n3, &n3j})
            for (int n = 3; n <= 7; n++) single(polygons_on(g->points(), n), run(pts(*g, true), false));
        single(polygons_on(n4.points(), 4), run(pts(n4, true), false));
        Grid n43{4, 3, 1000, 1000, 0, 0, 0}, n43j{4, 3, 1000, 1000, 0, 0, 1}, m43{4, 3, 2, 2, -3, -3, 0};
        for (auto *g : {&n43, &n43j, &m43}) pairs(tri(*g), tri(*g), true, run(pts(*g, true), false));
        pairs(tri(n4j), tri(n4j), true, run(n4j.points(), false));
        Grid wp{4, 3, 120 * M, 90 * M, -180 * M, -90 * M, 0};
        for (auto *g : {&w, &wj, &wp}) pairs(tri(*g), tri(*g), true, run(pts(*g, true), true));
        structured(1000, 0, 0, 7, [&](const Scene &S) {
            if (!R.take()) return;
            vector<Pt> o;
            for (int i = -1; i < 12; i++) for (int j = -1; j < 12; j++) o.push_back({i * 2500 + 37 * j, j * 2300 - 300});
            check_trees(S, o, false);
            check_trees(S, {}, true);
        });
        for (int n : {3, 8, 16, 21, 45, 80}) for (int turn = 0; turn < 4; turn++) for (bool hidden : {true, false})
            if (Scene S = needles(n, turn, hidden); disjoint(S) && R.take()) check_trees(S, {{0, 1}, {1, 0}, {200, -200}, {-5, -1000}, {400, 400}}, false);
        crowded(false, [&](const Scene &S) {
            if (verts(S).size() > 70 || !R.take()) return;
            vector<Pt> o;
            for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) o.push_back({-400 + i * 1000, -500 + j * 550});
            check_trees(S, o, false);
        });
        for (auto *g : {&n3, &n43j}) {
            auto o = pts(*g, true);
            auto ro = [&](const Scene &S) { if (R.take()) check_order(S, o); };
            for (int n = 3; n <= 6; n++) if (g == &n3) single(polygons_on(g->points(), n), ro);
            pairs(tri(*g), tri(*g), true, ro);
        }
        { Grid c{8, 8, 900, 1100, -3000, 500, 1}; auto o = c.points(); unit_sets(c, 2, 2, 3, [&](const Scene &S) { if (R.take()) check_order(S, o); }); }
        if (T) {
            for (auto *g : {&n4, &n4j, &m4}) pairs(tri(*g), tri(*g), true, run(pts(*g, true), false));
            for (int n = 5; n <= 6; n++) single(polygons_on(n4j.points(), n), run(pts(n4j, true), false));
            Grid c{8, 8, 900, 1100, -3000, 500, 0};
            unit_sets(c, 3, 2, 3, run(c.points(), false));
            Grid w4{4, 4, 120 * M, 50 * M, -180 * M, -75 * M, 0};
            pairs(tri(w4), tri(w4), true, run(w4.points(), true));
            auto Q = polygons_on(n43j.points(), 4);
            pairs(Q, Q, true, run(pts(n43j, true), false));
        }
        return R.finish("one case = one scene with all observers (vertices, lattice points, mid-cell points off land), full and half scans, three "
                        "construction paths, or one scene under all listings; non-trivial = land hides something from some observer that sees something else");
    }
    if (R.prop == "V04") {
        auto tri = [](const Grid &g) { return polygons_on(g.points(), 3); };
        Grid a{4, 3, 1000, 1000, -1500, 0, 0}, aj{4, 3, 1000, 1000, -1500, 0, 1}, big{4, 3, 60 * M, 60 * M, -90 * M, -60 * M, 0}, bigj{4, 3, 70 * M, 50 * M, -110 * M, -60 * M, 1};
        auto shifts_for = [&](const Scene &S) {
            set<int64_t> r;
            for (auto &P : S)
                for (auto &p : P) {
                    r.insert(180 * M - p.x);       // this vertex exactly on +180
                    r.insert(-180 * M - p.x + PER); // ... exactly on -180
                    r.insert(180 * M - p.x + 300);
                    r.insert(180 * M - p.x - 300);
                }
            r.insert(90 * M);
            r.insert(-7);
            return r;
        };
        auto run = [&](const Scene &S) {
            for (auto s : shifts_for(S)) {
                bool ok = true;
                for (auto &P : S) {
                    bool hi = false, lo = false;
                    for (auto &p : P) (p.x + s > 180 * M ? hi : lo) = true;
                    ok &= !(hi && lo);
                }
                if (ok && R.take()) check_shift(S, s);
            }
        };
        auto with_wall = [&](const Scene &S) { Scene T = S; T.push_back(wall(60 * M)); run(T); };
        for (auto *g : {&a, &aj}) pairs(tri(*g), tri(*g), true, run);
        pairs(tri(a), tri(a), true, with_wall);
        Grid tall{4, 3, 60 * M, 90 * M, -90 * M, -90 * M, 0};
        for (auto *g : {&big, &bigj, &tall}) pairs(tri(*g), tri(*g), true, run);
        { Grid c{8, 8, 900, 1100, -3000, 500, 0}; unit_sets(c, 3, 2, 3, run); }
        structured(1000, -20000, 0, 6, run);
        run(islets(24, false));
        { Scene S = islets(24, true); for (auto &P : S) for (auto &p : P) p.x /= 3; run(S); }
        // the only line from (0,0) to (1,-26) winds round the world more than once (known finding)
        run({ccw({{0, 0}, {-20 * M, 5 * M}, {-20 * M, -10 * M}}), ccw({{1 * M, -26 * M}, {20 * M, -15 * M}, {20 * M, -5 * M}, {200000, -10 * M}})});
        if (T) {
            Grid a4{4, 4, 1000, 1000, -1500, 0, 1}, b4{5, 3, 60 * M, 60 * M, -120 * M, -60 * M, 1};
            pairs(tri(a4), tri(a4), true, run);
            pairs(tri(b4), tri(b4), true, run);
            Grid c{8, 8, 900, 1100, -3000, 500, 1}; unit_sets(c, 3, 2, 3, with_wall);
            auto Q = polygons_on(aj.points(), 4);
            pairs(Q, Q, true, run);
        }
        return R.finish("one case = one scene and one longitude shift that breaks no polygon (every vertex put exactly on +180, on -180, and nearby); "
                        "non-trivial = some edge of the shifted scene crosses the antimeridian");
    }
    return 3;
}
