// G02 G04: the parallel parts of the library under every schedule of a controlled scheduler (src/sched).
#include "common/capi.hpp"
#include "common/report.hpp"
#include "common/scenes.hpp"
#include "sched/rt.hpp"
#include "shortest_path/shortest_path_computer.hpp"
#include <cmath>
#include <s2/mutable_s2shape_index.h>
#include <s2/s2closest_edge_query.h>
#include <s2/s2contains_point_query.h>
#include <s2/s2crossing_edge_query.h>
#include <s2/s2polygon.h>
#include <s2/s2polyline.h>
#include <sched.h>
using namespace std;
static const int64_t M = 1000000;
static string context;

static void count(const sched::Outcome &o) {
    R.stats["schedules"] += o.executions;
    R.stats["transitions"] += o.points;
    R.stats["states"] += o.nodes + o.executions; // points of choice met and ends reached
    R.stats["traces_validated_against_impl"] += o.executions; // every schedule is a run of the real code
    R.stats["schedules_with_a_preemption"] += o.preempted;
    if (!o.finished) R.stats["programs_cut_short"]++;
    if (o.mismatches) R.stats["replays_that_diverged"] += o.mismatches;
}

// No program may use up the time of the others. What was cut short is counted; it never is a violation.
static double budget() { return R.thorough ? 600 : 45; }
static void limit(sched::Limits &l) {
    double end = R.elapsed() + budget();
    l.stop = [end] { return R.elapsed() > end; };
}
// ---- G04 -----------------------------------------------------------------------------------------------------------------
static const int N = 3;
struct GOp { int kind, a, b, m; }; // 0 add directed, 1 add, 2 remove directed, 3 remove, 4 has_edge, 5 is crossing, 6 neighbours
static string show(const GOp &o) {
    static const char *k[] = {"add_directed_edge", "add_edge", "remove_directed_edge", "remove_edge", "has_edge", "is_edge_meridian_crossing", "get_neighbors"};
    string s = string(k[o.kind]) + "(" + to_string(o.a);
    if (o.kind < 6) s += "," + to_string(o.b);
    if (o.kind < 2) s += o.m ? ",crossing" : ",direct";
    return s + ")";
}
typedef array<uint8_t, N * N> St; // per ordered pair: bit 1 direct, bit 2 through the antimeridian
static int result(const GOp &o, const St &s) {
    if (o.kind == 4) return s[o.a * N + o.b] != 0;
    if (o.kind == 5) return s[o.a * N + o.b] == 2;
    int r = 0;
    for (int b = 0; b < N; b++) if (s[o.a * N + b]) r |= 1 << b;
    return r;
}
struct Done { GOp op; int res; uint64_t inv, ret; };
// what a client can see of a state: nothing tells "direct" from "direct and through the antimeridian"
static St seen(St s) {
    for (auto &x : s) if (x == 3) x = 1;
    return s;
}
static bool linearizable(const vector<Done> &h, const St &from, const St &final) {
    // parts left of each call: bit 0 its first direction, bit 1 its second (undirected calls only)
    vector<int> left(h.size());
    for (size_t i = 0; i < h.size(); i++) left[i] = h[i].op.kind == 1 || h[i].op.kind == 3 ? 3 : 1;
    function<bool(const St &)> go = [&](const St &s) {
        bool any = false;
        for (size_t i = 0; i < h.size(); i++) {
            if (!left[i]) continue;
            any = true;
            bool first = true;
            for (size_t j = 0; j < h.size(); j++) if (j != i && left[j] && h[j].ret < h[i].inv) first = false;
            if (!first) continue;
            for (int part = 1; part <= 2; part++) {
                if (!(left[i] & part)) continue;
                const GOp &o = h[i].op;
                int a = part == 1 ? o.a : o.b, b = part == 1 ? o.b : o.a;
                St t = s;
                if (o.kind < 2) { if (a != b) t[a * N + b] |= o.m ? 2 : 1; }
                else if (o.kind < 4) t[a * N + b] = 0;
                else if (result(o, s) != h[i].res) continue;
                left[i] &= ~part;
                bool ok = go(t);
                left[i] |= part;
                if (ok) return true;
            }
        }
        return !any && seen(s) == seen(final);
    };
    return go(from);
}
static vector<Pt> tri;
static void g04(const St &init, const vector<vector<GOp>> &threads, int bound) {
    if (!R.take()) return;
    string name = "edges";
    for (int i = 0; i < N * N; i++) if (init[i]) name += " " + to_string(i / N) + to_string(i % N) + (init[i] == 2 ? "~" : init[i] == 3 ? "=~" : "=");
    for (size_t t = 0; t < threads.size(); t++) {
        name += t ? " || " : " : ";
        for (size_t k = 0; k < threads[t].size(); k++) name += (k ? "; " : "") + show(threads[t][k]);
    }
    context = name;
    vector<Polygon> polys = PS({tri});
    vector<Coordinate> c = CV(tri);
    unique_ptr<Graph> g;
    vector<Done> hist;
    set<string> good;
    int n = threads.size();
    size_t nops = 0;
    for (auto &t : threads) nops += t.size();
    sched::Limits l;
    l.preemptions = bound;
    bool writes = false, mixed = false;
    auto program = [&] {
        g = make_unique<Graph>(polys);
        for (int i = 0; i < N * N; i++) {
            if (init[i] & 1) g->add_directed_edge(c[i / N], c[i % N], false);
            if (init[i] & 2) g->add_directed_edge(c[i / N], c[i % N], true);
        }
        hist.assign(nops, {});
        sched::team(n, [&](int t) {
            size_t at = 0;
            for (int i = 0; i < t; i++) at += threads[i].size();
            for (auto &o : threads[t]) {
                Done &d = hist[at++];
                d.op = o, d.inv = sched::now();
                const Coordinate &a = c[o.a], &b = c[o.b];
                switch (o.kind) {
                case 0: g->add_directed_edge(a, b, o.m); break;
                case 1: g->add_edge(a, b, o.m); break;
                case 2: g->remove_directed_edge(a, b); break;
                case 3: g->remove_edge(a, b); break;
                case 4: d.res = g->has_edge(a, b); break;
                case 5: d.res = g->is_edge_meridian_crossing(a, b); break;
                case 6:
                    for (auto &x : g->get_neighbors(a)) {
                        int k = 8;
                        for (int i = 0; i < N; i++) if (x == c[i]) k = 1 << i;
                        if (d.res & k) sched::fail("a neighbour is listed twice");
                        d.res |= k;
                    }
                    break;
                }
                d.ret = sched::now();
            }
        });
    };
    set<string> results;
    auto check = [&] {
        St fin{};
        for (int i = 0; i < N * N; i++)
            if (i / N != i % N && g->has_edge(c[i / N], c[i % N])) fin[i] = g->is_edge_meridian_crossing(c[i / N], c[i % N]) ? 2 : 1;
        for (int a = 0; a < N; a++)
            if ((int)g->get_neighbors(c[a]).size() != __builtin_popcount(result({6, a, 0, 0}, fin))) sched::fail("has_edge and get_neighbors disagree after " + context);
        string key((const char *)fin.data(), fin.size());
        for (auto &d : hist) key += (char)d.res;
        results.insert(key);
        for (auto &d : hist) for (auto &e : hist) key += d.ret < e.inv ? '1' : '0';
        if (good.count(key)) return;
        if (!linearizable(hist, init, fin)) {
            string s;
            for (auto &d : hist) s += " " + show(d.op) + (d.op.kind > 3 ? "=" + to_string(d.res) : "") + "[" + to_string(d.inv) + "," + to_string(d.ret) + "]";
            sched::fail("no order explains" + s);
        }
        good.insert(key);
    };
    limit(l);
    auto o = sched::explore(l, program, check);
    count(o);
    R.stats["histories"] += good.size();
    if (!o.failure.empty()) R.fail("", sched::locate(o.failure) + "; schedule" + o.where + "; program " + name);
    if (results.size() > 1) mixed = true;
    (void)writes;
    if (mixed) R.nontrivial();
    R.sample(name);
    R.outcomes.insert(to_string(results.size()) + " results");
}
static void run_g04(bool T) {
    tri = {{0, 0}, {2 * M, 0}, {0, M}};
    vector<St> inits(1, St{});
    auto E = [&](initializer_list<pair<int, int>> l) { St s{}; for (auto &x : l) s[x.first / 10 * N + x.first % 10] = x.second; inits.push_back(s); };
    E({{01, 1}, {10, 1}});
    E({{01, 2}, {10, 2}, {12, 1}, {21, 1}});
    E({{01, 3}, {02, 1}, {20, 2}});
    E({{01, 1}, {10, 1}, {12, 2}, {21, 2}, {02, 1}, {20, 1}});
    E({{10, 2}});
    vector<GOp> all; // every call on three vertices
    for (int a = 0; a < N; a++)
        for (int b = 0; b < N; b++) {
            if (a == b) { all.push_back({6, a, 0, 0}); continue; }
            for (int m = 0; m < 2; m++) all.push_back({0, a, b, m}), all.push_back({1, a, b, m});
            for (int k = 2; k < 6; k++) all.push_back({k, a, b, 0});
        }
    // every two calls
    for (auto &s : inits)
        for (size_t i = 0; i < all.size(); i++)
            for (size_t j = i; j < all.size(); j++) g04(s, {{all[i]}, {all[j]}}, 99);
    // calls on one and the same pair twice with itself: no deadlock with equal vertices
    for (int k : {0, 1, 2, 3, 4, 5})
        for (auto &o : all) g04(inits[1], {{{k, 1, 1, 0}}, {o}}, 2);
    // two threads of two calls on two vertices
    vector<GOp> two{{0, 0, 1, 0}, {0, 0, 1, 1}, {2, 0, 1, 0}, {1, 0, 1, 0}, {1, 1, 0, 1}, {3, 0, 1, 0}, {4, 0, 1, 0}, {4, 1, 0, 0}, {5, 0, 1, 0}, {6, 0, 0, 0}};
    if (T) two.push_back({0, 1, 0, 0}), two.push_back({3, 1, 0, 0}), two.push_back({5, 1, 0, 0}), two.push_back({6, 1, 0, 0});
    int n = two.size();
    for (int s = 0; s < 6; s++) {
        for (int i = 0; i < n * n; i++)
            for (int j = i; j < n * n; j++) g04(inits[s], {{two[i / n], two[i % n]}, {two[j / n], two[j % n]}}, T ? 4 : 2);
    }
    // three threads of one call
    vector<GOp> few;
    for (auto &o : all)
        if (T || o.kind == 1 && o.m || o.kind > 1 && o.kind != 5) few.push_back(o);
    for (int s : T ? vector<int>{0, 1, 2, 3, 4, 5} : vector<int>{0, 2, 4})
        for (size_t i = 0; i < few.size(); i++)
            for (size_t j = i; j < few.size(); j++)
                for (size_t k = j; k < few.size(); k++) g04(inits[s], {{few[i]}, {few[j]}, {few[k]}}, T ? 3 : 1);
    // one thread of three calls against one of two, four threads: lock order around the triangle
    vector<GOp> ring{{0, 0, 1, 0}, {0, 1, 2, 0}, {0, 2, 0, 0}, {0, 1, 0, 1}, {0, 2, 1, 1}, {0, 0, 2, 1}, {3, 0, 2, 0}, {1, 2, 1, 0}, {5, 0, 1, 0}, {4, 2, 1, 0}, {6, 1, 0, 0}};
    int r = ring.size();
    for (int i = 0; i < r; i++)
        for (int j = i; j < r; j++)
            for (int k = j; k < r; k++)
                for (int q = k; q < r; q++) {
                    g04(inits[2], {{ring[i]}, {ring[j]}, {ring[k]}, {ring[q]}}, T ? 3 : 1);
                }
}

// ---- G02 -----------------------------------------------------------------------------------------------------------------
static string dump(const Graph &g) {
    string s;
    auto v = g.get_vertices();
    vector<Pt> p;
    for (auto &c : v) p.push_back(P_(c));
    sort(p.begin(), p.end());
    vector<string> polys;
    for (auto &poly : g.get_polygons()) {
        string q;
        for (auto &c : poly.get_vertices()) q += str(P_(c));
        polys.push_back(q);
    }
    sort(polys.begin(), polys.end());
    for (auto &q : polys) s += q + "\n";
    for (auto &a : p) {
        s += str(a) + ":";
        for (auto &b : p) s += !g.has_edge(C(a), C(b)) ? '.' : g.is_edge_meridian_crossing(C(a), C(b)) ? '~' : '-';
        set<Pt> nb;
        for (auto &c : g.get_neighbors(C(a))) nb.insert(P_(c));
        s += to_string(nb.size()) + "\n";
    }
    return s;
}
static string dump(const vector<BatchInterpolateResult> &r) {
    string s;
    for (auto &x : r) {
        if (x.path) for (auto &c : *x.path) s += str(P_(c));
        s += x.error_msg ? "error " + *x.error_msg : "";
        s += "\n";
    }
    return s;
}
// run: performs the call and gives back its result
// first all programs with few preemptions (pass 0), then those with more
static string pack(const sched::Outcome &o) {
    uint64_t n[8] = {o.executions, o.nodes, o.points, o.max_points, o.preempted, o.mismatches, o.finished, o.where.size()};
    return string((const char *)n, sizeof n) + o.where + o.failure;
}
static sched::Outcome unpack(const string &s) {
    sched::Outcome o;
    uint64_t n[8];
    if (s.size() < sizeof n) abort();
    memcpy(n, s.data(), sizeof n);
    o.executions = n[0], o.nodes = n[1], o.points = n[2], o.max_points = n[3], o.preempted = n[4], o.mismatches = n[5], o.finished = n[6];
    o.where = s.substr(sizeof n, n[7]), o.failure = s.substr(sizeof n + n[7]);
    return o;
}
static int pass_;
// This process never runs the code under test itself: what the code keeps from call to call (tables filled on the way, say) is
// made anew in the process of every program, and in pass 0 in that of every single schedule of a first few.
static void g02(const string &name, int team, int bound, const function<string()> &run, bool symmetric = true) {
    if (pass_ == 0) bound = min(bound, 1);
    else if (bound < 2) return;
    if (!R.take()) return;
    context = name + " by " + to_string(team) + " threads";
    sched::team_size = 1;
    string want = sched::in_child(run);
    sched::team_size = team;
    string got;
    sched::Limits l;
    l.preemptions = bound;
    l.release_points = false;
    l.symmetric = symmetric;
    limit(l);
    auto once = [&] { got = run(); };
    auto check = [&] {
        if (got != want) sched::fail("the result differs from that of a single thread: " + got + " instead of " + want);
    };
    auto report = [&](const sched::Outcome &o, int b, const char *how) {
        count(o);
        R.stats["max_points"] = max<uint64_t>(R.stats["max_points"], o.max_points);
        if (!o.failure.empty()) R.fail("", sched::locate(o.failure) + "; schedule" + o.where + "; " + context + how);
        if (getenv("VERIF_SHOW")) fprintf(stderr, "%s bound %d%s: %llu schedules, up to %llu points, %.2fs\n", context.c_str(), b, how, (unsigned long long)o.executions, (unsigned long long)o.max_points, R.elapsed());
        return o.failure.empty();
    };
    if (pass_ == 0)
        for (int b = 0; b <= bound; b++) {
            sched::Limits c = l;
            c.preemptions = b, c.cold = true, c.max_executions = R.thorough ? 3000 : 400;
            auto o = sched::explore(c, once, check);
            R.stats["schedules_in_a_fresh_process"] += o.executions;
            o.finished = true; // all of it is run again below
            if (!report(o, b, " in a fresh process")) return;
        }
    sched::Outcome o;
    string s = sched::in_child([&] {
        sched::on_stuck = [&](const string &m) {
            sched::Outcome f;
            f.failure = m;
            sched::leave_child(pack(f));
        };
        sched::team_size = 1;
        got = run();
        sched::team_size = team;
        sched::Outcome f;
        if (got != want) f.failure = "the result differs from process to process: " + got + " instead of " + want;
        return pack(got == want ? sched::explore(l, once, check) : f);
    });
    o = unpack(s);
    report(o, bound, "");
    if (o.executions > 2) R.nontrivial();
    R.sample(context + ", up to " + to_string(bound) + " preemptions: " + to_string(o.executions) + " schedules");
}
// lazily made tables of the libraries below exist before anything is compared
static void warm() {
    for (int k = 0; k < 2; k++) {
        auto at = [&](int x, int y) { return S2LatLng::FromDegrees(y + 10 * k, x + 170 * k).ToPoint(); };
        auto loop = make_unique<S2Loop>(vector<S2Point>{at(0, 0), at(5, 0), at(4, 3), at(0, 5)});
        loop->Normalize();
        auto poly = make_unique<S2Polygon>(move(loop));
        poly->Contains(at(1, 1)), poly->IsValid();
        MutableS2ShapeIndex ix;
        ix.Add(make_unique<S2Polygon::OwningShape>(move(poly)));
        S2ClosestEdgeQuery near(&ix);
        near.mutable_options()->set_include_interiors(false);
        S2ClosestEdgeQuery::PointTarget t(at(9, 9));
        near.FindClosestEdge(&t);
        near.mutable_options()->set_max_distance(S1Angle::Radians(0.5));
        near.FindClosestEdges(&t);
        S2CrossingEdgeQuery cross(&ix);
        for (auto &e : cross.GetCrossingEdges(at(-1, -1), at(9, 8), S2CrossingEdgeQuery::CrossingType::ALL)) S2::GetDistance(at(0, 0), e.v0(), e.v1());
        MakeS2ContainsPointQuery(&ix, S2ContainsPointQueryOptions(S2VertexModel::OPEN)).Contains(at(1, 1));
        S2Polyline line(vector<S2Point>{at(0, 0), at(9, 1)});
        line.GetLength(), S2LatLng(at(3, 3)).Normalized(), S1Angle(at(0, 0), at(1, 1)).degrees();
    }
}
static void run_g02(bool T) {
    const int64_t W = 180 * M;
    vector<Scene> small{
        {{{0, 0}, {2 * M, 0}, {0, M}}},
        {{{W - M, 0}, {W, 2 * M}, {W - 2 * M, M}}},
        {{{-W, -M}, {-W + 3 * M, 0}, {-W + M, M}}},
        {{{-100 * M, -10 * M}, {100 * M, -12 * M}, {0, 50 * M}}},
        {{{0, 0}, {4 * M, 0}, {M, M}, {0, 4 * M}}},
    };
    vector<Scene> mid{
        {{{0, 0}, {2 * M, 0}, {0, M}}, {{5 * M, 0}, {7 * M, M}, {5 * M, 2 * M}}},
        {{{W - 3 * M, 0}, {W - M, 0}, {W - 2 * M, M}}, {{-W + M, 0}, {-W + 3 * M, M}, {-W + M, 2 * M}}},
        {{{0, 0}, {4 * M, 0}, {4 * M, 4 * M}, {3 * M, M}, {M, M}, {0, 4 * M}}},
    };
    for (auto &s : mid) for (auto &p : s) p = ccw(p);
    for (auto &s : small) for (auto &p : s) p = ccw(p);
    auto gen = [](const Scene &S) { return [S] { return dump(*VisgraphGenerator::generate(PS(S))); }; };
    auto shuf = [](const Scene &S, size_t a, size_t b, unsigned seed) { return [=] { return dump(*VisgraphGenerator::generate_with_shuffled_range(PS(S), a, b, seed)); }; };
    // whole graphs and ranges
    for (auto &S : small) {
        g02("generate " + str(S), 2, T ? 3 : 2, gen(S));
        g02("generate " + str(S), 3, T ? 2 : S[0].size() == 3, gen(S));
        if (T) g02("generate " + str(S), 4, 1, gen(S));
        size_t n = verts(S).size();
        for (size_t a = 0; a <= n; a++)
            for (size_t b = a; b <= n; b++)
                for (unsigned seed : {0u, 5u}) g02("range " + to_string(a) + ".." + to_string(b) + " seed " + to_string(seed) + " of " + str(S), 2 + (a + b + seed) % 2, T ? 2 : 1, shuf(S, a, b, seed));
    }
    for (auto &S : mid) {
        g02("generate " + str(S), 2, T ? 2 : 1, gen(S));
        if (T || S == mid[1]) g02("generate " + str(S), 3, T ? 1 : 0, gen(S));
        size_t n = verts(S).size();
        for (auto &r : vector<pair<size_t, size_t>>{{0, n}, {0, n / 2}, {n / 2, n}, {1, n - 1}})
            g02("range " + to_string(r.first) + ".." + to_string(r.second) + " seed 3 of " + str(S), 2, T ? 2 : 1, shuf(S, r.first, r.second, 3));
        if (T || S == mid[2]) g02("range 0.." + to_string(n) + " seed 4 of " + str(S), 3, T ? 1 : 0, shuf(S, 0, n, 4));
    }
    // merging
    auto merge = [](const Scene &S, vector<size_t> cuts, bool whole) {
        return [=] {
            int team = sched::team_size;
            sched::team_size = 1;
            vector<shared_ptr<Graph>> parts;
            for (size_t i = 0; i + 1 < cuts.size(); i++) parts.push_back(VisgraphGenerator::generate_with_shuffled_range(PS(S), cuts[i], cuts[i + 1], 7));
            if (whole) parts.push_back(parts[0]);
            sched::team_size = team;
            return dump(*merge_graphs(parts));
        };
    };
    for (auto &S : small) {
        size_t n = verts(S).size();
        g02("merge of one-vertex parts of " + str(S), 2, T ? 3 : 2, merge(S, n == 3 ? vector<size_t>{0, 1, 2, 3} : vector<size_t>{0, 1, 2, 3, 4}, false), false);
        g02("merge of one-vertex parts of " + str(S), 3, T ? 2 : 1, merge(S, n == 3 ? vector<size_t>{0, 1, 2, 3} : vector<size_t>{0, 1, 2, 3, 4}, false), false);
        g02("merge of the halves of " + str(S), 2, T ? 3 : 2, merge(S, {0, 1, n}, false), false);
        g02("merge of a graph with itself, " + str(S), 2, T ? 3 : 2, merge(S, {0, n}, true), false);
    }
    for (auto &S : mid) {
        size_t n = verts(S).size();
        g02("merge of the halves of " + str(S), 2, T ? 2 : 1, merge(S, {0, n / 2, n}, false), false);
        g02("merge of the thirds of " + str(S), 3, 1, merge(S, {0, n / 3, 2 * n / 3, n}, false), false);
        g02("merge of the thirds of " + str(S), 2, 1, merge(S, {0, n / 3, 2 * n / 3, n}, false), false);
    }
    // disagreeing parts: one says direct, the other through the antimeridian
    for (int k = 0; k < 4; k++) {
        Scene S = small[0];
        auto f = [S, k] {
            auto c = CV(S[0]);
            vector<shared_ptr<Graph>> parts{make_shared<Graph>(PS(S)), make_shared<Graph>(PS(S)), make_shared<Graph>(PS(S))};
            parts[0]->add_directed_edge(c[0], c[1], k & 1);
            parts[1]->add_directed_edge(c[1], c[0], k >> 1);
            parts[1]->add_directed_edge(c[0], c[1], !(k & 1));
            parts[2]->add_edge(c[1], c[2], k & 1), parts[0]->add_edge(c[2], c[1], k >> 1);
            return dump(*merge_graphs(parts));
        };
        g02("merge of disagreeing parts " + to_string(k), 2, T ? 3 : 2, f, false);
        g02("merge of disagreeing parts " + to_string(k), 3, T ? 2 : 1, f, false);
    }
    // batches
    auto batch = [](const Scene &S, vector<pair<Pt, Pt>> q, double lim, bool corr, double wt) {
        return [=] {
            int team = sched::team_size;
            sched::team_size = 1;
            auto g = VisgraphGenerator::generate(PS(S));
            ShortestPathComputer spc(g);
            sched::team_size = team;
            vector<pair<Coordinate, Coordinate>> r;
            for (auto &x : q) r.push_back({C(x.first), C(x.second)});
            string before = dump(*g), s = dump(spc.shortest_paths(r, lim, corr, wt));
            return dump(*g) == before ? s : "the graph was changed";
        };
    };
    vector<pair<Pt, Pt>> q{{{-M, M / 3}, {8 * M, M}}, {{0, 0}, {7 * M, M}}, {{M / 2, M / 3}, {8 * M, 0}}, {{-M, -M}, {-2 * M, M}}, {{2 * M, 0}, {5 * M, 0}}};
    vector<int> idx;
    for (int len = 1; len <= 3; len++) {
        int tot = 1;
        for (int i = 0; i < len; i++) tot *= q.size();
        for (int k = 0; k < tot; k++) {
            vector<pair<Pt, Pt>> r;
            string nm;
            for (int i = 0, x = k; i < len; i++, x /= q.size()) r.push_back(q[x % q.size()]), nm += to_string(x % q.size());
            if (!T && len == 3 && k % 7) continue;
            for (int pr = 0; pr < 2; pr++) {
                if (!T && (k + len + pr) % 2) continue;
                g02("batch " + nm + (pr ? " corrected" : ""), 2, len < 3 ? (T ? 2 : 1) : T ? 1 : 0, batch(mid[0], r, pr ? 2.0 : INFINITY, pr, 1));
                if (len == 3) g02("batch " + nm + (pr ? " corrected" : ""), 3, T ? 1 : 0, batch(mid[0], r, INFINITY, pr, 1));
            }
        }
    }
    Scene world = mid[1];
    vector<pair<Pt, Pt>> qw{{{W - 4 * M, M / 2}, {-W + 4 * M, M}}, {{W - 3 * M, 0}, {-W + M, 2 * M}}, {{W - 2 * M, M / 3}, {-W + 4 * M, 0}}};
    for (int pr = 0; pr < 2; pr++) {
        g02(string("batch through the antimeridian") + (pr ? " corrected" : ""), 2, 1, batch(world, {qw[0], qw[1]}, INFINITY, pr, 1));
        g02(string("batch through the antimeridian") + (pr ? " corrected" : ""), 3, T ? 1 : 0, batch(world, qw, INFINITY, pr, 1));
    }
}

int main(int argc, char **argv) {
    R.init(argc, argv);
    // one processor: handing over from thread to thread is far cheaper
    cpu_set_t cs, have;
    if (sched_getaffinity(0, sizeof have, &have) == 0 && CPU_COUNT(&have)) {
        int k = (getenv("VERIF_SLOT") ? atoi(getenv("VERIF_SLOT")) : R.shard) % CPU_COUNT(&have);
        for (int i = 0; i < CPU_SETSIZE; i++)
            if (CPU_ISSET(i, &have) && k-- == 0) {
                CPU_ZERO(&cs);
                CPU_SET(i, &cs);
                sched_setaffinity(0, sizeof cs, &cs);
            }
    }
    R.case_seconds = R.thorough ? 1500 : 240;
    string rule = R.prop == "G04" ? "programs whose schedules give at least two different results" : "programs with at least three schedules";
    sched::on_stuck = [=](const string &s) {
        R.fail("", s + "; program " + context);
        R.finish(rule);
    };
    if (R.prop == "G04") run_g04(R.thorough);
    else {
        warm();
        for (pass_ = 0; pass_ < 2; pass_++) run_g02(R.thorough);
    }
    return R.finish(rule);
}
