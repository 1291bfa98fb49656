// G01 G03 G05 G06: graph data structure, overlay, equality, split generation + merge.
#include "common/capi.hpp"
#include "common/report.hpp"
#include "common/scenes.hpp"
#include "datastructures/modified_graph/modified_graph.hpp"
#include <array>
using namespace std;
static const int64_t M = 1000000;

// ---- reference model: a plain map from ordered pairs to the set of ways they are connected --------------------------------
struct Model {
    vector<Pt> V;                   // known vertices
    map<pair<int, int>, int> E;     // bit 1 direct, bit 2 through the antimeridian
    int get(int a, int b) const { auto i = E.find({a, b}); return i == E.end() ? 0 : i->second; }
    string key() const {
        string s = to_string(V.size());
        for (auto &e : E) s += "|" + to_string(e.first.first) + "," + to_string(e.first.second) + "=" + to_string(e.second);
        return s;
    }
};
struct Op { int kind, a, b, m; }; // 0 add directed, 1 add, 2 remove directed, 3 remove, 4 add vertex
static const char *KN[] = {"add_directed_edge", "add_edge", "remove_directed_edge", "remove_edge", "add_vertex"};
static string show(const Op &o) {
    return string(KN[o.kind]) + "(" + to_string(o.a) + (o.kind == 4 ? "" : "," + to_string(o.b)) + (o.kind < 2 ? (o.m ? ",crossing" : ",direct") : "") + ")";
}
static string show(const vector<Op> &v) {
    string s;
    for (auto &o : v) s += (s.empty() ? "" : " ") + show(o);
    return s;
}
static void apply(Model &m, const Op &o, const vector<Pt> &U) {
    auto add = [&](int a, int b) { if (a != b) m.E[{a, b}] |= o.m ? 2 : 1; };
    switch (o.kind) {
    case 0: add(o.a, o.b); break;
    case 1: add(o.a, o.b), add(o.b, o.a); break;
    case 2: m.E.erase({o.a, o.b}); break;
    case 3: m.E.erase({o.a, o.b}), m.E.erase({o.b, o.a}); break;
    case 4: if (find(m.V.begin(), m.V.end(), U[o.a]) == m.V.end()) m.V.push_back(U[o.a]); break;
    }
}
static void apply(IGraph &g, const Op &o, const vector<Pt> &U) {
    switch (o.kind) {
    case 0: g.add_directed_edge(C(U[o.a]), C(U[o.b]), o.m); break;
    case 1: g.add_edge(C(U[o.a]), C(U[o.b]), o.m); break;
    case 2: g.remove_directed_edge(C(U[o.a]), C(U[o.b])); break;
    case 3: g.remove_edge(C(U[o.a]), C(U[o.b])); break;
    case 4: g.add_vertex(C(U[o.a])); break;
    }
}
static string shape(const Model &m, const vector<Pt> &U) {
    set<Pt> vs(m.V.begin(), m.V.end());
    string s;
    for (size_t a = 0; a < U.size(); a++) {
        s += vs.count(U[a]) ? 'v' : '-';
        if (!vs.count(U[a])) continue;
        for (size_t b = 0; b < U.size(); b++) s += vs.count(U[b]) ? char('0' + m.get(a, b)) : '.';
    }
    return s;
}
static string wrong; // first disagreement found by agrees()
static bool agrees(const IGraph &g, const Model &m, const vector<Pt> &U, const vector<Polygon> &polys) {
    wrong = "";
    set<Pt> known(m.V.begin(), m.V.end()), got;
    auto gv = g.get_vertices();
    for (auto &c : gv) if (!got.insert(P_(c)).second) { wrong = "vertex " + str(P_(c)) + " listed twice"; return false; }
    if (got != known) { wrong = "vertex list is wrong"; return false; }
    if (!(g.get_polygons() == polys)) { wrong = "polygons are wrong"; return false; }
    for (size_t a = 0; a < U.size(); a++) {
        if (g.has_vertex(C(U[a])) != (bool)known.count(U[a])) { wrong = "membership of vertex " + to_string(a); return false; }
        if (!known.count(U[a])) continue;
        set<Pt> want, have;
        for (size_t b = 0; b < U.size(); b++) {
            if (!known.count(U[b])) continue;
            int s = m.get(a, b);
            if (s) want.insert(U[b]);
            if (g.has_edge(C(U[a]), C(U[b])) != (s != 0)) { wrong = "edge " + to_string(a) + "->" + to_string(b) + (s ? " lost" : " invented"); return false; }
            if (g.is_edge_meridian_crossing(C(U[a]), C(U[b])) != (s == 2)) { wrong = "mark of " + to_string(a) + "->" + to_string(b); return false; }
        }
        for (auto &c : g.get_neighbors(C(U[a]))) if (!have.insert(P_(c)).second) { wrong = "neighbour of " + to_string(a) + " listed twice"; return false; }
        if (want != have) { wrong = "neighbours of " + to_string(a); return false; }
    }
    return true;
}
template <class F> static bool throws(F f) {
    try { f(); } catch (const std::exception &) { return true; }
    return false;
}
static vector<Op> ops_over(int n, int from_vertex, bool both_kinds, int nvert_ops) {
    vector<Op> r;
    for (int a = 0; a < n; a++)
        for (int b = 0; b < n; b++)
            for (int k = 0; k < 4; k++) {
                if (!both_kinds && (k == 0 || k == 2)) continue;
                if ((k == 1 || k == 3) && a > b && a % 2) continue; // undirected: one of the two orders for half of the pairs
                if (a == b && k > 1) continue;
                for (int m = 0; m < (k < 2 ? 2 : 1); m++) r.push_back({k, a, b, m});
            }
    for (int v = 0; v < nvert_ops; v++) r.push_back({4, from_vertex + v, 0, 0});
    return r;
}

// ---- G03 -----------------------------------------------------------------------------------------------------------------
static void g03_run(const Scene &S, const vector<Pt> &U, const vector<Op> &seq, const Model *expect) {
    auto polys = PS(S);
    Graph g(polys);
    Model m;
    m.V = verts(S);
    for (auto &o : seq) apply(g, o, U), apply(m, o, U);
    R.stats["traces_validated_against_impl"]++;
    if (!agrees(g, m, U, polys)) { R.fail("", wrong + " after " + show(seq) + " on " + str(S)); return; }
    if (expect && m.key() != expect->key()) { fprintf(stderr, "model is not deterministic\n"); _exit(3); }
    // unknown vertices: an error that changes nothing
    Coordinate u(3, 77777), k = C(m.V[0]);
    bool ok = throws([&] { g.add_directed_edge(u, k, false); }) && throws([&] { g.add_directed_edge(k, u, true); }) && throws([&] { g.add_edge(k, u, false); }) &&
              throws([&] { g.add_edge(u, k, true); }) && throws([&] { g.remove_directed_edge(u, k); }) && throws([&] { g.remove_edge(k, u); }) &&
              throws([&] { (void)g.has_edge(k, u); }) && throws([&] { (void)g.has_edge(u, k); }) && throws([&] { (void)g.is_edge_meridian_crossing(u, k); }) &&
              throws([&] { (void)g.is_edge_meridian_crossing(k, u); }) && throws([&] { (void)g.get_neighbors(u); });
    if (!ok) R.fail("", "unknown vertex accepted after " + show(seq) + " on " + str(S));
    if (!agrees(g, m, U, polys)) R.fail("", "unknown vertex changes the graph: " + wrong + " after " + show(seq) + " on " + str(S));
}
static void g03_bfs(const Scene &S, const vector<Pt> &U, const vector<Op> &ops, size_t depth, const string &name) {
    // breadth-first over model states; every transition is replayed on a fresh graph along the shortest path to its source state
    struct N { Model m; vector<Op> path; };
    vector<N> level;
    set<string> seen;
    Model m0;
    m0.V = verts(S);
    seen.insert(m0.key());
    level.push_back({m0, {}});
    for (size_t d = 0; d < depth && !level.empty(); d++) {
        vector<N> next;
        for (auto &n : level) {
            bool mine = R.take();
            if (mine) R.stats["states"]++, R.nontrivial(), R.sample(name + ": all operations after " + show(n.path));
            for (auto &o : ops) {
                Model m = n.m;
                set<Pt> known(m.V.begin(), m.V.end());
                if (o.kind < 4 && (!known.count(U[o.a]) || !known.count(U[o.b]))) continue;
                apply(m, o, U);
                auto p = n.path;
                p.push_back(o);
                if (mine) g03_run(S, U, p, &m), R.stats["transitions"]++;
                if (seen.insert(m.key()).second) next.push_back({m, p});
            }
        }
        level = move(next);
    }
    if (!level.empty() && R.shard == 0) R.stats["states_at_depth_bound"] += level.size();
}
// sequences without merging of states: finds behaviour that depends on how a state was reached
static void g03_seqs(const Scene &S, const vector<Pt> &U, const vector<Op> &ops, int depth) {
    vector<Op> cur;
    function<void(Model)> rec = [&](Model m) {
        if ((int)cur.size() == depth) { g03_run(S, U, cur, nullptr); R.stats["transitions"] += 1; return; }
        set<Pt> known(m.V.begin(), m.V.end());
        for (auto &o : ops) {
            if (o.kind < 4 && (!known.count(U[o.a]) || !known.count(U[o.b]))) continue;
            Model n = m;
            apply(n, o, U);
            cur.push_back(o);
            if (cur.size() != 2 || R.take()) {
                if (cur.size() == 2) R.nontrivial(), R.sample("all continuations of " + show(cur)), R.stats["states"]++;
                rec(n);
            }
            cur.pop_back();
        }
    };
    Model m;
    m.V = verts(S);
    rec(m);
}

// Many vertices: operations on whole sets of pairs (every pair at one distance along the list, or about one vertex), all sequences of them
struct Bulk { int kind, rule, m; };
static vector<pair<int, int>> rule_pairs(int rule, int k) {
    vector<pair<int, int>> r;
    if (rule < 4) { int d = rule == 0 ? 1 : rule == 1 ? 2 : rule == 2 ? k / 2 : k - 2; for (int i = 0; i < k; i++) if ((i + d) % k != i) r.push_back({i, (i + d) % k}); }
    else if (rule < 7) { int h = rule == 4 ? 0 : rule == 5 ? k / 2 : k - 1; for (int i = 0; i < k; i++) if (i != h) r.push_back(i % 2 ? make_pair(h, i) : make_pair(i, h)); }
    else for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) if (i != j) r.push_back({i, j});
    return r;
}
static string show(const Bulk &b) {
    static const char *RN[] = {"next", "next but one", "opposite", "next but one back", "first", "middle", "last", "all"};
    return string(KN[b.kind]) + "(" + RN[b.rule] + (b.kind < 2 ? b.m ? ",crossing)" : ",direct)" : ")");
}
static void bulk(IGraph &g, Model &m, const Bulk &b, const vector<Pt> &U) {
    for (auto &p : rule_pairs(b.rule, U.size())) { Op o{b.kind, p.first, p.second, b.m}; apply(g, o, U), apply(m, o, U); }
}
static vector<Bulk> bulks(const vector<int> &rules) {
    vector<Bulk> r;
    for (int x : rules) for (int k = 0; k < 4; k++) for (int m = 0; m < (k < 2 ? 2 : 1); m++) r.push_back({k, x, m});
    return r;
}
static void large_runs(const Scene &S, int extra, const vector<Bulk> &ops, int depth, bool overlay) {
    auto polys = PS(S);
    vector<Pt> U = verts(S);
    for (int i = 0; i < extra; i++) U.push_back({-7 * M - 1000 * i, 5 * M + 31 * i});
    vector<Bulk> cur;
    function<void()> go = [&] {
        if ((int)cur.size() < depth) { for (auto &o : ops) { cur.push_back(o); go(); cur.pop_back(); } return; }
        if (!R.take()) return;
        R.nontrivial();
        R.stats["states"] += depth, R.stats["traces_validated_against_impl"]++, R.stats["transitions"] += depth;
        R.stats["most_vertices"] = max<uint64_t>(R.stats["most_vertices"], U.size());
        string text;
        for (auto &b : cur) text += " " + show(b);
        text += " on " + to_string(U.size()) + " vertices";
        R.sample(text);
        Model m, below;
        m.V = verts(S);
        auto base = make_shared<Graph>(polys);
        shared_ptr<ModifiedGraph> top;
        IGraph *g = base.get();
        auto grow = [&] { for (size_t i = verts(S).size(); i < U.size(); i++) { Op o{4, (int)i, 0, 0}; apply(*g, o, U); m.V.push_back(U[i]); } };
        if (!overlay) grow();
        for (size_t k = 0; k < cur.size(); k++) {
            if (overlay && k == 1) below = m, top = make_shared<ModifiedGraph>(base), g = top.get(), grow();
            if (overlay && k == 0) { auto U0 = verts(S); bulk(*g, m, cur[k], U0); } // the base has no added vertices
            else bulk(*g, m, cur[k], U);
        }
        if (!agrees(*g, m, U, polys)) R.fail("", wrong + " after" + text);
        if (top && !agrees(*base, below, verts(S), polys)) R.fail("", "the base graph was altered: " + wrong + " after" + text);
    };
    go();
}

// ---- G05 -----------------------------------------------------------------------------------------------------------------
static void g05_base(const Scene &S, const vector<Pt> &U, const vector<int> &base_state, const vector<Op> &ops, int depth, int layers) {
    auto polys = PS(S);
    int n = verts(S).size();
    auto mk = [&](Model &m) {
        auto g = make_shared<Graph>(polys);
        m.V = verts(S);
        int k = 0;
        for (int a = 0; a < n; a++)
            for (int b = 0; b < n; b++) {
                if (a == b) continue;
                int s = base_state[k++ % base_state.size()];
                if (s & 1) g->add_directed_edge(C(U[a]), C(U[b]), false);
                if (s & 2) g->add_directed_edge(C(U[a]), C(U[b]), true);
                if (s) m.E[{a, b}] = s;
            }
        return g;
    };
    Model m0;
    auto base = mk(m0);
    vector<Op> cur;
    // layers > 1: another overlay is put on top after the first operation and edited from then on
    function<void(shared_ptr<ModifiedGraph>, Model)> rec = [&](shared_ptr<ModifiedGraph> g, Model m) {
        if ((int)cur.size() == depth) return;
        set<Pt> known(m.V.begin(), m.V.end());
        for (auto &o : ops) {
            if (o.kind < 4 && (!known.count(U[o.a]) || !known.count(U[o.b]))) continue;
            Model q = m;
            apply(q, o, U);
            shared_ptr<ModifiedGraph> h;
            if (layers > 1 && cur.size() == 1) h = make_shared<ModifiedGraph>(g);
            else h = make_shared<ModifiedGraph>(*g);
            apply(*h, o, U);
            cur.push_back(o);
            R.stats["transitions"]++, R.stats["traces_validated_against_impl"]++;
            if (!agrees(*h, q, U, polys)) R.fail("", "overlay differs from an edited copy: " + wrong + " after " + show(cur) + " on base " + m0.key());
            if (layers > 1 && cur.size() == 2 && !agrees(*g, m, U, polys)) R.fail("", "overlay alters the overlay below: " + wrong + " after " + show(cur) + " on base " + m0.key());
            rec(h, q);
            cur.pop_back();
        }
    };
    rec(make_shared<ModifiedGraph>(base), m0);
    R.stats["states"]++;
    if (!agrees(*base, m0, U, polys)) R.fail("", "the base graph was altered: " + wrong + " base " + m0.key());
    R.nontrivial();
    R.sample("all overlay edits of depth " + to_string(depth) + " on base " + m0.key() + (layers > 1 ? " in two layers" : ""));
}

// ---- G06 -----------------------------------------------------------------------------------------------------------------
struct GV { shared_ptr<Graph> g; string sem; };
static GV build(const Scene &S, const vector<array<int, 3>> &edges, bool back) {
    GV r{make_shared<Graph>(PS(S)), ""};
    auto V = verts(S);
    sort(V.begin(), V.end());
    map<pair<Pt, Pt>, int> E;
    auto es = edges;
    if (back) reverse(es.begin(), es.end());
    for (auto &e : es) {
        if (e[2] & 1) r.g->add_directed_edge(C(V[e[0]]), C(V[e[1]]), false);
        if (e[2] & 2) r.g->add_directed_edge(C(V[e[0]]), C(V[e[1]]), true);
        if (e[2]) E[{V[e[0]], V[e[1]]}] = e[2] == 2 ? 2 : 1;
    }
    for (auto &v : V) r.sem += str(v);
    for (auto &e : E) r.sem += "|" + str(e.first.first) + str(e.first.second) + to_string(e.second);
    return r;
}
static vector<vector<array<int, 3>>> edge_sets(int n, int states, size_t limit_edges) {
    vector<pair<int, int>> ps;
    for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (a != b) ps.push_back({a, b});
    vector<vector<array<int, 3>>> out;
    vector<array<int, 3>> cur;
    function<void(size_t)> rec = [&](size_t i) {
        out.push_back(cur);
        if (cur.size() == limit_edges) return;
        for (size_t k = i; k < ps.size(); k++)
            for (int s = 1; s <= states; s++) {
                cur.push_back({ps[k].first, ps[k].second, s});
                rec(k + 1);
                cur.pop_back();
            }
    };
    rec(0);
    return out;
}
static vector<Scene> listings(const Scene &S) {
    vector<Scene> r;
    vector<int> perm(S.size());
    for (size_t i = 0; i < perm.size(); i++) perm[i] = i;
    do
        for (size_t k = 0; k < 3; k++) {
            Scene T;
            for (int i : perm) {
                Poly P = S[i];
                rotate(P.begin(), P.begin() + k, P.end());
                T.push_back(P);
            }
            r.push_back(T);
        }
    while (next_permutation(perm.begin(), perm.end()));
    return r;
}
static void g06_compare(const GV &a, const GV &b) {
    bool want = a.sem == b.sem, e = *a.g == *b.g, e2 = *b.g == *a.g, ne = *a.g != *b.g;
    R.stats["comparisons"]++;
    if (e != want || e2 != want || ne == want) R.fail("", string("graphs that are ") + (want ? "the same" : "different") + " compare wrongly: " + a.sem + " and " + b.sem);
}
// other coordinates with the same hash as p
static vector<Pt> colliding(Pt p, size_t n) {
    vector<Pt> r;
    size_t h = hash<Coordinate>()(C(p));
    for (int64_t y = -90 * M; y <= 90 * M && r.size() < n; y += 7919) {
        size_t lh = (size_t)(int64_t)y;
        int64_t x = (int64_t)((h ^ lh) - 0x9e3779b9 - (lh << 6) - (lh >> 2));
        if (llabs(x) <= 180 * M && Pt{x, y} != p && hash<Coordinate>()(C({x, y})) == h) r.push_back({x, y});
    }
    for (int64_t y = p.y - 2000; y <= p.y + 2000 && r.size() < n; y++) {
        size_t lh = (size_t)(int64_t)y;
        int64_t x = (int64_t)((h ^ lh) - 0x9e3779b9 - (lh << 6) - (lh >> 2));
        if (llabs(x) <= 180 * M && Pt{x, y} != p && hash<Coordinate>()(C({x, y})) == h) r.push_back({x, y});
    }
    return r;
}

// ---- G01 -----------------------------------------------------------------------------------------------------------------
static void g01_case(const Scene &S, unsigned seed, bool big) {
    auto polys = PS(S);
    size_t n = verts(S).size();
    auto whole = VisgraphGenerator::generate(polys);
    bool cross_ = false;
    for (auto &a : verts(S)) for (auto &b : verts(S)) if (a != b && whole->is_edge_meridian_crossing(C(a), C(b))) cross_ = true;
    string ctx = " seed " + to_string(seed) + " scene " + str(S);
    map<pair<size_t, size_t>, shared_ptr<Graph>> part;
    for (size_t i = 0; i <= n; i++)
        for (size_t j = i; j <= n; j++) {
            part[{i, j}] = VisgraphGenerator::generate_with_shuffled_range(polys, i, j, seed);
            R.stats["ranges"]++;
        }
    for (auto &a : {make_pair(n, n + 1), make_pair((size_t)0, n + 1), make_pair((size_t)1, (size_t)0), make_pair(n, n - 1), make_pair(n + 1, n + 1), make_pair((size_t)-1, (size_t)0), make_pair((size_t)0, (size_t)-1)})
        if (!throws([&] { VisgraphGenerator::generate_with_shuffled_range(polys, a.first, a.second, seed); }))
            R.fail("", "range " + to_string(a.first) + ".." + to_string(a.second) + " accepted," + ctx);
    if (!(*part[{0, n}] == *whole)) R.fail("", "the full range differs from the whole graph," + ctx);
    for (size_t i = 0; i <= n; i++)
        for (auto &v : verts(S)) if (!part[{i, i}]->get_neighbors(C(v)).empty()) R.fail("", "empty range has edges," + ctx);
    // each vertex once: a single range is a star, and the edges of a range are those of its single ranges
    auto edges = [&](const Graph &g) {
        map<pair<Pt, Pt>, int> r;
        for (auto &a : verts(S)) for (auto &b : verts(S)) if (a != b && g.has_edge(C(a), C(b))) r[{a, b}] = g.is_edge_meridian_crossing(C(a), C(b)) ? 2 : 1;
        return r;
    };
    vector<map<pair<Pt, Pt>, int>> one(n);
    // the centres must be distinct vertices: search a perfect matching of single ranges to star centres
    vector<vector<int>> centre(n);
    auto vs = verts(S);
    for (size_t i = 0; i < n; i++) {
        one[i] = edges(*part[{i, i + 1}]);
        for (size_t c = 0; c < n; c++) {
            bool ok = true;
            for (auto &e : one[i]) ok &= e.first.first == vs[c] || e.first.second == vs[c];
            if (ok) centre[i].push_back(c);
        }
    }
    vector<int> owner(n, -1);
    function<bool(int, vector<char> &)> aug = [&](int i, vector<char> &vis) {
        for (int c : centre[i]) {
            if (vis[c]) continue;
            vis[c] = 1;
            if (owner[c] < 0 || aug(owner[c], vis)) { owner[c] = i; return true; }
        }
        return false;
    };
    for (size_t i = 0; i < n; i++) {
        vector<char> vis(n, 0);
        if (!aug(i, vis)) { R.fail("", "ranges of one vertex do not cover every vertex once," + ctx); break; }
    }
    for (auto &p : part) {
        map<pair<Pt, Pt>, int> u;
        for (size_t i = p.first.first; i < p.first.second; i++)
            for (auto &e : one[i]) { auto &x = u[e.first]; x = x == 1 || e.second == 1 ? 1 : 2; }
        if (u != edges(*p.second)) { R.fail("", "range " + to_string(p.first.first) + ".." + to_string(p.first.second) + " is not the union of its vertices," + ctx); break; }
        if (!(p.second->get_polygons() == polys)) R.fail("", "a part has other polygons," + ctx);
    }
    // every division into consecutive ranges (with all orders of merging for up to four parts, and empty parts)
    size_t divs = size_t(1) << (n - 1);
    for (size_t mask = 0; mask < divs; mask++) {
        if (big && __builtin_popcountll(mask) > 2 && mask + 1 != divs) continue;
        vector<shared_ptr<Graph>> ps;
        size_t from = 0;
        for (size_t i = 1; i <= n; i++)
            if (i == n || (mask >> (i - 1) & 1)) ps.push_back(part[{from, i}]), from = i;
        R.stats["divisions"]++;
        vector<int> perm(ps.size());
        for (size_t i = 0; i < perm.size(); i++) perm[i] = i;
        int orders = 0;
        do {
            vector<shared_ptr<Graph>> q;
            for (int i : perm) q.push_back(ps[i]);
            if (orders == 1) q.push_back(part[{n, n}]), q.insert(q.begin(), part[{0, 0}]);
            auto mg = merge_graphs(q);
            R.stats["merges"]++;
            if (!(*mg == *whole)) { R.fail("", "merging " + to_string(q.size()) + " parts gives another graph," + ctx); break; }
            multiset<size_t> hp, hw;
            auto mp = mg->get_polygons();
            for (auto &p : mp) hp.insert(hash<Polygon>()(p));
            for (auto &p : polys) hw.insert(hash<Polygon>()(p));
            if (hp != hw) R.fail("", "merging changes the polygons," + ctx);
        } while (++orders < (ps.size() <= 3 ? 6 : 2) && next_permutation(perm.begin(), perm.end()));
    }
    // merging must not disturb its inputs
    if (!(edges(*part[{0, 1}]) == one[0])) R.fail("", "merging alters a part," + ctx);
    if (cross_ || edges(*whole).size() > n) R.nontrivial();
    R.sample(ctx);
}

// Many vertices: division into ranges of every length, merged forwards and backwards
static void g01_large(const Scene &S, unsigned seed) {
    auto polys = PS(S);
    size_t n = verts(S).size();
    string ctx = " of " + to_string(n) + " vertices, seed " + to_string(seed) + " scene " + str(S);
    auto whole = VisgraphGenerator::generate(polys);
    R.nontrivial();
    R.sample(ctx);
    R.stats["most_vertices"] = max<uint64_t>(R.stats["most_vertices"], n);
    if (!(*VisgraphGenerator::generate_with_shuffled_range(polys, 0, n, seed) == *whole)) R.fail("", "the full range differs from the whole graph" + ctx);
    for (size_t len = 1; len < n; len = len < 12 || len > n - 4 ? len + 1 : len + max<size_t>(1, n / 12)) {
        vector<shared_ptr<Graph>> parts;
        for (size_t i = 0; i < n; i += len) parts.push_back(VisgraphGenerator::generate_with_shuffled_range(polys, i, min(n, i + len), seed));
        R.stats["divisions"]++;
        for (int back = 0; back < 2; back++) {
            R.stats["merges"]++;
            if (!(*merge_graphs(parts) == *whole)) R.fail("", "merging " + to_string(parts.size()) + " parts of length " + to_string(len) + " gives another graph" + ctx);
            reverse(parts.begin(), parts.end());
        }
    }
}

// Graphs of any maps: the merged graph has the polygons and the edges of all of them
struct Map { Scene S; vector<tuple<Pt, Pt, int>> e; shared_ptr<Graph> g; string name; };
static vector<Map> g01_maps() {
    Scene P{ccw({{0, 0}, {1000, 0}, {0, 1000}}), ccw({{179000000, 5}, {180000000, 5}, {179900000, 1000000}, {179500000, 1000000}}), ccw({{-180000000, -90000000}, {-179999999, -7}, {-180000000, 3}}),
            ccw({{5000, 0}, {6000, 0}, {5000, 1001}})};
    vector<Map> r;
    for (int m = 0; m < 16; m++) {
        Scene S;
        for (int i = 3; i >= 0; i--) if (m >> i & 1) S.push_back(P[i]);
        if (m & 2) reverse(S.begin(), S.end());
        auto V = verts(S);
        int n = V.size();
        for (int k = 0; k < 11; k++) {
            Map x{S, {}, make_shared<Graph>(PS(S)), to_string(m) + "/" + to_string(k)};
            if (k > 0 && n == 0) break;
            if (k > 0 && k < 10) {
                int a = k % 3 == 0 ? 0 : k % 3 == 1 ? n - 1 : 0, b = k % 3 == 0 ? 1 : k % 3 == 1 ? n - 2 : n - 1;
                x.e.push_back({V[a], V[b], 1 + (k - 1) / 3});
            }
            if (k == 10) for (int a = 0; a < n; a++) for (int b = 0; b < a; b++) if (int st = (V[a].x / 7 + V[a].y + V[b].x / 7 + V[b].y) & 3) x.e.push_back({V[a], V[b], st});
            for (auto &[a, b, st] : x.e) {
                if (st & 1) x.g->add_edge(C(a), C(b), false);
                if (st & 2) x.g->add_edge(C(b), C(a), true);
            }
            r.push_back(x);
        }
    }
    return r;
}
static void g01_union(const vector<const Map *> &ms) {
    vector<shared_ptr<Graph>> gs;
    set<Poly> want;
    set<Pt> V;
    map<pair<Pt, Pt>, int> E;
    string ctx = ", merging maps";
    for (auto *m : ms) {
        gs.push_back(m->g);
        ctx += " " + m->name;
        for (auto &P : m->S) { want.insert(P); for (auto &p : P) V.insert(p); }
        for (auto &[a, b, st] : m->e) {
            int c = st == 2 ? 2 : 1; // both ways counts as direct
            for (auto k : {make_pair(a, b), make_pair(b, a)}) { auto &x = E[k]; x = x == 1 || c == 1 ? 1 : 2; }
        }
    }
    auto g = merge_graphs(gs);
    R.stats["unions"]++;
    vector<Poly> have;
    for (auto &p : g->get_polygons()) {
        Poly q;
        for (auto &c : p.get_vertices()) q.push_back({c.get_longitude_microdegrees(), c.get_latitude_microdegrees()});
        have.push_back(q);
    }
    sort(have.begin(), have.end());
    if (have != vector<Poly>(want.begin(), want.end())) { R.fail("", "the polygons are not those of all maps" + ctx); return; }
    if (g->get_vertices().size() != V.size()) { R.fail("", "the vertices are not those of all maps" + ctx); return; }
    for (auto &a : V) for (auto &b : V) {
        int e = !g->has_edge(C(a), C(b)) ? 0 : g->is_edge_meridian_crossing(C(a), C(b)) ? 2 : 1;
        auto it = E.find({a, b});
        if (e != (it == E.end() ? 0 : it->second)) { R.fail("", "edge " + str(a) + "-" + str(b) + " is not that of the maps" + ctx); return; }
    }
}

int main(int argc, char **argv) {
    R.init(argc, argv);
    bool T = R.thorough;
    Scene tri1{{{0, 0}, {1000, 0}, {0, 1000}}};
    Scene two{{{0, 0}, {1000, 0}, {0, 1000}}, {{179000000, 5}, {180000000, 5}, {179500000, 1000000}}};
    if (R.prop == "G03") {
        vector<Pt> U = verts(tri1), U4 = U;
        U.push_back({5000, 5000});
        g03_bfs(tri1, U, ops_over(3, 3, true, 0), 99, "three vertices");       // all reachable states of three vertices
        U4.push_back({-180000000, 90000000}), U4.push_back({5000, 5000});
        g03_bfs(tri1, U4, ops_over(5, 3, true, 2), T ? 3 : 2, "three vertices and two added");
        g03_seqs(tri1, U4, ops_over(4, 3, true, 2), 3);
        auto U6 = verts(two);
        U6.push_back({7, 7});
        g03_bfs(two, U6, ops_over(7, 6, true, 1), 2, "two polygons and an added vertex");
        if (T) {
            g03_seqs(tri1, U, ops_over(4, 3, true, 1), 4);
            g03_bfs(two, U6, ops_over(7, 6, true, 1), 3, "two polygons, deeper");
        }
        large_runs({rim(33, false)}, 0, bulks({0, 1, 2, 4, 5, 6, 7}), 2, false);
        large_runs(islets(66, true), 3, bulks({0, 3, 5, 7}), 2, false);
        large_runs({rim(9, true)}, 120, bulks({0, 2, 6}), 2, false);
        large_runs({rim(257, true)}, 1, bulks({0, 6}), 2, false);
        large_runs(islets(270, false), 0, bulks({1, 4}), 2, false);
        if (T) {
            large_runs({rim(33, false)}, 0, bulks({0, 1, 2, 4, 6, 7}), 3, false);
            large_runs({rim(17, true)}, 300, bulks({0, 1, 2, 4, 5, 6, 7}), 2, false);
            large_runs({rim(600, true)}, 1, bulks({0, 6, 7}), 2, false);
        }
        return R.finish("breadth-first over the states of the reference map (merged) and all operation sequences (unmerged); one case = one state with every "
                        "operation applied to it, each replayed on a fresh real graph and every query compared; all cases are non-trivial");
    }
    if (R.prop == "G05") {
        vector<Pt> U = verts(tri1);
        U.push_back({5000, 5000}), U.push_back({-179999999, 3});
        auto o1 = ops_over(4, 3, true, 2), o2 = ops_over(5, 3, true, 2);
        vector<int> st(6);
        function<void(int, int, const function<void()> &)> all = [&](int i, int k, const function<void()> &f) {
            if (i == 6) { f(); return; }
            for (int s = 0; s < k; s++) st[i] = s, all(i + 1, k, f);
        };
        all(0, 4, [&] { if (R.take()) g05_base(tri1, U, st, o2, 2, 1); });      // every base graph on three vertices, depth 2
        for (auto b : vector<vector<int>>{{0}, {1}, {2}, {3}, {0, 1, 2, 3, 1, 2}, {2, 0, 3, 1, 0, 2}, {1, 0}, {0, 2}}) {
            if (R.take()) g05_base(tri1, U, b, o1, 3, 1);
            if (R.take()) g05_base(tri1, U, b, o1, 3, 2);
            if (T && R.take()) R.case_seconds = 600, alarm(600), g05_base(tri1, U, b, o1, 4, 1);
            if (T && R.take()) g05_base(tri1, U, b, o2, 3, 1);
        }
        if (T) all(0, 2, [&] { if (R.take()) g05_base(tri1, U, st, o1, 3, 1); });
        large_runs({rim(33, false)}, 2, bulks({0, 2, 6, 7}), 2, true);
        large_runs(islets(66, true), 0, bulks({0, 3, 5}), 2, true);
        large_runs({rim(9, true)}, 120, bulks({0, 2, 6}), 2, true);
        large_runs({rim(257, true)}, 2, bulks({0, 6}), 2, true);
        if (T) {
            large_runs({rim(33, false)}, 2, bulks({0, 1, 2, 4, 6, 7}), 3, true);
            large_runs({rim(300, true)}, 40, bulks({0, 2, 4, 5, 6, 7}), 2, true);
        }
        return R.finish("one case = one base graph (every assignment of the four edge states to the six ordered pairs of three vertices) with all overlay "
                        "operation sequences up to a depth, one and two layers; after every operation all queries are compared with an edited map; all non-trivial");
    }
    if (R.prop == "G06") {
        auto es3 = edge_sets(3, 3, 6);
        // 3 vertices: every graph against every graph with one difference, in all listings, and a full cross of the small ones
        Scene tt = tri1;
        auto L = listings(tt);
        auto small = edge_sets(3, 3, T ? 4 : 2);
        vector<GV> cache;
        for (auto &e : small) cache.push_back(build(L[0], e, false));
        for (size_t i = 0; i < small.size(); i++) {
            if (!R.take()) continue;
            for (size_t j = 0; j < small.size(); j++) g06_compare(cache[i], build(L[(i + j) % L.size()], small[j], j % 2));
            R.nontrivial();
            R.sample("all small graphs against " + cache[i].sem);
        }
        for (size_t i = 0; i < es3.size(); i++) {
            if (!R.take()) continue;
            auto a = build(L[0], es3[i], false);
            for (auto &l : L) for (bool back : {false, true}) g06_compare(a, build(l, es3[i], back));
            for (size_t k = 0; k < es3[i].size(); k++)
                for (int s = 0; s <= 3; s++) {
                    auto e = es3[i];
                    e[k][2] = s;
                    g06_compare(a, build(L[(i + k) % L.size()], e, true));
                    swap(e[k][0], e[k][1]);
                    g06_compare(a, build(L[(i + s) % L.size()], e, false));
                }
            R.nontrivial();
            R.sample("variants of " + a.sem);
        }
        // different vertex sets; moved by a microdegree; polygon split of the same vertices
        vector<Scene> scenes{tri1, two, {two[1]}, {two[1], two[0]}};
        for (int64_t d : {-1, 1})
            for (size_t k = 0; k < 3; k++) {
                Scene s = tri1;
                s[0][k].x += d;
                scenes.push_back(s);
                s = tri1;
                s[0][k].y += d;
                scenes.push_back(s);
            }
        scenes.push_back({{{0, 0}, {1000, 0}, {500, 300}, {0, 1000}}});
        for (size_t i = 0; i < scenes.size(); i++)
            for (size_t j = 0; j < scenes.size(); j++) {
                if (!R.take()) continue;
                for (auto &e : edge_sets(3, 2, 2)) g06_compare(build(scenes[i], e, false), build(scenes[j], e, true));
                R.nontrivial();
                R.sample(str(scenes[i]) + " against " + str(scenes[j]));
            }
        // moved by a microdegree, anywhere on the globe
        for (int64_t x : {-180 * M, -179999999 * 1L, -123456789L, -100000001L, -99999999L, -10000001L, -1000001L, -7L, 0L, 1L, 999999L, 10000001L, 77777777L, 100000000L, 111111111L, 150000001L, 179999998L, 180 * M})
            for (int64_t y : {-90 * M, -89999999L, -45000001L, -9999999L, -1L, 0L, 33333333L, 60000001L, 89999999L, 90 * M}) {
                if (!R.take()) continue;
                Pt p{x, y};
                auto at = [&](Pt v) { return Scene{ccw({v, {x > 0 ? x - 40 * M : x + 40 * M, y > 0 ? y - 3 * M : y + 2 * M}, {x > 0 ? x - 20 * M : x + 20 * M, y > 0 ? y - 50 * M : y + 50 * M}})}; };
                auto es = edge_sets(3, 2, 1);
                for (auto &e : es) g06_compare(build(at(p), e, false), build(at(p), e, true));
                for (int64_t dx = -1; dx <= 1; dx++) for (int64_t dy = -1; dy <= 1; dy++) {
                    Pt v{x + dx, y + dy};
                    if (v == p || llabs(v.x) > 180 * M || llabs(v.y) > 90 * M) continue;
                    for (auto &e : es) g06_compare(build(at(p), e, false), build(at(v), e, false));
                }
                R.nontrivial();
                R.sample("moved by a microdegree at " + str(p));
            }
        // coordinates sharing a hash value
        for (Pt p : vector<Pt>{{1000, 2000}, {-5000000, 33000000}, {170000000, -20000000}, {0, 0}, {12345678, 1}}) {
            auto c = colliding(p, 4);
            if (c.size() < 2) continue;
            for (size_t i = 0; i < c.size(); i++)
                for (size_t j = i + 1; j < c.size(); j++) {
                    Scene s{ccw({p, c[i], c[j]})};
                    if (!R.take()) continue;
                    R.stats["hash_collision_scenes"]++;
                    if (!simple(s[0])) continue;
                    auto ll = listings(s);
                    auto e2 = edge_sets(3, 2, 3);
                    for (auto &e : e2) for (size_t k = 0; k < ll.size(); k++) g06_compare(build(ll[0], e, false), build(ll[k], e, k % 2));
                    for (size_t u = 0; u < e2.size(); u++) g06_compare(build(ll[0], e2[u], false), build(ll[1], e2[(u * 7 + 1) % e2.size()], false));
                    R.nontrivial();
                    R.sample("same-hash vertices " + str(s));
                }
        }
        // two polygons: all pairs of graphs with at most one (two) edges
        auto e6 = edge_sets(6, 2, T ? 2 : 1);
        auto L6 = listings(two);
        for (size_t i = 0; i < e6.size(); i++) {
            if (!R.take()) continue;
            auto a = build(L6[0], e6[i], false);
            for (auto &l : L6) g06_compare(a, build(l, e6[i], true));
            for (size_t j = 0; j < e6.size(); j += (T ? 5 : 1)) g06_compare(a, build(L6[j % L6.size()], e6[j], false));
            R.nontrivial();
            R.sample("two polygons, " + a.sem);
        }
        // many vertices: a graph against itself with any one edge or mark other
        for (auto &S : T ? vector<Scene>{{rim(33, true)}, islets(66, false), {rim(129, false)}, {rim(257, true)}} : vector<Scene>{{rim(33, true)}, islets(66, false), {rim(129, false)}})
            for (int rule : {0, 2, 4, 7}) {
                auto U = verts(S);
                int k = U.size();
                if (rule == 7 && k > (T ? 70 : 40)) continue;
                for (int part = 0; part < 4; part++) {
                    if (!R.take()) continue;
                    R.nontrivial();
                    R.sample("one change to " + show(Bulk{0, rule, 0}) + " on " + to_string(k) + " vertices");
                    Model m;
                    m.V = U;
                    Scene S2 = S;
                    rotate(S2[0].begin(), S2[0].begin() + 1, S2[0].end());
                    reverse(S2.begin(), S2.end());
                    Graph a(PS(S)), b(PS(S2));
                    Model mb = m;
                    bulk(a, m, {0, rule, 0}, U), bulk(b, mb, {1, rule, 0}, U);
                    for (auto &e : map<pair<int, int>, int>(mb.E)) if (!m.get(e.first.first, e.first.second)) b.remove_directed_edge(C(U[e.first.first]), C(U[e.first.second]));
                    auto expect = [&](bool same, const string &what) {
                        R.stats["comparisons"]++;
                        if ((a == b) != same || (b == a) != same || (a != b) == same) R.fail("", string("graphs that are ") + (same ? "the same" : "different by " + what) + " compare wrongly, " + show(Bulk{0, rule, 0}) + " on " + to_string(k) + " vertices");
                    };
                    expect(true, "");
                    for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) {
                        if (i == j || (i + j) % 4 != part || (k > 40 && i % 13 && j % 7 && i != k - 1 && j != k - 1)) continue;
                        Coordinate x = C(U[i]), y = C(U[j]);
                        string w = "an edge " + to_string(i) + "->" + to_string(j);
                        if (m.get(i, j)) {
                            b.remove_directed_edge(x, y), expect(false, w);
                            b.add_directed_edge(x, y, true), expect(false, w + " marked");
                            b.add_directed_edge(x, y, false), expect(true, "");
                        } else {
                            b.add_directed_edge(x, y, (i + j) % 8 > 3), expect(false, w);
                            b.remove_directed_edge(x, y), expect(true, "");
                        }
                    }
                }
            }
        return R.finish("one case = one graph compared (==, !=, both directions) with every graph of a family in other listings and insertion orders; "
                        "equality expected exactly when vertices, edges and marks coincide; all cases are non-trivial");
    }
    if (R.prop == "G01") {
        auto trig = [](const Grid &g) { return polygons_on(g.points(), 3); };
        vector<unsigned> seeds{0, 1, 42};
        if (T) seeds = {0, 1, 2, 3, 42, 4294967295u};
        auto run = [&](const Scene &S) { for (auto s : seeds) if (R.take()) g01_case(S, s, verts(S).size() > 7); };
        Grid a{3, 3, 1000, 1000, -500, 0, 0}, w{3, 3, 150 * M, 70 * M, -170 * M, -80 * M, 1}, e{4, 3, 10 * M, 40 * M, 165 * M, -60 * M, 0};
        for (auto *g : {&a, &w}) for (int n = 3; n <= 6; n++) single(polygons_on(g->points(), n), run);
        for (auto g : {Grid{3, 3, 1000, 1000, 0, 0, 1}, w, Grid{4, 2, 110 * M, 100 * M, -170 * M, -50 * M, 0}, Grid{4, 2, 500, 900, 0, 0, 1}}) pairs(trig(g), trig(g), true, run);
        structured(1000, 0, 0, 2, [&](const Scene &S) { if (verts(S).size() <= 12) run(S); });
        if (T) {
            Grid p{4, 3, 1000, 1000, 0, 0, 1}, q{4, 3, 100 * M, 60 * M, -170 * M, -60 * M, 1};
            for (auto &g : {p, q}) pairs(trig(g), trig(g), true, run);
            Grid c{8, 8, 900, 1100, -3000, 500, 1};
            unit_sets(c, 2, 2, 3, run);
        }
        { // land that touches other land
            auto rt = [&](const Scene &S) { for (unsigned x : {0u, 42u}) if (R.take()) g01_case(S, x, verts(S).size() > 7); };
            int k = 0;
            for (auto *g : {&a, &w}) touching(trig(*g), trig(*g), true, [&](const Scene &S) { if (T || k++ % 9 == 0) rt(S); });
            touching_triples(trig(a), [&](const Scene &S) { if (T ? k++ % 30 == 0 : k++ % 400 == 0) rt(S); });
        }
        R.case_seconds = 90;
        for (unsigned x : {7u, 4294967295u}) { // many vertices
            auto rl = [&](const Scene &S) { if (verts(S).size() > 12 && R.take()) g01_large(S, x); };
            structured(1000, 0, 0, T ? 6 : 3, rl);
            for (int k : {17, 33, 40, 65}) rl({rim(k, k % 2)});
            for (int k : {18, 66, 130}) if (T || x == 7) rl(islets(k, false));
            rl(islets(60, true));
        }
        { // graphs of any maps
            auto maps = g01_maps();
            for (size_t i = 0; i < maps.size(); i++) {
                if (!R.take()) continue;
                R.nontrivial();
                R.sample("merging map " + maps[i].name + " with every other one, and with two");
                for (size_t j = 0; j < maps.size(); j++) {
                    g01_union({&maps[i], &maps[j]});
                    for (size_t k = (i + j) % 7; k < maps.size(); k += T ? 7 : 35) g01_union({&maps[j], &maps[i], &maps[k]});
                }
            }
        }
        { // maps of many polygons, some of many corners
            Scene tris, rims, all;
            for (int64_t k = 0; k < 140; k++) tris.push_back(ccw({{k % 20 * 5000 + k, k / 20 * 5000 - k}, {k % 20 * 5000 + 1000 + k, k / 20 * 5000}, {k % 20 * 5000, k / 20 * 5000 + 1000 + k}}));
            for (int k = 0; k < 4; k++) { Poly P = rim(65 + 5 * k, false); for (auto &p : P) p.x += (k - 2) * 40 * M, p.y += 20 * M; rims.push_back(P); }
            vector<Map> maps;
            auto add = [&](Scene S, const char *name) {
                Map x{S, {}, make_shared<Graph>(PS(S)), name};
                auto V = verts(S);
                for (size_t i = 0; i < V.size(); i++) for (size_t j : {i + 1, i * i % V.size()}) if (j > i && j < V.size() && (V[i].x + V[j].y) % 3) x.e.push_back({V[i], V[j], 1});
                for (auto &e : x.e) x.g->add_edge(C(get<0>(e)), C(get<1>(e)), false);
                maps.push_back(x);
            };
            all = tris, all.insert(all.end(), rims.begin(), rims.end());
            add(all, "triangles and rims"), add(tris, "triangles"), add(rims, "rims");
            add(Scene(all.begin(), all.begin() + 64), "first 64"), add(Scene(all.begin() + 64, all.end()), "from the 65th on"), add(Scene(all.rbegin(), all.rbegin() + 90), "last 90");
            for (size_t i = 0; i < maps.size(); i++) for (size_t j = 0; j < maps.size(); j++) {
                if (!R.take()) continue;
                R.nontrivial();
                R.sample("merging map " + maps[i].name + " with " + maps[j].name);
                g01_union({&maps[i], &maps[j]});
                if (i < j) g01_union({&maps[j], &maps[(i + j) % maps.size()], &maps[i], &maps[0]});
            }
        }
        // an empty scene, and one vertex range
        if (R.take()) {
            if (!(*VisgraphGenerator::generate_with_shuffled_range({}, 0, 0, 1) == *VisgraphGenerator::generate({}))) R.fail("", "graphs of nothing differ");
            if (merge_graphs({})->get_vertices().size()) R.fail("", "merging nothing gives vertices");
        }
        return R.finish("one case = one scene and seed with every range, every division into consecutive ranges (up to three parts for more than seven vertices) "
                        "and several merge orders; non-trivial = more edges than vertices or an edge across the antimeridian");
    }
    return 3;
}
