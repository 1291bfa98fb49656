// P01-P05: path computation against exact visibility and a brute-force shortest route.
#include "common/capi.hpp"
#include "common/report.hpp"
#include "common/scenes.hpp"
#include "common/sphere.hpp"
#include "shortest_path/shortest_path_computer.hpp"
#include <memory>
using namespace std;
static const int64_t M = 1000000;
static const double EPS = 1e-9;

// ---- exact description of a scene -----------------------------------------------------------------------------------------
static double len_deg(int64_t dx, int64_t dy) { return 1e-6 * sqrt((double)((long double)dx * dx + (long double)dy * dy)); }
static double cyl(Pt a, Pt b) { // shortest way on the rolled-up plane
    int64_t dx = llabs(a.x - b.x);
    return len_deg(min<int64_t>(dx, llabs(PER - dx)), a.y - b.y);
}
static bool near_line(const Scene &S3, Pt p, Pt q, double tol) { // is some other vertex within tol microdegrees of the line?
    for (auto &P : S3) for (auto &v : P) {
        if (v == p || v == q) continue;
        double dx = q.x - p.x, dy = q.y - p.y, t = ((v.x - p.x) * dx + (v.y - p.y) * dy) / (dx * dx + dy * dy);
        t = max(0.0, min(1.0, t));
        if (hypot(p.x + t * dx - v.x, p.y + t * dy - v.y) < tol) return true;
    }
    return false;
}
struct Way { LOS direct, over, far_; double dlen, olen; };
static Way ways(const Scene &S3, Pt p, Pt q) {
    Way w;
    int64_t dx = q.x - p.x, dy = q.y - p.y;
    Pt n{dx > 0 ? q.x - PER : q.x + PER, q.y}, f{dx > 0 ? q.x + PER : q.x - PER, q.y};
    w.direct = los(S3, p, q), w.over = los(S3, p, n), w.far_ = los(S3, p, f);
    if (dx == 0) w.over = max(w.over, w.far_);
    w.dlen = len_deg(dx, dy), w.olen = len_deg(n.x - p.x, dy);
    return w;
}
// p is well clear of the great-circle outline of P and not inside it
static bool off_on_sphere(const Poly &P, Pt p) {
    long double wind = 0, mind = 9;
    V3 q = sph(p);
    for (size_t i = 0; i < P.size(); i++) {
        V3 a = sph(P[i]), b = sph(P[(i + 1) % P.size()]);
        mind = min(mind, segdist(q, a, b));
        V3 u = cr(q, a), v = cr(q, b);
        wind += atan2l(dot(cr(u, v), q), dot(u, v));
    }
    return mind > 1e-6L && fabsl(wind) < 1;
}
static bool sea_on_sphere(const Scene &S, Pt p) {
    for (auto &P : S) if (!off_on_sphere(P, p)) return false;
    return true;
}
// a world-wide scene has the same outlines on the sphere as in the plane, if more curved
static bool same_on_sphere(const Scene &S) {
    for (auto &P : S) {
        for (size_t i = 0; i < P.size(); i++) if (llabs(P[i].x - P[(i + 1) % P.size()].x) >= 179 * M) return false;
        for (auto &Q : S) if (&P != &Q) for (auto &v : Q) if (!off_on_sphere(P, v)) return false;
    }
    return true;
}
struct World {
    Scene S, S3;
    vector<Pt> N;   // nodes: the vertices, then the query points
    size_t nv;
    vector<vector<Way>> W;
    shared_ptr<Graph> g;
    unique_ptr<ShortestPathComputer> spc;
    bool planar_only = false;  // world-scale scene: straight and great-circle lines differ
    // frame: longitudes run on beyond the antimeridian; the code is given everything folded into range
    World(const Scene &s, const vector<Pt> &q, bool planar = false, bool frame = false) : S(s), S3(periodic(s)), planar_only(planar) {
        N = verts(S);
        sort(N.begin(), N.end());
        N.erase(unique(N.begin(), N.end()), N.end());
        nv = N.size();
        set<Pt> seen(N.begin(), N.end());
        for (auto &p : q) {
            if (!frame && (p.x < -180 * M || p.x > 180 * M)) continue;
            bool sea = true;
            for (auto &P : S) sea &= inpoly(P, p) < 0;
            if (sea && seen.insert(p).second && (!planar || sea_on_sphere(S, p))) N.push_back(p);
        }
        W.assign(N.size(), vector<Way>(N.size()));
        for (size_t i = 0; i < N.size(); i++)
            for (size_t j = 0; j < N.size(); j++)
                if (i != j) {
                    W[i][j] = ways(S3, N[i], N[j]);
                    // the one-leg test works on the sphere, where the antimeridian is a microdegree narrower
                    if (i >= nv && j >= nv && W[i][j].over != TOUCH) {
                        int64_t dx = N[j].x - N[i].x;
                        if (llabs(dx) > PER / 2 && near_line(S3, N[i], {dx > 0 ? N[j].x - PER : N[j].x + PER, N[j].y}, 5)) W[i][j].over = TOUCH;
                    }
                }
        Scene F = S;
        for (auto &P : F) if (frame && P[0].x > 180 * M) for (auto &p : P) p.x -= PER;
        g = VisgraphGenerator::generate(PS(F));
        spc = make_unique<ShortestPathComputer>(g);
    }
};
// a pair of sea points may only be joined in one leg along the shorter way round the world
enum Sem { TRUE_COST, FLAG_COST, FAR_TOO };
static double leg(const World &w, size_t i, size_t j, LOS need, Sem sem) {
    const Way &y = w.W[i][j];
    bool both_sea = i >= w.nv && j >= w.nv;
    double c = INFINITY;
    bool dshort = y.dlen <= y.olen;
    if (both_sea) {
        if (w.planar_only) return c;
        if (y.direct >= need && (dshort || need == TOUCH)) c = min(c, y.dlen);
        if (y.over >= need && (!dshort || need == TOUCH)) c = min(c, y.olen);
        return c;
    }
    bool dir = y.direct >= need, ov = y.over >= need;
    if (sem == FLAG_COST) { // an edge visible both ways is costed by its direct length
        if (y.direct != BLOCKED && (dir || ov)) return y.dlen;
        return ov ? y.olen : c;
    }
    if (dir) c = min(c, y.dlen);
    if (ov) c = min(c, y.olen);
    if (sem == FAR_TOO && y.far_ >= need) c = min(c, y.olen);
    return c;
}
// least length from s to d through vertices allowed by the filter
static double best(const World &w, size_t s, size_t d, LOS need, Sem sem, const vector<char> *ok = nullptr) {
    if (s == d) return 0;
    vector<double> dist(w.N.size(), INFINITY);
    vector<char> done(w.N.size(), 0);
    dist[s] = 0;
    for (;;) {
        size_t u = w.N.size();
        for (size_t i = 0; i < w.N.size(); i++)
            if (!done[i] && dist[i] < INFINITY && (u == w.N.size() || dist[i] < dist[u])) u = i;
        if (u == w.N.size()) return INFINITY;
        if (u == d) return dist[u];
        done[u] = 1;
        for (size_t v = 0; v < w.N.size(); v++) {
            if (done[v] || v == u || (v >= w.nv && v != d) || (ok && !(*ok)[v])) continue;
            double c = leg(w, u, v, need, sem);
            if (dist[u] + c < dist[v]) dist[v] = dist[u] + c;
        }
    }
}
struct Ans { bool ok; vector<Pt> path; string err; };
static Ans ask(const ShortestPathComputer &c, Pt s, Pt d, double lim, bool corr, double w) {
    Ans a;
    try {
        for (auto &p : c.shortest_path(C(s), C(d), lim, corr, w)) a.path.push_back(P_(p));
        a.ok = true;
    } catch (const exception &e) { a.ok = false; a.err = e.what(); }
    R.stats["queries"]++;
    return a;
}
static string show(const Ans &a) { if (!a.ok) return "error " + a.err; string s; for (auto &p : a.path) s += str(p); return s; }
static int node(const World &w, Pt p) { for (size_t i = 0; i < w.N.size(); i++) if (w.N[i] == p) return i; return -1; }
static double path_cost(const World &w, const vector<Pt> &p) {
    double c = 0;
    for (size_t k = 0; k + 1 < p.size(); k++) {
        int i = node(w, p[k]), j = node(w, p[k + 1]);
        if (i < 0 || j < 0 || i == j) return NAN;
        const Way &y = w.W[i][j];
        double l = INFINITY;
        if (y.direct != BLOCKED) l = y.dlen;
        if (y.over != BLOCKED) l = min(l, y.olen);
        if (l == INFINITY) l = y.far_ != BLOCKED ? y.olen : cyl(p[k], p[k + 1]);
        c += l;
    }
    return c;
}
static bool far_only_leg(const World &w, const vector<Pt> &p) {
    for (size_t k = 0; k + 1 < p.size(); k++) {
        int i = node(w, p[k]), j = node(w, p[k + 1]);
        if (i < 0 || j < 0 || i == j) continue;
        const Way &y = w.W[i][j];
        if (y.direct == BLOCKED && y.over == BLOCKED && y.far_ != BLOCKED) return true;
    }
    return false;
}
static string ctx(const World &w, Pt s, Pt d, const Ans &a, double wt = 1) {
    char b[40];
    snprintf(b, sizeof b, " weighting %g", wt);
    return " from " + str(s) + " to " + str(d) + b + " scene " + str(w.S) + ": " + show(a);
}

// ---- P01 -------------------------------------------------------------------------------------------------------------------
static void p01(const World &w, size_t i, size_t j, Pt s, Pt d, double wt) {
    auto a = ask(*w.spc, s, d, INFINITY, false, wt);
    if (!a.ok) return;
    Pt fs = w.N[i], fd = w.N[j];
    if (a.path.empty() || a.path.front() != fs || a.path.back() != fd) { R.fail("", "path does not join its ends" + ctx(w, s, d, a, wt)); return; }
    if (i == j) return;
    set<Pt> uniq(a.path.begin(), a.path.end());
    if (uniq.size() != a.path.size()) R.fail("", "a point occurs twice" + ctx(w, s, d, a, wt));
    for (size_t k = 1; k + 1 < a.path.size(); k++)
        if (int n = node(w, a.path[k]); n < 0 || n >= (int)w.nv) R.fail("", "an intermediate point is no land vertex" + ctx(w, s, d, a, wt));
    for (size_t k = 0; k + 1 < a.path.size(); k++) {
        int p = node(w, a.path[k]), q = node(w, a.path[k + 1]);
        if (p < 0 || q < 0 || p == q) continue;
        const Way &y = w.W[p][q];
        if (y.direct == BLOCKED && y.over == BLOCKED) {
            R.fail(y.far_ != BLOCKED ? "beyond-one-revolution" : "", "leg " + str(a.path[k]) + "-" + str(a.path[k + 1]) + " crosses land" + ctx(w, s, d, a, wt));
            break;
        }
    }
    R.stats["paths_checked"]++;
    if (a.path.size() > 2) R.nontrivial();
    R.stats["max_points"] = max<uint64_t>(R.stats["max_points"], a.path.size());
}
// ---- P02 -------------------------------------------------------------------------------------------------------------------
static void p02(const World &w, size_t i, size_t j) {
    double hi = best(w, i, j, CLEAR, TRUE_COST), lo = best(w, i, j, TOUCH, TRUE_COST), fl = best(w, i, j, CLEAR, FLAG_COST), fr = best(w, i, j, TOUCH, FAR_TOO);
    bool sea_pair = w.planar_only && i >= w.nv && j >= w.nv;
    if (sea_pair) return;
    double back = NAN;
    for (double wt : {0.0, 0.5, 1.0, 1.5, 3.0}) {
        auto a = ask(*w.spc, w.N[i], w.N[j], INFINITY, false, wt);
        if (!a.ok) {
            if (hi < INFINITY) R.fail("", "no path although there is one of " + to_string(hi) + ctx(w, w.N[i], w.N[j], a, wt));
            continue;
        }
        double c = path_cost(w, a.path), bound = max(1.0, wt);
        R.stats["lengths_compared"]++;
        if (a.path.size() > 2) R.nontrivial();
        if (wt == 1) {
            auto b = ask(*w.spc, w.N[j], w.N[i], INFINITY, false, wt);
            back = b.ok ? path_cost(w, b.path) : INFINITY;
            if (!(fabs(back - c) <= EPS * (1 + c)) && !(far_only_leg(w, a.path) || far_only_leg(w, b.path)))
                R.fail("", "swapping the ends changes the length from " + to_string(c) + " to " + to_string(back) + ctx(w, w.N[i], w.N[j], a, wt));
        }
        if (c < lo - EPS * (1 + lo)) {
            string key = c >= fr - EPS * (1 + fr) && far_only_leg(w, a.path) ? "beyond-one-revolution" : "";
            R.fail(key, "path shorter than any route, " + to_string(c) + " < " + to_string(lo) + ctx(w, w.N[i], w.N[j], a, wt));
        }
        if (!(c <= bound * hi + EPS * (1 + hi))) {
            string key = fl > hi + EPS * (1 + hi) && c <= bound * fl + EPS * (1 + fl) ? "both-ways-cost" : far_only_leg(w, a.path) ? "beyond-one-revolution" : "";
            R.fail(key, "path of " + to_string(c) + " although one of " + to_string(hi) + " exists" + ctx(w, w.N[i], w.N[j], a, wt));
        }
    }
}
// ---- P04 -------------------------------------------------------------------------------------------------------------------
static void p04(const World &w, size_t i, size_t j) {
    if (w.planar_only && i >= w.nv && j >= w.nv) return;
    auto free_ = ask(*w.spc, w.N[i], w.N[j], INFINITY, false, 1);
    set<double> lims{0, 1e-7, 1e9, 720};
    for (size_t k = 0; k < w.nv; k++) { double d = cyl(w.N[i], w.N[k]); for (double f : {1 - 1e-7, 1.0, 1 + 1e-7}) lims.insert(d * f); }
    { double d = cyl(w.N[i], w.N[j]); for (double f : {0.5, 1 - 1e-7, 1.0, 1 + 1e-7}) lims.insert(d * f); }
    // a distance along one axis that comes out as the same double however it is worked out is a limit to be met exactly:
    // what lies at the limit lies within it
    map<double, set<size_t>> at;
    for (size_t k = 0; k < w.N.size(); k++) {
        int64_t dx = llabs(w.N[i].x - w.N[k].x), dy = llabs(w.N[i].y - w.N[k].y), m = max(dx, dy);
        if (min(dx, dy) != 0 || m == 0 || dx > 170 * M) continue;
        double p = dx ? w.N[i].x : w.N[i].y, q = dx ? w.N[k].x : w.N[k].y, d = m / 1e6;
        if (1e-6 * m == d && fabs(1e-6 * p - 1e-6 * q) == d && fabs(p / 1e6 - q / 1e6) == d && sqrt(d * d) == d) at[d].insert(k);
    }
    for (auto &x : at) lims.insert(x.first);
    if (!at.empty()) lims.insert({-at.begin()->first, -at.rbegin()->first}); // nothing lies within a negative limit
    lims.insert({-1e-7, -1e9, -INFINITY});
    for (double lim : lims) {
        vector<char> in(w.N.size()), sure(w.N.size());
        for (size_t k = 0; k < w.N.size(); k++) { double d = cyl(w.N[i], w.N[k]); in[k] = d <= lim * (1 + 1e-9) + 1e-12; sure[k] = d < lim * (1 - 1e-9); }
        if (at.count(lim)) { for (size_t k : at[lim]) sure[k] = true; R.stats["exact_limits"]++; }
        double hi = sure[j] ? best(w, i, j, CLEAR, TRUE_COST, &sure) : INFINITY, lo = in[j] ? best(w, i, j, TOUCH, TRUE_COST, &in) : INFINITY;
        double fl = sure[j] ? best(w, i, j, CLEAR, FLAG_COST, &sure) : INFINITY;
        auto a = ask(*w.spc, w.N[i], w.N[j], lim, false, 1);
        R.stats["limits_tried"]++;
        string c0 = " limit " + to_string(lim) + ctx(w, w.N[i], w.N[j], a);
        bool straight = max(w.W[i][j].direct, w.W[i][j].over) != BLOCKED; // may be answered in one leg whatever the limit
        if (lim >= 720 && (a.ok != free_.ok || a.path != free_.path)) { R.fail("", "a limit beyond every distance changes the answer" + c0); continue; }
        if (!a.ok) { if (hi < INFINITY) R.fail("", "no path although there is one within the limit" + c0); continue; }
        if (a.path.size() == 2 && straight) continue;
        for (auto &p : a.path) if (cyl(w.N[i], p) > lim * (1 + 1e-9) + 1e-12) { R.fail(far_only_leg(w, a.path) ? "beyond-one-revolution" : "", "a point of the path lies beyond the limit" + c0); break; }
        double c = path_cost(w, a.path);
        if (a.path.size() > 2) R.nontrivial();
        if (c < lo - EPS * (1 + lo)) R.fail(far_only_leg(w, a.path) ? "beyond-one-revolution" : "", "path shorter than any within the limit" + c0);
        if (!(c <= hi + EPS * (1 + hi))) R.fail(fl > hi + EPS && c <= fl + EPS * (1 + fl) ? "both-ways-cost" : "", "path of " + to_string(c) + " although one of " + to_string(hi) + " within the limit exists" + c0);
    }
}
// ---- P05 -------------------------------------------------------------------------------------------------------------------
static map<pair<Pt, Pt>, int> edges(const Graph &g, const vector<Pt> &v) {
    map<pair<Pt, Pt>, int> r;
    for (auto &a : v) for (auto &b : v) if (a != b && g.has_edge(C(a), C(b))) r[{a, b}] = g.is_edge_meridian_crossing(C(a), C(b)) ? 2 : 1;
    return r;
}
static void p05(const World &w, const vector<pair<Pt, Pt>> &pool, int maxlen, const vector<int> &lens = {17, 64}) { // lens: long batches
    auto v = verts(w.S);
    auto before = edges(*w.g, v);
    struct Par { double lim; bool corr; double wt; };
    vector<Par> pars{{INFINITY, false, 1}, {INFINITY, true, 1}, {INFINITY, true, 2.5}, {0.0031, false, 1}, {0.0031, true, 0}};
    map<pair<int, int>, Ans> single;
    for (size_t q = 0; q < pars.size(); q++)
        for (size_t k = 0; k < pool.size(); k++) {
            single[{q, k}] = ask(*w.spc, pool[k].first, pool[k].second, pars[q].lim, pars[q].corr, pars[q].wt);
            auto &a = single[{q, k}];
            // asked of a computer that has answered nothing else
            if (q == 0 || k == 0) {
                ShortestPathComputer fresh(w.g);
                auto b = ask(fresh, pool[k].first, pool[k].second, pars[q].lim, pars[q].corr, pars[q].wt);
                if (a.ok != b.ok || a.path != b.path || a.err != b.err) R.fail("", "the answer depends on earlier questions" + ctx(w, pool[k].first, pool[k].second, a) + " against " + show(b));
            }
        }
    vector<int> seq;
    bool mixed = false;
    function<void()> run = [&]() {
        vector<pair<Coordinate, Coordinate>> req;
        for (int k : seq) req.push_back({C(pool[k].first), C(pool[k].second)});
        for (size_t q = 0; q < pars.size(); q++) {
            vector<BatchInterpolateResult> r;
            try { r = w.spc->shortest_paths(req, pars[q].lim, pars[q].corr, pars[q].wt); } catch (const exception &e) { R.fail("", string("the batch call itself fails: ") + e.what()); return; }
            R.stats["batches"]++;
            string c0 = "; batch of " + to_string(seq.size()) + " parameters " + to_string(q) + " scene " + str(w.S);
            if (r.size() != seq.size()) { R.fail("", "the batch has " + to_string(r.size()) + " results" + c0); return; }
            bool good = false, bad = false;
            for (size_t k = 0; k < seq.size(); k++) {
                auto &a = single[{(int)q, seq[k]}];
                (a.ok ? good : bad) = true;
                string one = "item " + to_string(k) + " " + str(pool[seq[k]].first) + "-" + str(pool[seq[k]].second);
                if (r[k].path.has_value() != a.ok || r[k].error_msg.has_value() == a.ok) { R.fail("", one + (a.ok ? " lost" : " has no error") + c0); continue; }
                if (!a.ok) { if (*r[k].error_msg != a.err) R.fail("", one + " reports '" + *r[k].error_msg + "' instead of '" + a.err + "'" + c0); continue; }
                vector<Pt> p;
                for (auto &x : *r[k].path) p.push_back(P_(x));
                if (p != a.path) R.fail("", one + " has another path" + c0);
            }
            mixed |= good && bad;
        }
    };
    function<void(int)> rec = [&](int left) {
        run();
        if (!left) return;
        for (size_t k = 0; k < pool.size(); k++) { seq.push_back(k); rec(left - 1); seq.pop_back(); }
    };
    rec(maxlen);
    for (int n : lens) {
        seq.clear();
        for (int k = 0; k < n; k++) seq.push_back((k * 7 + k / 5) % pool.size());
        run();
    }
    for (size_t q = 0; q < pars.size(); q++)
        for (size_t k = 0; k < pool.size(); k++) {
            auto b = ask(*w.spc, pool[k].first, pool[k].second, pars[q].lim, pars[q].corr, pars[q].wt);
            auto &a = single[{q, k}];
            if (a.ok != b.ok || a.path != b.path || a.err != b.err) R.fail("", "an answer changed after batches" + ctx(w, pool[k].first, pool[k].second, b));
        }
    if (edges(*w.g, v) != before || w.g->get_vertices().size() != v.size()) R.fail("", "queries changed the graph, scene " + str(w.S));
    if (mixed) R.nontrivial();
    R.sample("batches over " + to_string(pool.size()) + " requests on " + str(w.S));
}

// ---- P06 -------------------------------------------------------------------------------------------------------------------
// Any graph whatever on the vertices of some land: the search between two of them is a shortest path problem on that graph.
struct Net {
    vector<Pt> v;
    vector<vector<char>> e; // 0 none, 1 direct, 2 over the antimeridian, 3 both (counts as direct)
    double cost(size_t i, size_t j) const {
        int64_t dx = llabs(v[i].x - v[j].x);
        return len_deg(e[i][j] == 2 ? min<int64_t>(llabs(dx - PER), dx + PER) : dx, v[i].y - v[j].y);
    }
    double best(size_t s, size_t d, double lim) const {
        vector<double> dist(v.size(), INFINITY);
        vector<char> done(v.size());
        dist[s] = 0;
        for (;;) {
            size_t u = v.size();
            for (size_t i = 0; i < v.size(); i++) if (!done[i] && dist[i] < INFINITY && (u == v.size() || dist[i] < dist[u])) u = i;
            if (u == v.size()) return INFINITY;
            if (u == d) return dist[u];
            done[u] = 1;
            for (size_t k = 0; k < v.size(); k++) if (e[u][k] && cyl(v[s], v[k]) <= lim) dist[k] = min(dist[k], dist[u] + cost(u, k));
        }
    }
    string show() const {
        string r;
        if (v.size() > 12) return " of a large graph on";
        for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < v.size(); j++) if (e[i][j] && (i < j || e[j][i] != e[i][j])) r += " " + to_string(i) + (e[j][i] == e[i][j] ? "-" : ">") + to_string(j) + (e[i][j] == 2 ? "*" : "");
        return r + " on";
    }
};
static void p06_ask(const Net &n, const ShortestPathComputer &spc, size_t s, size_t d, double lim, double wt) {
    auto a = ask(spc, n.v[s], n.v[d], lim, false, wt);
    auto text = [&] { string t; for (auto &p : n.v) t += str(p); char b[80]; snprintf(b, sizeof b, " from %zu to %zu, weighting %g limit %g: ", s, d, wt, lim); return " on edges" + n.show() + t + b + show(a); };
    double want = n.best(s, d, lim), bound = max(1.0, wt);
    R.stats["searches"]++;
    if (!a.ok) { if (want < INFINITY) R.fail("", "no path although there is one of " + to_string(want) + text()); return; }
    if (a.path.empty() || a.path.front() != n.v[s] || a.path.back() != n.v[d]) { R.fail("", "path does not join its ends" + text()); return; }
    double c = 0;
    for (size_t k = 0; k + 1 < a.path.size(); k++) {
        size_t i = find(n.v.begin(), n.v.end(), a.path[k]) - n.v.begin(), j = find(n.v.begin(), n.v.end(), a.path[k + 1]) - n.v.begin();
        if (i >= n.v.size() || j >= n.v.size() || !n.e[i][j]) { R.fail("", "path leaves the edges of the graph" + text()); return; }
        c += n.cost(i, j);
    }
    set<Pt> uniq(a.path.begin(), a.path.end());
    if (uniq.size() != a.path.size()) R.fail("", "a point occurs twice" + text());
    if (want == INFINITY) R.fail("", "a path although there is none" + text());
    else if (c > bound * want + EPS * (1 + want)) R.fail("", "path of " + to_string(c) + " although one of " + to_string(want) + " exists" + text());
    if (a.path.size() > 2) R.nontrivial();
    R.stats["max_points"] = max<uint64_t>(R.stats["max_points"], a.path.size());
}
static void p06_net(const Scene &S, const Net &n, bool ends_only = false) {
    auto g = make_shared<Graph>(PS(S));
    for (size_t i = 0; i < n.v.size(); i++) for (size_t j = 0; j < n.v.size(); j++) {
        if (n.e[i][j] & 1) g->add_directed_edge(C(n.v[i]), C(n.v[j]), false);
        if (n.e[i][j] & 2) g->add_directed_edge(C(n.v[i]), C(n.v[j]), true);
    }
    ShortestPathComputer spc(g);
    size_t last = n.v.size() - 1;
    R.stats["graphs"]++;
    for (size_t s = 0; s <= last; s++)
        for (size_t d = 0; d <= last; d++) {
            if (s == d || (ends_only && (s != 0 || d != last) && (s != last || d != 0))) continue;
            p06_ask(n, spc, s, d, INFINITY, 1);
            if (!ends_only && (s + d) % 2) p06_ask(n, spc, s, d, INFINITY, 2), p06_ask(n, spc, s, d, INFINITY, 0);
            if (!ends_only && s < d && d - s > 1) p06_ask(n, spc, s, d, cyl(n.v[s], n.v[d]) * 1.0001, 1);
        }
}
// Larger graphs: fixed shapes on many vertices, every setting of their parameters
static void p06_big(bool T) {
    auto take = [&](const Scene &S, const string &what, const function<int(int, int)> &edge, bool directed, int step) {
        if (!R.take()) return;
        vector<Pt> v = verts(S);
        int k = v.size();
        Net n{v, vector<vector<char>>(k, vector<char>(k))};
        for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) if (i != j) {
            if (int e = edge(i, j)) { n.e[i][j] = e; if (!directed) n.e[j][i] = e; }
        }
        R.sample(what + " on " + to_string(k) + " vertices of " + to_string(S.size()) + " polygons");
        auto g = make_shared<Graph>(PS(S));
        for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) {
            if (n.e[i][j] & 1) g->add_directed_edge(C(n.v[i]), C(n.v[j]), false);
            if (n.e[i][j] & 2) g->add_directed_edge(C(n.v[i]), C(n.v[j]), true);
        }
        ShortestPathComputer spc(g);
        R.stats["graphs"]++;
        R.stats["largest"] = max<uint64_t>(R.stats["largest"], k);
        for (int s = 0; s < k; s += step) for (int q : {1, 2, 3, k / 3, k / 2, k - 2, k - 1}) {
            int d = (s + q) % k;
            if (d == s) continue;
            p06_ask(n, spc, s, d, INFINITY, 1);
            if ((s / step + q) % 3 == 0) p06_ask(n, spc, s, d, INFINITY, 3), p06_ask(n, spc, s, d, INFINITY, 0), p06_ask(n, spc, s, d, cyl(n.v[s], n.v[d]) * 1.5, 1);
        }
    };
    vector<int> sizes{9, 16, 33, 63, 64, 65, 100, 129};
    if (T) for (int k : {130, 200, 255, 256, 257, 258, 300}) sizes.push_back(k);
    else sizes.push_back(258);
    for (int k : sizes) for (int shape = 0; shape < 4; shape++) {
        Scene S = shape < 2 ? Scene{rim(k, shape & 1)} : islets(k, shape & 1);
        int n = verts(S).size(), step = k < 20 ? 1 : max(1, n / (T ? 40 : 8)) | 1;
        string z = shape & 1 ? "world-wide " : "small ";
        auto marks = [&](int i, int j) { return shape & 1 ? 1 + (i * 5 + j * 3) % 3 : 1; };
        // chains, in the order of the corners and jumping about: the longest paths there are
        for (int m : {1, 2, 3, 5, 7, n / 2 + 1, n - 1}) {
            int a = m, b = n;
            while (b) { int t = a % b; a = b; b = t; }
            if (a != 1) continue;
            take(S, z + "chain of jumps of " + to_string(m), [&](int i, int j) { return j == (i + m) % n && i != (n / 2) ? 1 : 0; }, false, step);
            take(S, z + "one-way ring of jumps of " + to_string(m), [&](int i, int j) { return j == (i + m) % n ? marks(i, j) : 0; }, true, step);
        }
        // rings with short cuts of two lengths
        for (int a = 1; a <= (T ? 8 : 3); a++) for (int b = a + 1; b <= n / 2; b += max(1, n / (T ? 12 : 5)))
            take(S, z + "ring with jumps of " + to_string(a) + " and " + to_string(b), [&](int i, int j) { int d = min((i - j + n) % n, (j - i + n) % n); return i < j && (d == a || d == b) ? marks(i, j) : 0; }, false, step);
        // grids and ladders
        for (int w : {2, 3, 5, 8, 13}) if (w * 2 <= n)
            take(S, z + "grid of width " + to_string(w), [&](int i, int j) { return i < j && ((j == i + 1 && j % w) || j == i + w) ? marks(i, j) : 0; }, false, step);
        // stars, trees, everything
        for (int h : {0, n / 2, n - 1}) take(S, z + "star about " + to_string(h), [&](int i, int j) { return i == h ? marks(i, j) : 0; }, false, step);
        for (int b : {2, 3}) take(S, z + "tree of degree " + to_string(b), [&](int i, int j) { return i < j && (j - 1) / b == i ? marks(i, j) : 0; }, false, step);
        if (n <= (T ? 300 : 130)) take(S, z + "all edges", [&](int i, int j) { return i < j ? marks(i, j) : 0; }, false, step);
        // dense with the direct ways missing
        for (int r : {2, 3, 5, 7}) if (n <= (T ? 300 : 130)) take(S, z + "edges by residue " + to_string(r), [&](int i, int j) { return i < j && (i * i + 3 * j) % r == 1 ? marks(i, j) : 0; }, false, step);
    }
}

static void p06(bool T) {
    const uint64_t CHUNK = 64;
    auto run = [&](const Scene &S, const vector<pair<int, int>> &pairs, const vector<vector<char>> &states, bool directed, bool ends_only) {
        vector<Pt> v = verts(S);
        uint64_t total = 1;
        for (auto &st : states) total *= st.size();
        for (uint64_t c = 0; c < total; c += CHUNK) {
            if (!R.take()) continue;
            for (uint64_t m = c; m < min(total, c + CHUNK); m++) {
                Net n{v, vector<vector<char>>(v.size(), vector<char>(v.size()))};
                uint64_t x = m;
                for (size_t k = 0; k < pairs.size(); k++) {
                    char st = states[k][x % states[k].size()];
                    x /= states[k].size();
                    n.e[pairs[k].first][pairs[k].second] = st;
                    if (!directed) n.e[pairs[k].second][pairs[k].first] = st;
                }
                if (m == c) R.sample("graph" + n.show() + " " + str(S));
                p06_net(S, n, ends_only);
            }
        }
    };
    auto all = [](int n, bool dir) { vector<pair<int, int>> r; for (int i = 0; i < n; i++) for (int j = dir ? 0 : i + 1; j < n; j++) if (i != j) r.push_back({i, j}); return r; };
    auto same = [](size_t k, vector<char> st) { return vector<vector<char>>(k, st); };
    Scene q1{{{0, 0}, {1000, -300}, {1300, 900}, {100, 700}}}, q2{{{-170 * M, 0}, {-20 * M, -5 * M}, {-15 * M, 12 * M}, {-160 * M, 10 * M}}};
    for (auto *S : {&q1, &q2}) {
        run(*S, all(4, false), same(6, {0, 1, 2, 3}), false, false);
        run(*S, all(4, true), same(12, {0, 1}), true, false);
        if (T || S == &q2) run(*S, all(4, true), same(12, {0, 1, 2}), true, false);
    }
    Scene f1{{{0, 0}, {2000, -900}, {2600, 400}, {1800, 1700}, {300, 1100}}}, f2{{{-179 * M, 0}, {-90 * M, -30 * M}, {-10 * M, 0}, {-40 * M, 30 * M}, {-150 * M, 25 * M}}};
    for (auto *S : {&f1, &f2}) run(*S, all(5, false), same(10, {0, 1, 2}), false, false);
    Scene s1{{{0, 0}, {2000, -900}, {2600, 400}, {2300, 1300}, {1500, 1900}, {300, 1300}}}, s2{{{0, 0}, {100, 0}, {50, 90}}, {{3000, 40}, {3100, 0}, {3060, 110}}};
    run(s1, all(6, false), same(15, {0, 1}), false, true);
    run(s2, all(6, false), same(15, {0, 1}), false, true);
    // two triangles either side of the antimeridian: every way of joining them directly or over it
    Scene m2{{{150 * M, 0}, {178 * M, -4 * M}, {177 * M, 9 * M}}, {{-178 * M, 3 * M}, {-140 * M, 20 * M}, {-175 * M, 30 * M}}};
    vector<pair<int, int>> mp{{0, 1}, {1, 2}, {0, 2}, {3, 4}, {4, 5}, {3, 5}};
    for (int i = 0; i < 3; i++) for (int j = 3; j < 6; j++) mp.push_back({i, j});
    auto ms = same(6, {0, 1});
    if (!T) ms[2] = ms[4] = {1};
    for (int i = 0; i < 9; i++) ms.push_back(T || i % 2 == 0 ? vector<char>{0, 1, 2} : vector<char>{0, 2});
    run(m2, mp, ms, false, !T);
    if (T) {
        Scene h{{{0, 0}, {2000, -900}, {2600, -100}, {2700, 700}, {2300, 1500}, {1500, 1900}, {300, 1300}}};
        run(h, all(7, false), same(21, {0, 1}), false, true);
    }
    p06_big(T);
}

// ---- P03 -------------------------------------------------------------------------------------------------------------------
static double seg_dist(double px, double py, Pt a, Pt b) {
    double dx = b.x - a.x, dy = b.y - a.y, t = ((px - a.x) * dx + (py - a.y) * dy) / (dx * dx + dy * dy);
    t = max(0.0, min(1.0, t));
    return hypot(a.x + t * dx - px, a.y + t * dy - py);
}
static double shore(const Poly &P, double x, double y) {
    double d = INFINITY;
    for (size_t i = 0; i < P.size(); i++) d = min(d, seg_dist(x, y, P[i], P[(i + 1) % P.size()]));
    return d;
}
static bool inside_d(const Poly &P, double x, double y) {
    bool in = false;
    for (size_t i = 0, j = P.size() - 1; i < P.size(); j = i++)
        if ((P[i].y > y) != (P[j].y > y) && x < (double)(P[j].x - P[i].x) * (y - P[i].y) / (double)(P[j].y - P[i].y) + P[i].x) in = !in;
    return in;
}
// how deep into land the line goes
static double depth(const Scene &S3, Pt p, Pt q) {
    double worst = 0;
    for (auto &P : S3) {
        vector<double> ts{0, 1};
        for (size_t i = 0; i < P.size(); i++) {
            Pt a = P[i], b = P[(i + 1) % P.size()];
            double rx = q.x - p.x, ry = q.y - p.y, sx = b.x - a.x, sy = b.y - a.y, den = rx * sy - ry * sx;
            if (den != 0) {
                double t = ((a.x - p.x) * sy - (a.y - p.y) * sx) / den;
                if (t > 0 && t < 1) ts.push_back(t);
            }
            double t = ((a.x - p.x) * rx + (a.y - p.y) * ry) / (rx * rx + ry * ry);
            if (t > 0 && t < 1) ts.push_back(t);
        }
        sort(ts.begin(), ts.end());
        for (size_t k = 0; k + 1 < ts.size(); k++)
            for (int m = 1; m < 8; m++) {
                double t = ts[k] + (ts[k + 1] - ts[k]) * m / 8, x = p.x + t * (q.x - p.x), y = p.y + t * (q.y - p.y);
                if (inside_d(P, x, y)) worst = max(worst, shore(P, x, y));
            }
    }
    return worst;
}
static const double RND = 3; // coordinate rounding, in microdegrees
// frame: everything is about the antimeridian, in longitudes that run on beyond it
static void p03(const Scene &S, const vector<Pt> &pts, bool frame = false) {
    World w(S, pts, false, frame);
    auto ask = [&](const ShortestPathComputer &c, Pt s, Pt d, double lim, bool corr, double wt) {
        Ans a = ::ask(c, s, d, lim, corr, wt);
        for (auto &p : a.path) if (frame && p.x < 0) p.x += PER;
        return a;
    };
    struct Q { Pt p; int kind; const Poly *land; double d; }; // 0 sea, 1 vertex, 2 inside, 3 on an edge or too near the shore to call
    vector<Q> qs;
    for (auto p : w.N) if (!frame || p.x > 90 * M) qs.push_back({p, node(w, p) < (int)w.nv ? 1 : 0, nullptr, 0});
    for (auto &p : pts)
        for (auto &P : w.S) {
            int in = inpoly(P, p);
            if (find(P.begin(), P.end(), p) != P.end()) continue;
            if (in > 0 && shore(P, p.x, p.y) > 2) qs.push_back({p, 2, &P, shore(P, p.x, p.y)});
            else if (in >= 0) qs.push_back({p, 3, &P, shore(P, p.x, p.y)});
        }
    auto corrected_ok = [&](const Q &q, Pt c, string &why) {
        if (q.kind == 0 || q.kind == 1) { if (c != q.p) { why = "an endpoint not on land is moved"; return false; } return true; }
        if (q.kind == 3) { if (hypot(c.x - q.p.x, c.y - q.p.y) > RND) { why = "an endpoint on the shore is moved away"; return false; } return true; }
        if (shore(*q.land, c.x, c.y) > RND) { why = "corrected endpoint is not on the shore"; return false; }
        if (hypot(c.x - q.p.x, c.y - q.p.y) > q.d + RND) { why = "corrected endpoint is not the nearest point of the shore"; return false; }
        return true;
    };
    for (auto &a : qs)
        for (auto &b : qs) {
            if (a.p == b.p) continue;
            auto off = ask(*w.spc, a.p, b.p, INFINITY, false, 1);
            bool land = a.kind == 2 || b.kind == 2;
            string c0 = ctx(w, a.p, b.p, off);
            if (land && off.ok) R.fail("", "an endpoint on land is accepted" + c0);
            if (a.kind < 2 && b.kind < 2 && !off.ok && best(w, node(w, a.p), node(w, b.p), CLEAR, TRUE_COST) < INFINITY) R.fail("", "a request with no endpoint on land is rejected" + c0);
            if (a.kind < 2 && b.kind < 2) {
                auto on = ask(*w.spc, a.p, b.p, INFINITY, true, 1);
                if (on.ok != off.ok || on.path != off.path) R.fail("", "correction changes a path with no endpoint on land" + c0 + " with correction " + show(on));
                continue;
            }
            auto on = ask(*w.spc, a.p, b.p, INFINITY, true, 1);
            c0 = " corrected" + ctx(w, a.p, b.p, on);
            auto off_land = [](const Q &q) { return q.kind < 2 || (q.kind == 3 && inpoly(*q.land, q.p) == 0); };
            if (off_land(a) && off_land(b) && on.ok && !off.ok && on.path.front() == a.p && on.path.back() == b.p)
                R.fail("", "a request with both ends on the shore or at sea is rejected: " + off.err + c0);
            if (!on.ok) { R.fail("", "a corrected request fails" + c0); continue; }
            string why;
            if (on.path.size() < 1 || !corrected_ok(a, on.path.front(), why) || !corrected_ok(b, on.path.back(), why)) { R.fail("", why + c0); continue; }
            R.stats["corrections_checked"]++;
            R.nontrivial();
            double c = 0;
            for (size_t k = 0; k + 1 < on.path.size(); k++) {
                c += hypot(on.path[k].x - on.path[k + 1].x, on.path[k].y - on.path[k + 1].y);
                double dp = depth(w.S, on.path[k], on.path[k + 1]);
                R.stats["max_depth_millionths"] = max<uint64_t>(R.stats["max_depth_millionths"], dp * 1e6);
                if (dp > RND) { R.fail("", "leg " + str(on.path[k]) + "-" + str(on.path[k + 1]) + " crosses land" + c0); break; }
            }
            // as short as a route from the true nearest shore points can be, up to rounding: compare over legs that are free by a margin
            vector<Pt> nd(w.N.begin(), w.N.begin() + w.nv);
            size_t nv = w.nv;
            nd.push_back(on.path.front()), nd.push_back(on.path.back());
            auto lg = [&](size_t i, size_t j) -> double {
                if (nd[i] == nd[j]) return 0;
                if (i < nv && j < nv) return w.W[i][j].direct == CLEAR ? hypot(nd[i].x - nd[j].x, nd[i].y - nd[j].y) : INFINITY;
                // an end on the shore: free if the line leaves the shore to the sea side at a clear angle
                Pt p = nd[i], q = nd[j];
                for (int r = 0; r < 2; r++, swap(p, q)) {
                    size_t e = r ? j : i;
                    if (e < nv || (e == nv ? a : b).kind == 1) { // not into its own land, however thin that is
                        for (auto &P : w.S) for (size_t k = 0, m = P.size(); k < m; k++) {
                            if (P[k] != p) continue;
                            Pt f = P[(k + m - 1) % m], t = P[(k + 1) % m];
                            if (orient(f, p, t) > 0 ? orient(p, t, q) > 0 && orient(p, q, f) > 0 : !(orient(p, f, q) >= 0 && orient(p, q, t) >= 0)) return INFINITY;
                        }
                        continue;
                    }
                    const Q &o = e == nv ? a : b;
                    if (o.kind < 2) continue;
                    // step 20 microdegrees towards the other end: must be well off the land it started from
                    double l = hypot(q.x - p.x, q.y - p.y), st = min(20.0, l / 2);
                    double x = p.x + (q.x - p.x) * st / l, y = p.y + (q.y - p.y) * st / l;
                    if (inside_d(*o.land, x, y) || shore(*o.land, x, y) < st * 0.3) return INFINITY;
                }
                if (near_line(w.S, nd[i], nd[j], 10)) return INFINITY;
                if (depth(w.S, nd[i], nd[j]) > 1) return INFINITY;
                Pt A = nd[i], B = nd[j];
                for (auto &P : w.S) // land too thin for that: crossings away from the ends
                    for (size_t k = 0; k < P.size(); k++) {
                        Pt u = P[k], v = P[(k + 1) % P.size()];
                        if (!proper(A, B, u, v)) continue;
                        double t = (double)cross(u, v, A) / ((double)cross(u, v, A) - (double)cross(u, v, B)), l = hypot(B.x - A.x, B.y - A.y);
                        if (t * l > 5 && (1 - t) * l > 5) return INFINITY;
                    }
                return hypot(nd[i].x - nd[j].x, nd[i].y - nd[j].y);
            };
            vector<double> dist(nd.size(), INFINITY);
            vector<char> done(nd.size(), 0);
            dist[nv] = 0;
            for (;;) {
                size_t u = nd.size();
                for (size_t i = 0; i < nd.size(); i++) if (!done[i] && dist[i] < INFINITY && (u == nd.size() || dist[i] < dist[u])) u = i;
                if (u == nd.size() || u == nv + 1) break;
                done[u] = 1;
                for (size_t v = 0; v < nd.size(); v++) if (!done[v] && v != u && v != nv) dist[v] = min(dist[v], dist[u] + lg(u, v));
            }
            R.stats["corrected_lengths_compared"] += dist[nv + 1] < INFINITY;
            if (c > dist[nv + 1] + 20) R.fail("", "corrected path of " + to_string(c) + " although one of " + to_string(dist[nv + 1]) + " exists" + c0);
        }
    R.sample("corrections on " + str(S));
}

// ---- scenes ----------------------------------------------------------------------------------------------------------------
static vector<Pt> spots(const Grid &g, int margin, int kinds) { // lattice points, and kinds of points inside cells, a margin around the lattice
    vector<Pt> r;
    for (int j = -margin; j < g.h + margin; j++)
        for (int i = -margin; i < g.w + margin; i++) {
            Pt a{g.ox + i * g.ux, g.oy + j * g.uy};
            if (kinds & 1) r.push_back(g.jitter && i >= 0 && j >= 0 && i < g.w && j < g.h ? g.at(i, j) : a);
            if (kinds & 2) r.push_back({a.x + g.ux / 2 + 7, a.y + g.uy / 2 - 3});
            if (kinds & 4) r.push_back({a.x + g.ux / 3, a.y + g.uy / 4});
        }
    return r;
}
typedef function<void(const Scene &, const vector<Pt> &, bool)> Fn;
static vector<Poly> tri(const Grid &g) { return polygons_on(g.points(), 3); }
static Poly low_wall(int64_t lon) { return ccw({{lon, -89900000}, {lon + 1000000, -89900000}, {lon + 1000000, 89900000}, {lon, 89900000}}); }
static void families(const Fn &f0, bool T, int size) {
    Fn f = [&](const Scene &S, const vector<Pt> &q, bool planar) { if (!planar || same_on_sphere(S)) f0(S, q, planar); };
    // around the origin, small enough for straight lines to be great circles
    Grid g3{3, 3, 1000, 1000, -1000, -1000, 0}, g3j{3, 3, 1000, 1000, -900, -1100, 1}, g43{4, 3, 1000, 1000, -1000, -900, 0}, g43j{4, 3, 1000, 1000, -1000, -900, 1};
    for (auto *g : {&g3, &g3j})
        for (int n = 3; n <= (size ? 6 : 5); n++) single(polygons_on(g->points(), n), [&](const Scene &S) { f(S, spots(*g, 1, n < 5 ? 3 : 2), false); });
    for (auto *g : {&g43, &g43j})
        pairs(tri(*g), tri(*g), true, [&](const Scene &S) { f(S, spots(*g, size ? 1 : 0, size ? 3 : 6), false); });
    { Grid c{8, 8, 900, 1100, -3000, -4000, 1}; unit_sets(c, 2, 2, 3, [&](const Scene &S) { f(S, spots({4, 4, 1900, 2300, -3500, -4500, 0}, 0, size ? 3 : 1), false); }); }
    structured(100, -1000, -1200, size ? 5 : 3, [&](const Scene &S) { f(S, spots({5, 5, 600, 500, -1300, -1500, 0}, 0, 1), false); });
    for (int k : {24, 36, 60}) if (T || k == 24) {
        Scene S = islets(k, false);
        int w = max(2, (int)sqrt(k / 3.0));
        if (disjoint(S)) f(S, {{-900, -800}, {w * 1000 - 300, w * 500}, {-100, 150}, {700, -500}, {30, 2000}}, false);
        if (size) if (Scene X = islets(k, true); disjoint(X)) f(X, {{-171 * M, -81 * M}, {3 * M, 50}}, true);
    }
    // across the antimeridian: the lattice columns are dealt to its two sides, a land mass elsewhere closes the way round the world
    for (int jit : {0, 1}) {
        Grid l{2, 3, 1000, 1000, 180 * M - 1300, -1000, jit}, r{2, 3, 1000, 1000, -180 * M + 300, -900, jit};
        Grid l0{2, 3, 1000, 1000, 180 * M - 1000, -1000, 0}, r0{2, 3, 1000, 1000, -180 * M, -1000, 0};
        if (jit && !size) continue;
        for (auto pr : vector<pair<Grid, Grid>>{{l, r}, {l0, r0}}) {
            if (pr.first.ox == l0.ox && jit) continue;
            vector<Pt> q = spots(pr.first, 0, 3), q2 = spots(pr.second, 0, 3);
            q.insert(q.end(), q2.begin(), q2.end());
            q.push_back({180 * M - 2500, 50}), q.push_back({-180 * M + 2500, -20}), q.push_back({180 * M, 2600}), q.push_back({-180 * M, -2600});
            vector<Pt> in;
            for (auto &p : q) if (p.x >= -180 * M && p.x <= 180 * M) in.push_back(p);
            Poly wl = low_wall(20 * M);
            auto A = tri(pr.first), B = tri(pr.second);
            auto A4 = polygons_on(pr.first.points(), 4), B4 = polygons_on(pr.second.points(), 4);
            if (size) A.insert(A.end(), A4.begin(), A4.end()), B.insert(B.end(), B4.begin(), B4.end());
            pairs(A, B, false, [&](const Scene &S) { Scene X = S; X.push_back(wl); f(X, in, false); });
            for (auto *one : {&A, &B}) single(*one, [&](const Scene &S) { Scene X = S; X.push_back(wl); f(X, in, false); });
            pairs(A, A, true, [&](const Scene &S) { Scene X = S; X.push_back(wl); f(X, in, false); });
        }
    }
    // world-wide scenes: ends at land vertices, or one end at sea
    Grid w{4, 3, 110 * M, 60 * M, -170 * M, -60 * M, 0}, wj{4, 3, 100 * M, 60 * M, -165 * M, -65 * M, 1}, e{4, 3, 5 * M, 40 * M, 165 * M, -40 * M, 0};
    for (auto *g : {&w, &wj, &e}) {
        if (!size && g == &w) continue;
        pairs(tri(*g), tri(*g), true, [&](const Scene &S) { f(S, spots(*g, 0, 6), true); });
    }
    { Grid c{8, 8, 40 * M, 21 * M, -170 * M, -80 * M, 0}; if (size) unit_sets(c, 3, 2, 3, [&](const Scene &S) { f(S, spots({5, 4, 70 * M, 40 * M, -160 * M, -70 * M, 0}, 0, 1), true); }); }
    // a polar cap: land right round the world down to the pole, with its seam on the antimeridian
    for (int v = 0; v < (size ? 4 : 2); v++) {
        Poly cap{{-180 * M, -90 * M}, {180 * M, -90 * M}};
        if (v & 2) cap.insert(cap.begin() + 1, {{-60 * M, -90 * M}, {60 * M, -90 * M}});
        for (int k = 0; k <= 6; k++) cap.push_back({180 * M - k * 60 * M, k % 6 == 0 ? -70 * M : -72 * M + ((k * (v & 1 ? 5 : 3)) % 7 + (k * k) % 5 * 0.3) * M});
        if (v & 2) for (auto &p : cap) p.y = -p.y;
        Grid n{3, 3, 60 * M, 30 * M, (v & 1 ? -170 : -50) * M, (v & 2 ? -40 : -20) * M, 1};
        auto A = tri(n);
        for (size_t k = 0; k < A.size(); k += size ? 1 : 4)
            f0({ccw(cap), A[k]}, {{-179 * M, v & 2 ? 55 * M : -55 * M}, {179500000, v & 2 ? 50 * M : -50 * M}, {5 * M, v & 2 ? 60 * M : -60 * M}, {100 * M, 0}}, true);
    }
    // legs that wind round the world more than once (known finding)
    f0({ccw({{0, 0}, {-20 * M, 5 * M}, {-20 * M, -10 * M}}), ccw({{1 * M, -26 * M}, {20 * M, -15 * M}, {20 * M, -5 * M}, {200000, -10 * M}})}, {}, true);
    f0({ccw({{0, 50 * M}, {1 * M, 53 * M}, {-1 * M, 53 * M}}), ccw({{178 * M, -50 * M}, {177 * M, -53 * M}, {179 * M, -53 * M}}),
        ccw({{88 * M, -31 * M}, {90 * M, -31 * M}, {90 * M, 31 * M}, {88 * M, 31 * M}}), ccw({{-31 * M, -5 * M}, {-29 * M, -5 * M}, {-29 * M, 80 * M}, {-31 * M, 80 * M}})}, {}, true);
    if (T) {
        Grid g44{4, 4, 1000, 1000, -1500, -1500, 1}, g4{4, 4, 1000, 1000, -1500, -1500, 0};
        for (auto *g : {&g44, &g4}) {
            pairs(tri(*g), tri(*g), true, [&](const Scene &S) { f(S, spots(*g, 0, 2), false); });
            for (int n = 4; n <= 5; n++) single(polygons_on(g->points(), n), [&](const Scene &S) { f(S, spots(*g, 1, 2), false); });
        }
        Grid c{8, 8, 900, 1100, -3000, -4000, 0};
        for (int k : {3, 4}) unit_sets(c, 2, 2, k, [&](const Scene &S) { f(S, spots({4, 4, 1900, 2300, -3500, -4500, 0}, 0, 3), false); });
        structured(100, -1000, -1200, 9, [&](const Scene &S) { f(S, spots({7, 7, 600, 500, -1300, -1500, 0}, 0, 1), false); });
    }
}

int main(int argc, char **argv) {
    R.init(argc, argv);
    bool T = R.thorough;
    R.case_seconds = max(R.case_seconds, 60);
    if (R.prop == "P01") {
        families([&](const Scene &S, const vector<Pt> &q, bool planar) {
            if (!R.take()) return;
            World w(S, q, planar);
            R.sample(str(S));
            for (size_t i = 0; i < w.N.size(); i++)
                for (size_t j = 0; j < w.N.size(); j++) {
                    if (planar && i >= w.nv && j >= w.nv) continue;
                    p01(w, i, j, w.N[i], w.N[j], 1);
                    if ((i + j) % 3 == 0) p01(w, i, j, w.N[i], w.N[j], 3);
                    if ((i + 2 * j) % 5 == 0) // given one or more periods away
                        for (int k : {-2, -1, 1, 2}) p01(w, i, j, {w.N[i].x + k * PER, w.N[i].y}, w.N[j], 1), p01(w, i, j, w.N[i], {w.N[j].x - k * PER, w.N[j].y}, 1);
                }
        }, T, T ? 1 : 0);
        return R.finish("one case = one scene with every ordered pair of its vertices and off-land query points (also given some periods away, and with a greedy search); "
                        "every leg is compared with exact geometry; non-trivial = some path with an intermediate point");
    }
    if (R.prop == "P02") {
        families([&](const Scene &S, const vector<Pt> &q, bool planar) {
            if (!R.take()) return;
            World w(S, q, planar);
            R.sample(str(S));
            for (size_t i = 0; i < w.N.size(); i++) for (size_t j = i + 1; j < w.N.size(); j++) p02(w, (i + j) % 2 ? i : j, (i + j) % 2 ? j : i);
        }, T, T ? 1 : 0);
        // next to the antimeridian with open sea all round the world (known finding: costed by the way round)
        Grid l{2, 2, 1000, 1000, 180 * M - 1300, -1000, 0}, r{2, 2, 1000, 1000, -180 * M + 300, -900, 0};
        pairs(tri(l), tri(r), false, [&](const Scene &S) {
            if (!R.take()) return;
            World w(S, {}, true);
            R.sample(str(S));
            for (size_t i = 0; i < w.nv; i++) for (size_t j = i + 1; j < w.nv; j++) p02(w, i, j);
        });
        return R.finish("one case = one scene with every pair of its vertices and off-land query points under five weightings, both directions; the length is compared with the "
                        "least over all routes of exactly classified legs; non-trivial = some path with an intermediate point");
    }
    if (R.prop == "P07") {
        ends_on_edges = true;
        auto fn = [&](const vector<Pt> &q) {
            return [&, q](const Scene &S) {
                if (!R.take()) return;
                World w(S, q);
                R.sample(str(S));
                for (size_t i = 0; i < w.N.size(); i++)
                    for (size_t j = i + 1; j < w.N.size(); j++) {
                        size_t a = (i + j) % 2 ? i : j, b = i + j - a;
                        p01(w, a, b, w.N[a], w.N[b], 1);
                        if (T || (i + 2 * j) % 3 == 0) p02(w, a, b);
                    }
            };
        };
        Grid g3{3, 3, 1000, 1000, -1000, -1000, 0}, g3j{3, 3, 1000, 1000, -900, -1100, 1}, g43{4, 3, 1000, 1000, -1000, -900, 0};
        for (auto *g : {&g3, &g3j, &g43}) touching(tri(*g), tri(*g), true, fn(spots(*g, 1, T ? 3 : 2)));
        touching(polygons_on(g3.points(), 4), tri(g3), false, fn(spots(g3, 1, 2)));
        touching_triples(tri(g3), fn(spots(g3, 1, 2)));
        for (auto &c : tilings(T)) {
            vector<Pt> o;
            bool far = false;
            for (auto &P : c) {
                for (auto &p : P) far |= llabs(p.x) > 100000;
                o.push_back({(P[0].x + P[1].x) / 2, (P[0].y + P[1].y) / 2}), o.push_back({(P[0].x + P[1].x + P[2].x) / 3, (P[0].y + P[1].y + P[2].y) / 3});
            }
            if (far) continue;
            o.push_back({-2500, 40}), o.push_back({2500, 70}), o.push_back({10, 2500});
            sort(o.begin(), o.end());
            o.erase(unique(o.begin(), o.end()), o.end());
            int k = 0;
            tile_sets(c, 2, [&](const Scene &S) { if (T || k++ % 4 == 0) fn(o)(S); });
        }
        if (T) {
            touching_triples(tri(g3j), fn(spots(g3j, 1, 2)));
            touching(polygons_on(g3.points(), 5), tri(g3), false, fn(spots(g3, 1, 2)));
            touching(polygons_on(g43.points(), 4), tri(g43), false, fn(spots(g43, 0, 2)));
        }
        return R.finish("one case = one scene of touching polygons with every pair of its vertices and off-land query points; non-trivial = some path with an intermediate point");
    }
    if (R.prop == "P04") {
        families([&](const Scene &S, const vector<Pt> &q, bool planar) {
            if (!R.take()) return;
            World w(S, q, planar);
            R.sample(str(S));
            for (size_t i = 0; i < w.N.size(); i++) for (size_t j = 0; j < w.N.size(); j++) if (i != j && (T || (i + 2 * j) % 7 == 0)) p04(w, i, j);
        }, T, 0);
        return R.finish("one case = one scene with pairs of vertices and off-land query points under limits at, just below and just above the distance of every vertex "
                        "from the source; non-trivial = some limited path with an intermediate point");
    }
    if (R.prop == "P06") {
        p06(T);
        return R.finish("one case = 64 graphs of an enumeration of all edge sets (with marks and directions) on the vertices of a scene, searched between all or the two outermost "
                        "vertices and compared with a textbook shortest path search; non-trivial = some path with an intermediate point");
    }
    if (R.prop == "P03") {
        auto fn = [&](const vector<Pt> &q) { return [q](const Scene &S) { if (R.take()) p03(S, q); }; };
        Grid g3{3, 3, 1000, 1000, -1000, -1000, 0}, g3j{3, 3, 1000, 1000, -900, -1100, 1}, g43{4, 3, 1000, 1000, -1000, -900, 0};
        for (auto *g : {&g3, &g3j})
            for (int n = 3; n <= (T ? 7 : 6); n++) single(polygons_on(g->points(), n), fn(spots(*g, n < 5 ? 1 : 0, 7)));
        pairs(tri(g43), tri(g43), true, fn(spots(g43, 0, 6)));
        structured(100, -1000, -1200, T ? 6 : 4, fn(spots({6, 6, 390, 370, -1050, -1250, 0}, 0, 1)));
        // about the antimeridian: land on either side of it or on both, ending exactly on it or short of it; a wall closes the way round the world
        {
            vector<Poly> both[2];
            for (int east : {0, 1})
                for (int jit : {0, 1}) {
                    Grid g{3, 3, 1000, 1000, east ? 180 * M + 1 : 180 * M - 2000, -1000, jit};
                    Grid a{4, 3, 1000, 1000, east ? 180 * M - 1000 : 180 * M - 2000, -1000, 0};
                    auto q3 = spots(a, 1, 4), q1 = spots(a, 0, 3), q4 = spots(a, 0, 4);
                    q3.insert(q3.end(), q1.begin(), q1.end());
                    auto f = [&](const Scene &S) {
                        auto &q = S[0].size() == 3 || T ? q3 : q4;
                        for (auto &p : S[0]) if (p.x > 180 * M != (bool)east) return;
                        if (S[0].size() == 3) both[east].push_back(S[0]);
                        if (R.take()) p03({S[0], low_wall(0)}, q, true);
                    };
                    for (int n = 3; n <= (T ? 6 : 4); n++) single(polygons_on(g.points(), n), f);
                }
            auto q = spots({4, 3, 1000, 1000, 180 * M - 1900, -1000, 0}, 0, 6);
            int k = 0;
            for (auto &A : both[0]) for (auto &B : both[1]) {
                if (k++ % (T ? 7 : 61)) continue;
                if (R.take()) p03({A, B, low_wall(0)}, q, true);
            }
        }
        if (T) {
            Grid g4{4, 4, 1000, 1000, -1500, -1500, 1};
            for (int n = 4; n <= 5; n++) single(polygons_on(g4.points(), n), fn(spots(g4, 0, 6)));
            pairs(tri(g4), tri(g4), true, fn(spots(g4, 0, 2)));
        }
        return R.finish("one case = one scene with every ordered pair of points inside, on and outside land, with and without correction; non-trivial = some correction was made");
    }
    if (R.prop == "P05") {
        Grid g3{3, 3, 1000, 1000, -1000, -1000, 0}, g3j{3, 3, 1000, 1000, -900, -1100, 1};
        auto two = [&](const Scene &S, int maxlen, const vector<int> &lens) {
            if (!R.take()) return;
            World w(S, {});
            Pt in{0, 0};
            for (auto &P : S) { // a point on land
                for (auto &q : spots(g3, 0, 7)) if (inpoly(P, q) > 0) in = q;
                break;
            }
            Pt a{-2500, 40}, b{2500, 70}, c{10, 2500};
            vector<pair<Pt, Pt>> pool{{a, b}, {in, b}, {a, c}, {w.N[0], w.N[1]}, {b, in}, {{a.x + PER, a.y}, b}};
            p05(w, pool, maxlen, lens);
        };
        auto one = [&](const Scene &S) { two(S, T ? 4 : 3, {17, 64}); };
        { // every length up to a bound, and lengths about powers of two
            Scene tri1{{{-1000, -900}, {900, -1000}, {100, 1100}}};
            for (int n = 4; n <= (T ? 300 : 72); n += 4) two(tri1, 0, {n, n + 1, n + 2, n + 3});
            for (int n : {127, 128, 129, 255, 256, 257, 511, 513, 1000, 1025, 2050}) two(tri1, 0, {n});
        }
        for (auto *g : {&g3, &g3j}) for (int n = 3; n <= 4; n++) single(polygons_on(g->points(), n), one);
        Grid g43{4, 3, 1000, 1000, -1500, -900, 1};
        pairs(tri(g43), tri(g43), true, one);
        return R.finish("one case = one scene with every batch of up to three (thorough: four) requests from a pool with good, failing, periodic and swapped requests under "
                        "five parameter sets, and longer batches, compared item by item with single calls; non-trivial = some batch mixes successes and errors");
    }
    return 3;
}
