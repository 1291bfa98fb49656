// S01 S02 S03: the file format. Saved graphs are read back and compared with a plain description of what was saved.
#include "common/capi.hpp"
#include "common/report.hpp"
#include "common/scenes.hpp"
#include "serialization/graph_serializer.hpp"
#include <array>
#include <cerrno>
#include <cstdarg>
#include <dirent.h>
#include <fstream>
#include <memory>
#include <sys/stat.h>
#include <sys/syscall.h>
using namespace std;
static const int64_t M = 1000000;

// ---- what a graph should contain ------------------------------------------------------------------------------------------
struct Doc {
    Scene S;
    map<pair<int, int>, int> E; // i<j in the vertex list of the scene; 1 direct, 2 over the antimeridian, 3 both
    string name;
};
static vector<Pt> places(const Scene &S) { // each vertex once, also where polygons share it
    vector<Pt> r;
    for (auto &p : verts(S)) if (find(r.begin(), r.end(), p) == r.end()) r.push_back(p);
    return r;
}
static shared_ptr<Graph> make(const Doc &d) {
    auto g = make_shared<Graph>(PS(d.S));
    auto v = places(d.S);
    for (auto &e : d.E) {
        if (e.second & 1) g->add_edge(C(v[e.first.first]), C(v[e.first.second]), false);
        if (e.second & 2) g->add_edge(C(v[e.first.first]), C(v[e.first.second]), true);
    }
    return g;
}
static string differs(const Graph &g, const Doc &d) {
    auto P = PS(d.S);
    if (!(g.get_polygons() == P)) return "other polygons";
    auto v = places(d.S);
    set<Pt> want(v.begin(), v.end()), got;
    for (auto &c : g.get_vertices()) got.insert(P_(c));
    if (want != got || (v.size() == verts(d.S).size() && g.get_vertices().size() != v.size())) return "other vertices";
    vector<Coordinate> c;
    for (auto &p : v) c.push_back(C(p));
    vector<set<Pt>> nb(v.size());
    for (size_t i = 0; i < v.size(); i++)
        for (size_t j = 0; j < v.size(); j++) {
            if (v.size() > 600 && (i + j) % 16 && !(j > i && j < i + 9)) { if (j < i && !d.E.count({(int)j, (int)i})) continue; if (j > i && !d.E.count({(int)i, (int)j})) continue; } // the neighbours below tell of the rest
            auto it = d.E.find({(int)min(i, j), (int)max(i, j)});
            int s = i == j || it == d.E.end() ? 0 : it->second;
            if (s) nb[i].insert(v[j]);
            if (g.has_edge(c[i], c[j]) != (s != 0)) return string("edge ") + (s ? "lost " : "invented ") + to_string(i) + "-" + to_string(j);
            if (g.is_edge_meridian_crossing(c[i], c[j]) != (s == 2)) return "other mark on " + to_string(i) + "-" + to_string(j);
        }
    for (size_t i = 0; i < v.size(); i++) {
        auto n = g.get_neighbors(c[i]);
        set<Pt> h;
        for (auto &x : n) h.insert(P_(x));
        if (h != nb[i] || (v.size() == verts(d.S).size() && h.size() != n.size())) return "other neighbours of " + to_string(i);
    }
    return "";
}
static string show(const Doc &d) {
    string s = (d.name.empty() ? str(d.S) : d.name) + " edges";
    int k = 0;
    for (auto &e : d.E) { s += " " + to_string(e.first.first) + "-" + to_string(e.first.second) + "=" + to_string(e.second); if (++k > 12) { s += "..."; break; } }
    return s;
}
// convex polygon with n corners, exact integers: points on a parabola pair
static Poly ngon(int n, int64_t ox, int64_t oy, int64_t u) {
    Poly P;
    for (int i = 0; i < n; i++) P.push_back({ox + i * u, oy + (int64_t)i * i * u});
    return ccw(P);
}
static Scene scene_of(int n) { // n vertices over a few polygons, some at the ends of the range
    switch (n) {
    case 0: return {};
    case 1: case 2: return {};
    case 3: return {{{-180000000, -90000000}, {180000000, -90000000}, {-1, 90000000}}};
    case 6: return {{{0, 0}, {1000, 0}, {0, 1000}}, {{179000000, 5}, {180000000, 5}, {179500000, 1000000}}};
    case 7: return {{{-5, -7}, {1000, -13}, {3, 1000}}, {{-180000000, 0}, {-179999999, 0}, {-179999998, 50}, {-180000000, 51}}};
    case 10: return {ngon(3, -90 * M, 1, 1), ngon(4, 1, -80 * M, 1000), ngon(3, 100 * M, 0, 7)};
    }
    if (n % 3 == 0) return {ngon(3, -80 * M, 3, 11), ngon(n - 3, -3, -77 * M, 3)};
    return {ngon(n, -170 * M, -80 * M, 100)};
}
static string bytes_of(const string &p) {
    ifstream f(p, ios::binary);
    return string(istreambuf_iterator<char>(f), {});
}
static void put(const string &p, const string &b) {
    ofstream f(p, ios::binary | ios::trunc);
    f.write(b.data(), b.size());
}
static string dir() {
    const char *e = getenv("VERIF_SHM");
    string d = string(e && *e ? e : R.workdir.c_str()) + "/" + to_string(getpid());
    mkdir(d.c_str(), 0700);
    return d;
}
static string what(function<void()> f) { // the error text, or empty
    try { f(); } catch (const exception &e) { return string("!") + e.what(); }
    return "";
}

// ---- S01 ------------------------------------------------------------------------------------------------------------------
static string check_saved(const string &path, const Doc &d, string *out_bytes = nullptr, bool resave = true) {
    shared_ptr<Graph> g;
    auto err = what([&] { g = GraphSerializer::deserialize_from_file(path); });
    if (!err.empty() || !g) return "cannot be loaded: " + err;
    auto w = differs(*g, d);
    if (!w.empty()) return "loads as another graph: " + w;
    R.stats["loads_compared"]++;
    auto b = bytes_of(path);
    if (out_bytes) *out_bytes = b;
    if (!resave) return "";
    string other = path + ".again";
    unlink(other.c_str());
    GraphSerializer::serialize_to_file(g, other);
    if (bytes_of(other) != b) return "saving the loaded graph gives other bytes";
    GraphSerializer::serialize_to_file(g, path); // over itself
    if (bytes_of(path) != b) return "saving the loaded graph over its own file gives other bytes";
    return "";
}
static void s01_case(const Doc &d, const string &dr, bool priors) {
    string p = dr + "/g", b;
    unlink(p.c_str());
    auto g = make(d);
    auto err = what([&] { GraphSerializer::serialize_to_file(g, p); });
    if (!err.empty()) { R.fail("", "cannot be saved: " + err + ", " + show(d)); return; }
    if (auto w = differs(*g, d); !w.empty()) { R.fail("", "saving alters the graph: " + w + ", " + show(d)); return; }
    if (auto w = check_saved(p, d, &b); !w.empty()) { R.fail("", w + ", " + show(d)); return; }
    if (!priors) return;
    size_t n = b.size();
    for (size_t len : {(size_t)0, (size_t)1, (size_t)8, n / 2, n - 1, n, n + 1, n + 8, n + 4096, 2 * n + 9000})
        for (char fill : {'\0', '\xff', '\x01'}) {
            put(p, string(len, fill));
            auto e2 = what([&] { GraphSerializer::serialize_to_file(g, p); });
            string b2 = bytes_of(p);
            R.stats["overwrites"]++;
            string ctx = " over " + to_string(len) + " bytes of " + to_string((int)(unsigned char)fill) + ", " + show(d);
            if (!e2.empty()) { R.fail("", "cannot be saved" + ctx + e2); return; }
            if (b2 != b) {
                auto w = check_saved(p, d, nullptr, false);
                R.fail("", (w.empty() ? "other bytes" : w) + ctx);
                return;
            }
        }
}
static void s01_sequence(const vector<Doc> &docs, const vector<int> &seq, const string &dr) {
    string p = dr + "/s";
    unlink(p.c_str());
    vector<shared_ptr<Graph>> held;
    string ctx;
    for (int i : seq) {
        ctx += " " + docs[i].name;
        GraphSerializer::serialize_to_file(make(docs[i]), p);
        auto w = check_saved(p, docs[i], nullptr, false);
        if (!w.empty()) { R.fail("", w + " after saving in turn" + ctx); return; }
        held.push_back(GraphSerializer::deserialize_from_file(p));
    }
    for (size_t k = 0; k < seq.size(); k++) // graphs loaded earlier are not affected by later saves to the file
        if (auto w = differs(*held[k], docs[seq[k]]); !w.empty()) { R.fail("", "a loaded graph changed when its file was overwritten:" + ctx); return; }
    R.stats["save_sequences"]++;
}
static int s01(bool T) {
    string dr = dir();
    // every assignment of states to the pairs of small graphs
    for (auto ns : vector<pair<int, int>>{{3, 4}, {4, 4}, {5, T ? 4 : 3}, {6, T ? 3 : 2}}) {
        int n = ns.first, k = ns.second;
        vector<pair<int, int>> pr;
        for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) pr.push_back({i, j});
        uint64_t total = 1;
        for (size_t i = 0; i < pr.size(); i++) total *= k;
        const uint64_t chunk = 64;
        for (uint64_t c = 0; c < total; c += chunk) {
            if (!R.take()) continue;
            R.nontrivial();
            for (uint64_t m = c; m < min(total, c + chunk); m++) {
                Doc d{scene_of(n), {}, ""};
                uint64_t x = m;
                for (auto &p : pr) { if (x % k) d.E[p] = k == 2 ? 1 + (p.first + p.second) % 2 : x % k; x /= k; }
                s01_case(d, dr, n == 3 || m == c);
                R.stats["graphs"]++;
                if (m == c) R.sample(show(d));
            }
        }
    }
    // land that touches other land: a shared corner, a shared border, corners on another border, three round a point, a polygon given twice
    vector<Scene> touch{{ccw({{0, 0}, {1000, 0}, {0, 1000}}), ccw({{0, 0}, {-1000, 0}, {0, -1000}})},
                        {ccw({{0, 0}, {1000, 0}, {0, 1000}}), ccw({{1000, 0}, {1000, 1000}, {0, 1000}})},
                        {ccw({{0, 0}, {1000, 0}, {0, 1000}}), ccw({{500, 500}, {1000, 1000}, {500, 900}})},
                        {ccw({{0, 0}, {1000, 0}, {0, 1000}}), ccw({{0, 0}, {0, 1000}, {-1000, -500}}), ccw({{0, 0}, {-1000, -500}, {1000, 0}})},
                        {ccw({{0, 0}, {1000, 0}, {0, 1000}}), ccw({{0, 0}, {1000, 0}, {0, 1000}})}};
    for (auto &S : touch) {
        int n = places(S).size(), k = n > 5 ? 2 : n > 4 && !T ? 3 : 4;
        vector<pair<int, int>> pr;
        for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) pr.push_back({i, j});
        uint64_t total = 1;
        for (size_t i = 0; i < pr.size(); i++) total *= k;
        for (uint64_t c = 0; c < total; c += 64) {
            if (!R.take()) continue;
            R.nontrivial();
            for (uint64_t m = c; m < min(total, c + 64); m++) {
                Doc d{S, {}, ""};
                uint64_t x = m;
                for (auto &p : pr) { if (x % k) d.E[p] = k == 2 ? 1 + (p.first + p.second) % 2 : x % k; x /= k; }
                s01_case(d, dr, m == c);
                R.stats["graphs"]++;
                if (m == c) R.sample(show(d));
            }
        }
    }
    // sizes around multiples of eight
    for (int n = 0; n <= (T ? 136 : 66); n++) {
        if (n == 1 || n == 2) continue;
        Doc base{scene_of(n), {}, to_string(n) + " vertices"};
        auto run = [&](Doc d, bool pri) { s01_case(d, dr, pri); R.stats["graphs"]++; };
        if (R.take()) { R.nontrivial(); R.sample(base.name + ": none, all, all crossing, alternating");
            for (int kind = 0; kind < 5; kind++) {
                Doc d = base;
                for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) {
                    int s = kind == 0 ? 0 : kind == 1 ? 1 : kind == 2 ? 2 : kind == 3 ? (i + j) % 3 : 3;
                    if (s) d.E[{i, j}] = s;
                }
                run(d, true);
            }
        }
        bool all = n <= 33 || T;
        for (int i = 0; i < n; i++) {
            if (!all && i % 8 > 1 && i % 8 < 7) continue;
            if (!R.take()) continue;
            R.nontrivial(), R.sample(base.name + ": each single edge of vertex " + to_string(i));
            for (int j = i + 1; j < n; j++) {
                Doc d = base;
                d.E[{i, j}] = 1 + (i * 31 + j) % 2;
                run(d, false);
                if (j % 8 == 7 || j % 8 <= 1 || n < 20) {
                    Doc full = base;
                    for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) if (!(a == i && b == j)) full.E[{a, b}] = 1 + (a == i || b == j);
                    run(full, false);
                }
            }
        }
    }
    // sizes at which vertex, polygon and edge numbers outgrow one and two bytes
    {
        Scene many, one{ngon(390, -170 * M, -80 * M, 100)};
        for (int k = 0; k < 270; k++) many.push_back(ngon(3, -170 * M + (k % 27) * 10 * M, -80 * M + (k / 27) * 10 * M, 1000 + k));
        for (auto *S : {&one, &many}) {
            int n = verts(*S).size();
            Doc full{*S, {}, to_string(n) + " vertices"};
            for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (S == &one || (i + j) % 9 == 0 || j - i < 3) full.E[{i, j}] = 1;
            vector<pair<int, int>> es;
            for (auto &e : full.E) es.push_back(e.first);
            int tries = T ? 64 : 16;
            for (int k = 0; k < tries; k++) { // one marked edge among all, and the few with the numbers around a power of two from it
                if (!R.take()) continue;
                R.nontrivial(), R.sample(full.name + ": one marked edge among " + to_string(es.size()));
                Doc d = full;
                size_t at = k < 2 ? k * (es.size() - 1) : (es.size() * k) / tries;
                d.E[es[at]] = 2;
                if (k % 4 == 3) for (size_t w : {1u, 256u, 257u, 65535u, 65536u}) if (at + w < es.size()) d.E[es[at + w]] = 2;
                s01_case(d, dr, false);
                R.stats["graphs"]++, R.stats["large_graphs"]++;
            }
            if (R.take()) {
                R.nontrivial(), R.sample(full.name + ": a single edge, marks everywhere, nothing");
                Doc d{*S, {}, full.name};
                s01_case(d, dr, false);
                d.E[{n - 2, n - 1}] = 2;
                s01_case(d, dr, false);
                d = full;
                for (auto &e : d.E) if ((e.first.first + e.first.second) % 3) e.second = 2;
                s01_case(d, dr, false);
            }
        }
    }
    // polygons of many vertices, and many polygons: counts either side of the powers of two
    for (int sz : {127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049}) for (int kind = 0; kind < 3; kind++) {
        if (!T && sz > (kind == 0 ? 1100 : kind == 1 ? 520 : 260)) continue;
        if (!R.take()) continue;
        Scene S;
        if (kind == 0) S = {ngon(sz, -170 * M, -80 * M, 10)}; // one of many vertices
        if (kind == 1) for (int k = 0; k < sz; k++) S.push_back(ngon(3, -170 * M + (k % 64) * 5 * M, -80 * M + (k / 64) * 4 * M, 1000 + k)); // many of few
        if (kind == 2) S = {ngon(3, -170 * M, 5, 10), ngon(sz, 3 * M, -80 * M, 10), ngon(4, 100 * M, 5, 10), ngon(sz - 1, 120 * M, -80 * M, 10)};
        int n = verts(S).size();
        Doc d{S, {}, to_string(S.size()) + " polygons, " + to_string(n) + " vertices"};
        for (int i = 0; i < n; i++) for (int j : {i + 1, i + 7, n - 1 - i, (int)((int64_t)i * i % n)})
            if (j > i && j < n) d.E[{i, j}] = 1 + (i + j) % 3 % 2;
        R.nontrivial(), R.sample(d.name);
        s01_case(d, dr, false);
        R.stats["graphs"]++, R.stats["large_graphs"]++;
    }
    // sequences of saves to one path
    vector<Doc> docs;
    for (int n : {0, 3, 7, 10, 25}) {
        Doc d{scene_of(n), {}, to_string(n) + "v"};
        docs.push_back(d);
        for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if ((i + j) % 2) d.E[{i, j}] = 1 + j % 3;
        d.name += "e";
        if (n) docs.push_back(d);
    }
    int nd = docs.size();
    for (int a = 0; a < nd; a++) for (int b = 0; b < nd; b++) {
        if (!R.take()) continue;
        R.nontrivial(), R.sample("saves in turn: " + docs[a].name + " " + docs[b].name + " *" + (T ? " *" : ""));
        for (int c = 0; c < nd; c++) {
            if (!T) s01_sequence(docs, {a, b, c}, dr);
            else for (int e = 0; e < nd; e++) s01_sequence(docs, {a, b, c, e}, dr);
        }
    }
    // generated graphs with edges across the antimeridian
    vector<Scene> gen{{}, scene_of(6), scene_of(7), scene_of(10), {{{-180 * M, 0}, {-170 * M, 0}, {-170 * M, 10 * M}}, {{170 * M, 0}, {180 * M, 0}, {175 * M, 20 * M}}}};
    for (auto &S : gen) {
        if (!R.take()) continue;
        R.nontrivial(), R.sample("generated " + str(S));
        auto P = PS(S);
        auto g = VisgraphGenerator::generate(P);
        Doc d{S, {}, ""};
        auto v = verts(S);
        for (size_t i = 0; i < v.size(); i++) for (size_t j = i + 1; j < v.size(); j++)
            if (g->has_edge(C(v[i]), C(v[j]))) d.E[{(int)i, (int)j}] = g->is_edge_meridian_crossing(C(v[i]), C(v[j])) ? 2 : 1;
        string p = dr + "/gen";
        GraphSerializer::serialize_to_file(g, p);
        if (auto w = check_saved(p, d); !w.empty()) R.fail("", "generated graph " + w + " " + str(S));
        auto l = GraphSerializer::deserialize_from_file(p);
        if (!(*l == *g)) R.fail("", "a loaded graph does not compare equal to the saved one " + str(S));
    }
    return R.finish("one case = a chunk of graphs (every assignment of edge states to all pairs of up to six vertices; every single edge, its complement and uniform "
                    "patterns for up to 66 vertices; single marks among the 76000 edges of large graphs), each saved, loaded, compared, saved again and saved over files of other contents; sequences of saves to one path");
}

// ---- S02 ------------------------------------------------------------------------------------------------------------------
// The file is read through a heap copy of exactly its length, so that reading past its end is seen by AddressSanitizer.
static map<void *, pair<size_t, char *>> heap_maps;
extern "C" {
void *__real_mmap(void *, size_t, int, int, int, off_t);
int __real_munmap(void *, size_t);
static bool heap_on = false;
void *__wrap_mmap(void *a, size_t len, int prot, int flags, int fd, off_t off) {
    if (!heap_on || fd < 0 || (prot & PROT_WRITE) || off != 0) return __real_mmap(a, len, prot, flags, fd, off);
    struct stat st;
    if (fstat(fd, &st) || !S_ISREG(st.st_mode) || len == 0) return __real_mmap(a, len, prot, flags, fd, off);
    char *p = (char *)malloc(len);
    memset(p, 0, len);
    if (pread(fd, p, len, 0) < 0) { free(p); errno = EIO; return MAP_FAILED; }
    heap_maps[p] = {len, p};
    R.stats["mappings_on_heap"]++;
    return p;
}
int __wrap_munmap(void *p, size_t len) {
    auto i = heap_maps.find(p);
    if (i == heap_maps.end()) return __real_munmap(p, len);
    free(i->second.second);
    heap_maps.erase(i);
    return 0;
}
}
static void walk(const Graph &g) { // a well-formed graph can be asked everything
    auto v = g.get_vertices();
    size_t n = 0;
    for (auto &p : g.get_polygons()) n += p.get_vertices().size();
    if (n != v.size()) R.fail("", "a damaged file loads as a graph whose vertices are not those of its polygons");
    set<Pt> known;
    for (auto &c : v) known.insert(P_(c));
    if (v.size() > 40) v.resize(40);
    for (auto &a : v) {
        if (!g.has_vertex(a)) R.fail("", "a damaged file loads as a graph that does not know its own vertices");
        set<Pt> nb;
        for (auto &b : g.get_neighbors(a)) {
            nb.insert(P_(b));
            if (b == a) R.fail("", "a damaged file loads as a graph with a vertex next to itself");
            if (!known.count(P_(b))) R.fail("", "a damaged file loads as a graph with a neighbour that is no vertex");
        }
        for (auto &b : v) {
            bool e = g.has_edge(a, b);
            if (e != g.has_edge(b, a)) R.fail("", "a damaged file loads as a one-way graph");
            if (e != (nb.count(P_(b)) > 0)) R.fail("", "a damaged file loads as a graph whose neighbours are not its edges");
            if (g.is_edge_meridian_crossing(a, b) && !e) R.fail("", "a damaged file loads with a mark on no edge");
        }
    }
}
struct Bad { string name, bytes; bool cut; };
static void s02_one(const string &p, const string &bytes, const Doc *orig, const string &ctx) {
    put(p, bytes);
    shared_ptr<Graph> g;
    string err;
    try { g = GraphSerializer::deserialize_from_file(p); } catch (const exception &e) { err = e.what(); R.stats["rejected"]++; }
    R.stats["files_loaded"]++;
    if (err.empty()) {
        if (!g) { R.fail("", "nothing returned and no error, " + ctx); return; }
        R.stats["accepted"]++;
        walk(*g);
        if (orig)
            if (auto w = differs(*g, *orig); !w.empty()) R.fail("", "a file that was cut short loads as another graph: " + w + ", " + ctx);
    } else R.outcomes.insert(err.substr(0, 60));
    if (!heap_maps.empty()) R.fail("", "a mapping outlives the call, " + ctx), heap_maps.clear();
}
static int s02(bool T) {
    string dr = dir(), p = dr + "/d";
    vector<Doc> docs;
    for (int n : {0, 3, 6, 7, 10}) {
        Doc d{scene_of(n), {}, to_string(n) + " vertices"};
        for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if ((i * 3 + j) % 4) d.E[{i, j}] = 1 + (i + j) % 2;
        docs.push_back(d);
    }
    Doc plain{scene_of(6), {{{0, 1}, 1}, {{2, 5}, 1}}, "6 vertices without marks"};
    docs.push_back(plain);
    if (T) {
        Doc d{scene_of(25), {}, "25 vertices"};
        for (int i = 0; i < 25; i++) for (int j = i + 1; j < 25; j++) if ((i * 3 + j) % 4) d.E[{i, j}] = 1 + (i + j) % 2;
        docs.push_back(d);
    }
    for (auto &d : docs) {
        GraphSerializer::serialize_to_file(make(d), p);
        string b = bytes_of(p);
        heap_on = true;
        if (R.take()) { R.nontrivial(); R.sample(d.name + " undamaged"); s02_one(p, b, &d, "undamaged " + d.name); }
        for (size_t len = 0; len < b.size(); len++) {
            if (!R.take()) continue;
            R.nontrivial(), R.sample(d.name + " cut to " + to_string(len));
            s02_one(p, b.substr(0, len), &d, d.name + " cut to " + to_string(len) + " of " + to_string(b.size()));
        }
        for (size_t ext : {1, 7, 8, 16, 5000}) for (char f : {'\0', '\xff', '\x01'}) {
            if (!R.take()) continue;
            R.nontrivial(), R.sample(d.name + " extended by " + to_string(ext));
            s02_one(p, b + string(ext, f), nullptr, d.name + " extended");
        }
        for (size_t i = 0; i < b.size(); i++) {
            if (b.size() > 700 && !T && i > 300) break;
            if (!R.take()) continue;
            R.nontrivial(), R.sample(d.name + " byte " + to_string(i) + " set to every value");
            for (int v = 0; v < 256; v++) {
                string x = b;
                x[i] = v;
                s02_one(p, x, nullptr, d.name + " byte " + to_string(i) + " set to " + to_string(v));
            }
        }
        // whole fields set to critical values, at every offset
        vector<uint64_t> crit{0, 1, 2, 3, 4, 7, 8, 255, 256, b.size() / 8, b.size() / 8 + 1, b.size(), b.size() + 1, 0x7fffffff, 0x80000000u, 0xffffffffu, 1ull << 32, 1ull << 60, (1ull << 60) + 1,
                              (1ull << 61) - 1, 1ull << 61, (1ull << 61) + 1, (1ull << 61) + 3, 1ull << 62, 1ull << 63, (1ull << 63) - 1, ~0ull, ~0ull - 1, ~0ull - 7, ~0ull - 8, ~0ull / 8, ~0ull / 8 + 1, ~0ull - b.size()};
        for (size_t i = 0; i + 8 <= b.size(); i++) {
            if (!R.take()) continue;
            R.nontrivial(), R.sample(d.name + " field at " + to_string(i) + " set to critical values");
            for (auto v : crit) {
                string x = b;
                memcpy(&x[i], &v, 8);
                s02_one(p, x, nullptr, d.name + " field at " + to_string(i) + " set to " + to_string(v));
                // and cut short as well
                for (size_t cut : {(size_t)8, i + 8, i + 9, b.size() - 1}) if (cut >= i + 8 && cut < b.size()) s02_one(p, x.substr(0, cut), nullptr, d.name + " field at " + to_string(i) + " set to " + to_string(v) + ", cut to " + to_string(cut));
            }
            for (int32_t v : {INT32_MIN, INT32_MAX, 0, -1, 180000000, -180000001, 2147000000}) {
                string x = b;
                memcpy(&x[i], &v, 4);
                s02_one(p, x, nullptr, d.name + " half field at " + to_string(i) + " set to " + to_string(v));
                memcpy(&x[i + 4], &v, 4);
                s02_one(p, x, nullptr, d.name + " field halves at " + to_string(i) + " set to " + to_string(v));
            }
        }
        // two damaged bytes: all pairs of positions, values that matter
        if (b.size() < 260) for (size_t i = 0; i < b.size(); i++) {
            if (!T && i % 3 && i >= 24) continue;
            if (!R.take()) continue;
            R.nontrivial(), R.sample(d.name + " bytes " + to_string(i) + " and every other");
            for (size_t j = i + 1; j < b.size(); j++)
                for (int v : T ? vector<int>{0, 1, 3, 0x7f, 0x80, 0xff} : vector<int>{0, 0xff})
                    for (int w : T ? vector<int>{0, 2, 0x10, 0xff} : vector<int>{1, 0xff}) {
                        string x = b;
                        x[i] = v, x[j] = w;
                        s02_one(p, x, nullptr, d.name + " bytes " + to_string(i) + "," + to_string(j) + " set to " + to_string(v) + "," + to_string(w));
                    }
        }
        heap_on = false;
    }
    // not a graph file at all
    if (R.take()) {
        R.nontrivial(), R.sample("missing, empty, directory, one byte, long garbage");
        auto must = [&](const string &q, const string &n) {
            if (what([&] { GraphSerializer::deserialize_from_file(q); }).empty()) R.fail("", "no error for " + n);
        };
        unlink((dr + "/none").c_str());
        must(dr + "/none", "a missing file"), must(dr, "a directory"), must(dr + "/d/x", "a path below a file"), must("", "an empty path");
        put(p, "");
        must(p, "an empty file");
        heap_on = true;
        for (int len = 1; len <= 64; len++) for (int f : {0, 1, 2, 3, 255}) s02_one(p, string(len, f), nullptr, "garbage");
        for (int f : {0, 1, 2, 3, 255}) s02_one(p, string(100000, f), nullptr, "long garbage");
        heap_on = false;
    }
    return R.finish("one case = one damage position of one saved file: every truncation, every byte set to all 256 values, every field offset set to critical counts "
                    "and offsets (also cut short), pairs of bytes; run under AddressSanitizer and UBSan on a mapping of exactly the file's length");
}

int main(int argc, char **argv) {
    R.init(argc, argv);
    R.case_seconds = max(R.case_seconds, 60);
    if (R.prop == "S01") return s01(R.thorough);
    if (R.prop == "S02") return s02(R.thorough);
    return 3;
}
