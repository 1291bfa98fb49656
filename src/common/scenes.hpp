// Exhaustive scene families. Every family is a finite set enumerated in a fixed order; scenes are counter-clockwise,
// simple, pairwise disjoint polygons in exact integer microdegrees.
#pragma once
#include "geo.hpp"
#include <functional>

struct Grid {
    int w, h;
    int64_t ux, uy, ox, oy; // spacing and origin
    int jitter;             // 0: exact lattice (many collinear triples); 1: perturbed by up to ~1/5 of a cell (general position)
    Pt at(int i, int j) const {
        int64_t x = ox + i * ux, y = oy + j * uy;
        if (jitter) {
            x += ((i * 7 + j * 13 + i * j * 5) % 11) * ux / 53;
            y += ((i * 5 + j * 3 + i * i * 7) % 13) * uy / 61;
        }
        return {x, y};
    }
    std::vector<Pt> points() const {
        std::vector<Pt> r;
        for (int j = 0; j < h; j++)
            for (int i = 0; i < w; i++) r.push_back(at(i, j));
        return r;
    }
};
typedef std::function<void(const Scene &)> SceneFn;

inline Poly ccw(Poly P) {
    if (area2(P) < 0) std::reverse(P.begin() + 1, P.end());
    return P;
}
// all simple polygons with exactly n corners among the points (each cyclic order once)
inline std::vector<Poly> polygons_on(const std::vector<Pt> &g, int n) {
    std::vector<Poly> out;
    std::vector<int> c(n);
    std::function<void(int, int)> choose = [&](int k, int from) {
        if (k == n) {
            std::vector<int> p(c.begin() + 1, c.end());
            do {
                if (p.front() > p.back()) continue; // mirror image of the same cycle
                Poly P{g[c[0]]};
                for (int i : p) P.push_back(g[i]);
                if (simple(P)) out.push_back(ccw(P));
            } while (std::next_permutation(p.begin(), p.end()));
            return;
        }
        for (int i = from; i < (int)g.size(); i++) {
            c[k] = i;
            choose(k + 1, i + 1);
        }
    };
    choose(0, 0);
    return out;
}
inline bool convex(const Poly &P) {
    int n = P.size();
    for (int i = 0; i < n; i++)
        if (orient(P[i], P[(i + 1) % n], P[(i + 2) % n]) <= 0) return false;
    return true;
}
inline void single(const std::vector<Poly> &A, const SceneFn &f) {
    for (auto &P : A) f({P});
}
inline void pairs(const std::vector<Poly> &A, const std::vector<Poly> &B, bool same, const SceneFn &f) {
    for (size_t i = 0; i < A.size(); i++)
        for (size_t j = same ? i + 1 : 0; j < B.size(); j++)
            if (disjoint(A[i], B[j])) f({A[i], B[j]});
}
inline void triples(const std::vector<Poly> &A, const SceneFn &f) {
    for (size_t i = 0; i < A.size(); i++)
        for (size_t j = i + 1; j < A.size(); j++) {
            if (!disjoint(A[i], A[j])) continue;
            for (size_t k = j + 1; k < A.size(); k++)
                if (disjoint(A[i], A[k]) && disjoint(A[j], A[k])) f({A[i], A[j], A[k]});
        }
}
// Polygons that touch: the interiors are apart, the boundaries are not.
inline bool apart(const Poly &A, const Poly &B) {
    int n = A.size(), m = B.size();
    for (int i = 0; i < n; i++)
        if (los1(B, A[i], A[(i + 1) % n]) == BLOCKED) return false;
    for (int j = 0; j < m; j++)
        if (los1(A, B[j], B[(j + 1) % m]) == BLOCKED) return false;
    // neither boundary enters the other interior, so the polygons are apart or the same
    auto a = A, b = B;
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    return a != b;
}
inline void touching(const std::vector<Poly> &A, const std::vector<Poly> &B, bool same, const SceneFn &f) {
    for (size_t i = 0; i < A.size(); i++)
        for (size_t j = same ? i + 1 : 0; j < B.size(); j++)
            if (!disjoint(A[i], B[j]) && apart(A[i], B[j])) f({A[i], B[j]});
}
inline void touching_triples(const std::vector<Poly> &A, const SceneFn &f) {
    for (size_t i = 0; i < A.size(); i++)
        for (size_t j = i + 1; j < A.size(); j++) {
            if (!apart(A[i], A[j])) continue;
            for (size_t k = j + 1; k < A.size(); k++)
                if (apart(A[i], A[k]) && apart(A[j], A[k]) && !(disjoint(A[i], A[j]) && disjoint(A[i], A[k]) && disjoint(A[j], A[k]))) f({A[i], A[j], A[k]});
        }
}
// tilings: cells that share borders and corners; every set of at least `least` of them is a scene
inline std::vector<Poly> squares(const Grid &g) {
    std::vector<Poly> r;
    for (int j = 0; j + 1 < g.h; j++) for (int i = 0; i + 1 < g.w; i++) r.push_back(ccw({g.at(i, j), g.at(i + 1, j), g.at(i + 1, j + 1), g.at(i, j + 1)}));
    return r;
}
inline std::vector<Poly> halves(const Grid &g) { // every square cut along one of its diagonals
    std::vector<Poly> r;
    for (int j = 0; j + 1 < g.h; j++)
        for (int i = 0; i + 1 < g.w; i++) {
            Pt a = g.at(i, j), b = g.at(i + 1, j), c = g.at(i + 1, j + 1), d = g.at(i, j + 1);
            if ((i + j) % 2) r.push_back(ccw({a, b, c})), r.push_back(ccw({a, c, d}));
            else r.push_back(ccw({a, b, d})), r.push_back(ccw({b, c, d}));
        }
    return r;
}
inline std::vector<Poly> bricks(const Grid &g) { // two wide, every other row moved by one: corners on the borders of others
    std::vector<Poly> r;
    for (int j = 0; j + 1 < g.h; j++) for (int i = j % 2; i + 2 < g.w; i += 2) r.push_back(ccw({g.at(i, j), g.at(i + 2, j), g.at(i + 2, j + 1), g.at(i, j + 1)}));
    return r;
}
inline std::vector<Poly> fan(Pt c, const std::vector<Pt> &ring) {
    std::vector<Poly> r;
    for (size_t i = 0; i < ring.size(); i++) r.push_back(ccw({c, ring[i], ring[(i + 1) % ring.size()]}));
    return r;
}
inline std::vector<std::vector<Poly>> tilings(bool thorough, int64_t M_ = 1000000) {
    Grid q{4, 4, 1000, 1000, -1500, -1400, 0}, qj{4, 4, 1000, 1000, -1500, -1400, 1}, h{3, 3, 1000, 1000, -1000, -900, 0}, hj{3, 3, 1000, 1000, -1000, -900, 1};
    Grid b{6, 4, 700, 1000, -1700, -1400, 0}, w{4, 3, 110 * M_, 55 * M_, -170 * M_, -50 * M_, 0}, e{4, 4, M_, M_, 177 * M_, -1 * M_, 0}, m{3, 4, 1, 1, -1, -1, 0};
    std::vector<Pt> ring{{1000, 0}, {1000, 1000}, {0, 1000}, {-1000, 1000}, {-1000, 0}, {-1000, -1000}, {0, -1000}, {1000, -1000}};
    std::vector<Pt> odd{{900, 30}, {800, 1100}, {-200, 700}, {-1300, 400}, {-600, -250}, {-700, -1000}, {100, -600}, {1200, -1000}};
    std::vector<std::vector<Poly>> r{squares(q), squares(qj), halves(h), halves(hj), bricks(b), squares(w), squares(e), squares(m), fan({0, 0}, ring), fan({40, -30}, odd), fan({-180 * M_ + 1000, 0}, {{-180 * M_ + 2000, 0}, {-180 * M_ + 1500, 1000}, {-180 * M_, 700}, {-180 * M_, -700}, {-180 * M_ + 1200, -1000}})};
    if (thorough) {
        Grid q4{5, 4, 1000, 1000, -1500, -1400, 1}, h3{4, 3, 1000, 1000, -1000, -900, 0};
        r.push_back(squares(q4)), r.push_back(halves(h3));
    }
    return r;
}
inline void tile_sets(const std::vector<Poly> &cells, int least, const SceneFn &f) {
    for (uint64_t s = 1; s < 1ull << cells.size(); s++) {
        if (__builtin_popcountll(s) < least) continue;
        Scene S;
        for (size_t i = 0; i < cells.size(); i++) if (s >> i & 1) S.push_back(cells[i]);
        f(S);
    }
}
// k unit shapes in distinct cells of a cell grid (cells three lattice steps apart, shapes at most two wide)
inline std::vector<Poly> unit_shapes(const Grid &g, int cx, int cy) {
    auto P = [&](int i, int j) { return g.at(3 * cx + i, 3 * cy + j); };
    return {ccw({P(0, 0), P(1, 0), P(0, 1)}), ccw({P(1, 0), P(1, 1), P(0, 1)}), ccw({P(0, 0), P(2, 1), P(1, 2)}),
            ccw({P(0, 0), P(2, 0), P(2, 2), P(1, 1)}), ccw({P(0, 2), P(1, 0), P(2, 2), P(1, 1)})};
}
inline void unit_sets(const Grid &g, int cw, int ch, int k, const SceneFn &f) {
    std::vector<int> cells;
    Scene S;
    std::function<void(int)> rec = [&](int from) {
        if ((int)S.size() == k) {
            if (disjoint(S)) f(S);
            return;
        }
        for (int c = from; c < cw * ch; c++)
            for (auto &P : unit_shapes(g, c % cw, c / cw)) {
                if (!simple(P)) continue;
                S.push_back(P);
                rec(c + 1);
                S.pop_back();
            }
    };
    rec(0);
}
// larger structured scenes: combs, stars, staircases, spirals, arrays
inline void structured(int64_t u, int64_t ox, int64_t oy, int maxn, const SceneFn &f) {
    auto at = [&](int64_t x, int64_t y) { return Pt{ox + x * u, oy + y * u}; };
    for (int n = 1; n <= maxn; n++) {
        Poly comb{at(0, 0), at(4 * n, 0)}; // n notches seen from above
        for (int i = n; i-- > 0;) {
            comb.push_back(at(4 * i + 4, 7 + i % 3));
            comb.push_back(at(4 * i + 3, 1 + i % 2));
            comb.push_back(at(4 * i + 1, 2));
        }
        comb.push_back(at(0, 8));
        if (simple(comb)) f({ccw(comb)});
        Poly inv = comb;
        for (auto &p : inv) p.y = 2 * oy + 24 * u - p.y;
        if (simple(inv) && simple(comb) && disjoint(ccw(comb), ccw(inv))) f({ccw(comb), ccw(inv)});
    }
    for (int n = 3; n <= maxn + 2; n++) { // star with 2n corners
        Poly star;
        for (int i = 0; i < 2 * n; i++) {
            double a = M_PI * i / n, r = i % 2 ? 40 : 100;
            star.push_back(at((int64_t)std::llround(r * std::cos(a)) + 100, (int64_t)std::llround(r * std::sin(a)) + 100));
        }
        if (simple(star)) f({ccw(star)});
        Poly tri{at(96, 205), at(104, 205), at(100, 215)};
        if (simple(star) && disjoint(ccw(star), ccw(tri))) f({ccw(star), ccw(tri)});
    }
    for (int n = 1; n <= maxn; n++)
        for (int m = 1; m <= n; m++) { // arrays of triangles and squares, slightly sheared
            Scene S;
            for (int i = 0; i < n; i++)
                for (int j = 0; j < m; j++) {
                    int64_t x = 10 * i + j, y = 10 * j + (i * i) % 3;
                    if ((i + j) % 2) S.push_back(ccw({at(x, y), at(x + 4, y), at(x + 5, y + 4), at(x, y + 5)}));
                    else S.push_back(ccw({at(x, y + 1), at(x + 5, y), at(x + 2, y + 5)}));
                }
            if (S.size() <= 16 && disjoint(S)) f(S);
        }
    for (int n = 1; n <= maxn; n++) { // spiral corridor
        Poly outer, inner;
        int64_t x = 0, y = 0, len = 3;
        const int dx[4] = {1, 0, -1, 0}, dy[4] = {0, 1, 0, -1};
        std::vector<Pt> line{{0, 0}};
        for (int i = 0; i < n + 2; i++) {
            x += dx[i % 4] * len, y += dy[i % 4] * len;
            line.push_back({x, y});
            if (i % 2) len += 3;
        }
        // thicken to the left by one
        Poly a, b;
        for (size_t i = 0; i < line.size(); i++) {
            int d0 = i ? (i - 1) % 4 : 0, d1 = i + 1 < line.size() ? i % 4 : d0;
            if (!i) d0 = d1;
            int nx = -dy[d0] + (d0 != d1 ? -dy[d1] : 0), ny = dx[d0] + (d0 != d1 ? dx[d1] : 0);
            a.push_back(at(line[i].x, line[i].y));
            b.push_back(at(line[i].x + nx, line[i].y + ny));
        }
        Poly sp = a;
        sp.insert(sp.end(), b.rbegin(), b.rend());
        if (simple(sp)) f({ccw(sp)});
        Poly t = ccw({at(-20, -20), at(-19, -20), at(-20, -19)});
        if (simple(sp) && disjoint(ccw(sp), t)) f({ccw(sp), t});
    }
}
// A land mass that spans all latitudes, so that nothing is visible around the far side of the world.
// many vertices: one convex land mass, and small triangles in rows
inline std::vector<Pt> rim(int k, bool world) { // one convex land mass with k corners
    std::vector<Pt> r;
    for (int i = 0; i < k; i++) {
        double a = 2 * M_PI * i / k + 0.1;
        r.push_back(world ? Pt{(int64_t)(171e6 * std::cos(a)), (int64_t)(71e6 * std::sin(a))} : Pt{(int64_t)(1e6 * std::cos(a)), (int64_t)(9e5 * std::sin(a))});
    }
    return r;
}
inline Scene islets(int k, bool world) { // k/3 triangles in rows
    Scene S;
    int w = std::max(2, (int)std::sqrt(k / 3.0));
    int64_t u = world ? 340000000 / w : 1000, v = world ? 160000000 / w : 900;
    for (int i = 0; i < k / 3; i++) {
        Pt o{(world ? -170000000 : -500) + i % w * u + i / w * 13, (world ? -80000000 : -400) + i / w * v / 2 + i % w * 7};
        S.push_back({o, {o.x + u / 3, o.y + v / 21}, {o.x + u / 5, o.y + v / 4}});
    }
    return S;
}
// many needles that set out close to an observer at the origin and pass behind the target at (0,600); what hides the target set out farther away
inline Scene needles(int n, int turn, bool hidden) {
    Scene S{{{0, 0}, {-30, -40}, {25, -45}}, {{0, 600}, {-8, 640}, {9, 633}}};
    if (hidden) S.push_back({{3000, 7}, {-3000, 100}, {-3010, 90}});
    for (int k = 0; k < n; k++) S.push_back({{1000 + 30 * k, 300 + 30 * k}, {-50000, 50000 + 600 * k}, {-50010, 50200 + 600 * k}});
    for (auto &P : S) {
        for (auto &p : P) for (int t = 0; t < turn; t++) p = {-p.y, p.x};
        P = ccw(P);
    }
    return S;
}
inline void crowded(bool more, const SceneFn &f) { // scenes with up to some hundreds of vertices
    for (int k : {24, 66, 129}) for (bool w : {false, true}) {
        Scene S = islets(k, w);
        if (disjoint(S)) f(S);
        for (auto &P : S) { if (P.size() == 3) std::reverse(P.begin(), P.end()); for (auto &p : P) p.x = -p.x; }
        if (disjoint(S)) f(S);
    }
    for (int k : {17, 40, 65}) f({ccw(rim(k, k % 2))});
    for (int n : {3, 8, 16, 21, 45}) for (int turn = 0; turn < 4; turn++) for (bool hidden : {true, false})
        if (Scene S = needles(n, turn, hidden); disjoint(S)) f(S);
    if (more) { f({ccw(rim(130, false))}); f({ccw(rim(260, true))}); f(islets(300, false)); }
}
inline Poly wall(int64_t lon) { return ccw({{lon, -90000000}, {lon + 3000000, -90000000}, {lon + 3000000, 90000000}, {lon, 90000000}}); }
