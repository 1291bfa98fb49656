// Exact integer plane geometry used as the oracle. Nothing here comes from the code under test.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <string>
#include <vector>
typedef __int128 i128;
struct Pt {
    int64_t x, y;
    bool operator==(const Pt &o) const { return x == o.x && y == o.y; }
    bool operator!=(const Pt &o) const { return !(*this == o); }
    bool operator<(const Pt &o) const { return x < o.x || (x == o.x && y < o.y); }
};
typedef std::vector<Pt> Poly;
typedef std::vector<Poly> Scene;
static const int64_t PER = 360000001;

inline int sgn(i128 v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
inline i128 cross(Pt a, Pt b, Pt c) { return (i128)(b.x - a.x) * (c.y - a.y) - (i128)(b.y - a.y) * (c.x - a.x); }
inline int orient(Pt a, Pt b, Pt c) { return sgn(cross(a, b, c)); }
inline bool inbox(Pt a, Pt b, Pt p) {
    return std::min(a.x, b.x) <= p.x && p.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= p.y && p.y <= std::max(a.y, b.y);
}
inline bool onseg(Pt a, Pt b, Pt p) { return orient(a, b, p) == 0 && inbox(a, b, p); }
inline bool openseg(Pt a, Pt b, Pt p) { return onseg(a, b, p) && p != a && p != b; }
inline bool proper(Pt a, Pt b, Pt c, Pt d) {
    return orient(a, b, c) * orient(a, b, d) < 0 && orient(c, d, a) * orient(c, d, b) < 0;
}
inline bool segtouch(Pt a, Pt b, Pt c, Pt d) {
    return proper(a, b, c, d) || onseg(a, b, c) || onseg(a, b, d) || onseg(c, d, a) || onseg(c, d, b);
}
inline i128 area2(const Poly &p) {
    i128 s = 0;
    for (size_t i = 0; i < p.size(); i++) {
        Pt a = p[i], b = p[(i + 1) % p.size()];
        s += (i128)a.x * b.y - (i128)a.y * b.x;
    }
    return s;
}
// 1 strictly inside, 0 on the boundary, -1 outside
inline int inpoly(const Poly &P, Pt q) {
    int n = P.size();
    bool in = false;
    for (int i = 0; i < n; i++) {
        Pt a = P[i], b = P[(i + 1) % n];
        if (onseg(a, b, q)) return 0;
        if ((a.y > q.y) != (b.y > q.y)) {
            int o = orient(a, b, q);
            if (b.y > a.y ? o > 0 : o < 0) in = !in;
        }
    }
    return in ? 1 : -1;
}
// direction v->d strictly inside the interior angle at v (neighbours u before, w after, counter-clockwise polygon)
inline bool incone(Pt u, Pt v, Pt w, Pt d) {
    int a = orient(v, w, d), b = orient(v, d, u), c = orient(v, w, u);
    if (c > 0) return a > 0 && b > 0;
    int a2 = orient(v, u, d), b2 = orient(v, d, w);
    if (c < 0) return !(a2 >= 0 && b2 >= 0);
    return a > 0;
}
enum LOS { BLOCKED = 0, TOUCH = 1, CLEAR = 2 };
static bool ends_on_edges = false; // a line that leaves land from the middle of an edge, or ends there, is clear
inline LOS los1(const Poly &P, Pt p, Pt q) { // P simple and counter-clockwise
    int n = P.size();
    bool touch = false;
    int64_t mx = INT64_MAX, Mx = INT64_MIN, my = INT64_MAX, My = INT64_MIN;
    for (auto &v : P) {
        mx = std::min(mx, v.x), Mx = std::max(Mx, v.x);
        my = std::min(my, v.y), My = std::max(My, v.y);
    }
    if (std::max(p.x, q.x) < mx || std::min(p.x, q.x) > Mx || std::max(p.y, q.y) < my || std::min(p.y, q.y) > My) return CLEAR;
    for (int i = 0; i < n; i++) {
        Pt a = P[i], b = P[(i + 1) % n], u = P[(i + n - 1) % n];
        if (proper(p, q, a, b)) return BLOCKED;
        if (openseg(p, q, a)) {
            touch = true;
            if (incone(u, a, b, p) || incone(u, a, b, q)) return BLOCKED;
        }
        if (a == p && incone(u, a, b, q)) return BLOCKED;
        if (a == q && incone(u, a, b, p)) return BLOCKED;
        if (openseg(a, b, p)) {
            if (orient(a, b, q) > 0) return BLOCKED;
            if (!ends_on_edges || orient(a, b, q) == 0) touch = true;
        }
        if (openseg(a, b, q)) {
            if (orient(a, b, p) > 0) return BLOCKED;
            if (!ends_on_edges || orient(a, b, p) == 0) touch = true;
        }
    }
    if (inpoly(P, p) > 0 || inpoly(P, q) > 0) return BLOCKED;
    return touch ? TOUCH : CLEAR;
}
inline LOS los(const Scene &S, Pt p, Pt q) {
    LOS r = CLEAR;
    for (auto &P : S) {
        LOS l = los1(P, p, q);
        if (l == BLOCKED) return BLOCKED;
        if (l < r) r = l;
    }
    return r;
}
inline Scene periodic(const Scene &S) {
    Scene r;
    for (int k = -1; k <= 1; k++)
        for (auto P : S) {
            for (auto &q : P) q.x += k * PER;
            r.push_back(P);
        }
    return r;
}
inline bool simple(const Poly &P) { // strictly: no straight corners, no touching
    int n = P.size();
    if (n < 3) return false;
    for (int i = 0; i < n; i++) {
        if (orient(P[i], P[(i + 1) % n], P[(i + 2) % n]) == 0) return false;
        for (int j = i + 1; j < n; j++) {
            if (P[i] == P[j]) return false;
            if (j == i + 1 || (i == 0 && j == n - 1)) continue;
            if (segtouch(P[i], P[(i + 1) % n], P[j], P[(j + 1) % n])) return false;
        }
    }
    return area2(P) != 0;
}
inline bool disjoint(const Poly &A, const Poly &B) {
    int n = A.size(), m = B.size();
    for (int i = 0; i < n; i++)
        for (int j = 0; j < m; j++)
            if (segtouch(A[i], A[(i + 1) % n], B[j], B[(j + 1) % m])) return false;
    return inpoly(A, B[0]) < 0 && inpoly(B, A[0]) < 0;
}
inline bool disjoint(const Scene &S) {
    for (size_t i = 0; i < S.size(); i++)
        for (size_t j = i + 1; j < S.size(); j++)
            if (!disjoint(S[i], S[j])) return false;
    return true;
}
inline std::string str(Pt p) { return "(" + std::to_string(p.x) + "," + std::to_string(p.y) + ")"; }
inline std::string str(const Poly &P) {
    std::string s = "[";
    for (auto &p : P) s += str(p);
    return s + "]";
}
inline std::string str(const Scene &S) {
    std::string s = "{";
    for (auto &p : S) s += str(p);
    return s + "}";
}
