// Great-circle geometry in long double, used as the oracle where the library works on the sphere.
#pragma once
#include "geo.hpp"
using std::max;
using std::min;
struct V3 { long double x, y, z; };
inline V3 sph(Pt p) {
    long double la = p.y * 1e-6L * M_PIl / 180, lo = p.x * 1e-6L * M_PIl / 180;
    return {cosl(la) * cosl(lo), cosl(la) * sinl(lo), sinl(la)};
}
inline V3 cr(V3 a, V3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
inline long double dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V3 sub(V3 a, V3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline long double len(V3 a) { return sqrtl(dot(a, a)); }
inline long double ang(V3 a, V3 b) { return 2 * asinl(min(1.0L, len(sub(a, b)) / 2)); }
// sign of the triple product, 0 if too close to call
inline int tri(V3 a, V3 b, V3 c) {
    V3 u = sub(b, a), v = sub(c, a);
    long double d = dot(cr(u, v), a), s = max(len(u), max(len(v), len(sub(b, c))));
    return fabsl(d) < 2e-14L * s ? 0 : d > 0 ? 1 : -1;
}
enum Tri { NO, YES, FREE };
inline Tri gcross(V3 a, V3 b, V3 c, V3 d) { // do arcs (each shorter than half a circle) cross properly?
    int p = tri(a, b, c), q = tri(a, b, d), r = tri(c, d, a), s = tri(c, d, b);
    if (!p || !q || !r || !s) return FREE;
    if (p == q || r == s) return NO;
    return p != r ? YES : NO; // opposite sides of the sphere give the other pattern
}
inline long double segdist(V3 p, V3 a, V3 b) {
    V3 n = cr(a, b);
    long double l = len(n);
    if (l > 0) {
        n = {n.x / l, n.y / l, n.z / l};
        if (dot(cr(n, a), p) > 0 && dot(cr(b, n), p) > 0) return fabsl(asinl(max(-1.0L, min(1.0L, dot(n, p)))));
    }
    return min(ang(p, a), ang(p, b));
}
