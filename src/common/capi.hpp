// Glue between exact oracle types and the library under test (public interfaces only).
#pragma once
#include "geo.hpp"
#include "coordinate_periodicity/coordinate_periodicity.hpp"
#include "datastructures/graph/graph.hpp"
#include "types/coordinate/coordinate.hpp"
#include "types/polygon/polygon.hpp"
#include "visgraph/visgraph_generator.hpp"
#include "visgraph/vistree_generator.hpp"
inline Coordinate C(Pt p) { return Coordinate((int32_t)p.x, (int32_t)p.y); }
inline Pt P_(const Coordinate &c) { return {c.get_longitude_microdegrees(), c.get_latitude_microdegrees()}; }
inline std::vector<Coordinate> CV(const Poly &P) {
    std::vector<Coordinate> r;
    for (auto &p : P) r.push_back(C(p));
    return r;
}
inline std::vector<Polygon> PS(const Scene &S) {
    std::vector<Polygon> r;
    for (auto &P : S) r.emplace_back(CV(P));
    return r;
}
inline std::vector<Pt> verts(const Scene &S) {
    std::vector<Pt> r;
    for (auto &P : S) r.insert(r.end(), P.begin(), P.end());
    return r;
}
