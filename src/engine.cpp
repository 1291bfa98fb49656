// The engine on its own, for comparison with what the Python interface gives. Reads requests, answers each with lines and "end".
//   gen N then per polygon: K lon lat ...      whole graph, as text
//   range A B SEED N ...                       part of it
//   open FILE                                  graph of a file, as text, used by the requests below
//   path LON LAT LON LAT LIMIT CORRECT WEIGHT
//   ops LON LAT LON LAT SCALAR                 coordinate arithmetic
//   polygon K LON LAT ...                      normal form, as text
//   vis LON LAT HALF N ...                     visible vertices with their marks
//   batch COUNT LIMIT CORRECT WEIGHT then LON LAT LON LAT each
#include "datastructures/graph/graph.hpp"
#include "serialization/graph_serializer.hpp"
#include "shortest_path/shortest_path_computer.hpp"
#include "visgraph/visgraph_generator.hpp"
#include "visgraph/vistree_generator.hpp"
#include <cstdio>
#include <iostream>
#include <sstream>
using namespace std;
struct NullBuf : streambuf { int overflow(int c) override { return c; } };
static double num() {
    string s;
    cin >> s;
    return strtod(s.c_str(), nullptr);
}
static vector<Polygon> polys() {
    vector<Polygon> r;
    int n = num();
    while (n--) {
        int k = num();
        vector<Coordinate> v;
        for (int i = 0; i < k; i++) { double lon = num(), lat = num(); v.emplace_back(lon, lat); }
        r.emplace_back(v);
    }
    return r;
}
static void print(const vector<Coordinate> &p) {
    printf("ok");
    for (auto &c : p) printf(" %.17g %.17g", c.get_longitude(), c.get_latitude());
    printf("\n");
}
int main() {
    NullBuf nb;
    cout.rdbuf(&nb);
    shared_ptr<Graph> g;
    unique_ptr<ShortestPathComputer> spc;
    string cmd;
    while (cin >> cmd) {
        try {
            if (cmd == "gen") printf("%s\n", VisgraphGenerator::generate(polys())->to_string_representation().c_str());
            else if (cmd == "range") {
                size_t a = num(), b = num();
                unsigned seed = num();
                printf("%s\n", VisgraphGenerator::generate_with_shuffled_range(polys(), a, b, seed)->to_string_representation().c_str());
            } else if (cmd == "open") {
                string f;
                cin >> f;
                spc = nullptr;
                g = GraphSerializer::deserialize_from_file(f);
                spc = make_unique<ShortestPathComputer>(g);
                printf("%s\n", g->to_string_representation().c_str());
            } else if (cmd == "path") {
                double a = num(), b = num(), c = num(), d = num(), lim = num();
                int corr = num();
                double wt = num();
                print(spc->shortest_path(Coordinate(a, b), Coordinate(c, d), lim, corr, wt));
            } else if (cmd == "ops") {
                double a = num(), b = num(), c = num(), d = num(), x = num();
                Coordinate p(a, b), q(c, d);
                auto out = [](const char *n, const Coordinate &r) { printf("%s %.17g %.17g %s\n", n, r.get_longitude(), r.get_latitude(), r.to_string_representation().c_str()); };
                out("self", p), out("neg", -p), out("sub", p - q), out("add", p + q), out("mul", p * x), out("div", p / x);
                printf("eq %d %d\n", p == q, p != q);
                printf("num %.17g %.17g %.17g %.17g\n", p.dot_product(q), p.cross_product_magnitude(q), p.magnitude_squared(), p.magnitude());
            } else if (cmd == "polygon") {
                int k = num();
                vector<Coordinate> v;
                for (int i = 0; i < k; i++) { double lon = num(), lat = num(); v.emplace_back(lon, lat); }
                Polygon p(v);
                print(p.get_vertices());
                printf("%s\n", p.to_string_representation().c_str());
            } else if (cmd == "vis") {
                double a = num(), b = num();
                int half = num();
                for (auto &v : VistreeGenerator(polys()).get_visible_vertices(Coordinate(a, b), half))
                    printf("%.17g %.17g %d\n", v.coord.get_longitude(), v.coord.get_latitude(), v.is_visible_across_meridian);
            } else if (cmd == "batch") {
                int n = num();
                double lim = num();
                int corr = num();
                double wt = num();
                vector<pair<Coordinate, Coordinate>> q;
                while (n--) { double a = num(), b = num(), c = num(), d = num(); q.emplace_back(Coordinate(a, b), Coordinate(c, d)); }
                for (auto &r : spc->shortest_paths(q, lim, corr, wt)) {
                    if (r.error_msg) printf("error %s\n", r.error_msg->c_str());
                    else print(*r.path);
                }
            }
        } catch (const exception &e) { printf("error %s\n", e.what()); }
        printf("end\n");
        fflush(stdout);
    }
}
