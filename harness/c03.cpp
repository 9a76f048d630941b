#include "h.hpp"
#include "gen.hpp"
#include <delynoi/models/neighbourhood/PointMap.h>
void run_case(Rng& g, int size) {
  double T = DelynoiConfig::instance()->getTolerance(); int m = 1 + g.i(0, 2 + size / 6), n = 4 + 2 * size; double sc = g.pick(std::vector<double>{1, 0.5, 100, 3 * T});
  auto make = [&](int& a, int& b) { a = g.i(-m, m); b = g.i(-m, m); double d = sc > T * 10 && g.chance(40) ? g.r(-0.3, 0.3) * T : 0, e = sc > T * 10 && g.chance(40) ? g.r(-0.3, 0.3) * T : 0; return Point(a * sc + d, b * sc + e); };
  PointMap t; std::map<std::pair<int, int>, std::vector<int>> ref;
  for (int k = 0; k < n; k++) {
    int a, b; Point p = make(a, b); auto& r = ref[{a, b}];
    if (g.chance(60)) { int x = g.i(0, 20); desc(fmt("register (%.17g,%.17g) for %d", p.getX(), p.getY(), x)); t.insert(p, x); r.push_back(x); }
    else { std::vector<int> l; int c = g.i(0, 4); for (int j = 0; j < c; j++) l.push_back(g.i(0, 20)); desc(fmt("register (%.17g,%.17g) for a list", p.getX(), p.getY())); describe(l); t.insert(p, l); for (int x : l) r.push_back(x); }
    int c, d; Point q = make(c, d); auto it = ref.find({c, d});
    if (it != ref.end()) { std::vector<int> got = t.get(q).getNeighbours(); CHECK(got == it->second, "(%.17g,%.17g): %d polygons, expected %d (or another order)", q.getX(), q.getY(), (int)got.size(), (int)it->second.size()); }
    CHECK(t.size() == (int)ref.size(), "%d points, expected %d", t.size(), (int)ref.size());
  }
  for (auto& v : ref) { std::vector<int> got = t.get(Point(v.first.first * sc, v.first.second * sc)).getNeighbours(); CHECK(got == v.second, "(%g,%g): %d polygons, expected %d (or another order)", v.first.first * sc, v.first.second * sc, (int)got.size(), (int)v.second.size()); }
  if (ref.size() > 2) NONTRIVIAL();
}
