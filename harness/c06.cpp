#include "h.hpp"
#include "gen.hpp"
#include "inside.hpp"
#include <delynoi/models/Region.h>
#include <delynoi/models/hole/PolygonalHole.h>
void run_case(Rng& g, int size) {
  std::vector<Point> v = random_loop(g, size); size_t n = v.size();
  for (size_t i = 0; i < n; i++) if (eqp(v[i], v[(i + 1) % n])) throw Skip();
  std::vector<Point> p = v; std::vector<int> idx = shuffled_indices(g, p);
  std::vector<Point> qs;
  for (int k = 0; k < 12; k++) {
    switch (g.i(0, 6)) {
      case 0: qs.push_back(v[g.i(0, n - 1)]); break;
      case 1: { int i = g.i(0, n - 1); const Point &a = v[i], &b = v[(i + 1) % n]; double t = g.chance(50) ? 0.5 : g.r(0, 1); qs.push_back(Point(a.getX() + t * (b.getX() - a.getX()), a.getY() + t * (b.getY() - a.getY()))); break; }
      case 2: qs.push_back(Point(g.r(-8, 8), v[g.i(0, n - 1)].getY())); break;      // the ray passes a vertex
      case 3: { Point c = v[g.i(0, n - 1)]; qs.push_back(Point(c.getX() + g.i(-1, 1) * 0.5, c.getY())); break; }
      case 4: { int i = g.i(0, n - 1); const Point &a = v[i], &b = v[(i + 1) % n]; double t = 1 + g.r(0, 0.3); qs.push_back(Point(a.getX() + t * (b.getX() - a.getX()), a.getY() + t * (b.getY() - a.getY()))); break; }
      case 5: { Point c = v[g.i(0, n - 1)]; qs.push_back(Point(c.getX() + g.r(-3, 3) * (double)T(), c.getY() + g.r(-3, 3) * (double)T())); break; }
      default: qs.push_back(Point(g.r(-6, 6), g.r(-6, 6)));
    }
  }
  describe(p); describe(idx); describe(qs, "queries");
  Polygon pol; pol.points = idx; pol.area = -1; pol.diameter = -1; pol.calculateHash();
  std::vector<IndexSegment> segs; for (size_t i = 0; i < n; i++) segs.push_back(IndexSegment(i, (i + 1) % n));
  int rot = g.i(0, n - 1); std::rotate(segs.begin(), segs.begin() + rot, segs.end());
  Hole hole(v, Point(0, 0), segs);
  Region reg; reg.p = v; reg.points = iota_(n);
  for (auto& q : qs) {
    int e = inside(v, q);
    int first = -1; bool dec = true; for (size_t i = 0; i < n; i++) { int o = on(q, v[i], v[(i + 1) % n]); if (o < 0) { dec = false; break; } if (o == 1) { first = i; break; } }
    if (dec) {
      IndexSegment c = pol.containerEdge(p, q);
      if (first < 0) CHECK(c.getFirst() == -1 && c.getSecond() == -1, "edge %d-%d reported for (%.17g,%.17g), on no edge", c.getFirst(), c.getSecond(), q.getX(), q.getY());
      else CHECK(c.getFirst() == idx[first] && c.getSecond() == idx[(first + 1) % n], "edge %d-%d reported for (%.17g,%.17g), expected %d-%d", c.getFirst(), c.getSecond(), q.getX(), q.getY(), idx[first], idx[(first + 1) % n]);
      CHECK(pol.inEdges(p, q) == (first >= 0), "(%.17g,%.17g) on edge %d", q.getX(), q.getY(), first);
      CHECK(reg.inEdges(q) == (first >= 0), "region: (%.17g,%.17g) on edge %d", q.getX(), q.getY(), first);
      if (first >= 0) NONTRIVIAL();
    }
    if (e >= 0) {
      CHECK(pol.containsPoint(p, q) == (e == 1), "polygon: (%.17g,%.17g) inside: expected %d", q.getX(), q.getY(), e);
      CHECK(hole.containsPoint(q) == (e == 1), "hole: (%.17g,%.17g) inside: expected %d", q.getX(), q.getY(), e);
      CHECK(reg.containsPoint(q) == (e == 1), "region: (%.17g,%.17g) inside: expected %d", q.getX(), q.getY(), e);
    }
  }
}
