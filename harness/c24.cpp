#include "h.hpp"
#include "gen.hpp"
#include <delynoi/models/Region.h>
#include <delynoi/models/basic/IndexSegment.h>
typedef long double ld;
static ld T() { return DelynoiConfig::instance()->getTolerance(); }
static int meets(const Point& a, const Point& b, const Point& c, const Point& d) {
  ld den = ((ld)b.getX() - a.getX()) * ((ld)d.getY() - c.getY()) - ((ld)d.getX() - c.getX()) * ((ld)b.getY() - a.getY());
  double dd = (b.getX() - a.getX()) * (d.getY() - c.getY()) - (d.getX() - c.getX()) * (b.getY() - a.getY());
  ld S = (fabsl(a.getX()) + fabsl(b.getX()) + fabsl(c.getX()) + fabsl(d.getX()) + 1) * (fabsl(a.getY()) + fabsl(b.getY()) + fabsl(c.getY()) + fabsl(d.getY()) + 1);
  if (den == 0 && dd == 0) return 0;
  if (fabsl(den) < 1e-7L * S) return -1;
  ld t = (((ld)d.getX() - c.getX()) * ((ld)a.getY() - c.getY()) - ((ld)d.getY() - c.getY()) * ((ld)a.getX() - c.getX())) / den;
  ld s = (((ld)b.getX() - a.getX()) * ((ld)a.getY() - c.getY()) - ((ld)b.getY() - a.getY()) * ((ld)a.getX() - c.getX())) / den;
  ld e = 1e-13L * S / fabsl(den);
  int r = 1; for (ld u : {t, s}) { if (u < -T() - e || u > 1 + T() + e) return 0; if (u < -T() + e || u > 1 + T() - e) r = -1; }
  return r;
}
static int selfint(const std::vector<Point>& p, const std::vector<int>& v) {
  int n = v.size(); int r = 0;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (i == j || (i + 1) % n == j || (j + 1) % n == i) continue; int m = meets(p[v[i]], p[v[(i + 1) % n]], p[v[j]], p[v[(j + 1) % n]]); if (m == 1) return 1; if (m < 0) r = -1; }
  return r;
}
void run_case(Rng& g, int size) {
  std::vector<Point> v = g.chance(60) ? random_loop(g, size) : random_points(g, g.i(3, 8)); 
  if (g.chance(25)) { int k = g.i(0, (int)v.size() - 1); const Point a = v[k], b = v[(k + 1) % v.size()]; v.insert(v.begin() + k + 1, Point((a.getX() + b.getX()) / 2, (a.getY() + b.getY()) / 2)); }
  if (g.chance(15)) { int k = g.i(0, (int)v.size() - 1); if (k < (int)v.size() - 1) std::swap(v[k], v[k + 1]); }
  std::vector<Point> p = v; std::vector<int> idx = shuffled_indices(g, p); int n = idx.size();
  describe(p); describe(idx);
  int si = selfint(p, idx);
  Polygon pol; pol.points = idx; pol.area = -1; pol.diameter = -1; pol.calculateHash();
  // edges, vertices, points
  std::vector<IndexSegment> s; s.push_back(IndexSegment(900, 901)); pol.getSegments(s);
  CHECK((int)s.size() == n + 1 && s[0].getFirst() == 900 && s[0].getSecond() == 901, "%d edges listed, expected %d", (int)s.size() - 1, n);
  for (int i = 0; i < n; i++) CHECK(s[i + 1].getFirst() == idx[i] && s[i + 1].getSecond() == idx[(i + 1) % n] && s[i + 1] == IndexSegment(idx[i], idx[(i + 1) % n]), "edge %d is %d-%d", i, s[i + 1].getFirst(), s[i + 1].getSecond());
  std::vector<Point> q = pol.getPoints(p); CHECK((int)q.size() == n, "%d points", (int)q.size());
  for (int i = 0; i < n; i++) CHECK(q[i].getX() == p[idx[i]].getX() && q[i].getY() == p[idx[i]].getY(), "point %d", i);
  CHECK(pol.numberOfSides() == n && static_cast<const Polygon&>(pol).getPoints() == idx && pol.getPoints() == idx, "vertex list");
  for (int k = -1; k < (int)p.size() + 1; k++) CHECK(pol.isVertex(k) == (std::find(idx.begin(), idx.end(), k) != idx.end()), "vertex %d", k);
  for (int k = 0; k < 15; k++) {
    int a = idx[g.i(0, n - 1)], b = g.chance(70) ? idx[g.i(0, n - 1)] : g.i(-1, (int)p.size());
    if (g.chance(40)) { int i = g.i(0, n - 1); a = idx[i]; b = idx[(i + 1) % n]; if (g.b()) std::swap(a, b); }
    if (g.chance(5)) std::swap(a, b);
    bool e = false; for (int i = 0; i < n; i++) e = e || (idx[i] == a && idx[(i + 1) % n] == b) || (idx[i] == b && idx[(i + 1) % n] == a);
    IndexSegment ab(a, b); CHECK(pol.containsEdge(ab) == e, "edge %d-%d of the polygon: expected %d", a, b, e);
  }
  // convexity
  { bool pos = false, neg = false, unk = false; for (int i = 0; i < n; i++) { const Point &a = p[idx[i]], &b = p[idx[(i + 1) % n]], &c = p[idx[(i + 2) % n]]; ld cr = ((ld)b.getX() - a.getX()) * ((ld)c.getY() - a.getY()) - ((ld)b.getY() - a.getY()) * ((ld)c.getX() - a.getX());
      ld e = 1e-14L * (1 + fabsl(a.getX()) + fabsl(b.getX()) + fabsl(c.getX())) * (1 + fabsl(a.getY()) + fabsl(b.getY()) + fabsl(c.getY()));
      double d2 = (b.getX() - a.getX()) * (c.getY() - a.getY()) - (b.getY() - a.getY()) * (c.getX() - a.getX());
      if (cr > e) pos = true; else if (cr < -e) neg = true; else if (cr != 0 || d2 != 0) unk = true; }
    if (pos && neg) CHECK(!pol.isConvex(p), "turns in both directions"); else if (!unk) CHECK(pol.isConvex(p), "no opposite turns"); }
  // equality: rotation, direction; copies
  { std::vector<int> w = idx; std::rotate(w.begin(), w.begin() + g.i(0, n - 1), w.end()); if (g.b()) std::reverse(w.begin(), w.end());
    Polygon o; o.points = w; o.area = -1; o.diameter = -1; o.calculateHash(); CHECK(pol == o && o == pol, "same vertices in another rotation or direction");
    Polygon cp(pol); CHECK(cp == pol && static_cast<const Polygon&>(cp).getPoints() == idx, "copy");
    w[g.i(0, n - 1)] = 4000 + g.i(0, 100); Polygon d; d.points = w; d.area = -1; d.diameter = -1; d.calculateHash(); CHECK(!(pol == d), "different vertices"); }
  // crossings
  if (si >= 0) {
    CHECK(pol.isSelfIntersecting(p) == (si == 1), "expected %d", si);
    if (si == 1) NONTRIVIAL();
    std::vector<Point> w = v, tri = {Point(0, 0), Point(1, 0), Point(0, 1)};
    Polygon m(tri); bool refused = false;
    try { m.mutate(w); } catch (std::exception&) { refused = true; }
    CHECK(refused == (si == 1), "changing the outline to %s points was %s", si ? "crossing" : "proper", refused ? "refused" : "accepted");
    if (!refused) { CHECK(static_cast<const Polygon&>(m).getPoints() == iota_(n) && m.area == -1 && m.diameter == -1, "outline after the change");
      ld A = 0; for (int i = 0; i < n; i++) A += (ld)v[i].getX() * v[(i + 1) % n].getY() - (ld)v[(i + 1) % n].getX() * v[i].getY(); CHECK(fabsl(m.getArea(w) - A / 2) < 1e-8L * (1 + fabsl(A)), "area after the change"); 
      Polygon f; f.points = iota_(n); f.calculateHash(); CHECK(m == f, "hash after the change"); }
    refused = false; try { Polygon c(w); CHECK(static_cast<const Polygon&>(c).getPoints() == iota_(n), "constructed outline"); } catch (std::exception&) { refused = true; } CHECK(refused == (si == 1), "constructor from %s points", si ? "crossing" : "proper");
    Region r; refused = false; try { r.mutate(w); } catch (std::exception&) { refused = true; } CHECK(refused == (si == 1), "region outline");
  }
}
