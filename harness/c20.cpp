#include "inside.hpp"
#include <delynoi/triangulation/EarTriangulationGenerator.h>
#include <delynoi/triangulation/CenterTriangulationGenerator.h>
static std::vector<Point> at(const std::vector<Point>& p, const std::vector<int>& v) { std::vector<Point> r; for (int i : v) r.push_back(p[i]); return r; }
// 1 negative, 0 not, -1 undecided
static int cw(const std::vector<Point>& p, const std::vector<int>& v) { double a = signed_area(p, v), e = 1e-12 * (1 + abs_area(p, v)); return a < -e ? 1 : a > e ? 0 : -1; }
// is the corner i of v an ear (1 yes, 0 no, -1 undecided)
static int ear(const std::vector<Point>& p, const std::vector<int>& v, int i) {
  int n = v.size(); std::vector<int> t = {v[(i + n - 1) % n], v[i], v[(i + 1) % n]}; std::vector<Point> tp = at(p, t);
  int a = cw(p, v), b = cw(p, t); int r = 1; if (a >= 0 && b >= 0 && a != b) return 0; if (a < 0 || b < 0) r = -1;
  for (int x : v) { if (x == t[0] || x == t[1] || x == t[2]) continue; int s = inside(tp, p[x]); if (s == 1) return 0; if (s < 0) r = -1; }
  return r;
}
static void ears(const std::vector<Point>& p, const std::vector<int>& v0) {
  std::vector<Point> q = p; std::vector<int> v = v0; Polygon pol(v, q); EarTriangulationGenerator g; std::vector<Triangle> ts = g.triangulate(pol, q);
  CHECK(q.size() == p.size(), "the point list was changed"); double sum = 0; bool done = false;
  for (size_t k = 0; k < ts.size(); k++) {
    std::vector<int> t = ts[k].getPoints(); CHECK(t.size() == 3, "triangle %d has %d vertices", (int)k, (int)t.size()); sum += signed_area(p, t); int n = v.size();
    CHECK(n >= 3, "triangle %d beyond the polygon", (int)k);
    if (n == 3) { CHECK(t == v, "the last triangle (%d,%d,%d) is not what remains", t[0], t[1], t[2]); v.clear(); done = true; continue; }
    int at_ = -1; for (int i = 0; i < n; i++) if (v[i] == t[1] && v[(i + n - 1) % n] == t[0] && v[(i + 1) % n] == t[2]) at_ = i;
    CHECK(at_ >= 0, "triangle %d (%d,%d,%d) is no corner of the remaining polygon", (int)k, t[0], t[1], t[2]);
    CHECK(ear(p, v, at_) != 0, "triangle %d (%d,%d,%d) is turned the other way or contains another vertex", (int)k, t[0], t[1], t[2]);
    v.erase(v.begin() + at_);
  }
  if (done) { CHECK((int)ts.size() == (int)v0.size() - 2, "%d triangles", (int)ts.size()); CHECK(std::fabs(sum - signed_area(p, v0)) <= 1e-9 * (1 + abs_area(p, v0)), "areas %.12g, polygon %.12g", sum, signed_area(p, v0)); NONTRIVIAL(); }
  else if (v.size() > 3) for (size_t i = 0; i < v.size(); i++) CHECK(ear(p, v, i) != 1, "stopped although corner %d of the remaining polygon is an ear (%d vertices left)", v[i], (int)v.size());
  else CHECK(v.size() < 3, "a triangle remains");
}
static void fan(const std::vector<Point>& p, const std::vector<int>& v0, bool convex) {
  std::vector<Point> q = p; std::vector<int> v = v0; int n = v.size(); Polygon pol(v, q); CenterTriangulationGenerator g; std::vector<Triangle> ts; bool threw = false;
  double lo = 0, hi = 0; bool sure = true;
  for (int i = 0; i < n; i++) { const Point &a = p[v[i]], &b = p[v[(i + 1) % n]], &c = p[v[(i + 2) % n]]; double x = (b.getX() - a.getX()) * (c.getY() - a.getY()) - (b.getY() - a.getY()) * (c.getX() - a.getX());
    double e = 1e-12 * (1 + std::fabs(a.getX()) + std::fabs(b.getX()) + std::fabs(c.getX())) * (1 + std::fabs(a.getY()) + std::fabs(b.getY()) + std::fabs(c.getY())); if (std::fabs(x) < e) { if (x != 0) sure = false; } lo = std::min(lo, x); hi = std::max(hi, x); }
  try { ts = g.triangulate(pol, q); } catch (std::invalid_argument&) { threw = true; }
  if (sure) CHECK(threw == (lo < 0 && hi > 0), "%s", threw ? "a convex polygon is rejected" : "a polygon that is not convex is accepted");
  if (threw) { CHECK(q.size() == p.size(), "a rejected polygon changes the points"); return; }
  CHECK(q.size() == p.size() + 1, "%d points appended", (int)q.size() - (int)p.size()); CHECK((int)ts.size() == n, "%d triangles for %d edges", (int)ts.size(), n);
  double x = 0, y = 0, sum = 0; for (int i : v) x += p[i].getX() / n, y += p[i].getY() / n;
  CHECK(close_(q.back().getX(), x, 1e-9) && close_(q.back().getY(), y, 1e-9), "centre (%g,%g) is not the average (%g,%g)", q.back().getX(), q.back().getY(), x, y);
  for (int k = 0; k < n; k++) { std::vector<int> t = ts[k].getPoints(); CHECK(t.size() == 3 && t[0] == v[k] && t[1] == v[(k + 1) % n] && t[2] == (int)p.size(), "triangle %d", k); sum += signed_area(q, t); }
  CHECK(std::fabs(sum - signed_area(p, v0)) <= 1e-9 * (1 + abs_area(q, v0)), "areas %.12g, polygon %.12g", sum, signed_area(p, v0)); NONTRIVIAL();
}
void run_case(Rng& g, int size) {
  std::vector<Point> v = g.chance(15) ? rectangle(g.i(-4, -1), g.i(-4, -1), g.i(1, 4), g.i(1, 4)) : random_loop(g, size); bool convex = false;
  if (g.chance(30)) { v = convex_polygon(g, size < 3 ? 3 : size); convex = true; if (g.b()) std::reverse(v.begin(), v.end()); }
  if (g.chance(25)) { int k = g.i(0, (int)v.size() - 1); const Point a = v[k], b = v[(k + 1) % v.size()]; v.insert(v.begin() + k + 1, Point((a.getX() + b.getX()) / 2, (a.getY() + b.getY()) / 2)); }
  double s = g.chance(15) ? g.pick(std::vector<double>{1e-3, 1e3, 1e5}) : 1; for (auto& q : v) q = Point(q.getX() * s, q.getY() * s);
  for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < i; j++) if (eqp(v[i], v[j])) throw Skip();
  std::vector<Point> p = v; std::vector<int> idx = shuffled_indices(g, p); describe(p); describe(idx);
  if (g.chance(55)) { desc("ear cutting"); ears(p, idx); } else { desc("fan"); fan(p, idx, convex); }
}
