#include "h.hpp"
#include "gen.hpp"
#include <delynoi/models/Region.h>
#include <delynoi/models/polygon/BoundingBox.h>
static bool has(const std::vector<PointSegment>& s, double x0, double y0, double x1, double y1) {
  for (auto& q : s) { Point a = q.getFirst(), b = q.getSecond();
    if ((a.getX() == x0 && a.getY() == y0 && b.getX() == x1 && b.getY() == y1) || (b.getX() == x0 && b.getY() == y0 && a.getX() == x1 && a.getY() == y1)) return true; }
  return false;
}
static bool same(const Point& a, const Point& b) { return a.getX() == b.getX() && a.getY() == b.getY(); }
static void box_checks(Rng& g, BoundingBox b, double x0, double y0, double x1, double y1) {
  CHECK(b.xMin() == x0 && b.xMax() == x1 && b.yMin() == y0 && b.yMax() == y1, "extents %.17g %.17g %.17g %.17g, expected %.17g %.17g %.17g %.17g", b.xMin(), b.xMax(), b.yMin(), b.yMax(), x0, x1, y0, y1);
  CHECK(close_(b.getWidth(), x1 - x0) && close_(b.getHeight(), y1 - y0), "width %.17g height %.17g, expected %.17g %.17g", b.getWidth(), b.getHeight(), x1 - x0, y1 - y0);
  std::vector<double> xs = {x0, x1, (x0 + x1) / 2, x0 - 1, x1 + 1, std::nextafter(x0, -1e9), std::nextafter(x1, 1e9)}, ys = {y0, y1, (y0 + y1) / 2, y0 - 1, y1 + 1, std::nextafter(y0, -1e9), std::nextafter(y1, 1e9)};
  for (double x : xs) for (double y : ys) CHECK(b.contains(Point(x, y)) == (x0 <= x && x <= x1 && y0 <= y && y <= y1), "contains (%.17g,%.17g) in [%.17g,%.17g]x[%.17g,%.17g]", x, y, x0, x1, y0, y1);
  std::vector<PointSegment> s; int pre = g.i(0, 2); for (int k = 0; k < pre; k++) s.push_back(PointSegment(Point(99, k), Point(k, 98)));
  b.getSegments(s);
  CHECK((int)s.size() == pre + 4, "%d sides", (int)s.size() - pre);
  std::vector<PointSegment> t(s.begin() + pre, s.end());
  CHECK(has(t, x0, y0, x1, y0) && has(t, x1, y0, x1, y1) && has(t, x1, y1, x0, y1) && has(t, x0, y1, x0, y0), "sides of [%.17g,%.17g]x[%.17g,%.17g]", x0, x1, y0, y1);
  for (int k = 0; k < 4; k++) CHECK(same(t[k].getSecond(), t[(k + 1) % 4].getFirst()), "side %d does not continue side %d", (k + 1) % 4, k);
}
void run_case(Rng& g, int size) {
  std::vector<Point> p = g.chance(80) ? random_loop(g, size) : random_points(g, g.i(1, size + 1));
  double sx = g.chance(20) ? 1000 : g.chance(20) ? -1000 : 0, sy = g.chance(20) ? 1000 : g.chance(20) ? -1000 : 0, sc = g.chance(15) ? 1e9 : 1;
  for (auto& q : p) q = Point((q.getX() + sx) * sc, (q.getY() + sy) * sc);
  describe(p);
  double x0 = p[0].getX(), x1 = x0, y0 = p[0].getY(), y1 = y0;
  for (auto& q : p) { x0 = std::min(x0, q.getX()); x1 = std::max(x1, q.getX()); y0 = std::min(y0, q.getY()); y1 = std::max(y1, q.getY()); }
  Region r; r.p = p; r.points = iota_(p.size());
  BoundingBox b = r.getBox();
  CHECK(b.xMin() == x0 && b.xMax() == x1 && b.yMin() == y0 && b.yMax() == y1, "region box [%.17g,%.17g]x[%.17g,%.17g], expected [%.17g,%.17g]x[%.17g,%.17g]", b.xMin(), b.xMax(), b.yMin(), b.yMax(), x0, x1, y0, y1);
  NONTRIVIAL();
  BoundingBox v[4] = {BoundingBox(Point(x0, y0), Point(x1, y1)), BoundingBox(Point(x1, y1), Point(x0, y0)), BoundingBox(Point(x0, y1), Point(x1, y0)), BoundingBox(Point(x1, y0), Point(x0, y1))};
  for (auto& w : v) box_checks(g, w, x0, y0, x1, y1);
  CHECK(v[0] == v[1] && v[2] == v[3], "boxes with the same corners in another order compare unequal");
}
