#include "h.hpp"
#include "gen.hpp"
#include <delynoi/models/polygon/Circle.h>
#include <delynoi/models/hole/CircularHole.h>
#include <delynoi/models/hole/PolygonalHole.h>
#include <delynoi/utilities/delynoi_utilities.h>
static const double PI_ = 3.14159265358979323846;
static void at(const Point& q, const Point& c, double r, double deg, int k) {
  double x = c.getX() + r * cos(deg * PI_ / 180), y = c.getY() + r * sin(deg * PI_ / 180);
  double e = 1e-9 * (1 + fabs(r) + fabs(c.getX()) + fabs(c.getY()) + fabs(r * deg));
  CHECK(fabs(q.getX() - x) <= e && fabs(q.getY() - y) <= e, "point %d is (%.17g,%.17g), expected (%.17g,%.17g)", k, q.getX(), q.getY(), x, y);
}
static void chain(std::vector<IndexSegment> s, int n) {
  CHECK((int)s.size() == n, "%d edges for %d points", (int)s.size(), n);
  for (int i = 0; i < n; i++) CHECK(s[i].getFirst() == i && s[i].getSecond() == (i + 1) % n, "edge %d is %d-%d", i, s[i].getFirst(), s[i].getSecond());
}
void run_case(Rng& g, int size) {
  int grade = g.chance(30) ? g.i(3, 12) : g.chance(20) ? g.pick(std::vector<int>{360, 361, 720, 1000}) : g.i(3, 400);
  DelynoiConfig* cfg = DelynoiConfig::instance(); int old = cfg->getDiscretizationGrade(); cfg->setDiscretizationGrade(grade);
  Point c(coord(g, g.i(0, 3)), coord(g, g.i(0, 3))); double r = g.chance(30) ? g.i(1, 5) : g.r(0.01, 50);
  double a = g.chance(50) ? g.i(-8, 8) * 45 : g.r(-400, 400), b = g.chance(50) ? g.i(-8, 8) * 45 : g.r(-400, 400);
  desc(fmt("grade %d centre (%.17g,%.17g) radius %.17g arc %.17g..%.17g", grade, c.getX(), c.getY(), r, a, b));
  std::vector<Point> p = Circle(r, c).discretizeCircle();
  CHECK((int)p.size() == grade, "%d circle points for grade %d", (int)p.size(), grade);
  for (int k = 0; k < grade; k++) at(p[k], c, r, k * 360.0 / grade, k);
  std::vector<Point> q = delynoi_utilities::generateArcPoints(c, r, a, b);
  CHECK((int)q.size() == grade + 1, "%d arc points for grade %d", (int)q.size(), grade);
  for (int k = 0; k <= grade; k++) at(q[k], c, r, a + (b - a) * k / grade, k);
  CircularHole h(c, r);
  std::vector<Point> hp = h.Hole::getPoints();
  CHECK((int)hp.size() == grade, "%d hole points for grade %d", (int)hp.size(), grade);
  for (int k = 0; k < grade; k++) at(hp[k], c, r, k * 360.0 / grade, k);
  CHECK(h.getCenter().getX() == c.getX() && h.getCenter().getY() == c.getY(), "hole centre (%.17g,%.17g)", h.getCenter().getX(), h.getCenter().getY());
  std::vector<IndexSegment> hs; h.Hole::getSegments(hs, 0); chain(hs, grade);
  cfg->setDiscretizationGrade(old); NONTRIVIAL();
  std::vector<Point> v = simple_polygon(g, 3 + size % 20); if (g.b()) std::reverse(v.begin(), v.end()); size_t n = v.size();
  double dx = g.chance(50) ? 0 : g.i(-20, 20), dy = g.chance(50) ? 0 : g.i(-20, 20); for (auto& w : v) w = Point(w.getX() + dx, w.getY() + dy);
  std::vector<Point> v0 = v;
  describe(v, "polygon");
  std::vector<int> id = iota_(n); double A = signed_area(v, id);
  if (fabs(A) < 1e-3) return;
  double cx = 0, cy = 0; for (size_t i = 0; i < n; i++) { const Point &u = v[i], &w = v[(i + 1) % n]; double k = (u.getX() - v[0].getX()) * (w.getY() - v[0].getY()) - (w.getX() - v[0].getX()) * (u.getY() - v[0].getY()); cx += (u.getX() + w.getX() - 2 * v[0].getX()) * k; cy += (u.getY() + w.getY() - 2 * v[0].getY()) * k; }
  cx = v[0].getX() + cx / (6 * A); cy = v[0].getY() + cy / (6 * A);
  bool thrown = false;
  try {
    PolygonalHole ph(v);
    std::vector<Point> pp = ph.Hole::getPoints();
    CHECK(pp.size() == n, "%d outline points, given %d", (int)pp.size(), (int)n);
    for (size_t i = 0; i < n; i++) CHECK(pp[i].getX() == v0[i].getX() && pp[i].getY() == v0[i].getY(), "outline point %d", (int)i);
    CHECK(close_(ph.getCenter().getX(), cx, 1e-6) && close_(ph.getCenter().getY(), cy, 1e-6), "centre (%.17g,%.17g), centroid (%.17g,%.17g)", ph.getCenter().getX(), ph.getCenter().getY(), cx, cy);
    std::vector<IndexSegment> ps; ph.Hole::getSegments(ps, 0); chain(ps, n);
  } catch (std::exception&) { thrown = true; }
  (void)thrown;
}
