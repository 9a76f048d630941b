#include "h.hpp"
#include "gen.hpp"
#include "inside.hpp"
#include <delynoi/models/Region.h>
#include <delynoi/models/hole/Hole.h>
#include <delynoi/models/hole/clipper/ClipperWrapper.h>
static ld crs(const Point& a, const Point& b, const Point& c) { return ((ld)b.getX() - a.getX()) * ((ld)c.getY() - a.getY()) - ((ld)b.getY() - a.getY()) * ((ld)c.getX() - a.getX()); }
static ld dist(const Point& q, const Point& a, const Point& b) {
  ld dx = (ld)b.getX() - a.getX(), dy = (ld)b.getY() - a.getY(), t = dx * dx + dy * dy > 0 ? (((ld)q.getX() - a.getX()) * dx + ((ld)q.getY() - a.getY()) * dy) / (dx * dx + dy * dy) : 0;
  t = t < 0 ? 0 : t > 1 ? 1 : t; return hypotl(a.getX() + t * dx - q.getX(), a.getY() + t * dy - q.getY());
}
static ld edge_dist(const std::vector<Point>& v, const Point& q) { ld d = 1e300L; for (size_t i = 0; i < v.size(); i++) d = std::min(d, dist(q, v[i], v[(i + 1) % v.size()])); return d; }
static ld gap(const std::vector<Point>& a, const std::vector<Point>& b) { ld d = 1e300L; for (auto& q : a) d = std::min(d, edge_dist(b, q)); for (auto& q : b) d = std::min(d, edge_dist(a, q)); return d; }
static bool meet(const std::vector<Point>& a, const std::vector<Point>& b) {
  for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) { const Point &p = a[i], &q = a[(i + 1) % a.size()], &r = b[j], &s = b[(j + 1) % b.size()];
    if ((crs(p, q, r) > 0) != (crs(p, q, s) > 0) && (crs(r, s, p) > 0) != (crs(r, s, q) > 0)) return true; }
  return false;
}
static void same(const std::vector<Point>& a, const std::vector<Point>& b, const char* what) {
  CHECK(a.size() == b.size(), "%s: %d points, expected %d", what, (int)a.size(), (int)b.size());
  for (size_t i = 0; i < a.size(); i++) CHECK(a[i].getX() == b[i].getX() && a[i].getY() == b[i].getY(), "%s: point %d is (%.17g,%.17g), expected (%.17g,%.17g)", what, (int)i, a[i].getX(), a[i].getY(), b[i].getX(), b[i].getY());
}
static std::vector<Point> u_shape(double x, double y, double w, double h, double t, double s) {
  std::vector<Point> u{{0, 0}, {w, 0}, {w, h}, {w - t, h}, {w - t, t}, {t, t}, {t, h}, {0, h}}; for (auto& q : u) q = Point(x + s * q.getX(), y + s * q.getY()); return u;
}
struct Scale { int old; Scale(int s) : old(DelynoiConfig::instance()->getScale()) { DelynoiConfig::instance()->setScale(s); } ~Scale() { DelynoiConfig::instance()->setScale(old); } };
void run_case(Rng& g, int size) {
  int sc = g.chance(50) ? DelynoiConfig::instance()->getScale() : g.chance(50) ? g.i(1000, 100000) : 1 << g.i(10, 26); Scale keep(sc); desc(fmt("clipping scale %d", sc));
  std::vector<Point> out = g.chance(25) ? u_shape(g.i(-3, 3), g.i(-3, 3), 10, 10, 3, 1) : g.chance(40) ? rectangle(g.i(-9, -5), g.i(-9, -5), g.i(5, 9), g.i(5, 9)) : star_polygon(g, g.i(3, 10), 0, 0, 4, 9);
  std::vector<Point> h; int how = g.i(0, 5);
  if (how == 0) h = u_shape(out[0].getX() + 1, out[0].getY() + 1, 8, 8, 1, 1);
  else if (how == 1) h = rectangle(g.i(-12, 6) + .5, g.i(-12, 6) + .5, g.i(7, 14) + .25, g.i(7, 14) + .25);
  else if (how == 2) { double x = g.r(-9, 9), y = g.r(-9, 9); h = rectangle(x, y, x + g.r(0.5, 6), y + g.r(0.5, 6)); }
  else if (how == 3) h = star_polygon(g, g.i(3, 9), g.r(-12, 12), g.r(-12, 12), 1, 5);
  else h = star_polygon(g, g.i(3, 9), g.r(-4, 4), g.r(-4, 4), 0.3, 2.5);
  if (g.b()) std::reverse(out.begin(), out.end()); if (g.b()) std::reverse(h.begin(), h.end());
  describe(out, "outline"); describe(h, "hole");
  ld res = 2.0L / sc; if (gap(out, h) < 20 * res + 1e-6L) throw Skip();
  for (size_t i = 0; i < out.size(); i++) if (hypotl(out[i].getX() - out[(i + 1) % out.size()].getX(), out[i].getY() - out[(i + 1) % out.size()].getY()) < 20 * res) throw Skip();
  for (size_t i = 0; i < h.size(); i++) if (hypotl(h[i].getX() - h[(i + 1) % h.size()].getX(), h[i].getY() - h[(i + 1) % h.size()].getY()) < 20 * res) throw Skip();
  std::vector<IndexSegment> hs; for (size_t i = 0; i < h.size(); i++) hs.push_back(IndexSegment(i, (i + 1) % h.size()));
  Point centre = Polygon(h).getCentroid(h); Hole hole(h, centre, hs);
  Region r(out); std::vector<Hole> before; int nb = g.i(0, 2); for (int k = 0; k < nb; k++) { std::vector<Point> t = rectangle(50 + k, 50, 50.5 + k, 51); before.push_back(Hole(t, t[0], hs)); r.holes.push_back(before.back()); }
  std::vector<Point> seeds = random_points(g, 3); r.seedPoints = seeds;
  std::vector<int> idx = r.points; int hash = 0;
  bool thrown = false; try { r.addHole(hole); } catch (std::exception& e) { thrown = true; desc(std::string("threw: ") + e.what()); }
  bool cross = meet(out, h); same(r.seedPoints, seeds, "seeds");
  auto holes_as_before = [&]() { CHECK((int)r.holes.size() == nb, "%d holes, expected %d", (int)r.holes.size(), nb); for (int k = 0; k < nb; k++) same(r.holes[k].getPoints(), before[k].getPoints(), "earlier hole"); };
  if (!cross) {
    int hin = inside(out, h[0]), oin = inside(h, out[0]); if (hin < 0 || oin < 0) throw Skip();
    if (hin) { NONTRIVIAL();
      CHECK(!thrown, "a hole inside the outline is rejected");
      same(r.p, out, "outline after an inner hole"); CHECK(r.points == idx, "outline indices changed");
      CHECK((int)r.holes.size() == nb + 1, "%d holes, expected %d", (int)r.holes.size(), nb + 1);
      for (int k = 0; k < nb; k++) same(r.holes[k].getPoints(), before[k].getPoints(), "earlier hole");
      same(r.holes[nb].getPoints(), h, "stored hole"); Point c = r.holes[nb].getCenter(); CHECK(c.getX() == centre.getX() && c.getY() == centre.getY(), "centre of the stored hole");
      CHECK(r.holes[nb].segments.size() == hs.size(), "edges of the stored hole"); for (size_t i = 0; i < hs.size(); i++) CHECK(r.holes[nb].segments[i].getFirst() == hs[i].getFirst() && r.holes[nb].segments[i].getSecond() == hs[i].getSecond(), "edge of the stored hole");
    } else if (!oin) { NONTRIVIAL(); CHECK(thrown, "a hole outside the outline is accepted"); same(r.p, out, "outline after a rejected hole"); CHECK(r.points == idx, "outline indices changed"); holes_as_before(); }
    return;
  }
  // the pieces left over, from the clipping library itself
  std::vector<Point> o2 = out, h2 = h; ClipperLib::Path po, ph; for (auto& q : o2) po.push_back(ClipperLib::IntPoint(sc * q.getX(), sc * q.getY())); for (auto& q : h2) ph.push_back(ClipperLib::IntPoint(sc * q.getX(), sc * q.getY()));
  ClipperLib::Clipper cl; ClipperLib::Paths left; cl.AddPath(po, ClipperLib::ptSubject, true); cl.AddPath(ph, ClipperLib::ptClip, true); cl.Execute(ClipperLib::ctDifference, left, ClipperLib::pftNonZero, ClipperLib::pftNonZero);
  ClipperLib::Paths w = ClipperWrapper::polyIntersection(out, h, sc); CHECK(w == left, "clipping wrapper");
  if (left.size() != 1) throw Skip();
  NONTRIVIAL(); CHECK(!thrown, "a hole cutting the outline into one piece is rejected"); holes_as_before();
  CHECK(r.points == iota_(r.p.size()), "indices of the new outline");
  ld a = 0, b = 0; for (auto& q : left[0]) a += 0; for (size_t i = 0; i < r.p.size(); i++) { const Point &p = r.p[i], &q = r.p[(i + 1) % r.p.size()]; b += (ld)p.getX() * q.getY() - (ld)q.getX() * p.getY(); } CHECK(b > 0 || b < 0, "empty outline");
  for (int k = 0; k < 60; k++) {
    Point q(g.r(-14, 14), g.r(-14, 14)); if (edge_dist(out, q) < 20 * res + 1e-6L || edge_dist(h, q) < 20 * res + 1e-6L) continue;
    int i = inside(out, q), j = inside(h, q), n = inside(r.p, q); if (i < 0 || j < 0 || n < 0) continue;
    CHECK(n == (i && !j), "point (%.17g,%.17g) %s the new outline but %s the old one and %s the hole", q.getX(), q.getY(), n ? "in" : "off", i ? "in" : "off", j ? "in" : "off");
  }
}
