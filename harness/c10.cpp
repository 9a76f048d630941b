#include "h.hpp"
#include "gen.hpp"
#include <delynoi/models/basic/IndexSegment.h>
#include <delynoi/models/basic/PointSegment.h>
#include <delynoi/utilities/delynoi_utilities.h>
#include <delynoi/utilities/geometryFunctions.h>
// segment predicates against exact-ish long double geometry; inputs whose answer is within rounding of a threshold are skipped
typedef long double ld;
static ld T() { return DelynoiConfig::instance()->getTolerance(); }
// three-valued comparison of a <= b with slack e
static int le(ld a, ld b, ld e) { if (a <= b - e) return 1; if (a > b + e) return 0; return -1; }
static int lt_abs(ld a, ld t, ld e) { return le(fabsl(a), t, e); }
static int OR(int a, int b) { return a == 1 || b == 1 ? 1 : (a == 0 && b == 0 ? 0 : -1); }
static int AND(int a, int b) { return a == 0 || b == 0 ? 0 : (a == 1 && b == 1 ? 1 : -1); }
static int ge_tol(ld v, ld a) { return v >= a ? 1 : lt_abs(v - a, T(), 1e-15L * (fabsl(v) + fabsl(a) + 1)); }
static int between(ld v, ld a, ld b) { return OR(AND(ge_tol(v, a), ge_tol(b, v)), AND(ge_tol(v, b), ge_tol(a, v))); }
static int onseg(Point p, Point a, Point b) {
  ld x1 = a.getX(), y1 = a.getY(), x2 = b.getX(), y2 = b.getY(), x = p.getX(), y = p.getY();
  ld c = (x2 - x1) * (y - y1) - (y2 - y1) * (x - x1);
  ld m = fabsl(x1) + fabsl(x2) + fabsl(x), n = fabsl(y1) + fabsl(y2) + fabsl(y);
  return AND(AND(between(x, x1, x2), between(y, y1, y2)), lt_abs(c, T(), 1e-15L * m * n + 1e-18L));
}
static int meet(Point p1, Point p2, Point o1, Point o2, ld& X, ld& Y, bool firstOnly) {
  ld ax = (ld)p2.getX() - p1.getX(), ay = (ld)p2.getY() - p1.getY(), bx = (ld)o2.getX() - o1.getX(), by = (ld)o2.getY() - o1.getY();
  ld d = ax * by - bx * ay;
  ld rx = (ld)p1.getX() - o1.getX(), ry = (ld)p1.getY() - o1.getY();
  ld sc = (fabsl(ax) + fabsl(ay)) * (fabsl(bx) + fabsl(by));
  if (d == 0 && sc > 0) { // exactly parallel in the inputs: the coordinates below are small dyadic numbers or the answer is skipped
    double ed = -((double)bx * (double)ay) + (double)ax * (double)by; if (ed != 0) return -1; return 0; }
  if (sc == 0) return 0;
  if (fabsl(d) < 1e-6L * sc) return -1;
  ld t = (bx * ry - by * rx) / d, s = (ax * ry - ay * rx) / d;
  X = p1.getX() + t * ax; Y = p1.getY() + t * ay;
  ld e = 1e-11L * (1 + (fabsl(rx) + fabsl(ry)) * (fabsl(ax) + fabsl(ay) + fabsl(bx) + fabsl(by)) / fabsl(d));
  auto in = [&](ld u) { return AND(le(-T(), u, e), le(u, 1 + T(), e)); };
  return firstOnly ? in(t) : AND(in(t), in(s));
}
static Point lerp(Point a, Point b, double t) { return Point(a.getX() + t * (b.getX() - a.getX()), a.getY() + t * (b.getY() - a.getY())); }
void run_case(Rng& g, int size) {
  std::vector<Point> p = random_points(g, 6);
  if (g.chance(40)) for (auto& q : p) q = Point(g.i(-3, 3), g.i(-3, 3));
  switch (g.i(0, 9)) {
    case 0: p[4] = lerp(p[0], p[1], g.i(0, 8) / 8.0); break;
    case 1: p[4] = lerp(p[0], p[1], g.r(-0.2, 1.2)); break;
    case 2: p[4] = Point(p[0].getX() + g.r(-2, 2) * T(), p[0].getY() + g.r(-2, 2) * T()); break;
    case 3: p[2] = lerp(p[0], p[1], g.i(0, 4) / 4.0); break;
    case 4: p[3] = p[0]; break;
    case 5: p[2] = Point(p[0].getX() + p[3].getX() - p[1].getX(), p[0].getY() + p[3].getY() - p[1].getY()); break;
    case 6: p[1] = Point(p[0].getX(), p[1].getY()); break;
    case 7: p[1] = Point(p[1].getX(), p[0].getY()); p[4] = Point(g.r(-6, 6), p[0].getY() + g.r(-3, 3) * T()); break;
    default: break;
  }
  describe(p);
  std::ostringstream s; 
  int a = 0, b = 1, c = 2, d = 3;
  IndexSegment is(a, b), os(c, d); PointSegment ps(p[a], p[b]), po(p[c], p[d]);
  for (int k = 0; k < 6; k++) {
    int e = onseg(p[k], p[a], p[b]);
    if (e >= 0) { CHECK(is.contains(p, p[k]) == (e == 1), "point %d on edge 0-1: expected %d", k, e); CHECK(ps.contains(p[k]) == (e == 1), "point %d on point segment 0-1: expected %d", k, e); if (e) NONTRIVIAL(); }
  }
  { int e = AND(onseg(p[c], p[a], p[b]), onseg(p[d], p[a], p[b])); if (e >= 0) { CHECK(is.contains(p, os) == (e == 1), "edge 2-3 on edge 0-1: expected %d", e); CHECK(os.isContained(ps, p) == (e == 1), "isContained: expected %d", e); } }
  { ld X = 0, Y = 0; int e = meet(p[a], p[b], p[c], p[d], X, Y, false);
    if (e >= 0) {
      Point in(123.5, -77.25), in2(123.5, -77.25);
      bool r = is.intersection(p, os, in), r2 = is.intersection(p, po, in2);
      CHECK(r == (e == 1), "edges 0-1 and 2-3 meet: expected %d (at %.17Lg, %.17Lg)", e, X, Y);
      CHECK(r2 == (e == 1), "edge 0-1 and segment 2-3 meet: expected %d", e);
      if (e) { CHECK(close_(in.getX(), X, 1e-5) && close_(in.getY(), Y, 1e-5), "meeting point (%.17g,%.17g), expected (%.17Lg,%.17Lg)", in.getX(), in.getY(), X, Y);
               CHECK(in2.getX() == in.getX() && in2.getY() == in.getY(), "meeting points differ"); NONTRIVIAL(); }
      else CHECK(in.getX() == 123.5 && in.getY() == -77.25, "a point was reported without a meeting");
    }
    int f = meet(p[a], p[b], p[c], p[d], X, Y, true);
    if (f >= 0) { Point in(1, 2); bool r = ps.intersectionInfinite(p[a], p[b], p[c], p[d], in); CHECK(r == (f == 1), "line meeting within the first segment: expected %d", f); if (f) CHECK(close_(in.getX(), X, 1e-5) && close_(in.getY(), Y, 1e-5), "line meeting point"); }
  }
  ld L = hypotl((ld)p[a].getX() - p[b].getX(), (ld)p[a].getY() - p[b].getY());
  CHECK(close_(is.length(p), L, 1e-12) && close_(ps.length(), L, 1e-12), "length %.17g, expected %.17Lg", is.length(p), L);
  Point m = is.middlePoint(p);
  CHECK(close_(m.getX(), (p[a].getX() + p[b].getX()) / 2, 1e-13) && close_(m.getY(), (p[a].getY() + p[b].getY()) / 2, 1e-13), "middle (%.17g,%.17g)", m.getX(), m.getY());
  ld ang = atan2l((ld)p[b].getY() - p[a].getY(), (ld)p[b].getX() - p[a].getX()) * 180 / acosl(-1.0L); if (ang < 0) ang += 360;
  double a1 = is.cartesianAngle(p), a2 = ps.cartesianAngle();
  CHECK(a1 >= 0 && a1 <= 360 && a2 == a1, "angle %.17g", a1);
  if (ang > 1e-9 && ang < 360 - 1e-9) CHECK(fabsl(a1 - ang) < 1e-9, "angle %.17g, expected %.17Lg", a1, ang);
  if (ang == 0) CHECK(a1 == 0, "angle %.17g of a rightward segment", a1);
  ld cr = ((ld)p[b].getX() - p[a].getX()) * ((ld)p[4].getY() - p[a].getY()) - ((ld)p[b].getY() - p[a].getY()) * ((ld)p[4].getX() - p[a].getX());
  if (fabsl(cr) > 1e-12L * (fabsl(p[a].getX()) + fabsl(p[b].getX()) + fabsl(p[4].getX()) + 1) * (fabsl(p[a].getY()) + fabsl(p[b].getY()) + fabsl(p[4].getY()) + 1)) {
    CHECK(is.isCCW(p, p[4]) == (cr > 0), "left-of test, cross %.17Lg", cr);
    IndexSegment o(a, b); o.orderCCW(p, p[4]);
    CHECK(cr > 0 ? (o.getFirst() == a && o.getSecond() == b) : (o.getFirst() == b && o.getSecond() == a), "orderCCW gave %d-%d", o.getFirst(), o.getSecond());
    CHECK((delynoi_utilities::orientation(p[a], p[b], p[4]) > 0) == (cr > 0), "orientation");
    CHECK(close_(geometry_functions::triangleArea(p[a], p[b], p[4]), cr / 2, 1e-6), "triangle area");
  }
  { int e = lt_abs(cr, T(), 1e-12L * (1 + fabsl(p[a].getX()) + fabsl(p[b].getX()) + fabsl(p[4].getX())) * (1 + fabsl(p[a].getY()) + fabsl(p[b].getY()) + fabsl(p[4].getY()))); if (e >= 0) CHECK(geometry_functions::collinear(p[a], p[b], p[4]) == (e == 1), "collinear, cross %.17Lg", cr); }
  // equality
  int x = g.i(-3, 3), y = g.i(-3, 3), z = g.i(-3, 3), w = g.i(-3, 3);
  bool same = (x == z && y == w) || (x == w && y == z);
  IndexSegment q1(x, y), q2(z, w);
  CHECK((q1 == q2) == same, "edges %d-%d and %d-%d", x, y, z, w);
  CHECK((q1 == IndexSegment(y, x)) && q1.hash == IndexSegment(y, x).hash, "reversed edge %d-%d", x, y);
  CHECK(IndexSegment(q1).hash == q1.hash && q1.add(5) == IndexSegment(x + 5, y + 5) && q1.add(5).getFirst() == x + 5 && q1.add(5).hash == IndexSegment(x + 5, y + 5).hash, "copy or shift of edge %d-%d", x, y);
  CHECK((q1 < q2) == (x < z || (x == z && y < w)), "order of edges %d-%d and %d-%d", x, y, z, w);
  CHECK(q1.isVertex(z) == (z == x || z == y), "vertex %d of edge %d-%d", z, x, y);
  { double dx = g.r(-2, 2) * (double)T(), dy = g.chance(50) ? 0 : g.r(-2, 2) * (double)T();
    Point u(g.i(-4, 4), g.i(-4, 4)), v(u.getX() + dx, u.getY() + dy);
    int e = AND(lt_abs((ld)v.getX() - u.getX(), T(), 1e-15L), lt_abs((ld)v.getY() - u.getY(), T(), 1e-15L));
    if (e >= 0) { CHECK((u == v) == (e == 1) && (v == u) == (e == 1), "points differ by (%.3g, %.3g)", dx, dy);
      PointSegment r1(u, p[5]), r2(p[5], v); if (!(p[5] == u) && !(p[5] == v)) CHECK((r1 == r2) == (e == 1) && (r1 == PointSegment(v, p[5])) == (e == 1), "point segments"); }
  }
}
