#include "h.hpp"
#include "gen.hpp"
#include <delynoi/utilities/geometryFunctions.h>
// measures of a polygon against direct formulas in long double; queries repeat and change nothing else
typedef long double ld;
void run_case(Rng& g, int size) {
  std::vector<Point> p = g.chance(75) ? random_loop(g, size) : random_points(g, g.i(1, size));
  if (g.chance(30)) { double ox = g.i(-300, 300), oy = g.i(-300, 300); for (auto& q : p) q = Point(q.getX() + ox, q.getY() + oy); }
  std::vector<int> idx = shuffled_indices(g, p);
  if (g.chance(10) && idx.size() > 3) idx.push_back(idx[g.i(0, (int)idx.size() - 1)]);
  describe(p); describe(idx);
  std::vector<Point> p0 = p; size_t n = idx.size();
  Polygon pol; if (g.b()) { pol.points = idx; pol.area = -1; pol.diameter = -1; pol.calculateHash(); } else { std::vector<int> v = idx; pol = Polygon(v, p); }
  ld A = 0, cx = 0, cy = 0, ax = 0, ay = 0, mx = -1, sc = 0, m3 = 0;
  for (size_t i = 0; i < n; i++) { const Point &a = p[idx[i]], &b = p[idx[(i + 1) % n]]; ld t = (ld)a.getX() * b.getY() - (ld)b.getX() * a.getY(); A += t; cx += (a.getX() + b.getX()) * t; cy += (a.getY() + b.getY()) * t;
    sc += fabsl((ld)a.getX() * b.getY()) + fabsl((ld)b.getX() * a.getY()); m3 += (fabsl(a.getX()) + fabsl(b.getX()) + fabsl(a.getY()) + fabsl(b.getY())) * (fabsl((ld)a.getX() * b.getY()) + fabsl((ld)b.getX() * a.getY()));
    ax += a.getX(); ay += a.getY(); ld d = hypotl((ld)a.getX() - b.getX(), (ld)a.getY() - b.getY()); if (d > mx) mx = d; }
  A /= 2; sc += 1e-300;
  auto chk = [&](const char* when) {
    std::vector<int> before = static_cast<const Polygon&>(pol).getPoints(); size_t h0 = pol.hash;
    int order = g.i(0, 5);
    for (int k = 0; k < 6; k++) switch ((k + order) % 6) {
      case 0: { double a = pol.getArea(p); CHECK(fabsl(a - A) <= 1e-10L * sc, "%s: area %.17g, expected %.17Lg", when, a, A); break; }
      case 1: { double a = pol.signedArea(p); CHECK(fabsl(2 * (ld)A - 2 * (ld)a) <= 1e-10L * sc, "%s: signed area %.17g, expected %.17Lg", when, a, A); break; }
      case 2: if (fabsl(A) > 1e-6L * sc) { Point c = pol.getCentroid(p); ld ex = cx / (6 * A), ey = cy / (6 * A), e = 1e-10L * m3 / fabsl(A) + 1e-10L; CHECK(fabsl(c.getX() - ex) <= e && fabsl(c.getY() - ey) <= e, "%s: centroid (%.17g,%.17g), expected (%.17Lg,%.17Lg)", when, c.getX(), c.getY(), ex, ey); NONTRIVIAL(); } break;
      case 3: { Point c = pol.getAverage(p); CHECK(close_(c.getX(), (double)(ax / n), 1e-10) && close_(c.getY(), (double)(ay / n), 1e-10), "%s: average (%.17g,%.17g), expected (%.17Lg,%.17Lg)", when, c.getX(), c.getY(), ax / n, ay / n); break; }
      case 4: { double d = pol.getMaxDistance(p); CHECK(close_(d, (double)mx, 1e-12), "%s: largest edge %.17g, expected %.17Lg", when, d, mx); break; }
      case 5: { std::vector<Point> q; for (int i : idx) q.push_back(p[i]); double a = geometry_functions::area(q), b = geometry_functions::area(p, idx); CHECK(fabsl(a - A) <= 1e-9L * (sc + 1) * 4 && fabsl(b - A) <= 1e-9L * (sc + 1) * 4, "%s: fan areas %.17g %.17g, expected %.17Lg", when, a, b, A); break; }
    }
    CHECK(static_cast<const Polygon&>(pol).getPoints() == before && pol.hash == h0, "%s: a query changed the polygon", when);
    for (size_t i = 0; i < p.size(); i++) CHECK(p[i].getX() == p0[i].getX() && p[i].getY() == p0[i].getY() && p.size() == p0.size(), "%s: a query changed the points", when);
  };
  chk("first"); chk("again"); pol.isClockwise(p); if (n >= 3) pol.isConvex(p); pol.containsPoint(p, p[0]); chk("after other queries");
  Polygon cp(pol); pol = cp; chk("copy");
}
