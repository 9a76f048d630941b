#pragma once
#include "gen.hpp"
#include <delynoi/config/DelynoiConfig.h>
// even-odd rule in exact-ish arithmetic plus the boundary up to the tolerance; undecidable roundings are skipped
typedef long double ld;
static inline ld T() { return DelynoiConfig::instance()->getTolerance(); }
static bool eqp(const Point& a, const Point& b) { return fabsl((ld)a.getX() - b.getX()) < T() && fabsl((ld)a.getY() - b.getY()) < T(); }
// 1 on, 0 off, -1 undecided
static int on(const Point& q, const Point& a, const Point& b) {
  ld cr = ((ld)b.getX() - a.getX()) * ((ld)q.getY() - a.getY()) - ((ld)b.getY() - a.getY()) * ((ld)q.getX() - a.getX());
  ld e = 1e-13L * (1 + fabsl(a.getX()) + fabsl(b.getX()) + fabsl(q.getX())) * (1 + fabsl(a.getY()) + fabsl(b.getY()) + fabsl(q.getY()));
  ld xl = std::min(a.getX(), b.getX()), xh = std::max(a.getX(), b.getX()), yl = std::min(a.getY(), b.getY()), yh = std::max(a.getY(), b.getY());
  ld out = std::max(std::max(xl - q.getX(), q.getX() - xh), std::max(yl - q.getY(), q.getY() - yh));
  int r = out < T() - 1e-14L ? 1 : (out > T() + 1e-14L ? 0 : -1), c = fabsl(cr) < T() - e ? 1 : (fabsl(cr) > T() + e ? 0 : -1);
  if (r == 0 || c == 0) return 0; return r == 1 && c == 1 ? 1 : -1;
}
static int inside(const std::vector<Point>& v, const Point& q) {
  size_t n = v.size(); bool odd = false; int edge = 0;
  for (size_t i = 0; i < n; i++) { const Point &a = v[i], &b = v[(i + n - 1) % n];
    if ((a.getY() <= q.getY()) != (b.getY() <= q.getY())) {
      ld x = a.getX() + ((ld)q.getY() - a.getY()) / ((ld)b.getY() - a.getY()) * ((ld)b.getX() - a.getX());
      if (fabsl(x - q.getX()) < 1e-12L * (1 + fabsl(x)) && x != q.getX()) { int o = on(q, a, b); if (o != 1) return -1; }
      if (x == q.getX() && on(q, a, b) != 1) return -1;
      if (x < q.getX()) odd = !odd; }
    int o = on(q, b, a); if (o == 1) edge = 1; else if (o < 0 && !edge) edge = -1; }
  if (edge == 1) return 1; if (odd) return 1; return edge < 0 ? -1 : 0;
}
