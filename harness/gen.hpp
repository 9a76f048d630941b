// generators and independent oracles shared by the harnesses
#pragma once
#include "h.hpp"
#include <delynoi/models/basic/Point.h>
#include <delynoi/models/polygon/Polygon.h>
#include <delynoi/config/DelynoiConfig.h>
inline void describe(const std::vector<Point>& p, const char* n = "points") { std::ostringstream s; s << std::setprecision(17) << n << " ="; for (auto& q : p) s << " (" << q.getX() << "," << q.getY() << ")"; desc(s.str()); }
inline void describe(const std::vector<int>& v, const char* n = "indices") { std::ostringstream s; s << n << " ="; for (int q : v) s << " " << q; desc(s.str()); }
inline double coord(Rng& g, int mode) { return mode == 0 ? g.i(-5, 5) : mode == 1 ? g.i(-40, 40) * 0.25 : mode == 2 ? g.r(-10, 10) : g.r(-1000, 1000); }
inline std::vector<Point> random_points(Rng& g, int n) { int m = g.i(0, 3); std::vector<Point> p; for (int k = 0; k < n; k++) p.push_back(Point(coord(g, m), coord(g, m))); return p; }
// simple (star-shaped) polygon, counter-clockwise
inline std::vector<Point> star_polygon(Rng& g, int n, double cx = 0, double cy = 0, double rmin = 1, double rmax = 5) {
  std::vector<double> a; double t0 = g.r(0, 6.28);
  std::vector<Point> p;
  for (int k = 0; k < n; k++) { double t = t0 + 6.283185307179586 * (k + g.r(0, 0.7)) / n; double r = g.r(rmin, rmax); p.push_back(Point(cx + r * cos(t), cy + r * sin(t))); }
  return p;
}
inline std::vector<Point> rectangle(double x0, double y0, double x1, double y1) { return {Point(x0, y0), Point(x1, y0), Point(x1, y1), Point(x0, y1)}; }
inline std::vector<Point> convex_polygon(Rng& g, int n, double cx = 0, double cy = 0, double r = 4) {
  std::vector<Point> p; double t0 = g.r(0, 6.28), ex = g.r(0.5, 1.5);
  for (int k = 0; k < n; k++) { double t = t0 + 6.283185307179586 * (k + g.r(0, 0.8)) / n; p.push_back(Point(cx + r * ex * cos(t), cy + r * sin(t))); }
  return p;
}
// rectilinear L / U / comb shapes with exact coordinates
inline std::vector<Point> comb_polygon(Rng& g, int teeth) {
  std::vector<Point> p; double x = 0; p.push_back(Point(0, 0)); double w = teeth * 2 - 1; p.push_back(Point(w, 0));
  for (int k = teeth - 1; k >= 0; k--) { double h = g.i(2, 5); p.push_back(Point(2 * k + 1, h)); p.push_back(Point(2 * k, h)); if (k > 0) { p.push_back(Point(2 * k, 1)); p.push_back(Point(2 * k - 1, 1)); } }
  return p;
}
inline std::vector<Point> simple_polygon(Rng& g, int n) {
  if (n < 3) n = 3;
  switch (g.i(0, 4)) { case 0: return convex_polygon(g, n); case 1: return rectangle(g.i(-4, -1), g.i(-4, -1), g.i(1, 4), g.i(1, 4)); case 2: return comb_polygon(g, 1 + n / 4); default: return star_polygon(g, n); }
}
inline std::vector<Point> random_loop(Rng& g, int n) {
  std::vector<Point> p = g.chance(70) ? simple_polygon(g, n) : random_points(g, n < 3 ? 3 : n);
  if (g.b()) std::reverse(p.begin(), p.end());
  if (g.chance(50)) std::rotate(p.begin(), p.begin() + g.i(0, (int)p.size() - 1), p.end());
  return p;
}
// spread the loop over a larger point list; returns the indices, p is replaced
inline std::vector<int> shuffled_indices(Rng& g, std::vector<Point>& p) {
  int extra = g.chance(50) ? g.i(0, 5) : 0; int n = p.size();
  std::vector<int> where; for (int k = 0; k < n + extra; k++) where.push_back(k);
  if (g.chance(60)) g.shuffle(where);
  std::vector<Point> q(n + extra, Point(77.5, -33.25)); std::vector<int> idx;
  for (int k = 0; k < n; k++) { q[where[k]] = p[k]; idx.push_back(where[k]); }
  for (int k = n; k < n + extra; k++) q[where[k]] = Point(g.r(-50, 50), g.r(-50, 50));
  p = q; return idx;
}
inline double signed_area(const std::vector<Point>& p, const std::vector<int>& v) {
  long double s = 0; size_t n = v.size();
  for (size_t i = 0; i < n; i++) { const Point &a = p[v[i]], &b = p[v[(i + 1) % n]]; s += (long double)a.getX() * b.getY() - (long double)b.getX() * a.getY(); }
  return (double)(s / 2);
}
inline double abs_area(const std::vector<Point>& p, const std::vector<int>& v) {
  double s = 0; size_t n = v.size();
  for (size_t i = 0; i < n; i++) { const Point &a = p[v[i]], &b = p[v[(i + 1) % n]]; s += std::fabs(a.getX() * b.getY()) + std::fabs(b.getX() * a.getY()); }
  return s;
}
inline std::vector<int> iota_(int n) { std::vector<int> v; for (int k = 0; k < n; k++) v.push_back(k); return v; }
