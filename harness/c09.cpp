#include "h.hpp"
#include "gen.hpp"
#include <delynoi/models/generator/functions/functions.h>
#include <delynoi/models/generator/noise/noise.h>
static const double PI_ = 3.14159265358979323846;
static void same(const char* what, double got, double want, double tol = 1e-9) { CHECK(fabs(got - want) <= tol * (1 + fabs(want)), "%s gave %.17g, expected %.17g", what, got, want); }
static double wave(bool sine, double a, double f, double p, double x) { double t = (f * x * 180 + p) * PI_ / 180; return a * (sine ? sin(t) : cos(t)); }
void run_case(Rng& g, int size) {
  int n = 2 + std::min(size, 30);
  double d = g.chance(30) ? g.i(-4, 4) : g.r(-10, 10);
  Functor *c = functions::constant(), *u = functions::uniform(d), *dp = functions::displace_points(d);
  double a = g.r(-5, 5), f = g.chance(50) ? g.i(-3, 3) : g.r(-4, 4), p = g.chance(50) ? g.i(-8, 8) * 45 : g.r(-400, 400);
  Functor *s = functions::sine(a, f, p), *co = functions::cosine(a, f, p);
  desc(fmt("delta %.17g amplitude %.17g frequency %.17g phase %.17g calls %d;", d, a, f, p, n));
  for (int k = 0; k < n; k++) {
    double x = coord(g, g.i(0, 3));
    same("constant", c->apply(x), x); same("uniform", u->apply(x), d * x); same("displace_points", dp->apply(x), k % 2 == 0 ? x + d / 2 : x);
    same("sine", s->apply(x), wave(true, a, f, p, x), 1e-8 * (1 + fabs(f * x))); same("cosine", co->apply(x), wave(false, a, f, p, x), 1e-8 * (1 + fabs(f * x)));
  }
  double lo = g.chance(40) ? g.i(-6, 6) : g.r(-10, 10), hi = g.chance(15) ? lo : lo + (g.chance(50) ? g.i(0, 9) : g.r(0, 10));
  desc(fmt(" range %.17g..%.17g", lo, hi));
  Functor* rd = functions::random_double(lo, hi);
  for (int k = 0; k < 40; k++) { double v = rd->apply(k); CHECK(v >= lo && v <= hi, "random_double gave %.17g", v); }
  bool ints = std::ceil(lo) <= std::floor(hi);
  if (ints) { Functor* ri = functions::random_integer(lo, hi); for (int k = 0; k < 60; k++) { double v = ri->apply(k); CHECK(v >= lo && v <= hi && v == std::floor(v), "random_integer gave %.17g", v); } }
  double m = std::max(fabs(lo), fabs(hi));
  Functor* base = functions::uniform(d); Functor* nd = noise::random_double_noise(base, lo, hi);
  for (int k = 0; k < 40; k++) { double x = g.r(-5, 5), v = nd->apply(x); CHECK(fabs(v - d * x) <= m + 1e-9, "random_double_noise moved %.17g to %.17g, more than %.17g", d * x, v, m); }
  if ((int)lo <= (int)hi) { Functor* base2 = functions::displace_points(d); Functor* ni = noise::random_integer_noise(base2, lo, hi);
    for (int k = 0; k < 60; k++) { double x = g.r(-5, 5), v = ni->apply(x), e = k % 2 == 0 ? x + d / 2 : x; CHECK(fabs(v - e) <= m + 1e-9, "random_integer_noise moved %.17g to %.17g, more than %.17g", e, v, m); } }
  // rows of at least two increasing coordinates for the alternating rule
  int w = 2 + g.i(0, std::min(size, 15)), rows = g.i(1, 6);
  std::vector<double> row; double x = coord(g, g.i(0, 2)), h = g.chance(60) ? g.i(1, 4) * 0.5 : g.r(0.1, 3);
  bool even = g.chance(70); for (int k = 0; k < w; k++) { row.push_back(x); x += even ? h : g.r(0.1, 3); }
  std::ostringstream o; for (double q : row) o << " " << std::setprecision(17) << q; desc(fmt(" %d rows of", rows) + o.str());
  Functor* ca = functions::constantAlternating();
  for (int r = 0; r < rows; r++) for (int k = 0; k < w; k++) { double v = ca->apply(row[k]), e = r % 2 ? row[k] + fabs(row[1] - row[0]) / 2 : row[k]; CHECK(fabs(v - e) <= 1e-9 * (1 + fabs(e)), "alternating rule, row %d place %d: %.17g, expected %.17g", r, k, v, e); }
  NONTRIVIAL();
}
