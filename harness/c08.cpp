#include "h.hpp"
#include "gen.hpp"
#include <delynoi/models/generator/PointGenerator.h>
#include <delynoi/models/generator/functions/functions.h>
#include <delynoi/models/polygon/BoundingBox.h>
// a rule whose value depends on its argument and on how often it was asked
struct Counting : public Functor { double a, b, c; int n = 0; std::vector<double> args; double apply(double x) { args.push_back(x); return a + b * x + c * n++; } };
void run_case(Rng& g, int size) {
  int top = 1 + std::min(size, 12), nX = g.chance(20) ? 1 : g.i(1, top), nY = g.chance(20) ? 1 : g.i(1, top);
  double x0 = coord(g, g.i(0, 3)), x1 = coord(g, g.i(0, 3)), y0 = coord(g, g.i(0, 3)), y1 = coord(g, g.i(0, 3));
  if (g.chance(15)) y1 = y0; if (g.chance(15)) x1 = x0;
  int how = g.i(0, 2);
  Counting fx, fy; for (Counting* f : {&fx, &fy}) { f->a = g.i(-3, 3); f->b = g.chance(30) ? 0 : g.i(-2, 2); f->c = g.chance(50) ? 0 : g.r(-1, 1); }
  desc(fmt("box (%.17g,%.17g)-(%.17g,%.17g) %dx%d axis %d rules %g%+g*x%+g*n, %g%+g*x%+g*n", x0, y0, x1, y1, nX, nY, how, fx.a, fx.b, fx.c, fy.a, fy.b, fy.c));
  std::vector<Point> v = random_points(g, g.chance(50) ? 0 : g.i(1, 4)), before = v;
  Counting mx = fx, my = fy;
  PointGenerator gen = how == 2 ? PointGenerator(&fx, &fy) : how == 0 ? PointGenerator(&fy, functions::independent_variable::x) : PointGenerator(&fx, functions::independent_variable::y);
  gen.generate(v, BoundingBox(Point(x0, y0), Point(x1, y1)), nX, nY);
  CHECK(v.size() == before.size() + (size_t)nX * nY, "%d points added for a %dx%d grid", (int)(v.size() - before.size()), nX, nY);
  for (size_t k = 0; k < before.size(); k++) CHECK(v[k].getX() == before[k].getX() && v[k].getY() == before[k].getY(), "listed point %d changed", (int)k);
  double lx = std::min(x0, x1), hx = std::max(x0, x1), ly = std::min(y0, y1), hy = std::max(y0, y1);
  size_t at = before.size(); double tol = 1e-11 * (10 + fabs(lx) + fabs(hx) + fabs(ly) + fabs(hy));
  for (int i = 0; i < nY; i++) for (int j = 0; j < nX; j++, at++) {
    double x = nX > 1 ? lx + (hx - lx) * j / (nX - 1) : lx, y = nY > 1 ? ly + (hy - ly) * i / (nY - 1) : ly;
    double ex = x, ey = y;
    if (how == 0) ey = y + my.apply(x); else if (how == 1) ex = x + mx.apply(y); else { ex = mx.apply(x); ey = my.apply(y); }
    CHECK(fabs(v[at].getX() - ex) <= tol && fabs(v[at].getY() - ey) <= tol, "cell row %d column %d is (%.17g,%.17g), expected (%.17g,%.17g)", i, j, v[at].getX(), v[at].getY(), ex, ey);
  }
  bool thrown = false; try { PointGenerator one(&fx, functions::independent_variable::both); } catch (std::invalid_argument&) { thrown = true; }
  CHECK(thrown, "a single rule without an axis was accepted");
  NONTRIVIAL();
}
