#include "h.hpp"
#include "gen.hpp"
#include "inside.hpp"
#include <fstream>
#include <delynoi/models/Region.h>
#include <delynoi/models/generator/PointGenerator.h>
#include <delynoi/models/hole/Hole.h>
static bool apart(const std::vector<Point>& v) { for (size_t i = 0; i < v.size(); i++) if (eqp(v[i], v[(i + 1) % v.size()])) return false; return true; }
static void same(const std::vector<Point>& a, const std::vector<Point>& b, const char* what) {
  CHECK(a.size() == b.size(), "%s: %d points, expected %d", what, (int)a.size(), (int)b.size());
  for (size_t i = 0; i < a.size(); i++) CHECK(a[i].getX() == b[i].getX() && a[i].getY() == b[i].getY(), "%s: point %d is (%.17g,%.17g), expected (%.17g,%.17g)", what, (int)i, a[i].getX(), a[i].getY(), b[i].getX(), b[i].getY());
}
void run_case(Rng& g, int size) {
  std::vector<Point> out = g.chance(50) ? rectangle(g.i(-9, -6), g.i(-9, -6), g.i(6, 9), g.i(6, 9)) : star_polygon(g, g.i(3, 10), 0, 0, 5, 9);
  if (g.b()) std::reverse(out.begin(), out.end());
  Region r; r.p = out; r.points = iota_(out.size()); std::vector<std::vector<Point>> hs; describe(out, "outline");
  for (int k = g.i(0, 3); k > 0; k--) {
    std::vector<Point> h = g.b() ? star_polygon(g, g.i(3, 8), g.i(-3, 3), g.i(-3, 3), 0.5, 2) : rectangle(g.i(-5, -1), g.i(-5, -1), g.i(0, 5), g.i(0, 5));
    if (!apart(h)) throw Skip();
    std::vector<IndexSegment> s; int m = h.size(); for (int i = 0; i < m; i++) s.push_back(IndexSegment(i, (i + 1) % m)); std::rotate(s.begin(), s.begin() + g.i(0, m - 1), s.end());
    r.holes.push_back(Hole(h, Point(0, 0), s)); hs.push_back(h); describe(h, "hole");
  }
  if (!apart(out)) throw Skip();
  auto keep = [&](const Point& q) -> int { int a = inside(out, q); if (a < 0) return -1; if (!a) return 0; for (auto& h : hs) { int b = inside(h, q); if (b < 0) return -1; if (b) return 0; } return 1; };
  std::vector<Point> held; int ops = 1 + g.i(0, 3);
  for (int o = 0; o < ops; o++) {
    int how = g.i(0, 4); std::vector<Point> offered = held;
    if (how <= 1) {
      std::vector<Point> s; for (int k = g.i(0, 2 + size % 20); k > 0; k--) s.push_back(g.chance(20) ? out[g.i(0, out.size() - 1)] : g.b() ? Point(g.i(-9, 9), g.i(-9, 9)) : Point(g.r(-10, 10), g.r(-10, 10)));
      describe(s, how ? "file" : "list"); offered.insert(offered.end(), s.begin(), s.end());
      if (how == 0) r.addSeedPoints(s);
      else {
        std::ofstream f(scratch() + "/seeds.txt"); f << std::setprecision(17) << s.size() << "\n"; for (auto& q : s) f << q.getX() << (g.b() ? " " : "  ") << q.getY() << "\n"; f.close();
        r.addSeedsFromFile("seeds.txt");
      }
    } else if (how == 2) {
      int nX = g.i(1, 6), nY = g.i(1, 6); double d = g.chance(50) ? 1 : g.r(0.5, 1.5); desc(fmt("grid %dx%d scale %.17g", nX, nY, d));
      double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300; for (auto& q : out) { x0 = std::min(x0, q.getX()); x1 = std::max(x1, q.getX()); y0 = std::min(y0, q.getY()); y1 = std::max(y1, q.getY()); }
      PointGenerator gen(functions::uniform(d), functions::constant()), ref(functions::uniform(d), functions::constant());
      std::vector<Point> grid; ref.generate(grid, BoundingBox(Point(x0, y0), Point(x1, y1)), nX, nY); offered.insert(offered.end(), grid.begin(), grid.end());
      r.generateSeedPoints(gen, nX, nY);
    } else if (how == 3) { r.cleanSeedPoints(); offered.clear(); desc("clean"); CHECK(r.getSeedPoints().empty(), "seeds left after cleaning"); }
    else { Region c(r); desc("copy"); same(c.getSeedPoints(), r.getSeedPoints(), "seeds of the copy"); same(c.p, out, "outline of the copy"); CHECK(c.points == iota_(out.size()), "outline indices of the copy"); CHECK(c.holes.size() == hs.size(), "%d holes in the copy", (int)c.holes.size()); for (size_t k = 0; k < hs.size(); k++) same(c.holes[k].getPoints(), hs[k], "hole of the copy"); }
    std::vector<Point> want; for (auto& q : offered) { int k = keep(q); if (k < 0) throw Skip(); if (k) want.push_back(q); }
    same(r.getSeedPoints(), want, "seeds"); held = want;
    same(r.p, out, "outline"); CHECK(r.holes.size() == hs.size(), "%d holes", (int)r.holes.size()); for (size_t k = 0; k < hs.size(); k++) same(r.holes[k].getPoints(), hs[k], "hole");
    if (want.size() && want.size() < offered.size()) NONTRIVIAL();
  }
}
