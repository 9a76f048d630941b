#include "h.hpp"
#include "gen.hpp"
#include <fstream>
#include <delynoi/models/Mesh.h>
#include <delynoi/models/polygon/Triangle.h>
static std::string num(double v, int prec) { char b[400]; snprintf(b, sizeof b, "%.*f", prec, v); return b; }
static int big(Rng& g) { return g.chance(40) ? g.i(0, 30) : g.chance(50) ? g.i(900, 1100) : g.i(99990, 3000000); }
static Point pt(Rng& g, int m) { return m == 0 ? Point(g.i(-3, 3), g.i(-3, 3)) : m == 1 ? Point(g.i(-4000, 4000) * 0.125, g.i(-4000, 4000) * 0.125) : Point(g.r(-1e6, 1e6), g.r(-1e-3, 1e-3)); }
static std::vector<std::string> lines_of(const std::string& path) { std::ifstream f(path); std::vector<std::string> v; std::string s; while (std::getline(f, s)) v.push_back(s); return v; }
template <class T> static void writing(Rng& g, int size) {
  int prec = g.i(1, 17); DelynoiConfig::instance()->setPrecision(prec); desc(fmt("print, precision %d", prec));
  Mesh<T> m; int mode = g.i(0, 2); for (int k = g.i(0, 3 + size % 10); k > 0; k--) { Point p = pt(g, mode); m.points.push_back(p); }
  std::map<std::pair<int, int>, int> es; for (int k = g.i(0, 8); k > 0; k--) { int a = big(g), b = big(g); if (a == b) continue; m.edges->insert(IndexSegment(a, b), k); es[{std::min(a, b), std::max(a, b)}]++; }
  std::vector<std::vector<int>> ps; for (int k = g.i(0, 6); k > 0; k--) { std::vector<int> v; int n = g.chance(90) ? g.i(1, 6) : g.i(10, 14); for (int i = 0; i < n; i++) v.push_back(big(g)); T t; t.points = v; m.polygons.push_back(t); ps.push_back(v); }
  std::string dir = scratch(); m.printInFile("mesh.txt"); std::vector<std::string> l = lines_of(dir + "/mesh.txt"); size_t at = 0; int np = m.points.size();
  for (auto& v : ps) describe(v, "polygon"); for (auto& e : es) desc(fmt("edge %d %d", e.first.first, e.first.second)); describe(m.points.getList());
  auto next = [&](const std::string& want, const char* what) { CHECK(at < l.size(), "file ends before %s", what); CHECK(l[at] == want, "%s reads \"%s\", expected \"%s\"", what, l[at].c_str(), want.c_str()); at++; };
  next(std::to_string(np), "number of points");
  for (int k = 0; k < np; k++) next(num(m.points[k].getX(), prec) + " " + num(m.points[k].getY(), prec), "point");
  next(std::to_string(es.size()), "number of edges");
  std::map<std::pair<int, int>, int> got;
  for (size_t k = 0; k < es.size(); k++) { CHECK(at < l.size(), "file ends among the edges"); std::istringstream s(l[at++]); int a = -7, b = -7; std::string rest; s >> a >> b; CHECK(!(s >> rest), "edge line \"%s\"", l[at - 1].c_str()); got[{std::min(a, b), std::max(a, b)}]++; }
  for (auto& e : got) CHECK(e.second == 1 && es.count(e.first), "edge %d %d listed %d times", e.first.first, e.first.second, e.second);
  CHECK(got.size() == es.size(), "%d edges", (int)got.size());
  next(std::to_string(ps.size()), "number of polygons");
  for (auto& v : ps) { std::string s = std::to_string(v.size()); for (int x : v) s += " " + std::to_string(x); next(s, "polygon"); }
  CHECK(at == l.size(), "%d lines after the polygons", (int)(l.size() - at)); delete m.edges; delete m.pointMap; if (np && ps.size()) NONTRIVIAL();
}
template <class T> static void reading(Rng& g, int size, bool tri) {
  std::string dir = scratch(); int st = g.i(0, 2), n = g.i(tri ? 3 : 1, 5 + size % 12), mode = g.i(0, 1); std::vector<Point> p; for (int k = 0; k < n; k++) p.push_back(g.chance(25) && k ? p[g.i(0, k - 1)] : pt(g, mode));
  std::vector<std::vector<int>> ps; for (int k = g.i(0, 6); k > 0; k--) { std::vector<int> v; int c = tri ? 3 : g.i(1, 7); for (int i = 0; i < c; i++) v.push_back(g.i(0, n - 1)); ps.push_back(v); }
  std::ofstream f(dir + "/in.txt"); f << std::setprecision(17) << n << "\n"; for (auto& q : p) f << q.getX() << (g.b() ? " " : "  ") << q.getY() << "\n";
  f << ps.size() << "\n"; for (auto& v : ps) { f << v.size(); for (int x : v) f << (g.chance(80) ? " " : "   ") << x + st; f << "\n"; } f.close();
  describe(p, "file points"); for (auto& v : ps) describe(v, "file polygon"); desc(fmt("start index %d", st));
  Mesh<T> m; if (g.b()) m.createFromFile("in.txt", st); else { std::ifstream in(dir + "/in.txt"); m.createFromStream(in, st); }
  auto same = [](const Point& a, const Point& b) { double t = DelynoiConfig::instance()->getTolerance(); return std::fabs(a.getX() - b.getX()) < t && std::fabs(a.getY() - b.getY()) < t; };
  std::vector<Point> u; std::vector<int> where; for (auto& q : p) { size_t k = 0; while (k < u.size() && !same(u[k], q)) k++; if (k == u.size()) u.push_back(q); where.push_back(k); }
  CHECK(m.points.size() == (int)u.size(), "%d points, expected %d", (int)m.points.size(), (int)u.size());
  for (size_t k = 0; k < u.size(); k++) CHECK(m.points[k].getX() == u[k].getX() && m.points[k].getY() == u[k].getY(), "point %d is (%.17g,%.17g)", (int)k, m.points[k].getX(), m.points[k].getY());
  CHECK(m.polygons.size() == ps.size(), "%d polygons", (int)m.polygons.size());
  std::map<std::pair<int, int>, std::vector<int>> es; std::map<int, std::vector<int>> at;
  for (size_t k = 0; k < ps.size(); k++) {
    std::vector<int> v; for (int x : ps[k]) v.push_back(where[x]); CHECK(m.polygons[k].points == v, "vertices of polygon %d", (int)k);
    for (size_t i = 0; i < v.size(); i++) { int a = v[i], b = v[(i + 1) % v.size()]; es[{std::min(a, b), std::max(a, b)}].push_back(k); at[v[i]].push_back(k); }
  }
  CHECK(m.edges->size() == (int)es.size(), "%d edges, expected %d", m.edges->size(), (int)es.size());
  for (auto& e : es) { CHECK(m.edges->containsSegment(IndexSegment(e.first.second, e.first.first)), "edge %d %d is not listed", e.first.first, e.first.second); NeighboursBySegment nb = m.getNeighbours(IndexSegment(e.first.first, e.first.second)); int w1 = e.second[0], w2 = e.second.size() > 1 ? e.second.back() : -1; CHECK(nb.getFirst() == w1 && nb.getSecond() == w2, "edge %d %d has neighbours %d %d, expected %d %d", e.first.first, e.first.second, nb.getFirst(), nb.getSecond(), w1, w2); }
  for (size_t k = 0; k < u.size(); k++) { std::vector<int> got = m.pointMap->get(u[k]).getNeighbours(); CHECK(got == at[k], "point %d is registered for %d polygons, expected %d", (int)k, (int)got.size(), (int)at[k].size()); }
  delete m.edges; delete m.pointMap; if (ps.size()) NONTRIVIAL();
}
void run_case(Rng& g, int size) { switch (g.i(0, 3)) { case 0: writing<Polygon>(g, size); break; case 1: writing<Triangle>(g, size); break; case 2: reading<Polygon>(g, size, false); break; default: reading<Triangle>(g, size, true); } }
