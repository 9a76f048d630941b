#include "h.hpp"
#include "gen.hpp"
#include <utilities/utilities.h>
#include <utilities/UniqueList.h>
static double T() { return DelynoiConfig::instance()->getTolerance(); }
static bool same(int a, int b) { return a == b; }
static bool same(double a, double b) { return a == b; }
static bool same(const Point& a, const Point& b) { return std::fabs(a.getX() - b.getX()) < T() && std::fabs(a.getY() - b.getY()) < T(); }
static std::string show(int a) { return fmt("%d", a); }
static std::string show(double a) { return fmt("%.17g", a); }
static std::string show(const Point& a) { return fmt("(%.17g,%.17g)", a.getX(), a.getY()); }
static void make(Rng& g, int& x) { x = g.i(-4, 12); }
static void make(Rng& g, double& x) { x = g.i(-6, 6) * 0.5; }
// coordinates on a grid, sometimes displaced by a fraction of the tolerance
static void make(Rng& g, Point& p) { double d = g.chance(40) ? g.r(-0.3, 0.3) * T() : 0, e = g.chance(40) ? g.r(-0.3, 0.3) * T() : 0; p = Point(g.i(-2, 2) + d, g.i(-2, 2) * 0.5 + e); }
template <class E> static int find(const std::vector<E>& m, const E& x) { for (size_t i = 0; i < m.size(); i++) if (same(m[i], x)) return i; return -1; }
template <class E> static void check(UniqueList<E>& u, const std::vector<E>& m, const E& x) {
  CHECK(u.size() == (int)m.size(), "%d elements, expected %d", u.size(), (int)m.size());
  for (size_t i = 0; i < m.size(); i++) CHECK(same(u[i], m[i]), "element %d is %s, expected %s", (int)i, show(u[i]).c_str(), show(m[i]).c_str());
  std::vector<E> l = u.getList(); CHECK(l.size() == m.size(), "getList has %d elements", (int)l.size());
  CHECK(u.contains(x) == (find(m, x) >= 0), "contains %s, expected %d", show(x).c_str(), find(m, x) >= 0);
  CHECK(u.indexOf(x) == find(m, x), "position of %s is %d, expected %d", show(x).c_str(), u.indexOf(x), find(m, x));
}
template <class E> static void history(Rng& g, int size) {
  UniqueList<E> u; std::vector<E> m; int n = 3 + size; std::string s; int del = 0;
  for (int k = 0; k < n; k++) {
    E x; make(g, x); int op = g.i(0, 99);
    if (op < 50) { desc("push " + show(x)); E y = x; int r = u.push_back(y), e = find(m, x); if (e < 0) { e = m.size(); m.push_back(x); } CHECK(r == e, "position %d of %s, expected %d", r, show(x).c_str(), e); }
    else if (op < 62) { std::vector<E> l; int c = g.i(0, 5); for (int j = 0; j < c; j++) { E y; make(g, y); l.push_back(y); } std::string d = "push_list"; for (auto& y : l) d += " " + show(y); desc(d);
      std::vector<int> r, e; for (auto& y : l) { int f = find(m, y); if (f < 0) { f = m.size(); m.push_back(y); } e.push_back(f); }
      if (g.b()) r = u.push_list(l); else { UniqueList<E> v; std::vector<E> w; for (auto& y : l) { if (find(w, y) < 0) { w.push_back(y); } v.push_back(y); } std::vector<int> e2; for (auto& y : w) e2.push_back(find(m, y)); e = e2; r = u.push_list(v); }
      CHECK(r.size() == e.size(), "%d positions for %d elements", (int)r.size(), (int)e.size());
      for (size_t j = 0; j < e.size(); j++) CHECK(r[j] == e[j], "position %d of list element %d, expected %d", r[j], (int)j, e[j]); }
    else if (op < 74) { desc("delete " + show(x)); int f = find(m, x); u.delete_element(x); if (f >= 0) { m.erase(m.begin() + f); del++; } }
    else if (op < 86) { if (m.empty()) continue; desc("pop_front"); u.pop_front(); m.erase(m.begin()); del++; }
    else if (op < 89) { desc("clear"); u.clear(); m.clear(); }
    else if (op < 94) { desc("copy"); UniqueList<E> v(u); u = v; E y; make(g, y); desc("push on the copied-from list " + show(y)); v.push_back(y); }
    else { desc("query " + show(x)); }
    E q; make(g, q); check(u, m, q); if (!m.empty()) check(u, m, m[g.i(0, m.size() - 1)]);
  }
  if (del) NONTRIVIAL();
}
void run_case(Rng& g, int size) { switch (g.i(0, 2)) { case 0: history<int>(g, size); break; case 1: history<double>(g, size); break; default: history<Point>(g, size); } }
