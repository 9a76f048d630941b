#include "h.hpp"
#include "gen.hpp"
#include <delynoi/models/polygon/Triangle.h>
void run_case(Rng& g, int size) {
  int n = 3 + g.i(0, 3 + size % 8); std::vector<Point> p = random_points(g, n); std::vector<int> ix = iota_(n); g.shuffle(ix); std::vector<int> v(ix.begin(), ix.begin() + 3);
  bool tiny = g.i(0, 5) == 0; if (tiny) { double u = std::ldexp(1.0, -g.i(4, 24)); for (auto& q : p) q = Point(g.i(-60, 60) * u, g.i(-60, 60) * u); }
  describe(p); describe(v, "corners");
  Point a = p[v[0]], b = p[v[1]], c = p[v[2]]; double d = (b.getX() - a.getX()) * (c.getY() - a.getY()) - (b.getY() - a.getY()) * (c.getX() - a.getX());
  auto dist = [](Point x, Point y) { return std::hypot(x.getX() - y.getX(), x.getY() - y.getY()); };
  double len = std::max(dist(a, b), std::max(dist(b, c), dist(c, a)));
  if (std::fabs(d) < 1e-3 * len * len || (len < 1e-3 && !tiny) || len == 0) throw Skip();
  Triangle t; int how = tiny ? 0 : g.i(0, 2); std::vector<Point> list; UniqueList<Point> ul; double tol = tiny ? 1e-6 * len : 1e-6 * (1 + len + dist(a, Point(0, 0)));
  for (int k = g.i(0, 4); k > 0; k--) { Point q(g.i(-60, 60) * 0.5, g.i(-60, 60) * 0.5); list.push_back(q); ul.push_back(q); }
  std::vector<Point> l0 = list, u0 = ul.getList();
  if (how == 0) t = Triangle(v, p);
  else if (how == 1) { t = Triangle(v, p, list); int k = t.getCircumcenterIndex(); CHECK(list.size() == l0.size() + 1, "%d entries", (int)list.size()); CHECK(k >= 0 && k < (int)list.size(), "index %d", k); CHECK(dist(list[k], t.getCircumcenter()) == 0, "entry %d is not the circumcentre", k); for (size_t i = 0; i < l0.size(); i++) CHECK(list[i] == l0[i], "entry %d changed", (int)i); }
  else { t = Triangle(v, p, ul); if (g.b()) t = Triangle(v, p, ul); int k = t.getCircumcenterIndex(); CHECK(k >= 0 && k < ul.size(), "index %d", k); CHECK(ul[k] == t.getCircumcenter(), "entry %d is not the circumcentre", k); CHECK(ul.size() <= (int)u0.size() + 1, "%d entries", ul.size()); for (size_t i = 0; i < u0.size(); i++) CHECK(ul[i] == u0[i], "entry %d changed", (int)i); }
  CHECK(t.getPoints() == v, "corners changed"); CHECK(!t.isNull(), "null"); CHECK(Triangle().isNull(), "not null");
  Point o = t.getCircumcenter(); double r = dist(o, a); desc(fmt("centre (%.17g,%.17g)", o.getX(), o.getY()));
  CHECK(std::fabs(dist(o, b) - r) < tol * (1 + r) && std::fabs(dist(o, c) - r) < tol * (1 + r), "distances %.17g %.17g %.17g", r, dist(o, b), dist(o, c));
  NONTRIVIAL();
  std::unordered_map<Key, int, KeyHasher> em; int id = 10; std::map<std::pair<int, int>, int> ref;
  for (int x = 0; x < n; x++) for (int y = x + 1; y < n; y++) { ref[{x, y}] = id; em.insert(std::make_pair(g.b() ? Key(x, y) : Key(y, x), id++)); }
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (i != j) {
    EdgeData e(v[i], v[j]); int w = v[3 - i - j]; CHECK(t.thirdPoint(e) == w, "opposite of %d %d is %d, expected %d", v[i], v[j], t.thirdPoint(e), w);
    int x = t.nextEdge(v[i], e, em); CHECK((x == ref[{std::min(v[i], w), std::max(v[i], w)}]), "next edge around %d is number %d", v[i], x);
  }
  CHECK(em.size() == ref.size(), "edge table has %d entries", (int)em.size());
}
