// CXX -Dtriangulate=hk_triangulate
#include "tri.hpp"
static std::pair<int, int> key(int a, int b) { return a < b ? std::make_pair(a, b) : std::make_pair(b, a); }
void run_case(Rng& g, int size) {
  calls.clear(); Domain d = domain(g, size); int kind = g.i(0, 2);
  TriangleDelaunayGenerator t(d.seeds, d.region);
  if (kind == 2) {
    DelaunayInfo m = t.getConformingDelaunay(); CHECK(calls.size() == 1, "%d calls of the library", (int)calls.size()); Call& k = calls[0]; int nt = k.tri.size() / 3, ne = k.edge.size() / 2;
    std::map<std::pair<int, int>, std::set<int>> of; for (int i = 0; i < nt; i++) for (int j = 0; j < 3; j++) of[key(k.tri[3 * i + j], k.tri[3 * i + (j + 1) % 3])].insert(i);
    CHECK((int)m.triangles.size() == nt && m.meshPoints.size() == k.op.size() && (int)m.edges.size() == ne && m.points.size() == k.op.size(), "sizes");
    for (int i = 0; i < nt; i++) { CHECK(m.triangles[i].getPoints() == std::vector<int>(k.tri.begin() + 3 * i, k.tri.begin() + 3 * i + 3), "triangle %d", i);
      Point c = m.triangles[i].getCircumcenter(); int x = m.triangles[i].getCircumcenterIndex(); CHECK(x >= 0 && x < m.circumcenters.size(), "circumcentre index %d", x); Point e = m.circumcenters[x]; CHECK(hypot(e.getX() - c.getX(), e.getY() - c.getY()) < 1e-4, "circumcentre %d of triangle %d is elsewhere", x, i); }
    for (size_t i = 0; i < k.op.size(); i++) { CHECK(xy(m.meshPoints[i]) == k.op[i], "point %d", (int)i); CHECK(m.meshPoints[i].isInBoundary() == (k.om[i] == 1), "boundary mark of point %d", (int)i);
      int first = -1, bnd = -1; for (int j = 0; j < ne; j++) if (k.edge[2 * j] == (int)i || k.edge[2 * j + 1] == (int)i) { if (first < 0) first = j; if (k.em[j] == 1) bnd = j; }
      int e = m.points[i].edge; CHECK(m.points[i].point == (int)i, "point data %d", (int)i); CHECK(first < 0 ? e == -1 : e >= 0 && e < ne && (k.edge[2 * e] == (int)i || k.edge[2 * e + 1] == (int)i) && (bnd < 0 || k.em[e] == 1), "edge of point %d is %d", (int)i, e); }
    for (int i = 0; i < ne; i++) { CHECK(key(m.edges[i].p1, m.edges[i].p2) == key(k.edge[2 * i], k.edge[2 * i + 1]), "edge %d", i); std::set<int> s; if (m.edges[i].t1 != -1) s.insert(m.edges[i].t1); if (m.edges[i].t2 != -1) s.insert(m.edges[i].t2);
      CHECK(s == of[key(m.edges[i].p1, m.edges[i].p2)], "triangles of edge %d", i); CHECK(m.edgeMap[Key(k.edge[2 * i + 1], k.edge[2 * i])] == i, "number of edge %d", i); }
    std::set<int> used(k.tri.begin(), k.tri.end()), real; for (int i = 0; i < m.realPoints.size(); i++) { CHECK(real.insert(m.realPoints[i]).second, "point %d listed twice", m.realPoints[i]); } CHECK(used == real, "points of triangles");
    if (nt > 3) NONTRIVIAL(); return;
  }
  Mesh<Triangle> m = kind ? t.getConstrainedDelaunayTriangulation() : t.getConformingDelaunayTriangulation(); CHECK(calls.size() == 1, "%d calls of the library", (int)calls.size()); Call& k = calls[0];
  int nt = k.tri.size() / 3; std::vector<Triangle> ts = m.getPolygons(); CHECK((int)ts.size() == nt, "%d triangles, expected %d", (int)ts.size(), nt);
  std::vector<Point> p = m.getPoints().getList(); CHECK(p.size() == k.op.size(), "%d points, expected %d", (int)p.size(), (int)k.op.size());
  std::map<std::pair<int, int>, std::set<int>> of; std::map<int, std::set<int>> at;
  for (int i = 0; i < nt; i++) { std::vector<int> v = ts[i].getPoints(); CHECK(v.size() == 3 && v[0] != v[1] && v[1] != v[2] && v[2] != v[0], "triangle %d does not have three different corners", i);
    for (int j = 0; j < 3; j++) { CHECK(v[j] >= 0 && v[j] < (int)p.size(), "corner %d of triangle %d", v[j], i); CHECK(xy(p[v[j]]) == k.op[k.tri[3 * i + j]], "corner %d of triangle %d is elsewhere", j, i); of[key(v[j], v[(j + 1) % 3])].insert(i); at[v[j]].insert(i); } }
  for (auto& e : of) { IndexSegment s(e.first.first, e.first.second); if (g.b()) s = IndexSegment(e.first.second, e.first.first);
    CHECK(m.getSegments()->getMap().count(s) == 1, "edge %d-%d is not in the table", e.first.first, e.first.second); NeighboursBySegment n = m.getNeighbours(s); std::set<int> got; if (n.getFirst() != -1) got.insert(n.getFirst()); if (n.getSecond() != -1) got.insert(n.getSecond());
    CHECK(got == e.second, "neighbours of edge %d-%d are %d and %d", e.first.first, e.first.second, n.getFirst(), n.getSecond()); }
  for (auto& e : m.getSegments()->getMap()) CHECK(of.count(key(e.first.getFirst(), e.first.getSecond())), "edge %d-%d has no triangle", e.first.getFirst(), e.first.getSecond());
  for (auto& q : at) { std::vector<int> l = m.getPointMap()->get(p[q.first]).getNeighbours(); std::set<int> got(l.begin(), l.end()); CHECK(got == q.second && l.size() == got.size(), "triangles of point %d", q.first); }
  if (nt > 3) NONTRIVIAL();
}
