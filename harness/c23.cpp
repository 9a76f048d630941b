// CXX -Dtriangulate=hk_triangulate
#include "tri.hpp"
typedef std::map<std::pair<int, int>, std::pair<int, int>> Table;
struct Snap { std::vector<XY> pts; std::vector<std::vector<int>> tri; Table edges; std::map<XY, std::vector<int>> at; bool operator==(const Snap& o) const { return pts == o.pts && tri == o.tri && edges == o.edges && at == o.at; } };
static Table table(SegmentMap* s) { Table t; for (auto& e : s->getMap()) { int a = e.first.getFirst(), b = e.first.getSecond(); t[{std::min(a, b), std::max(a, b)}] = {e.second.getFirst(), e.second.getSecond()}; } return t; }
static Snap snap(Mesh<Triangle>& m) { Snap s; for (auto& q : m.getPoints().getList()) s.pts.push_back(xy(q)); for (auto& t : m.getPolygons()) s.tri.push_back(t.getPoints()); s.edges = table(m.getSegments()); for (auto& e : m.getPointMap()->getMap()) s.at[xy(e.first)] = e.second.getNeighbours(); return s; }
static Snap snap(DelaunayInfo& m) { Snap s; for (auto& q : m.meshPoints) s.pts.push_back(xy(q)); for (auto& t : m.triangles) s.tri.push_back(t.getPoints()); s.edges = table(m.delaunayEdges);
  for (size_t i = 0; i < m.edges.size(); i++) s.at[XY(i, 0)] = {m.edges[i].p1, m.edges[i].p2, m.edges[i].t1, m.edges[i].t2}; for (size_t i = 0; i < m.points.size(); i++) s.at[XY(i, 1)] = {m.points[i].edge}; for (int i = 0; i < m.realPoints.size(); i++) s.at[XY(i, 2)] = {m.realPoints[i]};
  for (auto& e : m.edgeMap) s.at[XY(e.second, 3)] = {std::min(e.first.first, e.first.second), std::max(e.first.first, e.first.second)}; for (int i = 0; i < m.circumcenters.size(); i++) s.at[xy(m.circumcenters[i])] = {i}; return s; }
void run_case(Rng& g, int size) {
  Domain d = domain(g, size % 5); TriangleDelaunayGenerator t(d.seeds, d.region); std::vector<Mesh<Triangle>*> ms; std::vector<DelaunayInfo*> is; std::vector<Snap> mk, ik;
  struct Keep { std::vector<Mesh<Triangle>*>& a; std::vector<DelaunayInfo*>& b; ~Keep() { for (auto x : a) delete x; for (auto x : b) delete x; } } keep{ms, is};
  int n = g.i(2, 5);
  for (int r = 0; r < n; r++) {
    int kind = g.i(0, 3); desc(fmt("request %d", kind)); std::vector<PointSegment> c; if (kind == 2) c = constraints(g, d); calls.clear(); TriangleDelaunayGenerator f(d.seeds, d.region);
    if (kind == 3) { is.push_back(new DelaunayInfo(t.getConformingDelaunay())); ik.push_back(snap(*is.back())); DelaunayInfo o = f.getConformingDelaunay(); CHECK(ik.back() == snap(o), "request %d is answered differently by a new generator", r); }
    else { Mesh<Triangle> m = kind == 0 ? t.getConformingDelaunayTriangulation() : kind == 1 ? t.getConstrainedDelaunayTriangulation() : t.getConstrainedDelaunayTriangulation(c);
      Mesh<Triangle> o = kind == 0 ? f.getConformingDelaunayTriangulation() : kind == 1 ? f.getConstrainedDelaunayTriangulation() : f.getConstrainedDelaunayTriangulation(c);
      ms.push_back(new Mesh<Triangle>(m)); mk.push_back(snap(m)); CHECK(mk.back() == snap(o), "request %d is answered differently by a new generator", r); }
    CHECK(calls.size() == 2, "%d calls of the library", (int)calls.size()); 
    for (auto& k : calls) { CHECK((k.sw.find('D') != std::string::npos) == (kind == 0 || kind == 3), "request %d made with %s", kind, k.sw.c_str()); CHECK(k.segs.size() == d.edges.size() + c.size(), "%d edges handed over, expected %d", (int)k.segs.size(), (int)(d.edges.size() + c.size())); }
    for (size_t i = 0; i < ms.size(); i++) CHECK(snap(*ms[i]) == mk[i], "an earlier triangulation changed at request %d", r);
    for (size_t i = 0; i < is.size(); i++) CHECK(snap(*is[i]) == ik[i], "an earlier triangulation changed at request %d", r);
  }
  NONTRIVIAL();
}
