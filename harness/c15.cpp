// CXX -Dtriangulate=hk_triangulate
#include "tri.hpp"
typedef std::pair<XY, XY> E2;
static E2 way(E2 e) { return e.first < e.second ? e : E2(e.second, e.first); }
void run_case(Rng& g, int size) {
  calls.clear(); Domain d = domain(g, size); std::vector<PointSegment> c; int kind = g.i(0, 3); if (kind == 2) c = constraints(g, d);
  TriangleDelaunayGenerator t(d.seeds, d.region);
  if (kind == 0) t.getConformingDelaunayTriangulation(); else if (kind == 1) t.getConstrainedDelaunayTriangulation(); else if (kind == 2) t.getConstrainedDelaunayTriangulation(c); else t.getConformingDelaunay();
  CHECK(calls.size() == 1, "%d calls of the library", (int)calls.size()); Call& k = calls[0];
  CHECK((k.sw.find('D') != std::string::npos) == (kind == 0 || kind == 3), "request %d made with %s", kind, k.sw.c_str());
  std::vector<XY> want; for (auto& q : d.all) if (std::find(want.begin(), want.end(), xy(q)) == want.end()) want.push_back(xy(q));
  std::vector<XY> got = k.pts; std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
  CHECK(got == want, "points handed over: %d, expected %d, or others", (int)got.size(), (int)want.size());
  std::vector<E2> we, ge; for (auto& e : d.edges) we.push_back(way(e)); for (auto& s : c) we.push_back(way(E2(xy(s.getFirst()), xy(s.getSecond())))); for (auto& e : k.segs) ge.push_back(way(e));
  std::sort(we.begin(), we.end()); std::sort(ge.begin(), ge.end());
  for (auto& e : we) CHECK(std::count(ge.begin(), ge.end(), e) == std::count(we.begin(), we.end(), e), "edge (%g,%g)-(%g,%g)", e.first.first, e.first.second, e.second.first, e.second.second);
  CHECK(ge == we, "%d edges handed over, expected %d", (int)ge.size(), (int)we.size());
  std::vector<XY> hc; for (auto& q : d.centres) hc.push_back(xy(q)); std::vector<XY> gh = k.holes; std::sort(hc.begin(), hc.end()); std::sort(gh.begin(), gh.end());
  CHECK(gh == hc, "%d hole markers, expected %d, or elsewhere", (int)gh.size(), (int)hc.size());
  for (void* p : k.mem) CHECK(__asan_address_is_poisoned(p), "array still allocated");
  if (d.holes.size() > 1 || !c.empty()) NONTRIVIAL();
}
