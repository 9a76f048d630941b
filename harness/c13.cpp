#include "h.hpp"
#include "gen.hpp"
#include <delynoi/models/Region.h>
#include <delynoi/models/hole/Hole.h>
void run_case(Rng& g, int size) {
  std::vector<Point> out = random_loop(g, 3 + size % 12); int n = out.size();
  Region r; r.p = out; r.points = iota_(n);
  std::vector<Point> all = out; std::vector<std::pair<Point, Point>> edges;
  std::vector<std::pair<int, int>> idx;
  for (int i = 0; i < n; i++) { edges.push_back({out[i], out[(i + 1) % n]}); idx.push_back({i, (i + 1) % n}); }
  describe(out, "outline");
  int nh = g.i(0, 4);
  for (int k = 0; k < nh; k++) {
    std::vector<Point> hp = random_loop(g, g.i(3, 9)); int m = hp.size();
    std::vector<IndexSegment> hs; int rot = g.i(0, m - 1), len = g.chance(80) ? m : g.i(0, m);
    for (int j = 0; j < len; j++) { int a = (j + rot) % m; hs.push_back(g.chance(80) ? IndexSegment(a, (a + 1) % m) : IndexSegment((a + 1) % m, a)); }
    r.holes.push_back(Hole(hp, Point(0, 0), hs));
    describe(hp, "hole");
    for (auto& s : hs) { idx.push_back({(int)all.size() + s.getFirst(), (int)all.size() + s.getSecond()}); edges.push_back({hp[s.getFirst()], hp[s.getSecond()]}); }
    for (auto& q : hp) all.push_back(q);
  }
  std::vector<Point> pts = r.getRegionPoints();
  CHECK(pts.size() == all.size(), "%d points, expected %d", (int)pts.size(), (int)all.size());
  for (size_t i = 0; i < all.size(); i++) CHECK(pts[i].getX() == all[i].getX() && pts[i].getY() == all[i].getY(), "point %d", (int)i);
  std::vector<IndexSegment> s; int times = g.chance(30) ? 2 : 1, base = 0;
  std::vector<IndexSegment> pre; 
  for (int t = 0; t < times; t++) {
    std::vector<IndexSegment> u; r.getSegments(u);
    CHECK(u.size() == idx.size(), "%d edges, expected %d", (int)u.size(), (int)idx.size());
    for (size_t i = 0; i < idx.size(); i++) {
      CHECK(u[i].getFirst() == idx[i].first && u[i].getSecond() == idx[i].second, "edge %d is %d-%d, expected %d-%d", (int)i, u[i].getFirst(), u[i].getSecond(), idx[i].first, idx[i].second);
      const Point &a = pts[u[i].getFirst()], &b = pts[u[i].getSecond()];
      CHECK(a.getX() == edges[i].first.getX() && a.getY() == edges[i].first.getY() && b.getX() == edges[i].second.getX() && b.getY() == edges[i].second.getY(), "edge %d joins other points", (int)i);
    }
  }
  if (nh > 1) NONTRIVIAL();
}
