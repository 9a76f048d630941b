#include "h.hpp"
#include "gen.hpp"
#include <delynoi/models/neighbourhood/SegmentMap.h>
#include <delynoi/models/neighbourhood/EdgeData.h>
#include <delynoi/voronoi/structures/mapdata.h>
typedef std::pair<int, int> E;
static E key(int a, int b) { return a < b ? E(a, b) : E(b, a); }
void run_case(Rng& g, int size) {
  int m = 2 + g.i(0, size), n = 4 + 2 * size; bool big = g.chance(20);
  auto vert = [&]() { int v = g.i(0, m); return big ? v * 104729 + 2000000 : g.chance(3) ? -1 - v : v; };
  SegmentMap t; std::map<E, std::vector<int>> ref; std::map<E, E> val;
  for (int k = 0; k < n; k++) {
    int a = vert(), b = vert(); E e = key(a, b); int op = g.i(0, 99);
    IndexSegment s(a, b); if (g.chance(30)) s = IndexSegment(b, a); if (g.chance(20)) { IndexSegment c(s); s = c; }
    if (op < 60) { int p = g.i(0, 30); desc(fmt("register %d-%d for %d", s.getFirst(), s.getSecond(), p)); t.insert(s, p); if (!val.count(e)) val[e] = E(p, -1); else val[e].second = p; }
    else if (op < 70) { int p = g.i(-1, 30), q = g.i(-1, 30); desc(fmt("set %d-%d to %d,%d", s.getFirst(), s.getSecond(), p, q)); t.insert(s, NeighboursBySegment(p, q)); val[e] = E(p, q); }
    else if (op < 85) { desc(fmt("contains %d-%d", s.getFirst(), s.getSecond())); CHECK(t.containsSegment(s) == (val.count(e) > 0), "%d-%d listed: expected %d", s.getFirst(), s.getSecond(), (int)val.count(e)); }
    else if (val.count(e)) { NeighboursBySegment& r = t.get(s); CHECK(r.getFirst() == val[e].first && r.getSecond() == val[e].second, "neighbours of %d-%d are %d,%d, expected %d,%d", a, b, r.getFirst(), r.getSecond(), val[e].first, val[e].second); }
    CHECK(t.size() == (int)val.size(), "%d edges, expected %d", t.size(), (int)val.size());
  }
  if (val.size() > 3) NONTRIVIAL();
  for (auto& v : val) for (int d = 0; d < 2; d++) { IndexSegment s(d ? v.first.first : v.first.second, d ? v.first.second : v.first.first);
    CHECK(t.containsSegment(s), "%d-%d lost", s.getFirst(), s.getSecond());
    NeighboursBySegment r = t.get(s); CHECK(r.getFirst() == v.second.first && r.getSecond() == v.second.second, "neighbours of %d-%d are %d,%d, expected %d,%d", s.getFirst(), s.getSecond(), r.getFirst(), r.getSecond(), v.second.first, v.second.second); }
  std::map<E, int> seen; for (auto& v : t.getMap()) { IndexSegment s = v.first; seen[key(s.getFirst(), s.getSecond())]++; }
  CHECK(seen.size() == val.size() && t.getMap().size() == val.size(), "%d distinct edges in the table, expected %d", (int)seen.size(), (int)val.size());
  int a = vert(), b = vert(), c = vert(), d = vert(); bool eq = key(a, b) == key(c, d);
  desc(fmt("compare %d-%d with %d-%d", a, b, c, d));
  CHECK((Key(a, b) == Key(c, d)) == eq, "keys %d-%d, %d-%d", a, b, c, d);
  CHECK((EdgeData(a, b) == EdgeData(c, d)) == eq, "records %d-%d, %d-%d", a, b, c, d);
  CHECK((IndexSegment(a, b) == IndexSegment(c, d)) == eq, "segments %d-%d, %d-%d", a, b, c, d);
  CHECK(Key(a, b) == Key(b, a) && KeyHasher()(Key(a, b)) == KeyHasher()(Key(b, a)), "key %d-%d and its reverse", a, b);
  IndexSegment u(a, b), w(b, a), x(u); CHECK(SegmentHasher()(u) == SegmentHasher()(w) && SegmentHasher()(x) == SegmentHasher()(w), "hash of %d-%d and its reverse", a, b);
  CHECK(u == w && EdgeData(a, b) == EdgeData(b, a), "%d-%d and its reverse", a, b);
  CHECK(NeighboursHasher()(NeighboursBySegment(a, b)) == NeighboursHasher()(NeighboursBySegment(b, a)), "hash of neighbours %d,%d", a, b);
  CHECK((NeighboursBySegment(a, b) == NeighboursBySegment(c, d)) == eq, "neighbours %d,%d and %d,%d", a, b, c, d);
  EdgeData ed(a, b); CHECK(ed.t1 == -1 && ed.t2 == -1 && ed.p1 == a && ed.p2 == b, "fresh record");
  int t1 = g.i(0, 9), t2 = g.i(0, 9); ed.setTriangle(t1); CHECK(ed.t1 == t1 && ed.t2 == -1, "first triangle %d: %d,%d", t1, ed.t1, ed.t2); ed.setTriangle(t2); CHECK(ed.t1 == t1 && ed.t2 == t2, "triangles %d,%d: %d,%d", t1, t2, ed.t1, ed.t2);
  NeighboursBySegment nb; CHECK(nb.getFirst() == -1 && nb.getSecond() == -1, "default neighbours"); NeighboursBySegment n1(t1); CHECK(n1.getFirst() == t1 && n1.getSecond() == -1, "one neighbour");
}
