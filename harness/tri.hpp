// domains, requests and a look at what reaches the triangulation library
#pragma once
#include "h.hpp"
#include "gen.hpp"
#include "inside.hpp"
#include <delynoi/models/Region.h>
#include <delynoi/models/hole/Hole.h>
#include <delynoi/voronoi/TriangleDelaunayGenerator.h>
#include <sanitizer/asan_interface.h>
typedef std::pair<double, double> XY;
inline XY xy(const Point& p) { return XY(p.getX(), p.getY()); }
struct Call { std::string sw; std::vector<XY> pts, holes; std::vector<std::pair<XY, XY>> segs; std::vector<std::pair<int, int>> idx; std::string bad; std::vector<void*> mem;
  std::vector<XY> op; std::vector<int> om, tri, edge, em; };
static std::vector<Call> calls;
static void reals(Call& c, const void* p, size_t n, const char* what) { if (n && (!p || __asan_region_is_poisoned((void*)p, n))) c.bad += std::string(what) + " shorter than announced; "; if (p) c.mem.push_back((void*)p); }
extern "C" void hk_triangulate(char* sw, struct triangulateio* in, struct triangulateio* out, struct triangulateio* vor) {
  calls.push_back(Call()); Call& c = calls.back(); c.sw = sw; int n = in->numberofpoints, m = in->numberofsegments, h = in->numberofholes;
  reals(c, in->pointlist, 16 * (size_t)n, "pointlist"); reals(c, in->segmentlist, 8 * (size_t)m, "segmentlist"); reals(c, in->holelist, 16 * (size_t)h, "holelist");
  reals(c, in->pointattributelist, 8 * (size_t)n * in->numberofpointattributes, "pointattributelist");
  if (in->pointmarkerlist) reals(c, in->pointmarkerlist, 4 * (size_t)n, "pointmarkerlist"); if (in->segmentmarkerlist) reals(c, in->segmentmarkerlist, 4 * (size_t)m, "segmentmarkerlist");
  if (in->numberofregions) c.bad += "regions requested; ";
  if (!c.bad.empty()) throw Fail{"expected arrays of matching sizes: " + c.bad};
  for (int i = 0; i < n; i++) c.pts.push_back(XY(in->pointlist[2 * i], in->pointlist[2 * i + 1]));
  for (int i = 0; i < h; i++) c.holes.push_back(XY(in->holelist[2 * i], in->holelist[2 * i + 1]));
  for (int i = 0; i < m; i++) { int a = in->segmentlist[2 * i], b = in->segmentlist[2 * i + 1]; if (a < 0 || b < 0 || a >= n || b >= n) throw Fail{fmt("expected valid positions: edge %d joins %d and %d of %d points", i, a, b, n)}; c.segs.push_back({c.pts[a], c.pts[b]}); c.idx.push_back({a, b}); }
  triangulate(sw, in, out, vor);
  for (int i = 0; i < out->numberofpoints; i++) { c.op.push_back(XY(out->pointlist[2 * i], out->pointlist[2 * i + 1])); c.om.push_back(out->pointmarkerlist[i]); }
  c.tri.assign(out->trianglelist, out->trianglelist + 3 * out->numberoftriangles); c.edge.assign(out->edgelist, out->edgelist + 2 * out->numberofedges); c.em.assign(out->edgemarkerlist, out->edgemarkerlist + out->numberofedges);
  // outside the precondition: points or circumcentres too near each other to be told apart
  for (size_t i = 0; i < c.op.size(); i++) for (size_t j = 0; j < i; j++) if (hypot(c.op[i].first - c.op[j].first, c.op[i].second - c.op[j].second) < 1e-4) throw Skip();
  for (size_t i = 0; i + 2 < c.tri.size(); i += 3) { XY p = c.op[c.tri[i]], q = c.op[c.tri[i + 1]], r = c.op[c.tri[i + 2]]; double ux = q.first - p.first, uy = q.second - p.second, vx = r.first - p.first, vy = r.second - p.second;
    if (fabs(ux * vy - uy * vx) < 1e-4 * (ux * ux + uy * uy + vx * vx + vy * vy)) throw Skip(); }
  for (void* p : {(void*)out->pointlist, (void*)out->pointattributelist, (void*)out->pointmarkerlist, (void*)out->trianglelist, (void*)out->triangleattributelist, (void*)out->segmentlist, (void*)out->segmentmarkerlist, (void*)out->edgelist, (void*)out->edgemarkerlist}) if (p) c.mem.push_back(p);
}
struct Domain { Region region; std::vector<Point> outline, seeds, all; std::vector<std::vector<Point>> holes; std::vector<Point> centres; std::vector<std::pair<XY, XY>> edges; };
inline double seg_dist(const Point& q, const Point& a, const Point& b) { double dx = b.getX() - a.getX(), dy = b.getY() - a.getY(), l = dx * dx + dy * dy, t = l > 0 ? ((q.getX() - a.getX()) * dx + (q.getY() - a.getY()) * dy) / l : 0; t = t < 0 ? 0 : t > 1 ? 1 : t; return hypot(a.getX() + t * dx - q.getX(), a.getY() + t * dy - q.getY()); }
inline double loop_dist(const std::vector<Point>& v, const Point& q) { double d = 1e300; for (size_t i = 0; i < v.size(); i++) d = std::min(d, seg_dist(q, v[i], v[(i + 1) % v.size()])); return d; }
inline Domain domain(Rng& g, int size) {
  Domain d; d.outline = g.chance(50) ? rectangle(0, 0, g.i(8, 12), g.i(8, 12)) : star_polygon(g, g.i(3, 8), 5, 5, 5, 8);
  if (g.b()) std::rotate(d.outline.begin(), d.outline.begin() + g.i(0, (int)d.outline.size() - 1), d.outline.end());
  d.region.p = d.outline; d.region.points = iota_(d.outline.size());
  int nh = g.i(0, 3);
  for (int k = 0; k < nh; k++) {
    std::vector<Point> h = star_polygon(g, g.i(3, 6), 2.5 + 2.5 * (k % 2) + g.r(0, .5), 2.5 + 2.5 * (k / 2) + g.r(0, .5), 0.4, 0.9); bool ok = true;
    for (auto& q : h) if (inside(d.outline, q) != 1 || loop_dist(d.outline, q) < 0.1) ok = false;
    for (auto& q : d.outline) if (loop_dist(h, q) < 0.1) ok = false;
    if (!ok) continue;
    Point c(0, 0); for (auto& q : h) { c.setX(c.getX() + q.getX() / h.size()); c.setY(c.getY() + q.getY() / h.size()); }
    if (inside(h, c) != 1) continue;
    std::vector<IndexSegment> hs; int rot = g.i(0, (int)h.size() - 1); for (size_t i = 0; i < h.size(); i++) { int a = (i + rot) % h.size(), b = (a + 1) % h.size(); hs.push_back(g.chance(80) ? IndexSegment(a, b) : IndexSegment(b, a)); }
    d.region.holes.push_back(Hole(h, c, hs)); d.holes.push_back(h); d.centres.push_back(c);
    for (auto& s : hs) d.edges.push_back({xy(h[s.getFirst()]), xy(h[s.getSecond()])});
  }
  std::vector<std::pair<XY, XY>> e; for (size_t i = 0; i < d.outline.size(); i++) e.push_back({xy(d.outline[i]), xy(d.outline[(i + 1) % d.outline.size()])});
  d.edges.insert(d.edges.begin(), e.begin(), e.end());
  int ns = g.i(0, 3 + size % 12);
  for (int k = 0; k < ns; k++) {
    Point q(g.r(0, 12), g.r(0, 12)); if (g.chance(30)) q = Point(g.i(1, 11), g.i(1, 11));
    if (inside(d.outline, q) != 1 || loop_dist(d.outline, q) < 0.1) continue;
    bool ok = true; for (auto& h : d.holes) if (inside(h, q) != 0 || loop_dist(h, q) < 0.1) ok = false;
    for (auto& s : d.seeds) if (hypot(s.getX() - q.getX(), s.getY() - q.getY()) < 0.05) ok = false;
    if (ok) d.seeds.push_back(q);
  }
  int m = d.seeds.size(); for (int k = 0; k < 2; k++) if (m && g.chance(25)) d.seeds.insert(d.seeds.begin() + g.i(0, m - 1), d.seeds[g.i(0, m - 1)]);
  if (g.chance(25)) d.seeds.push_back(d.outline[g.i(0, (int)d.outline.size() - 1)]);
  if (d.holes.size() && g.chance(25)) d.seeds.insert(d.seeds.begin(), d.holes[0][0]);
  d.all = d.seeds; d.all.insert(d.all.end(), d.outline.begin(), d.outline.end()); for (auto& h : d.holes) d.all.insert(d.all.end(), h.begin(), h.end());
  describe(d.outline, "outline"); for (auto& h : d.holes) describe(h, "hole"); describe(d.seeds, "seeds");
  return d;
}
inline std::vector<PointSegment> constraints(Rng& g, const Domain& d) {
  std::vector<PointSegment> c; int n = g.i(0, 3);
  for (int k = 0; k < n; k++) { Point a = g.pick(d.all), b = g.pick(d.all); if (xy(a) == xy(b)) continue;
    bool ok = true; for (auto& q : d.all) if (xy(q) != xy(a) && xy(q) != xy(b) && seg_dist(q, a, b) < 0.05) ok = false;
    for (auto& s : c) if ((s.getFirst() == a && s.getSecond() == b) || (s.getFirst() == b && s.getSecond() == a)) ok = false;
    for (auto& s : d.edges) if ((s.first == xy(a) && s.second == xy(b)) || (s.first == xy(b) && s.second == xy(a))) ok = false;
    if (ok) { c.push_back(PointSegment(a, b)); desc(fmt("constraint (%.17g,%.17g)-(%.17g,%.17g)", a.getX(), a.getY(), b.getX(), b.getY())); } }
  return c;
}
