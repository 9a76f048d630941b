#include "h.hpp"
#include "gen.hpp"
// orientation: isClockwise <-> negative signed area; fixCCW makes it non-negative and keeps the vertices
void run_case(Rng& g, int size) {
  std::vector<Point> p = random_loop(g, size);
  std::vector<int> idx = shuffled_indices(g, p);
  describe(p); describe(idx);
  std::vector<int> ic = idx;
  Polygon pol; pol.points = ic; pol.area = -1; pol.diameter = -1; pol.calculateHash();
  double A = signed_area(p, idx);
  double scale = abs_area(p, idx) + 1e-300;
  if (std::fabs(A) > 1e-9 * scale) {
    CHECK(pol.isClockwise(p) == (A < 0), "signed area %.17g", A);
    NONTRIVIAL();
  }
  if (g.chance(50)) pol.getArea(p);
  pol.fixCCW(p);
  std::vector<int> after = static_cast<const Polygon&>(pol).getPoints();
  CHECK(signed_area(p, after) >= -1e-9 * scale, "signed area after fixCCW %.17g", signed_area(p, after));
  std::vector<int> rv(idx.rbegin(), idx.rend());
  CHECK(after == idx || after == rv, "vertex list is neither kept nor reversed");
  if (A > 1e-9 * scale) CHECK(after == idx, "a counter-clockwise polygon was changed");
  CHECK(close_(pol.getArea(p), signed_area(p, after), 1e-9) || std::fabs(pol.getArea(p) - signed_area(p, after)) < 1e-9 * scale, "area %.17g vs %.17g", pol.getArea(p), signed_area(p, after));
}
