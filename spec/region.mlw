(* regions, holes, boxes and circles *)
module Reg
  use int.Int
  use real.RealInfix
  use Num
  use Geom
  use Poly
  use PolyStruct
  use Inside
  use T_Point
  use T_IndexSegment
  use T_Polygon
  use T_Hole
  use T_Region
  use VPoint as VPoint
  use VInt as VInt
  use VHole as VHole
  use VIndexSegment as VIndexSegment
  (* even-odd rule plus the boundary *)
  predicate poly_in (p: VPoint.t) (v: VInt.t) (q: point) = odd p v q (VInt.length v) \/ on_outline p v q
  predicate segs_ok (h: hole) =
    forall i: int. 0 <= i < VIndexSegment.length h.hole_segments ->
      0 <= s1 (VIndexSegment.get h.hole_segments i) < VPoint.length h.hole_HolePoints /\
      0 <= s2 (VIndexSegment.get h.hole_segments i) < VPoint.length h.hole_HolePoints
  predicate hole_edge (h: hole) (q: point) (i: int) =
    on_seg q (VPoint.get h.hole_HolePoints (s1 (VIndexSegment.get h.hole_segments i))) (VPoint.get h.hole_HolePoints (s2 (VIndexSegment.get h.hole_segments i)))
  predicate hole_rim (h: hole) (q: point) = exists i: int. 0 <= i < VIndexSegment.length h.hole_segments /\ hole_edge h q i
  predicate hole_in (h: hole) (q: point) = oddp h.hole_HolePoints q (VPoint.length h.hole_HolePoints) \/ hole_rim h q
  predicate hole_ok (h: hole) = segs_ok h /\ stepsp_apart h.hole_HolePoints
  (* the outline of a region is its own point list, in order *)
  predicate outline_ok (r: region) = trivial_idx r.region_b_polygon.polygon_points (VPoint.length r.region_p)
  predicate region_ok (r: region) =
    outline_ok r /\ steps_apart r.region_p r.region_b_polygon.polygon_points /\
    forall k: int. 0 <= k < VHole.length r.region_holes -> hole_ok (VHole.get r.region_holes k)
  predicate outline_in (r: region) (q: point) = poly_in r.region_p r.region_b_polygon.polygon_points q
  (* the first n points of v all lie in the outline *)
  let rec ghost predicate all_in (r: region) (v: VPoint.t) (n: int) variant { n }
  = if n <= 0 then true else all_in r v (n - 1) && outline_in r (VPoint.get v (n - 1))
  predicate in_hole (r: region) (q: point) (n: int) = exists k: int. 0 <= k < n /\ hole_in (VHole.get r.region_holes k) q
  let ghost in_hole_step (r: region) (q: point) (n: int)
    requires { 0 <= n }
    ensures { in_hole r q (n + 1) <-> in_hole r q n \/ hole_in (VHole.get r.region_holes n) q }
  = ()
  (* inside the outline and outside every hole *)
  predicate keeps (r: region) (q: point) = outline_in r q /\ not (in_hole r q (VHole.length r.region_holes))
  (* the points of s that r keeps, in order *)
  let rec ghost function kept (r: region) (s: VPoint.t) (k: int) : VPoint.t variant { k }
  = if k <= 0 then VPoint.empty
    else if keeps r (VPoint.get s (k - 1)) then VPoint.snoc (kept r s (k - 1)) (VPoint.get s (k - 1)) else kept r s (k - 1)
  let ghost kept_step (r: region) (s: VPoint.t) (k: int)
    requires { 0 <= k }
    ensures { kept r s 0 = VPoint.empty }
    ensures { kept r s (k + 1) = if keeps r (VPoint.get s k) then VPoint.snoc (kept r s k) (VPoint.get s k) else kept r s k }
  = ()
  (* position of the first point and the first edge of the k-th hole *)
  let rec function pt_off (r: region) (k: int) : int variant { k }
  = if k <= 0 then VPoint.length r.region_p else pt_off r (k - 1) + VPoint.length (VHole.get r.region_holes (k - 1)).hole_HolePoints
  let rec function seg_off (r: region) (k: int) : int variant { k }
  = if k <= 0 then VInt.length r.region_b_polygon.polygon_points else seg_off r (k - 1) + VIndexSegment.length (VHole.get r.region_holes (k - 1)).hole_segments
  (* outline points, then the points of the first k holes *)
  let rec ghost function region_upto (r: region) (k: int) : VPoint.t variant { k }
  = if k <= 0 then r.region_p else VPoint.app (region_upto r (k - 1)) (VHole.get r.region_holes (k - 1)).hole_HolePoints
  val function region_pts (r: region) : VPoint.t
  axiom region_pts_def: forall r: region [region_pts r]. region_pts r = region_upto r (VHole.length r.region_holes)
  function shifted (s: indexsegment) (d: int) : indexsegment = mkseg (s1 s + d) (s2 s + d)
end

module Box
  use int.Int
  use real.RealInfix
  use Num
  use Geom
  use Cfg
  use T_Point
  use T_PointSegment
  use T_BoundingBox
  use VPoint as VPoint
  function bx0 (b: boundingbox) : real = rmin (px b.boundingbox_p1) (px b.boundingbox_p2)
  function bx1 (b: boundingbox) : real = rmax (px b.boundingbox_p1) (px b.boundingbox_p2)
  function by0 (b: boundingbox) : real = rmin (py b.boundingbox_p1) (py b.boundingbox_p2)
  function by1 (b: boundingbox) : real = rmax (py b.boundingbox_p1) (py b.boundingbox_p2)
  predicate side (s: pointsegment) (x0 y0 x1 y1: real) =
    (px (a1 s) = x0 /\ py (a1 s) = y0 /\ px (a2 s) = x1 /\ py (a2 s) = y1) \/
    (px (a2 s) = x0 /\ py (a2 s) = y0 /\ px (a1 s) = x1 /\ py (a1 s) = y1)
  predicate linked (s t: pointsegment) = same_xy (a2 s) (a1 t)
  (* the four sides appear among s0 s1 s2 s3 *)
  predicate one_of (s0 s1 s2 s3: pointsegment) (x0 y0 x1 y1: real) =
    side s0 x0 y0 x1 y1 \/ side s1 x0 y0 x1 y1 \/ side s2 x0 y0 x1 y1 \/ side s3 x0 y0 x1 y1
  predicate box_sides (s0 s1 s2 s3: pointsegment) (b: boundingbox) =
    one_of s0 s1 s2 s3 (bx0 b) (by0 b) (bx1 b) (by0 b) /\ one_of s0 s1 s2 s3 (bx1 b) (by0 b) (bx1 b) (by1 b) /\
    one_of s0 s1 s2 s3 (bx1 b) (by1 b) (bx0 b) (by1 b) /\ one_of s0 s1 s2 s3 (bx0 b) (by1 b) (bx0 b) (by0 b)
  predicate covers (b: boundingbox) (p: VPoint.t) =
    forall i: int. 0 <= i < VPoint.length p -> bx0 b <=. px (VPoint.get p i) <=. bx1 b /\ by0 b <=. py (VPoint.get p i) <=. by1 b
  constant big : real = 9223372036854775808.0
  (* coordinates in the range of the running extrema's initial values *)
  predicate coord_ok (v: real) = -. big <. v <. big
  predicate coords_ok (p: VPoint.t) = forall i: int. 0 <= i < VPoint.length p -> coord_ok (px (VPoint.get p i)) /\ coord_ok (py (VPoint.get p i))
end

module Seed
  use int.Int
  use real.RealInfix
  use Num
  use Geom
  use Box
  use Grid
  use T_Point
  use T_BoundingBox
  use T_PointGenerator
  use VPoint as VPoint
  (* b is the bounding box of the points *)
  predicate tight (b: boundingbox) (p: VPoint.t)
  axiom tight_def: forall b: boundingbox, p: VPoint.t [tight b p]. tight b p <->
    covers b p /\ (exists i: int. 0 <= i < VPoint.length p /\ px (VPoint.get p i) = bx0 b) /\ (exists i: int. 0 <= i < VPoint.length p /\ px (VPoint.get p i) = bx1 b) /\
    (exists i: int. 0 <= i < VPoint.length p /\ py (VPoint.get p i) = by0 b) /\ (exists i: int. 0 <= i < VPoint.length p /\ py (VPoint.get p i) = by1 b)
  (* s is s0 followed by the grid of g over the box b *)
  predicate gridded (s s0: VPoint.t) (g: pointgenerator) (b: boundingbox) (nX nY: int)
  axiom gridded_def: forall s s0: VPoint.t, g: pointgenerator, b: boundingbox, nX nY: int [gridded s s0 g b nX nY]. gridded s s0 g b nX nY <->
    VPoint.length s = VPoint.length s0 + (if nX > 0 /\ nY > 0 then nX * nY else 0) /\
    (forall k: int. 0 <= k < VPoint.length s0 -> VPoint.get s k = VPoint.get s0 k) /\ rows_done s (VPoint.length s0) g b nX nY nY
end
module Circ
  use int.Int
  use real.RealInfix
  use Num
  use Geom
  use Cfg
  use T_Point
  use T_IndexSegment
  use VPoint as VPoint
  use VIndexSegment as VIndexSegment
  function rad (a: real) : real = a *. rpi /. 180.0
  predicate at_angle (q c: point) (r a: real) = px q = px c +. r *. rcos (rad a) /\ py q = py c +. r *. rsin (rad a)
  function circ_angle (k: int) : real = 360.0 *. rofi k /. rofi cfg.T_DelynoiConfig.delynoiconfig_circle_discretization_grade
  predicate circle_pts (s: VPoint.t) (c: point) (r: real) (n: int) =
    VPoint.length s = n /\ forall k: int. 0 <= k < n -> at_angle (VPoint.get s k) c r (circ_angle k)
  function arc_angle (a b: real) (k: int) : real = a +. (b -. a) /. rofi cfg.T_DelynoiConfig.delynoiconfig_circle_discretization_grade *. rofi k
  predicate arc_pts (s: VPoint.t) (c: point) (r a b: real) (n: int) =
    VPoint.length s = n /\ forall k: int. 0 <= k < n -> at_angle (VPoint.get s k) c r (arc_angle a b k)
  (* the closed chain over n points *)
  predicate chain (s: VIndexSegment.t) (n: int) =
    VIndexSegment.length s = n /\ forall i: int. 0 <= i < n -> VIndexSegment.get s i = mkseg i (if i + 1 = n then 0 else i + 1)
end
