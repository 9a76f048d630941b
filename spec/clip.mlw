(* the polygon clipping library: two sets of paths on an integer grid and the result of an operation on them *)
module T_ClipperLib_ClipperBase
  use VVClipperLib_IntPoint as VVClipperLib_IntPoint
  type clipperlib_clipperbase = { clip_subject: VVClipperLib_IntPoint.t; clip_clip: VVClipperLib_IntPoint.t }
end
module T_ClipperLib_Clipper
  use T_ClipperLib_ClipperBase
  type clipperlib_clipper = { clipperlib_clipper_b_clipperlib_clipperbase: clipperlib_clipperbase }
end
module Clip
  use int.Int
  use real.RealInfix
  use Num
  use Cfg
  use T_DelynoiConfig
  use Geom
  use T_Point
  use T_ClipperLib_IntPoint
  use T_ClipperLib_ClipperBase
  use T_ClipperLib_Clipper
  use VPoint as VPoint
  use VClipperLib_IntPoint as VClipperLib_IntPoint
  use VVClipperLib_IntPoint as VVClipperLib_IntPoint
  (* clipping operation (0 intersection, 2 difference) under the given filling rules *)
  val function clip_op (op: int) (s c: VVClipperLib_IntPoint.t) (fs fc: int) : VVClipperLib_IntPoint.t
  function scale : int = cfg.delynoiconfig_scale_for_clipper
  function grid_pt (s: int) (p: point) : clipperlib_intpoint = { clipperlib_intpoint_X = rtrunc (rofi s *. p.point_x); clipperlib_intpoint_Y = rtrunc (rofi s *. p.point_y) }
  (* the first k points on the clipping grid *)
  let rec ghost function grid (s: int) (p: VPoint.t) (k: int) : VClipperLib_IntPoint.t variant { k }
  = if k <= 0 then VClipperLib_IntPoint.empty else VClipperLib_IntPoint.snoc (grid s p (k - 1)) (grid_pt s (VPoint.get p (k - 1)))
  function one (s: int) (p: VPoint.t) : VVClipperLib_IntPoint.t = VVClipperLib_IntPoint.snoc VVClipperLib_IntPoint.empty (grid s p (VPoint.length p))
  (* what is left of the domain and what it shares with the hole, non-zero filling *)
  function left_of_at (s: int) (p h: VPoint.t) : VVClipperLib_IntPoint.t = clip_op 2 (one s p) (one s h) 1 1
  function left_of (p h: VPoint.t) : VVClipperLib_IntPoint.t = left_of_at scale p h
  function shared (p h: VPoint.t) : VVClipperLib_IntPoint.t = clip_op 0 (one scale p) (one scale h) 1 1
  (* the points of a path back from the grid *)
  predicate off_grid (v: VPoint.t) (q: VClipperLib_IntPoint.t) (n: int) = VPoint.length v = n /\ forall i: int. 0 <= i < n ->
    px (VPoint.get v i) = rofi (VClipperLib_IntPoint.get q i).clipperlib_intpoint_X /. rofi scale /\ py (VPoint.get v i) = rofi (VClipperLib_IntPoint.get q i).clipperlib_intpoint_Y /. rofi scale
  (* scaled coordinates within 64 bits *)
  predicate fits_val (s: int) (x: real) = -. 9223372036854775808.0 <=. rofi s *. x <. 9223372036854775808.0
  predicate fits_at (s: int) (p: VPoint.t) = forall i: int. 0 <= i < VPoint.length p -> fits_val s (px (VPoint.get p i)) /\ fits_val s (py (VPoint.get p i))
  predicate fits (p: VPoint.t) = fits_at scale p
end
