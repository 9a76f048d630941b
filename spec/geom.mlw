(* Shared mathematical vocabulary of the contracts *)
module Cfg
  use int.Int
  use real.RealInfix
  use T_DelynoiConfig
  val constant cfg : delynoiconfig
  (* the process-wide configuration: legal values only *)
  axiom cfg_tol: 0.0 <. cfg.delynoiconfig_double_comparison_tolerance
  axiom cfg_grade: 1 <= cfg.delynoiconfig_circle_discretization_grade
  axiom cfg_scale: 1 <= cfg.delynoiconfig_scale_for_clipper
  let constant tol : real = cfg.delynoiconfig_double_comparison_tolerance
end

module Geom
  use int.Int
  use real.RealInfix
  use Num
  use Cfg
  use T_Point
  use T_PointSegment
  use T_IndexSegment
  use T_Segment_int
  use T_Segment_Point
  function px (p: point) : real = p.point_x
  function py (p: point) : real = p.point_y
  predicate near (a b: real) = -. tol <. a -. b <. tol
  (* Point::operator== *)
  predicate peq (p q: point) = near p.point_x q.point_x /\ near p.point_y q.point_y
  (* Point::operator< *)
  predicate plt (p q: point) =
    if near p.point_x q.point_x then not (near p.point_y q.point_y) /\ p.point_y <. q.point_y
    else p.point_x <. q.point_x
  predicate same_xy (p q: point) = p.point_x = q.point_x /\ p.point_y = q.point_y
  (* twice the signed area of a, b, c *)
  function cross3 (a b c: point) : real =
    (b.point_x -. a.point_x) *. (c.point_y -. a.point_y) -. (b.point_y -. a.point_y) *. (c.point_x -. a.point_x)
  function sqdist (a b: point) : real =
    (a.point_x -. b.point_x) *. (a.point_x -. b.point_x) +. (a.point_y -. b.point_y) *. (a.point_y -. b.point_y)
  function s1 (s: indexsegment) : int = s.indexsegment_b_segment_int.segment_int_p1
  function s2 (s: indexsegment) : int = s.indexsegment_b_segment_int.segment_int_p2
  function a1 (s: pointsegment) : point = s.pointsegment_b_segment_point.segment_point_p1
  function a2 (s: pointsegment) : point = s.pointsegment_b_segment_point.segment_point_p2
  predicate seg_is (s: indexsegment) (a b: int) = s1 s = a /\ s2 s = b
  predicate seg_eq (s t: indexsegment) = (s1 s = s1 t /\ s2 s = s2 t) \/ (s1 s = s2 t /\ s2 s = s1 t)
  predicate pseg_eq (s t: pointsegment) =
    (peq (a1 s) (a1 t) /\ peq (a2 s) (a2 t)) \/ (peq (a1 s) (a2 t) /\ peq (a2 s) (a1 t))
  (* p lies in the closed range between a and b, up to the tolerance *)
  predicate between_tol (v a b: real) =
    ((v >=. a \/ near v a) /\ (v <=. b \/ near v b)) \/ ((v >=. b \/ near v b) /\ (v <=. a \/ near v a))
  (* p lies on the segment ab, up to the tolerance *)
  predicate on_seg (p a b: point) =
    between_tol p.point_x a.point_x b.point_x /\ between_tol p.point_y a.point_y b.point_y /\
    -. tol <. cross3 a b p <. tol
  (* three points are collinear, up to the tolerance *)
  predicate collinear (a b c: point) = -. tol <. cross3 a b c <. tol
  (* the angle a in [-pi, pi] as a direction in [0, 2 pi) *)
  function fullturn (a: real) : real = if a >=. 0.0 then a else 2.0 *. rpi +. a
  function mkseg (a b: int) : indexsegment =
    { indexsegment_b_segment_int = { segment_int_p1 = a; segment_int_p2 = b }; indexsegment_hash = hash32 a + hash32 b }
end

(* the meeting point of the lines p1p2 and o1o2 *)
module Meet
  use int.Int
  use real.RealInfix
  use Num
  use Cfg
  use Geom
  use T_Point
  function meet_den (p1 p2 o1 o2: point) : real =
    (px p2 -. px p1) *. (py o2 -. py o1) -. (px o2 -. px o1) *. (py p2 -. py p1)
  (* position on the first segment *)
  function meet_t (p1 p2 o1 o2: point) : real =
    ((px o2 -. px o1) *. (py p1 -. py o1) -. (py o2 -. py o1) *. (px p1 -. px o1)) /. meet_den p1 p2 o1 o2
  (* position on the second segment *)
  function meet_s (p1 p2 o1 o2: point) : real =
    ((px p2 -. px p1) *. (py p1 -. py o1) -. (py p2 -. py p1) *. (px p1 -. px o1)) /. meet_den p1 p2 o1 o2
  function meet_x (p1 p2 o1 o2: point) : real = px p1 +. meet_t p1 p2 o1 o2 *. (px p2 -. px p1)
  function meet_y (p1 p2 o1 o2: point) : real = py p1 +. meet_t p1 p2 o1 o2 *. (py p2 -. py p1)
  predicate in01 (t: real) = -. tol <=. t <=. 1.0 +. tol
  (* parallel segments have no meeting point: the quotients are infinite or not a number *)
  predicate first_meet (p1 p2 o1 o2: point) = meet_den p1 p2 o1 o2 <> 0.0 /\ in01 (meet_t p1 p2 o1 o2)
  predicate seg_meet (p1 p2 o1 o2: point) = meet_den p1 p2 o1 o2 <> 0.0 /\ in01 (meet_t p1 p2 o1 o2) /\ in01 (meet_s p1 p2 o1 o2)
end

(* both positions of a meeting denote the same point *)
module MeetPoint
  use int.Int
  use real.RealInfix
  use Num
  use Geom
  use Meet
  use T_Point
  (* both positions denote the same point, which is the only common point of the lines *)
  lemma meet_algx: forall ax ay bx bz rx ry: real.
    rx *. (ax *. bz -. bx *. ay) +. (bx *. ry -. bz *. rx) *. ax -. (ax *. ry -. ay *. rx) *. bx = 0.0
  lemma meet_algy: forall ax ay bx bz rx ry: real.
    ry *. (ax *. bz -. bx *. ay) +. (bx *. ry -. bz *. rx) *. ay -. (ax *. ry -. ay *. rx) *. bz = 0.0
  let lemma meet_cancel (r t s a b d n1 n2: real)
    requires { d <> 0.0 /\ t = n1 /. d /\ s = n2 /. d /\ r *. d +. n1 *. a -. n2 *. b = 0.0 }
    ensures { r +. t *. a -. s *. b = 0.0 }
  = assert { t *. d = n1 }; assert { s *. d = n2 };
    assert { (r +. t *. a -. s *. b) *. d = r *. d +. (t *. d) *. a -. (s *. d) *. b };
    assert { (r +. t *. a -. s *. b) *. d = 0.0 }
  let lemma meet_point (p1 p2 o1 o2: point)
    requires { meet_den p1 p2 o1 o2 <> 0.0 }
    ensures { meet_x p1 p2 o1 o2 = px o1 +. meet_s p1 p2 o1 o2 *. (px o2 -. px o1) }
    ensures { meet_y p1 p2 o1 o2 = py o1 +. meet_s p1 p2 o1 o2 *. (py o2 -. py o1) }
  = let ax = p2.point_x -. p1.point_x in let ay = p2.point_y -. p1.point_y in
    let bx = o2.point_x -. o1.point_x in let bz = o2.point_y -. o1.point_y in
    let rx = p1.point_x -. o1.point_x in let ry = p1.point_y -. o1.point_y in
    let d = ax *. bz -. bx *. ay in
    let ghost t = meet_t p1 p2 o1 o2 in let ghost s = meet_s p1 p2 o1 o2 in
    meet_cancel rx t s ax bx d (bx *. ry -. bz *. rx) (ax *. ry -. ay *. rx);
    meet_cancel ry t s ay bz d (bx *. ry -. bz *. rx) (ax *. ry -. ay *. rx)
end
