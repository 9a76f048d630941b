(* triangles *)
module Tri
  use int.Int
  use real.RealInfix
  use Geom
  use Poly
  use Edge
  use T_Point
  use T_EdgeData
  use VInt as VInt
  use VPoint as VPoint
  predicate tri_idx (v: VInt.t) = VInt.length v = 3
  predicate corner (v: VInt.t) (x: int) = x = VInt.get v 0 \/ x = VInt.get v 1 \/ x = VInt.get v 2
  predicate three (v: VInt.t) = VInt.get v 0 <> VInt.get v 1 /\ VInt.get v 1 <> VInt.get v 2 /\ VInt.get v 2 <> VInt.get v 0
  predicate side (v: VInt.t) (e: edgedata) = corner v e.edgedata_p1 /\ corner v e.edgedata_p2 /\ e.edgedata_p1 <> e.edgedata_p2
  (* the corner of a triangle that is not on one of its sides *)
  predicate opposite (v: VInt.t) (e: edgedata) (x: int) = corner v x /\ x <> e.edgedata_p1 /\ x <> e.edgedata_p2
  (* twice the area *)
  function tri_area2 (p: VPoint.t) (v: VInt.t) : real = cross3 (vtx p v 0) (vtx p v 1) (vtx p v 2)
  predicate equidistant (c a b d: point) = sqdist c a = sqdist c b /\ sqdist c a = sqdist c d
  predicate circumcentre (p: VPoint.t) (v: VInt.t) (c: point) = equidistant c (vtx p v 0) (vtx p v 1) (vtx p v 2)
end
(* the solution of the circumcentre equations *)
module Circum
  use int.Int
  use real.RealInfix
  use Geom
  use T_Point
  use Tri
  function cd (a b c: point) : real = 2.0 *. (px a *. (py b -. py c) +. px b *. (py c -. py a) +. px c *. (py a -. py b))
  function sq (a: point) : real = px a *. px a +. py a *. py a
  function cx (a b c: point) : real = sq a *. (py b -. py c) +. sq b *. (py c -. py a) +. sq c *. (py a -. py b)
  function cy (a b c: point) : real = sq a *. (px c -. px b) +. sq b *. (px a -. px c) +. sq c *. (px b -. px a)
  let lemma cd_area (a b c: point) ensures { cd a b c = 2.0 *. cross3 a b c } = ()
  let lemma circum_ab (a b c: point) ensures { (sq a -. sq b) *. cd a b c = 2.0 *. cx a b c *. (px a -. px b) +. 2.0 *. cy a b c *. (py a -. py b) } = ()
  let lemma circum_ac (a b c: point) ensures { (sq a -. sq c) *. cd a b c = 2.0 *. cx a b c *. (px a -. px c) +. 2.0 *. cy a b c *. (py a -. py c) } = ()
  let lemma dist_diff (o a b: point) ensures { sqdist o a -. sqdist o b = (sq a -. sq b) -. 2.0 *. px o *. (px a -. px b) -. 2.0 *. py o *. (py a -. py b) } = ()
  let lemma lin0 (d u ox oy nx ny x y: real)
    requires { u *. d = 2.0 *. nx *. x +. 2.0 *. ny *. y } requires { ox *. d = nx } requires { oy *. d = ny }
    ensures { (u -. 2.0 *. ox *. x -. 2.0 *. oy *. y) *. d = 0.0 }
  = assert { (ox *. x) *. d = nx *. x }; assert { (oy *. y) *. d = ny *. y }
  let lemma zero_prod (u d: real) requires { u *. d = 0.0 } requires { d <> 0.0 } ensures { u = 0.0 } = ()
  let lemma circum_eq (a b c o: point)
    requires { cd a b c <> 0.0 } requires { px o *. cd a b c = cx a b c } requires { py o *. cd a b c = cy a b c }
    ensures { equidistant o a b c }
  = circum_ab a b c; circum_ac a b c; dist_diff o a b; dist_diff o a c;
    lin0 (cd a b c) (sq a -. sq b) (px o) (py o) (cx a b c) (cy a b c) (px a -. px b) (py a -. py b);
    lin0 (cd a b c) (sq a -. sq c) (px o) (py o) (cx a b c) (cy a b c) (px a -. px c) (py a -. py c);
    zero_prod (sqdist o a -. sqdist o b) (cd a b c); zero_prod (sqdist o a -. sqdist o c) (cd a b c)
  let lemma quot (n d: real) ensures { d <> 0.0 -> (n /. d) *. d = n } = ()
  let lemma circum_dist (a b c o: point)
    ensures { cross3 a b c <> 0.0 -> px o = cx a b c /. cd a b c -> py o = cy a b c /. cd a b c -> equidistant o a b c }
  = cd_area a b c; quot (cx a b c) (cd a b c); quot (cy a b c) (cd a b c);
    assert { cross3 a b c <> 0.0 -> px o = cx a b c /. cd a b c -> px o *. cd a b c = cx a b c };
    assert { cross3 a b c <> 0.0 -> py o = cy a b c /. cd a b c -> py o *. cd a b c = cy a b c };
    assert { cross3 a b c <> 0.0 -> cd a b c <> 0.0 }
end
