(* cutting ears off a polygon *)
module Ear
  use int.Int
  use real.RealInfix
  use Num
  use Geom
  use Poly
  use PolyStruct
  use Inside
  use T_Point
  use T_Polygon
  use T_Triangle
  use VPoint as VPoint
  use VInt as VInt
  use VTriangle as VTriangle
  function tvs (t: triangle) : VInt.t = t.triangle_b_polygon.polygon_points
  predicate all_apart (p: VPoint.t) (v: VInt.t) =
    forall i j: int. 0 <= i < j < VInt.length v -> not (peq (vtx p v i) (vtx p v j))
  predicate corner_at (v: VInt.t) (i: int) (w: VInt.t) =
    VInt.length w = 3 /\ VInt.get w 0 = VInt.get v (prev (VInt.length v) i) /\ VInt.get w 1 = VInt.get v i /\ VInt.get w 2 = VInt.get v (nxt (VInt.length v) i)
  predicate covers (p: VPoint.t) (w: VInt.t) (x: int) = odd p w (VPoint.get p x) (VInt.length w) \/ on_outline p w (VPoint.get p x)
  predicate no_other (p: VPoint.t) (v w: VInt.t) (k: int) =
    forall j: int. 0 <= j < k -> has_vertex w (VInt.get v j) \/ not (covers p w (VInt.get v j))
  predicate same_turn (p: VPoint.t) (v w: VInt.t) = shoelace p w <. 0.0 <-> shoelace p v <. 0.0
  (* w is cut off at corner i of v *)
  predicate ear_of (p: VPoint.t) (v: VInt.t) (i: int) (w: VInt.t) =
    corner_at v i w /\ same_turn p v w /\ no_other p v w (VInt.length v)
  predicate no_ear_below (p: VPoint.t) (v: VInt.t) (k: int)
  axiom no_ear_below_def: forall p: VPoint.t, v: VInt.t, k: int [no_ear_below p v k]. no_ear_below p v k <->
    forall i: int, w: VInt.t. 0 <= i < k -> not (ear_of p v i w)
  predicate stuck (p: VPoint.t) (v: VInt.t) = VInt.length v < 3 \/ no_ear_below p v (VInt.length v)
  predicate cut_off (p: VPoint.t) (v w r: VInt.t)
  axiom cut_off_def: forall p: VPoint.t, v w r: VInt.t [cut_off p v w r]. cut_off p v w r <->
    if VInt.length v = 3 then VInt.eqs w v /\ VInt.length r = 0
    else VInt.length v > 3 /\ exists i: int. 0 <= i < VInt.length v /\ ear_of p v i w /\ r = VInt.erase v i
  (* the triangles ts are cut off v one after the other and r remains *)
  inductive cuts VPoint.t VInt.t VTriangle.t VInt.t =
    | Nothing_cut: forall p: VPoint.t, v: VInt.t. cuts p v VTriangle.empty v
    | One_more: forall p: VPoint.t, v w r: VInt.t, ts: VTriangle.t, t: triangle. cuts p v ts w -> cut_off p w (tvs t) r -> cuts p v (VTriangle.snoc ts t) r
  let rec ghost function area_sum (p: VPoint.t) (ts: VTriangle.t) (k: int) : real variant { k }
  = if k <= 0 then 0.0 else area_sum p ts (k - 1) +. shoelace p (tvs (VTriangle.get ts (k - 1)))
  let rec lemma area_sum_snoc (p: VPoint.t) (ts: VTriangle.t) (t: triangle) (k: int)
    requires { 0 <= k <= VTriangle.length ts }
    ensures { area_sum p (VTriangle.snoc ts t) k = area_sum p ts k }
    variant { k }
  = if k > 0 then area_sum_snoc p ts t (k - 1)
  let lemma area_sum_add (p: VPoint.t) (ts: VTriangle.t) (t: triangle)
    ensures { area_sum p (VTriangle.snoc ts t) (VTriangle.length ts + 1) = area_sum p ts (VTriangle.length ts) +. shoelace p (tvs t) }
  = ()
  predicate uses_only (v w: VInt.t) = forall j: int. 0 <= j < VInt.length w -> has_vertex v (VInt.get w j)
end

(* the signed area of what remains and of the ear *)
module EarArea
  use T_Triangle
  use VTriangle as VTriangle
  use int.Int
  use real.RealInfix
  use Num
  use Geom
  use Poly
  use PolyStruct
  use Inside
  use Ear
  use T_Point
  use VPoint as VPoint
  use VInt as VInt
  let rec lemma shoe_prefix (p: VPoint.t) (v: VInt.t) (i k: int)
    requires { 0 <= i < VInt.length v /\ 4 <= VInt.length v /\ 0 <= k <= i - 1 /\ k <= VInt.length v - 2 }
    ensures { shoe p (VInt.erase v i) k = shoe p v k }
    variant { k }
  = if k > 0 then shoe_prefix p v i (k - 1)
  let rec ghost shoe_mid (p: VPoint.t) (v: VInt.t) (i k: int)
    requires { 1 <= i < VInt.length v - 1 /\ 4 <= VInt.length v /\ i <= k <= VInt.length v - 1 }
    ensures { shoe p (VInt.erase v i) k = shoe p v (k + 1) -. edge_term p v (i - 1) -. edge_term p v i +. xprod (vtx p v (i - 1)) (vtx p v (i + 1)) }
    variant { k }
  = let e = VInt.erase v i in
    if k = i then begin
      shoe_prefix p v i (i - 1);
      assert { vtx p e (i - 1) = vtx p v (i - 1) };
      assert { vtx p e (nxt (VInt.length e) (i - 1)) = vtx p v (i + 1) };
      assert { edge_term p e (i - 1) = xprod (vtx p v (i - 1)) (vtx p v (i + 1)) }
    end else begin
      shoe_mid p v i (k - 1);
      assert { vtx p e (k - 1) = vtx p v k };
      assert { vtx p e (nxt (VInt.length e) (k - 1)) = vtx p v (nxt (VInt.length v) k) };
      assert { edge_term p e (k - 1) = edge_term p v k }
    end
  let rec ghost shoe_first (p: VPoint.t) (v: VInt.t) (k: int)
    requires { 4 <= VInt.length v /\ 0 <= k <= VInt.length v - 2 }
    ensures { shoe p (VInt.erase v 0) k = shoe p v (k + 1) -. edge_term p v 0 }
    variant { k }
  = let e = VInt.erase v 0 in
    if k > 0 then begin
      shoe_first p v (k - 1);
      assert { vtx p e (k - 1) = vtx p v k };
      assert { vtx p e (nxt (VInt.length e) (k - 1)) = vtx p v (nxt (VInt.length v) k) };
      assert { edge_term p e (k - 1) = edge_term p v k }
    end
  let ghost corner_shoe (p: VPoint.t) (v: VInt.t) (i: int) (w: VInt.t)
    requires { 4 <= VInt.length v /\ 0 <= i < VInt.length v /\ corner_at v i w }
    ensures { shoelace p w = edge_term p v (prev (VInt.length v) i) +. edge_term p v i +. xprod (vtx p v (nxt (VInt.length v) i)) (vtx p v (prev (VInt.length v) i)) }
  = assert { edge_term p w 0 = edge_term p v (prev (VInt.length v) i) };
    assert { edge_term p w 1 = edge_term p v i };
    assert { edge_term p w 2 = xprod (vtx p v (nxt (VInt.length v) i)) (vtx p v (prev (VInt.length v) i)) };
    assert { shoe p w 0 = 0.0 };
    assert { shoe p w 1 = edge_term p w 0 };
    assert { shoe p w 2 = edge_term p w 0 +. edge_term p w 1 };
    assert { shoe p w 3 = edge_term p w 0 +. edge_term p w 1 +. edge_term p w 2 }
  lemma two_rounds: forall b q m: int. 0 < b -> 0 <= m < b -> 2 * b <= b * q + m < 3 * b -> q = 2
  lemma cmod_twice: forall a b: int. 0 < b -> 2 * b <= a < 3 * b -> cmod a b = a - 2 * b
  lemma xprod_swap: forall a b: point. xprod a b = -. xprod b a
  let ghost shoe_cut (p: VPoint.t) (v: VInt.t) (i: int) (w: VInt.t)
    requires { 4 <= VInt.length v /\ 0 <= i < VInt.length v /\ corner_at v i w }
    ensures { shoelace p v = shoelace p w +. shoelace p (VInt.erase v i) }
  = let n = VInt.length v in
    let e = VInt.erase v i in
    corner_shoe p v i w;
    if i = 0 then begin
      shoe_first p v (n - 2);
      assert { vtx p e (n - 2) = vtx p v (n - 1) };
      assert { vtx p e (nxt (VInt.length e) (n - 2)) = vtx p v 1 };
      assert { shoe p e (n - 1) = shoe p e (n - 2) +. xprod (vtx p v (n - 1)) (vtx p v 1) };
      assert { shoe p v n = shoe p v (n - 1) +. edge_term p v (n - 1) }
    end else if i = n - 1 then begin
      shoe_prefix p v i (n - 2);
      assert { vtx p e (n - 2) = vtx p v (n - 2) };
      assert { vtx p e (nxt (VInt.length e) (n - 2)) = vtx p v 0 };
      assert { shoe p e (n - 1) = shoe p e (n - 2) +. xprod (vtx p v (n - 2)) (vtx p v 0) };
      assert { shoe p v n = shoe p v (n - 1) +. edge_term p v (n - 1) };
      assert { shoe p v (n - 1) = shoe p v (n - 2) +. edge_term p v (n - 2) }
    end else
      shoe_mid p v i (n - 1)
  let ghost corner_apart (p: VPoint.t) (v: VInt.t) (i: int) (w: VInt.t)
    requires { 3 <= VInt.length v /\ 0 <= i < VInt.length v /\ corner_at v i w /\ all_apart p v }
    ensures { steps_apart p w }
  = assert { forall a b: point. peq a b -> peq b a };
    assert { forall j k: int. 0 <= j < VInt.length v -> 0 <= k < VInt.length v -> j <> k -> not (peq (vtx p v j) (vtx p v k)) };
    assert { prev 3 0 = 2 /\ prev 3 1 = 0 /\ prev 3 2 = 1 };
    assert { vtx p w 0 = vtx p v (prev (VInt.length v) i) /\ vtx p w 1 = vtx p v i /\ vtx p w 2 = vtx p v (nxt (VInt.length v) i) }
  let ghost no_ear_start (p: VPoint.t) (v: VInt.t)
    ensures { no_ear_below p v 0 }
  = ()
  let ghost no_ear_more (p: VPoint.t) (v: VInt.t) (i: int) (w: VInt.t)
    requires { 0 <= i < VInt.length v /\ no_ear_below p v i /\ corner_at v i w /\ not (ear_of p v i w) }
    ensures { no_ear_below p v (i + 1) }
  = assert { forall u: VInt.t. corner_at v i u -> VInt.eqs u w };
    assert { forall u: VInt.t. corner_at v i u -> u = w };
    assert { forall u: VInt.t. not (ear_of p v i u) };
    assert { forall k: int, u: VInt.t. 0 <= k < i + 1 -> not (ear_of p v k u) }
  let ghost ear_cut (p: VPoint.t) (v: VInt.t) (i: int) (w: VInt.t)
    requires { 4 <= VInt.length v /\ 0 <= i < VInt.length v /\ ear_of p v i w }
    ensures { cut_off p v w (VInt.erase v i) }
  = ()
  predicate all_use (v: VInt.t) (ts: VTriangle.t)
  axiom all_use_def: forall v: VInt.t, ts: VTriangle.t [all_use v ts]. all_use v ts <->
    forall k: int. 0 <= k < VTriangle.length ts -> VInt.length (tvs (VTriangle.get ts k)) = 3 /\ uses_only v (tvs (VTriangle.get ts k))
  let ghost all_use_more (v: VInt.t) (ts: VTriangle.t) (t: triangle)
    requires { all_use v ts /\ VInt.length (tvs t) = 3 /\ uses_only v (tvs t) }
    ensures { all_use v (VTriangle.snoc ts t) }
  = assert { forall k: int. 0 <= k < VTriangle.length ts -> VTriangle.get (VTriangle.snoc ts t) k = VTriangle.get ts k }
  let ghost more_cut (p: VPoint.t) (v w r: VInt.t) (ts: VTriangle.t) (t: triangle)
    requires { cuts p v ts w /\ cut_off p w (tvs t) r }
    ensures { cuts p v (VTriangle.snoc ts t) r }
  = ()
  let ghost uses_trans (u v w: VInt.t)
    requires { uses_only u v /\ uses_only v w }
    ensures { uses_only u w }
  = ()
  let ghost apart_erase (p: VPoint.t) (v: VInt.t) (i: int)
    requires { 0 <= i < VInt.length v /\ all_apart p v }
    ensures { all_apart p (VInt.erase v i) }
  = ()
  let ghost same_shoe (p: VPoint.t) (v w: VInt.t) (k: int)
    requires { VInt.eqs w v }
    ensures { v = w }
  = ()
end

(* joining every edge to a centre *)
module Fan
  use int.Int
  use real.RealInfix
  use Num
  use Geom
  use Poly
  use PolyStruct
  use Ear
  use T_Point
  use T_Triangle
  use VPoint as VPoint
  use VInt as VInt
  use VTriangle as VTriangle
  predicate fan_piece (v: VInt.t) (c i: int) (w: VInt.t) =
    VInt.length w = 3 /\ VInt.get w 0 = VInt.get v i /\ VInt.get w 1 = VInt.get v (nxt (VInt.length v) i) /\ VInt.get w 2 = c
  let ghost fan_shoe (p: VPoint.t) (v: VInt.t) (c i: int) (w: VInt.t)
    requires { 0 <= i < VInt.length v /\ fan_piece v c i w }
    ensures { shoelace p w = edge_term p v i +. xprod (vtx p v (nxt (VInt.length v) i)) (VPoint.get p c) -. xprod (vtx p v i) (VPoint.get p c) }
  = assert { edge_term p w 0 = edge_term p v i };
    assert { edge_term p w 1 = xprod (vtx p v (nxt (VInt.length v) i)) (VPoint.get p c) };
    assert { edge_term p w 2 = xprod (VPoint.get p c) (vtx p v i) };
    assert { shoe p w 0 = 0.0 };
    assert { shoe p w 1 = edge_term p w 0 };
    assert { shoe p w 2 = edge_term p w 0 +. edge_term p w 1 };
    assert { shoe p w 3 = edge_term p w 0 +. edge_term p w 1 +. edge_term p w 2 }
  let rec ghost fan_area (p: VPoint.t) (v: VInt.t) (c: int) (ts: VTriangle.t) (k: int)
    requires { 3 <= VInt.length v /\ 0 <= k <= VInt.length v /\ VTriangle.length ts = VInt.length v }
    requires { forall i: int. 0 <= i < VInt.length v -> fan_piece v c i (tvs (VTriangle.get ts i)) }
    ensures { area_sum p ts k = shoe p v k +. (if k = VInt.length v then 0.0 else xprod (vtx p v k) (VPoint.get p c) -. xprod (vtx p v 0) (VPoint.get p c)) }
    variant { k }
  = if k > 0 then begin
      fan_area p v c ts (k - 1);
      fan_shoe p v c (k - 1) (tvs (VTriangle.get ts (k - 1)))
    end
  let rec ghost shoe_more (p q: VPoint.t) (v: VInt.t) (k: int)
    requires { idx_ok p v /\ 0 <= k <= VInt.length v /\ VPoint.length p <= VPoint.length q }
    requires { forall j: int. 0 <= j < VPoint.length p -> VPoint.get q j = VPoint.get p j }
    ensures { shoe q v k = shoe p v k }
    variant { k }
  = if k > 0 then begin
      shoe_more p q v (k - 1);
      assert { vtx q v (k - 1) = vtx p v (k - 1) };
      assert { vtx q v (nxt (VInt.length v) (k - 1)) = vtx p v (nxt (VInt.length v) (k - 1)) }
    end
end
