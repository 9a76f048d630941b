(* Polygon vocabulary: a polygon is a list of indices v into a point list p *)
module Poly
  use int.Int
  use real.RealInfix
  use Num
  use Geom
  use T_Point
  use VPoint as VPoint
  use VInt as VInt

  let function nxt (n i: int) : int = if i + 1 = n then 0 else i + 1
  predicate idx_ok (p: VPoint.t) (v: VInt.t) =
    forall i: int. 0 <= i < VInt.length v -> 0 <= VInt.get v i < VPoint.length p
  let function xprod (a b: point) : real = a.point_x *. b.point_y -. b.point_x *. a.point_y
  let function vtx (p: VPoint.t) (v: VInt.t) (i: int) : point = VPoint.get p (VInt.get v i)
  let function edge_term (p: VPoint.t) (v: VInt.t) (i: int) : real =
    xprod (vtx p v i) (vtx p v (nxt (VInt.length v) i))
  (* shoelace sum of the first k edges *)
  let rec function shoe (p: VPoint.t) (v: VInt.t) (k: int) : real
    variant { k }
  = if k <= 0 then 0.0 else shoe p v (k - 1) +. edge_term p v (k - 1)
  function shoelace (p: VPoint.t) (v: VInt.t) : real = shoe p v (VInt.length v)
  let rec function cxsum (p: VPoint.t) (v: VInt.t) (k: int) : real
    variant { k }
  = if k <= 0 then 0.0 else cxsum p v (k - 1) +.
      ((vtx p v (k - 1)).point_x +. (vtx p v (nxt (VInt.length v) (k - 1))).point_x) *. edge_term p v (k - 1)
  let rec function cysum (p: VPoint.t) (v: VInt.t) (k: int) : real
    variant { k }
  = if k <= 0 then 0.0 else cysum p v (k - 1) +.
      ((vtx p v (k - 1)).point_y +. (vtx p v (nxt (VInt.length v) (k - 1))).point_y) *. edge_term p v (k - 1)
  let rec function sumx (p: VPoint.t) (v: VInt.t) (k: int) : real
    variant { k }
  = if k <= 0 then 0.0 else sumx p v (k - 1) +. (vtx p v (k - 1)).point_x
  let rec function sumy (p: VPoint.t) (v: VInt.t) (k: int) : real
    variant { k }
  = if k <= 0 then 0.0 else sumy p v (k - 1) +. (vtx p v (k - 1)).point_y
end

(* the same over a plain list of points *)
module PolyList
  use int.Int
  use real.RealInfix
  use Num
  use Geom
  use Poly
  use T_Point
  use VPoint as VPoint
  let rec function shoep (p: VPoint.t) (k: int) : real variant { k }
  = if k <= 0 then 0.0 else shoep p (k - 1) +. xprod (VPoint.get p (k - 1)) (VPoint.get p (nxt (VPoint.length p) (k - 1)))
end

(* structure queries: edges, turns, crossings *)
module PolyStruct
  use int.Int
  use real.RealInfix
  use Num
  use Geom
  use Meet
  use Poly
  use T_Point
  use T_IndexSegment
  use T_Polygon
  use VPoint as VPoint
  use VInt as VInt
  use VIndexSegment as VIndexSegment
  function edge_at (v: VInt.t) (i: int) : indexsegment = mkseg (VInt.get v i) (VInt.get v (nxt (VInt.length v) i))
  predicate distinct (v: VInt.t) = forall i j: int. 0 <= i < j < VInt.length v -> VInt.get v i <> VInt.get v j
  function elen (p: VPoint.t) (v: VInt.t) (i: int) : real =
    rsqrt (sqdist (vtx p v i) (vtx p v (nxt (VInt.length v) i)))
  (* s joins the i-th vertex and its successor, in either direction *)
  predicate joins (s: indexsegment) (v: VInt.t) (i: int) =
    (s1 s = VInt.get v i /\ s2 s = VInt.get v (nxt (VInt.length v) i)) \/ (s2 s = VInt.get v i /\ s1 s = VInt.get v (nxt (VInt.length v) i))
  lemma sq_nonneg: forall a b: point. 0.0 <=. sqdist a b
  lemma elen_nonneg: forall p: VPoint.t, v: VInt.t, i: int. 0.0 <=. elen p v i
  predicate has_edge (v: VInt.t) (s: indexsegment) = exists i: int. 0 <= i < VInt.length v /\ joins s v i
  predicate has_vertex (v: VInt.t) (x: int) = exists i: int. 0 <= i < VInt.length v /\ VInt.get v i = x
  (* the turn at the successor of the i-th vertex *)
  function turn (p: VPoint.t) (v: VInt.t) (i: int) : real =
    let n = VInt.length v in cross3 (vtx p v i) (vtx p v (nxt n i)) (vtx p v (nxt n (nxt n i)))
  predicate agree (a b: real) = a *. b >=. 0.0
  lemma agree_zero: forall a: real. agree 0.0 a
  lemma agree_sym: forall a b: real [agree a b]. agree a b -> agree b a
  lemma agree_trans: forall a b d: real [agree a d, agree b d]. d <> 0.0 -> agree a d -> agree b d -> agree a b
  predicate convex (p: VPoint.t) (v: VInt.t) =
    forall i j: int. 0 <= i < VInt.length v -> 0 <= j < VInt.length v -> agree (turn p v i) (turn p v j)
  predicate edges_meet (p: VPoint.t) (v: VInt.t) (i j: int) =
    let n = VInt.length v in seg_meet (vtx p v i) (vtx p v (nxt n i)) (vtx p v j) (vtx p v (nxt n j))
  predicate apart (n i j: int) = i <> j /\ nxt n i <> j /\ nxt n j <> i
  predicate self_intersecting (p: VPoint.t) (v: VInt.t) =
    exists i j: int. 0 <= i < VInt.length v /\ 0 <= j < VInt.length v /\ apart (VInt.length v) i j /\ edges_meet p v i j
  (* sum of the vertex hashes: independent of order *)
  let rec function hsum (v: VInt.t) (k: int) : int variant { k } = if k <= 0 then 0 else hsum v (k - 1) + hash32 (VInt.get v (k - 1))
  predicate trivial_idx (v: VInt.t) (n: int) = VInt.length v = n /\ forall i: int. 0 <= i < n -> VInt.get v i = i
end

(* the even-odd rule; a ray to the left from q crosses the edge ab *)
module Inside
  use int.Int
  use real.RealInfix
  use Num
  use Geom
  use Poly
  use T_Point
  use VPoint as VPoint
  use VInt as VInt
  predicate straddles (a b q: point) = (py a <=. py q /\ py b >. py q) \/ (py b <=. py q /\ py a >. py q)
  (* the edge passes the height of q, strictly to the left of q *)
  predicate crosses (a b q: point) =
    straddles a b q /\ px b +. (py q -. py b) /. (py a -. py b) *. (px a -. px b) <. px q
  let function prev (n i: int) : int = if i = 0 then n - 1 else i - 1
  (* parity of the number of crossed edges among the first k (edge i joins i - 1 to i) *)
  let rec ghost predicate odd (p: VPoint.t) (v: VInt.t) (q: point) (k: int) variant { k }
  = if k <= 0 then false
    else if crosses (vtx p v (prev (VInt.length v) (k - 1))) (vtx p v (k - 1)) q then not (odd p v q (k - 1)) else odd p v q (k - 1)
  let ghost odd_step (p: VPoint.t) (v: VInt.t) (q: point) (k: int)
    requires { 0 <= k }
    ensures { odd p v q (k + 1) <-> if crosses (vtx p v (prev (VInt.length v) k)) (vtx p v k) q then not (odd p v q k) else odd p v q k }
  = ()
  predicate steps_apart (p: VPoint.t) (v: VInt.t) =
    forall i: int. 0 <= i < VInt.length v -> not (peq (vtx p v i) (vtx p v (prev (VInt.length v) i)))
  predicate on_edge (p: VPoint.t) (v: VInt.t) (q: point) (i: int) = on_seg q (vtx p v i) (vtx p v (nxt (VInt.length v) i))
  predicate on_outline (p: VPoint.t) (v: VInt.t) (q: point) = exists i: int. 0 <= i < VInt.length v /\ on_edge p v q i
  (* the same over a plain list of points *)
  let rec ghost predicate oddp (p: VPoint.t) (q: point) (k: int) variant { k }
  = if k <= 0 then false
    else if crosses (VPoint.get p (prev (VPoint.length p) (k - 1))) (VPoint.get p (k - 1)) q then not (oddp p q (k - 1)) else oddp p q (k - 1)
  let ghost oddp_step (p: VPoint.t) (q: point) (k: int)
    requires { 0 <= k }
    ensures { oddp p q (k + 1) <-> if crosses (VPoint.get p (prev (VPoint.length p) k)) (VPoint.get p k) q then not (oddp p q k) else oddp p q k }
  = ()
  predicate stepsp_apart (p: VPoint.t) =
    forall i: int. 0 <= i < VPoint.length p -> not (peq (VPoint.get p i) (VPoint.get p (prev (VPoint.length p) i)))
end

module PolyRev
  use int.Int
  use real.RealInfix
  use Num
  use Geom
  use Poly
  use T_Point
  use VPoint as VPoint
  use VInt as VInt
  let rec lemma shoe_rev_step (p: VPoint.t) (v: VInt.t) (k: int)
    requires { 0 <= k <= VInt.length v - 1 }
    ensures { shoe p (VInt.rev v) k = shoe p v (VInt.length v - 1 - k) -. shoe p v (VInt.length v - 1) }
    variant { k }
  = if k > 0 then begin
      shoe_rev_step p v (k - 1);
      assert { edge_term p (VInt.rev v) (k - 1) = -. edge_term p v (VInt.length v - 1 - k) }
    end
  let lemma shoelace_rev (p: VPoint.t) (v: VInt.t)
    ensures { shoelace p (VInt.rev v) = -. shoelace p v }
  = if VInt.length v > 0 then begin
      shoe_rev_step p v (VInt.length v - 1);
      assert { edge_term p (VInt.rev v) (VInt.length v - 1) = -. edge_term p v (VInt.length v - 1) }
    end
end

(* polygons with the same vertices in another rotation or direction have the same hash *)
module PolyHash
  use int.Int
  use Num
  use Poly
  use PolyStruct
  use VInt as VInt
  predicate rotated (v w: VInt.t) (k: int) =
    VInt.length w = VInt.length v /\ 0 <= k <= VInt.length v /\
    forall i: int. 0 <= i < VInt.length v ->
      VInt.get w i = if i + k < VInt.length v then VInt.get v (i + k) else VInt.get v (i + k - VInt.length v)
  let rec lemma hsum_rot_step (v w: VInt.t) (k m: int)
    requires { rotated v w k /\ 0 <= m <= VInt.length v }
    ensures { hsum w m = if m + k <= VInt.length v then hsum v (m + k) - hsum v k
                         else hsum v (VInt.length v) - hsum v k + hsum v (m + k - VInt.length v) }
    variant { m }
  = if m > 0 then hsum_rot_step v w k (m - 1)
  let lemma hsum_rotated (v w: VInt.t) (k: int)
    requires { rotated v w k }
    ensures { hsum w (VInt.length w) = hsum v (VInt.length v) }
  = hsum_rot_step v w k (VInt.length v)
  let rec lemma hsum_rev_step (v: VInt.t) (m: int)
    requires { 0 <= m <= VInt.length v }
    ensures { hsum (VInt.rev v) m = hsum v (VInt.length v) - hsum v (VInt.length v - m) }
    variant { m }
  = if m > 0 then hsum_rev_step v (m - 1)
  let lemma hsum_reversed (v: VInt.t)
    ensures { hsum (VInt.rev v) (VInt.length v) = hsum v (VInt.length v) }
  = hsum_rev_step v (VInt.length v)
end
