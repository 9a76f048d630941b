(* requests to the triangulation library and what becomes of the answer *)
module DelIn
  use int.Int
  use real.RealInfix
  use Geom
  use Edge
  use Poly
  use PolyStruct
  use Reg
  use OrdPoint
  use UL_Point
  use TriIO
  use C_Real
  use C_Int
  use T_Point
  use T_IndexSegment
  use T_PointSegment
  use T_Hole
  use T_Polygon
  use T_Region
  use T_triangulateio
  use VReal as VReal
  use VInt as VInt
  use VPoint as VPoint
  use VHole as VHole
  use VIndexSegment as VIndexSegment
  use VPointSegment as VPointSegment
  (* the seed points, then the points of the region, each once *)
  val function listing (s: VPoint.t) (r: region) : VPoint.t
  axiom listing_def: forall s: VPoint.t, r: region [listing s r].
    listing s r = (let rp = region_pts r in addall (addall VPoint.empty s (VPoint.length s)) rp (VPoint.length rp))
  predicate denotes (l: VPoint.t) (x: int) (q: point) = 0 <= x < VPoint.length l /\ peq (VPoint.get l x) q
  predicate n_segs (r: region) (n: int) = n = seg_off r (VHole.length r.region_holes)
  val function half (x: int) : int
  axiom half_def: forall x: int [half x]. 2 * half x <= x <= 2 * half x + 1
  let ghost half_two (k: int) ensures { half (2 * k) = k /\ half (2 * k + 1) = k } = ()
  (* coordinates one after the other *)
  val function xy (l: VPoint.t) (x: int) : real
  axiom xy_def: forall l: VPoint.t, x: int [xy l x]. xy l x = if x = 2 * half x then px (VPoint.get l (half x)) else py (VPoint.get l (half x))
  (* end points one after the other *)
  function end_of (s: indexsegment) (x: int) : int = if x = 2 * half x then s1 s else s2 s
  val function reg_end (r: region) (s: VIndexSegment.t) (x: int) : point
  axiom reg_end_def: forall r: region, s: VIndexSegment.t, x: int [reg_end r s x]. reg_end r s x = VPoint.get (region_pts r) (end_of (VIndexSegment.get s (half x)) x)
  val function con_end (c: VPointSegment.t) (x: int) : point
  axiom con_end_def: forall c: VPointSegment.t, x: int [con_end c x]. con_end c x = if x = 2 * half x then a1 (VPointSegment.get c (half x)) else a2 (VPointSegment.get c (half x))
  val function out_end (r: region) (x: int) : point
  axiom out_end_def: forall r: region, x: int [out_end r x]. out_end r x = (let v = r.region_b_polygon.polygon_points in let k = half x in
    VPoint.get r.region_p (VInt.get v (if x = 2 * k then k else if k + 1 = VInt.length v then 0 else k + 1)))
  val function hole_end (h: hole) (x: int) : point
  axiom hole_end_def: forall h: hole, x: int [hole_end h x]. hole_end h x = VPoint.get h.hole_HolePoints (end_of (VIndexSegment.get h.hole_segments (half x)) x)
  (* the edges of a region, as getSegments lists them *)
  predicate edges_listed (r: region) (s: VIndexSegment.t) =
    VIndexSegment.length s = seg_off r (VHole.length r.region_holes) /\
    (let v = r.region_b_polygon.polygon_points in forall i: int. 0 <= i < VInt.length v -> VIndexSegment.get s i = edge_at v i) /\
    forall k i: int. 0 <= k < VHole.length r.region_holes -> 0 <= i < VIndexSegment.length (VHole.get r.region_holes k).hole_segments ->
      VIndexSegment.get s (seg_off r k + i) = shifted (VIndexSegment.get (VHole.get r.region_holes k).hole_segments i) (pt_off r k)
  predicate points_listed (r: region) (p: VPoint.t) =
    VPoint.length p = pt_off r (VHole.length r.region_holes) /\ (forall i: int. 0 <= i < VPoint.length r.region_p -> VPoint.get p i = VPoint.get r.region_p i) /\
    forall k i: int. 0 <= k < VHole.length r.region_holes -> 0 <= i < VPoint.length (VHole.get r.region_holes k).hole_HolePoints -> VPoint.get p (pt_off r k + i) = VPoint.get (VHole.get r.region_holes k).hole_HolePoints i
  predicate request_ok (r: region) (s: VPoint.t) (c: VPointSegment.t) =
    region_ok r /\ goods s /\ goods (region_pts r) /\
    forall j: int. 0 <= j < VPointSegment.length c -> posn (listing s r) (a1 (VPointSegment.get c j)) < VPoint.length (listing s r) /\ posn (listing s r) (a2 (VPointSegment.get c j)) < VPoint.length (listing s r)
end
module DelEnds
  use int.Int
  use Geom
  use Poly
  use PolyStruct
  use Reg
  use DelIn
  use T_Point
  use T_IndexSegment
  use T_Hole
  use T_Polygon
  use T_Region
  use VInt as VInt
  use VPoint as VPoint
  use VHole as VHole
  use VIndexSegment as VIndexSegment
  let rec lemma pt_offs (r: region) (k: int)
    ensures { 0 <= k -> VPoint.length r.region_p <= pt_off r k /\ VInt.length r.region_b_polygon.polygon_points <= seg_off r k }
    ensures { forall h: int. 0 <= h < k -> 0 <= pt_off r h /\ pt_off r h + VPoint.length (VHole.get r.region_holes h).hole_HolePoints <= pt_off r k /\
      0 <= seg_off r h /\ seg_off r h + VIndexSegment.length (VHole.get r.region_holes h).hole_segments <= seg_off r k }
    variant { k }
  = if k > 0 then begin pt_offs r (k - 1);
      assert { pt_off r k = pt_off r (k - 1) + VPoint.length (VHole.get r.region_holes (k - 1)).hole_HolePoints };
      assert { seg_off r k = seg_off r (k - 1) + VIndexSegment.length (VHole.get r.region_holes (k - 1)).hole_segments } end
  (* the hole a segment belongs to *)
  let rec ghost seg_where (r: region) (k i: int) : int
    requires { VInt.length r.region_b_polygon.polygon_points <= i < seg_off r k }
    ensures { 0 <= result < k /\ seg_off r result <= i < seg_off r result + VIndexSegment.length (VHole.get r.region_holes result).hole_segments }
    variant { k }
  = assert { k > 0 };
    assert { seg_off r k = seg_off r (k - 1) + VIndexSegment.length (VHole.get r.region_holes (k - 1)).hole_segments };
    if i >= seg_off r (k - 1) then k - 1 else seg_where r (k - 1) i
  let ghost hole_edge_at (r: region) (s: VIndexSegment.t) (h y: int)
    requires { edges_listed r s } requires { points_listed r (region_pts r) } requires { region_ok r }
    requires { 0 <= h < VHole.length r.region_holes } requires { 0 <= y < 2 * VIndexSegment.length (VHole.get r.region_holes h).hole_segments }
    ensures { reg_end r s (2 * seg_off r h + y) = hole_end (VHole.get r.region_holes h) y }
    ensures { 0 <= s1 (VIndexSegment.get s (seg_off r h + half y)) < VPoint.length (region_pts r) /\ 0 <= s2 (VIndexSegment.get s (seg_off r h + half y)) < VPoint.length (region_pts r) }
  = pt_offs r (VHole.length r.region_holes); let k = half y in
    assert { 0 <= k < VIndexSegment.length (VHole.get r.region_holes h).hole_segments };
    assert { half (2 * seg_off r h + y) = seg_off r h + k };
    assert { VIndexSegment.get s (seg_off r h + k) = shifted (VIndexSegment.get (VHole.get r.region_holes h).hole_segments k) (pt_off r h) };
    assert { hole_ok (VHole.get r.region_holes h) };
    assert { forall i: int. 0 <= i < VPoint.length (VHole.get r.region_holes h).hole_HolePoints -> VPoint.get (region_pts r) (i + pt_off r h) = VPoint.get (VHole.get r.region_holes h).hole_HolePoints i }
  let ghost region_ends (r: region) (s: VIndexSegment.t)
    requires { edges_listed r s } requires { points_listed r (region_pts r) } requires { region_ok r }
    ensures { forall x: int. 0 <= x < 2 * VInt.length r.region_b_polygon.polygon_points -> reg_end r s x = out_end r x }
    ensures { VPoint.length (region_pts r) = pt_off r (VHole.length r.region_holes) }
    ensures { forall x: int. 0 <= x < 2 * VIndexSegment.length s -> 0 <= end_of (VIndexSegment.get s (half x)) x < VPoint.length (region_pts r) }
  = 
    pt_offs r (VHole.length r.region_holes);
    let p = region_pts r in
    let n = VIndexSegment.length s in
    let m = VInt.length r.region_b_polygon.polygon_points in
    for i = 0 to n - 1 do
      invariant { forall k: int. 0 <= k < i -> 0 <= s1 (VIndexSegment.get s k) < VPoint.length p /\ 0 <= s2 (VIndexSegment.get s k) < VPoint.length p }
      if i < m then assert { VIndexSegment.get s i = edge_at r.region_b_polygon.polygon_points i }
      else begin
        let h = seg_where r (VHole.length r.region_holes) i in
        hole_edge_at r s h (2 * (i - seg_off r h));
        assert { half (2 * (i - seg_off r h)) = i - seg_off r h }
      end
    done
  let ghost holes_ends (r: region) (s: VIndexSegment.t)
    requires { edges_listed r s } requires { points_listed r (region_pts r) } requires { region_ok r }
    ensures { forall h y: int. 0 <= h < VHole.length r.region_holes -> 0 <= y < 2 * VIndexSegment.length (VHole.get r.region_holes h).hole_segments ->
      reg_end r s (2 * seg_off r h + y) = hole_end (VHole.get r.region_holes h) y }
  = let nh = VHole.length r.region_holes in
    for h = 0 to nh - 1 do
      invariant { forall g y: int. 0 <= g < h -> 0 <= y < 2 * VIndexSegment.length (VHole.get r.region_holes g).hole_segments -> reg_end r s (2 * seg_off r g + y) = hole_end (VHole.get r.region_holes g) y }
      let m = 2 * VIndexSegment.length (VHole.get r.region_holes h).hole_segments in
      for y = 0 to m - 1 do
        invariant { forall x: int. 0 <= x < y -> reg_end r s (2 * seg_off r h + x) = hole_end (VHole.get r.region_holes h) x }
        hole_edge_at r s h y
      done
    done
end
module DelOut
  use int.Int
  use real.RealInfix
  use Geom
  use Edge
  use Tri
  use TriIO
  use T_Point
  use T_PointData
  use T_EdgeData
  use T_Triangle
  use T_triangulateio
  use VInt as VInt
  use VPoint as VPoint
  use VPointData as VPointData
  use VEdgeData as VEdgeData
  use VTriangle as VTriangle
  use U_Key_Int as U_Key_Int
  use N_U_Key_Int
  use T_SegmentMap
  use EMap
  (* first and last of the listed triangles, -1 where there is none *)
  predicate ends_of (r: VInt.t) (n1 n2: int) =
    n1 = (if VInt.length r >= 1 then VInt.get r 0 else -1) /\ n2 = (if VInt.length r >= 2 then VInt.get r (VInt.length r - 1) else -1)
  (* an edge of a point: the first one, or the last boundary edge if there is one *)
  let rec ghost function pt_edge (o: triangulateio) (k p: int) : int variant { k }
  = if k <= 0 then -1 else let r = pt_edge o (k - 1) p in if (out_a o (k - 1) = p || out_b o (k - 1) = p) && (r = -1 || out_mark o (k - 1) = 1) then k - 1 else r
  predicate points_of (o: triangulateio) (p: VPoint.t) (k: int) = VPoint.length p = k /\ forall i: int. 0 <= i < k -> VPoint.get p i = out_pt o i
  predicate data_of (o: triangulateio) (d: VPointData.t) (k m: int) =
    VPointData.length d = k /\ forall i: int. 0 <= i < k -> (VPointData.get d i).pointdata_point = i /\ (VPointData.get d i).pointdata_edge = pt_edge o m i
  predicate edges_of (o: triangulateio) (d: VEdgeData.t) (k m: int) =
    VEdgeData.length d = k /\ forall i: int. 0 <= i < k -> (VEdgeData.get d i).edgedata_p1 = out_a o i /\ (VEdgeData.get d i).edgedata_p2 = out_b o i /\
      ends_of (tris o m (out_edge o i)) (VEdgeData.get d i).edgedata_t1 (VEdgeData.get d i).edgedata_t2
  (* the first k edges, by end points *)
  predicate index_of (o: triangulateio) (u: U_Key_Int.t) (k: int) =
    (forall i: int. 0 <= i < k -> U_Key_Int.mem u (out_edge o i) /\ U_Key_Int.get u (out_edge o i) = i) /\
    forall e: edge. U_Key_Int.mem u e -> 0 <= U_Key_Int.get u e < k /\ out_edge o (U_Key_Int.get u e) = e
  predicate triangles_of (o: triangulateio) (t: VTriangle.t) (k: int) =
    VTriangle.length t = k /\ forall i: int. 0 <= i < k -> (let v = (VTriangle.get t i).triangle_b_polygon.T_Polygon.polygon_points in
      VInt.length v = 3 /\ VInt.get v 0 = out_corner o i 0 /\ VInt.get v 1 = out_corner o i 1 /\ VInt.get v 2 = out_corner o i 2)
  predicate centre_of (o: triangulateio) (i: int) (c: point) = equidistant c (out_pt o (out_corner o i 0)) (out_pt o (out_corner o i 1)) (out_pt o (out_corner o i 2))
  predicate centres_of (o: triangulateio) (t: VTriangle.t) (l: VPoint.t) (k: int) =
    forall i: int. 0 <= i < k -> (let c = VTriangle.get t i in centre_of o i c.triangle_circumcenter /\
      0 <= c.triangle_circumcenterIndex < VPoint.length l /\ peq (VPoint.get l c.triangle_circumcenterIndex) c.triangle_circumcenter)
  (* the table holds the first k edges with the triangles that have them *)
  predicate table_of (o: triangulateio) (t: segmentmap) (k: int) =
    (forall e: edge. registered t e -> 0 <= edge_no o e < k /\ out_edge o (edge_no o e) = e) /\
    forall i: int. 0 <= i < k -> registered t (out_edge o i) /\ ends_of (tris o (nt o) (out_edge o i)) (nb1 t (out_edge o i)) (nb2 t (out_edge o i))
end
module DelStep
  use int.Int
  use Edge
  use VInt as VInt
  use T_triangulateio
  use TriIO
  use TriLib
  use DelOut
  use Geom
  use OrdPoint
  use C_Int
  use T_Point
  use UL_Int as UL_Int
  let lemma edge_ends (a b c d: int) ensures { mkedge a b = mkedge c d <-> (a = c /\ b = d) \/ (a = d /\ b = c) } = ()
  let ghost tri_step (o: triangulateio) (t: int)
    requires { valid_out o } requires { 0 <= t < nt o }
    ensures { out_side o t 0 <> out_side o t 1 /\ out_side o t 1 <> out_side o t 2 /\ out_side o t 2 <> out_side o t 0 }
    ensures { out_side o t 0 = mkedge (out_corner o t 0) (out_corner o t 1) /\ out_side o t 1 = mkedge (out_corner o t 1) (out_corner o t 2) /\ out_side o t 2 = mkedge (out_corner o t 2) (out_corner o t 0) }
    ensures { forall j: int. 0 <= j < 3 -> let k = edge_no o (out_side o t j) in 0 <= k < ne o /\ out_edge o k = out_side o t j }
    ensures { forall i: int. 0 <= i < ne o -> edge_no o (out_edge o i) = i }
    ensures { 0 <= out_corner o t 0 < np o /\ 0 <= out_corner o t 1 < np o /\ 0 <= out_corner o t 2 < np o }
    ensures { out_corner o t 0 = VInt.get o.triangulateio_trianglelist.c_int_data (3 * t) /\ out_corner o t 1 = VInt.get o.triangulateio_trianglelist.c_int_data (3 * t + 1) /\ out_corner o t 2 = VInt.get o.triangulateio_trianglelist.c_int_data (3 * t + 2) }
    ensures { cross3 (out_pt o (out_corner o t 0)) (out_pt o (out_corner o t 1)) (out_pt o (out_corner o t 2)) <> 0.0 }
    ensures { forall c: point. centre_of o t c -> good_pt c }
    ensures { let d = o.triangulateio_trianglelist.c_int_data in UL_Int.addall VInt.empty d (3 * (t + 1)) = UL_Int.add (UL_Int.add (UL_Int.add (UL_Int.addall VInt.empty d (3 * t)) (VInt.get d (3 * t))) (VInt.get d (3 * t + 1))) (VInt.get d (3 * t + 2)) }
    ensures { forall e: edge. tris o (t + 1) e = if is_side o t e then VInt.snoc (tris o t e) t else tris o t e }
  = assert { let d = o.triangulateio_trianglelist.c_int_data in UL_Int.addall VInt.empty d (3 * t + 1) = UL_Int.add (UL_Int.addall VInt.empty d (3 * t)) (VInt.get d (3 * t)) /\
      UL_Int.addall VInt.empty d (3 * t + 2) = UL_Int.add (UL_Int.addall VInt.empty d (3 * t + 1)) (VInt.get d (3 * t + 1)) /\ UL_Int.addall VInt.empty d (3 * t + 3) = UL_Int.add (UL_Int.addall VInt.empty d (3 * t + 2)) (VInt.get d (3 * t + 2)) }
  let rec lemma tris_range (o: triangulateio) (k: int) (e: edge)
    ensures { forall x: int. 0 <= x < VInt.length (tris o k e) -> 0 <= VInt.get (tris o k e) x < k }
    ensures { forall t: int. 0 <= t < k -> is_side o t e -> exists x: int. 0 <= x < VInt.length (tris o k e) /\ VInt.get (tris o k e) x = t }
    ensures { forall x: int. 0 <= x < VInt.length (tris o k e) -> is_side o (VInt.get (tris o k e) x) e }
    variant { k }
  = if k > 0 then begin
      tris_range o (k - 1) e;
      assert { tris o k e = if is_side o (k - 1) e then VInt.snoc (tris o (k - 1) e) (k - 1) else tris o (k - 1) e };
      assert { forall t: int. 0 <= t < k - 1 -> is_side o t e -> exists x: int. 0 <= x < VInt.length (tris o k e) /\ VInt.get (tris o k e) x = t
        by exists x: int. 0 <= x < VInt.length (tris o (k - 1) e) /\ VInt.get (tris o (k - 1) e) x = t so VInt.get (tris o k e) x = t };
      assert { is_side o (k - 1) e -> VInt.get (tris o k e) (VInt.length (tris o k e) - 1) = k - 1 }
    end
  (* with at most two triangles on an edge, its two ends are exactly the triangles that have it *)
  let lemma ends_are (o: triangulateio) (e: edge) (n1 n2: int)
    requires { VInt.length (tris o (nt o) e) <= 2 } requires { ends_of (tris o (nt o) e) n1 n2 }
    ensures { forall t: int. 0 <= t < nt o -> (is_side o t e <-> (n1 = t \/ n2 = t)) }
    ensures { n1 <> -1 -> 0 <= n1 < nt o } ensures { n2 <> -1 -> 0 <= n2 < nt o }
  = tris_range o (nt o) e;
    assert { forall t: int. 0 <= t < nt o -> is_side o t e -> n1 = t \/ n2 = t by exists x: int. 0 <= x < VInt.length (tris o (nt o) e) /\ VInt.get (tris o (nt o) e) x = t };
    assert { n1 <> -1 -> n1 = VInt.get (tris o (nt o) e) 0 /\ VInt.length (tris o (nt o) e) >= 1 };
    assert { n2 <> -1 -> n2 = VInt.get (tris o (nt o) e) 1 /\ VInt.length (tris o (nt o) e) >= 2 };
    assert { n1 <> -1 -> is_side o n1 e }; assert { n2 <> -1 -> is_side o n2 e }
end
(* one turn of each of the loops that read the answer *)
module DelLoop
  use int.Int
  use Geom
  use Edge
  use Tri
  use TriIO
  use TriLib
  use DelOut
  use DelStep
  use OrdPoint
  use UL_Point
  use T_Point
  use T_EdgeData
  use T_Triangle
  use T_Polygon
  use T_triangulateio
  use VInt as VInt
  use VPoint as VPoint
  use VEdgeData as VEdgeData
  use VTriangle as VTriangle
  use T_IndexSegment
  use T_SegmentMap
  use EMap
  let ghost tris_push (o: triangulateio) (a b: VTriangle.t) (t: int)
    requires { 0 <= t } requires { triangles_of o a t } requires { VTriangle.length b = t + 1 } requires { forall i: int. 0 <= i < t -> VTriangle.get b i = VTriangle.get a i }
    requires { let v = (VTriangle.get b t).triangle_b_polygon.polygon_points in VInt.length v = 3 /\ VInt.get v 0 = out_corner o t 0 /\ VInt.get v 1 = out_corner o t 1 /\ VInt.get v 2 = out_corner o t 2 }
    ensures { triangles_of o b (t + 1) }
  = ()
  let ghost edges_push (o: triangulateio) (a b: VEdgeData.t) (t i1 i2 i3: int)
    requires { valid_out o } requires { 0 <= t < nt o } requires { edges_of o a (ne o) t } requires { VEdgeData.length b = ne o }
    requires { i1 = edge_no o (out_side o t 0) } requires { i2 = edge_no o (out_side o t 1) } requires { i3 = edge_no o (out_side o t 2) }
    requires { forall i: int. 0 <= i < ne o -> i <> i1 -> i <> i2 -> i <> i3 -> VEdgeData.get b i = VEdgeData.get a i }
    requires { forall i: int. i = i1 \/ i = i2 \/ i = i3 -> (let x = VEdgeData.get a i in let y = VEdgeData.get b i in y.edgedata_p1 = x.edgedata_p1 /\ y.edgedata_p2 = x.edgedata_p2 /\
      (if x.edgedata_t1 = -1 then y.edgedata_t1 = t /\ y.edgedata_t2 = x.edgedata_t2 else y.edgedata_t1 = x.edgedata_t1 /\ y.edgedata_t2 = t)) }
    ensures { edges_of o b (ne o) (t + 1) }
  = tri_step o t;
    assert { forall i: int. 0 <= i < ne o -> (is_side o t (out_edge o i) <-> i = i1 \/ i = i2 \/ i = i3) };
    assert { forall i: int [out_edge o i]. 0 <= i < ne o -> let e = out_edge o i in let y = VEdgeData.get b i in ends_of (tris o (t + 1) e) y.edgedata_t1 y.edgedata_t2
      by let x = VEdgeData.get a i in ends_of (tris o t e) x.edgedata_t1 x.edgedata_t2 so (VInt.length (tris o t e) >= 1 -> 0 <= VInt.get (tris o t e) 0)
      so tris o (t + 1) e = if is_side o t e then VInt.snoc (tris o t e) t else tris o t e }
  let ghost centres_push (o: triangulateio) (a b: VTriangle.t) (l m: VPoint.t) (t: int)
    requires { 0 <= t } requires { centres_of o a l t } requires { forall i: int. 0 <= i < t -> VTriangle.get b i = VTriangle.get a i }
    requires { let c = VTriangle.get b t in centre_of o t c.triangle_circumcenter /\ m = add l c.triangle_circumcenter /\ 0 <= c.triangle_circumcenterIndex < VPoint.length m /\ peq (VPoint.get m c.triangle_circumcenterIndex) c.triangle_circumcenter }
    ensures { centres_of o b m (t + 1) }
  = assert { forall x: int. 0 <= x < VPoint.length l -> x < VPoint.length m /\ VPoint.get m x = VPoint.get l x }
  let ghost table_push (o: triangulateio) (a b: segmentmap) (k: int)
    requires { 0 <= k } requires { table_of o a k } requires { forall i: int. 0 <= i <= k -> edge_no o (out_edge o i) = i }
    requires { registered b (out_edge o k) } requires { same_but b a (out_edge o k) } requires { ends_of (tris o (nt o) (out_edge o k)) (nb1 b (out_edge o k)) (nb2 b (out_edge o k)) }
    ensures { table_of o b (k + 1) }
  = assert { forall i: int. 0 <= i < k -> out_edge o i <> out_edge o k }
end
module DelTri
  use int.Int
  use Geom
  use Poly
  use Tri
  use TriIO
  use TriLib
  use DelOut
  use DelStep
  use OrdPoint
  use T_Point
  use T_triangulateio
  use C_Int
  use VInt as VInt
  use VPoint as VPoint
  let ghost tri_good (o: triangulateio) (p: VPoint.t) (t: int)
    requires { valid_out o } requires { 0 <= t < nt o } requires { points_of o p (np o) }
    ensures { let d = o.triangulateio_trianglelist.c_int_data in let v = VInt.snoc (VInt.snoc (VInt.snoc VInt.empty (VInt.get d (3 * t))) (VInt.get d (3 * t + 1))) (VInt.get d (3 * t + 2)) in
      VInt.length v = 3 /\ VInt.get v 0 = out_corner o t 0 /\ VInt.get v 1 = out_corner o t 1 /\ VInt.get v 2 = out_corner o t 2 /\ idx_ok p v /\ tri_area2 p v <> 0.0 /\
      forall c: point. circumcentre p v c -> good_pt c /\ centre_of o t c }
  = tri_step o t;
    let d = o.triangulateio_trianglelist.c_int_data in let v = VInt.snoc (VInt.snoc (VInt.snoc VInt.empty (VInt.get d (3 * t))) (VInt.get d (3 * t + 1))) (VInt.get d (3 * t + 2)) in
    assert { VInt.length v = 3 }; assert { VInt.get v 0 = out_corner o t 0 }; assert { VInt.get v 1 = out_corner o t 1 }; assert { VInt.get v 2 = out_corner o t 2 };
    assert { VPoint.get p (VInt.get v 0) = out_pt o (out_corner o t 0) /\ VPoint.get p (VInt.get v 1) = out_pt o (out_corner o t 1) /\ VPoint.get p (VInt.get v 2) = out_pt o (out_corner o t 2) };
    assert { tri_area2 p v <> 0.0 }; assert { forall i: int. 0 <= i < 3 -> 0 <= VInt.get v i < VPoint.length p by i = 0 \/ i = 1 \/ i = 2 }; assert { idx_ok p v };
    assert { forall c: point. circumcentre p v c -> centre_of o t c }
end
(* the mesh made of the answer *)
module DelMesh
  use int.Int
  use Geom
  use Edge
  use TriIO
  use TriLib
  use DelOut
  use DelStep
  use OrdPoint
  use UL_Point
  use PMap
  use T_Point
  use T_UniqueList_Point
  use T_Triangle
  use T_Polygon
  use T_triangulateio
  use T_PointMap
  use T_SegmentMap
  use T_Mesh_Triangle
  use VInt as VInt
  use VPoint as VPoint
  use VTriangle as VTriangle
  (* the triangles that have a point as a corner, in order: those below k, and k for its first j corners *)
  let rec ghost function ptris (o: triangulateio) (k j q: int) : VInt.t variant { k, j }
  = if j > 0 then (let r = ptris o k (j - 1) q in if out_corner o k (j - 1) = q then VInt.snoc r k else r)
    else if k > 0 then ptris o (k - 1) 3 q else VInt.empty
  predicate lists_of (o: triangulateio) (m: pointmap) (k j: int) = pm_ok m /\ forall q: int. 0 <= q < np o -> nbrs m (out_pt o q) = ptris o k j q
  predicate mesh_of (o: triangulateio) (m: mesh_triangle) =
    ul_ok m.mesh_triangle_points /\ points_of o (uls m.mesh_triangle_points) (np o) /\ triangles_of o m.mesh_triangle_polygons (nt o) /\
    table_of o m.mesh_triangle_edges (ne o) /\ lists_of o m.mesh_triangle_pointMap (nt o) 0
  predicate is_corner (o: triangulateio) (t q: int) = out_corner o t 0 = q \/ out_corner o t 1 = q \/ out_corner o t 2 = q
  let ghost lists_step (o: triangulateio) (k q: int)
    requires { 0 < k } requires { forall x: int. 0 <= x < VInt.length (ptris o (k - 1) 0 q) -> 0 <= VInt.get (ptris o (k - 1) 0 q) x < k - 1 /\ is_corner o (VInt.get (ptris o (k - 1) 0 q) x) q } requires { forall t: int. 0 <= t < k - 1 -> is_corner o t q -> exists x: int. 0 <= x < VInt.length (ptris o (k - 1) 0 q) /\ VInt.get (ptris o (k - 1) 0 q) x = t }
    ensures { forall x: int. 0 <= x < VInt.length (ptris o (k) 0 q) -> 0 <= VInt.get (ptris o (k) 0 q) x < k /\ is_corner o (VInt.get (ptris o (k) 0 q) x) q }
    ensures { forall t: int. 0 <= t < k -> is_corner o t q -> exists x: int. 0 <= x < VInt.length (ptris o (k) 0 q) /\ VInt.get (ptris o (k) 0 q) x = t }
  =
      let r = ptris o (k - 1) 0 q in
      assert { ptris o k 0 q = ptris o (k - 1) 3 q };
      let r3 = ptris o (k - 1) 3 q in let r2 = ptris o (k - 1) 2 q in let r1 = ptris o (k - 1) 1 q in
      assert { r1 = if out_corner o (k - 1) 0 = q then VInt.snoc r (k - 1) else r };
      assert { r2 = if out_corner o (k - 1) 1 = q then VInt.snoc r1 (k - 1) else r1 };
      assert { r3 = if out_corner o (k - 1) 2 = q then VInt.snoc r2 (k - 1) else r2 };
      assert { forall x: int. 0 <= x < VInt.length r -> VInt.get r3 x = VInt.get r x };
      assert { VInt.length r <= VInt.length r3 };
      assert { forall x: int. VInt.length r <= x < VInt.length r3 -> VInt.get r3 x = k - 1 /\ is_corner o (k - 1) q };
      assert { is_corner o (k - 1) q -> VInt.length r3 > VInt.length r /\ VInt.get r3 (VInt.length r) = k - 1 };
      assert { forall t: int. 0 <= t < k - 1 -> is_corner o t q -> exists x: int. 0 <= x < VInt.length r3 /\ VInt.get r3 x = t
        by exists x: int. 0 <= x < VInt.length r /\ VInt.get r x = t so VInt.get r3 x = t };
      assert { is_corner o (k - 1) q -> exists x: int. 0 <= x < VInt.length r3 /\ VInt.get r3 x = k - 1 by VInt.get r3 (VInt.length r) = k - 1 };
      assert { forall t: int. 0 <= t < k -> is_corner o t q -> exists x: int. 0 <= x < VInt.length r3 /\ VInt.get r3 x = t by t < k - 1 \/ t = k - 1 };
      assert { forall x: int. 0 <= x < VInt.length r -> 0 <= VInt.get r x < k /\ is_corner o (VInt.get r x) q };
      assert { forall x: int. 0 <= x < VInt.length r3 -> 0 <= VInt.get r3 x < k /\ is_corner o (VInt.get r3 x) q by x < VInt.length r \/ VInt.length r <= x }
  let rec lemma lists_are (o: triangulateio) (k q: int)
    requires { 0 <= k }
    ensures { forall x: int. 0 <= x < VInt.length (ptris o (k) 0 q) -> 0 <= VInt.get (ptris o (k) 0 q) x < k /\ is_corner o (VInt.get (ptris o (k) 0 q) x) q }
    ensures { forall t: int. 0 <= t < k -> is_corner o t q -> exists x: int. 0 <= x < VInt.length (ptris o (k) 0 q) /\ VInt.get (ptris o (k) 0 q) x = t }
    variant { k }
  = if k > 0 then begin lists_are o (k - 1) q; lists_step o k q end else assert { ptris o k 0 q = VInt.empty }
  (* points far apart are listed as they come *)
  let rec ghost listed_once (p: VPoint.t) (k: int)
    requires { 0 <= k <= VPoint.length p } requires { goods p } requires { forall i j: int. 0 <= i < j < VPoint.length p -> not (peq (VPoint.get p i) (VPoint.get p j)) }
    ensures { VPoint.length (addall VPoint.empty p k) = k } ensures { forall i: int. 0 <= i < k -> VPoint.get (addall VPoint.empty p k) i = VPoint.get p i }
    variant { k }
  = if k > 0 then begin listed_once p (k - 1);
      assert { addall VPoint.empty p k = add (addall VPoint.empty p (k - 1)) (VPoint.get p (k - 1)) };
      assert { posn (addall VPoint.empty p (k - 1)) (VPoint.get p (k - 1)) = k - 1 } end
  let ghost all_listed (o: triangulateio) (p u: VPoint.t) (ix: VInt.t)
    requires { valid_out o } requires { points_of o p (np o) } requires { 0 <= np o } requires { u = addall VPoint.empty p (VPoint.length p) } requires { VInt.length ix = VPoint.length p }
    requires { forall k: int. 0 <= k < VPoint.length p -> 0 <= VInt.get ix k < VPoint.length u /\ peq (VPoint.get u (VInt.get ix k)) (VPoint.get p k) }
    ensures { goods p } ensures { points_of o u (np o) } ensures { forall k: int. 0 <= k < np o -> VInt.get ix k = k }
  = listed_once p (VPoint.length p);
    assert { forall k: int. 0 <= k < np o -> VInt.get ix k = k by peq (VPoint.get p (VInt.get ix k)) (VPoint.get p k) }
end
