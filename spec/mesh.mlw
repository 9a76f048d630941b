(* mesh files: the text written for points, edges and polygons *)
module Out
  use int.Int
  use real.RealInfix
  use Geom
  use Text
  use T_Point
  use T_Polygon
  use T_IndexSegment
  use VTok as VTok
  use VInt as VInt
  use VPoint as VPoint
  (* a list of indices, each after a space *)
  let rec ghost function idx_text (t: VTok.t) (v: VInt.t) (k: int) : VTok.t variant { k }
  = if k <= 0 then t else VTok.snoc (VTok.snoc (idx_text t v (k - 1)) (Ch 32)) (IntTok (VInt.get v (k - 1)))
  (* the number of vertices, then the vertices *)
  function poly_text (p: polygon) : VTok.t = idx_text (VTok.snoc VTok.empty (IntTok (VInt.length p.polygon_points))) p.polygon_points (VInt.length p.polygon_points)
  function two_ints (a b: int) : VTok.t = VTok.snoc (VTok.snoc (VTok.snoc VTok.empty (IntTok a)) (Ch 32)) (IntTok b)
  function line_out (s: ostream) : ostream = os_char s 10
  function point_out (s: ostream) (p: point) : ostream = line_out (os_real (os_char (os_real s p.point_x) 32) p.point_y)
  (* the first k points, one on each line, in order *)
  let rec ghost function points_out (s: ostream) (v: VPoint.t) (k: int) : ostream variant { k }
  = if k <= 0 then s else point_out (points_out s v (k - 1)) (VPoint.get v (k - 1))
end
module EdgesOut
  use int.Int
  use Geom
  use Text
  use Out
  use T_IndexSegment
  use N_U_IndexSegment_NeighboursBySegment
  use EU_IndexSegment_NeighboursBySegment as EU_IndexSegment_NeighboursBySegment
  function edge_out (s: ostream) (e: u_indexsegment_neighboursbysegment_entry) : ostream =
    let k = e.u_indexsegment_neighboursbysegment_first in line_out (os_str s (two_ints (s1 k) (s2 k)))
  (* the first k edges, one on each line *)
  let rec ghost function edges_out (s: ostream) (v: EU_IndexSegment_NeighboursBySegment.t) (k: int) : ostream variant { k }
  = if k <= 0 then s else edge_out (edges_out s v (k - 1)) (EU_IndexSegment_NeighboursBySegment.get v (k - 1))
end
(* what a mesh file says *)
module MeshFile
  use int.Int
  use real.RealInfix
  use Geom
  use Edge
  use Text
  use Lines
  use FilePts
  use T_Point
  use VStr as VStr
  use VInt as VInt
  use VPoint as VPoint
  use UL_Point
  use T_IndexSegment
  use Poly
  use PolyStruct
  use EMap
  function nat (n: int) : int = if n < 0 then 0 else n
  val function n_pts (s: istream) : int
  axiom n_pts_def: forall s: istream [n_pts s]. n_pts s = nat (tok_atoi (line s 0))
  val function file_pts (s: istream) : VPoint.t
  axiom file_pts_def: forall s: istream [file_pts s]. file_pts s = with_pts VPoint.empty s 1 (n_pts s)
  val function n_polys (s: istream) : int
  axiom n_polys_def: forall s: istream [n_polys s]. n_polys s = nat (tok_atoi (line s (1 + n_pts s)))
  (* the points without repetition, and the position of each point of the file among them *)
  function merged (p: VPoint.t) : VPoint.t = addall VPoint.empty p (VPoint.length p)
  let rec ghost function positions (p: VPoint.t) (k: int) : VInt.t variant { k }
  = if k <= 0 then VInt.empty else VInt.snoc (positions p (k - 1)) (posn (addall VPoint.empty p (k - 1)) (VPoint.get p (k - 1)))
  let rec lemma positions_ok (p: VPoint.t) (k: int)
    requires { 0 <= k }
    ensures { VInt.length (positions p k) = k }
    ensures { forall i: int. 0 <= i < k -> 0 <= VInt.get (positions p k) i < VPoint.length (addall VPoint.empty p k) /\ peq (VPoint.get (addall VPoint.empty p k) (VInt.get (positions p k) i)) (VPoint.get p i) }
    variant { k }
  = if k > 0 then begin
      positions_ok p (k - 1);
      assert { positions p k = VInt.snoc (positions p (k - 1)) (posn (addall VPoint.empty p (k - 1)) (VPoint.get p (k - 1))) };
      assert { addall VPoint.empty p k = add (addall VPoint.empty p (k - 1)) (VPoint.get p (k - 1)) };
      assert { forall i: int. 0 <= i < VPoint.length (addall VPoint.empty p (k - 1)) -> VPoint.get (addall VPoint.empty p k) i = VPoint.get (addall VPoint.empty p (k - 1)) i };
      assert { VPoint.length (addall VPoint.empty p (k - 1)) <= VPoint.length (addall VPoint.empty p k) };
      assert { let i = k - 1 in let q = posn (addall VPoint.empty p i) (VPoint.get p i) in 0 <= q < VPoint.length (addall VPoint.empty p k) /\ peq (VPoint.get (addall VPoint.empty p k) q) (VPoint.get p i) }
    end
  (* the vertices on a polygon line: fields 1 .. k-1, counted from st *)
  let rec ghost function verts (f: VStr.t) (ix: VInt.t) (st k: int) : VInt.t variant { k }
  = if k <= 1 then VInt.empty else VInt.snoc (verts f ix st (k - 1)) (VInt.get ix (tok_atoi (VStr.get f (k - 1)) - st))
  let rec lemma verts_ok (f: VStr.t) (ix: VInt.t) (st k m: int)
    requires { forall j: int. 1 <= j < k -> 0 <= tok_atoi (VStr.get f j) - st < VInt.length ix }
    requires { forall i: int. 0 <= i < VInt.length ix -> 0 <= VInt.get ix i < m }
    ensures { VInt.length (verts f ix st k) = if k <= 1 then 0 else k - 1 }
    ensures { forall j: int. 0 <= j < VInt.length (verts f ix st k) -> 0 <= VInt.get (verts f ix st k) j < m }
    variant { k }
  = if k > 1 then begin
      verts_ok f ix st (k - 1) m;
      assert { verts f ix st k = VInt.snoc (verts f ix st (k - 1)) (VInt.get ix (tok_atoi (VStr.get f (k - 1)) - st)) }
    end
  val function poly_fields (s: istream) (k: int) : VStr.t
  axiom poly_fields_def: forall s: istream, k: int [poly_fields s k]. poly_fields s k = fields (line s (2 + n_pts s + k))
  (* vertices of the polygon number k of the file *)
  val function file_poly (s: istream) (ix: VInt.t) (st k: int) : VInt.t
  axiom file_poly_def: forall s: istream, ix: VInt.t, st k: int [file_poly s ix st k]. file_poly s ix st k = verts (poly_fields s k) ix st (VStr.length (poly_fields s k))
  val function poly_edge (v: VInt.t) (j: int) : edge
  axiom poly_edge_def: forall v: VInt.t, j: int [poly_edge v j]. poly_edge v j = mkedge (VInt.get v j) (VInt.get v (if j + 1 = VInt.length v then 0 else j + 1))
  lemma seg_edge: forall v: VInt.t, j: int. ed (edge_at v j) = poly_edge v j
  predicate is_edge (v: VInt.t) (j: int) (e: edge) = poly_edge v j = e
  predicate file_ok (s: istream) (st: int) =
    pts_ok s 1 (n_pts s) /\ goods (file_pts s) /\
    forall k j: int. 0 <= k < n_polys s -> 1 <= j < VStr.length (poly_fields s k) -> 0 <= tok_atoi (VStr.get (poly_fields s k) j) - st < n_pts s
  lemma file_pts_len: forall s: istream. VPoint.length (file_pts s) = n_pts s
  lemma file_pts_get: forall s: istream, i: int. 0 <= i < n_pts s -> VPoint.get (file_pts s) i = file_pt s (1 + i)
  val function index_of_points (s: istream) : VInt.t
  axiom index_of_points_def: forall s: istream [index_of_points s]. index_of_points s = positions (file_pts s) (n_pts s)
  let lemma file_poly_ok (s: istream) (st k: int)
    requires { file_ok s st } requires { 0 <= k < n_polys s }
    ensures { forall j: int. 0 <= j < VInt.length (file_poly s (index_of_points s) st k) -> 0 <= VInt.get (file_poly s (index_of_points s) st k) j < VPoint.length (merged (file_pts s)) }
    ensures { let n = VStr.length (poly_fields s k) in VInt.length (file_poly s (index_of_points s) st k) = if n <= 1 then 0 else n - 1 }
  = positions_ok (file_pts s) (n_pts s);
    verts_ok (poly_fields s k) (index_of_points s) st (VStr.length (poly_fields s k)) (VPoint.length (merged (file_pts s)))
  (* the polygons registered for an edge, in order, once polygons 0 .. k-1 and the first j edges of polygon k are registered *)
  let rec ghost function edge_regs (s: istream) (ix: VInt.t) (st k j: int) (e: edge) : VInt.t variant { k, j }
  = if j > 0 then (let r = edge_regs s ix st k (j - 1) e in if is_edge (file_poly s ix st k) (j - 1) e then VInt.snoc r k else r)
    else if k > 0 then edge_regs s ix st (k - 1) (VInt.length (file_poly s ix st (k - 1))) e else VInt.empty
  let rec ghost function point_regs (s: istream) (ix: VInt.t) (pts: VPoint.t) (st k j: int) (q: point) : VInt.t variant { k, j }
  = if j > 0 then (let r = point_regs s ix pts st k (j - 1) q in if peq (VPoint.get pts (VInt.get (file_poly s ix st k) (j - 1))) q then VInt.snoc r k else r)
    else if k > 0 then point_regs s ix pts st (k - 1) (VInt.length (file_poly s ix st (k - 1))) q else VInt.empty
  (* first and last registered polygon *)
  predicate neighbours (r: VInt.t) (n1 n2: int) =
    (VInt.length r >= 1 -> n1 = VInt.get r 0) /\ (VInt.length r = 1 -> n2 = -1) /\ (VInt.length r >= 2 -> n2 = VInt.get r (VInt.length r - 1))
end
