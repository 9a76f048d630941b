(* the bundled triangulation library: what it is given and what it may be relied on to return *)
module TriIO
  use int.Int
  use real.RealInfix
  use Geom
  use Edge
  use Poly
  use C_Real
  use C_Int
  use T_Point
  use T_triangulateio
  use VReal as VReal
  use VInt as VInt
  predicate has_flag (sw: VInt.t) (c: int)
  axiom has_flag_def: forall sw: VInt.t, c: int [has_flag sw c]. has_flag sw c <-> exists i: int. 0 <= i < VInt.length sw /\ VInt.get sw i = c
  lemma has_flag_none: forall c: int [has_flag VInt.empty c]. not (has_flag VInt.empty c)
  let lemma has_flag_snoc (s: VInt.t) (x c: int) ensures { has_flag (VInt.snoc s x) c <-> x = c \/ has_flag s c }
  = assert { VInt.get (VInt.snoc s x) (VInt.length s) = x /\ forall i: int. 0 <= i < VInt.length s -> VInt.get (VInt.snoc s x) i = VInt.get s i };
    assert { has_flag s c -> has_flag (VInt.snoc s x) c by exists i: int. 0 <= i < VInt.length s /\ VInt.get s i = c so VInt.get (VInt.snoc s x) i = c };
    assert { x = c -> has_flag (VInt.snoc s x) c by VInt.get (VInt.snoc s x) (VInt.length s) = c };
    assert { has_flag (VInt.snoc s x) c -> x <> c -> has_flag s c by exists i: int. 0 <= i < VInt.length s + 1 /\ VInt.get (VInt.snoc s x) i = c so i < VInt.length s so VInt.get s i = c }
  predicate reals (a: c_real) (n: int) = a.c_real_kind = 1 /\ VReal.length a.c_real_data = n
  predicate ints (a: c_int) (n: int) = a.c_int_kind = 1 /\ VInt.length a.c_int_data = n
  predicate opt_ints (a: c_int) (n: int) = a.c_int_kind = 0 \/ ints a n
  let function rat (a: c_real) (i: int) : real = VReal.get a.c_real_data i
  let function iat (a: c_int) (i: int) : int = VInt.get a.c_int_data i
  (* arrays of matching sizes *)
  predicate in_sizes (i: triangulateio) =
    let n = i.triangulateio_numberofpoints in 0 <= n /\ reals i.triangulateio_pointlist (2 * n) /\
    0 <= i.triangulateio_numberofpointattributes /\ (i.triangulateio_numberofpointattributes > 0 -> reals i.triangulateio_pointattributelist (n * i.triangulateio_numberofpointattributes)) /\
    opt_ints i.triangulateio_pointmarkerlist n /\
    (let m = i.triangulateio_numberofsegments in 0 <= m /\ ints i.triangulateio_segmentlist (2 * m) /\ opt_ints i.triangulateio_segmentmarkerlist m /\
      forall k: int. 0 <= k < 2 * m -> 0 <= iat i.triangulateio_segmentlist k < n) /\
    (let h = i.triangulateio_numberofholes in 0 <= h /\ reals i.triangulateio_holelist (2 * h)) /\
    i.triangulateio_numberofregions = 0
  predicate out_empty (o: triangulateio) =
    o.triangulateio_pointlist.c_real_kind = 0 /\ o.triangulateio_pointattributelist.c_real_kind = 0 /\ o.triangulateio_pointmarkerlist.c_int_kind = 0 /\
    o.triangulateio_trianglelist.c_int_kind = 0 /\ o.triangulateio_triangleattributelist.c_real_kind = 0 /\ o.triangulateio_segmentlist.c_int_kind = 0 /\
    o.triangulateio_segmentmarkerlist.c_int_kind = 0 /\ o.triangulateio_edgelist.c_int_kind = 0 /\ o.triangulateio_edgemarkerlist.c_int_kind = 0
  predicate held_or_null_r (a: c_real) = a.c_real_kind = 0 \/ a.c_real_kind = 1
  predicate held_or_null_i (a: c_int) = a.c_int_kind = 0 \/ a.c_int_kind = 1
  predicate out_sizes (o: triangulateio) =
    0 <= o.triangulateio_numberofpoints /\ reals o.triangulateio_pointlist (2 * o.triangulateio_numberofpoints) /\ ints o.triangulateio_pointmarkerlist o.triangulateio_numberofpoints /\
    0 <= o.triangulateio_numberoftriangles /\ ints o.triangulateio_trianglelist (3 * o.triangulateio_numberoftriangles) /\
    0 <= o.triangulateio_numberofedges /\ ints o.triangulateio_edgelist (2 * o.triangulateio_numberofedges) /\ ints o.triangulateio_edgemarkerlist o.triangulateio_numberofedges /\
    held_or_null_r o.triangulateio_pointattributelist /\ held_or_null_r o.triangulateio_triangleattributelist /\ held_or_null_i o.triangulateio_segmentlist /\ held_or_null_i o.triangulateio_segmentmarkerlist
  (* the lists the library hands back unallocated, or shares with its input *)
  predicate out_shared (o: triangulateio) =
    o.triangulateio_holelist.c_real_kind = 3 /\ o.triangulateio_regionlist.c_real_kind = 3 /\ o.triangulateio_trianglearealist.c_real_kind = 3 /\
    o.triangulateio_neighborlist.c_int_kind = 3 /\ o.triangulateio_normlist.c_real_kind = 3
  let function np (o: triangulateio) : int = o.triangulateio_numberofpoints
  let function ne (o: triangulateio) : int = o.triangulateio_numberofedges
  let function nt (o: triangulateio) : int = o.triangulateio_numberoftriangles
  (* point, edge and triangle corner by number *)
  val function out_pt (o: triangulateio) (i: int) : point
  axiom out_pt_def: forall o: triangulateio, i: int [out_pt o i]. out_pt o i =
    { point_x = rat o.triangulateio_pointlist (2 * i); point_y = rat o.triangulateio_pointlist (2 * i + 1); point_isBoundaryPoint = (if iat o.triangulateio_pointmarkerlist i = 1 then true else false); point_isEmpty = false }
  let function out_a (o: triangulateio) (i: int) : int = iat o.triangulateio_edgelist (2 * i)
  let function out_b (o: triangulateio) (i: int) : int = iat o.triangulateio_edgelist (2 * i + 1)
  val function out_edge (o: triangulateio) (i: int) : edge
  axiom out_edge_def: forall o: triangulateio, i: int [out_edge o i]. out_edge o i = mkedge (out_a o i) (out_b o i)
  let function out_mark (o: triangulateio) (i: int) : int = iat o.triangulateio_edgemarkerlist i
  let function out_corner (o: triangulateio) (t j: int) : int = iat o.triangulateio_trianglelist (3 * t + j)
  val function out_side (o: triangulateio) (t j: int) : edge
  axiom out_side_def: forall o: triangulateio, t j: int [out_side o t j]. out_side o t j = mkedge (out_corner o t j) (out_corner o t (if j = 2 then 0 else j + 1))
  predicate is_side (o: triangulateio) (t: int) (e: edge) = out_side o t 0 = e \/ out_side o t 1 = e \/ out_side o t 2 = e
  (* the triangles among the first k that have an edge, in order *)
  let rec ghost function tris (o: triangulateio) (k: int) (e: edge) : VInt.t variant { k }
  = if k <= 0 then VInt.empty else let r = tris o (k - 1) e in if is_side o (k - 1) e then VInt.snoc r (k - 1) else r
  (* the number of an edge *)
  val function edge_no (o: triangulateio) (e: edge) : int
end
module TriLib
  use int.Int
  use real.RealInfix
  use ref.Ref
  use Geom
  use Edge
  use OrdPoint
  use C_Real
  use C_Int
  use T_Point
  use T_triangulateio
  use VReal as VReal
  use VInt as VInt
  use TriIO
  (* a valid triangulation *)
  predicate valid_out (o: triangulateio) =
    (forall i: int. 0 <= i < np o -> good_pt (out_pt o i)) /\
    (forall i j: int. 0 <= i < j < np o -> not (peq (out_pt o i) (out_pt o j))) /\
    (forall i: int. 0 <= i < ne o -> 0 <= out_a o i < np o /\ 0 <= out_b o i < np o /\ out_a o i <> out_b o i) /\
    (forall i: int. 0 <= i < ne o -> edge_no o (out_edge o i) = i) /\
    (forall t j: int. 0 <= t < nt o -> 0 <= j < 3 -> 0 <= out_corner o t j < np o /\ (let k = edge_no o (out_side o t j) in 0 <= k < ne o /\ out_edge o k = out_side o t j)) /\
    (forall t: int. 0 <= t < nt o -> out_corner o t 0 <> out_corner o t 1 /\ out_corner o t 1 <> out_corner o t 2 /\ out_corner o t 2 <> out_corner o t 0) /\
    (forall t: int. 0 <= t < nt o -> cross3 (out_pt o (out_corner o t 0)) (out_pt o (out_corner o t 1)) (out_pt o (out_corner o t 2)) <> 0.0) /\
    (forall c: point, t: int. 0 <= t < nt o -> (let a = out_pt o (out_corner o t 0) in sqdist c a = sqdist c (out_pt o (out_corner o t 1)) /\ sqdist c a = sqdist c (out_pt o (out_corner o t 2))) -> good_pt c) /\
    (forall e: edge. VInt.length (tris o (nt o) e) <= 2)
  (* the last request *)
  val tri_sw : ref VInt.t
  val tri_in : ref triangulateio
  val tri_out : ref triangulateio
  val triangulate_lib (sw: VInt.t) (i o: triangulateio) : triangulateio
    requires { [@expl:polygon input, numbering from zero, edges wanted, unused points dropped] has_flag sw 112 /\ has_flag sw 122 /\ has_flag sw 101 /\ has_flag sw 106 }
    requires { [@expl:input arrays of matching sizes] in_sizes i }
    requires { [@expl:output lists are null] out_empty o }
    writes { tri_sw, tri_in, tri_out }
    ensures { !tri_sw = sw /\ !tri_in = i /\ !tri_out = result }
    ensures { out_sizes result /\ out_shared result /\ valid_out result }
end
