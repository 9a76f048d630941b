(* adjacency tables *)
module PMap
  use int.Int
  use Geom
  use T_Point
  use OrdPoint
  use T_NeighboursByPoint
  use T_PointMap
  use N_M_Point_NeighboursByPoint
  use M_Point_NeighboursByPoint as M_Point_NeighboursByPoint
  use OM_Point_NeighboursByPoint as OM_Point_NeighboursByPoint
  use VInt as VInt
  predicate pm_ok (t: pointmap) = OM_Point_NeighboursByPoint.ok t.pointmap_map
  predicate listed (t: pointmap) (q: point) = OM_Point_NeighboursByPoint.idx t.pointmap_map q < M_Point_NeighboursByPoint.length t.pointmap_map
  (* the polygons registered for a point, in order *)
  function nbrs (t: pointmap) (q: point) : VInt.t =
    if listed t q then (M_Point_NeighboursByPoint.get t.pointmap_map (OM_Point_NeighboursByPoint.idx t.pointmap_map q)).m_point_neighboursbypoint_second.neighboursbypoint_neighbours
    else VInt.empty
end

module EMap
  use int.Int
  use Geom
  use Edge
  use T_IndexSegment
  use T_NeighboursBySegment
  use T_SegmentMap
  use N_U_IndexSegment_NeighboursBySegment
  use U_IndexSegment_NeighboursBySegment as U_IndexSegment_NeighboursBySegment
  function ed (s: indexsegment) : edge = mkedge (s1 s) (s2 s)
  predicate registered (t: segmentmap) (e: edge) = U_IndexSegment_NeighboursBySegment.mem t.segmentmap_map e
  function nb1 (t: segmentmap) (e: edge) : int = (U_IndexSegment_NeighboursBySegment.get t.segmentmap_map e).neighboursbysegment_n1
  function nb2 (t: segmentmap) (e: edge) : int = (U_IndexSegment_NeighboursBySegment.get t.segmentmap_map e).neighboursbysegment_n2
  (* the tables agree on every edge but one *)
  predicate same_but (t u: segmentmap) (e: edge) =
    forall f: edge. f <> e -> (registered t f <-> registered u f) /\ nb1 t f = nb1 u f /\ nb2 t f = nb2 u f
  lemma ed_rev: forall s t: indexsegment. s1 s = s2 t -> s2 s = s1 t -> ed s = ed t
  lemma ed_eq: forall s t: indexsegment. ed s = ed t <-> seg_eq s t
end
