from ctl import C, L
UP = 'PMap OrdPoint VInt T_PointMap T_NeighboursByPoint N_M_Point_NeighboursByPoint M_Point_NeighboursByPoint OM_Point_NeighboursByPoint'
UE = 'EMap Edge T_SegmentMap T_NeighboursBySegment N_U_IndexSegment_NeighboursBySegment U_IndexSegment_NeighboursBySegment'
TOK = ('keys well separated', 'pm_ok {self}')
E0 = '(ed {s})'
CONTRACTS = [
  C('NeighboursByPoint::add', 'n', name='nbp_add', mod='self', uses='VInt', ens=[('appended', '{self}.neighboursbypoint_neighbours = VInt.snoc {old self}.neighboursbypoint_neighbours {n}')]),
  C('NeighboursByPoint::insert', 'n', name='nbp_insert', mod='self', uses='VInt', ens=[('all appended in order', '{self}.neighboursbypoint_neighbours = VInt.app {old self}.neighboursbypoint_neighbours {n}')]),
  C('NeighboursByPoint::NeighboursByPoint', '', sig=[], name='nbp_new', uses='VInt', ens=[('empty', '{self}.neighboursbypoint_neighbours = VInt.empty')]),
  C('NeighboursByPoint::NeighboursByPoint', 'n', sig=['int'], name='nbp_new_one', uses='VInt', ens=[('one polygon', '{self}.neighboursbypoint_neighbours = VInt.snoc VInt.empty {n}')]),
  C('NeighboursByPoint::NeighboursByPoint', 'n', sig=['std::vector<int>'], name='nbp_new_list', uses='VInt', ens=[('the list', '{self}.neighboursbypoint_neighbours = {n}')]),
  C('PointMap::PointMap', '', name='pointmap_new', uses=UP, ens=[('empty', 'pm_ok {self} /\\ M_Point_NeighboursByPoint.length {self}.pointmap_map = 0')]),
  C('PointMap::insert', 'p neighbour', sig=['Point', 'int'], name='pointmap_insert', mod='self', uses=UP, req=[TOK, ('point well separated', 'good_pt {p}')],
    ens=[('keys stay well separated', 'pm_ok {self}'), ('appended for the point', 'forall q: point. good_pt q -> peq {p} q -> nbrs {self} q = VInt.snoc (nbrs {old self} q) {neighbour}'),
         ('other points unaffected', 'forall q: point. good_pt q -> not (peq {p} q) -> nbrs {self} q = nbrs {old self} q /\\ (listed {self} q <-> listed {old self} q)'), ('listed', 'listed {self} {p}')]),
  C('PointMap::insert', 'p neighbours', sig=['Point &', 'std::vector<int> &'], name='pointmap_insert_list', mod='self', uses=UP, req=[TOK, ('point well separated', 'good_pt {p}')],
    ens=[('keys stay well separated', 'pm_ok {self}'), ('appended for the point', 'forall q: point. good_pt q -> peq {p} q -> VInt.eqs (nbrs {self} q) (VInt.app (nbrs {old self} q) {neighbours})'),
         ('other points unaffected', 'forall q: point. good_pt q -> not (peq {p} q) -> nbrs {self} q = nbrs {old self} q /\\ (listed {self} q <-> listed {old self} q)'), ('listed', 'listed {self} {p}')]),
  C('PointMap::get', 'p', name='pointmap_get', mod='self', uses=UP, req=[TOK, ('point well separated', 'good_pt {p}')],
    ens=[('keys stay well separated', 'pm_ok {self}'), ('the registered polygons', '{result}.neighboursbypoint_neighbours = nbrs {old self} {p}'), ('no list changed', 'forall q: point. good_pt q -> nbrs {self} q = nbrs {old self} q')]),
  C('PointMap::size', '', name='pointmap_size', uses=UP, ens=[('number of points', '{result} = M_Point_NeighboursByPoint.length {self}.pointmap_map')]),
  C('NeighboursBySegment::NeighboursBySegment', '', sig=[], name='nbs_new', ens=[('no neighbour', '{self}.neighboursbysegment_n1 = -1 /\\ {self}.neighboursbysegment_n2 = -1')]),
  C('NeighboursBySegment::NeighboursBySegment', 'i1', sig=['int'], name='nbs_new_one', ens=[('one neighbour', '{self}.neighboursbysegment_n1 = {i1} /\\ {self}.neighboursbysegment_n2 = -1')]),
  C('NeighboursBySegment::NeighboursBySegment', 'i1 i2', sig=['int', 'int'], name='nbs_new_two', ens=[('two neighbours', '{self}.neighboursbysegment_n1 = {i1} /\\ {self}.neighboursbysegment_n2 = {i2}')]),
  C('NeighboursBySegment::NeighboursBySegment', 'p', sig=['Pair<int>'], name='nbs_new_pair', uses='T_Pair_int', ens=[('two neighbours', '{self}.neighboursbysegment_n1 = {p}.pair_int_first /\\ {self}.neighboursbysegment_n2 = {p}.pair_int_second')]),
  C('NeighboursBySegment::setNeighbour', 'i', name='nbs_setneighbour', mod='self', ens=[('second neighbour', '{self}.neighboursbysegment_n1 = {old self}.neighboursbysegment_n1 /\\ {self}.neighboursbysegment_n2 = {i}')]),
  C('NeighboursBySegment::setFirst', 'value', name='nbs_setfirst', mod='self', ens=[('first neighbour', '{self}.neighboursbysegment_n2 = {old self}.neighboursbysegment_n2 /\\ {self}.neighboursbysegment_n1 = {value}')]),
  C('NeighboursBySegment::setSecond', 'value', name='nbs_setsecond', mod='self', ens=[('second neighbour', '{self}.neighboursbysegment_n1 = {old self}.neighboursbysegment_n1 /\\ {self}.neighboursbysegment_n2 = {value}')]),
  C('NeighboursBySegment::getFirst', '', name='nbs_getfirst', ens=[('first neighbour', '{result} = {self}.neighboursbysegment_n1')]),
  C('NeighboursBySegment::getSecond', '', name='nbs_getsecond', ens=[('second neighbour', '{result} = {self}.neighboursbysegment_n2')]),
  C('NeighboursBySegment::operator==', 'other', name='nbs_eq', ens=[('same neighbours in either order', '{result} <-> ({self}.neighboursbysegment_n1 = {other}.neighboursbysegment_n1 /\\ {self}.neighboursbysegment_n2 = {other}.neighboursbysegment_n2) \\/ ({self}.neighboursbysegment_n1 = {other}.neighboursbysegment_n2 /\\ {self}.neighboursbysegment_n2 = {other}.neighboursbysegment_n1)')]),
  C('SegmentMap::SegmentMap', '', name='segmentmap_new', uses=UE, ens=[('empty', 'U_IndexSegment_NeighboursBySegment.size {self}.segmentmap_map = 0 /\\ forall e: edge. not (registered {self} e)')]),
  C('SegmentMap::insert', 's polygonIndex', sig=['IndexSegment', 'int'], name='segmentmap_insert', mod='self', uses=UE,
    ens=[('edge registered in either direction', 'registered {self} '+E0), ('first polygon becomes the first neighbour', 'not (registered {old self} '+E0+') -> nb1 {self} '+E0+' = {polygonIndex} /\\ nb2 {self} '+E0+' = -1'),
         ('next polygon becomes the second neighbour', 'registered {old self} '+E0+' -> nb1 {self} '+E0+' = nb1 {old self} '+E0+' /\\ nb2 {self} '+E0+' = {polygonIndex}'),
         ('other edges unaffected', 'same_but {self} {old self} '+E0), ('number of edges', 'U_IndexSegment_NeighboursBySegment.size {self}.segmentmap_map = U_IndexSegment_NeighboursBySegment.size {old self}.segmentmap_map + (if registered {old self} '+E0+' then 0 else 1)')]),
  C('SegmentMap::insert', 's n', sig=['IndexSegment', 'NeighboursBySegment'], name='segmentmap_insert_nbs', mod='self', uses=UE,
    ens=[('edge registered in either direction', 'registered {self} '+E0), ('neighbours as given', 'nb1 {self} '+E0+' = {n}.neighboursbysegment_n1 /\\ nb2 {self} '+E0+' = {n}.neighboursbysegment_n2'),
         ('other edges unaffected', 'same_but {self} {old self} '+E0), ('number of edges', 'U_IndexSegment_NeighboursBySegment.size {self}.segmentmap_map = U_IndexSegment_NeighboursBySegment.size {old self}.segmentmap_map + (if registered {old self} '+E0+' then 0 else 1)')]),
  C('SegmentMap::get', 's', name='segmentmap_get', mod='self', uses=UE,
    ens=[('registered neighbours', 'registered {old self} '+E0+' -> {result}.neighboursbysegment_n1 = nb1 {old self} '+E0+' /\\ {result}.neighboursbysegment_n2 = nb2 {old self} '+E0+' /\\ nb1 {self} '+E0+' = nb1 {old self} '+E0+' /\\ nb2 {self} '+E0+' = nb2 {old self} '+E0),
         ('no neighbours for an unknown edge', 'not (registered {old self} '+E0+') -> {result}.neighboursbysegment_n1 = -1 /\\ {result}.neighboursbysegment_n2 = -1'), ('other edges unaffected', 'same_but {self} {old self} '+E0)]),
  C('SegmentMap::containsSegment', 's', name='segmentmap_contains', uses=UE, ens=[('membership in either direction', '{result} <-> registered {self} '+E0)]),
  C('SegmentMap::size', '', name='segmentmap_size', uses=UE, ens=[('number of edges', '{result} = U_IndexSegment_NeighboursBySegment.size {self}.segmentmap_map')]),
  C('EdgeData::EdgeData', 'p1 p2', name='edgedata_new', ens=[('edge without triangles', '{self}.edgedata_p1 = {p1} /\\ {self}.edgedata_p2 = {p2} /\\ {self}.edgedata_t1 = -1 /\\ {self}.edgedata_t2 = -1')]),
  C('EdgeData::setTriangle', 't', name='edgedata_settriangle', mod='self', ens=[('end points stay', '{self}.edgedata_p1 = {old self}.edgedata_p1 /\\ {self}.edgedata_p2 = {old self}.edgedata_p2'),
     ('first triangle', '{old self}.edgedata_t1 = -1 -> {self}.edgedata_t1 = {t} /\\ {self}.edgedata_t2 = {old self}.edgedata_t2'), ('second triangle', '{old self}.edgedata_t1 <> -1 -> {self}.edgedata_t1 = {old self}.edgedata_t1 /\\ {self}.edgedata_t2 = {t}')]),
  C('EdgeData::operator==', 'other', name='edgedata_eq', uses='Edge', ens=[('equal in either direction', '{result} <-> mkedge {self}.edgedata_p1 {self}.edgedata_p2 = mkedge {other}.edgedata_p1 {other}.edgedata_p2')]),
  C('Key::Key', 'f s', sig=['int', 'int'], name='key_new', uses='Edge', ens=[('end points', '{self}.key_first = {f} /\\ {self}.key_second = {s}'), ('hash is that of the reversed key', '{self}.key_hash = hash32 {s} + hash32 {f}')]),
  C('Key::operator==', 'other', name='key_eq', uses='Edge', ens=[('equal in either direction', '{result} <-> mkedge {self}.key_first {self}.key_second = mkedge {other}.key_first {other}.key_second')]),
  C('KeyHasher::operator()', 'k', name='key_hasher', ens=[('the stored hash', '{result} = {k}.key_hash')]),
  C('SegmentHasher::operator()', 'k', name='segment_hasher', ens=[('the stored hash', '{result} = {k}.indexsegment_hash')]),
  C('NeighboursHasher::operator()', 'k', name='nbs_hasher', ens=[('the same in either order', '{result} = hash32 {k}.neighboursbysegment_n2 + hash32 {k}.neighboursbysegment_n1')]),
  C('IndexSegment::IndexSegment', 'other', sig=['const IndexSegment &'], name='iseg_copy', ens=[('same end points', 's1 {self} = s1 {other} /\\ s2 {self} = s2 {other}'), ('hash is that of the reversed segment', '{self}.indexsegment_hash = hash32 (s2 {self}) + hash32 (s1 {self})')]),
]
