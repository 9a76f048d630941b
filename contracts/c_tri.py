from ctl import C, L
V = '{self}.triangle_b_polygon.polygon_points'
U = 'Poly PolyStruct Tri T_Polygon T_Triangle'
CORN = ('three corners', 'tri_idx '+V)
NEW = [('vertices as given', V+' = {points}'), ('nothing cached', '{self}.triangle_b_polygon.polygon_area = -. 1.0 /\\ {self}.triangle_b_polygon.polygon_diameter = -. 1.0 /\\ {self}.triangle_b_polygon.polygon_centroid.point_isEmpty'),
       ('hash of the vertices', '{self}.triangle_b_polygon.polygon_hash = hsum {points} (VInt.length {points})')]
CC = ('circumcentre', 'tri_area2 {p} '+V+' <> 0.0 -> circumcentre {p} '+V+' {self}.triangle_circumcenter')
CONTRACTS = [
  C('Triangle::Triangle', '', sig=[], name='triangle_none', uses=U, ens=[('no vertices', 'VInt.length '+V+' = 0')]),
  C('Triangle::Triangle', 'points p', sig=['std::vector<int>', 'std::vector<Point> &'], name='triangle_new', uses=U,
    req=[('indices are valid', 'idx_ok {p} {points}'), ('at least three vertices', '3 <= VInt.length {points}')], ens=NEW + [CC], throws='false'),
  C('Triangle::calculateCircumcenter', 'p', uses=U + ' Circum', ieee='total', req=[('indices are valid', 'idx_ok {p} '+V), ('at least three vertices', '3 <= VInt.length '+V)],
    ens=[('at the same distance from the corners', 'tri_area2 {p} '+V+' <> 0.0 -> circumcentre {p} '+V+' {result}')],
    end='cd_area (vtx {p} '+V+' 0) (vtx {p} '+V+' 1) (vtx {p} '+V+' 2); circum_dist (vtx {p} '+V+' 0) (vtx {p} '+V+' 1) (vtx {p} '+V+' 2) {result};'),
  C('Triangle::getCircumcenter', '', uses=U, ens=[('circumcentre', '{result} = {self}.triangle_circumcenter')]),
  C('Triangle::getCircumcenterIndex', '', uses=U, ens=[('index', '{result} = {self}.triangle_circumcenterIndex')]),
  C('Triangle::isNull', '', uses=U, ens=[('no vertices', '{result} <-> VInt.length '+V+' = 0')]),
  C('Triangle::thirdPoint', 'edge', uses=U, req=[CORN], ens=[('the corner off the edge', 'three '+V+' -> side '+V+' {edge} -> opposite '+V+' {edge} {result}')]),
  C('Triangle::Triangle', 'points p circumcenters', sig=['std::vector<int>', 'std::vector<Point> &', 'std::vector<Point> &'], name='triangle_new_vec', mod='circumcenters', uses=U,
    req=[('indices are valid', 'idx_ok {p} {points}'), ('at least three vertices', '3 <= VInt.length {points}')], throws='false',
    ens=NEW + [CC, ('centre appended', '{circumcenters} = VPoint.snoc {old circumcenters} {self}.triangle_circumcenter'), ('index denotes it', '{self}.triangle_circumcenterIndex = VPoint.length {old circumcenters}')]),
  C('Triangle::Triangle', 'points p circumcenters', sig=['std::vector<int>', 'std::vector<Point> &', 'UniqueList<Point> &'], name='triangle_new_ul', mod='circumcenters', uses=U + ' UL_Point T_UniqueList_Point OrdPoint',
    req=[('indices are valid', 'idx_ok {p} {points}'), ('at least three vertices', '3 <= VInt.length {points}'), ('list in order', 'ul_ok {circumcenters}'), ('centre well separated', 'forall c: point. (tri_area2 {p} {points} <> 0.0 -> circumcentre {p} {points} c) -> good_pt c')], throws='false',
    ens=NEW + [CC, ('list in order', 'ul_ok {circumcenters}'), ('centre in the list once', 'uls {circumcenters} = add (uls {old circumcenters}) {self}.triangle_circumcenter'),
       ('index denotes it', '0 <= {self}.triangle_circumcenterIndex < VPoint.length (uls {circumcenters}) /\\ peq (VPoint.get (uls {circumcenters}) {self}.triangle_circumcenterIndex) {self}.triangle_circumcenter')]),
  C('Triangle::nextEdge', 'center edge edgeMap', mod='edgeMap', uses=U + ' N_U_Key_Int U_Key_Int', req=[CORN],
    ens=[('edge from the centre to the third corner', 'forall x: int. three '+V+' -> side '+V+' {edge} -> opposite '+V+' {edge} x -> U_Key_Int.mem {old edgeMap} (mkedge {center} x) -> {result} = U_Key_Int.get {old edgeMap} (mkedge {center} x) /\\ {edgeMap} = {old edgeMap}')]),
]
