from ctl import C, L
G = '{self}.triangledelaunaygenerator_'
R = G + 'region'
NH = 'VHole.length ' + R + '.region_holes'
LL = '(listing {point_list} ' + R + ')'
I = '!tri_in'; O = '!tri_out'
U = 'T_Region T_Hole T_Polygon Poly PolyStruct Reg OrdPoint UL_Point UL_Int T_UniqueList_Point T_UniqueList_int TriIO TriLib DelIn DelEnds DelOut DelStep DelLoop DelTri EMap Tri Edge T_EdgeData T_PointData VEdgeData VPointData VTriangle T_triangulateio T_PointSegment C_Real C_Int VReal VInt VPoint VHole VPointSegment VIndexSegment'
N2 = '2 * VPoint.length ' + LL
def seg(d, k, p, q): return 'denotes %s (VInt.get %s (2 * %s)) %s /\\ denotes %s (VInt.get %s (2 * %s + 1)) %s' % (LL, d, k, p, LL, d, k, q)
SL = '{in}.triangulateio_segmentlist.c_int_data'
HC = lambda k: '(VHole.get '+R+'.region_holes '+k+').hole_center'
def TE(a,b): return 'assert { let u = VInt.get {out}.triangulateio_trianglelist.c_int_data ' + ('(3 * {i} + %d)' % a if a else '(3 * {i})') + ' in let v = VInt.get {out}.triangulateio_trianglelist.c_int_data ' + ('(3 * {i} + %d)' % b if b else '(3 * {i})') + ' in U_Key_Int.mem '+G+'edgeMap (mkedge u v) /\\ U_Key_Int.get '+G+'edgeMap (mkedge u v) = edge_no {out} (out_side {out} {i} %d) /\\ 0 <= edge_no {out} (out_side {out} {i} %d) < ne {out} }; ' % (a, a)
ANSWER = [('the kind asked for', '!tri_sw = {switches}'), ('every point once', I+'.triangulateio_numberofpoints = VPoint.length '+LL),
         ('coordinates of the points in order', 'forall x: int. 0 <= x < 2 * VPoint.length '+LL+' -> rat '+I+'.triangulateio_pointlist x = xy '+LL+' x'),
         ('every edge of the region and every constraint', I+'.triangulateio_numberofsegments = seg_off '+R+' ('+NH+') + VPointSegment.length {restrictedSegments}'),
         ('outline edges', 'forall x: int. 0 <= x < 2 * VInt.length '+R+'.region_b_polygon.polygon_points -> denotes '+LL+' (iat '+I+'.triangulateio_segmentlist x) (out_end '+R+' x)'),
         ('hole edges', 'forall h x: int. 0 <= h < '+NH+' -> let o = VHole.get '+R+'.region_holes h in 0 <= x < 2 * VIndexSegment.length o.hole_segments -> denotes '+LL+' (iat '+I+'.triangulateio_segmentlist (2 * seg_off '+R+' h + x)) (hole_end o x)'),
         ('constraints', 'forall y: int. let n = 2 * seg_off '+R+' ('+NH+') in n <= y < n + 2 * VPointSegment.length {restrictedSegments} -> denotes '+LL+' (iat '+I+'.triangulateio_segmentlist y) (con_end {restrictedSegments} (y - n))'),
         ('one marker per hole', I+'.triangulateio_numberofholes = '+NH+' /\\ forall k: int. 0 <= k < '+NH+' -> rat '+I+'.triangulateio_holelist (2 * k) = px '+HC('k')+' /\\ rat '+I+'.triangulateio_holelist (2 * k + 1) = py '+HC('k')),
         ('arrays of matching sizes', 'in_sizes '+I), ('region and seeds stay', R+' = {old self}.triangledelaunaygenerator_region /\\ '+G+'seedPoints = {old self}.triangledelaunaygenerator_seedPoints'),
         ('points of the answer', 'points_of !tri_out '+G+'meshPoints (np !tri_out)'), ('triangles of the answer', 'triangles_of !tri_out '+G+'triangles (nt !tri_out)'),
         ('edges with their triangles', 'edges_of !tri_out '+G+'edges (ne !tri_out) (nt !tri_out)'), ('edge index', 'index_of !tri_out '+G+'edgeMap (ne !tri_out)'), ('an edge for every point', 'data_of !tri_out '+G+'points (np !tri_out) (ne !tri_out)'),
         ('points of triangles once', 'UL_Int.ul_ok '+G+'realPoints /\\ UL_Int.uls '+G+'realPoints = UL_Int.addall VInt.empty !tri_out.triangulateio_trianglelist.c_int_data (3 * nt !tri_out)'),
         ('circumcentres', 'ul_ok '+G+'circumcenters /\\ centres_of !tri_out '+G+'triangles (uls '+G+'circumcenters) (nt !tri_out)'), ('edge table', 'table_of !tri_out '+G+'delaunayEdges (ne !tri_out)'),
         ('valid answer', 'out_sizes !tri_out /\\ valid_out !tri_out'),
    ]
def asked(con, seeds): return [(l, e.replace('{restrictedSegments}', con).replace('{point_list}', seeds)) for l, e in ANSWER if l != 'the kind asked for']
RQ = lambda c, s: [('well-formed request', 'request_ok '+R+' '+s+' '+c)]
NONE = 'VPointSegment.empty'; SEEDS = G+'seedPoints'
UM = U + ' DelMesh PMap T_Mesh_Triangle T_PointMap T_SegmentMap'
MS = '{result}.mesh_triangle_'
MESH = [('the mesh of the answer', 'mesh_of !tri_out {result}')]
CONF = ('conforming', 'has_flag !tri_sw 68'); CONS = ('constrained only', 'not (has_flag !tri_sw 68)')
CONTRACTS = [
  C('TriangleDelaunayGenerator::callTriangle', 'point_list switches restrictedSegments', sig=['std::vector<Point> &', 'char *', 'std::vector<PointSegment>'], name='del_calltriangle', mod='self', globals_='tri_sw tri_in tri_out', own='triangledelaunaygenerator_delaunayEdges', uses=U,
    req=[('well-formed request', 'request_ok '+R+' {point_list} {restrictedSegments}'), ('edges wanted, numbered from zero', 'has_flag {switches} 112 /\\ has_flag {switches} 122 /\\ has_flag {switches} 101 /\\ has_flag {switches} 106')],
    ens=ANSWER,
    loops=[
      L('i:counter points:int in:triangulateio', inv=['0 <= {i} <= VPoint.length '+LL, '{points} = 2 * {i}', 'VReal.length {in}.triangulateio_pointlist.c_real_data = '+N2, 'VReal.length {in}.triangulateio_pointattributelist.c_real_data = VPoint.length '+LL,
         ('coordinates so far', 'forall x: int. 0 <= x < 2 * {i} -> rat {in}.triangulateio_pointlist x = xy '+LL+' x')], body_start='half_two {i};'),
      L('k:counter segments:VIndexSegment in:triangulateio regionIndex:VInt', before='region_ends '+R+' {segments}; holes_ends '+R+' {segments};', body_start='half_two {k}; assert { denotes '+LL+' (VInt.get {regionIndex} (s1 (VIndexSegment.get {segments} {k}))) (reg_end '+R+' {segments} (2 * {k})) }; assert { denotes '+LL+' (VInt.get {regionIndex} (s2 (VIndexSegment.get {segments} {k}))) (reg_end '+R+' {segments} (2 * {k} + 1)) };', inv=['0 <= {k} <= VIndexSegment.length {segments}', 'VInt.length '+SL+' = 2 * {in}.triangulateio_numberofsegments',
         ('region edges so far', 'forall x: int. 0 <= x < 2 * {k} -> denotes '+LL+' (VInt.get '+SL+' x) (reg_end '+R+' {segments} x)')]),
      L('j:counter k:int in:triangulateio', body_start='half_two {j};', inv=['0 <= {j} <= VPointSegment.length {restrictedSegments}', '{k} = VIndexSegment.length {segments} + {j}', 'VInt.length '+SL+' = 2 * {in}.triangulateio_numberofsegments',
         ('region edges stay', 'forall x: int. 0 <= x < 2 * VIndexSegment.length {segments} -> denotes '+LL+' (VInt.get '+SL+' x) (reg_end '+R+' {segments} x)'),
         ('constraints so far', 'forall y: int. 2 * VIndexSegment.length {segments} <= y < 2 * {k} -> denotes '+LL+' (VInt.get '+SL+' y) (con_end {restrictedSegments} (y - 2 * VIndexSegment.length {segments}))')]),
      L('i:counter in:triangulateio', inv=['0 <= {i} <= '+NH, 'VReal.length {in}.triangulateio_holelist.c_real_data = 2 * ('+NH+')',
         ('markers so far', 'forall k: int. 0 <= k < {i} -> rat {in}.triangulateio_holelist (2 * k) = px '+HC('k')+' /\\ rat {in}.triangulateio_holelist (2 * k + 1) = py '+HC('k'))]),
      L('i:counter out:triangulateio', inv=['0 <= {i} <= np {out}', ('points so far', 'points_of {out} '+G+'meshPoints {i}'), ('point data so far', 'data_of {out} '+G+'points {i} 0')]),
      L('i:counter out:triangulateio', inv=['0 <= {i} <= ne {out}', ('numbered edges', 'forall j: int. 0 <= j < ne {out} -> edge_no {out} (out_edge {out} j) = j'), ('edges so far', 'edges_of {out} '+G+'edges {i} 0'), ('edge index so far', 'index_of {out} '+G+'edgeMap {i}'), ('an edge for every point', 'data_of {out} '+G+'points (np {out}) {i}')]),
      L('i:counter out:triangulateio', body_start='let ghost ts0 = '+G+'triangles in let ghost es0 = '+G+'edges in let ghost cs0 = (uls '+G+'circumcenters) in tri_step {out} {i}; '+TE(0,1)+TE(1,2)+TE(2,0)+'tri_good {out} '+G+'meshPoints {i};',
        body_end='assert { let v = (VTriangle.get '+G+'triangles {i}).triangle_b_polygon.T_Polygon.polygon_points in VInt.length v = 3 /\\ VInt.get v 0 = out_corner {out} {i} 0 /\\ VInt.get v 1 = out_corner {out} {i} 1 /\\ VInt.get v 2 = out_corner {out} {i} 2 }; tris_push {out} ts0 '+G+'triangles {i}; assert { centre_of {out} {i} (VTriangle.get '+G+'triangles {i}).triangle_circumcenter }; centres_push {out} ts0 '+G+'triangles cs0 (uls '+G+'circumcenters) {i}; edges_push {out} es0 '+G+'edges {i} (edge_no {out} (out_side {out} {i} 0)) (edge_no {out} (out_side {out} {i} 1)) (edge_no {out} (out_side {out} {i} 2));', inv=['0 <= {i} <= nt {out}', ('triangles so far', 'triangles_of {out} '+G+'triangles {i}'), ('triangles of each edge', 'edges_of {out} '+G+'edges (ne {out}) {i}'), ('edge index stays', 'index_of {out} '+G+'edgeMap (ne {out})'),
         ('points of triangles so far', 'UL_Int.ul_ok '+G+'realPoints /\\ UL_Int.uls '+G+'realPoints = UL_Int.addall VInt.empty {out}.triangulateio_trianglelist.c_int_data (3 * {i})'),
         ('circumcentres so far', 'ul_ok '+G+'circumcenters /\\ centres_of {out} '+G+'triangles (uls '+G+'circumcenters) {i}')]),
      L('i:counter', body_end='table_push !tri_out tb0 '+G+'delaunayEdges {i};', body_start='let ghost tb0 = '+G+'delaunayEdges in assert { out_edge !tri_out {i} = mkedge (out_a !tri_out {i}) (out_b !tri_out {i}) }; assert { edge_no !tri_out (out_edge !tri_out {i}) = {i} };', inv=['0 <= {i} <= VEdgeData.length '+G+'edges', ('edge table so far', 'table_of !tri_out '+G+'delaunayEdges {i}')]),
    ]),
  C('TriangleDelaunayGenerator::callTriangle', 'point_list switches', sig=['std::vector<Point> &', 'char *'], name='del_call_plain', mod='self', globals_='tri_sw tri_in tri_out', uses=U,
    req=RQ(NONE, '{point_list}') + [('edges wanted, numbered from zero', 'has_flag {switches} 112 /\\ has_flag {switches} 122 /\\ has_flag {switches} 101 /\\ has_flag {switches} 106')],
    ens=[ANSWER[0]] + asked(NONE, '{point_list}')),
  C('delynoi_utilities::checkTriangleIntegrity', 'trianglePoints', name='check_triangle', throws='not (VInt.length {trianglePoints} = 3 /\\ VInt.get {trianglePoints} 0 <> VInt.get {trianglePoints} 1 /\\ VInt.get {trianglePoints} 1 <> VInt.get {trianglePoints} 2 /\\ VInt.get {trianglePoints} 2 <> VInt.get {trianglePoints} 0)', ens=[]),
  C('Mesh<Triangle>::Mesh', 'p e s pM', sig=['UniqueList<Point> &', 'std::vector<Triangle> &', 'SegmentMap *', 'PointMap *'], name='mesh_triangle_new', uses=UM, req=[('list in order', 'ul_ok {p}')],
    ens=[('same points', 'ul_ok {self}.mesh_triangle_points /\\ uls {self}.mesh_triangle_points = uls {p}'), ('same triangles', '{self}.mesh_triangle_polygons = {e}'), ('same tables', '{self}.mesh_triangle_edges = {s} /\\ {self}.mesh_triangle_pointMap = {pM}')]),
  C('TriangleDelaunayGenerator::initializeMesh', '', sig=['@initializeMeshI8Triangle'], name='del_mesh_triangle', uses=UM, globals_='',
    req=[('an answered request', 'out_sizes !tri_out /\\ valid_out !tri_out /\\ points_of !tri_out '+G+'meshPoints (np !tri_out) /\\ triangles_of !tri_out '+G+'triangles (nt !tri_out) /\\ table_of !tri_out '+G+'delaunayEdges (ne !tri_out)')],
    ens=MESH,
    loops=[L('i:counter points:UniqueList_Point indexes:VInt polygons:VTriangle pointMap:PointMap', before='all_listed !tri_out '+G+'meshPoints (uls {points}) {indexes};',
        inv=['0 <= {i} <= nt !tri_out', ('triangles so far', 'triangles_of !tri_out {polygons} {i}'), ('lists so far', 'lists_of !tri_out {pointMap} {i} 0')]),
      L('j:counter newPoints:VInt oldPoints:VInt', before='assert { VInt.length {oldPoints} = 3 /\\ VInt.get {oldPoints} 0 = out_corner !tri_out {i} 0 /\\ VInt.get {oldPoints} 1 = out_corner !tri_out {i} 1 /\\ VInt.get {oldPoints} 2 = out_corner !tri_out {i} 2 }; assert { forall x: int. 0 <= x < 3 -> VInt.get {oldPoints} x = out_corner !tri_out {i} x by x = 0 \\/ x = 1 \\/ x = 2 }; assert { forall x: int. 0 <= x < 3 -> 0 <= VInt.get {oldPoints} x < np !tri_out };', inv=['0 <= {j} <= 3', ('corners so far', 'VInt.length {newPoints} = {j} /\\ forall x: int. 0 <= x < {j} -> VInt.get {newPoints} x = out_corner !tri_out {i} x'), ('lists so far', 'lists_of !tri_out {pointMap} {i} {j}')])]),
]
for fn, nm, par, sg, con, kind in (('getConformingDelaunayTriangulation', 'del_conforming', '', [], NONE, CONF), ('getConstrainedDelaunayTriangulation', 'del_constrained', '', [], NONE, CONS),
                    ('getConstrainedDelaunayTriangulation', 'del_constrained_seg', 'restrictedSegments', ['std::vector<PointSegment>'], '{restrictedSegments}', CONS)):
    CONTRACTS.append(C('TriangleDelaunayGenerator::' + fn, par, sig=sg, name=nm, mod='self', globals_='tri_sw tri_in tri_out', uses=UM, req=RQ(con, SEEDS), ens=[kind] + asked(con, SEEDS) + MESH))

GEN = ('TriangleDelaunayGenerator::')
D = '{result}.delaunayinfo_'
INFO = [('points of the answer', 'points_of !tri_out '+D+'meshPoints (np !tri_out)'), ('triangles of the answer', 'triangles_of !tri_out '+D+'triangles (nt !tri_out)'),
  ('edges with their triangles', 'edges_of !tri_out '+D+'edges (ne !tri_out) (nt !tri_out)'), ('edge index', 'index_of !tri_out '+D+'edgeMap (ne !tri_out)'), ('an edge for every point', 'data_of !tri_out '+D+'points (np !tri_out) (ne !tri_out)'),
  ('points of triangles once', 'UL_Int.ul_ok '+D+'realPoints /\\ UL_Int.uls '+D+'realPoints = UL_Int.addall VInt.empty !tri_out.triangulateio_trianglelist.c_int_data (3 * nt !tri_out)'),
  ('circumcentres', 'ul_ok '+D+'circumcenters /\\ centres_of !tri_out '+D+'triangles (uls '+D+'circumcenters) (nt !tri_out)'), ('edge table', 'table_of !tri_out '+D+'delaunayEdges (ne !tri_out)')]
MP = 'mesh_triangle_'
CONTRACTS += [
  C(GEN + 'TriangleDelaunayGenerator', 'points region', sig=['const std::vector<Point> &', 'Region'], name='del_new', uses='T_Region VPoint', ens=[('points and region kept', '{self}.triangledelaunaygenerator_seedPoints = {points} /\\ {self}.triangledelaunaygenerator_region = {region}')]),
  C('DelaunayInfo::DelaunayInfo', 't p e pD rP eD eM c', name='delaunayinfo_new', uses='T_DelaunayInfo', ens=[('all parts kept', ' /\\ '.join('{self}.delaunayinfo_%s = {%s}' % x for x in (('triangles','t'),('meshPoints','p'),('delaunayEdges','e'),('points','pD'),('realPoints','rP'),('edges','eD'),('edgeMap','eM'),('circumcenters','c'))))]),
  C(GEN + 'getConformingDelaunay', '', name='del_info', mod='self', globals_='tri_sw tri_in tri_out', uses=UM + ' T_DelaunayInfo', req=RQ(NONE, SEEDS), ens=[CONF] + asked(NONE, SEEDS) + INFO),
  C('Mesh<Triangle>::getNeighbours', 's', name='mesh_triangle_neighbours', mod='self', uses='EMap Edge T_IndexSegment',
    ens=[('the registered triangles', 'registered {old self}.mesh_triangle_edges (ed {s}) -> {result}.neighboursbysegment_n1 = nb1 {old self}.mesh_triangle_edges (ed {s}) /\\ {result}.neighboursbysegment_n2 = nb2 {old self}.mesh_triangle_edges (ed {s}) /\\ nb1 {self}.mesh_triangle_edges (ed {s}) = nb1 {old self}.mesh_triangle_edges (ed {s}) /\\ nb2 {self}.mesh_triangle_edges (ed {s}) = nb2 {old self}.mesh_triangle_edges (ed {s})'),
         ('none for an unknown edge', 'not (registered {old self}.mesh_triangle_edges (ed {s})) -> {result}.neighboursbysegment_n1 = -1 /\\ {result}.neighboursbysegment_n2 = -1'), ('other edges unaffected', 'same_but {self}.mesh_triangle_edges {old self}.mesh_triangle_edges (ed {s})'),
         ('points and triangles stay', '{self}.mesh_triangle_points = {old self}.mesh_triangle_points /\\ {self}.mesh_triangle_polygons = {old self}.mesh_triangle_polygons /\\ {self}.mesh_triangle_pointMap = {old self}.mesh_triangle_pointMap')]),
  C('Mesh<Triangle>::getPolygon', 'index', name='mesh_triangle_polygon', uses='VTriangle', req=[('index is valid', '0 <= {index} < VTriangle.length {self}.mesh_triangle_polygons')], ens=[('that triangle', '{result} = VTriangle.get {self}.mesh_triangle_polygons {index}')]),
  C('Mesh<Triangle>::getSegments', '', name='mesh_triangle_segments', ens=[('edge table', '{result} = {self}.mesh_triangle_edges')]),
  C('Mesh<Triangle>::getPointMap', '', name='mesh_triangle_pointmap', ens=[('point table', '{result} = {self}.mesh_triangle_pointMap')]),
  C('Mesh<Triangle>::getPoint', 'i', name='mesh_triangle_point', uses='UL_Point VPoint', req=[('list in order', 'ul_ok {self}.mesh_triangle_points'), ('index is valid', '0 <= {i} < VPoint.length (uls {self}.mesh_triangle_points)')], ens=[('that point', '{result} = VPoint.get (uls {self}.mesh_triangle_points) {i}')]),
  C('Mesh<Triangle>::Mesh', 'm', sig=['const Mesh<Triangle> &'], name='mesh_triangle_copy', uses=UM, req=[('list in order', 'ul_ok {m}.mesh_triangle_points')],
    ens=[('same points', 'ul_ok {self}.mesh_triangle_points /\\ uls {self}.mesh_triangle_points = uls {m}.mesh_triangle_points'), ('same triangles and tables', '{self}.mesh_triangle_polygons = {m}.mesh_triangle_polygons /\\ {self}.mesh_triangle_edges = {m}.mesh_triangle_edges /\\ {self}.mesh_triangle_pointMap = {m}.mesh_triangle_pointMap')]),
]
