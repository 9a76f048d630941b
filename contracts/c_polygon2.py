from ctl import C, L
V = '{self}.polygon_points'
N = 'VInt.length {self}.polygon_points'
IDX = ('indices are valid', 'idx_ok {p} {self}.polygon_points')
IDXs = ('indices are valid', 'idx_ok {points} {self}.polygon_points')
AC = ('cached area is current', '{self}.polygon_area = -. 1.0 \\/ {self}.polygon_area = 0.5 *. shoelace {points} '+V)
CENT = 'px %s *. (3.0 *. shoelace {points} '+V+') = cxsum {points} '+V+' ('+N+') /\\ py %s *. (3.0 *. shoelace {points} '+V+') = cysum {points} '+V+' ('+N+')'
CC = ('cached centroid is current', '{self}.polygon_centroid.point_isEmpty \\/ ' + CENT % (('{self}.polygon_centroid',)*2))
CONTRACTS = [
  C('Polygon::getArea', 'points', mod='self', uses='Poly', req=[IDXs, AC],
    ens=[('area is half the shoelace sum', '{result} = 0.5 *. shoelace {points} '+V), ('cache', '{self}.polygon_area = {result}'),
         ('nothing but the cached area changes', '{self} = { {old self} with polygon_area = {self}.polygon_area }')]),
  C('Polygon::getCentroid', 'points', mod='self', uses='Poly', req=[IDXs, ('non-degenerate', 'shoelace {points} '+V+' <> 0.0'), CC],
    ens=[('centroid', CENT % ('{result}', '{result}')), ('cached', '{self}.polygon_centroid = {result}'), ('a valid point', 'not {result}.point_isEmpty'),
         ('nothing but the cached centroid changes', '{self} = { {old self} with polygon_centroid = {self}.polygon_centroid }')]),
  C('Polygon::getAverage', 'p', uses='Poly', req=[IDX, (N+' >= 1')],
    ens=[('mean of the vertices', 'px {result} *. rofi ('+N+') = sumx {p} '+V+' ('+N+') /\\ py {result} *. rofi ('+N+') = sumy {p} '+V+' ('+N+')'),
         ('a proper point', 'not {result}.point_isEmpty /\\ not {result}.point_isBoundaryPoint')],
    loops=[L('i:counter x:real y:real', inv=['0 <= {i} <= '+N, ('partial sum', '{x} = sumx {p} '+V+' {i} /\\ {y} = sumy {p} '+V+' {i}')], variant=N+' - {i}')]),
  C('Polygon::getMaxDistance', 'points', uses='Poly PolyStruct', req=[IDXs, (N+' >= 1')],
    ens=[('no edge is longer', 'forall i: int. 0 <= i < '+N+' -> elen {points} '+V+' i <=. {result}'),
         ('attained by an edge', 'exists i: int. 0 <= i < '+N+' /\\ elen {points} '+V+' i = {result}')],
    loops=[L('i:counter maxEdge:real', inv=['0 <= {i} <= '+N, ('no edge so far is longer', 'forall k: int. 0 <= k < {i} -> elen {points} '+V+' k <=. {maxEdge}'),
       ('attained by an edge', 'if {i} = 0 then {maxEdge} <. 0.0 else exists k: int. 0 <= k < {i} /\\ elen {points} '+V+' k = {maxEdge}')], variant=N+' - {i}')]),
  # --- structure
  C('Polygon::getSegments', 'segments', mod='segments', uses='Poly PolyStruct',
    ens=[('one edge per vertex', 'VIndexSegment.length {segments} = VIndexSegment.length {old segments} + '+N),
         ('edges already listed are kept', 'forall i: int. 0 <= i < VIndexSegment.length {old segments} -> VIndexSegment.get {segments} i = VIndexSegment.get {old segments} i'),
         ('edges in order with the closing one', 'forall i: int. VIndexSegment.length {old segments} <= i < VIndexSegment.length {segments} -> VIndexSegment.get {segments} i = edge_at '+V+' (i - VIndexSegment.length {old segments})')],
    loops=[L('i:counter', inv=['0 <= {i} <= '+N, 'VIndexSegment.length {segments} = VIndexSegment.length {old segments} + {i}',
       'forall k: int. 0 <= k < VIndexSegment.length {old segments} -> VIndexSegment.get {segments} k = VIndexSegment.get {old segments} k',
       ('edges in order', 'forall k: int. VIndexSegment.length {old segments} <= k < VIndexSegment.length {segments} -> VIndexSegment.get {segments} k = edge_at '+V+' (k - VIndexSegment.length {old segments})')], variant=N+' - {i}')]),
  C('Polygon::getPoints', 'p', sig=['std::vector<Point> &'], name='polygon_getpoints_pts', uses='Poly', req=[IDX],
    ens=[('one point per vertex', 'VPoint.length {result} = '+N), ('coordinates of the vertices in order', 'forall i: int. 0 <= i < '+N+' -> VPoint.get {result} i = vtx {p} '+V+' i')],
    loops=[L('i:counter returnPoints:VPoint', inv=['0 <= {i} <= '+N, 'VPoint.length {returnPoints} = {i}', ('vertices in order', 'forall k: int. 0 <= k < {i} -> VPoint.get {returnPoints} k = vtx {p} '+V+' k')], variant=N+' - {i}')]),
  C('Polygon::isVertex', 'index', uses='Poly PolyStruct', ens=[('vertex membership', '{result} <-> has_vertex '+V+' {index}')]),
  C('utilities::indexOf', 'v element', sig=['const std::vector<int> &', 'int'], name='indexof_int', ens=[
     ('position of the first occurrence', '0 <= {result} -> {result} < VInt.length {v} /\\ VInt.get {v} {result} = {element} /\\ forall i: int. 0 <= i < {result} -> VInt.get {v} i <> {element}'),
     ('-1 exactly when absent', '{result} < 0 -> {result} = -1 /\\ forall i: int. 0 <= i < VInt.length {v} -> VInt.get {v} i <> {element}')], uses='VInt'),
  C('utilities::indexOf', 'v element', sig=['const std::vector<Point> &', 'Point'], name='indexof_point', ens=[
     ('position of the first occurrence', '0 <= {result} -> {result} < VPoint.length {v} /\\ peq (VPoint.get {v} {result}) {element} /\\ forall i: int. 0 <= i < {result} -> not (peq (VPoint.get {v} i) {element})'),
     ('-1 exactly when absent', '{result} < 0 -> {result} = -1 /\\ forall i: int. 0 <= i < VPoint.length {v} -> not (peq (VPoint.get {v} i) {element})')], uses='VPoint'),
  C('Polygon::containsEdge', 's', uses='Poly PolyStruct', req=[('vertices are distinct', 'distinct '+V), N+' >= 1'],
    ens=[('edge membership in either direction', '{result} <-> has_edge '+V+' {s}')]),
  C('Polygon::isConvex', 'p', uses='Poly PolyStruct', req=[IDX, N+' >= 3'],
    ens=[('no two turns have opposite directions', '{result} <-> convex {p} '+V)],
    loops=[L('i:counter determinant:real', inv=['1 <= {i} <= '+N,
      ('no turn so far opposes the reference turn', 'forall k: int. 0 <= k < {i} -> agree (turn {p} '+V+' k) {determinant}'),
      ('the reference turn is a turn', 'if {determinant} = 0.0 then (forall k: int. 0 <= k < {i} -> turn {p} '+V+' k = 0.0) else exists k: int. 0 <= k < {i} /\\ turn {p} '+V+' k = {determinant}')], variant=N+' - {i}')]),
  C('Polygon::isSelfIntersecting', 'points', uses='Poly Meet PolyStruct', req=[IDXs],
    ens=[('two edges that are not neighbours meet', '{result} <-> self_intersecting {points} '+V)],
    loops=[L('i:counter', inv=['0 <= {i} <= '+N, ('no meeting so far', 'forall a b: int. 0 <= a < {i} -> 0 <= b < '+N+' -> apart ('+N+') a b -> not (edges_meet {points} '+V+' a b)')], variant=N+' - {i}'),
           L('j:counter i:int', inv=['0 <= {j} <= '+N, ('no meeting so far in this row', 'forall b: int. 0 <= b < {j} -> apart ('+N+') {i} b -> not (edges_meet {points} '+V+' {i} b)')], variant=N+' - {j}')]),
  C('Polygon::calculateHash', '', mod='self', uses='Poly PolyStruct', ens=[('sum of the vertex hashes', '{self} = { {old self} with polygon_hash = hsum '+V+' ('+N+') }')],
    loops=[L('i:counter hash:int', inv=['0 <= {i} <= '+N, ('partial sum', '{hash} = hsum '+V+' {i}')], variant=N+' - {i}')]),
  C('delynoi_utilities::TrivialIndexVector', 'v n', mod='v', uses='Poly', req=['0 <= {n}'],
    ens=[('indices appended in order', 'VInt.length {v} = VInt.length {old v} + {n} /\\ (forall i: int. 0 <= i < VInt.length {old v} -> VInt.get {v} i = VInt.get {old v} i) /\\ forall i: int. VInt.length {old v} <= i < VInt.length {v} -> VInt.get {v} i = i - VInt.length {old v}')],
    loops=[L('i:counter', inv=['0 <= {i} <= {n}', 'VInt.length {v} = VInt.length {old v} + {i}', 'forall k: int. 0 <= k < VInt.length {old v} -> VInt.get {v} k = VInt.get {old v} k', 'forall k: int. VInt.length {old v} <= k < VInt.length {v} -> VInt.get {v} k = k - VInt.length {old v}'], variant='{n} - {i}')]),
  C('Polygon::Polygon', 'pts p', sig=['std::vector<int> &', 'std::vector<Point> &'], name='polygon_new', uses='Poly Meet PolyStruct',
    ens=[('vertices as given', '{self}.polygon_points = {pts}'), ('nothing cached', '{self}.polygon_area = -. 1.0 /\\ {self}.polygon_diameter = -. 1.0 /\\ {self}.polygon_centroid.point_isEmpty'),
         ('hash of the vertices', '{self}.polygon_hash = hsum {pts} (VInt.length {pts})')], throws='false'),
  C('Polygon::Polygon', 'p', sig=['std::vector<Point> &'], name='polygon_new_points', uses='Poly Meet PolyStruct',
    ens=[('all points in order', 'trivial_idx '+V+' (VPoint.length {p})'), ('nothing cached', '{self}.polygon_area = -. 1.0 /\\ {self}.polygon_diameter = -. 1.0 /\\ {self}.polygon_centroid.point_isEmpty'),
         ('hash of the vertices', '{self}.polygon_hash = hsum '+V+' ('+N+')'), ('not self-intersecting', 'not (self_intersecting {p} '+V+')')], throws='exists v: VInt.t. trivial_idx v (VPoint.length {p}) /\\ self_intersecting {p} v',
    loops=[L('i:counter', inv=['0 <= {i} <= '+N], variant=N+' - {i}')]),
  C('Polygon::Polygon', 'obj', sig=['const Polygon &'], name='polygon_copy', uses='Poly PolyStruct',
    ens=[('same vertices and caches', '{self} = { {obj} with polygon_hash = hsum {obj}.polygon_points (VInt.length {obj}.polygon_points) }')]),
  C('Polygon::mutate', 'p', mod='self', uses='Poly Meet PolyStruct',
    ens=[('all points in order', 'trivial_idx '+V+' (VPoint.length {p})'), ('nothing cached', '{self}.polygon_area = -. 1.0 /\\ {self}.polygon_diameter = -. 1.0 /\\ {self}.polygon_centroid.point_isEmpty'),
         ('hash of the vertices', '{self}.polygon_hash = hsum '+V+' ('+N+')'), ('not self-intersecting', 'not (self_intersecting {p} '+V+')')],
    throws='exists v: VInt.t. trivial_idx v (VPoint.length {p}) /\\ self_intersecting {p} v'),
  C('Polygon::operator==', 'other', uses='Poly PolyStruct', ens=[('equal hashes', '{result} <-> {self}.polygon_hash = {other}.polygon_hash')]),
  # --- containment
  C('Polygon::containerEdge', 'p point', uses='Poly Inside PolyStruct', req=[IDX],
    ens=[('the first edge containing the point', 'forall i: int. 0 <= i < '+N+' -> on_edge {p} '+V+' {point} i -> (forall k: int. 0 <= k < i -> not (on_edge {p} '+V+' {point} k)) -> {result} = edge_at '+V+' i'),
         ('an edge of the polygon containing the point, or none', '(exists i: int. 0 <= i < '+N+' /\\ on_edge {p} '+V+' {point} i /\\ {result} = edge_at '+V+' i) \\/ ({result} = mkseg (-1) (-1) /\\ not (on_outline {p} '+V+' {point}))')],
    loops=[L('i:counter', inv=['0 <= {i} <= '+N, ('no earlier edge contains the point', 'forall k: int. 0 <= k < {i} -> not (on_edge {p} '+V+' {point} k)')], variant=N+' - {i}')]),
  C('Polygon::inEdges', 'p point', uses='Poly Inside PolyStruct', req=[IDX], ens=[('some edge contains the point', '{result} <-> on_outline {p} '+V+' {point}')]),
  C('Polygon::containsPoint', 'p point', uses='Poly Inside PolyStruct', req=[IDX, ('consecutive vertices differ', 'steps_apart {p} '+V)],
    ens=[('even-odd rule plus the boundary', '{result} <-> odd {p} '+V+' {point} ('+N+') \\/ on_outline {p} '+V+' {point}')],
    loops=[L('i:counter j:int oddNodes:bool', inv=['0 <= {i} <= '+N, N+' > 0 -> {j} = prev ('+N+') {i}', ('parity of the crossings so far', '{oddNodes} <-> odd {p} '+V+' {point} {i}')], body_start='odd_step {p} '+V+' {point} {i};', variant=N+' - {i}')]),
]
