from ctl import C, L
B = '{self}'
P = '{self}.region_p'; RV = '{self}.region_b_polygon.polygon_points'
G = 'cfg.delynoiconfig_circle_discretization_grade'
def side(k): return 'VPointSegment.get {segments} (VPointSegment.length {old segments} + %d)' % k
S4 = ' '.join('(%s)' % side(k) for k in range(4))
U = 'Poly PolyStruct Inside Reg'
FRESH = '{self}.%spolygon_area = -. 1.0 /\\ {self}.%spolygon_diameter = -. 1.0 /\\ {self}.%spolygon_centroid.point_isEmpty'
CONTRACTS = [
  C('BoundingBox::BoundingBox', 'p1 p2', sig=['Point', 'Point'], name='box_new', ens=[('corners as given', '{self}.boundingbox_p1 = {p1} /\\ {self}.boundingbox_p2 = {p2}')]),
  C('BoundingBox::getHeight', ens=[('height', '{result} = by1 {self} -. by0 {self}')], uses='Box'),
  C('BoundingBox::xMin', ens=[('extent', '{result} = bx0 {self}')], uses='Box'),
  C('BoundingBox::xMax', ens=[('extent', '{result} = bx1 {self}')], uses='Box'),
  C('BoundingBox::yMin', ens=[('extent', '{result} = by0 {self}')], uses='Box'),
  C('BoundingBox::yMax', ens=[('extent', '{result} = by1 {self}')], uses='Box'),
  C('BoundingBox::operator==', 'other', ens=[('same corners in either order', '{result} <-> (peq {self}.boundingbox_p1 {other}.boundingbox_p1 /\\ peq {self}.boundingbox_p2 {other}.boundingbox_p2) \\/ (peq {self}.boundingbox_p2 {other}.boundingbox_p1 /\\ peq {self}.boundingbox_p1 {other}.boundingbox_p2)')]),
  C('BoundingBox::getSegments', 'segments', mod='segments', uses='Box VPointSegment',
    ens=[('four sides', 'VPointSegment.length {segments} = VPointSegment.length {old segments} + 4'),
         ('segments already listed are kept', 'forall i: int. 0 <= i < VPointSegment.length {old segments} -> VPointSegment.get {segments} i = VPointSegment.get {old segments} i'),
         ('all four sides of the rectangle', 'box_sides %s {self}' % S4),
         ('closed outline', ' /\\ '.join('linked (%s) (%s)' % (side(k), side((k + 1) % 4)) for k in range(4)))]),
  C('Region::getBox', '', uses=U + ' Box', req=[('has points', 'VPoint.length '+P+' >= 1'), ('coordinates in range', 'coords_ok '+P)],
    ens=[('every point inside', 'covers {result} '+P), ('left side touched', 'exists i: int. 0 <= i < VPoint.length '+P+' /\\ px (VPoint.get '+P+' i) = bx0 {result}'), ('right side touched', 'exists i: int. 0 <= i < VPoint.length '+P+' /\\ px (VPoint.get '+P+' i) = bx1 {result}'), ('bottom touched', 'exists i: int. 0 <= i < VPoint.length '+P+' /\\ py (VPoint.get '+P+' i) = by0 {result}'), ('top touched', 'exists i: int. 0 <= i < VPoint.length '+P+' /\\ py (VPoint.get '+P+' i) = by1 {result}')],
    loops=[L('v:counter xMin:real xMax:real yMin:real yMax:real', inv=[
       ('extremes so far', 'forall k: int. 0 <= k < {v} -> {xMin} <=. px (VPoint.get '+P+' k) <=. {xMax} /\\ {yMin} <=. py (VPoint.get '+P+' k) <=. {yMax}'),
       ('still initial', '{v} = 0 -> {xMin} >=. big /\\ {yMin} >=. big /\\ {xMax} <=. -. big /\\ {yMax} <=. -. big')] +
       [('attained ' + n, '{v} > 0 -> exists k: int. 0 <= k < {v} /\\ %s (VPoint.get ' % c+P+' k) = {%s}' % n) for n, c in (('xMin','px'),('xMax','px'),('yMin','py'),('yMax','py'))])]),
  C('Circle::Circle', 'r c', sig=['double', 'Point'], name='circle_new', ens=[('as given', '{self}.circle_radius = {r} /\\ {self}.circle_center = {c}')]),
  C('utilities::radian', 'angle', uses='Circ', ens=[('radians', '{result} = rad {angle}')]),
  C('Circle::discretizeCircle', '', uses='Circ Cfg T_DelynoiConfig', ens=[('evenly spaced points on the circle', 'circle_pts {result} {self}.circle_center {self}.circle_radius '+G)],
    loops=[L('i:counter points:VPoint', inv=['0 <= {i} <= '+G, ('points so far', 'circle_pts {points} {self}.circle_center {self}.circle_radius {i}')], variant=G+' - {i}')]),
  C('delynoi_utilities::generateArcPoints', 'center radius initAngle endAngle', uses='Circ Cfg T_DelynoiConfig', ens=[('evenly spaced points on the arc', 'arc_pts {result} {center} {radius} {initAngle} {endAngle} ('+G+' + 1)')],
    loops=[L('i:counter arcPoints:VPoint', inv=['0 <= {i} <= '+G+' + 1', ('points so far', 'arc_pts {arcPoints} {center} {radius} {initAngle} {endAngle} {i}')], variant=G+' + 1 - {i}')]),
  C('CircularHole::CircularHole', 'p r', sig=['Point', 'double'], name='circularhole_new', uses=U + ' Circ Cfg T_DelynoiConfig T_Circle',
    ens=[('outline points of the circle', 'circle_pts {self}.circularhole_b_hole.hole_HolePoints {p} {r} '+G), ('centre', '{self}.circularhole_b_hole.hole_center = {p}'),
         ('closed chain of edges', 'chain {self}.circularhole_b_hole.hole_segments '+G)]),
  C('PolygonalHole::PolygonalHole', 'p', name='polygonalhole_new', uses=U + ' Circ Meet', req=[('non-degenerate', 'forall v: VInt.t. trivial_idx v (VPoint.length {p}) -> shoelace {p} v <> 0.0')],
    ens=[('outline points as given', '{self}.polygonalhole_b_hole.hole_HolePoints = {p}'), ('closed chain of edges', 'chain {self}.polygonalhole_b_hole.hole_segments (VPoint.length {p})'),
         ('centre is the centroid', 'let c = {self}.polygonalhole_b_hole.hole_center in let v = {self}.polygonalhole_b_polygon.polygon_points in trivial_idx v (VPoint.length {p}) /\\ px c *. (3.0 *. shoelace {p} v) = cxsum {p} v (VInt.length v) /\\ py c *. (3.0 *. shoelace {p} v) = cysum {p} v (VInt.length v)')],
    throws='exists v: VInt.t. trivial_idx v (VPoint.length {p}) /\\ self_intersecting {p} v',
    loops=[L('i:counter', inv=['0 <= {i} <= VPoint.length {p}', 'VPoint.length {self}.polygonalhole_b_hole.hole_HolePoints = {i}', ('points so far', 'forall k: int. 0 <= k < {i} -> VPoint.get {self}.polygonalhole_b_hole.hole_HolePoints k = VPoint.get {p} k')],
       after='assert { VPoint.eqs {self}.polygonalhole_b_hole.hole_HolePoints {p} };', variant='VPoint.length {p} - {i}')]),
  C('Region::Region', 'points', sig=['std::vector<Point> &'], name='region_new', uses=U + ' Meet T_Point',
    ens=[('outline is the point list', 'outline_ok {self}'), ('points as given', P+' = {points}'), ('no holes and no seeds', 'VHole.length {self}.region_holes = 0 /\\ VPoint.length {self}.region_seedPoints = 0'), ('not self-intersecting', 'not (self_intersecting '+P+' '+RV+')')],
    throws='exists v: VInt.t. trivial_idx v (VPoint.length {points}) /\\ self_intersecting {points} v'),
  C('Region::mutate', 'points', mod='self', uses=U + ' Meet T_Point',
    ens=[('outline is the point list', 'outline_ok {self}'), ('points as given', P+' = {points}'), ('holes and seeds stay', '{self}.region_holes = {old self}.region_holes /\\ {self}.region_seedPoints = {old self}.region_seedPoints'), ('not self-intersecting', 'not (self_intersecting '+P+' '+RV+')'), ('nothing cached', FRESH % (('region_b_polygon.',)*3))],
    throws='exists v: VInt.t. trivial_idx v (VPoint.length {points}) /\\ self_intersecting {points} v'),
  C('Region::Region', 'other points', sig=['const Polygon &', 'std::vector<Point> &'], name='region_from_polygon', uses=U + ' Meet', req=[('indices are valid', 'idx_ok {points} {other}.polygon_points')],
    ens=[('outline is the point list', 'outline_ok {self}'), ('the polygon\'s points in order', 'VPoint.length '+P+' = VInt.length {other}.polygon_points /\\ forall i: int. 0 <= i < VInt.length {other}.polygon_points -> VPoint.get '+P+' i = vtx {points} {other}.polygon_points i'), ('no holes and no seeds', 'VHole.length {self}.region_holes = 0 /\\ VPoint.length {self}.region_seedPoints = 0')],
    throws='true',
    loops=[L('i:counter', inv=['0 <= {i} <= VInt.length {other}.polygon_points', 'VPoint.length '+P+' = {i}', ('points so far', 'forall k: int. 0 <= k < {i} -> VPoint.get '+P+' k = vtx {points} {other}.polygon_points k')], variant='VInt.length {other}.polygon_points - {i}')]),
]
