from ctl import C, L
R = '{self}'; B = '{self}.region_b_polygon'; V = '{self}.region_b_polygon.polygon_points'; P = '{self}.region_p'
HP = '{self}.hole_HolePoints'; HS = '{self}.hole_segments'
NH = 'VHole.length {self}.region_holes'
U = 'Poly PolyStruct Inside Reg'
CONTRACTS = [
  C('geometry_functions::area', 'points', sig=['std::vector<Point> &'], name='area_points', uses='Poly PolyList',
    ens=[('fan area is half the shoelace sum', '{result} = 0.5 *. shoep {points} (VPoint.length {points})')],
    loops=[L('i:counter area:real', inv=['0 <= {i} <= VPoint.length {points}', '{i} = 0 -> {area} = 0.0',
       ('partial fan area', 'VPoint.length {points} > 0 -> {area} = 0.5 *. (shoep {points} {i} +. xprod (VPoint.get {points} (if {i} = VPoint.length {points} then 0 else {i})) (VPoint.get {points} 0))')],
       variant='VPoint.length {points} - {i}')]),
  C('Hole::Hole', 'points center seg', sig=['std::vector<Point>', 'Point', 'std::vector<IndexSegment>'], name='hole_new', uses=U,
    ens=[('as given', '{self}.hole_HolePoints = {points} /\\ {self}.hole_center = {center} /\\ {self}.hole_segments = {seg}')]),
  C('Hole::Hole', 'other', sig=['const Hole &'], name='hole_copy', uses=U, ens=[('a copy', '{self}.hole_HolePoints = {other}.hole_HolePoints /\\ {self}.hole_center = {other}.hole_center /\\ {self}.hole_segments = {other}.hole_segments')]),
  C('Hole::getPoints', '', uses=U, ens=[('the outline points', '{result} = {self}.hole_HolePoints')]),
  C('Hole::getCenter', '', uses=U, ens=[('the centre', '{result} = {self}.hole_center')]),
  C('Hole::getSegments', 's offset', mod='s', uses=U,
    ens=[('one edge per hole edge', 'VIndexSegment.length {s} = VIndexSegment.length {old s} + VIndexSegment.length '+HS),
         ('edges already listed are kept', 'forall i: int. 0 <= i < VIndexSegment.length {old s} -> VIndexSegment.get {s} i = VIndexSegment.get {old s} i'),
         ('hole edges shifted, in order', 'forall i: int. VIndexSegment.length {old s} <= i < VIndexSegment.length {s} -> VIndexSegment.get {s} i = shifted (VIndexSegment.get '+HS+' (i - VIndexSegment.length {old s})) {offset}')],
    loops=[L('i:counter', inv=['VIndexSegment.length {s} = VIndexSegment.length {old s} + {i}',
       'forall k: int. 0 <= k < VIndexSegment.length {old s} -> VIndexSegment.get {s} k = VIndexSegment.get {old s} k',
       ('hole edges shifted, in order', 'forall k: int. VIndexSegment.length {old s} <= k < VIndexSegment.length {s} -> VIndexSegment.get {s} k = shifted (VIndexSegment.get '+HS+' (k - VIndexSegment.length {old s})) {offset}')])]),
  C('Hole::containsPoint', 'point', uses=U, req=[('edges refer to hole points', 'segs_ok {self}'), ('consecutive points differ', 'stepsp_apart '+HP)],
    ens=[('even-odd rule plus the boundary', '{result} <-> hole_in {self} {point}')],
    loops=[L('i:counter j:int oddNodes:bool', inv=['0 <= {i} <= VPoint.length '+HP, 'VPoint.length '+HP+' > 0 -> {j} = prev (VPoint.length '+HP+') {i}', ('parity of the crossings so far', '{oddNodes} <-> oddp '+HP+' {point} {i}')],
             body_start='oddp_step '+HP+' {point} {i};', variant='VPoint.length '+HP+' - {i}'),
           L('i:counter container:IndexSegment segments:VIndexSegment', inv=['0 <= {i} <= VIndexSegment.length '+HS,
              ('the hole edges', 'VIndexSegment.length {segments} = VIndexSegment.length '+HS+' /\\ forall k: int. 0 <= k < VIndexSegment.length '+HS+' -> s1 (VIndexSegment.get {segments} k) = s1 (VIndexSegment.get '+HS+' k) /\\ s2 (VIndexSegment.get {segments} k) = s2 (VIndexSegment.get '+HS+' k)'),
              ('an edge found contains the point', '(exists k: int. 0 <= k < {i} /\\ hole_edge {self} {point} k /\\ s1 {container} >= 0 /\\ s2 {container} >= 0) \\/ ((forall k: int. 0 <= k < {i} -> not (hole_edge {self} {point} k)) /\\ s1 {container} = -1 /\\ s2 {container} = -1)')],
             variant='VIndexSegment.length '+HS+' - {i}')]),
  C('Region::containsPoint', 'p', uses=U, req=[('outline is the point list', 'outline_ok {self}'), ('consecutive vertices differ', 'steps_apart '+P+' '+V)],
    ens=[('even-odd rule plus the boundary', '{result} <-> outline_in {self} {p}')]),
  C('Region::inEdges', 'p', uses=U, req=[('outline is the point list', 'outline_ok {self}')],
    ens=[('some edge contains the point', '{result} <-> on_outline '+P+' '+V+' {p}')]),
  C('Region::clean', '', mod='self', uses=U, req=[('well-formed region', 'region_ok {self}')],
    ens=[('exactly the seeds inside the outline and outside the holes are kept, in order', '{self} = { {old self} with region_seedPoints = kept {old self} {old self}.region_seedPoints (VPoint.length {old self}.region_seedPoints) }')],
    loops=[L('i:counter toKeep:VInt', inv=['0 <= {i} <= VPoint.length {self}.region_seedPoints', 'kept {self} {self}.region_seedPoints 0 = VPoint.empty',
             ('positions of the kept seeds so far', 'VInt.length {toKeep} = VPoint.length (kept {self} {self}.region_seedPoints {i}) /\\ forall k: int. 0 <= k < VInt.length {toKeep} -> 0 <= VInt.get {toKeep} k < VPoint.length {self}.region_seedPoints /\\ VPoint.get {self}.region_seedPoints (VInt.get {toKeep} k) = VPoint.get (kept {self} {self}.region_seedPoints {i}) k')],
             before='kept_step {self} {self}.region_seedPoints 0;', body_start='kept_step {self} {self}.region_seedPoints {i};', variant='VPoint.length {self}.region_seedPoints - {i}'),
           L('h:counter keep:bool i:int', inv=[('in no hole so far', '{keep} <-> not (in_hole {self} (VPoint.get {self}.region_seedPoints {i}) {h})')], body_start='in_hole_step {self} (VPoint.get {self}.region_seedPoints {i}) {h};'),
           L('i:counter newSeeds:VPoint toKeep:VInt', inv=['0 <= {i} <= VInt.length {toKeep}', 'VPoint.length {newSeeds} = {i}',
             ('kept seeds in order', 'forall k: int. 0 <= k < {i} -> VPoint.get {newSeeds} k = VPoint.get {self}.region_seedPoints (VInt.get {toKeep} k)')],
             after='assert { VPoint.eqs {newSeeds} (kept {self} {self}.region_seedPoints (VPoint.length {self}.region_seedPoints)) };', variant='VInt.length {toKeep} - {i}')]),
  C('Region::addSeedPoints', 'seeds', mod='self', uses=U, req=[('well-formed region', 'region_ok {self}')],
    ens=[('held and offered points filtered, in order', 'let all = VPoint.app {old self}.region_seedPoints {seeds} in {self} = { {old self} with region_seedPoints = kept { {old self} with region_seedPoints = all } all (VPoint.length all) }')]),
  C('Region::cleanSeedPoints', '', mod='self', ens=[('no seeds left', '{self} = { {old self} with region_seedPoints = VPoint.empty }')], uses='Reg'),
  C('Region::cleanInternalHoles', '', mod='self', ens=[('no holes left', '{self} = { {old self} with region_holes = VHole.empty }')], uses='Reg'),
  C('Region::getSeedPoints', '', ens=[('the seeds', '{result} = {self}.region_seedPoints')], uses='Reg'),
  C('Region::Region', 'other', sig=['const Region &'], name='region_copy', uses=U,
    ens=[('same outline', '{self}.region_p = {other}.region_p /\\ {self}.region_b_polygon.polygon_points = {other}.region_b_polygon.polygon_points'), ('same holes', '{self}.region_holes = {other}.region_holes'), ('same seeds', '{self}.region_seedPoints = {other}.region_seedPoints')]),
  C('Region::getRegionPoints', '', uses=U,
    ens=[('the points of the region', '{result} = region_pts {self}'), ('outline and hole points', 'VPoint.length {result} = pt_off {self} ('+NH+')'), ('outline points first, in order', 'forall i: int. 0 <= i < VPoint.length '+P+' -> VPoint.get {result} i = VPoint.get '+P+' i'),
         ('points of every hole in order', 'forall k i: int. 0 <= k < '+NH+' -> 0 <= i < VPoint.length (VHole.get {self}.region_holes k).hole_HolePoints -> VPoint.get {result} (pt_off {self} k + i) = VPoint.get (VHole.get {self}.region_holes k).hole_HolePoints i')],
    loops=[L('i:counter points:VPoint', inv=['0 <= {i} <= '+NH, '{points} = region_upto {self} {i}', 'VPoint.length {points} = pt_off {self} {i}', 'forall j: int. 0 <= j < VPoint.length '+P+' -> VPoint.get {points} j = VPoint.get '+P+' j',
       'VPoint.length '+P+' <= pt_off {self} {i}', 'forall k: int. 0 <= k < {i} -> 0 <= pt_off {self} k /\\ pt_off {self} k + VPoint.length (VHole.get {self}.region_holes k).hole_HolePoints <= pt_off {self} {i}',
       ('points of the holes so far', 'forall k j: int. 0 <= k < {i} -> 0 <= j < VPoint.length (VHole.get {self}.region_holes k).hole_HolePoints -> VPoint.get {points} (pt_off {self} k + j) = VPoint.get (VHole.get {self}.region_holes k).hole_HolePoints j')],
       variant=NH+' - {i}')]),
  C('Region::getSegments', 's', mod='s', uses=U,
    ens=[('outline and hole edges', 'VIndexSegment.length {s} = VIndexSegment.length {old s} + seg_off {self} ('+NH+')'),
         ('edges already listed are kept', 'forall i: int. 0 <= i < VIndexSegment.length {old s} -> VIndexSegment.get {s} i = VIndexSegment.get {old s} i'),
         ('closed outline', 'forall i: int. 0 <= i < VInt.length '+V+' -> VIndexSegment.get {s} (VIndexSegment.length {old s} + i) = edge_at '+V+' i'),
         ('edges of every hole shifted to its points', 'forall k i: int. 0 <= k < '+NH+' -> 0 <= i < VIndexSegment.length (VHole.get {self}.region_holes k).hole_segments -> VIndexSegment.get {s} (VIndexSegment.length {old s} + seg_off {self} k + i) = shifted (VIndexSegment.get (VHole.get {self}.region_holes k).hole_segments i) (pt_off {self} k)')],
    loops=[L('h:counter offset:int', inv=['{offset} = pt_off {self} {h}', 'VIndexSegment.length {s} = VIndexSegment.length {old s} + seg_off {self} {h}',
       'forall i: int. 0 <= i < VIndexSegment.length {old s} -> VIndexSegment.get {s} i = VIndexSegment.get {old s} i',
       'forall i: int. 0 <= i < VInt.length '+V+' -> VIndexSegment.get {s} (VIndexSegment.length {old s} + i) = edge_at '+V+' i',
       'VInt.length '+V+' <= seg_off {self} {h}', 'forall k: int. 0 <= k < {h} -> 0 <= seg_off {self} k /\\ seg_off {self} k + VIndexSegment.length (VHole.get {self}.region_holes k).hole_segments <= seg_off {self} {h}',
       ('edges of the holes so far', 'forall k i: int. 0 <= k < {h} -> 0 <= i < VIndexSegment.length (VHole.get {self}.region_holes k).hole_segments -> VIndexSegment.get {s} (VIndexSegment.length {old s} + seg_off {self} k + i) = shifted (VIndexSegment.get (VHole.get {self}.region_holes k).hole_segments i) (pt_off {self} k)')])]),
]
