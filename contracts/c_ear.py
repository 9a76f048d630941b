from ctl import C, L
U = 'Poly PolyStruct Inside Tri T_Polygon T_Triangle VTriangle Ear EarArea'
N = 'VInt.length {pointList}'
PP = '{p}.polygon_points'
CONTRACTS = [
  C('EarTriangulationGenerator::getEar', 'points pointList', mod='pointList', uses=U,
    req=[('indices are valid', 'idx_ok {points} {pointList}'), ('vertices are apart', 'all_apart {points} {pointList}')], throws='false',
    ens=[('either an ear is cut off or nothing', 'if VInt.length (tvs {result}) = 0 then {pointList} = {old pointList} else cut_off {points} {old pointList} (tvs {result}) {pointList}'),
         ('nothing only when there is no ear', 'VInt.length (tvs {result}) = 0 -> stuck {points} {pointList}'),
         ('three corners', 'VInt.length (tvs {result}) = 0 \\/ VInt.length (tvs {result}) = 3'),
         ('only vertices of the polygon', 'uses_only {old pointList} (tvs {result}) /\\ uses_only {old pointList} {pointList}'),
         ('one vertex less', 'VInt.length (tvs {result}) = 3 -> VInt.length {old pointList} >= 3 /\\ VInt.length {pointList} = if VInt.length {old pointList} = 3 then 0 else VInt.length {old pointList} - 1'),
         ('signed areas add up', 'VInt.length (tvs {result}) = 3 -> shoelace {points} {old pointList} = shoelace {points} (tvs {result}) +. shoelace {points} {pointList}'),
         ('still valid', 'idx_ok {points} {pointList} /\\ all_apart {points} {pointList}')],
    loops=[L('i:counter', inv=['0 <= {i} <= '+N, '4 <= '+N, '{pointList} = {old pointList}', ('no ear so far', 'no_ear_below {points} {pointList} {i}')], variant=N+' - {i}', before='no_ear_start {points} {pointList};'),
           L('j:counter test:bool t:Triangle', inv=['0 <= {j} <= '+N, ('no other vertex so far', '{test} <-> not no_other {points} {pointList} (tvs {t}) {j}')], variant=N+' - {j}', before='assert { VInt.length (tvs {t}) = 3 }; assert { VInt.get (tvs {t}) 1 = VInt.get {pointList} {i} }; assert { VInt.get (tvs {t}) 0 = VInt.get {pointList} (prev ('+N+') {i}) }; assert { VInt.get (tvs {t}) 2 = VInt.get {pointList} (nxt ('+N+') {i}) }; corner_apart {points} {pointList} {i} (tvs {t}); shoe_cut {points} {pointList} {i} (tvs {t}); apart_erase {points} {pointList} {i};',
          after='if not {test} then ear_cut {points} {pointList} {i} (tvs {t}) else no_ear_more {points} {pointList} {i} (tvs {t});')]),
  C('EarTriangulationGenerator::triangulate', 'p points', uses=U, throws='false',
    req=[('indices are valid', 'idx_ok {points} '+PP), ('vertices are apart', 'all_apart {points} '+PP)],
    ens=[('ears cut off one after the other', 'exists r: VInt.t. cuts {points} '+PP+' {result} r /\\ stuck {points} r /\\ area_sum {points} {result} (VTriangle.length {result}) +. shoelace {points} r = shoelace {points} '+PP),
         ('only vertices of the polygon', 'forall k: int. 0 <= k < VTriangle.length {result} -> VInt.length (tvs (VTriangle.get {result} k)) = 3 /\\ uses_only '+PP+' (tvs (VTriangle.get {result} k))'),
         ('at most n - 2 triangles', '3 <= VInt.length '+PP+' -> VTriangle.length {result} <= VInt.length '+PP+' - 2'),
         ('n - 2 triangles make up the polygon', '3 <= VInt.length '+PP+' -> VTriangle.length {result} = VInt.length '+PP+' - 2 -> area_sum {points} {result} (VTriangle.length {result}) = shoelace {points} '+PP)],
    loops=[L('pointList:VInt triangles:VTriangle', inv=[('indices are valid', 'idx_ok {points} {pointList} /\\ all_apart {points} {pointList}'),
       ('cut off one after the other', 'cuts {points} '+PP+' {triangles} {pointList}'),
       ('areas add up so far', 'area_sum {points} {triangles} (VTriangle.length {triangles}) +. shoelace {points} {pointList} = shoelace {points} '+PP),
       ('only vertices of the polygon', 'uses_only '+PP+' {pointList} /\\ all_use '+PP+' {triangles}'),
       ('one vertex per triangle', 'if VInt.length {pointList} = 0 then VTriangle.length {triangles} = VInt.length '+PP+' - 2 \\/ VInt.length '+PP+' = 0 else VInt.length {pointList} + VTriangle.length {triangles} = VInt.length '+PP+' /\\ (VTriangle.length {triangles} = 0 \\/ 3 <= VInt.length {pointList})')],
       variant='VInt.length {pointList}', body_start='let ghost w0 = {pointList} in let ghost ts0 = {triangles} in ',
      body_end='let t0 = VTriangle.get {triangles} (VTriangle.length ts0) in assert { {triangles} = VTriangle.snoc ts0 t0 }; assert { VInt.length (tvs t0) = 3 }; assert { uses_only w0 (tvs t0) }; assert { uses_only w0 {pointList} }; assert { cut_off {points} w0 (tvs t0) {pointList} }; more_cut {points} '+PP+' w0 {pointList} ts0 t0; uses_trans '+PP+' w0 (tvs t0); uses_trans '+PP+' w0 {pointList}; all_use_more '+PP+' ts0 t0;')]),
  C('CenterTriangulationGenerator::triangulate', 'p points', mod='points', uses=U + ' Fan',
    req=[('indices are valid', 'idx_ok {points} '+PP), ('at least three vertices', '3 <= VInt.length '+PP)], throws='not (convex {points} '+PP+') /\\ {points} = {old points}',
    ens=[('only convex polygons', 'convex {old points} '+PP),
         ('the average is appended', 'exists c: point. {points} = VPoint.snoc {old points} c /\\ px c *. rofi (VInt.length '+PP+') = sumx {old points} '+PP+' (VInt.length '+PP+') /\\ py c *. rofi (VInt.length '+PP+') = sumy {old points} '+PP+' (VInt.length '+PP+')'),
         ('one triangle per edge', 'VTriangle.length {result} = VInt.length '+PP+' /\\ forall k: int. 0 <= k < VInt.length '+PP+' -> fan_piece '+PP+' (VPoint.length {old points}) k (tvs (VTriangle.get {result} k))'),
         ('areas add up', 'area_sum {points} {result} (VTriangle.length {result}) = shoelace {old points} '+PP)],
    loops=[L('i:counter triangles:VTriangle', inv=['0 <= {i} <= VInt.length '+PP, ('one triangle per edge so far', 'VTriangle.length {triangles} = {i} /\\ forall k: int. 0 <= k < {i} -> fan_piece '+PP+' (VPoint.length {old points}) k (tvs (VTriangle.get {triangles} k))')],
       variant='VInt.length '+PP+' - {i}', after='fan_area {points} '+PP+' (VPoint.length {points} - 1) {triangles} (VInt.length '+PP+'); shoe_more (VPoint.sub {points} 0 (VPoint.length {points} - 1)) {points} '+PP+' (VInt.length '+PP+');')]),
]
