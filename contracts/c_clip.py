from ctl import C, L
U = 'Poly PolyStruct Inside Reg Clip'
P = '{self}.region_p'; OP = '{old self}.region_p'; V = '{self}.region_b_polygon.polygon_points'
HP = '{h}.hole_HolePoints'
D = '(left_of %s %s)' % (OP, HP)
I = '(shared %s %s)' % (OP, HP)
LEN = 'VVClipperLib_IntPoint.length '
CB = '{self}.clipperlib_clipper_b_clipperlib_clipperbase'
CONTRACTS = [
  C('ClipperLib::Clipper::Clipper', 'o', uses='Clip', trusted=True, note='clipping library', ens=[('no paths', CB + ' = { clip_subject = VVClipperLib_IntPoint.empty; clip_clip = VVClipperLib_IntPoint.empty }')]),
  C('ClipperLib::ClipperBase::AddPath', 'pg kind closed', mod='self', uses='Clip', trusted=True, note='clipping library',
    ens=[('path added', '{self} = if {kind} = 0 then { {old self} with clip_subject = VVClipperLib_IntPoint.snoc {old self}.clip_subject {pg} } else { {old self} with clip_clip = VVClipperLib_IntPoint.snoc {old self}.clip_clip {pg} }')]),
  C('ClipperLib::Clipper::Execute', 'op solution fs fc', sig=['ClipType', 'Paths &', 'PolyFillType', 'PolyFillType'], name='clipper_execute', mod='solution', uses='Clip', trusted=True, note='clipping library',
    ens=[('result of the operation', '{solution} = clip_op {op} '+CB+'.clip_subject '+CB+'.clip_clip {fs} {fc}')]),
  C('ClipperWrapper::scalePoint', 'point maxScale', uses='Clip', req=[('scaled coordinates within 64 bits', '-. 9223372036854775808.0 <=. rofi {maxScale} *. px {point} <. 9223372036854775808.0 /\\ -. 9223372036854775808.0 <=. rofi {maxScale} *. py {point} <. 9223372036854775808.0')],
    ens=[('on the grid', '{result}.clipperlib_intpoint_X = rtrunc (rofi {maxScale} *. px {point}) /\\ {result}.clipperlib_intpoint_Y = rtrunc (rofi {maxScale} *. py {point})')]),
  C('ClipperWrapper::polyIntersection', 'parent child maxScale', uses='Clip', req=[('scaled coordinates within 64 bits', 'fits_at {maxScale} {parent} /\\ fits_at {maxScale} {child}')],
    ens=[('what is left of the parent', '{result} = left_of_at {maxScale} {parent} {child}')],
    loops=[L('i:counter region:VClipperLib_IntPoint', inv=['0 <= {i} <= VPoint.length {parent}', ('parent on the grid so far', '{region} = grid {maxScale} {parent} {i}')]),
           L('i:counter hole:VClipperLib_IntPoint', inv=['0 <= {i} <= VPoint.length {child}', ('child on the grid so far', '{hole} = grid {maxScale} {child} {i}')])]),
  C('Region::addHole', 'h', mod='self', uses=U, req=[('outline is the point list', 'outline_ok {self}'), ('consecutive vertices differ', 'steps_apart '+P+' '+V), ('scaled coordinates within 64 bits', 'fits '+P+' /\\ fits '+HP)],
    ens=[('seeds stay', '{self}.region_seedPoints = {old self}.region_seedPoints'),
         ('the hole touches the domain', LEN + I + ' > 0'),
         ('an absorbed hole is not stored', LEN + D + ' = 1 -> {self}.region_holes = {old self}.region_holes'),
         ('the remaining piece becomes the outline', LEN + D + ' = 1 -> let q = VVClipperLib_IntPoint.get '+D+' 0 in off_grid '+P+' q (VClipperLib_IntPoint.length q) /\\ outline_ok {self}'),
         ('otherwise the outline stays', LEN + D + ' <> 1 -> '+P+' = '+OP+' /\\ {self}.region_b_polygon = {old self}.region_b_polygon'),
         ('and the hole is stored unchanged', LEN + D + ' <> 1 -> {self}.region_holes = VHole.snoc {old self}.region_holes {h}')],
    throws='({self} = {old self} /\\ (' + LEN + I + ' = 0 \\/ (not (outline_in {self} {h}.hole_center) /\\ not (all_in {self} '+HP+' (VPoint.length '+HP+'))))) \\/ (' + LEN + I + ' > 0 /\\ ' + LEN + D + ' = 1)',
    loops=[L('i:counter region:VClipperLib_IntPoint', inv=['0 <= {i} <= VPoint.length '+P, ('outline on the grid so far', '{region} = grid scale '+P+' {i}')]),
           L('i:counter hole:VClipperLib_IntPoint holePoints:VPoint', inv=['0 <= {i} <= VPoint.length {holePoints}', '{holePoints} = '+HP, ('hole on the grid so far', '{hole} = grid scale '+HP+' {i}')]),
           L('i:counter newPoints:VPoint solution:VVClipperLib_IntPoint', inv=['0 <= {i} <= VClipperLib_IntPoint.length (VVClipperLib_IntPoint.get {solution} 0)', ('piece back from the grid so far', 'off_grid {newPoints} (VVClipperLib_IntPoint.get {solution} 0) {i}')]),
           L('i:counter pointsInside:bool holePoints:VPoint', inv=['0 <= {i} <= VPoint.length {holePoints}', ('points inside so far', '{pointsInside} <-> all_in {self} {holePoints} {i}')])]),
]
