from ctl import C, L
CONTRACTS = [
  C('Point::operator-', 'other', ens=[('difference', '{result}.point_x = px {self} -. px {other} /\\ {result}.point_y = py {self} -. py {other}')]),
  C('Point::squareNorm', '', ens=[('squared norm', '{result} = px {self} *. px {self} +. py {self} *. py {self}')]),
  C('delynoi_utilities::orientation', 'p q r', ens=[('orientation is the doubled triangle area', '{result} = cross3 {p} {q} {r}')]),
  C('delynoi_utilities::norm', 'p', ens=[('norm', '{result} = rsqrt (px {p} *. px {p} +. py {p} *. py {p})')]),
  C('geometry_functions::area2', 'p1 p2 p3', ens=[('doubled triangle area', '{result} = cross3 {p1} {p2} {p3}')]),
  C('geometry_functions::triangleArea', 'p1 p2 origin', ens=[('triangle area', '{result} = 0.5 *. cross3 {p1} {p2} {origin}')]),
  C('geometry_functions::collinear', 'p1 p2 p3', sig=['Point'] * 3, name='collinear3', ens=[('collinear up to the tolerance', '{result} <-> collinear {p1} {p2} {p3}')]),
  C('geometry_functions::collinear', 'seg1 seg2', sig=['PointSegment'] * 2, name='collinear_segments', ens=[('segments collinear up to the tolerance', '{result} <-> collinear (a1 {seg1}) (a2 {seg1}) (a1 {seg2}) /\\ collinear (a1 {seg1}) (a2 {seg1}) (a2 {seg2})')]),
]
for T in ('int', 'Point'):
  S = 'Segment<%s>::' % T
  n = 'seg_%s_' % T.lower()
  CONTRACTS += [
    C(S + 'contains', 'point p1 p2', name=n + 'contains',
      start='assert { px {p1} *. (py {p2} -. py {point}) +. px {p2} *. (py {point} -. py {p1}) +. px {point} *. (py {p1} -. py {p2}) = cross3 {p1} {p2} {point} };', ens=[
        ('inside the horizontal range', '{result} -> between_tol (px {point}) (px {p1}) (px {p2})'),
        ('inside the vertical range', '{result} -> between_tol (py {point}) (py {p1}) (py {p2})'),
        ('on the line', '{result} -> collinear {p1} {p2} {point}'),
        ('every point on the segment is recognised', 'between_tol (px {point}) (px {p1}) (px {p2}) -> between_tol (py {point}) (py {p1}) (py {p2}) -> collinear {p1} {p2} {point} -> {result}')]),
    C(S + 'length', 'p1 p2', name=n + 'length', ens=[('euclidean length', '{result} = rsqrt (sqdist {p1} {p2})')]),
    C(S + 'cartesianAngle', 'p1 p2', name=n + 'angle',
      ens=[('direction angle in degrees', '{result} *. rpi = 180.0 *. fullturn (ratan2 (py {p2} -. py {p1}) (px {p2} -. px {p1}))'),
           ('angle from 0 up to 360', '0.0 <=. {result} <. 360.0')]),
    C(S + 'intersects', 'p1 p2 o1 o2 inter', name=n + 'intersects', mod='inter', uses='Meet', ieee=True,
      ens=[('meeting point lies on both segments', '{result} <-> seg_meet {p1} {p2} {o1} {o2}'),
           ('meeting point reported', '{result} -> {inter} = { {old inter} with point_x = meet_x {p1} {p2} {o1} {o2}; point_y = meet_y {p1} {p2} {o1} {o2} }'),
           ('no point reported without intersection', 'not {result} -> {inter} = {old inter}')]),
    C(S + 'intersectionInfinite', 'p1 p2 o1 o2 inter', name=n + 'inf', mod='inter', uses='Meet', ieee=True,
      ens=[('meeting point lies on the first segment', '{result} <-> first_meet {p1} {p2} {o1} {o2}'),
           ('meeting point reported', '{result} -> {inter} = { {old inter} with point_x = meet_x {p1} {p2} {o1} {o2}; point_y = meet_y {p1} {p2} {o1} {o2} }'),
           ('no point reported without intersection', 'not {result} -> {inter} = {old inter}')]),
  ]
CONTRACTS += [
  C('Segment<int>::isVertex', 'p', name='iseg_isvertex', ens=[('end point test', '{result} <-> {p} = {self}.segment_int_p1 \\/ {p} = {self}.segment_int_p2')]),
  C('Segment<Point>::isVertex', 'p', name='pseg_isvertex', ens=[('end point test', '{result} <-> peq {self}.segment_point_p1 {p} \\/ peq {self}.segment_point_p2 {p}')]),
  C('PointSegment::contains', 'point', ens=[('on the segment', '{result} <-> on_seg {point} (a1 {self}) (a2 {self})')]),
  C('PointSegment::length', '', ens=[('euclidean length', '{result} = rsqrt (sqdist (a1 {self}) (a2 {self}))')]),
  C('PointSegment::cartesianAngle', '', ens=[('direction angle in degrees', '{result} *. rpi = 180.0 *. fullturn (ratan2 (py (a2 {self}) -. py (a1 {self})) (px (a2 {self}) -. px (a1 {self})))'),
      ('angle from 0 up to 360', '0.0 <=. {result} <. 360.0')]),
  C('PointSegment::operator==', 'other', ens=[('equality ignores direction', '{result} <-> pseg_eq {self} {other}')]),
  C('IndexSegment::operator==', 'other', ens=[('equality ignores direction', '{result} <-> seg_eq {self} {other}')]),
  C('IndexSegment::operator<', 'other', ens=[('lexicographic order', '{result} <-> (s1 {self} < s1 {other} \\/ s1 {self} = s1 {other} /\\ s2 {self} < s2 {other})')]),
  C('IndexSegment::IndexSegment', 'i1 i2', sig=['int', 'int'], name='iseg_new', ens=[('end points and hash', '{result} = mkseg {i1} {i2}')]),
  C('IndexSegment::IndexSegment', 'other', sig=['const IndexSegment &'], name='iseg_copy', ens=[('copy with its own hash', '{result} = mkseg (s1 {other}) (s2 {other})')]),
  C('IndexSegment::add', 'o', ens=[('shifted segment', '{result} = mkseg (s1 {self} + {o}) (s2 {self} + {o})')]),
]
I = ('indices are valid', '0 <= s1 {self} < VPoint.length {p} /\\ 0 <= s2 {self} < VPoint.length {p}')
I2 = ('indices are valid', '0 <= s1 {self} < VPoint.length {points} /\\ 0 <= s2 {self} < VPoint.length {points}')
A = '(VPoint.get {p} (s1 {self}))'; B = '(VPoint.get {p} (s2 {self}))'
A2 = A.replace('{p}', '{points}'); B2 = B.replace('{p}', '{points}')
CONTRACTS += [
  C('IndexSegment::contains', 'p point', sig=['std::vector<Point> &', 'Point'], name='iseg_contains_point', uses='Poly', req=[I], ens=[('on the segment', '{result} <-> on_seg {point} %s %s' % (A, B))]),
  C('IndexSegment::contains', 'p s', sig=['std::vector<Point> &', 'IndexSegment'], name='iseg_contains_seg', uses='Poly',
    req=[I, ('indices are valid', '0 <= s1 {s} < VPoint.length {p} /\\ 0 <= s2 {s} < VPoint.length {p}')],
    ens=[('both end points on the segment', '{result} <-> on_seg (VPoint.get {p} (s1 {s})) %s %s /\\ on_seg (VPoint.get {p} (s2 {s})) %s %s' % (A, B, A, B))]),
  C('IndexSegment::isContained', 's p', uses='Poly', req=[I], ens=[('both end points on the other segment', '{result} <-> on_seg %s (a1 {s}) (a2 {s}) /\\ on_seg %s (a1 {s}) (a2 {s})' % (A, B))]),
  C('IndexSegment::middlePoint', 'p', uses='Poly', req=[I], ens=[('middle', 'px {result} = 0.5 *. (px %s +. px %s) /\\ py {result} = 0.5 *. (py %s +. py %s)' % (A, B, A, B)),
     ('a proper interior point value', 'not {result}.point_isBoundaryPoint /\\ not {result}.point_isEmpty')]),
  C('IndexSegment::length', 'points', uses='Poly', req=[I2], ens=[('euclidean length', '{result} = rsqrt (sqdist %s %s)' % (A2, B2))]),
  C('IndexSegment::cartesianAngle', 'p', uses='Poly', req=[I], ens=[('direction angle in degrees', '{result} *. rpi = 180.0 *. fullturn (ratan2 (py %s -. py %s) (px %s -. px %s))' % (B, A, B, A)),
      ('angle from 0 up to 360', '0.0 <=. {result} <. 360.0')]),
  C('IndexSegment::isCCW', 'points center', uses='Poly', req=[I2], ens=[('left-of test', '{result} <-> cross3 %s %s {center} >. 0.0' % (A2, B2))]),
  C('IndexSegment::orderCCW', 'points center', mod='self', uses='Poly', req=[I2],
    ens=[('same edge', 'seg_eq {self} {old self} /\\ {self}.indexsegment_hash = {old self}.indexsegment_hash'),
         ('kept when the centre is to the left', 'cross3 %s %s {center} >. 0.0 -> {self} = {old self}' % (A2.replace('{self}', '{old self}'), B2.replace('{self}', '{old self}'))),
         ('the centre is never to the right afterwards', 'cross3 %s %s {center} >=. 0.0' % (A2, B2))]),
  C('IndexSegment::intersection', 'points other inter', sig=['std::vector<Point> &', 'PointSegment', 'Point &'], name='iseg_inter_pseg', uses='Poly Meet', mod='inter',
    req=[I2],
    ens=[('segments meet', '{result} <-> seg_meet %s %s (a1 {other}) (a2 {other})' % (A2, B2)),
         ('meeting point reported', '{result} -> px {inter} = meet_x %s %s (a1 {other}) (a2 {other}) /\\ py {inter} = meet_y %s %s (a1 {other}) (a2 {other})' % (A2, B2, A2, B2))]),
  C('IndexSegment::intersection', 'points other inter', sig=['std::vector<Point> &', 'IndexSegment', 'Point &'], name='iseg_inter_iseg', uses='Poly Meet', mod='inter',
    req=[I2, ('indices are valid', '0 <= s1 {other} < VPoint.length {points} /\\ 0 <= s2 {other} < VPoint.length {points}')],
    ens=[('segments meet', '{result} <-> seg_meet %s %s (VPoint.get {points} (s1 {other})) (VPoint.get {points} (s2 {other}))' % (A2, B2)),
         ('meeting point reported', '{result} -> px {inter} = meet_x %s %s (VPoint.get {points} (s1 {other})) (VPoint.get {points} (s2 {other})) /\\ py {inter} = meet_y %s %s (VPoint.get {points} (s1 {other})) (VPoint.get {points} (s2 {other}))' % (A2, B2, A2, B2))]),
]
