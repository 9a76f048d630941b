from ctl import C, L
P = 'polygon_points'
N = 'VInt.length {self}.polygon_points'
IDX = ('indices are valid', 'idx_ok {p} {self}.polygon_points')
CONTRACTS = [
  C('geometry_functions::area', 'points index', sig=['std::vector<Point> &', 'std::vector<int>'], uses='Poly', req=['idx_ok {points} {index}'],
    ens=[('fan area is half the shoelace sum', '{result} = 0.5 *. shoelace {points} {index}')],
    loops=[L('i:counter area:real', inv=['0 <= {i} <= VInt.length {index}',
       '{i} = 0 -> {area} = 0.0',
       ('partial fan area', 'VInt.length {index} > 0 -> {area} = 0.5 *. (shoe {points} {index} {i} +. xprod (vtx {points} {index} (if {i} = VInt.length {index} then 0 else {i})) (vtx {points} {index} 0))')],
       variant='VInt.length {index} - {i}')]),
  C('Polygon::signedArea', 'p', uses='Poly', req=[IDX],
    ens=[('signed area is half the shoelace sum', '{result} = 0.5 *. shoelace {p} {self}.polygon_points')],
    loops=[L('i:counter area:real', inv=['0 <= {i} <= '+N, ('partial shoelace sum', '{area} = shoe {p} {self}.polygon_points {i}')], variant=N+' - {i}')]),
  C('Polygon::calculateCentroid', 'p', uses='Poly', req=[IDX, ('non-degenerate', 'shoelace {p} {self}.polygon_points <> 0.0')],
    ens=[('centroid x', 'px {result} *. (3.0 *. shoelace {p} {self}.polygon_points) = cxsum {p} {self}.polygon_points ('+N+')'),
         ('a valid point', 'not {result}.point_isEmpty /\\ not {result}.point_isBoundaryPoint'),
         ('centroid y', 'py {result} *. (3.0 *. shoelace {p} {self}.polygon_points) = cysum {p} {self}.polygon_points ('+N+')')],
    loops=[L('i:counter partial_x:real partial_y:real', inv=['0 <= {i} <= '+N,
       ('partial sum', '{partial_x} = cxsum {p} {self}.polygon_points {i}'), ('partial sum y', '{partial_y} = cysum {p} {self}.polygon_points {i}')], variant=N+' - {i}')]),
  C('Polygon::isClockwise', 'p', uses='Poly', req=[IDX, N+' >= 1'],
    ens=[('clockwise means negative signed area', '{result} <-> shoelace {p} {self}.polygon_points <. 0.0')],
    loops=[L('i:counter sum:real', inv=['0 <= {i} <= '+N+' - 1',
       ('partial trapezoid sum', '{sum} = -. shoe {p} {self}.polygon_points {i} +. px (vtx {p} {self}.polygon_points {i}) *. py (vtx {p} {self}.polygon_points {i}) -. xprod (vtx {p} {self}.polygon_points ('+N+' - 1)) (vtx {p} {self}.polygon_points 0) -. px (vtx {p} {self}.polygon_points ('+N+' - 1)) *. py (vtx {p} {self}.polygon_points ('+N+' - 1))')],
       variant=N+' - {i}')]),
  C('Polygon::fixCCW', 'p', mod='self', uses='Poly PolyRev', req=[IDX, N+' >= 1'],
    ens=[('orientation is counter-clockwise afterwards', 'shoelace {p} {self}.polygon_points >=. 0.0'),
         ('vertices kept', '{self}.polygon_points = {old self}.polygon_points \\/ {self}.polygon_points = VInt.rev {old self}.polygon_points'),
         ('counter-clockwise polygons untouched', 'shoelace {p} {old self}.polygon_points >=. 0.0 -> {self} = {old self}'),
         ('cached area stays current', '({old self}.polygon_area = -. 1.0 \\/ {old self}.polygon_area = 0.5 *. shoelace {p} {old self}.polygon_points) -> {self}.polygon_area = -. 1.0 \\/ {self}.polygon_area = 0.5 *. shoelace {p} {self}.polygon_points'),
    ]),
]
