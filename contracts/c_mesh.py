from ctl import C, L
ONE = 'VTok.snoc VTok.empty '
CONTRACTS = [
  C('utilities::getPath', '', uses='Text', trusted=True, note='environment variable HOME', ens=[('home folder', '{result} = home')]),
  C('utilities::toString', 'a', sig=['int'], name='tostring_int', uses='Out', ens=[('the number in full', '{result} = '+ONE+'(IntTok {a})')]),
  C('utilities::toString', 'a', sig=['double'], name='tostring_real', uses='Out', ens=[('the number', '{result} = '+ONE+'(RealTok {a} 6 false)')]),
  C('IndexSegment::getString', '', name='iseg_getstring', uses='Out', ens=[('both end points', '{result} = two_ints (s1 {self}) (s2 {self})')]),
  C('Polygon::getString', '', name='polygon_getstring', uses='Out', ens=[('vertex count and vertices', '{result} = poly_text {self}')],
    loops=[L('i:counter base:Str', inv=['0 <= {i} <= VInt.length {self}.polygon_points', ('vertices so far', '{base} = idx_text ('+ONE+'(IntTok (VInt.length {self}.polygon_points))) {self}.polygon_points {i}')])]),
]

EU = 'EU_IndexSegment_NeighboursBySegment'
for K, k, b in (('Polygon', 'polygon', ''), ('Triangle', 'triangle', '.triangle_b_polygon')):
    Q = 'Mesh<%s>::' % K; U = 'T_Polygon T_%s Out EdgesOut MeshOut_%s %s' % (K, K, EU)
    P = '{self}.mesh_%s_points.uniquelist_point_list' % k; E = '(%s.entries {self}.mesh_%s_edges.segmentmap_map)' % (EU, k); V = '{self}.mesh_%s_polygons' % k
    S0 = '{old infile}'; IX = '(index_of_points %s)' % S0
    REG = ('edges of the polygons so far', 'forall e: edge. (registered {self}.mesh_%s_edges e <-> VInt.length (edge_regs %s %s {startIndex} %%s e) > 0) /\\ neighbours (edge_regs %s %s {startIndex} %%s e) (nb1 {self}.mesh_%s_edges e) (nb2 {self}.mesh_%s_edges e)' % (k, S0, IX, S0, IX, k, k))
    PREG = ('vertices of the polygons so far', 'pm_ok {self}.mesh_%s_pointMap /\\ forall q: point. good_pt q -> nbrs {self}.mesh_%s_pointMap q = point_regs %s %s %s {startIndex} %%s q' % (k, k, S0, IX, P))
    def at(t, x): return (t[0], t[1].replace('%s', x))
    CONTRACTS += [
      C(Q + 'printInStream', 'file', name='mesh_%s_print' % k, mod='file', uses=U, ens=[('points, edges and polygons', '{file} = mesh_text {old file} {self}')],
        loops=[L('i:counter', inv=['0 <= {i} <= VPoint.length ' + P, ('points so far', '{file} = points_out (header {old file} (VPoint.length %s)) %s {i}' % (P, P))]),
               L('e:counter', inv=[('edges so far', '{file} = edges_out (header (pts_part {old file} {self}) (%s.length %s)) %s {e}' % (EU, E, E))]),
               L('i:counter', inv=['0 <= {i} <= V%s.length %s' % (K, V), ('polygons so far', '{file} = polys_out (header (edges_part (pts_part {old file} {self}) {self}) (V%s.length %s)) %s {i}' % (K, V, V))])]),
      C(Q + 'printInFile', 'fileName', name='mesh_%s_file' % k, uses=U + ' Cfg', ens=[('file in the home folder', '!disk_name = VTok.app home {fileName}'),
        ('mesh text at the configured precision', '!disk = (mesh_text { os_text = VTok.empty; os_prec = cfg.delynoiconfig_precision; os_fixed = true } {self}).os_text')]),
      C(Q + 'createFromStream', 'infile startIndex', name='mesh_%s_read' % k, mod='self infile', uses=U + ' Lines FilePts MeshFile UL_Point OrdPoint EMap PMap Poly PolyStruct T_UniqueList_Point',
        req=[('well-formed file', 'file_ok {infile} {startIndex}' + (' /\\ forall k: int. 0 <= k < n_polys {infile} -> VStr.length (poly_fields {infile} k) >= 4' if b else '')), ('empty mesh', 'ul_ok {self}.mesh_%s_points /\\ VPoint.length %s = 0 /\\ V%s.length %s = 0 /\\ pm_ok {self}.mesh_%s_pointMap /\\ M_Point_NeighboursByPoint.length {self}.mesh_%s_pointMap.pointmap_map = 0 /\\ (forall e: edge. not (registered {self}.mesh_%s_edges e))' % (k, P, K, V, k, k, k))],
        ens=[('points of the file, coinciding ones merged', 'ul_ok {self}.mesh_%s_points /\\ %s = merged (file_pts {old infile})' % (k, P)),
             ('one polygon per line', 'V%s.length %s = n_polys {old infile}' % (K, V)),
             ('vertices are the listed points', 'forall i: int. 0 <= i < n_polys {old infile} -> (V%s.get %s i)%s.polygon_points = file_poly {old infile} (index_of_points {old infile}) {startIndex} i' % (K, V, b)),
             ('edges of the polygons registered', 'forall e: edge. registered {self}.mesh_%s_edges e <-> VInt.length (edge_regs {old infile} (index_of_points {old infile}) {startIndex} (n_polys {old infile}) 0 e) > 0' % k),
             ('for the polygons that have them', 'forall e: edge. neighbours (edge_regs {old infile} (index_of_points {old infile}) {startIndex} (n_polys {old infile}) 0 e) (nb1 {self}.mesh_%s_edges e) (nb2 {self}.mesh_%s_edges e)' % (k, k)),
             ('vertices registered for the polygons that have them', 'forall q: point. good_pt q -> nbrs {self}.mesh_%s_pointMap q = point_regs {old infile} (index_of_points {old infile}) %s {startIndex} (n_polys {old infile}) 0 q' % (k, P)),
        ],
        loops=[
          L('i:counter line:Str pointIndexes:VInt', body_start='assert { VPoint.get (file_pts {old infile}) {i} = file_pt {old infile} (1 + {i}) }; assert { good_pt (file_pt {old infile} (1 + {i})) };', inv=['0 <= {i} <= n_pts {old infile}', '{infile} = skip {old infile} ({i} + 1)', ('positions so far', '{pointIndexes} = positions (file_pts {old infile}) {i}'), ('points so far', 'ul_ok {self}.mesh_%s_points /\\ %s = addall VPoint.empty (file_pts {old infile}) {i}' % (k, P)),
             '{self} = { {old self} with mesh_%s_points = {self}.mesh_%s_points }' % (k, k)]),
          L('i:counter line:Str pointIndexes:VInt', body_start='assert { let v = (file_poly {old infile} (index_of_points {old infile}) {startIndex} {i}) in idx_ok (merged (file_pts {old infile})) v /\\ let n = VStr.length (poly_fields {old infile} {i}) in VInt.length v = if n <= 1 then 0 else n - 1 };', inv=['0 <= {i} <= n_polys {old infile}', '{infile} = skip {old infile} (2 + n_pts {old infile} + {i})', '{pointIndexes} = '+IX, ('points stay', 'ul_ok {self}.mesh_%s_points /\\ %s = merged (file_pts {old infile})' % (k, P)), ('polygons so far', 'V%s.length %s = {i} /\\ forall k: int. 0 <= k < {i} -> (V%s.get %s k)%s.polygon_points = file_poly {old infile} (index_of_points {old infile}) {startIndex} k' % (K, V, K, V, b)), at(REG, '{i} 0'), at(PREG, '{i} 0')]),
          L('j:counter polygonPoints:VInt splittedLine:VStr', inv=['1 <= {j}', '{splittedLine} = poly_fields {old infile} {i}', '{j} <= VStr.length {splittedLine} \\/ {j} = 1', ('vertices so far', '{polygonPoints} = verts {splittedLine} '+IX+' {startIndex} {j}')]),
          L('s:counter segments:VIndexSegment', body_start='assert { ed (VIndexSegment.get {segments} {s}) = poly_edge (file_poly {old infile} (index_of_points {old infile}) {startIndex} {i}) {s} };', inv=['VIndexSegment.length {segments} = VInt.length (file_poly {old infile} (index_of_points {old infile}) {startIndex} {i})', at(REG, '{i} {s}')]),
          L('p:counter polygonPoints:VInt', inv=[at(PREG, '{i} {p}')]),
        ]),
    ]
