from ctl import C, L
U = 'Poly PolyStruct Inside Reg'
P = '{self}.region_p'
SEED = '{self}.region_seedPoints'
def filtered(all): return '{self} = { {old self} with region_seedPoints = kept { {old self} with region_seedPoints = %s } (%s) (VPoint.length (%s)) }' % (all, all, all)
HEAD = 'file_stream {fileName}'
COUNT = 'tok_atoi (line (file_stream {fileName}) 0)'
CONTRACTS = [
  C('utilities::splitBySpaces', 's', uses='Text Lines', trusted=True, note='regular expressions; splits a line at white space', ens=[('the fields', '{result} = fields {s}')]),
  C('utilities::openFile', 'fileName', uses='Text', trusted=True, note='opens the named file or throws', ens=[('the file', '{result} = file_stream {fileName}')]),
  C('Region::generateSeedPoints', 'p nX nY', mod='self', uses=U + ' Rule Box Grid Seed', req=[('well-formed region', 'region_ok {self}'), ('valid axis', 'gen_ok {p}'), ('has points', 'VPoint.length '+P+' >= 1'), ('coordinates in range', 'coords_ok '+P)],
    ens=[('held points and the grid over the bounding box filtered, in order', 'exists box: boundingbox, all: VPoint.t. tight box '+P+' /\\ gridded all {old self}.region_seedPoints {old p} box {nX} {nY} /\\ ' + filtered('all'))]),
  C('Region::addSeedsFromFile', 'fileName', mod='self', uses=U + ' Text Lines FilePts', req=[('well-formed region', 'region_ok {self}'), ('well-formed file', 'pts_ok (%s) 1 (%s)' % (HEAD, COUNT))],
    ens=[('held points and the points of the file filtered, in order', 'let all = with_pts {old self}.region_seedPoints (%s) 1 (%s) in ' % (HEAD, COUNT) + filtered('all'))],
    loops=[L('i:counter infile:Istream line:Str', inv=['0 <= {i}', '{infile} = skip (%s) ({i} + 1)' % HEAD, ('points of the file so far', '{self} = { {old self} with region_seedPoints = with_pts {old self}.region_seedPoints (%s) 1 {i} }' % HEAD), '{numberMeshPoints} = '+COUNT, '{i} <= {numberMeshPoints} \\/ {numberMeshPoints} < 0 /\\ {i} = 0'], variant='{numberMeshPoints} - {i}')]),
]
