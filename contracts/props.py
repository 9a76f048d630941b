"""property id -> the functions whose contracts carry it"""
SEG = ['seg_%s_%s' % (t, n) for t in ('int', 'point') for n in ('contains', 'length', 'angle', 'intersects', 'inf')]
PROPS = {
 'C05': dict(roots=['Polygon::isClockwise', 'Polygon::fixCCW', 'Polygon::getArea']),
 'C10': dict(roots=SEG + ['iseg_isvertex', 'pseg_isvertex', 'PointSegment::contains', 'PointSegment::length', 'PointSegment::cartesianAngle', 'PointSegment::operator==',
   'IndexSegment::operator==', 'IndexSegment::operator<', 'iseg_new', 'IndexSegment::add', 'iseg_contains_point', 'iseg_contains_seg', 'IndexSegment::isContained',
   'IndexSegment::middlePoint', 'IndexSegment::length', 'IndexSegment::cartesianAngle', 'IndexSegment::isCCW', 'IndexSegment::orderCCW', 'iseg_inter_pseg', 'iseg_inter_iseg',
   'Point::operator==', 'Point::operator<', 'Point::operator-', 'delynoi_utilities::orientation', 'delynoi_utilities::norm', 'geometry_functions::area2',
   'geometry_functions::triangleArea', 'collinear3', 'collinear_segments'],
   lemmas=['MeetPoint'], assumptions=['an IEEE quotient by zero is an infinity or not a number (modelled); rounding of quotients is not']),
  'C04': dict(roots=['Polygon::getArea', 'Polygon::signedArea', 'Polygon::getCentroid', 'Polygon::calculateCentroid', 'Polygon::getAverage', 'Polygon::getMaxDistance', 'geometry_functions::area', 'area_points', 'geometry_functions::triangleArea']),
  'C06': dict(roots=['Polygon::containsPoint', 'Polygon::containerEdge', 'Polygon::inEdges', 'Hole::containsPoint', 'Region::containsPoint', 'Region::inEdges', 'Point::operator==', 'iseg_contains_point', 'seg_int_contains', 'polygon_getsegments', 'Hole::getSegments']),
  'C24': dict(roots=['Polygon::getSegments', 'polygon_getpoints_pts', 'Polygon::isVertex', 'indexof_int', 'Polygon::containsEdge', 'Polygon::isConvex', 'Polygon::isSelfIntersecting', 'Polygon::calculateHash', 'polygon_new', 'polygon_new_points', 'polygon_copy', 'Polygon::mutate', 'Polygon::operator==', 'delynoi_utilities::TrivialIndexVector'], lemmas=['PolyHash']),
 'C11': dict(roots=['box_new', 'BoundingBox::getWidth', 'BoundingBox::getHeight', 'BoundingBox::xMin', 'BoundingBox::xMax', 'BoundingBox::yMin', 'BoundingBox::yMax', 'BoundingBox::contains', 'BoundingBox::operator==', 'BoundingBox::getSegments', 'Region::getBox'],
   assumptions=['outline coordinates within +-2^63 (initial values of the running extremes)']),
  'C12': dict(roots=['circle_new', 'utilities::radian', 'Circle::discretizeCircle', 'delynoi_utilities::generateArcPoints', 'circularhole_new', 'polygonalhole_new', 'Hole::getSegments', 'Hole::getPoints', 'Hole::getCenter', 'hole_new', 'hole_copy'], assumptions=['cosine and sine are uninterpreted functions of the angle']),
  'C13': dict(roots=['Region::getRegionPoints', 'Region::getSegments', 'Hole::getSegments', 'Hole::getPoints', 'hole_new', 'hole_copy', 'IndexSegment::add', 'Polygon::getSegments']),
 'C01': dict(roots=['ul_%s_%s' % (t, f) for t in ('point', 'int', 'real') for f in ('new', 'copy', 'push_back', 'pop_front', 'size', 'indexof', 'contains', 'clear', 'delete', 'push_vec', 'push_ul')] + ['indexof_int', 'indexof_point', 'Point::operator<', 'Point::operator=='], lemmas=['OMap', 'OrdPoint'],
    assumptions=['points stored in one list coincide up to the tolerance or not, transitively in each coordinate (otherwise Point::operator< is no strict weak order and std::map is undefined)', 'std::map with the comparators ilt, rlt, plt is the sorted entry sequence of spec/maps.mlw']),
  'C02': dict(roots=['segmentmap_new', 'segmentmap_insert', 'segmentmap_insert_nbs', 'segmentmap_get', 'segmentmap_contains', 'segmentmap_size', 'nbs_new', 'nbs_new_one', 'nbs_new_two', 'nbs_new_pair', 'nbs_setneighbour', 'nbs_setfirst', 'nbs_setsecond', 'nbs_getfirst', 'nbs_getsecond', 'nbs_eq', 'nbs_hasher',
    'edgedata_new', 'edgedata_settriangle', 'edgedata_eq', 'key_new', 'key_eq', 'key_hasher', 'segment_hasher', 'iseg_copy', 'iseg_new', 'IndexSegment::operator==', 'IndexSegment::orderCCW'], lemmas=['EMap'],
    assumptions=['std::unordered_map finds an element by hash and equality; its keys are identified with undirected edges because equality and hash are proved to be so', 'utilities::hash32 is a function of its argument']),
  'C03': dict(roots=['pointmap_new', 'pointmap_insert', 'pointmap_insert_list', 'pointmap_get', 'pointmap_size', 'nbp_add', 'nbp_insert', 'nbp_new', 'nbp_new_one', 'nbp_new_list', 'Point::operator<', 'Point::operator=='], lemmas=['OMap', 'OrdPoint'],
    assumptions=['points stored in one table coincide up to the tolerance or not, transitively in each coordinate', 'std::map is the sorted entry sequence of spec/maps.mlw']),
 'C08': dict(roots=['pointgenerator_two', 'pointgenerator_one', 'PointGenerator::result', 'PointGenerator::generate', 'box_new', 'BoundingBox::getWidth', 'BoundingBox::getHeight', 'BoundingBox::xMin', 'BoundingBox::xMax', 'BoundingBox::yMin', 'BoundingBox::yMax'], lemmas=['Grid', 'GridSpan'],
   assumptions=['a rule is a state machine: apply yields a value and a next state (random draws are part of the state)', 'the two rules of a generator are distinct objects']),
 'C09': dict(roots=[c + s for c in ('constant', 'uniform', 'sine', 'cosine', 'displacedelta', 'constantalternating', 'random_double', 'random_integer', 'randomdoublenoise', 'randomintegernoise') for s in ('_apply', '_new') if c + s != 'constant_new']
   + ['functions_' + f for f in ('constant', 'uniform', 'sine', 'cosine', 'displace_points', 'constantalternating', 'random_double', 'random_integer')] + ['noise_random_double_noise', 'noise_random_integer_noise', 'utilities::radian'] + ['ul_real_%s' % f for f in ('new', 'push_back', 'size', 'clear', 'indexof')], lemmas=['RulesRows'],
   assumptions=['a virtual call of Functor::apply runs the method of the dynamic class (module RulesRows)', 'std distributions draw within their range', 'sine and cosine are uninterpreted functions of the angle', 'random_integer is asked for a range that contains an integer, within int']),
 'C07': dict(roots=['Region::clean', 'Region::addSeedPoints', 'Region::addSeedsFromFile', 'Region::generateSeedPoints', 'region_copy', 'Region::cleanSeedPoints', 'Region::getSeedPoints', 'Region::getBox', 'Polygon::containsPoint', 'Hole::containsPoint', 'PointGenerator::generate', 'polygon_copy'],
   assumptions=['outline coordinates within +-2^63', 'a seed file holds at least two fields on every announced line (otherwise the code reads out of bounds)', 'utilities::openFile and utilities::splitBySpaces (regular expressions) are trusted']),
 'C14': dict(roots=['Region::addHole', 'Region::mutate', 'Polygon::mutate', 'Polygon::containsPoint', 'ClipperWrapper::scalePoint', 'ClipperWrapper::polyIntersection', 'hole_copy', 'Hole::getPoints', 'Hole::getCenter'],
   assumptions=['the bundled clipping library computes intersection and difference of grid paths (Clipper constructor, AddPath and Execute are trusted, as are its range exceptions)', 'scaled coordinates within 64 bits']),
 'C15': dict(roots=['del_calltriangle', 'del_call_plain', 'del_new', 'ul_point_push_vec', 'ul_point_indexof', 'Region::getRegionPoints', 'Region::getSegments', 'Hole::getCenter'], lemmas=['TriIO', 'DelIn', 'DelEnds', 'DelStep', 'DelLoop', 'DelTri'],
   assumptions=['malloc succeeds and free releases', 'the triangulation library (triangulate) reads its input as announced and returns a valid triangulation in arrays of the announced sizes (trusted contract); end points of constraints occur among the points; points well separated']),
 'C16': dict(roots=['del_calltriangle', 'del_mesh_triangle', 'del_info', 'delaunayinfo_new', 'check_triangle', 'mesh_triangle_new', 'mesh_triangle_neighbours', 'mesh_triangle_polygon', 'mesh_triangle_segments', 'mesh_triangle_pointmap', 'mesh_triangle_point', 'edgedata_new', 'edgedata_settriangle', 'segmentmap_insert_nbs', 'segmentmap_get', 'pointmap_insert', 'triangle_new', 'triangle_new_ul'], lemmas=['TriIO', 'DelStep', 'DelLoop', 'DelTri', 'DelMesh'],
   assumptions=['the triangulation library returns a valid triangulation: distinct well separated points, every edge once, every side of a triangle among the edges, no edge in more than two triangles, no degenerate triangle (trusted contract)']),
 'C23': dict(roots=['del_calltriangle', 'del_call_plain', 'del_conforming', 'del_constrained', 'del_constrained_seg', 'del_info', 'del_mesh_triangle', 'mesh_triangle_new', 'mesh_triangle_copy', 'delaunayinfo_new'], lemmas=['TriIO', 'DelStep', 'DelLoop', 'DelTri', 'DelMesh'],
   assumptions=['the triangulation library decides the kind of triangulation by its switches (trusted contract)', 'a mesh returned shares its edge table with the generator and with its copies: that later requests leave it alone is shown by each request starting a table of its own before writing']),
 'C19': dict(roots=['Triangle::calculateCircumcenter', 'triangle_none', 'triangle_new', 'triangle_new_vec', 'triangle_new_ul', 'Triangle::getCircumcenter', 'Triangle::getCircumcenterIndex', 'Triangle::isNull', 'Triangle::thirdPoint', 'Triangle::nextEdge', 'edgedata_new', 'key_new', 'key_eq', 'key_hasher', 'polygon_new'], lemmas=['Circum'],
   assumptions=['a quotient by zero (degenerate triangle) has an unspecified value', 'std::unordered_map finds an element by hash and equality']),
 'C22': dict(roots=['tostring_int', 'tostring_real', 'iseg_getstring', 'polygon_getstring', 'mesh_polygon_print', 'mesh_polygon_file', 'mesh_polygon_read', 'mesh_triangle_print', 'mesh_triangle_file', 'mesh_triangle_read', 'triangle_new', 'polygon_new', 'pointmap_insert', 'segmentmap_insert', 'ul_point_push_back', 'Polygon::getSegments'], lemmas=['FilePts', 'MeshFile'],
   assumptions=['a file is a sequence of lines; the text is a sequence of tokens (characters, integers, reals with precision and notation); how the C++ library spells a number is not modelled', 'utilities::splitBySpaces (regular expressions), utilities::openFile and utilities::getPath are trusted', 'iterating an unordered_map visits every entry once', 'a mesh owns its edge and point tables']),
 'C20': dict(roots=['eartriangulationgenerator_getear', 'eartriangulationgenerator_triangulate', 'centertriangulationgenerator_triangulate', 'Polygon::isConvex', 'Polygon::getAverage', 'Polygon::isClockwise', 'Polygon::containsPoint', 'Polygon::isVertex', 'triangle_new', 'triangle_none', 'Triangle::isNull', 'polygon_new', 'polygon_copy'], lemmas=['Ear', 'EarArea', 'Fan'],
   assumptions=['any two vertices of the polygon differ by more than the tolerance']),
}
NA = {
 'C25': 'coverage and the empty-circle condition are decided inside the bundled Triangle library (16 000 lines of pointer-tagged C with adaptive floating-point predicates); contracts for it are out of reach of the available verifiers, and no contract on Delynoi code implies it',
}
