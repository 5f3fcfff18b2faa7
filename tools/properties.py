FEW = 'The tests sample a handful of hand-picked inputs; the statement is over all of them.'
SEGDOM = ('all pairs of segments of non-zero length with coordinates that are multiples of a decimal unit (0.01 to 100), '
          'absolute value up to about 1000 (150000 for the larger units), in all quadrants, sharing end points or not')
prop('C01', 'Common part of two segments is exact',
     'The common part reported for two segments of non-zero length is nothing, one point or one segment, and it is exactly the set of points lying on both. '
     'The overlap of parallel segments agrees with it and is nothing for segments that are not parallel, and the intersection of the two lines is their one common point, or nothing for parallel lines. '
     'The answers do not depend on the order or the direction of the segments.',
     ['inputs', 'histories'], SEGDOM + '; also after moves, mirrorings, reversals and replaced end points', FEW,
     [L], [('case distinction by collinearity and line intersection', L + ': common_part, common_part_type, overlap, intersection_point')],
     'return values of the segment operations')
prop('C02', 'Directional relations and measures of segments',
     'Two segments are parallel, collinear, oppositely directed, touching, continuous, equal (in or regardless of direction) or crossing in a point that is not a shared end point exactly if their exact coordinates say so, and every pair of non-parallel segments is reported as intersecting. '
     'Vector, unit vector, length, direction angle (from 0 to below 360 degrees), bounding box, scalar and cross product and the angle between two segments have their exact values, and equal segments have equal hashes. '
     'Whether the intersection of the lines of two segments coincides with one of the end points is reported exactly, too; the cross product of segments with a common start is refused for others.',
     ['inputs', 'histories'], SEGDOM, FEW, [L],
     [('relations by products of the vectors with a tolerance', L + ': is_parallel, is_collinear, opposite_direction, touch, continuous, intersection_on_segment, intersection_on_endpoint'),
      ('measures', L + ': norm, direction, unitvector, bounding_box, crossproduct, dotproduct, angle_between_lines')],
     'return values of the segment operations')
prop('C03', 'Position of a point relative to a segment',
     'For every segment and point exactly one of left, right and on the line holds, and it is the one the exact coordinates give; on the line and in the box spanned by the end points together mean that the point is on the segment. '
     'The distance of the point from the line and the angle it is seen at from the start of the segment have their exact values.',
     ['inputs', 'histories'], SEGDOM + '; points anywhere on the same lattice, including the end points and points on the line beyond them', FEW, [L],
     [('sides by cross product', L + ': is_point_on_line, is_point_to_left, is_point_to_right, is_internal_point, line_point_distance, angle_from_start_point')],
     'return values of the segment operations')
prop('C04', 'Dividing a segment',
     'Dividing a segment into n parts gives n segments of equal length that run from its start to its end one after the other. '
     'The point at a given ratio is at that ratio of the length from the start, and inserting a point that is on the line splits the segment in two at that point if it is on the segment and is refused if it is beyond the ends.',
     ['inputs', 'histories'], SEGDOM + '; n from 1 to 12, ratios k/d from 0 to 1', FEW, [L],
     [('subdivision', L + ': divide_line, point_on_line_at_ratio, add_point_on_line')], 'returned segments and points')
prop('C05', 'Points: equality, arithmetic and validity',
     'Two points are equal exactly if both coordinates differ by less than the tolerance of 0.00001, wherever they are in the plane, unequal otherwise, and points with the same coordinates have the same hash. '
     'Distance, sum, difference and bounding box have their exact values, and what is printed for a point or a segment builds it again. '
     'A point is valid exactly while it has coordinates, and a segment exactly while both its end points are valid, whatever the history of setting and emptying them; two segments are equal exactly if both are valid and their starts and their ends are equal.',
     ['inputs', 'histories'], 'points with coordinates up to about 500 in steps of a tenth of the tolerance (differences of exactly the tolerance left open), or in steps of 0.0001 to 10; histories of setting and emptying (also one coordinate only) up to 4 points shared by segments',
     'The tests compare a few hand-picked points once; validity is asked for before and after changes only in a history.', [PT, L],
     [('comparison with a tolerance', PT + ': __eq__, __ne__, __hash__'), ('validity and change of coordinates', PT + ': isvalid, _set_coords, _empty; ' + L + ': isvalid')],
     'return values and coordinates after every operation', [('coordinates', 'tuple or None')])
prop('C06', 'Moving, mirroring and reversing segments with shared end points',
     'Moving or mirroring a segment maps both its end points by exactly the given displacement or reflection, reversing swaps them, and segments sharing an end point with it stay attached to it, whatever the history of such operations. '
     'Measures asked afterwards are those of the new position, and no query changes a segment.',
     ['histories'], 'all histories of move, mirror, reverse, changes of an end point and re-attachment on 2 to 7 segments with shared end points, interleaved with queries',
     'The tests transform a segment once; staleness and sharing show only over histories.', [L, PT],
     [('end point objects are shared and changed in place', L + ': move, mirror_vertical, reverse, _set_endpoints')], 'coordinates of all segments after every operation',
     [('end points', 'point objects, possibly shared by segments')])
POLYDOM = 'polylines of up to about 10 segments (coordinates as for segments), joints being one point object or coincident ones'
prop('C07', 'Transforming polylines is rigid and keeps them together',
     'Moving, mirroring and turning a polyline maps every segment end by exactly the given rigid motion, once, whether joints are one point or coincident points, whatever was done to it before. '
     'A corner of a polyline that was transformed moves as one afterwards, and points, bounding box and middle point are always those of the current segments.',
     ['histories'], POLYDOM + '; histories of moves, mirrorings, rotations by multiples of 90 degrees and by angles with rational sine, purging, reversals, appended points, closing and moved corners',
     'The tests apply one or two transformations to a few fixed lines.', [G],
     [('purging: coincident points are replaced by one object before every transformation', G + ': purge, move, mirror_vertical, rotate_about_origin, rotate_about_xy')],
     'coordinates of all segments after every operation', [('purged', 'whether coincident points are known to be one object')])
prop('C08', 'Building and joining polylines',
     'Appending a point at the end or at the beginning adds exactly the segment from or to the present end, closing an open continuous line adds exactly the one segment back to its start and leaves a closed one as it is, and a closed copy leaves the original alone. '
     'Joining valid polylines gives their segments one after the other with a connecting segment exactly where the next one does not start where the last one ended, leaves the operands unchanged and is refused if the result is not a valid line or all of them are closed. '
     'First and last point and segment, open and closed, interruptions, neighbours of a point and segments at a point always follow the current segments.',
     ['histories', 'inputs'], POLYDOM + '; histories of appending, prepending, closing, moving, reversing', 'The tests join and extend a few fixed lines.', [G],
     [('segment list edits', G + ': append_point_at_end, append_point_at_beginning, close, closed_copy, add'),
      ('look-up', G + ': neighbour, find_segment_by_point, next_segment, discontinuity')], 'segments after every operation, returned lines and points')
prop('C09', 'Ordering a set of segments into a polygon',
     'Ordering the segments of a single closed ring, given in any sequence and with any directions, succeeds and leaves the same segments as a continuous closed polygon that starts at the point nearest to the origin and runs in the direction of the segment that was first. '
     'Ordering an open line is refused, and it neither adds nor drops segments.',
     ['inputs', 'histories'], POLYDOM + ', in every permutation and with every subset of segments reversed', 'Few fixed permutations are tested out of n! * 2^n.', [G],
     [('greedy walk reversing segments, then rotation to the first point', G + ': order')], 'segments after ordering')
prop('C10', 'Validity of polylines',
     'A polyline of segments of non-zero length is reported valid exactly if it has a segment, no point of it is emptied, each segment is joined to the one before, and no two segments that are not parallel and share no end point have a point in common. '
     'The crossing pairs are exactly those, and continuity and closedness follow from the current coordinates, also after points were moved. '
     'A polyline is a triangle exactly if it is a closed one of three segments between three points that are not on a line.',
     ['inputs', 'histories'], POLYDOM + ', crossing themselves or not, with branches and interruptions', 'The tests contain a few valid and invalid lines.', [G],
     [('pairwise crossing test', G + ': isvalid, crossing_lines, intersecting_lines, iscontinuous, isclosed, is_triangle')], 'returned values')
prop('C11', 'Convexity and orientation of simple polygons',
     'A simple closed polygon is reported convex exactly if it never turns both left and right, straight-on vertices included, and clockwise exactly if its enclosed area is on its right hand side. '
     'It is counter-clockwise exactly if not clockwise.',
     ['inputs', 'histories'], 'simple polygons with 3 to about 20 vertices, concave ones and ones with collinear vertices included, in all quadrants, also after transformations and moved corners', FEW, [G],
     [('signs of cross products of consecutive segments, signed area', G + ': isconvex, iscw, isccw, cps')], 'returned values')
prop('C12', 'Inside, boundary and outside of polygons',
     'A point is reported inside a simple closed polygon exactly if it is in its open interior and outside otherwise, and on the boundary of a polyline exactly if it is on one of its segments. '
     'The answers do not depend on chance although random rays are used, nor on where the polygon lies in the plane.',
     ['inputs', 'schedules'], 'simple polygons as above; points of the lattice around them, vertices and points on the sides included; all draws of the random rays', 'A few points of a few polygons in the first quadrant are tested, with one draw of the rays.', [G],
     [('parity of crossings of random rays', G + ': is_internal_point, is_external_point, is_on_boundary')], 'returned values')
prop('C13', 'Area and triangulation of polygons',
     'The area reported for a simple closed polygon is its exact area, also after it was moved, turned or a corner was moved. '
     'A triangulation of it consists of triangles of positive area with corners at vertices of the polygon that lie in it, do not overlap and cover it completely; this holds for ear clipping as well whenever that reports success, which it does for convex polygons without straight-on points.',
     ['inputs', 'histories'], 'simple polygons with 3 to about 20 vertices, concave, with collinear vertices, in all quadrants', 'The tests triangulate a few fixed polygons and compare counts or areas.', [G],
     [('constrained triangulation filtered by inside tests', G + ': triangle_mesh, triangulate, ear_clipping'), ('area kept as long as the segments are the same', G + ': area')],
     'area and triangles', [('kept area', 'area together with the segments it belongs to')])
prop('C27', 'Removing dangling and collinear parts',
     'Removing outliers drops exactly the segments that can be reached by removing segments with a free end again and again, keeping the rest in sequence, and simplifying a line does this together with the sample points belonging to the dropped segments. '
     'Removing collinear points of a simple polygon gives the polygon of its true corners, and the straight-on points and the corners next to these are told. '
     'Walking connected segments returns the closed polygon of all of them exactly if they are one ring without branches, and nothing otherwise.',
     ['inputs'], 'up to about 12 segments in any sequence and direction, rings, branches, open ends', 'A few fixed cases are tested.', [G],
     [('degree counting', G + ': remove_outlier_segments, simplify'), ('walk', G + ': walk_segments'), ('collinearity', G + ': remove_collinear_points, collinear_points')],
     'returned segments')
prop('C31', 'Comparing polylines',
     'Two polylines are equal exactly if they have equal segments in the same sequence, and then their hashes are equal, too; what is printed for one builds an equal one. '
     'They are loosely equal exactly if they have the same segments in any sequence, directions being disregarded or regarded as asked for, and one is a loose subset of the other exactly if all its points are points of that one.',
     ['inputs', 'histories'], POLYDOM + ' without duplicated segments; compared with permuted, reversed, shortened, extended and shifted ones', 'A few fixed pairs are tested.', [G],
     [('comparison', G + ': __eq__, __hash__, loose_equal, loose_subset')], 'returned values')
TRIDOM = 'triangles of positive area, listed in any sequence and direction of their sides, on a lattice as for segments; sharing corners, sides, pieces of sides, one inside the other, identical, apart'
prop('C14', 'Relative position and measures of triangles and polygons',
     'Two triangles overlap exactly if their interiors have a common point, one encloses the other exactly if all corners of that one are strictly inside, they touch exactly if their sides have exactly one common piece of positive length, and they are disjunct exactly if neither interiors nor sides share more than single points. '
     'Overlap, congruence, touching and disjunctness do not depend on the order, and polygons are disjunct exactly if their interiors are, whatever was asked of or done to them before. '
     'Only three points that are not on a line are accepted; area, inner angles and quality are exact, also after the triangles were moved, mirrored, turned or a corner was moved, and the relations told of two triangles are those that hold.',
     ['inputs', 'histories'], TRIDOM + '; polygons with up to 7 vertices', 'A few pairs in general position are tested.', [G],
     [('separating sides', G + ': Triangle.overlap'), ('corners and common parts', G + ': Triangle.enclosed, congruent, touch, disjunct, tell_relpos; PolygonLine.disjunct'),
      ('Heron, angles', G + ': Triangle.area, angles, quality')], 'returned values')
prop('C15', 'Convex hull',
     'The convex hull of a set of points that are not all on one line is the closed, valid, counter-clockwise polygon whose vertices are exactly the extreme points of the set, each once, starting with the lexicographically smallest one. '
     'Repeated points, the sequence of the points and points on the sides of the hull make no difference.',
     ['inputs'], 'up to 30 points on a lattice as for segments, with repetitions and collinear runs', 'The tests contain two or three sets.', [G],
     [('monotone chain', G + ': convex_hull')], 'segments of the returned polygon')
prop('C29', 'Builders of lines, squares, arcs and rotations',
     'A line built from nodes visits them in the given sequence, or the first one and then the others backwards if clockwise is asked for. '
     'A square has the given side and the middle of its bottom side where asked for, an arc has the given number of equal steps from the start to the end angle on the circle and is closed exactly if it is a full circle, and a rotation matrix has the cosine and sine of the angle in their places. '
     'The segments made from a set of distinct points on a line run through them from one end to the other.',
     ['inputs'], 'up to 8 nodes; sides, centres and radii on a lattice; arcs between whole degrees in whole degree steps, counter-clockwise; angles from -720 to 720 degrees',
     'Single squares and arcs are tested.', [G], [('builders', G + ': polygon_from_nodes, square, arc, rotationsmatrix, segments_from_pointset')], 'segments of the returned polylines')
prop('C32', 'Intersection of a line and a sphere',
     'The points reported for a line through two points and a sphere are all the points of the line on the sphere: none if the line misses it, one if it is a tangent, otherwise two with the one further along the line first.',
     ['inputs'], 'integer points with coordinates up to 20 and radii up to 13, tangents included', 'There are no tests.', ['geometry/additional_stuff.py'],
     [('quadratic equation', 'geometry/additional_stuff.py: sphere_line_intersection')], 'returned points')
VESDOM = ('vessels in decimal units (heights of heads in the graph 0.1) and in millimetres, anywhere in the plane: stacks of cylinders and cones with heads and bottoms, skirts, '
          'double walls, vessels in each other, beside each other and beside necks, jackets and rings ended by parts that end a room, knuckles; parts in any sequence; '
          'shells higher than the heads in the graph, walls meeting in end points only (RaumEnde excepted), up to about 14 edges (18 with knuckles)')
prop('C16', 'Parts have the walls their dimensions say',
     'A shell, skirt, head, bottom or room end made from its dimensions, directly or from a dictionary, has exactly the walls and non-walls these give at its position, on the axis and level asked for, and a graph of two walls with a peak of a tenth (a thousandth of the diameter if that is more) for heads. '
     'Klopper and Korbbogen heads are symmetric chains of 16 walls on crown and knuckle radius of their kind, upwards or downwards as asked for. '
     'A shell is valid while it is not cut and other parts always are, and the characteristic size is the smaller radius; a flat bottom has '
     ' exactly those points inside that are on it and not its ends.',
     ['inputs', 'histories'], 'dimensions as for vessels, axes on both sides of the origin, positive and negative levels; also after cuts and after the part was built into a vessel', FEW, [H],
     [('segments from the dimensions', H + ': make_segments, graphrepr_segments, from_dict, isvalid, characteristic_size'), ('arcs', G + ': arc')], 'segments, graph and attributes of the parts')
prop('C17', 'Sample points lie on the side they claim',
     'Every wall of a part has sample points on both of its sides: those of shells and heads marked as internal lie on the side of the axis of the part and beside that wall, those marked as external on the other side. '
     'The points of flat bottoms are indifferent, with some on each side and near to the bottom, and parts that end a room have none. '
     'This holds again after every cut of the part.',
     ['inputs', 'histories'], VESDOM + '; parts of their own, cut repeatedly', 'The tests count points of a few parts.', [H, PG],
     [('points at the walls', H + ': intex_points'), ('assignment to walls of the graph', PG + ': add_intex_points, renew')], 'sample points of the graphs of the parts')
prop('C18', 'Cutting a part at a level',
     'Cutting a part at a level divides exactly the walls crossing that level in two at the crossing and leaves everything else as it was, and tells if there was anything to cut. '
     'Levels at the ends of or beyond a shell, and cuts of heads, change nothing; cutting repeatedly, at the same or other levels, adds up.',
     ['inputs', 'histories'], 'cylinders, cones and skirts anywhere, up to 6 cuts at levels where the crossing is on the lattice', 'The tests cut a few parts once or twice.', [H],
     [('cut by a horizontal line', H + ': Hauptteil.split')], 'segments and graphs of the parts, the returned value')
prop('C19', 'Ends of rooms cut the shells they cross',
     'When a vessel is put together every part that ends a room divides the walls of the shells it crosses at its level and keeps as walls only what is outside of the shell. '
     'Parts it only touches or does not reach stay as they are, and so does itself if it crosses nothing, whatever the sequence of the parts is.',
     ['inputs', 'histories'], 'jackets with one, rings with two room ends, around cylinders and cones that may have been cut before, perhaps inside of another vessel; room ends crossing one shell on both sides or none',
     'Two or three vessels are tested in one sequence.', [H],
     [('mutual cutting', H + ': Behalter.cut_by_raumende, Hauptteil.split')], 'segments and graphs of all parts after building')
prop('C20', 'Rooms are the bounded faces of the walls',
     'The rooms of a vessel are exactly the bounded regions its walls divide the plane into, each once, loose ends disregarded, numbered R1, R2 and so on until they are given another name, which changes that of no other room. '
     'They do not depend on the sequence in which the parts are given, on the directions of walls or on chance, and building another vessel of the same parts gives the same rooms.',
     ['inputs', 'histories'], VESDOM, 'Each vessel of the tests is built once in one sequence.', [PG, H, G],
     [('search for loops', PG + ': find_loops; ' + G + ': walk_segments, remove_outlier_segments'), ('choice of the smallest ones', PG + ': keep_base_polygons'), ('rooms', H + ': raum_erstellen')],
     'cycles of the graph, rooms and their names')
prop('C21', 'Walls of rooms',
     'The outer walls of a room are exactly the parts that have a wall on its boundary, each once, and its inner walls are exactly the parts of what stands directly in it that can be seen from it. '
     'The whole of its walls is these two together, and the graph of the room has exactly the walls of these parts in the graph, the polygon of the room the walls themselves. '
     'If the walls of the parts end at the room, the cycle of the vessel is exactly its closed outline.',
     ['inputs', 'histories'], VESDOM, 'Wall lists of a few vessels are tested.', [H, PG],
     [('parts of the cycles', PG + ': segments_in_cycles'), ('outer and inner walls', H + ': raum_erstellen, Raum; ' + PG + ': PolygonGroup.cycles')], 'wall lists of the rooms')
prop('C22', 'Which rooms a part has inside and outside',
     'For every part a room is reported as inner one exactly if the room is on the inner side of one of its walls, and as outer one exactly if it is on the outer side of one. '
     'For flat bottoms adjoining rooms are neither but indifferent, and no other room is ever reported.',
     ['inputs', 'histories'], VESDOM + '; rooms outside of sharp knuckles above a skirt left open', 'The tests contain some twenty vessels.', [H, PG],
     [('sample points tested in the boundary of the rooms', H + ': Behalter.raum_intex; ' + G + ': is_internal_point')], 'the dictionary returned for the vessel')
prop('C23', 'Relations of rooms',
     'A room contains another one exactly if all of that one is strictly inside of its boundary. '
     'Two rooms share exactly the parts that have walls on the boundaries of both, each pair being listed once if there is any, by objects and by names, and each room is made up by the parts with walls on its boundary.',
     ['inputs', 'histories'], VESDOM, 'Few of the vessels of the tests are asked for relations.', [PG],
     [('relations of cycles', PG + ': contained_cycles, overlaps_in_cycles, overlaps_in_cycles_named, segments_in_cycles, all_overlapping_segments')], 'dictionaries of relations')
prop('C24', 'Groups of polylines as graphs',
     'The points of a group of polylines are numbered from zero without gaps, each once, however many polylines meet there, and two points are adjacent exactly if a segment connects them; the sorted list of edges has the numbers of the ends of every segment, and the degree of a point is the number of its segments. '
     'Polylines are found from points exactly if one of their segments has both its ends among these, and the group is valid exactly if it has no loose ends, at least three simple points, an even number of branches of three segments and none of more, and valid polylines only. '
     'The segments of the group are those of its polylines in sequence, and parts of a vessel are found by name.',
     ['inputs', 'histories'], '1 to 4 polylines of up to 6 segments, rings, chains and partitions, also with common segments, after moving or mirroring some of them; graphs of vessels', 'A few groups are tested once.', [PG],
     [('graph', PG + ': representative_graph, points_numbered, as_adjacency_list, as_edgelist, node_degree, segments_from_points, isvalid, all_segments')], 'returned values')
prop('C25', 'Knuckles between a cone and a cylinder',
     'A knuckle of radius r is the arc of that radius tangential to the cylinder above and the cone below, in equal steps and on both sides symmetrically, extended up and down to the given lengths if these reach beyond the arc; with no radius it is the corner with the given lengths on both sides. '
     'The cylinder and the cone end where the knuckle begins, and a shell that carries on below ends at the upper end of the arc, or the corner.',
     ['inputs', 'histories'], 'cones with sides in Pythagorean proportion so that tangent points are on the lattice, lengths from shorter than the arc to nearly the parts, with and without a shell or skirt below', 'Few knuckles are tested and the parts around them are not.', [H],
     [('arc and modification of the parts', H + ': KegelKrempe.make_segments')], 'segments and graphs of the knuckle and of the parts')
prop('C28', 'Checking room dictionaries and parameter dictionaries',
     'The comparison of two dictionaries of rooms by part succeeds exactly if there is exactly one renaming of the rooms that makes them equal. '
     'Making a part from a dictionary with a key missing or with an unknown one is refused.',
     ['inputs'], 'up to 5 parts and 4 rooms, dictionaries with the same rooms that differ by a renaming or by a few entries; every kind of part, every missing key', 'The checker is itself part of the tests, and never tested on what must fail.', [H],
     [('all permutations', H + ': raum_dict_checker'), ('check of the keys', H + ': from_dict')], 'returned value or exception')
prop('C30', 'Queries of vessels change nothing and can be repeated',
     'Asking a vessel for its rooms, walls, relations and inner and outer rooms changes none of its parts, and asking again gives the same answers; parts built into a vessel keep their shape and stay valid. '
     'Polylines of a group can be moved and mirrored after queries without anything else moving along.',
     ['histories'], VESDOM + '; groups of polylines with common points', 'The tests ask each question once, and do not look at the parts afterwards.', [PG, H],
     [('copies before the search', PG + ': find_loops, cycles, representative_graph; ' + H + ': raum_intex')], 'parts and answers before and after')
