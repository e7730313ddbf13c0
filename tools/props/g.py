LAT='all lattice polygons up to a vertex count, in several planes'
PROPS = [
dict(id='G01', title='Loops measure what they enclose',
 statement='A closed loop built from any simple planar polygon reports the exact area, perimeter, normal (right-hand rule) and vertex list, whatever the starting vertex, orientation and plane; vertices in the middle of a straight side are dropped without changing area, perimeter or normal. Non-coplanar points, self-intersecting borders and loops with fewer than three vertices are refused.',
 over=['inputs','histories'], quant='all simple polygons (convex or not), all starting vertices, both orientations, all planes, all insertions of mid-side vertices',
 why='The tests use a handful of shapes; the incremental push/close validation depends on the order and position of every vertex.',
 files=['geometry/src/loop3d.rs','geometry/src/segment3d.rs','geometry/src/point3d.rs'], mech=[('incremental validation','Loop3D::push, valid_to_add, close'),('measures','set_area, set_normal, set_perimeter')], observe='public API of the geometry crate',
 technique='explicit enumeration of all simple lattice polygons up to 8 vertices x start x orientation x 7 planes on the real code, exact integer oracle', note='3x3 lattice up to 7-8 vertices plus 4x3 lattice; comparison tolerance 1e-9 relative'),
dict(id='G02', title='A point is inside a loop exactly when it is',
 statement='The membership test of a closed loop answers true for every point of its plane inside or on the border of the loop, and false for points outside or off the plane, independently of starting vertex, orientation, position and plane.',
 over=['inputs'], quant='all simple polygons, all points (inside, on sides, on vertices, aligned with vertices, outside, off-plane)',
 why='Ray casting fails for particular alignments of point and vertices that no fixed test list can rule out.',
 files=['geometry/src/loop3d.rs','geometry/src/segment3d.rs'], mech=[('ray casting','Loop3D::test_point, is_coplanar'),('border','Segment3D::contains_point')], observe='public API of the geometry crate',
 technique='explicit enumeration of all lattice polygons x all lattice and half-lattice points x planes on the real code, exact integer oracle', note='every point of the (half-)lattice around the polygon'),
dict(id='G03', title='Cutting holes keeps area, membership and a consistent outline',
 statement='A hole strictly inside the polygon and clear of other holes is accepted, and one that leaves the polygon, overlaps another hole or lies off the plane is refused and changes nothing; after cutting, the area is the outer area minus the holes and a point is inside exactly when it is inside the outer loop and in no hole. The single outline that joins the borders walks every side once, each hole opposite to the outer border, plus two-way bridges to holes that touch nothing.',
 over=['inputs','histories'], quant='all outer shapes, holes, placements, orientations and sequences of holes',
 why='The tests cut one or two rectangular holes.',
 files=['geometry/src/polygon3d.rs','geometry/src/loop3d.rs'], mech=[('acceptance','Polygon3D::cut_hole'),('membership','Polygon3D::test_point'),('bridging','Polygon3D::get_closed_loop')], observe='public API of the geometry crate',
 technique='explicit enumeration of hole shape x placement x orientation (and all ordered pairs of small holes) on the real code, exact integer oracle for containment and for the bridged walk', note='holes touching the border are unspecified and skipped'),
dict(id='G04', title='Triangulation tiles the polygon exactly',
 statement='Triangulating any simple polygon, with or without holes, also if they touch its border or each other, succeeds with triangles that use only its vertices, keep its orientation, do not overlap and together cover exactly the polygon (vertices+2*holes-2 of them when no hole touches anything).',
 over=['inputs'], quant='all simple polygons, start vertices, orientations, holes and planes; any number of vertices',
 why='The tests triangulate a few shapes; ear clipping fails on particular vertex alignments.',
 files=['geometry/src/triangulation3d.rs','geometry/src/loop3d.rs','geometry/src/polygon3d.rs'], mech=[('ear clipping','Triangulation3D::try_from'),('diagonals','Loop3D::is_diagonal'),('bridges','Polygon3D::get_closed_loop')], observe='public API of the geometry crate',
 technique='explicit enumeration of lattice polygons, single and paired holes and large combs on the real code, exact integer tiling oracle', note='up to 8 vertices complete on 3x3, combs up to 150 vertices'),
dict(id='G05', title='Mesh refinement preserves the tiling and meets the requested quality',
 statement='Inserting any sequence of points into a triangulation keeps an exact tiling of the same polygon with that point as a vertex; points outside are refused and existing vertices ignored. Meshing a polygon with a maximum area and aspect ratio, when it succeeds, yields an oriented, non-overlapping tiling in which every triangle (above the minimum size of 1e-3) meets both limits, and it succeeds unless the aspect ratio is very strict.',
 over=['inputs','histories'], quant='all insertion sequences, all polygons with or without holes, all limits',
 why='Edge flips and splits corrupt the neighbourhood only after particular histories.',
 files=['geometry/src/triangulation3d.rs','geometry/src/triangle3d.rs'], mech=[('splits','split_edge, split_triangle'),('flips','flip_diagonal, restore_delaunay'),('refinement','refine, mesh_polygon')], observe='public API of the geometry crate',
 technique='explicit-state exploration of all insertion sequences (depth 2, thorough 3) over lattice points on the real code with an exact tiling oracle; exhaustive product of polygons x limits for refinement', note='errors are accepted for aspect ratios below 5'),
dict(id='G06', title='Transforms compose, invert and carry normals, rays and boxes',
 statement='A transform built by multiplying any sequence of translations, rotations and scalings maps points and vectors exactly as applying those elementary maps one after the other, and its inverse functions undo it. Normals keep their pairing with vectors, a transformed ray reaches the image of every point of the original at the same time, transformed boxes are the boxes of the transformed corners, changes_hands tells mirroring, and reported errors are non-negative, of rounding size and bound the image of a perturbed input.',
 over=['inputs','histories'], quant='all sequences of elementary transforms, all points',
 why='Order and inverse mistakes cancel out for single transforms and for commuting pairs.',
 files=['geometry/src/transform.rs'], mech=[('composition','MulAssign, mul4x4'),('inverse','inv_elements'),('normals and rays','transform_normal, transform_ray')], observe='public API of the geometry crate',
 technique='exhaustive enumeration of all words of length <= 4 (thorough 5) over 12 generators on the real code, against composition of the elementary maps', note='generators with fixed parameters; 27 points per word'),
dict(id='G07', title='Ray intersections are the nearest true hits',
 statement='For spheres, cylinders, disks (complete or partial, transformed or not), triangles and distant sources, a ray reports a hit exactly when it meets the surface ahead of its origin, at the nearest admissible point, with a normal perpendicular to the surface that faces the ray and the corresponding side, and never panics or returns non-finite values. The detailed and simple intersections agree, world bounds contain every hit, and a ray through the edge shared by two triangles never slips between them.',
 over=['inputs'], quant='all shapes, transforms, ray origins and directions away from exact tangency',
 why='Errors show only for specific regions (the far corner of a triangle, a pole, the second root of a clipped quadric, tilted cylinders).',
 files=['geometry/src/sphere3d.rs','geometry/src/cylinder3d.rs','geometry/src/disk3d.rs','geometry/src/triangle3d.rs','geometry/src/plane3d.rs','geometry/src/distant_source3d.rs','geometry/src/intersection.rs'], mech=[('quadrics','approx_basic_intersection, basic_intersection'),('triangle','intersect_triangle'),('sides','SurfaceSide::get_side')], observe='public API of the geometry crate',
 technique='exhaustive enumeration of shapes x transforms x origin lattice x direction set on the real code against an analytic oracle', note='rays within 1e-6 of a boundary of the surface are only required to be finite; Disk3D::bounds is explicitly unimplemented and excluded'),
dict(id='G08', title='Bounding boxes are exact sets and never hide a ray',
 statement='Union, intersection, overlap, containment, surface area and longest axis of bounding boxes agree with the boxes as point sets, flat boxes included and whatever the corner order. The ray test is true for every ray that passes through a box (also flat ones, also with zero direction components or an origin on a slab) and false for every ray that stays clear of it.',
 over=['inputs'], quant='all boxes, points and rays',
 why='Slab tests go wrong only for zero direction components, flat boxes and origins on a slab.',
 files=['geometry/src/bbox3d.rs'], mech=[('set operations','from_union, from_intersection, overlaps'),('ray test','intersect')], observe='public API of the geometry crate',
 technique='exhaustive enumeration of all lattice boxes, pairs and rays on the real code against a set oracle', note='rays within 1e-6 of grazing are not judged'),
dict(id='G09', title='Error intervals always contain the true value',
 statement='Every arithmetic operation on ApproxFloat intervals (with intervals or numbers, value or assigning form, negation, square root) yields bounds that contain the result for every pair of values inside the operands. The quadratic solver returns both real roots in increasing order when they are distinct and none when there is none.',
 over=['inputs'], quant='all intervals and member values',
 why='A wrong bound is invisible while errors are zero.',
 files=['geometry/src/round_error.rs'], mech=[('interval arithmetic','Add, Sub, Mul, Div, Neg, sqrt'),('roots','solve_quadratic')], observe='public API of the geometry crate',
 technique='exhaustive enumeration of interval pairs and member values on the real code', note='divisors containing zero excluded'),
dict(id='G10', title='Points, vectors, segments, planes and triangles measure true',
 statement='Sums, differences, scalings (plain and assigning), dot and cross products, lengths, normalisation, perpendiculars and parallelism of points and vectors are those of Euclidean space, as are distances and projections to lines and planes, collinearity, and where a ray meets a plane (ahead of it only). Two segments meet where their lines do: the reported fractions and the point are exact, crossing requires the meeting point to be within the first and strictly inside the second, touching includes all ends, and parallel or skew segments never meet; a segment contains exactly its points. A triangle is accepted exactly when it is not flat, its area, normal (right hand), centroid, circumcentre, circumradius and aspect ratio are the true ones (also after moving a vertex), each point of its plane is classified as the right vertex, edge, inside or outside, and its edges are found by their ends in either direction.',
 over=['inputs'], quant='all points, vectors, segments, planes and triangles, in every orientation',
 why='Each formula has branches per axis or per case (a segment pair in a plane of constant x, an end that only touches, a vertex that is moved) and a sample exercises few of them; everything above is built on them.',
 files=['geometry/src/point3d.rs','geometry/src/vector3d.rs','geometry/src/segment3d.rs','geometry/src/plane3d.rs','geometry/src/ray3d.rs','geometry/src/triangle3d.rs'], mech=[('operators','Add, Sub, Mul, Div and assigning forms'),('lines and planes','distance_to_line, distance_to_plane, project_into_plane, is_collinear'),('segments','get_intersection_pt, intersect, touches, contains_point'),('triangles','set_area, set_normal, circumcenter, test_point, get_edge_index_from_segment')], observe='public API of the geometry crate',
 technique='exhaustive enumeration of all lattice vector pairs, point triples, segment pairs and triangles on the real code against exact integer arithmetic', note='ends that touch exactly are judged only where the arithmetic is exact; segments shorter than 1 cm and nearly flat triangles are not judged'),
dict(id='G11', title='Loops cut, overlap, snap and project as the regions they enclose',
 statement='The overlap of two coplanar convex loops that contain one another, are apart or whose outlines cross twice is exactly their common region, facing like the first; loops in other planes never overlap. A segment meets the outline of a loop exactly where it crosses it, each point being reported once with the edge it is on; cutting a convex loop by a segment that goes through it gives the two parts on either side, closed and facing like the original, and a segment that does not go through leaves the loop as it was; a diagonal is recognised exactly when it runs inside between two vertices; vertices and edges are found by position. Projecting a loop or polygon onto a plane, or snapping it to nearby points, moves exactly the vertices it should and leaves area, perimeter and normal those of the new outline, and the distance between parallel loops is signed by the normal.',
 over=['inputs'], quant='all convex loop pairs, all loops and segments, all planes',
 why='Clipping walks from vertex to crossing to vertex: which vertex is first, its direction, and how the outlines interleave decide which branch runs; cached measures go stale only when a loop is moved after being closed.',
 files=['geometry/src/loop3d.rs','geometry/src/polygon3d.rs','geometry/src/segment3d.rs'], mech=[('overlap','Loop3D::intersection'),('cuts','Loop3D::intersect, split'),('relations','is_diagonal, containing_segment, contains_vertex'),('moves','snap, project_into_plane, normal_distance')], observe='public API of the geometry crate',
 technique='exhaustive enumeration of lattice loop pairs, loops x segments and loops x planes on the real code against exact planar clipping', note='overlaps of outlines that cross more than twice (the code reports none when neither has a vertex in the other), Loop3D::bite, and cuts through a loop that is not convex more than once are not judged'),
]
