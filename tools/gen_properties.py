"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
I = 'src/math/interval.rs'; G = 'src/math/interval_as_gfloat.rs'; S = 'src/math/scalar.rs'
V = 'src/math/vector.rs'; VT = 'src/math/vector_traits.rs'; VI = 'src/math/vectori.rs'
T = 'src/math/transform.rs'; TI = 'src/math/transform_inverse_impl.rs'
B = 'src/geometry/bbox.rs'; P = 'src/geometry/primitive.rs'; R = 'src/geometry/ray.rs'; SP = 'src/geometry/sphere.rs'
C = 'src/cameras/camera.rs'; TL = 'src/cameras/thin_lens.rs'
props = []


def p(id, title, statement, over, text, why, files, mech, observe):
    props.append({'id': id, 'title': title, 'statement': statement,
                  'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
                  'anchors': {'files': files,
                              'mechanism': [{'name': n, 'where': w} for n, w in mech],
                              'observe_at': observe, 'hook_needed': None}})


p('C01', 'Interval arithmetic encloses every exact result',
  'For intervals with finite bounds, and any numbers picked inside the operands, the exact real result of negation, addition, subtraction, multiplication, division, squaring, square root (of a non-negative interval), absolute value, minimum, maximum, ordered pair, clamping and sign lies between the bounds of the interval the operation returns. This holds for interval-interval and interval-number operands and for the compound assignment forms, and whenever a divisor contains zero the quotient is unbounded on both sides. Every interval returned has its lower bound not above its upper bound.',
  ['inputs'], 'all finite interval bounds in every sign configuration and all points inside them, for 32- and 64-bit floats',
  'The tests run three CGAL convergence loops at a handful of positive f64 intervals; most sign configurations and all of f32 are never executed, and the continuum of members inside an interval cannot be sampled.',
  [I, G, S], [('outward rounding of each bound, corner selection by operand sign', I), ('next_up/next_down', S)],
  ['the bounds returned by the arithmetic operators of Interval'])
p('C02', 'Interval elementary functions enclose every exact result',
  'For any number inside the argument interval (finite bounds; within [-1,1] for the inverse sine and cosine; arguments of the two-argument arctangent not both zero), the exact sine, cosine, tangent where defined, inverse sine, inverse cosine, arctangent and two-argument arctangent lie between the bounds of the interval returned. The interval constants for pi, tau, pi/2 and pi/4 strictly bracket the exact number for both float widths, and intervals made from integers or doubles contain the number given.',
  ['inputs'], 'all argument intervals of any width and phase, all quadrants and axis cases of the arctangent, all integers and doubles',
  'The tests sample intervals narrower than pi, single-number arctangents and f64 only; they never reach the wide-interval, axis, straddling or f32 cases.',
  [G, S], [('extremum detection by the sign of the derivative at both ends and by width', G), ('lower/upper constants of pi', S)],
  ['bounds returned by the elementary functions of Interval and by its constants'])
p('C03', 'Interval comparisons are answered only when certain',
  'Two intervals (or an interval and a number) compare as less, equal or greater exactly when that holds for every choice of members, and otherwise as unordered; so the operators ==, <, <=, >, >= are true only of operands all of whose members satisfy them. The sign tests (positive, negative, non-positive, non-negative), range tests and zero/one tests on intervals are true exactly when true of every member, whether called on the interval type or through the scalar traits.',
  ['inputs'], 'all pairs of intervals and numbers in every relative position, touching and overlapping ones included',
  'No test calls an interval comparison on overlapping or touching intervals; the relative positions are a case analysis over all bounds.',
  [I, S], [('comparison operators on bounds', I), ('derived predicates of the scalar traits', S)],
  ['comparison operators and boolean predicates of Interval'])
p('C04', 'Interval set operations and accessors are exact',
  'The union of two intervals is the smallest interval containing both and the intersection of two overlapping intervals contains exactly their common members; membership, sameness, exactness and range tests agree with the bounds. Widening by one step moves each bound outwards to the adjacent number, mapping with a monotone function encloses the images of the end points in order, and the representative number of an interval (used by conversions to a number, alone or as a component of a vector) is the midpoint and lies inside it when bounds do not overflow.',
  ['inputs'], 'all intervals with finite bounds',
  'Only membership and sameness are used in tests, on a few converging values.',
  [I, VI, G], [('bound selection by min and max', I)], ['union, intersect, contains, in_range, is_same, is_exact, approx, conversions'])
p('C05', 'Interval bounds are tight to one representable step',
  'Interval addition, subtraction, multiplication, division by an interval not containing zero, squaring and square root return bounds no further out than the float adjacent to the correctly rounded exact bound, and negation, union, intersection, minimum and maximum return exact bounds. Widening never exceeds one step per operation.',
  ['inputs'], 'all finite operand bounds in every sign configuration',
  'Tests count iterations of three converging sequences only; a looser bound in one sign configuration leaves those counts unchanged.',
  [I], [('single outward step after each rounded operation', I)], ['bounds returned by the arithmetic operators of Interval'])
p('C06', 'Stepping to adjacent floats is exact for every bit pattern',
  'Stepping up from any 32- or 64-bit float returns the least float greater than it, stepping down the greatest float less than it: across both zeros (which step to the smallest subnormals), subnormals, binade boundaries, and from the largest finite numbers to infinity. Positive infinity stepped up, negative infinity stepped down and NaN are returned unchanged.',
  ['inputs'], 'every bit pattern of both float types',
  'No test calls it directly; 2^64 bit patterns cannot be sampled.',
  [S], [('integer arithmetic on the bit pattern', S)], ['next_up, next_down of f32 and f64'])
p('C07', 'Scalar primitives keep their arithmetic contracts',
  'For every numeric type offered, the named constants denote the numbers they name (zero, one, two, one half, pi and its fractions, extreme values, infinities, tolerances positive), and minimum, maximum, ordered pair, clamp, range test, square, sign, absolute value, reciprocal, square root and the trigonometric functions return the mathematically defined value. Conversions return the nearest representable number, those to integers truncate. The sign and classification predicates (zero, one, positive, negative, finite, infinite, not-a-number) are true exactly for the values they name.',
  ['inputs'], 'all values of the ten scalar types (integers within range for the operation)',
  'The tests use them only incidentally; whole types (8/16/64-bit integers, f32 classification) are never exercised.',
  [S], [('default trait methods and per-type constants', S)], ['methods of the scalar traits on the primitive types'])
p('C08', 'A transform always carries its own inverse',
  'For every transform built by identity, translation, scaling by non-zero factors, rotation about an axis, camera placement, perspective projection, composition or inversion, the forward and inverse matrices multiply to the identity in both orders (up to rounding). Inverting swaps them, and composing two transforms multiplies the forward matrices in the order written.',
  ['inputs', 'histories'], 'all parameters of all constructors and all products and inverses of such transforms',
  'Tests compare a few random rotations with tolerances; most constructors and no compositions are checked.',
  [T, TI], [('paired construction of matrix and inverse', T), ('adjugate inverse', TI)], ['matrix(), inverse_matrix() of every transform'])
p('C09', 'Matrix algebra is exact linear algebra',
  'Matrix product, product with a number, transpose, identity, zero and the row, column and element accessors are those of 4x4 linear algebra over any scalar type. The inverse of a matrix with non-zero determinant multiplies with it to the identity in both orders (up to rounding).',
  ['inputs'], 'all 4x4 matrices; all invertible ones for the inverse',
  'Tests multiply and transpose one pair of matrices and never call the general inverse on a general matrix.',
  [T, TI], [('index loops of the product', T), ('cofactor expansion', TI)], ['operators and accessors of Matrix4x4'])
p('C10', 'Transforms map points, vectors, normals and rays correctly',
  'Up to rounding, a point maps by the homogeneous product followed by division by its last coordinate, a free vector by the linear part alone, and a surface normal so that it stays perpendicular to every mapped tangent vector; a ray maps origin and direction and keeps its parameter range, so that evaluating and mapping commute for affine transforms. Inverse mapping undoes mapping, and mapping by a product applies the right factor first. A point or vector that has no image (a point sent to infinity, a vector given a non-zero last coordinate) is refused with a panic, and no other is.',
  ['inputs'], 'all transforms, all points, vectors, normals and rays for which the mapping is defined',
  'Tests map vectors by rotations and points by two projection matrices; normals, rays, inverse mapping and composition are not covered.',
  [T, R], [('map_point, map_vector, map_normal', T), ('ray mapping', R)], ['map and map_inverse of Transform'])
p('C11', 'Named transforms act as named',
  'Translation adds its vector to points and leaves vectors alone, and scaling multiplies coordinates by its factors. A rotation about an axis fixes that axis, preserves lengths and angles, and turns perpendicular vectors by the given angle counter-clockwise as seen against the axis; the rotations about coordinate axes agree with the general one, whatever the (non-zero) length of the axis vector.',
  ['inputs'], 'all translation vectors, scale factors, axes and angles',
  'Tests use twenty random axes with tolerances and unit axes only.',
  [T], [('rotation matrices', T)], ['images of points and vectors under translate, scale, rotate_*'])
p('C12', 'Camera placement and projection follow their stated geometry',
  'The camera-placement transform takes the eye to the origin, the viewing direction to the negative z axis and the up vector into the half plane of positive y, preserving distances and orientation, whatever the lengths of the given vectors. The perspective projection sends the near plane to depth 0, the far plane to depth 1 and the edges of the field of view to plus and minus one, without mirroring either axis.',
  ['inputs'], 'all eye, target and non-parallel up vectors; all fields of view and clipping planes',
  'Tests check one or two hand-picked placements and projections.',
  [T], [('orthonormal basis construction', T), ('projection matrix', T)], ['matrices and images under look_at, perspective'])
p('C13', 'Vector algebra follows its defining identities',
  'For vectors, points and normals of any dimension offered, sums, differences, negation, scaling, division, component products, component minimum and maximum, indexing and construction act componentwise, and the compound assignment forms agree with the plain ones. The dot product, the cross product (perpendicular to both factors, right-handed, length by the identity of Lagrange), norms, distances and normalisation (unit length, same direction) have their defining values, and the difference of two points added to the second gives the first.',
  ['inputs'], 'all component values, dimensions 2 to 4, over floats, integers and intervals',
  'Tests evaluate the operators on fixed small vectors in three dimensions only.',
  [V, VT, VI], [('componentwise loops', V), ('norm defaults', VT)], ['operators and methods of the vector types'])
p('C14', 'Points, vectors and normals cannot be mixed up',
  'A program that adds or subtracts across kinds in a way that has no geometric meaning (subtracting normals, subtracting a point from a vector, adding a normal to a point), passes one kind where another is expected without an explicit conversion, mixes dimensions or scalar types, or asks for the distance between normals does not compile. The meaningful combinations (point minus point is a vector, point plus or minus vector is a point) do compile with those result types.',
  ['programs'], 'all programs using the vector types',
  'A test can only contain programs that compile.',
  [V, VI, T], [('marker type parameter and trait bounds', V)], ['type checking of client programs'])
p('C15', 'Bounding boxes form the expected lattice',
  'A box built from two corners does not depend on their order and contains both; the union of two boxes is the smallest box containing both, the intersection contains exactly the common points, and the default box is neutral for union. Membership includes the boundary, the overlap test is symmetric and true exactly when the interiors intersect, and diagonal, centre and longest axis agree with the corners.',
  ['inputs'], 'all corner coordinates and query points',
  'No test calls any of these operations with an assertion on the result.',
  [B, P], [('componentwise min and max', B)], ['methods of Bbox3'])
p('C16', 'A transformed bounding box contains the image of the box',
  'For every affine transform and every box, each point inside the box is mapped to a point inside the mapped box (up to rounding), and every face of the mapped box is touched by the image. The same holds for mapping by the inverse.',
  ['inputs'], 'all affine transforms (negative and mixed-sign linear parts included) and all boxes',
  'No test maps a box.',
  [B], [('per-entry interval accumulation', B)], ['map and map_inverse of a Bbox3'])
p('C17', 'Ray-box queries report exactly the overlapping parameter range',
  'For a box and a ray whose origin coordinates do not lie exactly on face planes the ray is parallel to, a hit is reported exactly when some parameter between zero and the ray limit lies inside the box, rays parallel to axes included. The reported entry and exit parameters are the ends of that range, clipped to zero and the ray limit.',
  ['inputs'], 'all boxes, ray origins, directions (any sign, zero components included) and limits',
  'The test uses a hundred random rays through faces, never axis-parallel ones nor misses next to an edge.',
  [B], [('slab test', B)], ['intersect_ray of Bbox3, hit parameter of its ray query'])
p('C18', 'Ray-sphere queries return the nearest valid hit',
  'For a sphere clipped in height and azimuth and any ray, a hit is reported exactly when some parameter between zero and the ray limit puts the ray on the sphere surface inside the clipping range, and the parameter reported is the smallest such one (up to rounding). Origins inside the sphere, directions of any length, tangents and rays starting on the surface are included.',
  ['inputs'], 'all radii, clip limits, origins, directions and limits',
  'The test checks random chords of one family; the second root after clipping, tangents, interior origins with clipped first hits are measure-zero or rare.',
  [SP], [('stable quadratic roots, in-order filtering', SP)], ['existence and t_ray of the sphere ray query'])
p('C19', 'The fast intersection test agrees with the full query',
  'For every primitive offered (box, sphere, transformed primitive, list) and every ray, the yes/no intersection test answers yes exactly when the full query returns a hit.',
  ['inputs', 'histories'], 'all primitives and nestings of them, all rays',
  'No test calls the yes/no form.',
  [B, SP, P], [('two methods of one trait', P)], ['do_intersect against intersect'])
p('C20', 'A reported hit describes the point that was hit',
  'The hit point of a sphere, and of a box entered from outside, is the ray evaluated at the reported parameter and lies on the surface (up to rounding); the normal has unit length, points outward and is perpendicular to both tangents. For the sphere the surface parameters lie in [0,1] and the tangents are the derivatives of the surface position along them; for a box the face reported is the one the ray enters through, and its tangents are perpendicular unit vectors turned the same way on all six faces (dpdu x dpdv = -n).',
  ['inputs'], 'all rays that hit, poles and lower hemisphere of spheres and all six faces of boxes included',
  'Existing tests look only at the ray parameter.',
  [B, SP, P], [('surface interaction construction', SP), ('nearest face selection', B)], ['surface interaction returned by ray queries'])
p('C21', 'Bounding boxes enclose what can be hit',
  'Every hit point a primitive can report lies (up to rounding) inside the bounding box it reports, for spheres of any clipping, boxes, transformed primitives and lists. The area reported for a clipped sphere is the area of exactly that part of the surface that rays can hit.',
  ['inputs', 'histories'], 'all primitives, all rays',
  'No test relates hits to bounding boxes.',
  [SP, B, P], [('bbox of each primitive', P)], ['bbox() against hit points, area()'])
p('C22', 'A list of primitives behaves as their union',
  'A ray query on a list returns the nearest among the hits of its members within the ray limit, and none when no member is hit, whatever the order and number of members; the member reported is the one that gave that hit, unchanged. The bounding box of a list is the union of the members\' boxes, and adding a member never loses an earlier one.',
  ['inputs', 'histories'], 'all sequences of additions and all rays',
  'No test uses a list.',
  [P], [('ray limit shrinking', P), ('bbox accumulation', P)], ['intersect, do_intersect, bbox of PrimitiveList'])
p('C23', 'A transformed primitive behaves as the moved shape',
  'A ray query on a transformed primitive answers as if the primitive had been moved into world space: a hit exists exactly when the ray pulled back to object space hits the primitive, at the same ray parameter, and the reported point, tangents and unit normal are (up to rounding) the world-space images of the object-space ones. Its bounding box contains the image of the primitive\'s box.',
  ['inputs'], 'all affine transforms and all inner primitives',
  'No test uses a transformed primitive.',
  [P, T], [('world_to_object on the ray, object_to_world on the result', P)], ['intersect, do_intersect, bbox of TransformedPrimitive'])
p('C24', 'Thin-lens rays start on the lens and meet in the plane of focus',
  'Up to rounding, every camera ray starts (in camera space) at the lens point selected by the lens sample scaled by the lens radius, has a unit direction and unlimited range, and passes through the point of the plane at the focus distance in front of the camera that the film sample selects, independent of the lens sample. Film samples at the centre look along the axis, those at the left and right edges make the given field of view, the height follows the aspect ratio, the image is not mirrored and the result is expressed in world space through the given view transform.',
  ['inputs'], 'all film and lens samples, all camera parameters with focus beyond the focal length',
  'There is no camera test.',
  [TL, C], [('film-to-lens construction', TL)], ['generate_ray'])
p('C25', 'Disk sampling covers the unit disk uniformly',
  'Up to rounding, both square-to-disk mappings send every sample of the unit square into the closed unit disk, send equal areas to equal areas (constant Jacobian of pi in magnitude), and reach the whole disk. The uniform mapping sends (x, y) to distance sqrt(y) from the centre at the angle 2 pi x counter-clockwise from the first axis. The concentric mapping sends the centre to the centre, the boundary of the square to the unit circle, and is continuous across its case distinction.',
  ['inputs'], 'all points of the unit square',
  'There is no sampling test, and uniformity is a statement about measure.',
  [C], [('polar parametrisation', C)], ['uniform_sample_disk, concentric_sample_disk'])
p('C26', 'Approximate equality is symmetric and componentwise',
  'Approximate equality of floats is symmetric, reflexive for finite values, true exactly when the difference is below the absolute tolerance or below the relative tolerance times the larger magnitude, and never true with a NaN. For intervals, vectors, matrices and transforms it holds exactly when it holds for every component; an interval is approximately a number only if it also contains it.',
  ['inputs'], 'all pairs of values',
  'Tests use it as an oracle and never test it.',
  [S, I, V, T], [('fequals', S), ('componentwise loops', V)], ['almost_eq, fequals'])
p('C27', 'Interval vectors and transforms enclose the exact result',
  'Vectors, points and rays whose components are intervals can be combined, scaled, evaluated and mapped by transforms, and each component of the result contains the exact value for any choice of numbers inside the inputs. Converting numbers (of magnitude up to half the largest float) to exact intervals and back gives the same numbers.',
  ['inputs'], 'all interval-valued points, vectors, rays, all transforms',
  'No test uses an interval vector.',
  [VI, V, T, R], [('natural interval extension of the float formulas', T)], ['operators and map on interval vectors'])
p('C28', 'Queries on valid inputs never panic',
  'Interval operations on finite well-formed intervals, float vector and matrix operations, box operations, mapping by affine transforms, ray queries on boxes, well-formed spheres, lists and transformed primitives, and camera ray generation terminate without panicking (no failed assertion, index or arithmetic overflow), in debug builds as well.',
  ['inputs'], 'all finite inputs within the documented preconditions',
  'A panic needs one specific input (a sign pattern, an axis case); tests sample few.',
  [I, G, V, T, B, SP, P, TL], [('assertions and index expressions', I)], ['panic-free return of the public functions'])
p('C29', 'Results depend only on the arguments',
  'No operation of the library reads or writes global state, performs input or output, uses unsafe code or interior mutability, or changes an argument passed by value or shared reference; the same arguments always give the same result, from any thread and in any order of calls.',
  ['histories', 'schedules'], 'all call sequences and interleavings',
  'Absence of hidden state is a statement about all code, not about sampled calls.',
  ['src/lib.rs', S, I, V, T, B, P, SP, C, TL], [('value semantics throughout', 'src/')], ['all public functions'])
p('C32', 'Arguments outside the domain are refused',
  'A component beyond the dimension of a vector (by name or by index), a row, column or element beyond a 4x4 matrix, a sphere whose lower clipping height is not below its upper one, and a point or vector that a transform gives no image (a point sent to infinity, a vector given a non-zero last coordinate) are refused with a panic, in release builds as well, and never answered with some other value; not-a-number heights are refused too. In debug builds an interval whose lower bound is not at most its upper one is refused as well. Every argument inside these domains is accepted.',
  ['inputs'], 'all indices, clipping heights, interval bounds (infinities and NaN included) and all matrices with all points and vectors',
  'No test calls these with an argument outside the domain, and release builds are not tested at all.',
  [V, T, SP, I], [('index checks of arrays', V), ('assertions', T)], ['panics of accessors, constructors and map'])
p('C33', 'Interval elementary functions widen by at most one step',
  'The inverse sine, inverse cosine and arctangent of an interval have bounds no further out than the float adjacent to the value of the scalar function at the corresponding bound of the argument, and the first two stay within the range of the function (rounded outwards). Sine and cosine of an interval have bounds no further out than the float adjacent to the scalar value at one of the argument bounds where no minimum or maximum lies between, and exactly -1 or 1 where one does (bounds not nearly half a turn or a full turn apart). The two-argument arctangent stays in the half plane or quadrant of its arguments when its second argument does not change sign. The interval constants for pi, tau, pi/2 and pi/4 are the two floats next to the exact number, and intervals made from integers or doubles extend at most one step from the nearest float, not at all where a float is converted to its own or a wider type.',
  ['inputs'], 'all intervals with finite bounds (within [-1,1] for the inverse sine and cosine), both float widths',
  'Tests check enclosure of sampled points; a range that is needlessly wide passes them.',
  [G, I, S], [('case analysis by the signs of the derivative', G)], ['bounds of sin, cos, asin, acos, atan, atan2, constants and conversions'])
p('C34', 'Reported ray parameters lie within the ray as computed',
  'Every hit returned by a ray query on a box, sphere, list or transformed primitive has a parameter that compares at least zero and at most the limit of the ray, and the range a box query returns is not left before it is entered. This holds for the floats computed, not only up to rounding, for every ray and shape whatever their coordinates (overflowing, infinite or not-a-number intermediate results included), as long as the limit is a non-negative number or infinite.',
  ['inputs'], 'all rays, shapes and transforms, every bit pattern of their coordinates',
  'Rounding moves a parameter past the limit by one step for few inputs; tests use tolerances.',
  [B, SP, P], [('range tests before a hit is returned', SP), ('clipping to the limit', B)], ['t_ray of hits, Bbox3::intersect_ray'])
p('C35', 'Vector and transform arithmetic loses no digits to cancellation',
  'Where nothing overflows or becomes subnormal: sums, differences, multiples, squared length, length, normalisation, squared distance and distance of vectors, differences of points, multiples of matrices, the diagonal of a box and the parameters at which a ray enters and leaves a box have a relative error of at most sixteen roundings, however close the operands are. Dot and cross products, matrix products, composed transforms, mapped points, vectors and normals, and points on a ray differ from the exact value by at most sixteen roundings of the sum of the sizes of the products they are defined by (for mapped points, before the division by the homogeneous coordinate, which is itself such a sum).',
  ['inputs'], 'all operands, both float widths',
  'Loss of digits needs operands of particular relative size (close points far from the origin); tests use random ones and wide tolerances.',
  [V, 'src/math/vector_traits.rs', T, B, 'src/geometry/ray.rs'], [('differences are taken before squaring and dividing', 'src/math/vector_traits.rs')], ['results of the vector, matrix, ray and box functions'])
p('C30', 'Rounding error of ray hits stays within a small relative bound',
  'The hit parameter and hit point returned by ray queries differ from the exact ones by at most a fixed small multiple of the float precision relative to the distances involved.',
  ['inputs'], 'all rays and primitives',
  'Tests compare random cases with a tolerance of 1e-4.',
  [B, SP], [('choice of stable formulas', SP)], ['t_ray and p of hits'])
p('C31', 'Long products of transforms do not drift',
  'The forward and inverse matrices of a long product of rotations and translations remain inverse to each other within a bound proportional to the number of factors.',
  ['histories'], 'all products',
  'Tests compose nothing.',
  [T], [('composition of stored inverses', T)], ['matrix(), inverse_matrix()'])
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in props:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(props))
