#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)
MAT, QUAT = "lib/mat.rs", "lib/quat.rs"

prop("A01", "Vector arithmetic is component-wise for every size, orientation and precision",
 "For row and column vectors of 2, 3 and 4 components in single and double precision, sum, difference, component-wise product, component-wise quotient and scaling yield in each component exactly that operation on the operands' same component, and the dot product is the sum of the component products, up to rounding. Transposing a vector keeps every component in its place, the default vector is zero, the size is the component count, component reads and writes by position reach only that component, and no operation changes its operands.",
 ["inputs"], "all finite operand vectors (divisors non-zero), 6 vector types x 2 precisions, all operations",
 "One hand-picked vector with equal components per type; swapped indices, single-precision-only or two-component mistakes are invisible to them (2-component vectors have no test at all).",
 [MAT], [("component formulas, stamped out per type and precision by macros", "lib/mat.rs define_mat2x1 .. define_mat1x4")], ["return values of the vector operations"])

prop("A02", "Length, normalisation and cross product obey the Euclidean laws",
 "The length of a vector is the square root of the sum of its squared components, and normalising any non-zero vector (components zero or of magnitude 1e-60 to 1e60, in single precision 1e-9 to 1e9) gives a vector of length one in the same direction. For 3-component vectors the cross product is the right-handed one: orthogonal to both operands, anti-commutative, of squared length |a|^2|b|^2-(a.b)^2; for 2- and 4-component vectors no cross product is returned.",
 ["inputs"], "all non-zero vectors of the 6 types x 2 precisions; all pairs of 3-vectors",
 "The only normalised vector in the tests is (2,2,..); the cross product is exercised on no generic pair for most types.",
 [MAT], [("magnitude / normalize / cross", MAT)], ["return values"])

prop("A03", "Tolerant equality accepts exactly component-wise closeness",
 "Two vectors or two matrices of the same storage layout compare equal under a tolerance e >= 0 exactly when every pair of corresponding components differs by at most e (up to rounding), whatever the position and sign of the difference; so the comparison is reflexive for finite values and symmetric. A NaN component, or two matrices stored in different layouts, always compare unequal.",
 ["inputs"], "all pairs of finite vectors/matrices, every position of the difference, every tolerance, 8 types x 2 precisions, both layouts",
 "Tests compare vectors that differ in all components at once, so a component that is never looked at, or looked at on one side only, goes unseen.",
 [MAT, "lib/i_comparable.rs"], [("IComparableError::is_equal implementations", MAT)], ["boolean result"])

prop("A04", "Matrix storage layout never changes which entry is at row i, column j",
 "A 3x3 or 4x4 matrix built from a row-by-row listing, in row-major or column-major storage, reads back at row i and column j the listed entry. After any sequence of entry writes, in-place transpositions, transposed copies, scalings and rebuilds, every entry equals that of a plain two-dimensional model, and the layout flag never changes on its own.",
 ["inputs", "histories"], "all entry values, both layouts, sizes and precisions, all operation sequences (length up to 200)",
 "Tests build a handful of 0..15 matrices, mostly row-major, and never mix writes with transposition.",
 [MAT], [("index / index_mut / init / transpose / transpose_self", MAT)], ["entry reads, raw values, layout flag"],
 [("_val + _is_row_major", "flat storage and its layout", MAT)])

prop("A05", "Matrix products equal the mathematical product in either layout",
 "For 3x3 and 4x4 matrices stored in the same layout, and for matrix-times-column and row-times-matrix products, every entry of the result is the sum of products of the mathematical definition up to rounding, in both layouts and precisions, and the result of a matrix product keeps the operands' layout. Multiplying by the identity changes nothing. Multiplying matrices of different layouts is refused with a panic or gives the correct product, never a wrong one.",
 ["inputs"], "all finite matrices and vectors, both layouts of each operand, sizes 3 and 4, both precisions",
 "One arithmetic-progression product per size, row-major only; column-major matrix-matrix and row-vector-matrix paths are never run.",
 [MAT], [("mul, mul_mat3x1, mul_mat4x1, mul_mat3x3, mul_mat4x4, iden", MAT)], ["return values"])

prop("A06", "Entry-wise matrix operations act on logical entries in either layout",
 "Sum, difference, entry-wise product and quotient, scaling, division by the last entry, trace, transposed copy and the upper-left 3x3 part of a 4x4 matrix act on the logical entry at each row and column, independent of the storage layout of the operands, mixed layouts included, and keep the first operand's layout. Operations a matrix does not support (dot and cross product) return nothing, the default matrix is zero, and the identity has ones exactly on the diagonal.",
 ["inputs"], "all finite matrices (divisors non-zero), both layouts of each operand, sizes 3 and 4, both precisions",
 "Tests use matrices with all entries equal, so permuted or wrongly paired entries cannot be seen, and never combine two layouts.",
 [MAT], [("plus, minus, mul_elem, div, scale, normalize, trace, transpose, submat_mat3, default, iden", MAT)], ["return values"])

prop("A07", "Matrix inversion really inverts, keeps the layout, and refuses singular input",
 "For every well-conditioned 3x3 or 4x4 matrix whose determinant is at least 1e-6 in magnitude, inversion succeeds and the result times the matrix (either order) is the identity up to rounding, in both precisions and both layouts, with the result in the layout of the input. A matrix whose determinant is exactly zero in exact arithmetic (for example with proportional rows or columns of small integers) yields no inverse rather than garbage.",
 ["inputs"], "all matrices with |det| >= 1e-6 and bounded conditioning, plus integer matrices that are exactly singular; both layouts, sizes and precisions",
 "Inversion has no test at all.",
 [MAT], [("Mat3::inverse, Mat4::inverse", MAT)], ["returned option and its entries"])

prop("Q01", "Quaternion arithmetic satisfies the Hamilton algebra",
 "Quaternion product follows Hamilton's rules (i*j=k, j*k=i, k*i=j, i*i=j*j=k*k=-1) for all operands up to rounding, so it is associative, lengths multiply, and conjugation reverses products; sum, difference, negation, conjugation and scaling act on the matching components. Multiplying any non-zero quaternion by its inverse, on either side, gives the identity, and length and squared length are the Euclidean ones.",
 ["inputs"], "all finite quaternions (components zero or 1e-60..1e60 in magnitude, single precision 1e-6..1e6), both precisions",
 "The only test uses two axis-angle quaternions of 90 degrees; product signs with all four components non-zero are never exercised.",
 [QUAT], [("mul, add, minus, negate, conjugate, scale, inverse, length, length_squared", QUAT)], ["return values"])

prop("Q02", "Quaternion constructors give the documented quaternion",
 "The default and initial quaternion is the identity; construction from raw values keeps them; construction with normalisation (and normalising) any non-zero quaternion gives the same direction with length one; construction that derives the scalar part from a vector part of length at most one keeps the vector part and gives a unit quaternion with non-positive scalar part. A translation is encoded as half the translation in the vector part with zero scalar part, an axis-angle in degrees equals the same axis-angle in radians, equals (axis/|axis| sin(angle/2), cos(angle/2)), and a dual quaternion holds exactly the two parts it is given.",
 ["inputs"], "all finite component values, all non-zero axes (length 1e-60..1e60, in single precision 1e-12..1e12), all angles up to 1e5 radians, both precisions",
 "Only one 90-degree axis-angle construction is tested; the other constructors never run.",
 [QUAT, "lib/dualquat.rs"], [("init, init_from_*, normalize, DualQuat::init", QUAT)], ["components of the result"])

prop("Q03", "Unit quaternions rotate vectors by the axis-angle they were built from",
 "Rotating a vector by a unit quaternion built from an axis and angle gives the right-handed rotation of that vector about that axis by that angle (Rodrigues' formula) up to rounding, in both precisions. Hence lengths and dot products are preserved, q and -q rotate alike, rotating by the conjugate undoes the rotation, and rotating by a product rotates by the right factor first.",
 ["inputs"], "all unit quaternions (any axis of any length, any angle up to 1e5 radians, products of such) and all vectors with components zero or 1e-3..1e3, scaled as a whole by powers of two",
 "One rotation by 90 degrees about the x axis is tested.",
 [QUAT], [("rotate_vector, mul, conjugate, init_from_axis_angle_*", QUAT)], ["rotated vector"])

prop("Q04", "Rotation and translation matrices agree with the quaternion in both layouts",
 "For every unit quaternion, multiplying a homogeneous column vector by its rotation matrix, row-major or column-major, gives the same point as rotating the vector by the quaternion; the matrix is orthonormal with determinant one and its last row and column are those of the identity. The translation matrix of a quaternion moves every homogeneous point by the quaternion's vector part. Both matrices read the same at every row and column whichever layout was requested, and are stored in the requested layout.",
 ["inputs"], "all unit quaternions, all vectors, both layouts, both precisions; all quaternions for translation",
 "A single row-major 90-degree rotation about x is compared; column-major output and translation matrices never run.",
 [QUAT, MAT], [("to_rotation_matrix, to_translation_matrix", QUAT)], ["matrix entries and transformed vectors"])

prop("Q05", "Axis-angle extraction inverts construction and never yields NaN",
 "For every unit quaternion, also one whose components carry the rounding error of a few products, the extracted axis is a finite unit vector and the extracted angle lies in [0, 2 pi], and they describe the same rotation as the quaternion up to rounding (near the identity up to the square root of machine precision). For an axis-angle with angle between 0.01 and 6.27 radians the original normalised axis and angle come back.",
 ["inputs"], "all unit quaternions including those within rounding of +-identity and products q*inverse(q); both precisions",
 "Two 90-degree quaternions are tested; the near-identity branch and scalar parts that exceed one by rounding never run.",
 [QUAT], [("to_axis_angle", QUAT)], ["axis and angle"])

prop("Q06", "A unit normal splits every vector into in-plane and normal parts",
 "For a pure unit quaternion n (a plane normal) and any vector p, the reflection is p - 2(n.p)n, the component orthogonal to the plane is (n.p)n and the component parallel to it is p - (n.p)n, up to rounding. Hence the two components add up to p, the parallel one is perpendicular to n, and reflecting twice gives p back.",
 ["inputs"], "all unit normals and all vectors with components zero or 1e-3..1e3, both precisions",
 "None of the three operations has a test.",
 [QUAT], [("reflection_in_plane, parallel_component_of_plane, orthogonal_component_of_plane", QUAT)], ["returned vectors"])

prop("Q07", "Quaternion logarithm and powers are consistent with the exponential",
 "For a quaternion of length l between 1e-3 and 1e3 with a non-negligible vector part, the logarithm has scalar part ln(l) and vector part along the quaternion's vector part with length acos(w/l), so exponentiating it gives the quaternion back. Raising to the power t equals the exponential of t times the logarithm: power 1 is the quaternion, 0 the identity, 2 its square, -1 its inverse, and powers add and multiply as exponents do while the angle stays within half a turn.",
 ["inputs"], "all such quaternions (scalar part of either sign) and exponents within [-200, 200] for which the length of the power stays in range, both precisions",
 "Neither operation has a test.",
 [QUAT], [("ln, pow", QUAT)], ["returned quaternion"])

prop("Q08", "Quaternion interpolation follows the shorter arc at constant speed",
 "Spherical interpolation between two unit quaternions starts at the first, ends at the second or its negative (whichever is nearer the first), and at every fraction t in [0,1] gives the unit quaternion on the shorter great arc whose angle from the start is t times the whole (where the two are almost parallel, up to an angle of 0.02, the straight path is allowed: the same direction to 3e-7, and a length short of one by at most the eighth part of the square of the angle). Linear interpolation gives the component-wise weighted mean. Fractions below 0 or above 1 act as 0 and 1.",
 ["inputs"], "all pairs of unit quaternions (same and opposite hemispheres, nearly equal, nearly opposite, orthogonal) and all fractions, both precisions",
 "Interpolation has no test.",
 [QUAT], [("interpolate_slerp, interpolate_linear", QUAT)], ["returned quaternion"])

prop("Q09", "Rigid motions compose alike as quaternions and as matrices",
 "After any sequence of rotations (axis and angle in radians or degrees, or two reflections in a row), translations, inversions and squarings, carried along as a rotation quaternion with a translation vector, as a 4x4 matrix in either layout, and in a reference model, every point is moved to the same place by all three up to accumulated rounding. Negating, normalising, or scaling and normalising the quaternion, rebuilding the matrix in the other layout, transposing it twice or multiplying it by the identity changes nothing; the rotation matrix of the accumulated quaternion, and the quaternion rebuilt from its axis and angle, describe the same rotation.",
 ["histories"], "all sequences of up to 40 steps in both precisions, angles up to 4 turns, translations and points with coordinates zero or 1e-3..1e2",
 "No test composes more than one operation or uses the inverse of a matrix made from a quaternion.",
 ["lib/quat.rs", "lib/mat.rs"], [("Quat mul/inverse/rotate_vector/to_rotation_matrix/to_translation_matrix and Mat4 mul/inverse/mul_mat4x1", "lib/quat.rs")], ["moved points, layout flag, quaternion length"])
prop("B01", "Every shape's bounding box encloses the shape and is as tight as can be",
 "The axis-aligned bounding box reported by a point, ray, sphere, cube, segment, triangular prism or plane contains every point of the shape up to rounding. For the bounded shapes it is the smallest such box, and for a ray it is unbounded only on the side each non-zero direction component points to and flat on axes the ray does not move along.",
 ["inputs"], "all shapes with coordinates and sizes zero or 1e-6..1e6, also scaled as a whole by powers of two up to 2^60 either way (prism: non-degenerate base, positive height)",
 "No test looks at a shape's bound; they only see it when it wrongly prunes an intersection.",
 ["lib/bound.rs", "lib/ray.rs", "lib/sphere.rs", "lib/rbox.rs", "lib/line.rs", "lib/triprism.rs", "lib/plane.rs", "lib/point.rs"],
 [("AxisAlignedBBox::init and the shape constructors", "lib/bound.rs")], ["get_bound().get_bound_data()"])

prop("B02", "Box overlap is exactly interval overlap on every axis",
 "Two axis-aligned boxes are reported as overlapping exactly when their closed intervals meet on all three axes, touching included, infinite sides included. The answer is symmetric and a box overlaps itself and everything it contains. The default box is unbounded on every side and overlaps every box.",
 ["inputs"], "all pairs of boxes (finite, flat and half-infinite, down to 1e-90 and up to 1e90 in size), every axis and side of separation",
 "Seven hand-picked pairs; separation on a single axis and side is tested for one axis only.",
 ["lib/bound.rs"], [("AxisAlignedBBox::intersect", "lib/bound.rs")], ["boolean result"])

prop("B03", "The union of boxes is the smallest enclosing box, independent of order",
 "The union of any non-empty list of axis-aligned boxes has, on every axis, exactly the least lower and the greatest upper coordinate of the listed boxes. It does not depend on the order or repetition of the list, on how the list is grouped, or on the previous contents of the box that receives it.",
 ["inputs", "histories"], "all lists of 1 to 300 boxes, all prior receiver states",
 "One union of two boxes into a default box.",
 ["lib/bound.rs"], [("AxisAlignedBBox::get_union", "lib/bound.rs")], ["resulting bounds"])

prop("B04", "Box centroid is the midpoint and the longest axis is really the longest",
 "The centroid of a finite axis-aligned box is the midpoint of its bounds on each axis up to rounding, and the reported data are its lower then upper bounds. The longest-axis query returns an axis whose extent is the maximum of the three, together with that extent.",
 ["inputs"], "all finite boxes of magnitude 1e-90..1e90, any order of the three extents, ties included",
 "Neither query has a test.",
 ["lib/bound.rs"], [("get_centroid, get_longest_axis, get_bound_data", "lib/bound.rs")], ["return values"])

prop("S01", "Support points belong to the shape and are extreme in the asked direction",
 "For every non-zero direction, the support point of a point, sphere, cube or triangular prism lies in the shape and no point of the shape lies farther along the direction, up to rounding; scaling the direction does not matter. Spheres, cubes and prisms give no support point for the zero direction, and unbounded shapes (ray, plane) give none at all.",
 ["inputs"], "all such shapes with coordinates zero or 1e-6..1e6, also scaled as a whole by powers of two up to 2^60 either way, and all directions (axis-aligned, diagonal, tied, of length 1e-30 to 1e30)",
 "Only the support of one sphere is tested, in the positive octant.",
 ["lib/sphere.rs", "lib/rbox.rs", "lib/triprism.rs", "lib/point.rs", "lib/ray.rs", "lib/plane.rs"], [("get_support implementations", "lib/*.rs")], ["returned point"])

prop("S02", "A shape reports the geometry it was built from",
 "Each shape reports its own kind and the data it was constructed with: points, segments, spheres and cubes unchanged; rays and planes with their position unchanged and their direction or normal scaled to length one; prisms with their base vertices and the height vector, which is the right-handed unit normal of the base times the height. The prism's second face is its base moved by the height vector.",
 ["inputs"], "all shapes with coordinates zero or 1e-6..1e6, also scaled as a whole by powers of two up to 2^60 either way, non-zero directions and normals, non-degenerate bases, positive heights",
 "No test reads shape data; wrong data is only noticed if one of the fixed examples changes.",
 ["lib/point.rs", "lib/ray.rs", "lib/sphere.rs", "lib/plane.rs", "lib/rbox.rs", "lib/line.rs", "lib/triprism.rs"], [("init and get_shape_data", "lib/*.rs")], ["get_type, get_shape_data, public fields"])

prop("V01", "The vicinity tolerance alone decides what counts as coincident",
 "Every shape judges two numbers to be within vicinity exactly when they differ by no more than its tolerance (up to rounding); the tolerance is 1e-6 initially and afterwards the absolute value of whatever was last set. Changing one shape's tolerance changes nothing else: not its data, its bound, or another shape's answers.",
 ["inputs", "histories"], "all 7 shape kinds, all sequences of up to 300 tolerance settings, all pairs of numbers",
 "set_vicinity is never called in the tests and within_vicinity only indirectly.",
 ["lib/i_vicinity.rs", "lib/point.rs", "lib/ray.rs", "lib/sphere.rs", "lib/plane.rs", "lib/rbox.rs", "lib/line.rs", "lib/triprism.rs"], [("set_vicinity / within_vicinity", "lib/*.rs")], ["boolean result, shape data and bounds"],
 [("_vicinity", "per-shape tolerance", "lib/*.rs")])

D = "coordinates and sizes zero or of magnitude 1e-6..1e6 (also scaled as a whole, tolerances included, by powers of two up to 2^60 either way), including axis-aligned, touching, concentric and lattice configurations"
prop("I01", "Points intersect exactly when they coincide within the tolerance",
 "Two points are reported as intersecting exactly when on every axis their coordinates differ by no more than the asking point's tolerance (up to rounding). The reported location is the asking point.",
 ["inputs", "configurations"], "all pairs of points with "+D+", all tolerances",
 "Two examples: identical points and points 0.1 apart.",
 ["lib/point.rs"], [("Point3::get_intersect", "lib/point.rs")], ["(bool, location)"])
prop("I02", "A point intersects a plane exactly when it lies on it within the tolerance",
 "A point and a plane are reported as intersecting exactly when the point's distance to the plane is at most the plane's tolerance, up to rounding, on either side of the plane and for any length of the given normal. The reported location is the point.",
 ["inputs", "configurations"], "all planes and points with "+D+", all tolerances",
 "Four examples with one axis-aligned plane.",
 ["lib/plane.rs", "lib/point.rs"], [("Plane::get_intersect", "lib/plane.rs")], ["(bool, location)"])
prop("I03", "A point intersects a ray exactly when it lies on the ray",
 "A point on a ray up to rounding, either exactly the origin or ahead of it by more than the tolerance, is reported as intersecting with a location at that point, for every ray direction including directions along an axis or in a coordinate plane. A point farther than three times the tolerance from the ray, sideways or behind the origin, is reported as not intersecting.",
 ["inputs"], "all rays (any non-zero direction, in particular with zero components) and points, "+D,
 "Six examples, all with the direction (1,1,1).",
 ["lib/ray.rs", "lib/point.rs"], [("Ray3::get_intersect, Point arm", "lib/ray.rs")], ["(bool, location)"])
prop("I04", "A point intersects a sphere exactly when its distance is at most the radius",
 "A point and a sphere are reported as intersecting exactly when the Euclidean distance from the point to the centre is at most the radius, up to rounding, the surface included, in every direction from the centre. The reported location is the point.",
 ["inputs"], "all spheres and points with "+D,
 "Three examples; directions off the axes near the surface are not tried.",
 ["lib/sphere.rs", "lib/point.rs"], [("Sphere::get_intersect, Point arm", "lib/sphere.rs")], ["(bool, location)"])
prop("I05", "A point intersects a cube exactly when it is within half the edge on every axis",
 "A point and a cube are reported as intersecting exactly when on every axis the point is at most the cube's half edge length from its centre, up to rounding, faces included. The reported location is the point.",
 ["inputs"], "all cubes and points with "+D,
 "Two examples.",
 ["lib/rbox.rs", "lib/bound.rs", "lib/point.rs"], [("RecBox::get_intersect, Point arm and the bound test", "lib/rbox.rs")], ["(bool, location)"])
prop("I06", "A point intersects a triangular prism exactly when it is inside the solid",
 "A point and a prism (non-degenerate base triangle in any orientation and position, positive height) are reported as intersecting exactly when the point is within the solid, up to rounding: between the base and the base moved by the height along its right-handed normal, and inside the triangle. The reported location is the point.",
 ["inputs"], "all prisms (any of the 3 vertex rotations, any plane in space) and points inside, outside and near every one of the 5 faces, "+D,
 "One axis-aligned prism with eight points.",
 ["lib/triprism.rs", "lib/point.rs"], [("TriPrism::get_intersect, Point arm", "lib/triprism.rs")], ["(bool, location)"])
prop("I07", "Rays intersect exactly when they share a point",
 "Two rays that cross (at 0.001 rad or more) at a point ahead of both origins (up to rounding; at an origin included where whole-number data along the axes makes it exact), start at the same point, or lie on one line with overlapping extent, are reported as intersecting at a point that lies on both (for a crossing: the crossing point). Parallel rays more than 0.00001 apart, rays whose lines (0.01 rad or more to each other) pass at least 0.001 apart, rays whose lines cross behind either origin (beyond rounding), and rays on one line pointing apart are reported as not intersecting.",
 ["inputs"], "all pairs of rays: crossing, skew, parallel, collinear in all four orders, crossing behind one or both origins; crossing angle at least 0.001 rad or exactly parallel; coordinates zero or 1e-3..1e3",
 "Five examples; no skew pair and no crossing behind an origin among them.",
 ["lib/ray.rs"], [("Ray3::get_intersect, Ray arm", "lib/ray.rs")], ["(bool, location)"])
prop("I08", "A ray intersects a sphere exactly when it reaches it, at the first contact",
 "A ray and a sphere are reported as intersecting exactly when some point at or ahead of the ray's origin is within the sphere, up to rounding. The reported location is on the sphere's surface and on the ray: the first contact when the origin is outside, the exit point when the origin is inside.",
 ["inputs"], "all rays and spheres with "+D+": hitting, missing sideways, behind, origin inside, on the surface, tangent",
 "Six examples along the axes and one diagonal; the origin is never inside.",
 ["lib/ray.rs", "lib/sphere.rs"], [("Ray3::get_intersect, Sphere arm", "lib/ray.rs")], ["(bool, location)"])
prop("I09", "A ray intersects a plane exactly when it meets its front face",
 "A ray whose direction goes against the plane's normal and whose origin is on the normal's side is reported as intersecting at the unique point that is on both. A ray going along the normal (not facing it), a ray whose plane is behind it, and a ray parallel to the plane but off it are reported as not intersecting; a ray lying exactly in an axis-aligned plane intersects at its origin.",
 ["inputs"], "all rays and planes with "+D+"; angle to the plane at least 1e-6 or exactly parallel to an axis-aligned plane",
 "Four examples with one axis-aligned plane.",
 ["lib/ray.rs", "lib/plane.rs"], [("Ray3::get_intersect, Plane arm", "lib/ray.rs")], ["(bool, location)"])
prop("I10", "Spheres intersect exactly when their centre distance is at most the radius sum",
 "Two spheres are reported as intersecting exactly when the distance of their centres is at most the sum of their radii, up to rounding, touching and containment included. The reported location is on the segment between the centres, dividing it in the ratio of the radii (two spheres of radius zero with the same centre meet there), and therefore within both spheres.",
 ["inputs"], "all pairs of spheres, radius zero included, with "+D,
 "Three examples with equal radii.",
 ["lib/sphere.rs"], [("Sphere::get_intersect, Sphere arm", "lib/sphere.rs")], ["(bool, location)"])
prop("I11", "A sphere intersects a plane exactly when its centre is within a radius of it",
 "A sphere and a plane are reported as intersecting exactly when the distance of the sphere's centre to the plane is at most the radius, up to rounding, on either side of the plane and for any length of the given normal. The reported location is the centre's projection onto the plane, and therefore within the sphere.",
 ["inputs"], "all spheres and planes with "+D+", both sides of the plane",
 "Four examples, all with the centre on the normal's side.",
 ["lib/sphere.rs", "lib/plane.rs"], [("Sphere::get_intersect, Plane arm", "lib/sphere.rs")], ["(bool, location)"])
prop("I12", "A segment intersects a triangular prism exactly when they share a point",
 "A segment (zero length included) and a prism of positive height are reported as intersecting whenever they clearly share a point: an end inside, or the segment passing through the solid with both ends outside, through any pair of faces and in any orientation. They are reported as not intersecting whenever they clearly do not, and a reported location lies on the segment and in the prism up to rounding.",
 ["inputs"], "all prisms and segments with coordinates zero or 1e-3..1e3, also scaled as a whole by powers of two: ends inside/outside, through any two faces, through edges' neighbourhood, ending short of a face, passing by, zero length",
 "Eight examples with one axis-aligned unit prism whose face coordinates are exact in binary.",
 ["lib/triprism.rs", "lib/line.rs", "lib/ray.rs", "lib/plane.rs"], [("TriPrism::get_intersect, Line arm", "lib/triprism.rs")], ["(bool, location)"])
prop("I13", "The GJK query on two spheres terminates and agrees with exact geometry",
 "For every two spheres of positive radius whose gap or overlap is at least 0.1 percent of the sum of radii and centre distance (radius ratio up to 1000, any relative direction, concentric and axis-aligned included), the generic support-function query finishes within a bounded number of support evaluations, never panics, and answers exactly whether the spheres overlap. The answer does not depend on the order of the two spheres.",
 ["inputs"], "all pairs of spheres with coordinates zero or 1e-3..1e3, also scaled as a whole by powers of two, within the stated margin",
 "Six examples, all separated pairs lying in directions that end in the first iteration.",
 ["lib/intersect_gjk.rs", "lib/sphere.rs"], [("query_intersect with Minkowski-difference support points", "lib/intersect_gjk.rs")], ["boolean result, number of support evaluations"])
prop("X01", "Who asks does not matter: intersection queries are symmetric",
 "For every supported pair of shapes, asking the first about the second and the second about the first give the same yes/no answer (away from the rounding boundary) and, for a unique intersection, the same location up to rounding. A yes always comes with a location of finite coordinates and implies that the bounding boxes overlap up to the tolerance; a no never comes with a location.",
 ["inputs"], "all 12 supported kinds of pairs (point with point, plane, ray, sphere, cube, prism; ray with ray, sphere, plane; sphere with sphere, plane; segment with prism), "+D,
 "A few fixed pairs are asked both ways.",
 ["lib/point.rs", "lib/ray.rs", "lib/sphere.rs", "lib/plane.rs", "lib/rbox.rs", "lib/line.rs", "lib/triprism.rs"], [("delegation between get_intersect implementations after the bound test", "lib/*.rs")], ["(bool, location) both ways"])
prop("X02", "Answers depend only on the operands, never on earlier queries",
 "In any sequence of queries on a shared collection of shapes (intersection, support, bounds, overlap, GJK) interleaved with tolerance settings, every answer is bit for bit the one that freshly built shapes with the same construction data and tolerance give, intersection answers are the right ones, and no query changes a shape's data, bound or tolerance. Copies answer like their originals, and changing a copy never affects the original.",
 ["histories"], "all sequences of up to 400 operations over collections of up to 10 shapes of all kinds, shapes that share part of their data included",
 "Each test asks fresh shapes one or two questions.",
 ["lib/point.rs", "lib/ray.rs", "lib/sphere.rs", "lib/plane.rs", "lib/rbox.rs", "lib/line.rs", "lib/triprism.rs", "lib/bound.rs", "lib/intersect_gjk.rs"], [("shapes are plain values; queries take shared references", "lib/i_shape.rs")], ["every query result, shape data"])
prop("X03", "Moving, turning or mirroring a scene moves its answers along",
 "For every supported pair of shapes, permuting the axes, mirroring, translating, and scaling by a power of two (tolerances scaled along) leaves the yes/no answer of the intersection query unchanged (away from the rounding boundary), and a unique location moves along with the shapes. The bounding boxes and support points of the moved shapes are the moved ones, and whether two boxes overlap does not change.",
 ["inputs"], "all 12 supported kinds of pairs, "+D+"; all 48 signed permutations of the axes, scales 2^-60..2^60, translations up to 2e4",
 "No test compares a scene with a moved copy; most scenes are along one axis.",
 ["lib/point.rs", "lib/ray.rs", "lib/sphere.rs", "lib/plane.rs", "lib/rbox.rs", "lib/line.rs", "lib/triprism.rs", "lib/bound.rs"], [("get_intersect, get_support and get_bound of every shape treat the axes alike", "lib/*.rs")], ["(bool, location), box, support point, before and after the motion"])
prop("X04", "Different queries about the same geometry never contradict each other",
 "A location reported for two shapes, asked about as a point, is on each of the two (enlarged by the rounding). Growing a sphere, a cube, a prism, a segment or a tolerance never turns a yes into a no. Where a point lies in both of two shapes, the two are reported as intersecting. Queries that ask the same agree: two spheres meet when the centre of one is in the sphere of the summed radius, a sphere meets a plane when its centre is on the plane within the radius, a point in a cube coincides with its centre within half the edge, and a point in a prism is a zero-length segment meeting it (all away from the rounding boundary).",
 ["inputs"], "all pairs of kinds the relation is stated for, "+D,
 "Each test asks one query and compares with a literal; no two queries are compared.",
 ["lib/point.rs", "lib/ray.rs", "lib/sphere.rs", "lib/plane.rs", "lib/rbox.rs", "lib/line.rs", "lib/triprism.rs"], [("get_intersect of every shape", "lib/*.rs")], ["(bool, location) of two related queries"])
prop("X05", "Algebra results depend only on the operands, never on earlier operations",
 "In any sequence of operations on shared quaternions, matrices and vectors (arithmetic, products, norms, inverses, rotations, conversions, interpolation), in either precision and layout, every result is bit for bit the one the same operands built afresh give, and no operation that takes its operands by value or shared reference changes them.",
 ["histories"], "all sequences of up to 300 operations out of 50 kinds over pools of up to 9 quaternions and 7 matrices and vectors each, operands of magnitude 1e-3..1e2 and results of earlier operations, relatives of earlier operands included",
 "Each test performs one operation, or a few on separate operands.",
 ["lib/quat.rs", "lib/mat.rs"], [("quaternions, matrices and vectors are plain values; operations are pure functions", "lib/quat.rs")], ["every result, bit for bit"])
prop("E01", "Supported requests are answered, unsupported ones refused",
 "Building a shape or a box from a slice of the wrong length, accessing a vector component out of range, normalising, inverting or taking the logarithm of the zero quaternion, a box of an unsupported kind, and any operation with a bounding sphere are refused with a panic. Two shapes without a query of their own, GJK on anything but spheres and the support of a segment are refused, or give the right answer: never a no for shapes that share a point, nor a yes for shapes that are apart. Every supported operation on finite operands of magnitude 1e-60 to 1e60 (1e-8 to 1e8 in single precision) is answered without a panic, with a location exactly when the answer is yes.",
 ["inputs"], "all slice lengths 0 to 12, all indices, all pairs of the 7 kinds of shapes, all supported operations on finite operands of magnitude 1e-60..1e60 (single precision 1e-8..1e8)",
 "No test asks for anything outside the contract, and none uses magnitudes far from one.",
 ["lib/point.rs", "lib/ray.rs", "lib/sphere.rs", "lib/plane.rs", "lib/rbox.rs", "lib/line.rs", "lib/triprism.rs", "lib/bound.rs", "lib/bound_sphere.rs", "lib/quat.rs", "lib/mat.rs", "lib/intersect_gjk.rs"], [("assertions of the constructors, unimplemented arms of get_intersect, query_intersect's kind test", "lib/*.rs")], ["panic or answer"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
