"""Titles, statements and anchors of the properties; tools/gen.py turns this into properties.jsonl and MANIFEST.json."""

EXACT = "exact real arithmetic (rounding, overflow and the sign of zero are abstracted)"
TECH = "static analysis: value-graph dataflow over the compiler's IR, normal-form equality per sign cell"
NOTE = ("Each obligation is a probe function over all inputs of one instantiation; the library code and the required formula are summarised from LLVM IR by an abstract "
        "interpreter (no execution) and compared as normal forms in every non-empty sign cell. Assumes " + EXACT + "; trusts clang's front end and engine/. "
        "Obligations the analysis cannot settle are listed in the evidence and are not alarms.")
WHY = "The tests evaluate a handful of fixed sample values; the property quantifies over all component values and over every comparison outcome they can produce."

P = []


def prop(id, title, statement, text, files, mech, over=("inputs",), why=WHY, tech=TECH, level="proof", note=NOTE):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": list(over), "text": text}, why_tests_cant=why,
                  anchors={"files": ["include/vecmath/" + f for f in files], "mechanism": [{"name": n, "where": "include/vecmath/" + w} for n, w in mech]},
                  tech=tech, level=level, note=note))


prop("C01", "Operations have no hidden state and no side effects",
     "The result of every function depends on its arguments only, not on earlier calls or other threads: the library keeps no mutable, thread-local or call-dependent static state, uses no stateful facility of the environment (random numbers, clock, locale changes, standard streams, floating-point environment), "
     "has no mutable members and never writes through a const reference, so const objects can be used by several threads at once and calls can be repeated and reordered freely. Only a stream passed to operator<< is changed.",
     "all calls, histories and schedules: every function, member, variable, cast and reference in every header, instantiated or not; writes to const inputs on every feasible path of the double obligations of C04-C24",
     ["vec.h", "mat.h", "scalar.h", "polygon.h", "convex_hull.h", "vec_io.h"], [("every header of the library", "forward.h"), ("functions with local containers", "convex_hull.h")], over=("inputs", "histories", "schedules"),
     why="A test sees one history on one thread; that no call leaves anything behind for another is a statement about all code, not about sampled results.",
     tech="static analysis: effect rules over the type-checked syntax tree of all headers; write events in the abstract interpretation of the IR",
     note="Syntax facts come from tools/astscan.cpp (clang libraries), the rules are in engine/effects.py. Standard library functions outside the deny list are trusted to have no effects beyond their arguments.")

prop("C02", "Valid calls never break memory, arithmetic or assertion rules",
     "For valid arguments no operation reads or writes outside its objects, uses uninitialised, null or freed memory, divides an integer by zero or fails one of the library's own assertions.",
     "all inputs of the obligations of C04-C24 (13,000 uses of the public interface with their stated domains; the quick tier leaves out the float instantiations), assertions enabled, every feasible path; standard containers and algorithms included",
     ["vec.h", "mat.h", "mat_ext.h", "bbox.h", "polygon.h", "convex_hull.h", "intersection.h", "vec_io.h"], [("assertions", "bbox.h"), ("element access", "vec.h"), ("iterators", "polygon.h"), ("text access", "vec_io.h")],
     why="Sanitizers and tests see the executed inputs only; an access that is out of bounds for one rare input shape needs that input.",
     tech="static analysis: abstract interpretation of the IR with a memory typestate, feasibility of each event's path condition by sign cells",
     note="The interpreter records an event with its path condition for each access it cannot show to be valid; an event is a violation when a member point of the domain satisfies the path condition. Exact real arithmetic.")

prop("C03", "Values never pass through a type that cannot hold them",
     "Operations on double never go through float, floating-point values are converted to integers only where they fit, and operations on long and size_t never go through a narrower or a floating-point type: apart from the rounding of single arithmetic operations nothing of an argument is lost, whatever its magnitude. Conversions the caller asks for are exempt.",
     "all inputs of the obligations of C04-C24 on double, long and size_t, every feasible path",
     ["scalar.h", "vec.h", "mat.h", "vec_io.h"], [("trunc", "scalar.h"), ("arithmetic on components", "vec.h"), ("number parsing", "vec_io.h")],
     why="Tests use small round numbers, which survive float and int32 unharmed; the loss shows for large or fine-grained values only.",
     tech="static analysis: abstract interpretation of the IR, conversion events with value ranges, feasibility by sign cells",
     note="Each fptrunc, fptosi, trunc and sitofp instruction that input-dependent values reach is an obligation: its operand has to fit the target type on every feasible path.")

prop("C04", "Vector operations act component by component",
     "For vectors of 1 to 4 components, the arithmetic operators (with a vector or a scalar on either side), min, max, abs_min, abs_max, clamp, abs, sign, step, smoothstep, mix, floor, ceil, trunc, round, "
     "fract, mod, snap, snapUp, snapDown and correct give in every component exactly what the scalar operation gives for that component of the arguments. average of a range is the component-wise mean of its transformed elements.",
     "all component values, for float, double and (where the operation exists) int, long and size_t components, 1 to 4 components; averages of 1 to 3 elements",
     ["vec.h", "scalar.h"], [("operators and component-wise functions", "vec.h"), ("scalar functions they lift", "scalar.h")])

prop("C05", "Comparison is one lexicographic order, NaN above all numbers",
     "compare of two vectors, of two ranges and of two matrices orders lexicographically by component within the given epsilon, ranks NaN above every number and equal to NaN, and puts a proper prefix first; "
     "==, !=, <, <=, >, >= on vectors agree with it at epsilon zero, so that they form a total order (transitive, antisymmetric, reflexive) even with NaN. "
     "is_equal, is_zero, is_nan and the matrix equality functions accept exactly when every component is within epsilon (is_nan: when some component is NaN).",
     "all component values including NaN, all epsilons >= 0, vectors of 1 to 4 components of float, double, int, long, size_t; ranges of up to 2 vectors; matrices up to 4x4",
     ["vec.h", "mat.h", "scalar.h"], [("compare, relational operators, is_equal, is_zero, is_nan", "vec.h"), ("matrix comparison", "mat.h")])

prop("C06", "Scalar selection, classification and component selection are exact",
     "min, max, abs_min, abs_max (2 to 5 arguments, 2 to 4 for the magnitude versions), safe_min, safe_max (NaN is ignored unless all are NaN), clamp, sign, step, smoothstep, mix, abs, abs_difference, contains, is_equal, is_zero, is_nan and is_inf return exactly the value their definition names. "
     "get_/find_(abs_)max_component and get_abs_max_component_axis select the k-th largest component by value or by magnitude, and report its value, index or signed axis.",
     "all argument values (including NaN and infinities where they are classified), float, double, int, long, size_t; vectors of 1 to 4 components and every k",
     ["scalar.h", "vec.h"], [("scalar selection", "scalar.h"), ("get_/find_max_component family", "vec.h")])

prop("C07", "Rounding, snapping, angles and cyclic indices are exact",
     "trunc, floor, ceil, round (half away from zero), round_up/round_down (away from/towards zero), fract, mod, snap/snapUp/snapDown (to multiples of a positive grid), correct (with 0 decimals and an epsilon up to 1/4) and is_integral give the mathematically defined result for every number. "
     "to_radians/to_degrees are inverse and scale by pi/180, normalize_degrees/normalize_radians return the equivalent angle in one turn starting at 0, succ and pred step cyclically through 0..count-1 by any stride below count, and the named constants have their documented values.",
     "all numbers n+f with integer n and 0 <= f < 1, all positive grids, angles from -4 turns upwards, all indices, counts and strides; float, double, int, long, size_t",
     ["scalar.h", "constants.h", "vec.h"], [("rounding family, snapping, angles, succ/pred", "scalar.h"), ("constants", "constants.h"), ("is_integral", "vec.h")])

prop("C08", "Metric vector functions and their compile-time twins",
     "dot, cross, squared_length, length, squared_distance, distance, normalize, is_unit, is_parallel, is_colinear, is_between and measure_angle compute the Euclidean quantity their name states, and the compile-time variants with suffix _c agree with the run-time ones given an exact square root (sqrt_c itself maps 0 to 0 and negative numbers and NaN to NaN). "
     "In particular normalize yields unit length, cross is orthogonal to both arguments and right-handed, scalar multiples of either sign are parallel, points of one line are colinear, and is_between holds exactly for the points of the closed segment.",
     "all component values (non-zero vectors where a direction is needed), all epsilons >= 0, 1 to 4 components, float and double (dot, cross and squared functions also int and long)",
     ["vec.h"], [("metric functions and _c twins", "vec.h")])

prop("C09", "Construction, conversion, access and slicing keep values in place",
     "Every way to build or read a vector or matrix (value lists, initializer lists (zero padding in vectors), conversion between sizes and component types, extension, fill, axis, named constants, element and column access, x()..w() and swizzles, slice, swizzle/unswizzle, set, homogeneous coordinates) puts each given value in the documented position and leaves nothing else changed. "
     "Matrix values are given row by row and operator[] yields columns.",
     "all component values, vectors of 1 to 4 components, ten matrix shapes up to 4x4, every index; float, double, int, long, size_t",
     ["vec.h", "mat.h"], [("constructors, factories, slices", "vec.h"), ("constructors, factories, set", "mat.h")])

prop("C10", "Matrix arithmetic, products and constant matrices",
     "Matrix addition, subtraction, negation, scaling and division act entry-wise; matrix-matrix and matrix-vector products (vector on either side), and products with points in homogeneous form, equal the textbook sums for every shape, square or not. "
     "transpose, slice and extract_minor move exactly the right entries, and the constant 90/180 degree rotations (right-handed, ccw/cw) and mirrors have the right entries.",
     "all entries, ten shapes up to 4x4 with every compatible second factor up to 4 columns, every slice position; float and double",
     ["mat.h"], [("operators, transpose, slice, extract_minor, rot_90_*, mirror_*", "mat.h")])

prop("C11", "Determinant, adjugate, linear solve and inverse agree",
     "compute_determinant equals the Leibniz sum and compute_adjugate(m)*m = m*compute_adjugate(m) = det(m)*identity for square matrices of size 1 to 4. "
     "invert and lup_solve report success exactly when every pivot of elimination with row pivoting has magnitude at least 1e-15 (so never for a singular matrix), and on success m*invert(m) is the identity and m*lup_solve(m,b) is b.",
     "all entries for sizes 1 and 2; sizes 3 and 4 as row permutations of L*U with |L|<1 below the diagonal, every permutation (size 4: sign patterns of the multipliers per permutation); float and double",
     ["mat.h"], [("compute_determinant, compute_adjugate, lup_find_decomposition, lup_solve, invert", "mat.h")])

prop("C12", "Quaternions and rotation matrices describe the same rotations",
     "Quaternion product is the Hamilton product (associative, norm-multiplicative), scaling scales every component, conjugate inverts a unit quaternion, and applying a unit quaternion to a vector is an orientation-preserving isometry that composes with the product. "
     "Construction from axis and angle, rotation_matrix from axis/angle, from roll/pitch/yaw and from a quaternion all give the right-handed rotation they name and have no translation; quat(from,to) and rotation_matrix(from,to) carry one unit vector to the other (identity when they are within tolerance, half a turn when opposite). "
     "rotation_matrix_to_euler_angles returns angles that reproduce the matrix, also at gimbal lock. angle(), axis(), conversion, equality and is_equal read the components as documented.",
     "all unit quaternions, unit axes, angles and vectors; float and double",
     ["quat.h", "mat_ext.h"], [("quaternion construction and operators", "quat.h"), ("rotation_matrix overloads, rotation_matrix_to_euler_angles", "mat_ext.h")])

prop("C13", "Transformation matrices map points as their names say",
     "translation, scaling, mirror, shear, view, orthographic and perspective matrices have the defining effect on every point; translation_matrix(m)/strip_translation(m) split off exactly the translation column. "
     "scale_bbox_matrix maps the old box onto the new one proportionally, scale_bbox_matrix_with_anchor keeps the anchor fixed, shear_bbox_matrix moves the named side by delta and keeps the opposite side fixed. "
     "coordinate_system_matrix maps a point to its coordinates in the given axes, points_transformation_matrix maps the given points to their images (NaN when degenerate), plane_projection_matrix sends points of the plane to z = 0 and moves only z along the projection direction. "
     "Products of a matrix with a vector or array of vectors equal the list of the products with each element.",
     "all parameter values and points (non-empty boxes, positive widths, invertible systems whose elimination pivots are at least 1e-15; axis-aligned plane normals for projections); lists of 0 to 3 vectors, five matrix shapes; float and double",
     ["mat_ext.h"], [("matrix factories", "mat_ext.h")])

prop("C14", "Bounding boxes are exact interval algebra",
     "A bbox is the product of its closed intervals: construction, center, size, volume, is_empty, is_valid, repair (swaps exactly the inverted intervals), corner, vertices, faces and edges, contains (closed, point or box), encloses (strict), intersects, constrain, relative_position, expand, translate, merge, intersect, merge_all and transform "
     "return what that interval product defines: merge is the smallest box containing both arguments, intersect the largest box contained in both (an empty box at the origin when they do not intersect), transform the smallest box around the images of all corners. "
     "bbox::builder and merge_all give the smallest box around everything added, in any order, and an empty box at the origin while nothing was added. Equality and is_equal compare the bounds.",
     "all bounds and points with min <= max (plus inverted bounds for is_valid and repair), all epsilons >= 0, 1 to 3 dimensions; builders with up to 3 points or boxes; transformations by all affine matrices; float and double, conversion between them",
     ["bbox.h"], [("bbox members", "bbox.h"), ("merge, intersect, repair, builder", "bbox.h")])

prop("C15", "Planes: side, distance, projection and construction agree",
     "A plane is the set of points x with dot(x, normal) = distance: construction from distance or anchor, anchor(), point_distance, point_status (above/below/inside at the given epsilon, default point_status_epsilon), at and xAt/yAt/zAt (the solved coordinate lies on the plane), flip (same points, opposite sides), project_point and project_vector, orthogonally or along a direction (result on/parallel to the plane), equality and is_equal all follow that definition. "
     "plane_normal and from_points give the unit normal of three points (right-hand rule as documented), reject colinear points, and every given point lies on the resulting plane; from_points over a range applies the mapping to the first three elements. "
     "horizontal_plane, orthogonal_plane and aligned_orthogonal_plane contain their point and have the documented normal.",
     "all unit normals, distances, points and directions not parallel to the plane; 2D and 3D; float and double; transformations by translations, positive uniform scalings, axis rotations and mirrors",
     ["plane.h"], [("plane members", "plane.h"), ("plane_normal, from_points, *_plane", "plane.h")])

prop("C16", "Lines, rays and segments: parametrisation, projection and identity",
     "line, ray and segment keep point and direction (end points) as given, convert component-wise, and transform and translate by mapping their points (directions are mapped without the translation and normalised). point_at_distance(distance_to_projected_point) is the orthogonal projection onto the carrier. "
     "Two lines are equal exactly when they contain the same points; make_canonical chooses one representative per line; rays are equal when origin and direction are, and ray::point_status tells the half-space ahead, behind or at the origin. "
     "A segment is an unordered pair of points: end points are stored in lexicographic order also after conversion and transformation, comparison is lexicographic on them, length, squared_length, center and direction follow, contains accepts exactly the points within epsilon of the closed segment, and get_vertices lists the end points of a range of segments in order.",
     "all points, unit directions and parameters, all epsilons >= 0, affine transformations; 1 to 3 dimensions; float and double",
     ["line.h", "ray.h", "segment.h", "abstract_line.h"], [("line, make_canonical", "line.h"), ("ray, point_status", "ray.h"), ("segment", "segment.h"), ("projection", "abstract_line.h")])

prop("C17", "Polygons are cyclic vertex sequences in canonical rotation",
     "A polygon stores its vertices, in cyclic order, starting at a smallest one, however it was made (vector, list, conversion between component types, transform, translate, invert), so that two polygons given by rotations of the same sequence compare equal. "
     "vertexCount, vertices, forward and reverse iteration, hasVertex, center (mean of the vertices), invert (same first vertex, opposite orientation), translate, transform (image of every vertex) and get_vertices follow from the stored sequence. "
     "compare and the relational operators order lexicographically with a proper prefix first; compareUnoriented ranks polygons with fewer vertices first, yields 0 when the sequences agree forwards or backwards, and otherwise the forward lexicographic order.",
     "all vertices; polygons of 0 to 4 vertices (center 5) in 2D and 3D, any position of the smallest vertex for construction and affine transforms of up to 3 vertices; all epsilons >= 0; float and double, conversion to int",
     ["polygon.h"], [("rotate_min_to_front and constructors", "polygon.h"), ("compare, compareUnoriented", "polygon.h")])

prop("C18", "Distances are minimal and the closest points are where they say",
     "squared_distance and distance between a point and a ray or segment, and between a ray and a line, ray or segment, return the smallest distance between points of the two sets and the positions of points where it is attained, clamped to the ray's origin and the segment's end points; position2 of a segment is measured along it from its start. "
     "parallel is set exactly for parallel arguments, whose distance is also the minimum. distance is the root of squared_distance. is_colinear holds for parallel pairs whose distance is at most the given maximum.",
     "all positions, unit directions, non-degenerate segments; 1 to 3 dimensions for points and parallel pairs, 2 to 3 for non-parallel pairs whose squared sine exceeds constants::almost_zero and whose intermediate numerators are clear of it; float and double",
     ["distance.h"], [("squared_distance, distance", "distance.h")])

prop("C19", "Intersections return the first hit, or NaN when there is none",
     "intersect_ray_plane and intersect_line_plane return the distance at which the ray (not behind its origin) or line meets the plane, NaN when parallel. intersect_ray_triangle returns the distance of a hit inside or on the border of the triangle, from either side, and NaN otherwise. "
     "intersect_ray_bbox returns the distance of the entry point when the ray starts outside the box, of the exit point when it starts inside, NaN on a miss, also for rays parallel to sides. intersect_ray_sphere returns the smallest non-negative distance at which the ray meets the sphere, NaN on a miss or when the sphere lies behind. "
     "intersect_ray_torus returns the smallest positive solution of the equation of the torus around the z axis through its position, NaN if there is none. "
     "polygon_contains_point applies the even-odd rule in the projection along the given axis (the largest component of the normal, or of the plane through the first three vertices), counting edges and vertices as inside, for any vertex order and position relative to the scan line; intersect_ray_polygon returns the hit with the polygon's plane if the polygon contains it, NaN otherwise. "
     "intersect_plane_plane returns a line whose points lie on both planes with unit direction along the cross product of the normals, and the zero line for parallel planes.",
     "all rays, planes with unit normals, triangles, boxes of 1 to 3 dimensions (origin off the surface, every combination of direction signs including zero), spheres in 2D and 3D (unit directions, origin off the surface); polygons of 3, 4, 6 and 8 vertices by sign region of the vertices around the point; angles and crossings clear of constants::almost_zero; float and double",
     ["intersection.h"], [("intersect_*", "intersection.h"), ("polygon_contains_point", "intersection.h")])

prop("C20", "Polynomial solvers return exactly the real solutions",
     "solve_quadratic, solve_cubic and solve_quartic return the number of distinct real solutions of the equation, followed by exactly these solutions and NaN in the remaining places; a discriminant within epsilon of zero counts as zero. solve_quartic follows from any solution of its resolvent cubic, which it passes to solve_cubic.",
     "all coefficients with a leading coefficient other than 0 and all epsilons >= 0, discriminants clear of epsilon or exactly zero: quadratics with two, one or no solution; cubics with one, two, three or a triple solution; quartics without absolute term of the depressed equation (in the cases of the cubic) and, for any solution of the resolvent cubic, with r, u and w clear of epsilon; float and double",
     ["scalar.h"], [("solve_quadratic, solve_cubic, solve_quartic", "scalar.h")])

prop("C21", "Lists of vectors and Bezier surfaces",
     "Adding a vector to, and multiplying a number with, a std::vector or std::array of vectors, from either side, yields a list of the same length and order whose elements are the sums or products; the operand is left unchanged. "
     "evaluate_quadratic_bezier_surface is the tensor product of the quadratic Bernstein polynomials with u running along the inner and v along the outer array of control points; it interpolates the corner points and moves with the control points.",
     "all component values, lists of 0, 1, 2, 3, 5 and 8 elements, 1 to 4 dimensions, float, double, int and long; all control points and parameters",
     ["vec_ext.h", "bezier_surface.h"], [("operator+, operator*", "vec_ext.h"), ("evaluate_quadratic_bezier_surface", "bezier_surface.h")])

prop("C22", "Text output is canonical and text input accepts the documented syntax",
     "Inserting a vector writes its components separated by single spaces, a matrix its components row by row, a bbox, line, ray or plane its named parts in the documented format, an approx its value, all with the stream's number format. "
     "parse of a vector or matrix yields the first components in order (matrices row by row) when there are enough of them, separated by blanks or parentheses, with any surrounding blanks or parentheses and ignoring what follows, nothing otherwise, and never reads beyond the given view. parse_all yields all complete vectors in order, separated by blanks, or by commas or semicolons after a closing parenthesis or before a blank.",
     "all component values written; texts of decimal numbers with any digits, with and without sign and fraction, in the layouts of props/C22.py: every blank character, parentheses, empty and all-blank text, missing and surplus components; 1 to 4 dimensions, matrices up to 4x4, lists of up to 3 vectors; float, double, int",
     ["vec_io.h", "mat_io.h", "bbox_io.h", "line_io.h", "ray_io.h", "plane_io.h", "approx.h"], [("operator<<", "vec_io.h"), ("parse, parse_all", "vec_io.h"), ("parse, operator<<", "mat_io.h")])

prop("C23", "Approximate values compare within their epsilon",
     "A number equals an approx exactly when they differ by at most epsilon, and is smaller (greater) than it when it lies below (above) by more than epsilon; <=, >= and != are their complements, from either side. An approximate vector, matrix or line equals one whose components all differ by at most epsilon; the relational operators of approximate vectors compare lexicographically after shifting by epsilon, and lists equal approximate lists of the same length whose elements are equal. "
     "Without an explicit epsilon, constants::almost_zero is used.",
     "all values, all epsilons >= 0; vectors of 1 to 3 dimensions, matrices up to 3x2, lines in 2D and 3D, lists of up to 3 elements; float and double",
     ["approx.h"], [("approx", "approx.h")])

prop("C24", "Convex hulls list exactly the corners, in order",
     "convex_hull of coplanar points returns exactly the corners of their convex hull, each once: no interior points, no points on edges, no duplicates, whatever the order and multiplicity of the given points. The corners run counter-clockwise about the positive coordinate axis closest to the plane's normal, beginning with the lowest (of two lowest, the right one) in the projection along that axis. "
     "The result is empty for fewer than three points and when all points lie on one line or coincide.",
     "all positions of 3 and 4 points in every order of input, with duplicates of a corner and points on an edge or inside; 5 and 6 points with the lowest given first; planes orthogonal to each axis, and triangles in planes tilted by less than 45 degrees; corners clear of colinear by more than constants::colinear_epsilon; float and double",
     ["convex_hull.h"], [("convex_hull", "convex_hull.h")])

prop("C25", "Interfaces are checked at compile time",
     "Every header compiles on its own and suffices for what it declares. Vectors, matrices, quaternions, boxes, planes, lines, rays and segments are trivially copyable and consist of exactly their components without padding; the short names (vec3f, mat4x4d, ..., and the GLSL names in glsh.h) denote the types they say. "
     "Conversions between component types exist but never happen implicitly, and neither dimensions nor scalars convert implicitly; operations on mismatching dimensions or component types, wrong numbers of values, missing components (z() of a 2D vector), oversized slices, determinants of non-square matrices and writes to const objects or to the sorted points of segments and polygons are rejected by the compiler; "
     "results have the component type and the shape of the operation, and what is declared constexpr can be evaluated by the compiler.",
     "every header, every combination of component type (float, double, int, long, size_t, bool), dimension 1 to 4 and matrix shape up to 4x4 listed in props/C25.py",
     ["forward.h", "vec.h", "mat.h", "quat.h", "bbox.h", "plane.h", "line.h", "ray.h", "segment.h", "polygon.h", "glsh.h"], [("type aliases", "forward.h"), ("explicit conversions, enable_if constraints", "vec.h"), ("GLSL names", "glsh.h")], over=("inputs", "programs"),
     why="Tests are programs that compile; that wrong programs do not compile, and that a header needs no companion, cannot be asserted by running them.",
     tech="static analysis: type-level witnesses and compile-fail witnesses checked by the compiler's type checker",
     note="About 960 static_assert witnesses, 24 programs the compiler has to reject, and one or more self-contained uses per header. Layout as on x86-64.")

NA_P = []


def na(id, title, statement, text, files, why, reason):
    NA_P.append(dict(id=id, title=title, statement=statement, quantifier={"over": ["inputs"], "text": text}, why_tests_cant=why, anchors={"files": ["include/vecmath/" + f for f in files], "mechanism": []}))
    NA.append({"property": id, "reason": reason})


NA = []
na("C26", "Floating-point results are within a few units of the exact ones",
   "Every operation on float and double returns the exact result up to a small relative error wherever neither overflow nor cancellation beyond the documented epsilons occurs.",
   "all float and double inputs", ["vec.h", "mat.h", "distance.h", "intersection.h"], "Tests compare fixed samples within an epsilon.",
   "Error bounds of these formulas depend on the magnitudes of run-time values (cancellation in cross products, pivots, discriminants); no static argument in reach bounds them without assuming ranges that the interface does not promise. C04-C24 decide the exact-arithmetic meaning, C03 that nothing is lost to narrower types.")
na("C27", "The compile-time square root converges to the square root",
   "sqrt_c terminates for every non-negative finite argument and returns its square root to the last bit or two.",
   "all non-negative finite float and double inputs", ["scalar.h"], "Tests evaluate a few arguments.",
   "sqrt_c is a Newton iteration that stops when rounding makes it stall: termination and accuracy are properties of floating-point rounding over an unbounded iteration, outside a static argument over the source. C08 decides its clients given an exact root.")
