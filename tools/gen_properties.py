#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). Kept so the prose is editable."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": ["vmmlib/" + f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mech],
         "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Vector arithmetic is exactly element-wise for every size and type",
 "For every dimension and element type, + - * / between two vectors or between a vector and a scalar, scalar * vector, unary minus and negate give, in each component, exactly what the scalar operator of the element type gives on the corresponding components. "
 "The compound forms += -= *= /= produce the same result in place, also when the right-hand side is the vector itself or one of its own components. No operand other than the target changes.",
 ["inputs", "histories"], "all dimensions (1..17 explored), all element types (floating, signed, unsigned, 8-bit), all component values, all sequences of compound operations",
 "tests use dimension 4 (3 once), float/double, one or two literal vectors and never self-aliasing or integer element types",
 ["vector.hpp"], [("per-index loops over the storage array", "Vector::operator+ - * / and the compound forms, vector.hpp"), ("by-value scalar parameters keep v *= v[0] well defined", "Vector::operator*=( const T )")],
 state=[("components", "the M stored values", "Vector::array")], observe=["results of the operators, component by component"])

prop("C02", "Vector products, lengths, normals and rotations obey their identities",
 "dot, squared_length, length, norm, squared_distance, distance and product equal the sums and products that define them, for every dimension and type; cross is the right-handed cross product, also when the destination is one of its operands. "
 "normalize scales a non-zero vector whose squared length is representable to unit length without changing its direction and returns the former length, and leaves the zero vector alone and returns 0; compute_normal is the unit right-hand normal of a counter-clockwise triangle. "
 "rotate turns a vector about an axis of any non-zero length by the given angle by the right-hand rule.",
 ["inputs"], "all vectors, dimensions and element types; all axes and angles",
 "tests check one literal vector for each of these operations; compute_normal, rotate, distance and the in-place cross are never called",
 ["vector.hpp"], [("accumulation loops", "Vector::dot, squared_length, norm, product"), ("cross/normalize/compute_normal/rotate formulas", "vector.hpp")],
 observe=["returned values and the target vector"])

prop("C03", "Every way to build, fill, convert or read a vector sees the same components",
 "A vector is exactly its M components in order: indexing, at(), call syntax, x..w and r..a, forward and reverse iterators, pointer conversion and sub-vector views all read and write the same component for the same index, and the named direction and unit constants have their documented values. "
 "Every constructor, set, assignment, iterator fill and element-type conversion stores the given values in order (converted with static_cast) and leaves every component it is not given unchanged. "
 "Converting to one more dimension appends 1; converting to one dimension less divides by the last component.",
 ["inputs", "histories"], "all dimensions, element types, values, sub-vector offsets, source lengths and sequences of mutating calls",
 "tests build a few 3- and 4-vectors; short source ranges, offsets, reverse iteration and cross-type conversion of out-of-the-ordinary values are not exercised",
 ["vector.hpp"], [("contiguous storage with iterator = pointer", "Vector::array, begin/end"), ("homogeneous conversions selected by enable_if", "Vector::operator=( const Vector< N, T >& )"), ("sub-vector view by offset", "Vector::get_sub_vector")],
 state=[("components", "the M stored values", "Vector::array")], observe=["all accessors"])

prop("C04", "Vector comparison, ordering and search agree with the components",
 "Two vectors without NaN or signed zeros are equal exactly when all components are equal, != is the negation of ==, operator< is the lexicographic strict total order on components, and equals(b, tol) holds exactly when every component pair differs by less than tol, is symmetric, and never holds when a component is NaN. "
 "find_min/find_max and their index forms return the first smallest and first largest component; the abs index forms return the first component of smallest and of largest magnitude. "
 "nnz counts the non-zero components and is_unit_vector holds exactly for vectors with one component 1 and all others 0.",
 ["inputs"], "all pairs and triples of vectors over every dimension and element type, all tolerances",
 "tests compare a handful of literal vectors; ties, negative magnitudes, unsigned differences, NaN, transitivity are outside what they sample",
 ["vector.hpp", "math.hpp"], [("component loops", "Vector::operator<, equals"), ("std::min_element / max_element with comparator", "Vector::find_*_index")],
 observe=["returned booleans and indices"])

prop("C05", "Component-wise vector transforms map each component independently",
 "clamp, sqrt_elementwise, reciprocal, reciprocal_safe, scale_to, cast_from and the free functions min, max, zero and manhattan apply their scalar definition to every component and nothing else: clamp brings each component into [min, max], reciprocal_safe maps 0 to the largest value of the type, scale_to maps a range symmetric about zero linearly onto 0..maximum of the target type. "
 "perturb moves every component by exactly plus or minus the given amount, and set_random fills every component of a signed or floating vector with values in [-1, 1] that depend only on the seed.",
 ["inputs", "histories"], "all component values, dimensions and types, all bounds and seeds, all short sequences of these calls",
 "tests call three of these functions with one vector each",
 ["vector.hpp", "util.hpp"], [("per-component loops", "Vector::clamp, reciprocal_safe, scale_to, cast_from; util.hpp min/max/manhattan/zero")],
 observe=["target vector"])

prop("C06", "Plane and sphere helpers compute true signed distances and projections",
 "The plane built from three non-collinear points has a unit normal oriented so that the points run clockwise seen from its positive side, contains all three points, and distance_to_plane is the signed Euclidean distance of any point to it. "
 "Projecting a point onto a plane with unit normal gives the point of the plane nearest to it; projecting onto a sphere gives the point at the radius in the direction of the input point. "
 "distance_to_sphere is the Euclidean distance to the surface, negative inside.",
 ["inputs"], "all point triples, planes, spheres and query points",
 "no test calls any of these functions except compute_plane through the culler, where only the sign of its result matters",
 ["vector.hpp"], [("cross product of edge vectors, normalised, plus offset", "compute_plane"), ("normal . point + w", "Vector::distance_to_plane, project_point_onto_plane"), ("sphere helpers", "Vector::project_point_onto_sphere, distance_to_sphere")],
 observe=["returned plane, distances and points"])

prop("C07", "Every way to address matrix elements agrees, for every shape",
 "A matrix of M rows and N columns is stored column by column; element (row, column) is the same value through at(), call syntax, [row][col], forward and reverse iterators, row and column getters and setters, sub-matrix getters and setters, translation accessors and transposition, for every shape including non-square ones. "
 "Filling from arrays, iterators (row-major or column-major), vectors and other matrices puts each value at its documented place, stops at the end of the given range, truncates or zero-pads when the shapes differ, and a default matrix is the identity if square and zero otherwise. "
 "A setter changes exactly the elements it names.",
 ["inputs", "histories"], "all shapes up to 5x5 plus 4x4 specials, all rows, columns, offsets and range lengths, all short sequences of setters",
 "tests use a few square or 3x4 shapes, full-length ranges and one row/column each",
 ["matrix.hpp", "matrix_functors.hpp"], [("index = column * M + row", "Matrix::at, row_accessor, get_column, set_column"), ("row-major fill versus std::copy", "Matrix::set"), ("shape conversion", "Matrix::operator=( const Matrix< P, Q, U >& )")],
 state=[("elements", "M*N values, column by column", "Matrix::array")], observe=["all accessors"])

prop("C08", "Matrix and matrix-vector arithmetic is the textbook linear algebra",
 "For all shapes and element types +, -, negation, scalar + - * /, matrix product (multiply, *, *=), element-wise product, matrix-vector product and transpose give exactly the textbook result, with the operator and compound forms equal, also when the right-hand side is the target itself. "
 "Hence products associate and distribute, the identity is neutral, and transpose reverses products. "
 "Applying an (n+1)x(n+1) matrix to an n-vector equals applying it to the vector extended by 1 and dividing by the resulting last component; comparison with a tolerance holds exactly when all elements differ by less than it.",
 ["inputs", "histories"], "all matrices over small exact alphabets for every shape up to 4x4 (and selected larger), all operand aliasings, all short histories of compound operations",
 "tests check one numeric example per operation and never unary minus, self-multiplication or rectangular products beyond 3x4*4x3",
 ["matrix.hpp"], [("triple loop", "Matrix::multiply"), ("copy before in-place product", "Matrix::operator*="), ("homogeneous divide", "Matrix::operator*( const Vector< O, T >& )")],
 observe=["result matrices and vectors"])

prop("C09", "Determinant, minors, adjugate and inverse are mutually consistent",
 "det equals the Leibniz sum for 1x1 to 4x4, each minor is the determinant of the matrix with that row and column removed, and cofactors and adjugate are built from the minors so that A * adj(A) = det(A) * I. "
 "inverse succeeds exactly when |det| exceeds the tolerance, and then writes a matrix whose product with the original on either side is the identity; it reports failure for singular matrices for every tolerance >= 0. "
 "The source matrix is never changed.",
 ["inputs"], "all 2x2, 3x3, 4x4 matrices over exact integer alphabets (complete for the polynomial identities by degree), scaled variants, all tolerances; 5x5 for minors",
 "tests check one matrix per size and never a singular, negative-determinant or minor/adjugate case",
 ["matrix.hpp"], [("closed-form determinants", "compute_determinant"), ("closed-form inverses with tolerance test", "compute_inverse for 2x2, 3x3, 4x4"), ("row/column cutting", "Matrix::get_minor, get_cofactors, get_adjugate")],
 observe=["returned values, success flag, output matrix"])

prop("C10", "Structured matrix products and fills follow their index formulas for all shapes",
 "Kronecker and Khatri-Rao products, direct sum, diagonal fill and symmetric covariance (A times its transpose) place every product at the position their definitions give, for all shapes; the tensor product of two vectors holds u[column]*v[row] at (row, column). "
 "convolve computes, for every element, the kernel-weighted sum of the neighbourhood centred on it (row offset paired with kernel row, column offset with kernel column), repeating border values, from the values before the call. "
 "The square discrete cosine transform matrix is orthonormal and zero/identity fills are exact.",
 ["inputs"], "all shape combinations up to 4 per dimension, position-coded and exhaustive small-alphabet contents",
 "tests check one square example each; rectangular matrices and kernels are not convolved at all",
 ["matrix.hpp", "matrix_functors.hpp"], [("nested index loops", "Matrix::kronecker_product, khatri_rao_product, direct_sum, symmetric_covariance, tensor, diag"), ("border clamping and temporary result", "Matrix::convolve"), ("DCT weights", "Matrix::set_dct")],
 observe=["result matrices"])

prop("C11", "Matrix reductions, counts, thresholds and norms reflect all the elements",
 "get_min and get_max return the smallest and largest element, get_abs_min and get_abs_max the smallest and largest magnitude, whatever the signs of the elements; nnz counts the elements that are non-zero (or exceed the threshold in magnitude) and threshold zeroes exactly the others. "
 "sum_elements, columnwise_sum, sum_rows and sum_columns (pairs of adjacent rows or columns, an odd last one dropped) add exactly the elements they name; frobenius_norm and p_norm are the root of the summed powers of the magnitudes. "
 "is_positive_definite holds exactly when no leading principal minor is below the limit.",
 ["inputs"], "all matrices over signed alphabets for many shapes, every position of the extremal element, all thresholds",
 "tests use one matrix per function, with maximum and minimum non-negative",
 ["matrix.hpp"], [("linear scans with initial accumulator", "Matrix::get_min/get_max/get_abs_*; nnz; threshold"), ("pairwise row/column sums", "Matrix::sum_rows, sum_columns"), ("norms", "Matrix::frobenius_norm, p_norm")],
 observe=["returned scalars and output vectors/matrices"])

prop("C12", "4x4 rotation, scale and translation calls compose as matrix products",
 "rotate_x/y/z, scale and create_*/apply_* multiply the current 4x4 matrix on the right by the right-handed elementary rotation, scaling or translation matrix, and pre_rotate_x/y/z multiply on the left by the inverse of the corresponding elementary rotation; rotate replaces the matrix by the rotation about a unit axis. "
 "set_translation, get_translation, scale_translation and x(), y(), z() read and change exactly the translation column. "
 "Every sequence of such calls therefore equals the product of the individual matrices, and rotations keep the upper 3x3 block orthonormal with determinant 1.",
 ["inputs", "histories"], "all sequences of transform calls up to the depth bound from several start matrices, exact and generic angles, all overloads",
 "the tests check create/apply helpers with one argument each; the in-place and pre_ rotations are never called",
 ["matrix.hpp", "util.hpp"], [("in-place column/row mixing", "Matrix::rotate_x .. pre_rotate_z"), ("column scaling and translation column", "Matrix::scale, set_translation, scale_translation"), ("convenience wrappers", "util.hpp create_*, apply_*")],
 state=[("current transform", "16 elements", "Matrix::array")], observe=["matrix after each call"])

prop("C13", "Quantisation is monotone, saturating and inverts within one step",
 "Quantising to an unsigned type maps [min, max] linearly onto the full range of the type, rounding to nearest and saturating outside it; quantising to a signed type does so for ranges symmetric about zero, negative values landing at most one and a half codes nearer to zero. "
 "The map is monotone, quantize uses the true minimum and maximum of the elements, and dequantize returns every in-range value to within one quantisation step (one and a half for signed types) and never outside [min, max].",
 ["inputs"], "all grids of values over symmetric and asymmetric ranges, all 8- and 16-bit codes, float and double sources",
 "one 4x3 example with tolerance 0.1 in the tests",
 ["matrix.hpp"], [("linear map, +0.5, clamp", "Matrix::quantize_to, dequantize"), ("range from get_min/get_max", "Matrix::quantize")],
 observe=["codes, reconstructed values, min/max outputs"])

prop("C14", "Serialised vectors and matrices read back as the same values",
 "Writing a vector or matrix to a stream of sufficient precision for its element type and reading it back from there restores every element at its place for every shape and several values per stream, and writing a matrix to a raw file (name ending in raw, directory with or without a trailing slash) and reading it back restores it bit for bit. "
 "A missing, short or failing input leaves every element beyond the point where it ends unchanged and every element read completely before it intact, and nothing outside the file or the matrix is touched. "
 "Printing a vector, matrix, frustum, quaternion or bounding box, or writing a matrix to a text file, shows the elements in order, printing a culler its six planes by name, and all of it leaves the stream's format flags and precision as they were.",
 ["inputs", "crash_points", "fault_sequences"], "all shapes and element types, all truncation points of the input, all failing-read positions, all combinations of caller stream flags and precision",
 "no test writes or reads a stream or a file",
 ["matrix.hpp", "vector.hpp", "frustum.hpp", "quaternion.hpp"], [("element-wise text output/input", "write_to_stream, read_from_stream"), ("binary image of the storage", "Matrix::write_to_raw, read_from_raw"), ("save and restore of flags and precision", "operator<<")],
 observe=["restored objects, file contents, stream state"])

prop("C15", "Quaternion arithmetic is Hamilton's algebra",
 "Quaternion sum, difference, negation, scalar multiples and quotients act on all four components; * and *= are the Hamilton product (associative, distributive, norm-multiplicative, also for q *= q), and products, sums and differences with a 3-vector treat the vector as the pure quaternion with w = 0. "
 "conjugate negates x, y, z only; dot, cross, abs and squared_abs are the four-component inner product, the vector-part cross product and the norm; inverse times the quaternion is the identity and normalize makes any non-zero quaternion (whose squared length is representable) unit length. "
 "Constructors, set, comparison and named constants use the order x, y, z, w, and a default-constructed quaternion is the identity.",
 ["inputs", "histories"], "all quaternion pairs and triples over exact small alphabets, float and double, all short histories of in-place operations",
 "tests check one numeric example per operation and none with 3-vectors, inverse, normalize or associativity",
 ["quaternion.hpp"], [("optimised product with 8 multiplications", "Quaternion::operator*="), ("component formulas", "quaternion.hpp")],
 state=[("components", "x y z w", "Quaternion::array")], observe=["result components"])

prop("C16", "Unit quaternions and rotation matrices represent the same rotations",
 "For every unit quaternion get_rotation_matrix is a proper rotation matrix, and it acts on 3-vectors exactly as q v q^-1; the matrix of a product of quaternions is the product of their matrices. "
 "Constructing a quaternion from any rotation matrix (including half turns and angles close to them, about any axis, from 3x3 or the upper block of 4x4) gives a unit quaternion whose matrix is the original one. "
 "rotate, rotate_x, rotate_y and rotate_z of a vector agree with the corresponding rotation matrix.",
 ["inputs"], "all products of a finite rotation group's generators up to the depth bound, half-turn neighbourhoods, dense axis/angle grids, float and double",
 "the tests convert a single 90 degree matrix in one direction",
 ["quaternion.hpp"], [("trace branch and three largest-diagonal branches", "Quaternion::set( const Matrix& )"), ("quadratic form", "Quaternion::get_rotation_matrix")],
 observe=["matrix and quaternion components"])

prop("C17", "slerp follows the shorter great arc at constant speed",
 "For any two non-zero quaternions and any parameter in [0, 1], slerp returns a unit quaternion on the shorter great arc between the normalised inputs, at the fraction of the arc angle given by the parameter; it returns the (sign-adjusted) end points at 0 and 1. "
 "The result does not depend on the lengths of the inputs, represents the same rotation when either input is negated, and is symmetric under swapping the inputs and replacing the parameter a by 1-a. "
 "It is finite and accurate for equal, nearly equal and opposite inputs.",
 ["inputs"], "all pairs from a finite set of unit and non-unit quaternions incl. near-equal and near-opposite ones, all parameters on a grid, float and double, several epsilons",
 "the repository states that no test for slerp exists",
 ["quaternion.hpp"], [("sign flip for negative cosine", "Quaternion::slerp"), ("linear fallback for tiny angles", "Quaternion::slerp")],
 observe=["returned quaternion"])

prop("C18", "Frustum matrices map the view volume exactly onto the clip cube",
 "For every valid frustum compute_matrix maps the eight corners of the perspective view volume, and compute_ortho_matrix those of the box, to the corresponding corners of the cube [-1,1]^3 after the homogeneous divide, near to -1 and far to +1. "
 "adjust_near keeps the viewing pyramid and far plane while moving the near plane, so every sequence of adjustments that returns to the first distance restores the frustum; apply_jitter shifts left/right and bottom/top together; set_perspective gives the symmetric frustum with the requested vertical field of view in degrees and aspect ratio at the near plane. "
 "Width, height, accessors, conversions and array constructors refer to the same six values in the order left, right, bottom, top, near, far.",
 ["inputs", "histories"], "all frusta over parameter grids, float and double, all sequences of adjust/jitter/set calls up to the depth bound",
 "tests build one symmetric frustum and never use ortho, set_perspective, adjust_near or jitter",
 ["frustum.hpp"], [("glFrustum / glOrtho formulas", "Frustum::compute_matrix, compute_ortho_matrix"), ("ratio scaling", "Frustum::adjust_near"), ("field-of-view formula", "Frustum::set_perspective")],
 state=[("six plane values", "left,right,bottom,top,near,far", "Frustum::array")], observe=["matrices and accessors"])

prop("C19", "Frustum culling classifies spheres and boxes correctly",
 "After setup from a projection matrix or from the eight frustum corner points, test_sphere and test_aabb return not visible exactly when the object lies entirely on the outer side of (or touching from outside) at least one frustum plane, fully visible exactly when it lies on the inner side of all six, and partially visible otherwise, with true Euclidean distances to the planes. "
 "An object that has a point inside the frustum is therefore never reported invisible, both ways of setting up the same frustum give the same answers, and the order of a box's interval bounds does not matter. "
 "Setting up again fully replaces the previous frustum.",
 ["inputs", "histories"], "all objects on lattices around the planes of several frusta and model-view transforms, all six planes, tangent positions, all sequences of two setups",
 "tests cull three spheres and three boxes along the view axis against one frustum",
 ["frustum_culler.hpp", "vector.hpp"], [("plane extraction row3 +- row_i and normalisation", "FrustumCuller::setup( Matrix )"), ("planes through corner triples", "FrustumCuller::setup( corners ), compute_plane"), ("distance tests per plane", "FrustumCuller::test_sphere, _test_aabb")],
 state=[("six planes", "normalised plane equations", "FrustumCuller")], observe=["returned visibility"])

prop("C20", "A bounding box always is the hull of what was merged into it",
 "After any history of setEmpty, set, setMin/setMax and merges of points and boxes, the box's minimum and maximum are the component-wise extremes of everything merged since the last reset, independent of merge order and repetition, for floating and integer types; an empty box is the neutral element of merge. "
 "isIn (point or sphere) and isIn2d hold exactly when the point, or the whole sphere, lies within the closed bounds; isEmpty holds exactly when the extent is not positive in some axis. "
 "Center, dimension, sphere/cube constructors, scalar arithmetic and comparison agree with the bounds.",
 ["histories", "inputs"], "all operation sequences up to the depth bound over a small lattice of points, boxes and spheres, for float, double and int",
 "tests run one history of three merges and query four getters",
 ["aabb.hpp"], [("component-wise min/max in merge", "AABB::merge"), ("inverted extreme values as empty", "AABB::AABB, setEmpty, isEmpty"), ("closed-interval tests", "AABB::isIn, isIn2d")],
 state=[("bounds", "min and max corner", "AABB::_min, _max")], observe=["getMin, getMax, isIn, isEmpty"])

prop("C21", "Ray-sphere intersection reports the first surface point on the ray",
 "For a ray with any non-zero direction (whose squared length is representable) and a sphere, test_sphere returns true exactly when some point at non-negative distance along the ray lies on the sphere, and then t is the Euclidean distance from the origin to the nearest such point, or to the exit point when the origin is inside. "
 "The direction's length does not matter, and t is left untouched when there is no hit.",
 ["inputs"], "all origins and directions on a lattice, spheres of several radii, incl. origin inside, behind, tangent rays",
 "the test shoots one ray along x at one sphere",
 ["intersection.hpp"], [("normalised direction, projection and Pythagoras", "Intersection::test_sphere")],
 observe=["returned flag and t"])

prop("C22", "The low-pass filter's output depends only on its last M inputs",
 "After every add the output is the newest value blended, going back in time, with each of the previous up to M-1 values with weights f, f^2, f^3 ... of the smoothing factor current at that add; values older than the last M never influence it. "
 "A constant input yields that constant, factor 0 yields the newest value, and the value returned by add is what get, * and -> report until the next add, whatever changes are made to the factor in between. "
 "Filtering a vector filters its components independently.",
 ["histories"], "all sequences of add and set_smooth_factor up to the depth bound for window sizes 1..5, scalar and vector element types",
 "the test runs one sequence of five adds with one factor",
 ["lowpass_filter.hpp"], [("bounded deque of recent values, newest first", "LowpassFilter::add"), ("geometric blending weights", "LowpassFilter::add")],
 state=[("window", "up to M latest inputs", "LowpassFilter::_data"), ("factor", "smoothing factor", "LowpassFilter::_smooth_factor")], observe=["get, add's result, operator*, operator->"])

prop("C23", "QR decomposition reproduces A with orthonormal Q and triangular R",
 "For every matrix with linearly independent columns and at least as many rows as columns, the decomposition yields Q whose first N columns are orthonormal and an upper triangular R with positive diagonal such that the first N columns of Q times R equal the input. "
 "Columns of Q beyond N are zero, the input matrix is unchanged, and earlier contents of Q and R do not matter.",
 ["inputs"], "all full-rank matrices over small integer alphabets up to 3x3 (plus larger bounded neighbourhoods), float and double",
 "the only test compares one matrix and fails at this commit for an unrelated expectation",
 ["qr_decomposition.hpp"], [("Gram-Schmidt over columns", "qr_decompose_gram_schmidt")],
 observe=["Q and R"])

prop("C24", "Checked builds reject every out-of-range index and nothing else",
 "With bounds checking on (the default without NDEBUG), every indexed vector or matrix access (at, call syntax, [row][col], row/column getters and setters, sub-matrix getters and setters, assignment from a too short std::vector) with any index at or beyond the bound throws vmml::exception before any element outside the object is touched, while every index within bounds succeeds. "
 "A read or whole-row/column write that throws leaves the object unchanged, and the exception describes where it came from.",
 ["inputs", "configurations"], "all shapes and element types, all index pairs from 0 to bound+2 and extreme values, with and without conversion operators",
 "one 'safe accessors' case tries three indices on one matrix",
 ["vector.hpp", "matrix.hpp", "exception.hpp", "vmmlib_config.hpp"], [("VMMLIB_SAFE_ACCESSORS guards", "at, operator[], row_accessor, get/set_row/column, get_sub_matrix"), ("throwing error macro", "VMMLIB_ERROR")],
 observe=["thrown exception, object contents"])

prop("C25", "Threads using separate objects, or sharing constant ones, never interfere",
 "Any two or three operations running concurrently in different threads, each writing only its own objects and sharing at most unmodified operands and the library's constants, produce under every interleaving exactly the results they produce when run alone. "
 "No operation (other than the documented users of rand()) keeps hidden mutable state shared between calls.",
 ["schedules"], "all interleavings, at the granularity of memory accesses, of all pairs of catalogue operations over shared constant operands",
 "tests are single-threaded",
 ["vector.hpp", "matrix.hpp", "quaternion.hpp", "frustum.hpp", "frustum_culler.hpp", "aabb.hpp", "intersection.hpp", "lowpass_filter.hpp", "qr_decomposition.hpp", "util.hpp"],
 [("temporaries are automatic variables, operands are const", "every operation that needs scratch space: convolve, get_minor, operator*=, sum_rows, read_from_raw"), ("static constants are initialised before use and never written", "Matrix::IDENTITY/ZERO, Vector::ONE/ZERO, Quaternion::IDENTITY")],
 observe=["memory accesses and results of each thread"])

prop("C26", "Results depend only on operands: no history effects, no side effects",
 "An operation's result is a function of its operand values only: it is bit-identical whatever other operations ran before, whatever the previous content of the object receiving the result, and however often it is repeated. "
 "Constant operands and library constants are never modified, no memory outside the operands and result is touched, and copies are independent of their originals. The program's floating-point mode, locale, standard streams, open files and (except for perturb and set_random) rand() state are left as they were.",
 ["histories", "inputs"], "all ordered pairs and triples of operations of the whole API catalogue, with clean and dirty result objects, under memory checking",
 "tests run each operation once in a fixed order, on freshly built result objects, without memory checking",
 ["vector.hpp", "matrix.hpp", "quaternion.hpp", "frustum.hpp", "frustum_culler.hpp", "aabb.hpp", "intersection.hpp", "lowpass_filter.hpp", "qr_decomposition.hpp", "util.hpp"],
 [("no static mutable state", "all headers"), ("results fully written before being read", "multiply, inverse, get_minor, compute_matrix, qr_decompose")],
 observe=["bytes of operands, results and surrounding memory"])

prop("C27", "Results do not depend on the build configuration",
 "The same computation gives the same results (bit-identical for exactly representable ones, within a few rounding units otherwise) in checked and unchecked (NDEBUG) builds, at every optimisation level, with both compilers, in C++11 to C++17, and with or without the conversion-operator and typedef switches. "
 "Every public operation of the API can be instantiated in all these configurations, and every public header compiles when it is the only one included.",
 ["configurations", "inputs"], "all combinations of assertion setting, optimisation level, compiler, language standard and library switches in the list, over the operation catalogue's inputs",
 "the tests are built in exactly one configuration (gcc, Debug, one standard)",
 ["vmmlib_config.hpp", "vector.hpp", "matrix.hpp", "quaternion.hpp", "exception.hpp"], [("configuration switches", "vmmlib_config.hpp"), ("conditional accessors", "Vector::operator[], Matrix::operator T*")],
 observe=["result digests per configuration"])

prop("C28", "Version comparison macros order versions correctly",
 "For every triple of version numbers exactly one of newer, same, older holds relative to the library's own version in the usual lexicographic order: VMMLIB_VERSION_GT and _LT are mutually exclusive, _GE is the negation of _LT, _LE of _GT, and both _GE and _LE hold exactly at the library's version. "
 "The version numbers are those configured by the build.",
 ["inputs", "configurations"], "all triples in a cube around the version and boundary values, for the configured and for substituted library versions",
 "no test uses the macros",
 ["version.in.hpp"], [("nested comparison of major, minor, patch", "VMMLIB_VERSION_GT/GE/LT/LE")],
 observe=["macro values, also in preprocessor conditionals"])

prop("C29", "Scalar math helpers and matrix comparison functors meet their definitions",
 "math::pythag returns the Euclidean length of (a, b) for all signs and orders of magnitude without overflow or underflow in between, math::sign returns |a| with the sign of b, math::squared the square, and abs_less / abs_greater order by magnitude. "
 "The functors that allow inverted rows or columns report equality exactly when each row (column) of one matrix equals the other's or its negative, exactly or within the tolerance, for every combination of inverted rows (columns). "
 "The free equals(a, b) on scalars holds exactly for differences below single-precision epsilon.",
 ["inputs"], "all value pairs over sign/magnitude grids, all inversion masks for shapes up to 4x4",
 "tests call scalar equals on three pairs; the functors and helpers are never called",
 ["math.hpp", "matrix_functors.hpp", "util.hpp"], [("branch on larger magnitude", "math::pythag"), ("row/column loops with negation", "matrix_equals_allow_inverted_rows/columns")],
 observe=["returned values"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
