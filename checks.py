"""What each property's check compiles and runs."""
import config_check
import version_gen

PLAIN = ["-O1", "-ftrivial-auto-var-init=pattern"]
ASAN = ["-O1", "-g1", "-fsanitize=address,bounds", "-fno-sanitize-recover=all",
        "-ftrivial-auto-var-init=pattern", "-fno-omit-frame-pointer"]

ASAN0 = ["-O0"] + ASAN[1:]


def parts(src, n, flags=PLAIN, **kw):
    """One source compiled n times with -DPART=i (parallel compilation)."""
    return [dict(src=src, flags=flags + ["-DPART=%d" % i], tag="p%d" % i, **kw)
            for i in range(n)]

OPS = ["../ops/%s.cpp" % n for n in ("vec", "mat", "geo", "edge")]

CHECKS = {
    "C01": dict(
        units=parts("c01_vector_arith.cpp", 11),
        bounds="dimensions 1,2,3,4,5,8,17; float,double,int,unsigned,uint8,"
               "short,long long; every operator form and aliasing; operand "
               "tuples exhaustive over the alphabet for small products, else "
               "all vectors within 2 (thorough 3) deviations of two distinct-"
               "valued base vectors; all in-place histories to depth 5 (7)"
               "; every dimension's elements each put through all their magnitudes, signs and specials (infinities, NaN, -0, subnormals); dimensions 33..300 around 64, 128 and 256 with 1 deviation; scalars and operands of another element type"),
    "C02": dict(
        units=parts("c02_vector_metric.cpp", 8),
        bounds="dimensions 1..9 and 17, 9 magnitudes from 1e-120 to 1e120, "
               "all lattice vectors/triangles over 3-7 letters, 11 (60) angles "
               "x 63 axes x 3 lengths, all destination aliasings"
               "; ladders of factors 2^k in one operand against the other, points at every distance, almost unit vectors and axes, angles of many turns, dimensions to 300, axes and operands of another element type"),
    "C03": dict(
        units=parts("c03_vector_access.cpp", 10),
        bounds="dimensions 1..5, 9, 17; 6 element types; all sequences of 2-3 "
               "(thorough 4-5) mutators from a catalogue of 17 families with "
               "all their variants (lengths, offsets, source types); every "
               "accessor compared with an array model after each"
               "; dimensions to 257 with one position changed"),
    "C04": dict(
        units=parts("c04_vector_compare.cpp", 8),
        bounds="dimensions 1..5, 8, 17; 7 element types; all pairs (triples for "
               "the order laws) over boundary alphabets, all tolerances of a "
               "list incl. negative, infinite and NaN, <=3-4 deviations from "
               "equal and different bases for the larger dimensions"
               "; signed/unsigned bytes; every position of a difference for dimensions to 300; one-rounding-step differences"),
    "C05": dict(
        units=parts("c05_vector_transform.cpp", 7),
        bounds="dimensions 1..4, 9; 6 element types; all tuples over boundary "
               "alphabets (full product while <=300 (70000) tuples, else <=3-4 "
               "deviations), all ordered clamp bounds, own-component bounds, "
               "400-20000 seeds, all histories of 6 in-place transforms to "
               "depth 5-8"
               "; every transform on every magnitude; dimensions to 257"),
    "C06": dict(
        units=parts("c06_plane_sphere.cpp", 2),
        bounds="float, double; all non-collinear triples of a 27 (64) point "
               "lattice x 3 scales x 2 offsets x 27 query points; 11 unit "
               "normals x 4 offsets x 125 points; 27 centres x 4 radii x 125 "
               "points x 3 scales"
               "; points at every order of magnitude from plane, surface and centre; points of another element type"),
    "C07": dict(
        units=parts("c07_matrix_access.cpp", 13, ASAN),
        bounds="20 shapes from 1x1 to 5x5, 1x9, 9x1; 6 element types; all "
               "sequences of 2 (thorough 3) mutators from 23 families with all "
               "indices, offsets, range lengths 0..M*N+2 and iterator kinds; "
               "every accessor compared with a table model after each; under "
               "AddressSanitizer with canaries"
               "; shapes to 300 rows and 340 elements"),
    "C08": dict(
        units=parts("c08_matrix_arith.cpp", 13),
        bounds="all 64 product shapes up to 4x4x4 in float and int plus "
               "5x7x6, 1x9x1 and others in 6 types; operand entries within 2-3 "
               "deviations of two distinct-valued and one zero base, complete "
               "alphabets for the smallest shapes; every aliasing; all 3^12 "
               "triples of 2x2 matrices for the algebraic laws; all histories "
               "of 11 in-place operations to depth 5-8"
               "; shapes to 257 rows and 20x17x18 products; zeros, infinities, NaN; almost special factors; every w of a transformed point; another element type"),
    "C09": dict(
        units=parts("c09_inverse.cpp", 5), bounds="every 2x2 over -3..3 (-4..4 int), 3x3 over {-1,0,1} (thorough "
               "-2..2), 4x4 over {0,1} (thorough {-1,0,1}: 43 million), 5x5 "
               "within 2-6 deviations of three bases; power-of-two row/column "
               "scalings; real-valued neighbourhoods; tolerances 0, default, "
               "|det| and its two neighbours, |det|/2, 2|det|; float, double, "
               "int"
               "; structured matrices with one entry off by every power of two; every scale"),
    "C10": dict(
        units=parts("c10_structured.cpp", 13, ASAN), bounds="Kronecker and direct sum for all 81 shape combinations 1..3 "
               "in int and selected larger/other types, Khatri-Rao 1..4x1..3x1..4, "
               "covariance/tensor 1..4x1..5, convolution of 11 image shapes with "
               "12 kernel shapes, DCT sizes 1..16; position-coded contents with "
               "<=2 (3) deviations, all unit kernels and unit images; under "
               "AddressSanitizer with canaries"
               "; sizes to 100, images to 33x4 and 18x17 with kernels to 9x1"),
    "C11": dict(
        units=parts("c11_reductions.cpp", 7), bounds="24 shapes x 7 element types; complete alphabets (5-11 "
               "letters incl. infinities and type extremes) for <=20000 "
               "(400000) matrices, else all within 2 (3) deviations of an all-"
               "negative, all-positive, mixed and zero base; thresholds = every "
               "magnitude and its neighbours; 6 exponents; all 2x2 over -3..3 and "
               "3x3 over 3 (5) values for definiteness with 9 limits"
               "; every element swept over 40 decades beside elements of other magnitudes (norms and sums), shapes to 400 elements, thresholds equal to own elements"),
    "C12": dict(
        units=parts("c12_transform.cpp", 2), bounds="22 calls x 8 angles x 8 axes x 4 vectors x 3 start matrices x "
               "4 type combinations singly; all sequences of 3 (4) calls "
               "stepwise, of 4 (6) calls against the whole product"
               "; every call with arguments next to its special cases; argument types other than the element type"),
    "C13": dict(
        units=parts("c13_quantise.cpp", 2), bounds="4 points around every code boundary (all codes of 8- and 16-"
               "bit types, every 131072nd (1024th) of 32-bit), 12 ranges, float "
               "and double; every code decoded; 2x2, 1x3, 3x4 matrices within 3 "
               "(4) deviations of 3 bases for the range"
               "; values far outside the range; ranges of every order of magnitude"),
    "C14": dict(
        units=parts("c14_serial.cpp", 3, ASAN) + [
            dict(src="c14_serial.cpp", flags=PLAIN + ["-DPART=3"],
                 ldflags=["-rdynamic"], tag="p3"
               "; streams of 100- and 63-element objects; every cut of a 33x11 raw file; raw files over 64 KiB cut beside every 4096 byte border; csv files"),
            dict(src="c14_serial.cpp", flags=ASAN + ["-DPART=4"], tag="p4")],
        bounds="1-3 objects of 5 shape pairs per stream, 8 element types, 2-3 "
               "formats, boundary values in <=2 (3) positions; every truncation "
               "point of the text with end or error; every raw file length, "
               "old file contents, missing directory; every pattern of <=4 (6) "
               "short/interrupted/failing read, write, writev calls; 576 stream "
               "flag combinations x 4 precisions for printing"),
    "C15": dict(
        units=parts("c15_quaternion.cpp", 2),
        bounds="float, double; all pairs of quaternions over 5 (6) integers and "
               "3 (5) reals, all triples over 3 (4) integers, all quadruples of 9 "
               "component values x 3 scales, all histories of 17 in-place "
               "operations to depth 5 (7)"
               "; pairs that differ by every order of magnitude; almost unit, real and pure quaternions"),
    "C16": dict(
        units=parts("c16_rotation.cpp", 2),
        bounds="float, double; integer quaternions to 3 (6) per component, 124 "
               "(342) axes x 2 (3) tilts x 73 (361) angles and 76 (148) angles at "
               "logarithmic distances from 0 and the half turn; products of 4 (6) "
               "of 6 generators on either side; 3x3, 4x4 and 5x5 matrices"
               "; simple rotations off by every order of magnitude"),
    "C17": dict(
        units=parts("c17_slerp.cpp", 2),
        bounds="float, double; all pairs over {-1,0,1} ({-1,0,1}x5 values) per "
               "component x 9 length pairs x 7 (22) parameters; pairs at distance "
               "1..1e-17 from equal and opposite with 4 epsilons; both sides of "
               "the sign decision; nested interpolation to depth 3 (5)"
               "; pairs nearly half a turn apart; parameters next to 0, 1/2 and 1; lengths next to 1"),
    "C18": dict(
        units=parts("c18_frustum.cpp", 2),
        bounds="float, double; 972 (over 10000) frusta on a lattice "
               "incl. off-centre ones and far/near to 1000; 59 (359) "
               "fields of view x 5 aspect ratios x 4 near x 3 far "
               "distances; all histories of 9 operations (adjust_near, "
               "jitter, set_perspective, assignments) to depth 6 (8) "
               "from 2 starts, state-hashed"
               "; near plane moves and jitters of every order of magnitude; almost empty, almost symmetric, tiny and huge frusta; extreme opening angles"),
    "C19": dict(
        units=parts("c19_culler.cpp", 2),
        bounds="float, double; 7 frusta x 5 views set up from matrix or "
               "corners after 3 earlier set-ups; spheres of 4 radii and "
               "boxes of 4 (6) sizes in 8 interval orders on a 6^3 (7^3) "
               "lattice around each; objects tangent to, crossing and "
               "just missing each plane (0, 1e-3, 1/32 off), from both "
               "sides, at 9 places"
               "; distances, radii, extents, scenes and matrices of every order of magnitude"),
    "C20": dict(
        units=parts("c20_aabb.cpp", 2),
        bounds="8 element types incl. integers and long double; all "
               "histories of 14 operations plus merges of up to 7 points "
               "and 3 boxes to depth 4 (6), state-hashed; all merge "
               "sequences of length 4 (6); every query on every box of a "
               "lattice; spheres and cubes with radii beyond 2^24"
               "; pairs of boxes whose faces coincide or are inside or outside by every power of two"),
    "C21": dict(
        units=parts("c21_intersection.cpp", 2),
        bounds="float, double; origins, directions (3 lengths over 9 "
               "decades) and spheres on 4^3 (5^3) lattices; rays passing "
               "at 0..1.5 radii (to 1e-4 of tangent) from 9 distances; "
               "exact axis-parallel rays of 5 lengths incl. tangents and "
               "origins on the surface; t untouched checked by canary"
               "; almost tangent, almost on the surface, almost unit directions; spheres of every size at every distance"),
    "C22": dict(
        units=parts("c22_lowpass.cpp", 2),
        bounds="M = 1..5, float, double, vectors; all histories of 11 "
               "operations (6 inputs incl. infinity, 4 factors, copies) "
               "to depth 5 (7) from new and used filters, state-hashed; "
               "constant inputs to length 3M for 21 factors"
               "; windows 16,17,20,33,65,130 filled past their length; factors and values close to each other"),
    "C23": dict(
        units=parts("c23_qr.cpp", 2),
        bounds="float, double; 8 shapes to 4x2, 3x3 exhaustive over 3-6 "
               "values, 6 shapes to 9x6 within 1-2 (2-4) deviations of 3 "
               "bases, 3 scales, dirty Q and R; independence of columns "
               "decided by a long double reference"
               "; almost orthogonal, triangular and dependent matrices; every scale"),
    "C24": dict(
        units=parts("c24_bounds.cpp", 6, ASAN0) + [
            dict(src="c24_bounds.cpp", tag="noconv", flags=ASAN0 +
                 ["-DPART=6", "-DVMMLIB_NO_CONVERSION_OPERATORS"]),
            dict(src="c24_bounds.cpp", tag="custom", flags=ASAN0 +
                 ["-DPART=7", "-DNDEBUG", "-DVMMLIB_CUSTOM_CONFIG",
                  "-DVMMLIB_SAFE_ACCESSORS", "-DVMMLIB_THROW_EXCEPTIONS"])],
        bounds="12 matrix shapes to 8x9, 6 vector sizes, 8 element types; "
               "every checked access with every index 0..bound+1 and 22 "
               "values that wrap or truncate in index arithmetic; sequences of "
               "2 (4) accesses with rejected ones in between; default, "
               "NO_CONVERSION_OPERATORS and custom checked NDEBUG builds; "
               "objects alone on the heap under ASAN"),
    "C29": dict(
        units=parts("c29_math.cpp", 3),
        bounds="pythag: float, double, long double, 48 (144) magnitudes over "
               "the whole exponent range paired with each other and with 11 "
               "nearby ratios, all signs; sign/comparators on 13 boundary "
               "magnitudes; functors on all pairs of small matrices and all "
               "row/column inversion patterns of 5 larger shapes with 1 (2-3) "
               "changed elements, 6 tolerances; equals for 6 type pairs"
               "; every exponent of each type; differences and tolerances of every order of magnitude"),
    "C25": dict(
        units=[dict(src=["c25_threads.cpp", "c25_selftest.cpp"] + OPS,
                    flags=["-O1", "-pthread"],
                    src_flags={s: ["-fsanitize=thread"]
                               for s in OPS + ["c25_selftest.cpp"]},
                    ldflags=["-Wl," + ",".join("--wrap=" + f for f in (
                        "memcpy memmove memset memcmp __cxa_guard_acquire "
                        "__cxa_guard_release __cxa_guard_abort "
                        "pthread_mutex_lock pthread_mutex_trylock "
                        "pthread_mutex_unlock pthread_once").split())])],
        bounds="about 440 operations (all but the documented users of rand()), two "
               "threads sharing write-protected operands: every operation with "
               "itself on all operand set pairs and all ordered pairs, one "
               "preemption at every access to memory that is not the thread's "
               "own (thorough: two preemptions, all operand sets, all triples); "
               "operations that write such memory are explored in fresh "
               "processes over all interleavings of conflicting accesses, "
               "guards, atomics and mutexes up to 2 (3) preemptions with "
               "happens-before race detection; the machinery is checked "
               "against 5 broken and 6 correct operations each run",
        technique="stateless model checking of the compiled operations under "
                  "a controlled scheduler (instrumented memory accesses, "
                  "partial-order reduction, preemption bounding, "
                  "happens-before race detection)"),
    "C26": dict(
        units=[dict(src=["c26_history.cpp"] + OPS, tag=t, flags=f)
               for t, f in (("asan", ["-O1", "-fsanitize=address,bounds",
                                      "-fno-sanitize-recover=all",
                                      "-fno-omit-frame-pointer"]),
                            ("plain", ["-O1"]))] +
              [dict(src="c26_streams.cpp", flags=PLAIN)],
        bounds="about 440 operations of the whole API (half in float, half in double) "
               "on 6 operand sets; all repetitions, all ordered pairs with all "
               "operand set pairs and all mixed-type pairs in one process under "
               "AddressSanitizer; all ordered pairs (thorough: all set pairs "
               "and all ordered triples) each in a fresh process; 5 patterns "
               "of previous contents of result objects, stack and heap; every "
               "operation alternated with every operand set that differs from "
               "its own in one scalar by one of 9 changes (one rounding step, "
               "1e-9 to 1e-3, sign, +1, exchange, distant); operands in "
               "read-only memory; result objects that hold the result, nearly "
               "the result or an operand; the program's floating point mode, streams, files, locale and rand() state compared around every operation; all histories of stream settings "
               "before and after printing"),
    "C27": dict(
        run=config_check.run,
        bounds="quick 14 configurations chosen so that every compiler, dialect "
               "(C++11, 14, 17, GNU), optimisation level (0-3, s, g), NDEBUG "
               "setting and switch combination occurs with most others; "
               "thorough the full product (%d); in each, all catalogue "
               "operations (about 440) on 6 operand sets, and each of 17 "
               "public headers alone" % len(config_check.thorough())),
    "C28": dict(
        units=[dict(src="c28_version.cpp", flags=PLAIN,
                    prepare=version_gen.prepare)],
        bounds="the header is generated by the tree's own configure_file for "
               "its configured version and all 27 versions over {0,1,2}^3; each "
               "is compared with all triples over 11 values per component at run "
               "time, all triples over 8 values in #if, and expression arguments"),
}

TECHNIQUE = ("exhaustive bounded exploration of the real code against a "
             "reference model (stateless choice enumeration, state hashing)")
NOT_APPLICABLE = {}
