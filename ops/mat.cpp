// Catalogue: Matrix, util.hpp and the matrix functors.
#include "in.hpp"
namespace ops
{
namespace
{
template <typename T>
uint64_t constants()
{
    uint64_t h = 1469598103934665603ull;
    auto put = [&h](const void* p, size_t n) {
        for (size_t k = 0; k < n; ++k)
            h = (h ^ static_cast<const unsigned char*>(p)[k]) * 1099511628211ull;
    };
    typedef vmml::Matrix<2, 2, T> M2;
    typedef vmml::Matrix<3, 3, T> M3;
    typedef vmml::Matrix<4, 4, T> M4;
#define C(x) put(&x, sizeof(x))
    C(M2::IDENTITY); C(M2::ZERO); C(M3::IDENTITY); C(M3::ZERO); C(M4::IDENTITY); C(M4::ZERO);
#undef C
    return h;
}

template <typename T>
const Op* table(int& count)
{
    OPS_TYPES;
    typedef vmml::Matrix<3, 3, unsigned char> U3;
    static const Op t[] = {
        OP("matrix constants", 0, o << M2::IDENTITY << M2::ZERO << M3::IDENTITY << M3::ZERO << M4::IDENTITY << M4::ZERO;),
        OP("matrix default constructor", 0, o << M2() << M3() << M34() << M4() << M31() << M52();),
        OP("matrix conversion", 0, o << M4(in.m3a) << M3(in.m4a) << M23(in.m34) << M52(in.m23) << M3(in.im3) << M34(in.m43);),
        OP("matrix copy", 0, RES(M3, r); r = in.m3a; M3 q(in.m3a); q(1, 2) = in.s; o << r << q << in.m3a;),
        OP("matrix assign smaller", 0, RES(M4, r); r = in.m3a; o << r; r = in.m23; o << r; RES(M34, q); q = in.m4a; o << q; q = in.m52; o << q;),
        OP("matrix assign other type", 0, RES(M3, r); r = in.im3; o << r; r = in.um3; o << r; r.cast_from(in.im3); o << r;),
        OP("matrix assign scalar", 0, RES(M34, r); r = in.s; o << r; r.fill(in.t); o << r; r.zero(); o << r;),
        OP("matrix assign array", 0, RES(M4, r); r = in.raw; o << r; r = in.raw2; o << r;),
        OP("matrix assign std::vector", 0, RES(M23, r); r = std::vector<T>(in.raw, in.raw + 6); o << r;),
        OP("matrix assign short std::vector", ERRORS, M34 r(in.m34); int e = 0; try { r = std::vector<T>(in.raw, in.raw + 5); } catch (const std::exception&) { e = 1; } o << e << r;),
        OP("matrix set", 0, M23 r(in.m23); r.set(in.raw, in.raw + 6, true); o << r; r.set(in.raw + 3, in.raw + 9, false); o << r; r.set(in.raw, in.raw + 4, true); o << r; r.set(in.raw + 1, in.raw + 3, false); o << r;),
        OP("matrix at", 0, M34 r(in.m34); const M34& k = r; for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < 4; ++j) o << r.at(i, j) << k.at(i, j) << r(i, j) << k(i, j) << r[i][j]; r.at(1, 3) = in.s; r(2, 0) = in.t; r[0][2] = in.u; o << r;),
        OP("matrix xyz", 0, M4 r(in.m4a); o << r.x() << r.y() << r.z(); r.x() = in.s; r.y() += in.t; r.z() *= in.u; o << r;),
        OP("matrix iterators", 0, T s = 0; for (typename M34::const_iterator i = in.m34.begin(); i != in.m34.end(); ++i) s = s * 2 + *i; o << s; s = 0; for (typename M34::const_reverse_iterator i = in.m34.rbegin(); i != in.m34.rend(); ++i) s = s * 2 + *i; o << s; M34 r(in.m34); for (typename M34::iterator i = r.begin(); i != r.end(); ++i) *i *= 2; for (typename M34::reverse_iterator i = r.rbegin(); i != r.rend(); ++i) *i += 1; o << r << r.size() << r.get_number_of_rows() << r.get_number_of_columns();),
        OP("matrix ==", 0, o << (in.m3a == in.m3b) << (in.m3a != in.m3b) << (in.m3a == in.m3a) << (in.m34 != in.m34);),
        OP("matrix equals", 0, o << in.m3a.equals(in.m3b, T(3)) << in.m3a.equals(in.m3a, T(1e-3)) << vmml::equals(in.m4a, in.m4b) << vmml::equals(in.m4a, in.m4a); struct Cmp { bool operator()(T a, T b) { return a <= b; } } cmp; o << in.m3a.equals(in.m3b, cmp);),
        OP("matrix + -", 0, o << in.m34 + in.m34 << in.m3a - in.m3b; M3 r(in.m3a); r += in.m3b; o << r; r -= in.m3a; o << r; r += r; o << r; r -= r; o << r;),
        OP("matrix += scalar", 0, M34 r(in.m34); r += in.s; o << r; r -= in.t; o << r;),
        OP("matrix * scalar", 0, M34 r(in.m34); o << r * in.s; r *= in.t; o << r; o << r / in.s; r /= in.s; o << r;),
        OP("matrix multiply_piecewise", 0, M3 r(in.m3a); r.multiply_piecewise(in.m3b); o << r;),
        OP("matrix multiply", 0, RES(M3, r); r.multiply(in.m34, in.m43); o << r; RES(M4, q); q.multiply(in.m43, in.m34); o << q;),
        OP("matrix free multiply", 0, RES(M23, r); vmml::multiply(in.m2a, in.m23, r); o << r; RES(M3, q); vmml::multiply(in.m3a, in.m3b, q); o << q;),
        OP("matrix * matrix", 0, o << in.m34 * in.m43 << in.m23 * in.m34 << in.m4a * in.m4b << in.m3b * in.m3a;),
        OP("matrix *= matrix", 0, M3 r(in.m3a); r *= in.m3b; o << r; r *= r; o << r; M4 q(in.m4b); q *= in.m4a; o << q;),
        OP("matrix * vector", 0, o << in.m34 * in.v4a << in.m43 * in.v3a << in.m2a * in.v2a << in.m4b * in.v4b;),
        OP("matrix * homogeneous vector", 0, o << in.rot4 * in.v3a << in.rot3 * in.v2a;),
        OP("matrix negate", 0, o << -in.m34 << in.m3a.negate();),
        OP("matrix tensor", 0, RES(M34, r); r.tensor(in.v4a, in.v3a); o << r; RES(M4, q); q.tensor(in.v3a, in.v3b); o << q; q.tensor(in.v4a, in.v4b); o << q;),
        OP("matrix get_sub_matrix", 0, RES(M2, r); in.m4a.get_sub_matrix(r, 1, 2); o << r; in.m34.get_sub_matrix(r); o << r << in.m43.template get_sub_matrix<3, 1>(1, 2) << in.m4b.template get_sub_matrix<1, 3>(3, 0);),
        OP("matrix set_sub_matrix", 0, M4 r(in.m4a); r.set_sub_matrix(in.m2a, 2, 1); o << r; r.set_sub_matrix(in.m13, 0, 1); o << r; r.set_sub_matrix(in.m31); o << r;),
        OP("matrix transpose", 0, RES(M43, r); in.m34.transpose_to(r); o << r << vmml::transpose(in.m52) << vmml::transpose(in.m3a);),
        OP("matrix symmetric_covariance", 0, RES(M3, r); in.m34.symmetric_covariance(r); o << r;),
        OP("matrix frobenius_norm", 0, o << in.m34.frobenius_norm() << in.im3.frobenius_norm() << in.m52.frobenius_norm();),
        OP("matrix p_norm", TRANSCENDENTAL, o << in.m34.p_norm(1) << in.m34.p_norm(2) << in.m3a.p_norm(3.5);),
        OP("matrix sums", 0, RES(typename I::V4, r); in.m34.columnwise_sum(r); o << r << in.m34.sum_elements() << in.im3.sum_elements();),
        OP("matrix sum_rows", 0, typedef vmml::Matrix<2, 3, T> R; RES(R, r); in.m43.sum_rows(r); o << r; typedef vmml::Matrix<1, 3, T> S; RES(S, s); in.m3a.sum_rows(s); o << s;),
        OP("matrix sum_columns", 0, typedef vmml::Matrix<3, 2, T> R; RES(R, r); in.m34.sum_columns(r); o << r; typedef vmml::Matrix<3, 1, T> S; RES(S, s); in.m3a.sum_columns(s); o << s;),
        OP("matrix diag", 0, RES(M3, r); r.diag(in.v3a); o << r;),
        OP("matrix khatri_rao", 0, typedef vmml::Matrix<6, 3, T> R; RES(R, r); in.m23.khatri_rao_product(in.m3a, r); o << r;),
        OP("matrix kronecker", 0, typedef vmml::Matrix<6, 9, T> R; RES(R, r); in.m23.kronecker_product(in.m3a, r); o << r;),
        OP("matrix direct_sum", 0, typedef vmml::Matrix<4, 5, T> R; RES(R, r); r.direct_sum(in.m2a, in.m23); o << r;),
        OP("matrix extremes", 0, o << in.m34.get_min() << in.m34.get_max() << in.m34.get_abs_min() << in.m34.get_abs_max() << in.im3.get_min() << in.im3.get_abs_max();),
        OP("matrix nnz", 0, o << in.m34.nnz() << in.m34.nnz(T(1)) << in.m3b.nnz(T(0.5)) << in.im3.nnz(4);),
        OP("matrix threshold", 0, M34 r(in.m34); r.threshold(T(1)); o << r;),
        OP("matrix columns", 0, o << in.m34.get_column(2); RES(V3, v); in.m34.get_column(1, v); o << v; RES(M31, m); in.m34.get_column(3, m); o << m; M34 r(in.m34); r.set_column(0, in.v3a); r.set_column(2, in.m31); o << r;),
        OP("matrix rows", 0, o << in.m34.get_row(2); RES(V4, v); in.m34.get_row(1, v); o << v; RES(M13, m); in.m43.get_row(3, m); o << m; M43 r(in.m43); r.set_row(0, in.v3a); r.set_row(2, in.m13); o << r;),
        OP("matrix det", 0, o << in.m2a.det() << in.m3a.det() << in.m4a.det() << in.im3.det() << vmml::compute_determinant(in.m3b) << in.m2b.det() << in.m4b.det();),
        OP("matrix inverse 2", 0, RES(M2, r); const bool b = in.m2a.inverse(r); o << b; if (b) o << r; RES(M2, q); o << in.m2b.inverse(q, T(1e30));),
        OP("matrix inverse 3", 0, RES(M3, r); const bool b = in.m3a.inverse(r); o << b; if (b) o << r; if (in.rot3.inverse(r)) o << r;),
        OP("matrix inverse 4", 0, RES(M4, r); const bool b = in.m4a.inverse(r); o << b; if (b) o << r; RES(M4, q); if (in.rot4.inverse(q)) o << q;),
        OP("matrix adjugate", 0, RES(M3, r); in.m3a.get_adjugate(r); o << r; RES(M4, q); in.m4a.get_adjugate(q); o << q; RES(M2, p); in.m2a.get_adjugate(p); o << p;),
        OP("matrix cofactors", 0, RES(M3, r); in.m3b.get_cofactors(r); o << r; RES(M2, p); o << in.m3a.get_minor(p, 1, 2) << p;),
        OP("matrix rotate", TRANSCENDENTAL, RES(M4, r); o << r.rotate(in.angle, in.axis);),
        OP("matrix rotate_xyz", TRANSCENDENTAL, M4 r(in.m4a); o << r.rotate_x(in.angle); o << r.rotate_y(in.angle); o << r.rotate_z(in.angle);),
        OP("matrix pre_rotate_xyz", TRANSCENDENTAL, M4 r(in.m4a); o << r.pre_rotate_x(in.angle); o << r.pre_rotate_y(in.angle); o << r.pre_rotate_z(in.angle);),
        OP("matrix scale", 0, M4 r(in.m4a); o << r.scale(in.v3a); o << r.scale(in.s, in.t, in.u); const T a[3] = {in.u, in.s, in.t}; o << r.scale(a);),
        OP("matrix scale_translation", 0, M4 r(in.m4a); o << r.scale_translation(in.v3a); const T a[3] = {in.u, in.s, in.t}; o << r.scale_translation(a);),
        OP("matrix translation", 0, M4 r(in.m4a); o << r.set_translation(in.s, in.t, in.u); o << r.set_translation(in.v3a); const T a[3] = {in.u, in.s, in.t}; o << r.set_translation(a); o << r.get_translation() << in.m4b.get_translation() << in.m3a.get_translation(); RES(V3, v); in.m4b.get_translation(v); o << v;),
        OP("matrix convolve", 0, M34 r(in.m34); r.convolve(in.m3a); o << r; M3 q(in.m3b); q.convolve(in.m23); o << q;),
        OP("matrix set_dct", TRANSCENDENTAL, RES(M34, r); r.set_dct(); o << r;),
        OP("matrix identity", 0, RES(M3, r); vmml::identity(r); o << r;),
        OP("matrix is_positive_definite", 0, o << vmml::is_positive_definite(in.m3a) << vmml::is_positive_definite(in.m3b, T(0)) << vmml::is_positive_definite(in.m2a, T(0));),
        OP("matrix quantize", 0, RES(U3, r); T lo = in.s; T hi = in.t; in.m3a.quantize(r, lo, hi); o << lo << hi; if (lo < hi) o << r;),
        OP("matrix quantize_to", 0, RES(U3, r); in.m3b.quantize_to(r, T(-5), T(5)); o << r; typedef vmml::Matrix<3, 3, signed char> S3; RES(S3, q); in.m3b.quantize_to(q, T(-5), T(5)); o << q;),
        OP("matrix dequantize", 0, RES(M3, r); in.um3.dequantize(r, T(-4), T(4)); o << r;),
        OP("matrix streams", 0, std::ostringstream s; s << in.m23; o << s.str(); std::ostringstream w; w.precision(20); in.m34.write_to_stream(w); RES(M34, r); std::istringstream i(w.str()); r.read_from_stream(i); o << r << w.str();),
        OP("matrix range error", ERRORS, int e = 0; M34 r(in.m34); try { r = std::vector<T>(2); } catch (const vmml::exception& x) { e = x.what()[0] != 0; } o << e;),
        OP("matrix get_initialized_matrix", 0, o << M3::template get_initialized_matrix<vmml::set_to_identity_functor<M3>>() << M3::template get_initialized_matrix<vmml::set_to_zero_functor<M3>>();),
        OP("functors set", 0, RES(M3, r); vmml::set_to_identity_functor<M3>()(r); o << r; vmml::set_to_zero_functor<M3>()(r); o << r;),
        OP("functors compare", 0, vmml::matrix_equals_allow_inverted_rows<M3> a; vmml::matrix_equals_allow_inverted_columns<M3> b; M3 n(in.m3a); n.set_row(1, -n.get_row(1)); o << a(in.m3a, n) << b(in.m3a, n) << a(in.m3a, in.m3b) << a(in.m3a, n, T(1e-2)) << b(in.m3a, n, T(1e-2)) << b(n, n);),
        OP("util translation", 0, o << vmml::create_translation(in.v3a) << vmml::create_translation<4, 4, T>(in.v3b); M4 r(in.m4a); vmml::apply_translation(r, in.s, in.t, in.u); o << r;),
        OP("util rotation", TRANSCENDENTAL, o << vmml::create_rotation(in.angle, in.axis) << vmml::create_rotation<4, 4, T>(in.angle, in.axis); M4 r(in.m4a); vmml::apply_rotation(r, in.angle, in.axis.x(), in.axis.y(), in.axis.z()); o << r;),
        OP("util scaling", 0, o << vmml::create_scaling(in.v3a) << vmml::create_scaling(in.s) << vmml::create_scaling<4, 4, T>(in.v3b);),
        OP("util vectors", 0, RES(V5, r); vmml::zero(r); o << r << vmml::min(in.v3a, in.v3b) << vmml::max(in.v3a, in.v3b) << vmml::manhattan(in.v3a) << vmml::equals(in.s, in.t) << vmml::equals(in.s, in.s);),
        OP("matrix set_random seed", SKIP_SHARED, RES(M3, r); r.set_random(17); o << r; RES(V4, v); v.set_random(5); o << v;),
    };
    count = int(sizeof t / sizeof t[0]);
    return t;
}
template <typename T>
struct Reg
{
    Reg(const char* type)
    {
        Catalogue c;
        c.type = type;
        c.group = "matrix";
        c.ops = table<T>(c.count);
        c.in_size = sizeof(In<T>);
        c.sets = SETS;
        c.build = build<T>;
        c.constants = constants<T>;
        c.set_names = set_names();
        Adder a(c);
    }
};
const Reg<float> rf("float");
const Reg<double> rd("double");
} // namespace
} // namespace ops
