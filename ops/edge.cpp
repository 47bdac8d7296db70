// Catalogue: the rarer paths of every class (half turns, nearly equal
// rotations, empty boxes, objects beyond each plane, singular matrices, range
// errors, streams with settings of their own, larger shapes).
#include "in.hpp"
namespace ops
{
namespace
{
// every constant binary and unary operation on a pair of one shape
template <typename Mt, typename T>
void matrix_pair(Out& o, const Mt& a, const Mt& b, T s)
{
    o << a + b << a - b << b - a << -a << (a == b) << (a != b) << (b == b) << a.equals(b, s * s) << a.equals(a, s * s);
    Mt r(a);
    r += b;
    o << r;
    r -= b;
    o << r;
    r.multiply_piecewise(b);
    o << r;
    r = b;
    o << r << vmml::transpose(a) << a.sum_elements() << a.frobenius_norm() << b.get_min() << a.get_max() << b.get_abs_min() << a.get_abs_max() << b.nnz() << a.get_row(0) << b.get_column(0);
    r -= a;
    r += r;
    o << r << a << b;
}
template <typename Mt, typename T>
void square_pair(Out& o, const Mt& a, const Mt& b, T s)
{
    matrix_pair(o, a, b, s);
    Mt r(a), q(b);
    r *= b;
    q.multiply(a, b);
    o << a * b << b * a << r << q << (a == b);
}
template <typename V, typename T>
void vector_pair(Out& o, const V& a, const V& b, T s)
{
    o << a + b << a - b << b - a << a * b << -a << a * s << b / s << s * a << a + s << b - s << (a == b) << (a != b) << (a < b) << (b < a) << a.equals(b) << a.equals(b, s * s) << a.dot(b) << b.dot(a);
    o << a.length() << b.squared_length() << a.distance(b) << a.squared_distance(b) << vmml::normalize(a) << a.product() << b.find_min() << a.find_max() << b.find_min_index() << a.find_max_index() << b.find_abs_min_index() << a.find_abs_max_index() << vmml::min(a, b) << vmml::max(a, b);
    V r(a);
    r += b;
    o << r;
    r -= b;
    o << r;
    r *= b;
    o << r;
    r = b;
    r -= a;
    r += r;
    o << r << a << b;
}
template <typename T>
uint64_t constants()
{
    return 0;
}
template <size_t M, size_t N, typename T>
vmml::Matrix<M, N, T> larger(const T* raw)
{
    vmml::Matrix<M, N, T> m;
    for (size_t k = 0; k < M * N; ++k)
        m.array[k] = raw[k % 16] + T(int(k % 7) - 3);
    return m;
}
template <size_t M, typename T>
vmml::Vector<M, T> longer(const T* raw)
{
    vmml::Vector<M, T> m;
    for (size_t k = 0; k < M; ++k)
        m.array[k] = raw[k % 16] + T(int(k % 7) - 3);
    return m;
}

template <typename T>
const Op* table(int& count)
{
    OPS_TYPES;
    typedef vmml::AABB<T> Box;
    typedef vmml::Frustum<T> Fr;
    static const Op t[] = {
        OP("quaternion from half turns", 0, const T d[][9] = {{1, 0, 0, 0, -1, 0, 0, 0, -1}, {-1, 0, 0, 0, 1, 0, 0, 0, -1}, {-1, 0, 0, 0, -1, 0, 0, 0, 1}, {T(-0.28), T(0.96), 0, T(0.96), T(0.28), 0, 0, 0, -1}, {T(0.28), 0, T(0.96), 0, -1, 0, T(0.96), 0, T(-0.28)}, {-1, 0, 0, 0, T(-0.28), T(0.96), 0, T(0.96), T(0.28)}, {0, 0, 1, 1, 0, 0, 0, 1, 0}};
           for (int k = 0; k < 7; ++k) { M3 m; m.set(d[k], d[k] + 9, true); RES(Q, r); r = Q(m); o << r; r.set(m); o << r; M4 w(M4::IDENTITY); w.set_sub_matrix(m); o << Q(w) << Q(M3(in.rot3 * m)).abs(); }),
        OP("quaternion compare places", 0, for (int k = 0; k < 4; ++k) { Q r(in.qa); r.at(k) += T(1); o << (r == in.qa) << (r != in.qa) << r.is_akin(in.qa, T(0.5)) << r.is_akin(in.qa, T(4)) << (r == V4(in.qa.x(), in.qa.y(), in.qa.z(), in.qa.w())); Q z(0, 0, 0, in.s); z.at(k) += T(k); o << (z == in.s) << (z != in.s); }),
        OP("quaternion slerp near", TRANSCENDENTAL, const T f[] = {0, T(0.05), T(0.5), T(0.95), 1}; const T h[] = {T(0.04361938736533600), T(4e-4), T(0.7071067811865476), T(0.94)}; for (int k = 0; k < 4; ++k) { const Q q = in.qu * Q(0, 0, h[k], std::sqrt(1 - h[k] * h[k])); for (int j = 0; j < 5; ++j) o << Q::slerp(f[j], in.qu, q) << Q::slerp(f[j], q, -in.qu, T(1e-6)); }),
        OP("quaternion zero", 0, Q z(0, 0, 0, 0); o << z.normalize(); o << z << Q(0, 0, 0, 0).get_normalized() << z.abs() << z * in.qa; Q r(in.qa); r = r; o << r; r += -r; o << r;),
        OP("vector rare", 0, V3 z(0, 0, 0); o << z.normalize(); o << z << vmml::normalize(z) << V3(1, 1, 0).is_unit_vector() << V3(0, 0, 0).is_unit_vector() << V3(0, 1, T(0.5)).is_unit_vector() << V3(1, 0, 0).is_unit_vector(); V3 r(in.v3a); r = r; o << r; r += r; r.cross(r, r); o << r << in.v3a.cross(in.v3a); V9 p(in.v9a); o << p.find_min_index() << p.find_abs_max_index(); p[8] = 1000; o << p.find_max_index() << p.find_max() << p.nnz(); r.compute_normal(in.v3a, in.v3a, in.v3b); o << r; V3 q(0, 2, 0); q.reciprocal_safe(); o << q;),
        OP("vector long", 0, typedef vmml::Vector<17, T> V; const V a = longer<17>(in.raw); V b(a * in.s); o << a + b << a - b << a * b << -a; o << a.dot(b) << a.product() << a.length() << a.distance(b) << (a < b) << (a == b) << a.find_min_index() << a.find_abs_max_index() << vmml::manhattan(a) << vmml::min(a, b) << vmml::max(a, b); b.clamp(T(-1), T(2)); o << b << b.normalize(); b = T(3); o << b;),
        OP("vector many turns", TRANSCENDENTAL, o << in.v3a.rotate(T(1000), in.axis) << in.v3b.rotate(T(-12.5), V3(0, T(3), 0)); Q q; V3 a(in.axis); o << q.rotate(T(-40), a, in.v3b); M4 r(in.m4a); o << r.rotate_x(T(77)); o << r.pre_rotate_z(T(-77));),
        OP("matrix large product", 0, typedef vmml::Matrix<5, 7, T> A; typedef vmml::Matrix<7, 6, T> B; const A a = larger<5, 7>(in.raw); const B b = larger<7, 6>(in.raw + 0); o << a * b; o << vmml::transpose(a); A r(a); r += a; o << r; r -= a; o << r << a.get_abs_max() << a.sum_elements() << a.nnz(T(1)) << a.frobenius_norm() << a.get_row(4) << a.get_column(6);),
        OP("matrix large sums", 0, typedef vmml::Matrix<5, 5, T> A; const A a = larger<5, 5>(in.raw); RES(A, r); r = a; r *= a; o << r << a - r << a + r << -a; o << (a == r) << a.equals(r, T(50)); r.multiply_piecewise(a); o << r; typedef vmml::Matrix<1, 3, T> L; typedef vmml::Matrix<4, 3, T> K; typedef vmml::Matrix<4, 9, T> R; RES(R, k); const L l(in.m13); const K g(in.m43); l.kronecker_product(g, k); o << k; RES(A, d); d = T(0); d.direct_sum(in.m34, in.m23.template get_sub_matrix<2, 1>(0, 1)); o << d;),
        OP("matrix singular", 0, M2 a(M2::ZERO); RES(M2, ra); o << a.inverse(ra); M3 b(M3::ZERO); b.set_row(0, in.v3a); b.set_row(1, in.v3a); RES(M3, rb); o << b.inverse(rb, T(1e30)) << M3(M3::IDENTITY).inverse(rb, T(2)); M4 d(M4::ZERO); RES(M4, rd); o << d.inverse(rd, T(1e-3)) << M4(M4::IDENTITY).inverse(rd, T(2)) << M2(M2::IDENTITY).inverse(ra, T(2)); o << b.det() << d.det(); const bool k = M3(M3::IDENTITY).inverse(rb); o << k; if (k) o << rb;),
        OP("matrix definite", 0, M3 m; for (int k = 0; k < 3; ++k) { m = M3(M3::IDENTITY); m(k, k) = T(-2); o << vmml::is_positive_definite(m, T(0)) << vmml::is_positive_definite(m, T(-3)); } m = M3(M3::IDENTITY); o << vmml::is_positive_definite(m, T(0)) << vmml::is_positive_definite(m, T(2)) << vmml::is_positive_definite(M2(-M2(M2::IDENTITY)), T(0));),
        OP("matrix pair 2", 0, square_pair(o, in.m2a, in.m2b, in.s);),
        OP("matrix pair 3", 0, square_pair(o, in.m3a, in.m3b, in.s);),
        OP("matrix pair 4", 0, square_pair(o, in.m4a, in.m4b, in.s);),
        OP("matrix pair 3x4", 0, matrix_pair(o, in.m34, vmml::transpose(in.m43), in.s); matrix_pair(o, vmml::transpose(in.m43), in.m34, in.s);),
        OP("matrix pair 2x3", 0, matrix_pair(o, in.m23, in.m23b, in.s);),
        OP("vector pair 2", 0, vector_pair(o, in.v2a, in.v2b, in.s);),
        OP("vector pair 3", 0, vector_pair(o, in.v3a, in.v3b, in.s);),
        OP("vector pair 4", 0, vector_pair(o, in.v4a, in.v4b, in.s);),
        OP("vector pair 9", 0, vector_pair(o, in.v9a, in.v9b, in.s);),
        OP("accessor errors", ERRORS | CHECKED, int e = 0; M34 m(in.m34); V3 v(in.v3a);
           try { v.at(3) = 1; } catch (const std::exception&) { e |= 1; } try { o << in.v3b.at(7); } catch (const std::exception&) { e |= 2; } try { m.at(3, 0) = 1; } catch (const std::exception&) { e |= 4; } try { o << in.m34.at(0, 4); } catch (const std::exception&) { e |= 8; } o << e << m << v;),
        OP("range errors", ERRORS | CHECKED, int e = 0; M34 m(in.m34); V3 v(in.v3a); M2 s;
           try { o << m.get_column(4); } catch (const std::exception&) { e |= 16; } try { m.set_column(9, in.v3a); } catch (const std::exception&) { e |= 32; } try { o << m.get_row(3); } catch (const std::exception&) { e |= 64; } try { m.set_row(5, in.v4a); } catch (const std::exception&) { e |= 128; } try { m.get_sub_matrix(s, 2, 1); } catch (const std::exception&) { e |= 256; } try { m.set_sub_matrix(in.m2a, 2, 3); } catch (const std::exception&) { e |= 512; } o << e << m << v;),
        OP("print with caller's settings", 0, std::ostringstream s; s.precision(3); s << in.m23 << T(1.23456789); s << in.qa << T(1.23456789); s << in.fr << T(1.23456789); s << in.v3a << T(1.23456789); s.precision(9); s.setf(std::ios::scientific, std::ios::floatfield); s.setf(std::ios::left, std::ios::adjustfield); s << in.m2a << 0.5 << in.v2a << 0.5 << in.fr << 0.5 << in.qa << in.ba << 0.5; o << s.str() << int(s.precision()) << int(s.flags());),
        OP("aabb sides", 0, Box b(V3(-1, -2, -3), V3(1, 2, 3)); const T f[] = {T(0.5), T(1.5)}; for (int k = 0; k < 3; ++k) for (int j = 0; j < 2; ++j) for (int g = -1; g <= 1; g += 2) { V3 p(T(0.25), T(0.5), T(-0.25)); p[k] = b.getMax()[k] * f[j] * T(g); o << b.isIn(p) << b.isIn2d(p) << b.isIn(V4(p.x(), p.y(), p.z(), T(0.25))); Box d(b), e(b), m(b); d.getMin()[k] -= T(g); e.getMax()[k] += T(g) + in.s; o << (b == d) << (b != d) << (b == e) << (b != e); m.merge(p); o << m; m.merge(d); o << m; m.getMin()[k] = m.getMax()[k]; o << m.isEmpty(); }),
        OP("culler sides", 0, for (int k = 0; k < 3; ++k) for (int g = -1; g <= 1; ++g) { V3 p(0, 0, T(-5)); p[k] += T(k == 2 ? 6 : 8) * T(g); for (int j = 0; j < 3; ++j) o << in.cull.test_sphere(V4(p.x(), p.y(), p.z(), j == 0 ? T(0.25) : j == 1 ? T(4.5) : T(40))); o << in.cull.test_aabb(V2(p.x() - 1, p.x() + 1), V2(p.y() - 1, p.y() + 1), V2(p.z() - T(0.5), p.z() + T(0.5))) << in.cull.test_aabb(V2(p.x() - 20, p.x() + 1), V2(p.y() - 1, p.y() + 20), V2(p.z() - T(0.5), p.z() + T(0.5))); }),
        OP("intersection cases", 0, const V3 org(1, 2, 3); const V3 dir(0, 0, in.s); const vmml::Intersection<T> x(org, dir); const T z = in.s > 0 ? T(1) : T(-1); T d = T(99); o << x.test_sphere(V4(1, 2, 3 + 5 * z, 1), d) << d << x.test_sphere(V4(1, 2, 3 - 5 * z, 1), d) << d << x.test_sphere(V4(1, 2, 3, 2), d) << d << x.test_sphere(V4(1, 3, 3 + z, 4), d) << d << x.test_sphere(V4(4, 2, 3 + 5 * z, 1), d) << d << x.test_sphere(V4(2, 2, 3 + 8 * z, 2), d) << d << x.test_sphere(V4(1, 3, 3 - z, 4), d) << d;),
        OP("frustum rare", TRANSCENDENTAL, Fr r; const T f[] = {1, 30, 90, 179}; for (int k = 0; k < 4; ++k) { r.set_perspective(f[k], T(0.5) + k, T(0.25), T(20)); o << r; } Fr q(in.fr); q.apply_jitter(V2(0, 0)); o << q; q.adjust_near(q.near_plane() * 4); o << q; q.left() = T(2); q.right() = T(5); o << q.compute_matrix() << q.compute_ortho_matrix() << q.get_width(); std::swap(q.top(), q.bottom()); o << q.get_height();),
        OP("functors rare", 0, typedef vmml::matrix_equals_allow_inverted_rows<M3> A; typedef vmml::matrix_equals_allow_inverted_columns<M3> B; M3 n(in.m3a), p(in.m3a), q(-in.m3a); n(0, 0) += 3; p(2, 2) += 3; o << A()(in.m3a, q) << B()(in.m3a, q) << A()(in.m3a, n) << B()(in.m3a, n) << A()(q, p, T(4)) << B()(q, p, T(4)) << A()(in.m3a, p, T(4)) << A()(p, in.m3a, T(1)) << B()(p, n, T(1));),
        OP("math rare", 0, using namespace vmml::math; o << pythag(T(0), T(0)) << pythag(T(0), in.s) << pythag(in.s, in.s) << sign(in.s, T(0)) << sign(in.t, -in.s) << squared(T(0)) << vmml::equals(in.s, in.s + T(1e-9)) << vmml::equals(in.s, in.s + T(1)); abs_less<T> l; abs_greater<T> g; o << l(in.s, -in.s) << g(-in.s, in.s) << l(T(0), in.s) << g(T(0), in.s); M3 m; m = in.m3b; m.threshold(T(100)); o << m << m.nnz();),
        OP("lowpass rare", 0, vmml::LowpassFilter<1, T> a(0.5f); vmml::LowpassFilter<9, V4> b(0.1f); vmml::LowpassFilter<2, V3> d(1.f); for (int k = 0; k < 12; ++k) { o << a.add(in.raw[k]); o << b.add(in.v4a * in.raw[k]); o << d.add(in.v3b + in.raw[k]); } a = vmml::LowpassFilter<1, T>(0.3f); o << a.add(in.t) << *b << *d;),
        OP("quantise constant", 0, vmml::Matrix<3, 3, unsigned char> r; vmml::Matrix<3, 3, short> i; M3 m; m.fill(in.s); T lo = 0, hi = 0; m.quantize(r, lo, hi); o << lo << hi; m.quantize(i, lo, hi); o << lo << hi; M3 b; i.dequantize(b, in.s, in.s); o << b;),
        OP("quantise rare", 0, typedef vmml::Matrix<3, 3, unsigned short> S; typedef vmml::Matrix<3, 3, int> I3; M3 m(in.m3b); if (m.get_abs_max() > 0) m /= m.get_abs_max(); RES(S, s); m.quantize_to(s, T(-1), T(1)); o << s; M3 b; s.dequantize(b, T(-1), T(1)); o << (b - m).get_abs_max() * 0; RES(I3, i); i.cast_from(in.um3); o << i << i.get_max() << i.get_abs_min();),
    };
    count = int(sizeof t / sizeof t[0]);
    return t;
}
template <typename T>
Catalogue make(const char* type)
{
    Catalogue c;
    c.type = type;
    c.group = "rare";
    c.ops = table<T>(c.count);
    c.in_size = sizeof(In<T>);
    c.sets = SETS;
    c.build = &build<T>;
    c.constants = &constants<T>;
    c.set_names = set_names();
    return c;
}
Adder f(make<float>("float"));
Adder d(make<double>("double"));
} // namespace
} // namespace ops
