// Catalogue: Quaternion, Frustum, FrustumCuller, AABB, Intersection,
// LowpassFilter, QR decomposition, math.hpp.
#include "in.hpp"
namespace ops
{
namespace
{
template <typename T>
uint64_t constants()
{
    uint64_t h = 1469598103934665603ull;
    auto put = [&h](const void* p, size_t n) {
        for (size_t k = 0; k < n; ++k)
            h = (h ^ static_cast<const unsigned char*>(p)[k]) * 1099511628211ull;
    };
    typedef vmml::Quaternion<T> Q;
    typedef vmml::Frustum<T> F;
#define C(x) put(x.array, sizeof(x.array))
    C(Q::IDENTITY); C(Q::QUATERI); C(Q::QUATERJ); C(Q::QUATERK); C(F::DEFAULT);
#undef C
    return h;
}

template <typename T>
const Op* table(int& count)
{
    OPS_TYPES;
    typedef vmml::AABB<T> Box;
    typedef vmml::Frustum<T> Fr;
    typedef vmml::FrustumCuller<T> Cu;
    static const Op t[] = {
        OP("quaternion constants", 0, o << Q::IDENTITY << Q::QUATERI << Q::QUATERJ << Q::QUATERK;),
        OP("quaternion construct", 0, o << Q() << Q(in.s, in.t, in.u, in.f01) << Q(in.v3a) << Q(in.v3a, in.t) << Q(in.qa);),
        OP("quaternion from matrix", 0, o << Q(in.rot3) << Q(in.rot4); RES(Q, r); r.set(in.rot3); o << r; r.set(in.rot4); o << r;),
        OP("quaternion set", 0, RES(Q, r); r.set(in.s, in.t, in.u, in.f01); o << r; V3 v(in.v3b); r.set(v, in.s); o << r << v; r.set(in.raw, in.raw + 4); o << r; r.iter_set(in.raw + 2, in.raw + 6); o << r; r.zero(); o << r; r.identity(); o << r;),
        OP("quaternion access", 0, Q r(in.qa); const Q& k = r; o << k.x() << k.y() << k.z() << k.w() << r.at(1) << k.at(2) << k(3); r.x() = in.s; r.y() += in.t; r.z() *= in.u; r.w() = -in.f01; r.at(0) += 1; o << r << r.find_min() << r.find_max() << k.find_min_index() << k.find_max_index();),
        OP("quaternion compare", 0, Q r(in.qa); o << (r == in.qa) << (r != in.qb) << (in.qb == in.qb) << (r == T(1)) << (r != T(1)) << (in.qa == in.v4a) << (in.qa != in.v4a) << r.is_akin(in.qb, T(100)) << r.is_akin(in.qa);),
        OP("quaternion conjugate", 0, Q r(in.qa); r.conjugate(); o << r << in.qb.get_conjugate();),
        OP("quaternion abs", 0, o << in.qa.abs() << in.qb.squared_abs();),
        OP("quaternion normalize", 0, Q r(in.qa); o << r.normalize() << r << in.qb.get_normalized();),
        OP("quaternion negate", 0, o << in.qa.negate() << -in.qb;),
        OP("quaternion assign", 0, RES(Q, r); r = in.qa; Q c(r); c.x() += 1; o << r << c; r = in.v4a; o << r;),
        OP("quaternion + -", 0, o << in.qa + in.qb << in.qa - in.qb; Q r(in.qa); r += in.qb; o << r; r -= in.qa; o << r; r += r; o << r;),
        OP("quaternion *", 0, o << in.qa * in.qb << in.qb * in.qa << in.qu * in.qu; Q r(in.qa); r *= in.qb; o << r; r *= r; o << r;),
        OP("quaternion scalar", 0, o << in.qa * in.s << in.qa / in.s; Q r(in.qb); r *= in.t; o << r; r /= in.s; o << r;),
        OP("quaternion / 0", ERRORS, Q r(in.qa); int e = 0; try { r /= T(0); } catch (const vmml::exception&) { e = 1; } o << e << r; e = 0; try { r = in.qa / T(0); } catch (const vmml::exception&) { e = 1; } o << e << r;),
        OP("quaternion vector", 0, o << in.qa + in.v3a << in.qa - in.v3a << in.qa * in.v3a; Q r(in.qb); r += in.v3a; o << r; r -= in.v3b; o << r; r *= in.v3c; o << r;),
        OP("quaternion cross dot", 0, o << in.qa.cross(in.qb) << in.qa.dot(in.qb) << Q::dot(in.qb, in.qu);),
        OP("quaternion inverse", 0, Q r(in.qa); o << r.inverse() << r;),
        OP("quaternion rotate", TRANSCENDENTAL, RES(Q, r); r.identity(); V3 a(in.axis); o << r.rotate(in.angle, a, in.v3a) << r << a;),
        OP("quaternion rotate_xyz", TRANSCENDENTAL, Q r(in.qa); o << r.rotate_x(in.angle, in.v3a) << r.rotate_y(in.angle, in.v3a) << r.rotate_z(in.angle, in.v3a) << r;),
        OP("quaternion slerp", TRANSCENDENTAL, o << Q::slerp(in.f01, in.qu, Q::QUATERI) << Q::slerp(T(0.25), in.qu, in.qu) << Q::slerp(T(0.75), Q::IDENTITY, in.qu, T(1e-3));),
        OP("quaternion get_rotation_matrix", 0, o << in.qu.get_rotation_matrix(); M4 r(in.m4a); in.qu.get_rotation_matrix(r); o << r; RES(M3, q); in.qa.get_rotation_matrix(q); o << q;),
        OP("quaternion print", 0, std::ostringstream s; s << in.qa; o << s.str();),

        OP("frustum construct", 0, o << Fr() << Fr(in.s, in.t, in.u, in.f01, T(2), T(3)) << Fr(in.raw) << Fr(in.fr); vmml::Frustum<float> f(in.fr); vmml::Frustum<double> d(f); o << f << d << vmml::Frustum<int>(in.fr);),
        OP("frustum set", 0, RES(Fr, r); r.set(in.s, in.t, in.u, in.f01, T(2), T(3)); o << r; r = in.fr; o << r; r = vmml::Frustum<int>(in.fr); o << r;),
        OP("frustum set_perspective", TRANSCENDENTAL, RES(Fr, r); r.set_perspective(T(60) + in.s, T(1.5), T(0.5), T(200)); o << r;),
        OP("frustum compute_matrix", 0, o << in.fr.compute_matrix(); RES(M4, r); in.fr.compute_matrix(r); o << r;),
        OP("frustum compute_ortho_matrix", 0, o << in.fr.compute_ortho_matrix(); RES(M4, r); in.fr.compute_ortho_matrix(r); o << r;),
        OP("frustum jitter", 0, Fr r(in.fr); r.apply_jitter(in.v2a); o << r; r.adjust_near(T(0.25)); o << r; r.adjust_near(r.near_plane()); o << r;),
        OP("frustum access", 0, Fr r(in.fr); const Fr& k = r; o << k.left() << k.right() << k.bottom() << k.top() << k.near_plane() << k.far_plane() << k.get_width() << k.get_height(); r.left() = in.s; r.right() += 1; r.bottom() = in.t; r.top() *= 2; r.near_plane() = T(0.5); r.far_plane() -= 1; o << r << r.get_width() << r.get_height(); std::ostringstream s; s << k; o << s.str();),
        OP("frustum default", 0, o << Fr::DEFAULT;),

        OP("culler setup matrix", 0, RES(Cu, r); r.setup(in.fr.compute_matrix() * in.rot4); o << r.test_sphere(V4(0, 0, T(-10), T(0.5))) << r.test_sphere(V4(T(100), 0, T(-10), T(0.5))) << r.test_sphere(V4(0, 0, T(0), T(4)));),
        OP("culler setup corners", 0, RES(Cu, r); const V3 n(in.v3a); r.setup(V3(-1, 1, -1), V3(1, 1, -1), V3(-1, -1, -1), V3(1, -1, -1), V3(-9, 9, -9), V3(9, 9, -9), V3(-9, -9, -9), V3(9, -9, -9)); o << r.test_sphere(in.sphere) << r.test_sphere(V4(0, 0, T(-5), T(0.5))); std::ostringstream s; s << r; o << s.str().empty();),
        OP("culler test_sphere", 0, o << in.cull.test_sphere(in.sphere) << in.cull.test_sphere(in.v4a) << in.cull.test_sphere(V4(0, 0, T(-5), T(0.5))) << in.cull.test_sphere(V4(T(6), 0, T(-5), T(2.5)));),
        OP("culler test_aabb", 0, o << in.cull.test_aabb(in.v2a, in.v2b, V2(-5, -4)) << in.cull.test_aabb(V2(-1, 1), V2(-1, 1), V2(-5, -4)) << in.cull.test_aabb(V2(3, 7), V2(-1, 1), V2(-5, -4)) << in.cull.test_aabb(V2(30, 7), V2(-1, 1), V2(-5, -4));),
        OP("culler one box", 0, o << in.cull.test_aabb(V2(in.fr.array[0], in.fr.array[1]), V2(in.fr.array[2], in.fr.array[3]), V2(in.fr.array[4] * T(-5), in.fr.array[5] * T(-0.04)));),
        OP("culler one sphere", 0, o << in.cull.test_sphere(V4(in.fr.array[0] + 1, in.fr.array[2], in.fr.array[5] * T(-0.05), in.fr.array[1]));),
        OP("intersection one sphere", 0, const vmml::Intersection<T> x(V3(in.fr.array[2], T(0), in.fr.array[5]), V3(0, 0, -1)); T d = 0; o << x.test_sphere(V4(T(0), in.fr.array[3], T(1), in.fr.array[1]), d); o << d;),
        OP("aabb one point", 0, const Box b(V3(in.fr.array[0], in.fr.array[0], in.fr.array[2]), V3(in.fr.array[5], in.fr.array[1], in.fr.array[4])); Box r(b); o << r.isIn(V3(in.f01, in.f01, T(0)));),
        OP("aabb one box", 0, Box r(V3(in.fr.array[0], in.fr.array[0], in.fr.array[2]), V3(in.fr.array[5], in.fr.array[1], in.fr.array[4])); o << r.isIn2d(V3(in.f01, in.f01, T(0))) << r.isEmpty();),
        OP("culler copy", 0, RES(Cu, r); r = in.cull; Cu q(r); q.setup(M4::IDENTITY); o << r.test_sphere(V4(0, 0, T(-5), T(0.5))) << q.test_sphere(V4(0, 0, T(-5), T(0.5)));),
        OP("visibility print", 0, std::ostringstream s; s << vmml::VISIBILITY_NONE << vmml::VISIBILITY_PARTIAL << vmml::VISIBILITY_FULL; o << s.str();),

        OP("aabb construct", 0, o << Box() << Box(in.v3a, in.v3b) << Box(in.sphere) << Box(in.s, in.t, in.u, in.f01) << Box(in.ba) << Box::makeUnitBox();),
        OP("aabb set", 0, RES(Box, r); r.set(in.v3a, in.v3b); o << r; r.set(in.s, in.t, in.u, in.f01); o << r; r.setMin(in.v3a); o << r; r.setMax(in.v3b); o << r; r.getMin().x() = -9; r.getMax() += T(1); o << r; r.setEmpty(); o << r << r.isEmpty();),
        OP("aabb contains", 0, Box r(in.ba); o << r.isIn(in.v3a) << r.isIn2d(in.v3b) << r.isIn(in.sphere) << r.isIn(r.getCenter()) << r.isIn2d(r.getMin()) << r;),
        OP("aabb merge", 0, Box r(in.ba); r.merge(in.bb); o << r; r.merge(in.v3a); o << r; r.merge(r); o << r; Box e; e.merge(in.v3b); o << e; e.merge(in.ba); o << e; e.merge(Box()); o << e;),
        OP("aabb scalar", 0, o << in.ba * in.s << in.ba / in.s << in.ba + in.t << in.ba - in.t; Box r(in.bb); r *= in.s; o << r; r /= in.t; o << r; r += in.u; o << r; r -= in.s; o << r;),
        OP("aabb compare", 0, o << (in.ba == in.bb) << (in.ba != in.bb) << (in.ba == in.ba) << (in.bb != in.bb) << in.ba.isEmpty() << Box().isEmpty();),
        OP("aabb centre", 0, o << in.ba.getCenter() << in.ba.getDimension(); std::ostringstream s; s << in.ba; o << s.str();),

        OP("intersection", 0, const vmml::Intersection<T> x(in.v3a, in.axis); T d = in.u; const bool b = x.test_sphere(in.sphere, d); o << b << d; const vmml::Intersection<T> y(V3(0, 0, 0), in.axis); T e = 7; const bool q = y.test_sphere(V4(in.axis.x() * 5, in.axis.y() * 5, in.axis.z() * 5, T(1)), e); o << q << e;),

        OP("lowpass", 0, vmml::LowpassFilter<3, T> f(0.25f); for (int k = 0; k < 7; ++k) o << f.add(in.raw[k]) << f.get() << *f; vmml::LowpassFilter<3, T> g(f); g.set_smooth_factor(0.75f); o << g.add(in.s) << f.get() << f.add(in.t) << g.get();),
        OP("lowpass vectors", 0, vmml::LowpassFilter<4, V3> f(0.5f); o << f.add(in.v3a) << f.add(in.v3b) << f.add(in.v3c) << f.get() << f->x();),

        OP("qr", 0, RES(M4, q); RES(M3, r); vmml::qr_decompose_gram_schmidt(in.m43, q, r); o << q << r;),
        OP("qr square", 0, RES(M3, q); RES(M3, r); vmml::qr_decompose_gram_schmidt(in.m3a, q, r); o << q << r;),
        OP("math", 0, using namespace vmml::math; o << pythag(in.s, in.t) << pythag(in.t, in.u) << pythag(in.s, T(0)) << sign(in.s, in.t) << sign(in.t, in.s) << squared(in.t); abs_less<T> l; abs_greater<T> g; o << l(in.s, in.t) << g(in.s, in.t);),
        OP("vector compute_normal", 0, RES(V3, r); r.compute_normal(in.v3a, in.v3b, in.v3c); o << r << in.v3a.compute_normal(in.v3b, in.v3c) << vmml::compute_plane(in.v3a, in.v3b, in.v3c);),
    };
    count = int(sizeof t / sizeof t[0]);
    return t;
}
template <typename T>
Catalogue make(const char* type)
{
    Catalogue c;
    c.type = type;
    c.group = "geometry";
    c.ops = table<T>(c.count);
    c.in_size = sizeof(In<T>);
    c.sets = SETS;
    c.build = &build<T>;
    c.constants = &constants<T>;
    c.set_names = set_names();
    return c;
}
Adder f(make<float>("float"));
Adder d(make<double>("double"));
} // namespace
} // namespace ops
