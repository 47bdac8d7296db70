// Catalogue: Vector and the free functions on vectors.
#include "in.hpp"
namespace ops
{
namespace
{
template <typename T>
uint64_t constants()
{
    uint64_t h = 1469598103934665603ull;
    auto put = [&h](const void* p, size_t n) {
        for (size_t k = 0; k < n; ++k)
            h = (h ^ static_cast<const unsigned char*>(p)[k]) * 1099511628211ull;
    };
    typedef vmml::Vector<2, T> V2;
    typedef vmml::Vector<3, T> V3;
    typedef vmml::Vector<4, T> V4;
#define C(x) put(&x, sizeof(x))
    C(V3::FORWARD); C(V3::BACKWARD); C(V3::UP); C(V3::DOWN); C(V3::LEFT); C(V3::RIGHT);
    C(V3::ONE); C(V3::ZERO); C(V3::UNIT_X); C(V3::UNIT_Y); C(V3::UNIT_Z);
    C(V2::ONE); C(V2::ZERO); C(V4::ONE); C(V4::ZERO);
#undef C
    return h;
}

template <typename T>
const Op* table(int& count)
{
    OPS_TYPES;
    static const Op t[] = {
        OP("vector constants", 0, o << V3::FORWARD << V3::BACKWARD << V3::UP << V3::DOWN << V3::LEFT << V3::RIGHT << V3::ONE << V3::ZERO << V3::UNIT_X << V3::UNIT_Y << V3::UNIT_Z << V2::ONE << V4::ZERO << V2::ZERO << V4::ONE;),
        OP("vector constructors", 0, o << V3() << V3(in.s) << V2(in.s, in.t) << V3(in.s, in.t, in.u) << V4(in.s, in.t, in.u, in.f01) << V4(in.v3a, in.s) << V3(in.raw) << V4(in.v3a) << V3(in.v3b) << V2(in.v2a); V3 x(in.i3); o << x;),
        OP("vector from homogeneous", 0, if (in.v4a.w() != 0) o << V3(in.v4a); V3 r(in.s); if (in.v4b.w() != 0) r = in.v4b; o << r;),
        OP("vector to homogeneous", 0, RES(V4, r); r = in.v3a; o << r;),
        OP("vector copy", 0, RES(V3, r); r = in.v3a; V3 q(in.v3a); q += in.s; r.x() = in.t; o << q << r << in.v3a;),
        OP("vector assign scalar", 0, RES(V9, r); o << (r = in.s); o << r;),
        OP("vector assign array", 0, RES(V4, r); r = in.raw; o << r; const T* p = in.raw; r = p + 2; o << r;),
        OP("vector assign other type", 0, RES(V3, r); r = in.i3; o << r; r = in.u3; o << r;),
        OP("vector set scalar", 0, RES(V5, r); r.set(in.s); o << r;),
        OP("vector set vector scalar", 0, RES(V4, r); r.set(in.v3a, in.s); o << r;),
        OP("vector set components", 0, RES(V2, a); RES(V3, b); RES(V4, c); a.set(in.s, in.t); b.set(in.s, in.t, in.u); c.set(in.s, in.t, in.u, in.f01); o << a << b << c;),
        OP("vector set shorter vector", 0, V5 r(in.v5a); r.set(in.v2a); o << r; r.set(in.v4a); o << r;),
        OP("vector iter_set", 0, RES(V4, r); r.iter_set(in.raw, in.raw + 4); o << r; r = in.v4a; r.iter_set(in.raw, in.raw + 2); o << r;),
        OP("vector at", 0, V3 r(in.v3a); const V3& k = r; for (size_t j = 0; j < 3; ++j) o << r.at(j) << k.at(j) << r(j) << k(j) << r[j] << k[j]; r.at(1) = in.s; r(2) = in.t; r[0] = in.u; o << r;),
        OP("vector xyzw", 0, V4 r(in.v4a); o << r.x() << r.y() << r.z() << r.w() << r.r() << r.g() << r.b() << r.a(); r.x() = in.s; r.g() = in.t; r.z() = in.u; r.a() = in.f01; o << r << in.v4b.x() << in.v4b.y() << in.v4b.z() << in.v4b.w() << in.v4b.r() << in.v4b.g() << in.v4b.b() << in.v4b.a();),
        OP("vector iterators", 0, T sum = 0; for (typename V9::const_iterator i = in.v9a.begin(); i != in.v9a.end(); ++i) sum = sum * 2 + *i; o << sum; sum = 0; for (typename V9::const_reverse_iterator i = in.v9a.rbegin(); i != in.v9a.rend(); ++i) sum = sum * 2 + *i; o << sum; V3 r(in.v3a); for (typename V3::iterator i = r.begin(); i != r.end(); ++i) *i *= 2; for (typename V3::reverse_iterator i = r.rbegin(); i != r.rend(); ++i) *i += 1; o << r << V3::size();),
        OP("vector ==", 0, o << (in.v3a == in.v3b) << (in.v3a != in.v3b) << (in.v3a == in.v3a) << (in.v9a != in.v9b);),
        OP("vector equals", 0, o << in.v3a.equals(in.v3b) << in.v3a.equals(in.v3a) << in.v3a.equals(in.v3b, T(4)) << vmml::equals(in.v4a, in.v4b) << vmml::equals(in.v4a, in.v4a);),
        OP("vector <", 0, o << (in.v3a < in.v3b) << (in.v3b < in.v3a) << (in.v9a < in.v9b) << (in.v9a < in.v9a);),
        OP("vector + vector", 0, o << in.v3a + in.v3b << in.v9a + in.v9b;),
        OP("vector - vector", 0, o << in.v3a - in.v3b << in.v9a - in.v9b;),
        OP("vector * vector", 0, o << in.v3a * in.v3b << in.v9a * in.v9b;),
        OP("vector / vector", 0, o << in.v3a / in.v3b;),
        OP("vector += vector", 0, V4 r(in.v4a); r += in.v4b; r += r; o << r;),
        OP("vector -= vector", 0, V4 r(in.v4a); r -= in.v4b; o << r; r -= r; o << r;),
        OP("vector *= vector", 0, V4 r(in.v4a); r *= in.v4b; r *= r; o << r;),
        OP("vector /= vector", 0, V4 r(in.v4a); r /= in.v4b; o << r;),
        OP("vector scalar ops", 0, o << in.v3a + in.s << in.v3a - in.s << in.v3a * in.s << in.v3a / in.s << in.s * in.v3a;),
        OP("vector scalar assign ops", 0, V3 r(in.v3a); r += in.s; o << r; r -= in.t; o << r; r *= in.s; o << r; r /= in.s; o << r;),
        OP("vector negate", 0, V3 r(in.v3a); o << -r << r; o << r.negate(); o << r;),
        OP("integer vector ops", 0, o << in.i3 + in.i3 << in.i3 * in.i3 << in.i3 * 3 << -in.i3 << in.i4 / 2 << (in.i3 < in.i3) << in.i3.find_max() << in.i3.dot(in.i3) << in.u3 + in.u3;),
        OP("vector dot", 0, o << in.v3a.dot(in.v3b) << vmml::dot(in.v9a, in.v9b) << in.v2a.dot(in.v2a);),
        OP("vector cross", 0, o << in.v3a.cross(in.v3b) << vmml::cross<3, T>(in.v3b, in.v3c); RES(V3, r); r.cross(in.v3a, in.v3c); o << r;),
        OP("vector cross into operand", 0, V3 r(in.v3a); r.cross(r, in.v3b); o << r; V3 q(in.v3b); q.cross(in.v3a, q); o << q;),
        OP("vector normalize", 0, V3 r(in.v3a); o << r.normalize(); o << r << vmml::normalize(in.v4a);),
        OP("vector length", 0, o << in.v3a.length() << in.v3a.squared_length() << in.v9a.length() << in.v3a.norm();),
        OP("vector distance", 0, o << in.v3a.distance(in.v3b) << in.v9a.squared_distance(in.v9b) << in.v3a.distance(in.v3a);),
        OP("vector product", 0, o << in.v3a.product() << in.v9a.product() << in.i4.product();),
        OP("vector rotate", TRANSCENDENTAL, V3 r(in.v3a); o << r.rotate(in.angle, in.axis); o << in.v3b.rotate(in.angle, V3(0, 0, 1));),
        OP("vector compute_normal", 0, RES(V3, r); r.compute_normal(in.v3a, in.v3b, in.v3c); o << r << in.v3a.compute_normal(in.v3b, in.v3c);),
        OP("vector get_sub_vector", 0, V5 r(in.v5a); r.template get_sub_vector<2>(3).x() = in.s; o << r << r.template get_sub_vector<3>(1) << in.v9a.template get_sub_vector<4>(5) << in.v4a.template get_sub_vector<3>();),
        OP("vector sphere functions", 0, o << in.sphere.project_point_onto_sphere(in.v3a) << in.sphere.distance_to_sphere(in.v3b);),
        OP("vector plane functions", 0, o << in.plane.project_point_onto_plane(in.v3a) << in.plane.distance_to_plane(in.v3b) << vmml::compute_plane(in.v3a, in.v3b, in.v3c);),
        OP("vector find", 0, o << in.v9a.find_min() << in.v9a.find_max() << in.v9a.find_min_index() << in.v9a.find_max_index() << in.v9a.find_abs_min_index() << in.v9a.find_abs_max_index(); V3 r(in.v3a); r.find_max() = in.s; r.find_min() = in.t; o << r;),
        OP("vector clamp", 0, V9 r(in.v9a); r.clamp(); o << r; r = in.v9a; r.clamp(T(-2), T(1.5)); o << r;),
        OP("vector scale_to", 0, RES(V9, r); in.v9a.scale_to(r); o << r; RES(V3, q); in.v3a.scale_to(q, T(0), T(10)); o << q;),
        OP("vector is_unit_vector", 0, o << in.v3a.is_unit_vector() << V3(0, 1, 0).is_unit_vector();),
        OP("vector sqrt_elementwise", 0, V9 r(in.v9a * in.v9a); r.sqrt_elementwise(); o << r;),
        OP("vector reciprocal", 0, V9 r(in.v9a); r.reciprocal(); o << r;),
        OP("vector reciprocal_safe", 0, V9 r(in.v9a); r.reciprocal_safe(); o << r;),
        OP("vector cast_from", 0, RES(V3, r); r.cast_from(in.i3); o << r; r.cast_from(in.v3a); o << r;),
        OP("vector nnz", 0, o << in.v9a.nnz() << in.i3.nnz();),
        OP("vector set_random", SKIP_SHARED, RES(V4, r); r.set_random(7); o << r;),
        OP("vector stream round trip", 0, std::ostringstream s; in.v4a.write_to_stream(s); RES(V4, r); std::istringstream i(s.str()); r.read_from_stream(i); o << r;),
        OP("vector print", 0, std::ostringstream s; s.precision(3); s << in.v4a << in.i3 << 1.23456789; o << s.str();),
        OP("vector free zero", 0, RES(V3, r); vmml::zero(r); o << r;),
        OP("vector free min max", 0, o << vmml::min(in.v3a, in.v3b) << vmml::max(in.v9a, in.v9b) << vmml::manhattan(in.v9a);),
        OP("free equals", 0, o << vmml::equals(in.s, in.t) << vmml::equals(in.s, in.s) << vmml::equals(in.s, 3);),
        OP("math helpers", 0, o << vmml::math::squared(in.s) << vmml::math::pythag(in.s, in.t) << vmml::math::pythag(in.t, in.s) << vmml::math::sign(in.s, in.t); vmml::math::abs_less<T> l; vmml::math::abs_greater<T> g; o << l(in.s, in.t) << g(in.s, in.t);),
    };
    count = int(sizeof t / sizeof t[0]);
    return t;
}
template <typename T>
Catalogue make(const char* type)
{
    Catalogue c;
    c.type = type;
    c.group = "vector";
    c.ops = table<T>(c.count);
    c.in_size = sizeof(In<T>);
    c.sets = SETS;
    c.build = &build<T>;
    c.constants = &constants<T>;
    c.set_names = set_names();
    return c;
}
Adder f(make<float>("float"));
Adder d(make<double>("double"));
} // namespace
} // namespace ops
