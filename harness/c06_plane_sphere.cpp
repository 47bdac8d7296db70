// C06: planes and spheres in 3D (4-vector helpers).
#include <vmmlib/vector.hpp>
#include "mc/common.hpp"
using namespace h;

namespace
{
typedef long double L;
struct P3
{
    L x[3];
};
template <typename T>
P3 p3(const vmml::Vector<3, T>& v)
{
    P3 p = {{v.array[0], v.array[1], v.array[2]}};
    return p;
}
P3 operator-(const P3& a, const P3& b)
{
    P3 r;
    for (int i = 0; i < 3; ++i)
        r.x[i] = a.x[i] - b.x[i];
    return r;
}
L dot(const P3& a, const P3& b) { return a.x[0] * b.x[0] + a.x[1] * b.x[1] + a.x[2] * b.x[2]; }
P3 cross(const P3& a, const P3& b)
{
    P3 r;
    for (int i = 0; i < 3; ++i)
        r.x[i] = a.x[(i + 1) % 3] * b.x[(i + 2) % 3] - a.x[(i + 2) % 3] * b.x[(i + 1) % 3];
    return r;
}
L len(const P3& a) { return std::sqrt(dot(a, a)); }

template <typename T>
vmml::Vector<3, T> lattice(Ctx& c, const std::vector<T>& al, T scale, const T* off)
{
    vmml::Vector<3, T> v;
    for (int i = 0; i < 3; ++i)
        v.array[i] = c.pick(al) * scale + off[i];
    return v;
}

template <typename T>
void check_plane(Ctx& c, const vmml::Vector<3, T>& a, const vmml::Vector<3, T>& b, const vmml::Vector<3, T>& d, T sc, const T* off, L thinnest);
template <typename T>
void plane(Ctx& c)
{
    typedef vmml::Vector<3, T> V3;
    typedef vmml::Vector<4, T> V4;
    const std::vector<T> al = c.thorough() ? std::vector<T>{T(-1), T(0), T(2), T(0.5)} : std::vector<T>{T(-1), T(0), T(2)};
    const std::vector<T> scales = {T(1), T(1e-3), T(250)};
    const T offs[2][3] = {{T(0), T(0), T(0)}, {T(3), T(-20), T(0.5)}};
    const T sc = c.pick(scales);
    const T* off = offs[c.choose(2)];
    const V3 a = lattice(c, al, sc, off), b = lattice(c, al, sc, off), d = lattice(c, al, sc, off);
    check_plane<T>(c, a, b, d, sc, off, 1e-2L);
}
// triangles of every size, and thin ones: the fourth power of the size, as the
// squared length of the cross product, is representable
template <typename T>
void plane_sizes(Ctx& c)
{
    typedef vmml::Vector<3, T> V3;
    static const double tri[][9] = {{0, 0, 0, 1, 0, 0, 0, 1, 0}, {1, 2, -1, 0.5, -1, 2, -2, 0, 1}, {0, 0, 1, 0, 1, 0, 1, 0, 0}, {-1, 0.25, 2, 2, 0.5, -1, 1, 1, 1}};
    const double* t = tri[c.choose(4)];
    const int top = sizeof(T) == 4 ? 8 : 70;
    const int e = c.choose(2 * top + 1) - top;
    const T sc = T(std::pow(10.0L, e)) * (c.flip() ? T(1) : T(3));
    static const double dir[3] = {3, -20, 0.5};
    T off[3];
    const bool away = c.flip();
    for (int i = 0; i < 3; ++i)
        off[i] = away ? T(dir[i]) * sc : T(0);
    const L thin = std::pow(10.0L, -c.choose(c.thorough() && sizeof(T) == 8 ? 7 : 4));
    V3 v[3];
    for (int k = 0; k < 3; ++k)
        for (int i = 0; i < 3; ++i)
        {
            const L line = t[i] + (t[3 + i] - t[i]) * 0.375L; // a point of the first edge
            v[k].array[i] = T((k == 2 ? line + (t[6 + i] - line) * thin : L(t[k * 3 + i])) * sc) + off[i];
        }
    const int turn = c.choose(3);
    check_plane<T>(c, v[turn], v[(turn + 1) % 3], v[(turn + 2) % 3], sc, off, thin * 1e-2L);
}
template <typename T>
void check_plane(Ctx& c, const vmml::Vector<3, T>& a, const vmml::Vector<3, T>& b, const vmml::Vector<3, T>& d, T sc, const T* off, L thinnest)
{
    typedef vmml::Vector<3, T> V3;
    typedef vmml::Vector<4, T> V4;
    const P3 u = p3(b) - p3(a), v = p3(d) - p3(a);
    const P3 n = cross(u, v);
    if (len(n) < thinnest * len(u) * len(v) || len(n) == 0)
        return; // collinear
    L big = 0;
    for (int i = 0; i < 3; ++i)
        big = std::max(big, std::max(std::fabs((L)a.array[i]), std::max(std::fabs((L)b.array[i]), std::fabs((L)d.array[i]))));
    // rounding of the edge vectors is relative to the coordinates
    L cond = big / std::min(std::min(len(u), len(v)), len(p3(d) - p3(b)));
    if (thinnest < 1e-2L)
        cond = std::max<L>(cond, 1) * len(u) * len(v) / len(n);
    const L tol = 64 * std::numeric_limits<T>::epsilon() * std::max<L>(1, cond * 4);
    NOTE(c, "compute_plane " << show(a) << show(b) << show(d));
    c.state(hash_fp(a.array, 3, hash_fp(b.array, 3, hash_fp(d.array, 3))));
    const V3 a0(a), b0(b), d0(d);
    c.step();
    const V4 p = vmml::compute_plane(a, b, d);
    P3 pn = {{p.array[0], p.array[1], p.array[2]}};
    CHK(c, std::fabs(len(pn) - 1) <= 16 * std::numeric_limits<T>::epsilon(), "normal of " << show(p) << " is not a unit vector");
    for (int i = 0; i < 3; ++i)
        CHK(c, std::fabs(pn.x[i] + n.x[i] / len(n)) <= tol, "compute_plane " << show(a) << show(b) << show(d) << " = " << show(p));
    const V3* pts[3] = {&a, &b, &d};
    for (int i = 0; i < 3; ++i)
        CHK(c, std::fabs((L)p.distance_to_plane(*pts[i])) <= tol * std::max<L>(big, sc), "point " << i << " of " << show(a) << show(b) << show(d) << " is at distance " << p.distance_to_plane(*pts[i]) << " of its plane " << show(p));
    CHK(c, a == a0 && b == b0 && d == d0, "operand changed");
    // query points
    const std::vector<T> ql = {T(-3), T(1), T(0.5)};
    for (int k = 0; k < 27; ++k)
    {
        V3 q;
        for (int i = 0, kk = k; i < 3; ++i, kk /= 3)
            q.array[i] = ql[size_t(kk % 3)] * sc + off[i];
        const L want = -dot(p3(q) - p3(a), n) / len(n);
        const L t2 = tol * std::max<L>(len(p3(q)), std::max<L>(big, sc)) * 2;
        c.step(2);
        const T dist = p.distance_to_plane(q);
        CHK(c, std::fabs(dist - want) <= t2, "distance of " << show(q) << " to plane " << show(p) << " = " << dist << " want " << (double)want);
        const V3 pr = p.project_point_onto_plane(q);
        for (int i = 0; i < 3; ++i)
        {
            const L w = q.array[i] - want * (-n.x[i] / len(n));
            CHK(c, std::fabs(pr.array[i] - w) <= t2 * 2, "projection of " << show(q) << " onto " << show(p) << " = " << show(pr) << " component " << i << " want " << (double)w);
        }
    }
}

const double NN[][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {-1, 0, 0}, {0, -1, 0}, {0, 0, -1}, {0.6, 0.8, 0}, {0, -0.6, 0.8}, {0.8, 0, -0.6}, {2 / 3., -1 / 3., 2 / 3.}, {-2 / 7., 3 / 7., 6 / 7.}};
template <typename T, typename TT>
void check_given(Ctx& c, Guarded<vmml::Vector<4, T>>& g, const vmml::Vector<3, TT>& q)
{
    typedef vmml::Vector<3, T> V3;
    typedef vmml::Vector<4, T> V4;
    const V4& p = g.o;
    Frozen<V4> f(p);
    Frozen<vmml::Vector<3, TT>> fq(q);
    const P3 n = {{p.array[0], p.array[1], p.array[2]}};
    const L want = dot(n, p3(q)) + p.array[3];
    const L tol = 8 * std::numeric_limits<T>::epsilon() * (std::fabs((L)p.array[3]) + len(p3(q)) + 1);
    c.state(hash_fp(q.array, 3, hash_fp(p.array, 4)));
    c.step(2);
    CHK(c, std::fabs(p.distance_to_plane(q) - want) <= tol, "distance of " << show(q) << " to " << show(p) << " = " << p.distance_to_plane(q));
    const V3 pr = p.project_point_onto_plane(q);
    for (int i = 0; i < 3; ++i)
        CHK(c, std::fabs(pr.array[i] - (q.array[i] - want * n.x[i])) <= 2 * tol, "projection of " << show(q) << " onto " << show(p) << " = " << show(pr));
    CHK(c, std::fabs((L)p.distance_to_plane(pr)) <= 4 * tol, "projected point is not on the plane");
    CHK_FROZEN(c, f);
    CHK_FROZEN(c, fq);
    CHK_GUARD(c, g);
}


// planes given directly: exact arithmetic with axis-aligned and 3-4-5 normals
template <typename T>
void given_plane(Ctx& c)
{
    typedef vmml::Vector<4, T> V4;
    const int k = c.choose(11);
    const std::vector<T> ws = {T(0), T(1), T(-2.5), T(100)};
    const std::vector<T> al = {T(0), T(1), T(-2), T(5), T(-0.5)};
    const T zero[3] = {T(0), T(0), T(0)};
    Guarded<V4> g(V4(T(NN[k][0]), T(NN[k][1]), T(NN[k][2]), c.pick(ws)));
    check_given(c, g, lattice(c, al, T(1), zero));
}
// points at every distance from the plane, planes at every distance from 0
template <typename T>
void near_plane(Ctx& c)
{
    typedef vmml::Vector<4, T> V4;
    const int k = c.choose(11);
    const std::vector<T> lad = ladder<T>(1, true), dec = decades<T>();
    const std::vector<T> ws = plus(lad, std::vector<T>{T(1), T(-2.5), T(100)});
    Guarded<V4> g(V4(T(NN[k][0]), T(NN[k][1]), T(NN[k][2]), c.pick(ws)));
    const T d = c.flip() ? c.pick(lad) : c.pick(dec);
    static const double off[][3] = {{0, 0, 0}, {1, -2, 0.5}};
    const int o = c.choose(2);
    vmml::Vector<3, T> q;
    for (int i = 0; i < 3; ++i) // a point at distance d of the plane
        q.array[i] = g.o.array[i] * (d - g.o.array[3]) + T(NN[k][(i + 1) % 3] * off[o][i] - NN[k][(i + 2) % 3] * off[o][(i + 1) % 3]);
    check_given(c, g, q);
}

template <typename T, typename TT>
void check_sphere(Ctx& c, Guarded<vmml::Vector<4, T>>& g, const vmml::Vector<3, TT>& q, T size)
{
    typedef vmml::Vector<3, T> V3;
    typedef vmml::Vector<4, T> V4;
    const V3 ce(g.o.array[0], g.o.array[1], g.o.array[2]);
    const V4& s = g.o;
    Frozen<V4> f(s);
    Frozen<vmml::Vector<3, TT>> fq(q);
    const P3 d = p3(q) - p3(ce);
    const L l = len(d), r = s.array[3];
    const L tol = 16 * std::numeric_limits<T>::epsilon() * (len(p3(q)) + len(p3(ce)) + r + size);
    NOTE(c, "sphere " << show(s) << " point " << show(q));
    c.state(hash_fp(q.array, 3, hash_fp(s.array, 4)));
    c.step(2);
    const T dist = s.distance_to_sphere(q);
    CHK(c, std::fabs(dist - (l - r)) <= tol, "distance of " << show(q) << " to sphere " << show(s) << " = " << dist << " want " << (double)(l - r));
    if (l > tol)
    {
        const V3 pr = s.project_point_onto_sphere(q);
        for (int i = 0; i < 3; ++i)
        {
            const L w = ce.array[i] + d.x[i] / l * r;
            CHK(c, std::fabs(pr.array[i] - w) <= tol, "projection of " << show(q) << " onto sphere " << show(s) << " = " << show(pr) << " component " << i << " want " << (double)w);
        }
        CHK(c, std::fabs((L)s.distance_to_sphere(pr)) <= 2 * tol, "projected point is not on the sphere");
    }
    CHK_FROZEN(c, f);
    CHK_FROZEN(c, fq);
    CHK_GUARD(c, g);
}
template <typename T>
void sphere(Ctx& c)
{
    typedef vmml::Vector<3, T> V3;
    typedef vmml::Vector<4, T> V4;
    const std::vector<T> cl = {T(0), T(1), T(-7)};
    const std::vector<T> rl = {T(0), T(1), T(0.25), T(12)};
    const std::vector<T> ql = {T(0), T(1), T(-2), T(4.5), T(-7)};
    const std::vector<T> scales = {T(1), T(1e-4), T(1e4)};
    const T zero[3] = {T(0), T(0), T(0)};
    const T sc = c.pick(scales);
    const V3 ce = lattice(c, cl, sc, zero);
    Guarded<V4> g(V4(ce, T(c.pick(rl) * sc)));
    check_sphere(c, g, lattice(c, ql, sc, zero), sc);
}
// points at every distance from the surface and from the centre
template <typename T>
void near_sphere(Ctx& c)
{
    typedef vmml::Vector<4, T> V4;
    const int k = c.choose(11);
    const std::vector<T> lad = ladder<T>(1, true), dec = decades<T>();
    static const double cen[][3] = {{0, 0, 0}, {1, -7, 0.25}};
    const int o = c.choose(2);
    const std::vector<T> rl = {T(0), T(1), T(0.25), T(12)};
    const T r = c.pick(rl);
    const int where = c.choose(3);
    const T d = where == 0 ? r + c.pick(lad) : where == 1 ? c.pick(lad) : c.pick(dec);
    Guarded<V4> g(V4(T(cen[o][0]), T(cen[o][1]), T(cen[o][2]), r));
    vmml::Vector<3, T> q;
    for (int i = 0; i < 3; ++i)
        q.array[i] = T(cen[o][i]) + T(NN[k][i]) * d;
    check_sphere(c, g, q, o ? T(1) : T(0));
}
// points of another element type
template <typename T, typename TT>
void mixed(Ctx& c)
{
    typedef vmml::Vector<3, TT> P;
    typedef vmml::Vector<4, T> V4;
    std::vector<TT> al = {TT(0), TT(1), TT(3), TT(100)};
    if (std::is_signed<TT>::value)
        al.insert(al.end(), {TT(-2), TT(-50)});
    if (!std::numeric_limits<TT>::is_integer)
        al.push_back(TT(1) / TT(3));
    const std::vector<T> ws = {T(0), T(1), T(-2.75), T(100)};
    const TT zero[3] = {TT(0), TT(0), TT(0)};
    const P q = lattice(c, al, TT(1), zero);
    const T w = c.pick(ws);
    if (c.flip())
    {
        const int k = c.choose(11);
        Guarded<V4> g(V4(T(NN[k][0]), T(NN[k][1]), T(NN[k][2]), w));
        check_given(c, g, q);
    }
    else
    {
        const std::vector<T> cl = {T(0), T(1.5), T(-7) / T(3)};
        const T z[3] = {T(0), T(0), T(0)};
        const vmml::Vector<3, T> ce = lattice(c, cl, T(1), z);
        Guarded<V4> g(V4(ce, T(std::fabs(w))));
        check_sphere(c, g, q, T(1));
    }
}
template <typename T>
void all()
{
    mc::add("mixed_int_" + tname<T>(), mixed<T, int>, "points of another element type");
    mc::add("mixed_ushort_" + tname<T>(), mixed<T, unsigned short>, "");
    mc::add("mixed_schar_" + tname<T>(), mixed<T, signed char>, "");
    mc::add("mixed_float_" + tname<T>(), mixed<T, float>, "");
    mc::add("mixed_double_" + tname<T>(), mixed<T, double>, "");
    mc::add("plane_sizes_" + tname<T>(), plane_sizes<T>, "triangles of every size and thinness");
    mc::add("plane_" + tname<T>(), plane<T>, "all non-collinear lattice triples x scale x offset x 27 query points");
    mc::add("given_plane_" + tname<T>(), given_plane<T>, "unit planes x lattice points");
    mc::add("near_plane_" + tname<T>(), near_plane<T>, "unit planes x points at every distance");
    mc::add("near_sphere_" + tname<T>(), near_sphere<T>, "points at every distance from the surface and the centre");
    mc::add("sphere_" + tname<T>(), sphere<T>, "lattice spheres x lattice points x scale");
}
} // namespace
REGISTER_BLOCK(c06)
{
#if PART == 0
    all<float>();
#else
    all<double>();
#endif
}
MC_MAIN()
