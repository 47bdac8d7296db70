// C19: frustum culling against planes derived from the corner points.
#include <vmmlib/frustum.hpp>
#include <vmmlib/frustum_culler.hpp>
#include "mc/common.hpp"
using namespace h;

namespace
{
typedef long double L;
struct P
{
    L x[3];
};
P operator-(const P& a, const P& b)
{
    P r;
    for (int i = 0; i < 3; ++i)
        r.x[i] = a.x[i] - b.x[i];
    return r;
}
P operator+(const P& a, const P& b)
{
    P r;
    for (int i = 0; i < 3; ++i)
        r.x[i] = a.x[i] + b.x[i];
    return r;
}
P operator*(const P& a, L s)
{
    P r;
    for (int i = 0; i < 3; ++i)
        r.x[i] = a.x[i] * s;
    return r;
}
L dot(const P& a, const P& b) { return a.x[0] * b.x[0] + a.x[1] * b.x[1] + a.x[2] * b.x[2]; }
P cross(const P& a, const P& b)
{
    P r;
    for (int i = 0; i < 3; ++i)
        r.x[i] = a.x[(i + 1) % 3] * b.x[(i + 2) % 3] - a.x[(i + 2) % 3] * b.x[(i + 1) % 3];
    return r;
}
struct Plane
{
    P n;
    L d;
    L at(const P& p) const { return dot(n, p) + d; }
};
struct Spec
{
    bool ortho;
    L l, r, b, t, n, f;
};
static const Spec SPECS[] = {
    {true, -1, 1, -1, 1, -1, 1},        {true, -2, 4, -8, -2, 1, 5},
    {false, -1, 1, -1, 1, 1, 9},        {false, -0.5L, 0.25L, -0.1L, 0.3L, 0.4L, 20},
    {false, 0.75L, 2, -3, -0.5L, 1, 4}, {true, -0.7L, 0.9L, -3, 5, 0.2L, 40},
    {false, -3, 3, -0.2L, 0.2L, 2, 3},
};
struct Mv
{
    L r[3][3], t[3], s;
};
static const Mv MVS[] = {
    {{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, {0, 0, 0}, 1},
    {{{0, 0, 1}, {1, 0, 0}, {0, 1, 0}}, {2, -4, 8}, 1},
    {{{0.6L, 0, 0.8L}, {0, 1, 0}, {-0.8L, 0, 0.6L}}, {0.3L, -2, 5}, 1},
    {{{0.36L, 0.48L, -0.8L}, {-0.8L, 0.6L, 0}, {0.48L, 0.64L, 0.6L}}, {-1, 0.7L, 2}, 2},
    {{{0, 1, 0}, {-1, 0, 0}, {0, 0, 1}}, {0, 0, 16}, 0.5L},
};
// a reference frustum: its corners in world space, planes, matrix
struct Ref
{
    P c[8]; // bit 0 right, bit 1 top, bit 2 far
    Plane pl[6];
    L m[4][4];
    bool exact;
    L scale, aspect;
};
Ref make(const Spec& s, const Mv& v, bool exact)
{
    Ref r;
    r.exact = exact;
    r.scale = 0;
    P mid = {{0, 0, 0}};
    for (int k = 0; k < 8; ++k)
    {
        const L d = k & 4 ? s.f : s.n, q = s.ortho ? 1 : d / s.n;
        const L e[3] = {(k & 1 ? s.r : s.l) * q, (k & 2 ? s.t : s.b) * q, -d};
        // e = s (R p) + t  ->  p = R^T (e - t) / s
        for (int i = 0; i < 3; ++i)
        {
            r.c[k].x[i] = 0;
            for (int j = 0; j < 3; ++j)
                r.c[k].x[i] += v.r[j][i] * (e[j] - v.t[j]) / v.s;
            r.scale = std::max(r.scale, std::fabs(r.c[k].x[i]));
        }
        mid = mid + r.c[k] * 0.125L;
    }
    static const int face[6][3] = {{0, 2, 4}, {1, 3, 5}, {0, 1, 4}, {2, 3, 6}, {0, 1, 2}, {4, 5, 6}};
    L edge = 1e30L;
    for (int i = 0; i < 6; ++i)
    {
        const P u = r.c[face[i][1]] - r.c[face[i][0]], w = r.c[face[i][2]] - r.c[face[i][0]];
        edge = std::min(edge, std::min(std::sqrt(dot(u, u)), std::sqrt(dot(w, w))));
        P n = cross(u, w);
        n = n * (1 / std::sqrt(dot(n, n)));
        L d = -dot(n, r.c[face[i][0]]);
        if (dot(n, mid) + d < 0)
            n = n * -1, d = -d;
        r.pl[i].n = n;
        r.pl[i].d = d;
    }
    r.aspect = std::max<L>(1, r.scale / edge) * (s.ortho ? 1 : s.f / s.n);
    L p[4][4] = {};
    if (s.ortho)
    {
        p[0][0] = 2 / (s.r - s.l);
        p[0][3] = -(s.r + s.l) / (s.r - s.l);
        p[1][1] = 2 / (s.t - s.b);
        p[1][3] = -(s.t + s.b) / (s.t - s.b);
        p[2][2] = -2 / (s.f - s.n);
        p[2][3] = -(s.f + s.n) / (s.f - s.n);
        p[3][3] = 1;
    }
    else
    {
        p[0][0] = 2 * s.n / (s.r - s.l);
        p[0][2] = (s.r + s.l) / (s.r - s.l);
        p[1][1] = 2 * s.n / (s.t - s.b);
        p[1][2] = (s.t + s.b) / (s.t - s.b);
        p[2][2] = -(s.f + s.n) / (s.f - s.n);
        p[2][3] = -2 * s.f * s.n / (s.f - s.n);
        p[3][2] = -1;
    }
    for (int i = 0; i < 4; ++i)
        for (int j = 0; j < 4; ++j)
        {
            r.m[i][j] = j == 3 ? p[i][3] : 0;
            for (int k = 0; k < 3; ++k)
                r.m[i][j] += p[i][k] * (j < 3 ? v.s * v.r[k][j] : v.t[k]);
        }
    return r;
}
template <typename T>
void setup(vmml::FrustumCuller<T>& f, const Ref& r, bool matrix)
{
    if (matrix)
    {
        vmml::Matrix<4, 4, T> m;
        for (int i = 0; i < 4; ++i)
            for (int j = 0; j < 4; ++j)
                m.array[j * 4 + i] = T(r.m[i][j]);
        const vmml::Matrix<4, 4, T> m0(m);
        f.setup(m);
    }
    else
    {
        vmml::Vector<3, T> c[8];
        for (int k = 0; k < 8; ++k)
            c[k] = vmml::Vector<3, T>(T(r.c[k].x[0]), T(r.c[k].x[1]), T(r.c[k].x[2]));
        f.setup(c[2], c[3], c[0], c[1], c[6], c[7], c[4], c[5]);
    }
}
// what may be answered: bit set of 1 << visibility
int allowed(const Ref& r, const P& center, const L* reach, L tol)
{
    bool none_sure = false, none_maybe = false, full_sure = true, full_maybe = true;
    for (int i = 0; i < 6; ++i)
    {
        const L d = r.pl[i].at(center), n = reach[i];
        const L t = tol == 0 && n == 0 ? 1e-30L : tol; // a point on the plane: either
        none_sure = none_sure || d <= -n - t;
        none_maybe = none_maybe || d <= -n + t;
        full_sure = full_sure && d >= n + t;
        full_maybe = full_maybe && d >= n - t;
    }
    if (none_sure)
        return 1;
    int a = none_maybe ? 1 : 0;
    if (full_sure)
        return a | 4;
    return a | 2 | (full_maybe ? 4 : 0);
}
template <typename T>
P rounded(const P& p)
{
    P r;
    for (int i = 0; i < 3; ++i)
        r.x[i] = T(p.x[i]);
    return r;
}
// sums of such numbers are exact in any order, even in float
bool coarse(L x) { return std::fabs(x) <= 64 && x * 1024 == std::floor(x * 1024); }
template <typename T>
void test_sphere(Ctx& c, const vmml::FrustumCuller<T>& f, const Ref& r, const P& p0, L rad, const char* how)
{
    const P p = rounded<T>(p0);
    const T q = T(rad);
    const vmml::Vector<4, T> s(T(p.x[0]), T(p.x[1]), T(p.x[2]), q);
    const vmml::Vector<4, T> s0(s);
    L reach[6], big = r.scale;
    for (int i = 0; i < 6; ++i)
        reach[i] = q;
    for (int i = 0; i < 3; ++i)
        big = std::max(big, std::fabs(p.x[i]));
    const bool ex = r.exact && coarse(q) && coarse(p.x[0]) && coarse(p.x[1]) && coarse(p.x[2]);
    const L tol = ex ? 0 : 64 * std::numeric_limits<T>::epsilon() * r.aspect * (big + q);
    const int al = allowed(r, p, reach, tol);
    c.step();
    const vmml::Visibility v = f.test_sphere(s);
    CHK(c, s == s0, "sphere changed");
    CHK(c, v >= 0 && v <= 2 && (al >> v & 1), "sphere " << show(s) << " in frustum set up from " << how << " is reported " << int(v) << ", allowed set " << al << " (1 none, 2 partial, 4 full)");
    c.state(hash_fp(s.array, 4, mc::hash_val(int(v))));
}
template <typename T>
void test_box(Ctx& c, const vmml::FrustumCuller<T>& f, const Ref& r, const P& p0, const P& half, int swap, const char* how)
{
    typedef vmml::Vector<2, T> V2;
    V2 iv[3];
    P mid, ext;
    L big = r.scale;
    bool ex = r.exact;
    for (int i = 0; i < 3; ++i)
    {
        T a = T(p0.x[i] - half.x[i]), b = T(p0.x[i] + half.x[i]);
        mid.x[i] = (L(a) + b) / 2;
        ext.x[i] = std::fabs(L(b) - a) / 2;
        big = std::max(big, std::max(std::fabs(L(a)), std::fabs(L(b))));
        ex = ex && coarse(a) && coarse(b);
        if (swap >> i & 1)
            std::swap(a, b);
        iv[i] = V2(a, b);
    }
    L reach[6];
    for (int i = 0; i < 6; ++i)
    {
        reach[i] = 0;
        for (int j = 0; j < 3; ++j)
            reach[i] += ext.x[j] * std::fabs(r.pl[i].n.x[j]);
    }
    const L tol = ex ? 0 : 64 * std::numeric_limits<T>::epsilon() * r.aspect * big;
    const int al = allowed(r, mid, reach, tol);
    c.step();
    const vmml::Visibility v = f.test_aabb(iv[0], iv[1], iv[2]);
    CHK(c, v >= 0 && v <= 2 && (al >> v & 1), "box " << show(iv[0]) << show(iv[1]) << show(iv[2]) << " in frustum set up from " << how << " is reported " << int(v) << ", allowed set " << al << " (1 none, 2 partial, 4 full)");
    c.state(hash_fp(iv[0].array, 2, hash_fp(iv[1].array, 2, hash_fp(iv[2].array, 2, mc::hash_val(int(v))))));
}
// prepares a culler; sometimes after an earlier, different setup
template <typename T>
Ref prepare(Ctx& c, vmml::FrustumCuller<T>& f, const char*& how)
{
    const int si = c.choose(7), vi = c.choose(5);
    const bool matrix = c.flip();
    const int before = c.choose(3);
    if (before)
        setup(f, make(SPECS[(si + 2) % 7], MVS[(vi + 1) % 5], false), before == 1);
    // dyadic coordinates and axis-aligned planes: everything is exact
    const bool exact = (si == 0 || (si == 1 && !matrix)) && (vi == 0 || vi == 1 || vi == 4);
    const Ref r = make(SPECS[si], MVS[vi], exact);
    how = matrix ? "its matrix" : "its corners";
    setup(f, r, matrix);
    NOTE(c, "frustum " << si << " view " << vi << " from " << how << " earlier setup " << before);
    return r;
}
// positions relative to the frustum: trilinear coordinates of the corners
P inside(const Ref& r, L u, L v, L w)
{
    P p = {{0, 0, 0}};
    for (int k = 0; k < 8; ++k)
        p = p + r.c[k] * ((k & 1 ? u : 1 - u) * (k & 2 ? v : 1 - v) * (k & 4 ? w : 1 - w));
    return p;
}
template <typename T>
void lattice(Ctx& c)
{
    vmml::FrustumCuller<T> f;
    const char* how;
    const Ref r = prepare(c, f, how);
    static const L at[] = {0.5L, -0.5L, 0, 0.125L, 1, 1.25L, 2};
    const int na = c.thorough() ? 7 : 6;
    const P p = inside(r, at[c.choose(na)], at[c.choose(na)], at[c.choose(na)]);
    if (c.flip())
    {
        static const L rad[] = {0, 0.25L, 1, 30};
        test_sphere(c, f, r, p, c.pick(rad), how);
    }
    else
    {
        static const P half[] = {{{0.25L, 0.25L, 0.25L}}, {{1, 0.125L, 2}}, {{0, 4, 0}}, {{40, 40, 40}}, {{0, 0, 0}}, {{0.5L, 8, 0.25L}}};
        const P& hf = half[c.choose(c.thorough() ? 6 : 4)];
        test_box(c, f, r, p, hf, c.choose(8), how);
    }
}
// around every plane: just touching, just crossing, from both sides
template <typename T>
void tangent(Ctx& c)
{
    vmml::FrustumCuller<T> f;
    const char* how;
    const Ref r = prepare(c, f, how);
    const int pl = c.choose(6);
    static const L at[] = {0.5L, 0.25L, 0.75L};
    const L u = c.pick(at), v = c.pick(at);
    const L w[3] = {pl / 2 == 0 ? L(pl % 2) : u, pl / 2 == 1 ? L(pl % 2) : pl / 2 == 0 ? u : v, pl / 2 == 2 ? L(pl % 2) : v};
    const P on = inside(r, w[0], w[1], w[2]);
    static const L sides[] = {-1, 1, 0};
    const L side = c.pick(sides);
    static const L offs[] = {0, 1e-3L, -1e-3L, 0.03125L, -0.03125L};
    const L off = c.pick(offs);
    if (c.flip())
    {
        static const L rad[] = {0.125L, 0.5L, 0};
        const L q = c.pick(rad);
        test_sphere(c, f, r, on + r.pl[pl].n * (side * q + off), q, how);
    }
    else
    {
        static const P half[] = {{{0.125L, 0.25L, 0.0625L}}, {{0.5L, 0.125L, 0.25L}}};
        const P& hf = c.pick(half);
        L reach = 0;
        for (int j = 0; j < 3; ++j)
            reach += hf.x[j] * std::fabs(r.pl[pl].n.x[j]);
        test_box(c, f, r, on + r.pl[pl].n * (side * reach + off), hf, c.choose(8), how);
    }
}
// distances, radii and extents of every order of magnitude, down to below the
// resolution; frusta at every scale
template <typename T>
void ladders(Ctx& c)
{
    static const std::vector<T> lad = ladder<T>(1, true), dec = decades<T>(2);
    vmml::FrustumCuller<T> f;
    const int si = c.choose(7), vi = c.choose(3);
    const bool matrix = c.flip();
    const bool exact = (si == 0 || (si == 1 && !matrix)) && (vi == 0 || vi == 1);
    const Ref r = make(SPECS[si], MVS[vi], exact);
    setup(f, r, matrix);
    const char* how = matrix ? "its matrix" : "its corners";
    const int pl = c.choose(6), kind = c.choose(4);
    const L d = L(c.pick(lad));
    L w[3] = {0.5L, 0.25L, 0.5L};
    w[pl / 2] = pl % 2;
    const P on = inside(r, w[0], w[1], w[2]);
    static const L sides[] = {-1, 1};
    const L side = c.pick(sides);
    if (kind < 2)
    {
        // kind 0: off a touching sphere by d; 1: a sphere of radius |d|
        const L q = kind == 0 ? 0.25L : std::fabs(d);
        test_sphere(c, f, r, on + r.pl[pl].n * (side * q + (kind == 0 ? d : 0)), q, how);
        if (kind == 1)
            test_sphere(c, f, r, on + r.pl[pl].n * (side * 0.0625L), q, how);
    }
    else
    {
        P hf = {{0.125L, 0.25L, 0.0625L}};
        if (kind == 3)
            hf.x[(pl / 2 + 1) % 3] = std::fabs(d), hf.x[pl / 2] = 0;
        L reach = 0;
        for (int j = 0; j < 3; ++j)
            reach += hf.x[j] * std::fabs(r.pl[pl].n.x[j]);
        test_box(c, f, r, on + r.pl[pl].n * (side * reach + (kind == 2 ? d : 0)), hf, 0, how);
        if (kind == 3)
            test_box(c, f, r, on + r.pl[pl].n * (side * 0.0625L), hf, 5, how);
    }
}
// the whole scene at every scale; the matrix times every factor
template <typename T>
void scales(Ctx& c)
{
    static const std::vector<T> dec = [] {
        std::vector<T> v;
        for (T s : decades<T>())
            if (s < (sizeof(T) == 4 ? 1e7 : 1e70) && s > (sizeof(T) == 4 ? 1e-7 : 1e-70))
                v.push_back(s);
        return v;
    }();
    const int si = c.choose(7), kind = c.choose(3);
    const L s = c.pick(dec);
    Spec sp = SPECS[si];
    Mv mv = MVS[2];
    if (kind < 2)
    {
        for (L* x : {&sp.l, &sp.r, &sp.b, &sp.t, &sp.n, &sp.f})
            *x *= s;
        for (int i = 0; i < 3; ++i)
            mv.t[i] *= s;
    }
    Ref r = make(sp, mv, false);
    vmml::FrustumCuller<T> f;
    if (kind == 2)
        for (int i = 0; i < 4; ++i)
            for (int j = 0; j < 4; ++j)
                r.m[i][j] *= s;
    setup(f, r, kind > 0);
    const char* how = kind == 2 ? "its scaled matrix" : kind ? "its matrix" : "its corners";
    const L k = kind < 2 ? s : 1;
    static const L at[] = {0.5L, -0.5L, 0.125L, 1.25L};
    const P p = inside(r, c.pick(at), c.pick(at), c.pick(at));
    static const L rad[] = {0, 0.0625L, 0.5L, 30};
    test_sphere(c, f, r, p, c.pick(rad) * k, how);
    test_box(c, f, r, p, P{{0.125L * k, 0.0625L * k, 0.25L * k}}, 0, how);
    test_box(c, f, r, p, P{{2 * k, 0, 4 * k}}, 3, how);
}
// matrices made by the library's own Frustum
template <typename T>
void pipeline(Ctx& c)
{
    const int si = c.choose(7);
    const Spec& s = SPECS[si];
    const vmml::Frustum<T> fr(T(s.l), T(s.r), T(s.b), T(s.t), T(s.n), T(s.f));
    Guarded<vmml::FrustumCuller<T>> g;
    g.o.setup(s.ortho ? fr.compute_ortho_matrix() : fr.compute_matrix());
    const Ref r = make(s, MVS[0], false);
    static const L at[] = {0.5L, -0.5L, 0.125L, 0.875L, 1.125L};
    const P p = inside(r, c.pick(at), c.pick(at), c.pick(at));
    static const L rad[] = {0, 0.03125L, 0.25L, 30};
    test_sphere(c, g.o, r, p, c.pick(rad), "Frustum");
    test_box(c, g.o, r, p, P{{0.125L, 0.0625L, 0.25L}}, 0, "Frustum");
    CHK_GUARD(c, g);
}
} // namespace

REGISTER_BLOCK(c19)
{
#if PART == 0
    typedef float E;
#else
    typedef double E;
#endif
    const std::string n = tname<E>();
    mc::add("lattice_" + n, lattice<E>, "spheres and boxes on a lattice around 35 frusta");
    mc::add("tangent_" + n, tangent<E>, "tangent and crossing objects at every plane");
    mc::add("ladders_" + n, ladders<E>, "distances, radii, extents of every order of magnitude");
    mc::add("scales_" + n, scales<E>, "scenes and matrices of every scale");
    mc::add("pipeline_" + n, pipeline<E>, "Frustum matrices into the culler");
}
MC_MAIN()
