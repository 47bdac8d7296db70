// C21: ray-sphere intersection.
#include <vmmlib/intersection.hpp>
#include "mc/common.hpp"
using namespace h;

namespace
{
typedef long double L;
template <typename T>
void test(Ctx& c, const T* o, const T* d, const T* ce, T rad, bool exact)
{
    typedef vmml::Vector<3, T> V3;
    typedef vmml::Vector<4, T> V4;
    const V3 org(o[0], o[1], o[2]), dir(d[0], d[1], d[2]);
    const V4 sph(ce[0], ce[1], ce[2], rad);
    const V3 org0(org), dir0(dir);
    const V4 sph0(sph);
    c.step();
    c.state(hash_fp(o, 3, hash_fp(d, 3, hash_fp(ce, 3, mc::hash_val(rad)))));
    const vmml::Intersection<T> ray(org, dir);
    Guarded<T> t(T(-12345));
    const bool hit = ray.test_sphere(sph, t.o);
    T again = T(-12345);
    const bool hit2 = ray.test_sphere(sph, again);
    CHK(c, hit == hit2 && t.o == again, "the second test of the same ray differs");
    CHK(c, org == org0 && dir == dir0 && sph == sph0, "an operand changed");
    CHK_GUARD(c, t);
    // reference: roots of |cv - s u| = R
    L u[3], cv[3], n = 0, s = 0, vp = 0, dd = 0;
    for (int i = 0; i < 3; ++i)
    {
        u[i] = d[i];
        n += u[i] * u[i];
        cv[i] = L(ce[i]) - o[i];
        s += cv[i] * cv[i];
    }
    n = std::sqrt(n);
    L cross[3], big = 0;
    for (int i = 0; i < 3; ++i)
    {
        u[i] /= n;
        vp += u[i] * cv[i];
        big = std::max(big, std::max(std::fabs(L(o[i])), std::fabs(L(ce[i]))));
    }
    for (int i = 0; i < 3; ++i)
    {
        cross[i] = cv[(i + 1) % 3] * u[(i + 2) % 3] - cv[(i + 2) % 3] * u[(i + 1) % 3];
        dd += cross[i] * cross[i];
    }
    const L r2 = L(rad) * rad, eps = std::numeric_limits<T>::epsilon();
    const L delta = exact ? 0 : 16 * eps * (s + r2 + big * std::sqrt(s));
    NOTE(c, "origin " << show(org) << " direction " << show(dir) << " sphere " << show(sph) << " -> " << hit << " t " << t.o);
    if (!hit)
        CHK(c, t.o == T(-12345), "no hit, but t was set to " << t.o << " for origin " << show(org) << " direction " << show(dir) << " sphere " << show(sph));
    bool may_hit = false, may_miss = false, ok_t = false;
    const L q = std::sqrt(std::max<L>(0, r2 - dd));
    const L tol = exact ? 8 * eps * (std::fabs(vp) + q) : 16 * eps * (std::sqrt(s) + big) + (q * q > delta ? delta / q : std::sqrt(2 * delta));
    if (dd <= r2 + delta)
    {
        if (s >= r2 - delta) // outside or on the surface
        {
            if (vp >= -tol)
                may_hit = true, ok_t = std::fabs(t.o - (vp - q)) <= tol;
            if (vp <= tol)
                may_miss = true;
        }
        if (s <= r2 + delta) // inside or on the surface
        {
            may_hit = true;
            ok_t = ok_t || std::fabs(t.o - (vp + q)) <= tol;
        }
    }
    if (dd >= r2 - delta && (!exact || dd > r2) && s >= r2 - delta)
        may_miss = true;
    if (exact && s == r2) // on the surface: its own point lies on the ray
        may_miss = false;
    if (exact && s > r2 && dd <= r2 && vp >= 0)
        may_miss = false;
    CHK(c, hit ? may_hit : may_miss, "origin " << show(org) << " direction " << show(dir) << " sphere " << show(sph) << " is reported as " << (hit ? "a hit" : "no hit"));
    if (hit)
        CHK(c, ok_t, "origin " << show(org) << " direction " << show(dir) << " sphere " << show(sph) << ": t = " << t.o << ", roots " << double(vp - q) << " and " << double(vp + q));
    if (hit)
        CHK(c, t.o >= -tol, "t is negative: " << t.o);
}
template <typename T>
void lattice(Ctx& c)
{
    const bool th = c.thorough();
    const std::vector<T> oa = th ? std::vector<T>{T(0), T(-3), T(2), T(0.7), T(-8.5)} : std::vector<T>{T(0), T(-3), T(2), T(0.7)};
    const std::vector<T> da = th ? std::vector<T>{T(0), T(1), T(-1), T(-3), T(0.3)} : std::vector<T>{T(0), T(1), T(-1), T(-3)};
    const std::vector<T> lens = {T(1), T(1e-5), T(4000)};
    const std::vector<T> rads = {T(1), T(2.5), T(0.1), T(6)};
    const T cen[3][3] = {{0, 0, 0}, {T(1), T(0.5), T(-2)}, {T(20), T(-31), T(7)}};
    T o[3], d[3], ce[3];
    const int k = c.choose(3);
    const int rel = c.choose(2); // around the sphere, or around the origin
    const T len = c.pick(lens);
    for (int i = 0; i < 3; ++i)
    {
        ce[i] = cen[k][i];
        o[i] = c.pick(oa) + (rel ? ce[i] : T(0));
        d[i] = T(c.pick(da) * len);
    }
    if (d[0] == 0 && d[1] == 0 && d[2] == 0)
        return;
    test(c, o, d, ce, c.pick(rads), false);
}
// rays aimed at the sphere: from every side, through points at a chosen
// fraction of the radius off the center, before, inside and behind
template <typename T>
void aimed(Ctx& c)
{
    const std::vector<T> da = c.thorough() ? std::vector<T>{T(0), T(1), T(-1), T(2), T(0.25)} : std::vector<T>{T(0), T(1), T(-1), T(2)};
    T d[3], ce[3], o[3];
    L n = 0, side[3];
    for (int i = 0; i < 3; ++i)
    {
        d[i] = c.pick(da);
        n += L(d[i]) * d[i];
    }
    const int k = c.choose(3);
    const std::vector<T> rads = {T(1), T(0.03), T(50)};
    const T rad = c.pick(rads);
    const std::vector<L> off = {0, 0.5L, 0.99L, 1.01L, 1.5L, 0.9999L, 1.0001L};
    const std::vector<L> back = {0, -0.5L, 0.5L, -1.2L, 1.2L, -40, 40, -0.05L, 0.05L};
    const L f = c.pick(off), g = c.pick(back);
    if (n == 0)
        return;
    n = std::sqrt(n);
    // any vector perpendicular to d
    const int a = d[0] != 0 ? 0 : d[1] != 0 ? 1 : 2, b = (a + 1) % 3;
    L p[3] = {0, 0, 0};
    p[b] = 1;
    for (int i = 0; i < 3; ++i)
        side[i] = p[i] - d[i] / n * (d[b] / n);
    const L sn = std::sqrt(side[0] * side[0] + side[1] * side[1] + side[2] * side[2]);
    static const L cen[3][3] = {{0, 0, 0}, {1, 0.5L, -2}, {20, -31, 7}};
    for (int i = 0; i < 3; ++i)
    {
        ce[i] = T(cen[k][i]);
        o[i] = T(cen[k][i] + (side[i] / sn * f + d[i] / n * g) * rad);
    }
    test(c, o, d, ce, rad, false);
}
// axis-parallel rays over dyadic numbers: exact, also at tangents
template <typename T>
void exact_axis(Ctx& c)
{
    const int axis = c.choose(3);
    const T len = T(std::ldexp(1.0, c.choose(5) * 7 - 14));
    T d[3] = {0, 0, 0}, o[3], ce[3];
    d[axis] = c.flip() ? len : -len;
    const std::vector<T> cen = {T(0), T(4), T(-7)};
    const std::vector<T> rel = c.thorough() ? std::vector<T>{T(0), T(1), T(-3), T(4), T(5), T(-5), T(3), T(0.5), T(13), T(-12), T(-4), T(-13)} : std::vector<T>{T(0), T(-3), T(4), T(5), T(-5), T(3), T(13), T(-12)};
    for (int i = 0; i < 3; ++i)
        ce[i] = c.pick(cen);
    for (int i = 0; i < 3; ++i)
        o[i] = ce[i] + c.pick(rel);
    const std::vector<T> rads = {T(5), T(3), T(13), T(0.5)};
    test(c, o, d, ce, c.pick(rads), true);
}
// every order of magnitude: origins this far off the surface, inside and
// outside; rays this far from the tangent; directions almost of unit length;
// origins almost at the center; directions almost along an axis; centers
// almost beside the origin; spheres of every size, near and far
template <typename T>
void ladders(Ctx& c)
{
    static const std::vector<T> lad = ladder<T>(1, true), dec = decades<T>(2);
    const int kind = c.choose(8), axis = c.choose(3);
    T o[3] = {0, 0, 0}, d[3] = {0, 0, 0}, ce[3] = {0, 0, 0}, rad = 5;
    const int a = axis, b = (axis + 1) % 3, e = (axis + 2) % 3;
    const T sgn = c.flip() ? T(1) : T(-1);
    d[a] = sgn;
    const bool moved = c.flip();
    if (moved)
        ce[0] = 4, ce[1] = -7, ce[2] = T(0.5);
    for (int i = 0; i < 3; ++i)
        o[i] = ce[i];
    if (kind < 6)
    {
        const T off = c.pick(lad);
        switch (kind)
        {
        case 0: o[a] += (c.flip() ? rad : -rad) * (1 + off); break;
        case 1: o[b] += rad * (1 + off), o[a] -= sgn * T(c.choose(3) * 6 - 6); break;
        case 2: d[a] *= 1 + off, o[a] -= sgn * T(c.choose(4) * 4 - 3); break;
        case 3: o[c.choose(3)] += off; break;
        case 4: d[b] = off, o[a] -= sgn * T(c.choose(3) * 8), o[e] += T(c.choose(2)); break;
        default: // on the surface at (3,4), going in or out, shifted along the ray
            o[a] += (c.flip() ? T(3) : T(-3)) + off;
            o[b] += 4;
        }
    }
    else
    {
        const T s = c.pick(dec), place[] = {T(-20), T(-6), T(-2), T(0), T(2), T(6)};
        const T at = c.pick(place), side = c.flip() ? T(3) : T(0);
        if (kind == 6) // all lengths scaled
        {
            rad *= s;
            for (int i = 0; i < 3; ++i)
                ce[i] *= s, o[i] = ce[i];
            o[a] += sgn * at * s;
            o[b] += side * s;
        }
        else // only the direction
        {
            d[a] *= s;
            o[a] += sgn * at;
            o[b] += side;
        }
    }
    test(c, o, d, ce, rad, false);
}
// spheres at every power of two away, in front and behind, of every size:
// exact numbers, hit in the middle, at the side, at the very rim or just missed
template <typename T>
void exact_far(Ctx& c)
{
    const int bits = std::numeric_limits<T>::digits / 2 - 2, axis = c.choose(3);
    const int a = axis, b = (axis + 1) % 3;
    const T sgn = c.flip() ? T(1) : T(-1), rads[] = {T(5), T(1), T(0.5)};
    const T sides[] = {T(0), T(0.25), T(0.5), T(1), T(3), T(5), T(5.5)};
    const T side = c.pick(sides), rad = c.pick(rads);
    const int lim = side == 0 ? std::numeric_limits<T>::max_exponent / 2 - 4 : bits - 3;
    const int k = c.choose(lim + 3) - 2; // both squares and their sum stay exact
    const T dist = T(std::ldexp(1.0, k));
    const T scale = side == 0 ? T(1) : T(std::ldexp(1.0, 10 * c.choose(3) - 10));
    T o[3] = {0, 0, 0}, d[3] = {0, 0, 0}, ce[3] = {0, 0, 0};
    d[a] = sgn * (c.flip() ? T(1) : T(4));
    const bool behind = c.flip();
    ce[a] = (behind ? -sgn : sgn) * dist * scale;
    ce[b] = side * scale;
    if (c.flip())
        for (int i = 0; i < 3; ++i)
            std::swap(o[i], ce[i]), ce[i] = -ce[i], o[i] = -o[i];
    test(c, o, d, ce, rad * scale, true);
}
} // namespace

REGISTER_BLOCK(c21)
{
#if PART == 0
    typedef float E;
#else
    typedef double E;
#endif
    const std::string n = tname<E>();
    mc::add("lattice_" + n, lattice<E>, "rays and spheres on a lattice");
    mc::add("aimed_" + n, aimed<E>, "rays passing at every fraction of the radius");
    mc::add("ladders_" + n, ladders<E>, "almost tangent, almost on the surface, almost unit, every scale");
    mc::add("exact_far_" + n, exact_far<E>, "spheres of every size at every distance, exact numbers");
    mc::add("exact_" + n, exact_axis<E>, "exact axis-parallel rays incl. tangents and surface origins");
}
MC_MAIN()
