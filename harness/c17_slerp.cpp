// C17: slerp against the great arc computed in long double.
#include <vmmlib/matrix.hpp>
#include <vmmlib/quaternion.hpp>
#include "mc/common.hpp"
using namespace h;

namespace
{
typedef long double L;
struct R
{
    L c[4];
};
L norm(const R& a) { return std::sqrt(a.c[0] * a.c[0] + a.c[1] * a.c[1] + a.c[2] * a.c[2] + a.c[3] * a.c[3]); }
R lin(L s, const R& a, L t, const R& b)
{
    R r;
    for (int i = 0; i < 4; ++i)
        r.c[i] = s * a.c[i] + t * b.c[i];
    return r;
}
R unit(const R& a) { return lin(1 / norm(a), a, 0, a); }
L dot(const R& a, const R& b) { return a.c[0] * b.c[0] + a.c[1] * b.c[1] + a.c[2] * b.c[2] + a.c[3] * b.c[3]; }
// the point at fraction a of the arc from u to v (unit, dot >= 0)
R arc(const R& u, const R& v, L a)
{
    const L th = 2 * std::atan2(norm(lin(1, u, -1, v)), norm(lin(1, u, 1, v)));
    if (th < 1e-9L)
        return unit(lin(1 - a, u, a, v));
    return lin(std::sin((1 - a) * th) / std::sin(th), u, std::sin(a * th) / std::sin(th), v);
}
template <typename T>
R ref(const vmml::Quaternion<T>& q)
{
    R r = {{q.array[0], q.array[1], q.array[2], q.array[3]}};
    return r;
}
template <typename T>
vmml::Quaternion<T> toq(const R& r)
{
    return vmml::Quaternion<T>(T(r.c[0]), T(r.c[1]), T(r.c[2]), T(r.c[3]));
}
L dist(const R& a, const R& b)
{
    L d = 0;
    for (int i = 0; i < 4; ++i)
    {
        const L e = std::fabs(a.c[i] - b.c[i]);
        if (!(e <= d))
            d = e;
    }
    return d;
}
template <typename T>
std::string str(const vmml::Quaternion<T>& q)
{
    return show(q.array, 4);
}

template <typename T>
void check(Ctx& c, const vmml::Quaternion<T>& p, const vmml::Quaternion<T>& q, T a, int eps_kind)
{
    typedef vmml::Quaternion<T> Q;
    const L e = std::numeric_limits<T>::epsilon();
    const T epsilon = eps_kind == 0 ? T(1e-13) : eps_kind == 1 ? T(0) : eps_kind == 2 ? T(1e-7) : T(1e-4);
    Frozen<Q> fp(p), fq(q);
    const Q r = eps_kind ? Q::slerp(a, p, q, epsilon) : Q::slerp(a, p, q);
    c.step();
    CHK_FROZEN(c, fp);
    CHK_FROZEN(c, fq);
    const R u = unit(ref(p)), v = unit(ref(q));
    const L co = dot(u, v);
    const L tol = 48 * e + std::pow(2 * L(epsilon), 1.5L);
    const R plus = arc(u, co < 0 ? lin(-1, v, 0, v) : v, a);
    bool ok = dist(ref(r), plus) <= tol;
    if (!ok && std::fabs(co) <= 8 * e) // orthogonal in 4D: two shortest arcs
        ok = dist(ref(r), arc(u, lin(co < 0 ? 1 : -1, v, 0, v), a)) <= tol;
    CHK(c, ok, "slerp(" << a << ", " << str(p) << ", " << str(q) << ", eps " << epsilon << ") is " << str(r) << ", off by " << double(dist(ref(r), plus)));
    CHK(c, std::fabs(norm(ref(r)) - 1) <= tol, "slerp(" << a << ", " << str(p) << ", " << str(q) << ") has length " << norm(ref(r)));
    c.outcome(mc::hash_bytes(r.array, sizeof r.array));
    // negated inputs: the same rotation; swapped inputs: the reversed arc
    if (std::fabs(co) > 8 * e)
    {
        const Q ops[3] = {Q::slerp(a, -p, q, epsilon), Q::slerp(a, p, -q, epsilon), Q::slerp(a, -p, -q, epsilon)};
        c.step(4);
        for (int i = 0; i < 3; ++i)
            CHK(c, std::min(dist(ref(ops[i]), ref(r)), dist(lin(-1, ref(ops[i]), 0, u), ref(r))) <= 2 * tol, "slerp with negated input " << i << ": " << str(ops[i]) << " instead of +-" << str(r));
        const Q s = Q::slerp(T(1) - a, q, p, epsilon);
        const L d = std::min(dist(ref(s), ref(r)), dist(lin(-1, ref(s), 0, u), ref(r)));
        CHK(c, d <= 2 * tol, "slerp(1-" << a << ", q, p) is " << str(s) << " instead of +-" << str(r));
    }
}
template <typename T>
std::vector<T> params(Ctx& c)
{
    std::vector<T> v = {T(0), T(1), T(0.5), T(0.25), T(0.3), T(1e-6), T(0.9)};
    if (c.thorough())
        for (int i = 1; i < 16; ++i)
            v.push_back(T(i) / 16);
    return v;
}
R lattice(Ctx& c, int n)
{
    static const L al[] = {0, 1, -1, 2, -3};
    R r;
    for (int i = 0; i < 4; ++i)
        r.c[i] = al[c.choose(n)];
    return r;
}
template <typename T>
void pairs(Ctx& c)
{
    const R p = lattice(c, 3), q = lattice(c, c.thorough() ? 5 : 3);
    static const L len[] = {1, 1e-5L, 730};
    const L lp = c.pick(len), lq = c.pick(len);
    const T a = c.pick(params<T>(c));
    if (norm(p) == 0 || norm(q) == 0)
        return;
    const vmml::Quaternion<T> x = toq<T>(lin(lp, p, 0, p)), y = toq<T>(lin(lq, q, 0, q));
    NOTE(c, str(x) << str(y) << " a " << a);
    c.state(hash_fp(x.array, 4, hash_fp(y.array, 4, mc::hash_val(a))));
    check(c, x, y, a, 0);
}
// nearly equal and nearly opposite inputs, several epsilons
template <typename T>
void close_pairs(Ctx& c)
{
    const R p = lattice(c, c.thorough() ? 4 : 3), d = lattice(c, 2);
    const int k = c.choose(c.thorough() ? 36 : 18);
    const bool opposite = c.flip();
    const int ek = c.choose(4);
    const T a = c.pick(params<T>(c));
    if (norm(p) == 0)
        return;
    const L delta = std::pow(10.L, c.thorough() ? -k / 2.L : -L(k));
    const R q = lin(opposite ? -1 : 1, p, delta, d);
    if (norm(q) < 0.01L)
        return;
    const vmml::Quaternion<T> x = toq<T>(p), y = toq<T>(q);
    NOTE(c, str(x) << str(y) << " a " << a);
    c.state(hash_fp(x.array, 4, hash_fp(y.array, 4, mc::hash_val(a))));
    check(c, x, y, a, ek);
}
// nearly orthogonal in 4D (half turn apart): both sides of the sign decision
template <typename T>
void far_pairs(Ctx& c)
{
    const R p = lattice(c, 3);
    const int k = c.choose(c.thorough() ? 24 : 12);
    const bool minus = c.flip();
    const int perm = c.choose(3);
    const T a = c.pick(params<T>(c));
    if (norm(p) == 0)
        return;
    const L delta = (minus ? -1 : 1) * std::pow(10.L, c.thorough() ? -k / 2.L : -L(k));
    // an orthogonal 4-vector: swap pairs with a sign
    static const int ix[3][4] = {{1, 0, 3, 2}, {2, 3, 0, 1}, {3, 2, 1, 0}};
    static const int sg[3][4] = {{1, -1, 1, -1}, {1, -1, -1, 1}, {1, 1, -1, -1}};
    R o;
    for (int i = 0; i < 4; ++i)
        o.c[i] = sg[perm][i] * p.c[ix[perm][i]];
    const vmml::Quaternion<T> x = toq<T>(p), y = toq<T>(lin(1, o, delta, p));
    NOTE(c, str(x) << str(y) << " a " << a);
    c.state(hash_fp(x.array, 4, hash_fp(y.array, 4, mc::hash_val(a))));
    check(c, x, y, a, 0);
}
// parameters close to 0, to 1 and to 1/2, inputs of almost unit length
template <typename T>
void fine(Ctx& c)
{
    static const std::vector<T> lad = ladder<T>(1, true);
    static const L one[] = {0, 0.5L, 1};
    const R p = lattice(c, 2), q = lattice(c, 3);
    const bool len = c.flip();
    const L at = c.pick(one);
    const T d = c.pick(lad);
    const T a = len ? T(at == 1 ? 0.25L : at) : T(at + d);
    if (norm(p) == 0 || norm(q) == 0 || a < 0 || a > 1)
        return;
    const L lp = len ? 1 + L(d) : 1, lq = len && at == 1 ? 1 - L(d) : 1;
    const R u = unit(p), v = unit(q);
    const vmml::Quaternion<T> x = toq<T>(lin(lp, u, 0, u)), y = toq<T>(lin(lq, v, 0, v));
    NOTE(c, str(x) << str(y) << " a " << a);
    c.state(hash_fp(x.array, 4, hash_fp(y.array, 4, mc::hash_val(a))));
    check(c, x, y, a, c.choose(2));
}
// chained interpolation: slerp within an arc stays on it at constant speed
template <typename T>
void chain(Ctx& c, int depth)
{
    typedef vmml::Quaternion<T> Q;
    const R p0 = lattice(c, 3), q0 = lattice(c, 3);
    if (norm(p0) == 0 || norm(q0) == 0)
        return;
    R u = unit(p0), v = unit(q0);
    const L co = dot(u, v);
    if (std::fabs(co) < 1e-3L)
        return;
    if (co < 0)
        v = lin(-1, v, 0, v);
    Q x = toq<T>(u), y = toq<T>(v);
    L lo = 0, hi = 1;
    for (int i = 0; i < depth; ++i)
    {
        static const T as[] = {T(0.5), T(0.25), T(0.875)};
        const T a = c.pick(as);
        const Q m = Q::slerp(a, x, y);
        const L f = lo + (hi - lo) * a;
        c.step();
        CHK(c, dist(ref(m), arc(u, v, f)) <= (64 * (i + 1)) * L(std::numeric_limits<T>::epsilon()), "nested slerp at " << double(f) << " of " << str(toq<T>(u)) << str(toq<T>(v)) << " is " << str(m));
        if (c.flip())
            x = m, lo = f;
        else
            y = m, hi = f;
        c.state(hash_fp(m.array, 4));
    }
}
} // namespace

REGISTER_BLOCK(c17)
{
#if PART == 0
    typedef float E;
#else
    typedef double E;
#endif
    const std::string n = tname<E>();
    mc::add("pairs_" + n, pairs<E>, "all pairs of lattice quaternions, lengths, parameters");
    mc::add("close_" + n, close_pairs<E>, "nearly equal and opposite");
    mc::add("far_" + n, far_pairs<E>, "nearly half a turn apart");
    mc::add("fine_" + n, fine<E>, "parameters near 0, 1/2, 1; lengths near 1");
    mc::add("chain_" + n, [](Ctx& c) { chain<E>(c, c.thorough() ? 5 : 3); }, "nested interpolation");
}
MC_MAIN()
