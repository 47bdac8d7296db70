// C15: quaternion arithmetic against Hamilton's multiplication table.
#include <vmmlib/matrix.hpp>
#include <vmmlib/quaternion.hpp>
#include "mc/common.hpp"
#include <list>
using namespace h;

namespace
{
typedef long double L;
// reference quaternion: c[0..3] = x y z w
struct R
{
    L c[4];
};
template <typename T>
R ref(const vmml::Quaternion<T>& q)
{
    R r = {{q.array[0], q.array[1], q.array[2], q.array[3]}};
    return r;
}
R mk(L x, L y, L z, L w)
{
    R r = {{x, y, z, w}};
    return r;
}
// the multiplication table of the units i, j, k, 1
R mul(const R& a, const R& b)
{
    static const int unit[4][4] = {{3, 2, 1, 0}, {2, 3, 0, 1}, {1, 0, 3, 2}, {0, 1, 2, 3}};
    static const int sign[4][4] = {{-1, 1, -1, 1}, {-1, -1, 1, 1}, {1, -1, -1, 1}, {1, 1, 1, 1}};
    R r = mk(0, 0, 0, 0);
    for (int i = 0; i < 4; ++i)
        for (int j = 0; j < 4; ++j)
            r.c[unit[i][j]] += sign[i][j] * a.c[i] * b.c[j];
    return r;
}
R lin(L s, const R& a, L t, const R& b)
{
    R r;
    for (int i = 0; i < 4; ++i)
        r.c[i] = s * a.c[i] + t * b.c[i];
    return r;
}
R conj(const R& a) { return mk(-a.c[0], -a.c[1], -a.c[2], a.c[3]); }
L sq(const R& a) { return a.c[0] * a.c[0] + a.c[1] * a.c[1] + a.c[2] * a.c[2] + a.c[3] * a.c[3]; }
L dot(const R& a, const R& b) { return a.c[0] * b.c[0] + a.c[1] * b.c[1] + a.c[2] * b.c[2] + a.c[3] * b.c[3]; }
L big(const R& a)
{
    L m = 0;
    for (int i = 0; i < 4; ++i)
        m = std::max(m, std::fabs(a.c[i]));
    return m;
}
std::string str(const R& a)
{
    std::ostringstream o;
    o.precision(17);
    o << "(" << a.c[0] << " " << a.c[1] << " " << a.c[2] << " " << a.c[3] << ")";
    return o.str();
}
template <typename T>
bool eq(const vmml::Quaternion<T>& q, const R& r, L tol = 0)
{
    for (int i = 0; i < 4; ++i)
        if (!(std::fabs(L(q.array[i]) - r.c[i]) <= tol))
            return false;
    return true;
}
template <typename T>
vmml::Quaternion<T> any(Ctx& c, const std::vector<T>& al)
{
    vmml::Quaternion<T> q;
    for (int i = 0; i < 4; ++i)
        q.array[i] = c.pick(al);
    return q;
}
template <typename T>
uint64_t hq(const vmml::Quaternion<T>& q, uint64_t s = 3)
{
    return hash_fp(q.array, 4, s);
}
#define EQ(expr, want, what)                                                                                                                                      \
    do                                                                                                                                                            \
    {                                                                                                                                                             \
        c.step();                                                                                                                                                 \
        const Q r_ = (expr);                                                                                                                                      \
        CHK(c, eq(r_, want, tol), what << " of " << str(a) << ", " << str(b) << " is " << str(ref(r_)) << " want " << str(want));                                   \
    } while (0)

// every operation of two quaternions; kind 0 exact integers, 1 reals
template <typename T>
void check_pair(Ctx& c, const vmml::Quaternion<T>& x0, const vmml::Quaternion<T>& y0, int kind)
{
    typedef vmml::Quaternion<T> Q;
    typedef vmml::Vector<3, T> V3;
    Guarded<Q> gp(x0), gq(y0);
    const Q &p = gp.o, &q = gq.o;
    const R a = ref(p), b = ref(q);
    Frozen<Q> fp(p), fq(q);
    const L eps = kind ? std::numeric_limits<T>::epsilon() : 0;
    const L size = (big(a) + 1) * (big(b) + 1);
    const L tol = eps * 32 * size;
    c.state(hq(p, hq(q)));
    EQ(p + q, lin(1, a, 1, b), "sum");
    EQ(p - q, lin(1, a, -1, b), "difference");
    EQ(p * q, mul(a, b), "product");
    {
        Guarded<Q> x(p);
        x.o += q;
        EQ(x.o, lin(1, a, 1, b), "+=");
        x.o = p;
        x.o -= q;
        EQ(x.o, lin(1, a, -1, b), "-=");
        x.o = p;
        x.o *= q;
        EQ(x.o, mul(a, b), "*=");
        x.o = p;
        x.o *= x.o;
        EQ(x.o, mul(a, a), "q *= q");
        x.o = p;
        x.o += x.o;
        EQ(x.o, lin(2, a, 0, a), "q += q");
        x.o = p;
        x.o -= x.o;
        EQ(x.o, lin(0, a, 0, a), "q -= q");
        x.o = p;
        x.o = x.o;
        EQ(x.o, a, "q = q");
        CHK_GUARD(c, x);
    }
    c.step(4);
    CHK(c, std::fabs(L(p.dot(q)) - dot(a, b)) <= tol, "dot of " << str(a) << str(b) << " is " << p.dot(q));
    CHK(c, std::fabs(L(Q::dot(p, q)) - dot(a, b)) <= tol, "static dot of " << str(a) << str(b) << " is " << Q::dot(p, q));
    const V3 cr = p.cross(q);
    for (int i = 0; i < 3; ++i)
    {
        const int j = (i + 1) % 3, k = (i + 2) % 3;
        CHK(c, std::fabs(L(cr.array[i]) - (a.c[j] * b.c[k] - a.c[k] * b.c[j])) <= tol, "cross of " << str(a) << str(b) << " is " << show(cr));
    }
    // comparison
    bool e = true;
    for (int i = 0; i < 4; ++i)
        e = e && p.array[i] == q.array[i];
    CHK(c, (p == q) == e && (p != q) == !e, "comparison of " << str(a) << str(b));
    vmml::Vector<4, T> v4(q.array[0], q.array[1], q.array[2], q.array[3]);
    CHK(c, (p == v4) == e && (p != v4) == !e, "comparison of " << str(a) << " with vector " << str(b));
    const bool scalar = p.array[0] == 0 && p.array[1] == 0 && p.array[2] == 0 && p.array[3] == q.array[3];
    CHK(c, (p == q.array[3]) == scalar && (p != q.array[3]) == !scalar, "comparison of " << str(a) << " with scalar " << b.c[3]);
    L diff = big(lin(1, a, -1, b));
    Q pc(p);
    if (diff > 0)
        CHK(c, pc.is_akin(q, T(diff * 1.01)) && !pc.is_akin(q, T(diff * 0.99)) && pc.is_akin(p, T(0)), "is_akin of " << str(a) << str(b));
    // 3-vector operands: the pure quaternion (v, 0)
    const V3 v(q.array[0], q.array[1], q.array[2]);
    const R b0 = b, pure = mk(b.c[0], b.c[1], b.c[2], 0);
    EQ(p + v, lin(1, a, 1, pure), "sum with vector");
    EQ(p - v, lin(1, a, -1, pure), "difference with vector");
    EQ(p * v, mul(a, pure), "product with vector");
    {
        Guarded<Q> x(p);
        x.o += v;
        EQ(x.o, lin(1, a, 1, pure), "+= vector");
        x.o = p;
        x.o -= v;
        EQ(x.o, lin(1, a, -1, pure), "-= vector");
        x.o = p;
        x.o *= v;
        EQ(x.o, mul(a, pure), "*= vector");
        CHK_GUARD(c, x);
    }
    // scalars
    const T s = q.array[0];
    EQ(p * s, lin(s, a, 0, a), "product with scalar");
    {
        Guarded<Q> x(p);
        x.o *= s;
        EQ(x.o, lin(s, a, 0, a), "*= scalar");
        if (s != 0)
        {
            const L dt = 8 * std::numeric_limits<T>::epsilon() * (1 + big(a)) / std::fabs(L(s));
            x.o = p;
            x.o /= s;
            CHK(c, eq(x.o, lin(1 / L(s), a, 0, a), dt), "/= " << s << " of " << str(a) << " is " << str(ref(x.o)));
            const Q d = p / s;
            CHK(c, eq(d, lin(1 / L(s), a, 0, a), dt), "/ " << s << " of " << str(a) << " is " << str(ref(d)));
            c.step(2);
        }
        CHK_GUARD(c, x);
    }
    CHK_FROZEN(c, fp);
    CHK_FROZEN(c, fq);
    CHK_GUARD(c, gp);
    CHK_GUARD(c, gq);
    (void)b0;
}

template <typename T>
void pairs(Ctx& c, int kind)
{
    typedef vmml::Quaternion<T> Q;
    const std::vector<T> ints = c.thorough() ? std::vector<T>{T(0), T(1), T(-1), T(2), T(-3), T(5)} : std::vector<T>{T(0), T(1), T(-1), T(2), T(-3)};
    const std::vector<T> reals = c.thorough() ? std::vector<T>{T(0), T(0.1), T(-7.3), T(1e-6), T(1.0 / 3)} : std::vector<T>{T(0.1), T(-7.3), T(1e-6)};
    const Q x = any<T>(c, kind ? reals : ints), y = any<T>(c, kind ? reals : ints);
    check_pair(c, x, y, kind);
}
// one quaternion and another which differs from it, from its negation, its
// conjugate or its multiple by a little in one component; components of every
// order of magnitude
template <typename T>
void near_pairs(Ctx& c)
{
    typedef vmml::Quaternion<T> Q;
    static const std::vector<T> lad = ladder<T>(1, true);
    static const T base[][4] = {{1, 0, 0, 0}, {0, 0, 0, 1}, {T(0.6), 0, 0, T(0.8)}, {T(0.5), T(0.5), T(-0.5), T(0.5)}, {2, -3, 5, 1}, {0, T(0.6), T(-0.8), 0}, {0, 0, 0, 0}, {1, 1, 1, 1}};
    const T* b = base[c.choose(8)];
    const int other = c.choose(5), at = c.choose(4);
    const T d = c.pick(lad);
    const bool mult = c.flip();
    Q p(b[0], b[1], b[2], b[3]), q(p);
    if (other == 1)
        q = -q;
    else if (other == 2)
        q.conjugate();
    else if (other == 3)
        q = Q::IDENTITY;
    else if (other == 4)
        q = q * T(-3);
    if (mult)
        q *= T(1 + d);
    else
        q.array[at] += d;
    check_pair(c, p, q, 1);
    check_pair(c, q, p, 1);
}

// one quaternion: negation, conjugate, norm, inverse, construction
template <typename T>
void check_single(Ctx& c, const T* x)
{
    typedef vmml::Quaternion<T> Q;
    typedef vmml::Vector<3, T> V3;
    typedef vmml::Vector<4, T> V4;
    const R a = mk(x[0], x[1], x[2], x[3]), b = a;
    const L tol = 0, eps = std::numeric_limits<T>::epsilon();
    Guarded<Q> g(Q(x[0], x[1], x[2], x[3]));
    Q& q = g.o;
    c.state(hq(q));
    EQ(q, a, "constructor from four values");
    CHK(c, q.x() == x[0] && q.y() == x[1] && q.z() == x[2] && q.w() == x[3] && q.at(0) == x[0] && q.at(3) == x[3] && q(1) == x[1], "component names of " << str(a));
    const V3 v(x[0], x[1], x[2]);
    EQ(Q(v, x[3]), a, "constructor from vector and scalar");
    EQ(Q(v), mk(x[0], x[1], x[2], 0), "constructor from vector");
    EQ(Q(), mk(0, 0, 0, 1), "default constructor");
    {
        Guarded<Q> t;
        t.o.set(x[0], x[1], x[2], x[3]);
        EQ(t.o, a, "set of four values");
        t.o.zero();
        EQ(t.o, mk(0, 0, 0, 0), "zero");
        V3 vc(v);
        t.o.set(vc, x[3]);
        EQ(t.o, a, "set of vector and scalar");
        t.o.identity();
        EQ(t.o, mk(0, 0, 0, 1), "identity");
        std::list<T> li(x, x + 4);
        t.o.set(li.begin(), li.end());
        EQ(t.o, a, "set of list");
        t.o.zero();
        t.o.set(x, x + 4);
        EQ(t.o, a, "set of pointers");
        t.o.zero();
        V4 v4(x[0], x[1], x[2], x[3]);
        t.o = v4;
        EQ(t.o, a, "assignment of vector");
        t.o.zero();
        t.o = q;
        EQ(t.o, a, "assignment");
        const Q copy(q);
        EQ(copy, a, "copy");
        t.o.conjugate();
        EQ(t.o, conj(a), "conjugate");
        t.o.conjugate();
        EQ(t.o, a, "twice conjugate");
        CHK_GUARD(c, t);
    }
    EQ(q.get_conjugate(), conj(a), "get_conjugate");
    EQ(-q, lin(-1, a, 0, a), "negation");
    EQ(q.negate(), lin(-1, a, 0, a), "negate");
    EQ(Q::IDENTITY, mk(0, 0, 0, 1), "IDENTITY");
    EQ(Q::QUATERI, mk(1, 0, 0, 0), "QUATERI");
    EQ(Q::QUATERJ, mk(0, 1, 0, 0), "QUATERJ");
    EQ(Q::QUATERK, mk(0, 0, 1, 0), "QUATERK");
    T mn = x[0], mx = x[0];
    for (int i = 1; i < 4; ++i)
        mn = std::min(mn, x[i]), mx = std::max(mx, x[i]);
    CHK(c, q.find_min() == mn && q.find_max() == mx && x[q.find_min_index()] == mn && x[q.find_max_index()] == mx, "extremes of " << str(a));
    c.step(4);
    const L n = std::sqrt(sq(a));
    CHK(c, std::fabs(L(q.squared_abs()) - sq(a)) <= 8 * eps * sq(a), "squared_abs of " << str(a) << " is " << q.squared_abs());
    CHK(c, std::fabs(L(q.abs()) - n) <= 8 * eps * n, "abs of " << str(a) << " is " << q.abs());
    if (n > 0)
    {
        const Q u = q.get_normalized();
        CHK(c, eq(u, lin(1 / n, a, 0, a), 16 * eps), "get_normalized of " << str(a) << " is " << str(ref(u)));
        Q t(q);
        t.normalize();
        CHK(c, std::fabs(std::sqrt(sq(ref(t))) - 1) <= 16 * eps && t == u, "normalize of " << str(a) << " is " << str(ref(t)));
        Q k(q);
        const Q inv = k.inverse();
        CHK(c, k == q, "inverse changed its operand");
        CHK(c, eq(inv, lin(1 / sq(a), conj(a), 0, a), 32 * eps / n), "inverse of " << str(a) << " is " << str(ref(inv)));
        const Q l = inv * q, r = q * inv;
        CHK(c, eq(l, mk(0, 0, 0, 1), 64 * eps) && eq(r, mk(0, 0, 0, 1), 64 * eps), "inverse times quaternion of " << str(a) << " is " << str(ref(l)) << " / " << str(ref(r)));
        Q back = inv;
        back = back.inverse();
        CHK(c, eq(back, a, 64 * eps * n), "inverse of inverse of " << str(a) << " is " << str(ref(back)));
    }
    else
    {
        Q t(q);
        t.normalize();
        CHK(c, t == q, "normalize changed the zero quaternion");
    }
    CHK_GUARD(c, g);
}
template <typename T>
void single(Ctx& c)
{
    const std::vector<T> al = {T(0), T(1), T(-1), T(2), T(-3), T(0.1), T(1e-4), T(-250.5), T(7)};
    const std::vector<T> sc = {T(1), T(1e-10), T(1e10)};
    T x[4];
    const T f = c.pick(sc);
    for (int i = 0; i < 4; ++i)
        x[i] = T(c.pick(al) * f);
    check_single(c, x);
}
// almost unit, almost real, almost pure; every order of magnitude
template <typename T>
void near_single(Ctx& c)
{
    static const std::vector<T> lad = ladder<T>(1, true), dec = decades<T>();
    static const T base[][4] = {{1, 0, 0, 0}, {0, 0, 0, 1}, {T(0.6), 0, 0, T(0.8)}, {T(0.5), T(0.5), T(-0.5), T(0.5)}, {2, -3, 5, 1}, {0, T(0.6), T(-0.8), 0}, {0, 0, 0, -1}, {1, 1, 1, 1}};
    const T* b = base[c.choose(8)];
    const int how = c.choose(3);
    T x[4] = {b[0], b[1], b[2], b[3]};
    if (how == 0)
    {
        const T d = c.pick(lad);
        x[c.choose(4)] += d;
    }
    else
    {
        const T f = how == 1 ? T(1 + c.pick(lad)) : c.pick(dec);
        for (int i = 0; i < 4; ++i)
            x[i] *= f;
    }
    check_single(c, x);
}

// ring laws over a complete small lattice
template <typename T>
void laws(Ctx& c)
{
    typedef vmml::Quaternion<T> Q;
    const std::vector<T> al = c.thorough() ? std::vector<T>{T(0), T(1), T(-2), T(3)} : std::vector<T>{T(0), T(1), T(-2)};
    const Q p = any<T>(c, al), q = any<T>(c, al), r = any<T>(c, al);
    c.step(8);
    c.state(hq(p, hq(q, hq(r))));
    CHK(c, (p * q) * r == p * (q * r), "product not associative for " << str(ref(p)) << str(ref(q)) << str(ref(r)));
    CHK(c, p * (q + r) == p * q + p * r, "product not distributive for " << str(ref(p)) << str(ref(q)) << str(ref(r)));
    CHK(c, (p + q) * r == p * r + q * r, "product not distributive for " << str(ref(p)) << str(ref(q)) << str(ref(r)));
    CHK(c, (p * q).squared_abs() == p.squared_abs() * q.squared_abs(), "norm not multiplicative for " << str(ref(p)) << str(ref(q)));
    CHK(c, (p * q).get_conjugate() == q.get_conjugate() * p.get_conjugate(), "conjugate of product for " << str(ref(p)) << str(ref(q)));
}

// histories of in-place operations on one object
template <typename T>
void history(Ctx& c, int depth)
{
    typedef vmml::Quaternion<T> Q;
    typedef vmml::Vector<3, T> V3;
    Guarded<Q> g(Q(1, -2, 0, 1));
    Q& q = g.o;
    R m = mk(1, -2, 0, 1);
    const Q s1(2, 0, -1, 1), s2(0, 1, 1, -1);
    const V3 v(1, -1, 2);
    const L lim = L(1) / std::numeric_limits<T>::epsilon() / 64;
    for (int i = 0; i < depth; ++i)
    {
        const int op = c.choose(17);
        R n = m;
        switch (op)
        {
        case 0: q += s1; n = lin(1, m, 1, ref(s1)); break;
        case 1: q -= s2; n = lin(1, m, -1, ref(s2)); break;
        case 2: q *= s1; n = mul(m, ref(s1)); break;
        case 3: q *= s2; n = mul(m, ref(s2)); break;
        case 4: q *= q; n = mul(m, m); break;
        case 5: q += q; n = lin(2, m, 0, m); break;
        case 6: q *= T(-2); n = lin(-2, m, 0, m); break;
        case 7: q /= T(0.5); n = lin(2, m, 0, m); break;
        case 8: q += v; n = lin(1, m, 1, mk(1, -1, 2, 0)); break;
        case 9: q -= v; n = lin(1, m, -1, mk(1, -1, 2, 0)); break;
        case 10: q *= v; n = mul(m, mk(1, -1, 2, 0)); break;
        case 11: q.conjugate(); n = conj(m); break;
        case 12: q = -q; n = lin(-1, m, 0, m); break;
        case 13: q = s2 * q; n = mul(ref(s2), m); break;
        case 14: q = q * q.get_conjugate(); n = mk(0, 0, 0, sq(m)); break;
        case 15: q.set(q.w(), q.z(), q.x(), q.y()); n = mk(m.c[3], m.c[2], m.c[0], m.c[1]); break;
        case 16: q = vmml::Vector<4, T>(1, 2, 3, 4); n = mk(1, 2, 3, 4); break;
        }
        c.step();
        NOTE(c, "op " << op << " -> " << str(ref(q)));
        if (sq(n) > lim || sq(m) > lim)
            return; // beyond exact arithmetic
        CHK(c, eq(q, n), "after operation " << op << " on " << str(m) << ": " << str(ref(q)) << " want " << str(n));
        CHK_GUARD(c, g);
        m = n;
        c.visit(hq(q), depth - i - 1);
    }
}
} // namespace

REGISTER_BLOCK(c15)
{
#if PART == 0
    typedef float E;
#else
    typedef double E;
#endif
    const std::string n = tname<E>();
    mc::add("pairs_int_" + n, [](Ctx& c) { pairs<E>(c, 0); }, "all pairs over a small integer lattice");
    mc::add("pairs_real_" + n, [](Ctx& c) { pairs<E>(c, 1); }, "pairs of real-valued quaternions");
    mc::add("single_" + n, single<E>, "unary operations, constructors, inverse, normalise");
    mc::add("near_pairs_" + n, near_pairs<E>, "pairs that differ by every order of magnitude");
    mc::add("near_single_" + n, near_single<E>, "almost unit, real, pure; every magnitude");
    mc::add("laws_" + n, laws<E>, "associative, distributive, norm");
    mc::add("history_" + n, [](Ctx& c) { history<E>(c, c.thorough() ? 7 : 5); }, "in-place histories");
}
MC_MAIN()
