// C02: dot, lengths, distances, product, cross, normalize, normals, rotation.
#include <vmmlib/vector.hpp>
#include "mc/common.hpp"
using namespace h;

namespace
{
template <typename T>
using Fp = std::is_floating_point<T>;

// wraps like the type does (unsigned and narrow types), exact otherwise
template <typename T>
T wrap(long double s)
{
    if (Fp<T>::value)
        return T(s);
    return T((long long)s);
}

template <size_t M, typename T>
void metric(Ctx& c, const std::vector<T>& alpha, double full)
{
    typedef vmml::Vector<M, T> V;
    const int kind = c.choose(2);
    c.deviations(M > 9 ? 1 : c.thorough() ? 3 : 2);
    Guarded<V> ga, gb;
    V &a = ga.o, &b = gb.o;
    fill(c, a.array, M, alpha, kind, full);
    const bool self = c.flip();
    if (!self)
        fill(c, b.array, M, alpha, 1 - kind, full);
    else
        b = a;
    const V& rb = self ? a : b;
    const V& ca = a;
    Frozen<V> fa(a), fb(b);
    T isd = 0;
    unsigned long long wprod = 1;
    long double dot = 0, sq = 0, sd = 0, prod = 1, size = 0, sdot = 0, nsq = 0;
    for (size_t i = 0; i < M; ++i)
    {
        const long double x = a.array[i], y = rb.array[i];
        dot += x * y;
        sdot += std::fabs(x * y);
        sq += x * x;
        nsq += x * x;
        if (Fp<T>::value)
            sd += (x - y) * (x - y);
        else
        {
            const T d = T(a.array[i] - rb.array[i]);
            isd = T(isd + T(d * d));
        }
        prod *= x;
        wprod *= (unsigned long long)(long long)a.array[i];
        if (x != 0)
            size += std::fabs(std::log2(std::fabs(x)));
    }
    // no order of multiplication leaves the type
    const bool fits = size < (Fp<T>::value ? std::numeric_limits<T>::max_exponent - 4 : std::numeric_limits<T>::digits) || std::is_unsigned<T>::value;
    NOTE(c, tname<T>() << " a=" << show(a) << " b=" << show(rb));
    c.state(hash_fp(a.array, M, hash_fp(rb.array, M)));
    c.step(9);
    const double ulp = 4 + M;
    if (Fp<T>::value)
    {
        CHK(c, near(ca.dot(rb), T(dot), double(sdot), ulp), "dot " << ca.dot(rb) << " want " << dot << " a=" << show(a) << " b=" << show(rb));
        CHK(c, near(vmml::dot(ca, rb), T(dot), double(sdot), ulp), "free dot");
        CHK(c, near(ca.squared_length(), T(sq), 0, ulp), "squared_length " << ca.squared_length() << " want " << sq << " a=" << show(a));
        CHK(c, near(ca.length(), T(std::sqrt(sq)), 0, ulp), "length " << ca.length() << " want " << std::sqrt(sq) << " a=" << show(a));
        CHK(c, near(ca.squared_distance(rb), T(sd), 0, ulp), "squared_distance " << ca.squared_distance(rb) << " want " << sd << " a=" << show(a) << " b=" << show(rb));
        CHK(c, near(ca.distance(rb), T(std::sqrt(sd)), 0, ulp), "distance " << ca.distance(rb) << " want " << std::sqrt(sd) << " a=" << show(a) << " b=" << show(rb));
        if (fits) CHK(c, near(ca.product(), T(prod), 0, ulp), "product " << ca.product() << " want " << prod << " a=" << show(a));
        // norm is a double whatever the type
        CHK(c, std::fabs(ca.norm() - (double)std::sqrt(nsq)) <= ulp * std::numeric_limits<T>::epsilon() * (double)std::sqrt(nsq), "norm " << ca.norm() << " want " << std::sqrt(nsq) << " a=" << show(a));
    }
    else
    {
        CHK(c, ca.dot(rb) == wrap<T>(dot), "dot " << +ca.dot(rb) << " want " << +wrap<T>(dot) << " a=" << show(a) << " b=" << show(rb));
        CHK(c, vmml::dot(ca, rb) == wrap<T>(dot), "free dot");
        CHK(c, ca.squared_length() == wrap<T>(sq), "squared_length of " << show(a));
        const T l = ca.length();
        const long double lw = std::sqrt((long double)wrap<T>(sq));
        if (sq <= std::numeric_limits<T>::max())
            CHK(c, (long double)l >= std::floor(lw) - 0.001L && (long double)l <= std::ceil(lw) + 0.001L, "length of " << show(a) << " got " << +l);
        CHK(c, ca.squared_distance(rb) == isd, "squared_distance of " << show(a) << " and " << show(rb) << " got " << +ca.squared_distance(rb));
        if (fits) CHK(c, ca.product() == T(wprod), "product of " << show(a) << " got " << +ca.product() << " want " << +T(wprod));
        CHK(c, near(ca.norm(), (double)std::sqrt(nsq), 0, 32), "norm of " << show(a) << " got " << ca.norm());
    }
    CHK_FROZEN(c, fa);
    CHK_FROZEN(c, fb);
    CHK_GUARD(c, ga);
    CHK_GUARD(c, gb);
}

// zeros, infinities and NaN: small integers besides, so that any order of
// summation gives the same value, infinity or NaN
template <size_t M, typename T>
void specials(Ctx& c)
{
    typedef vmml::Vector<M, T> V;
    const T inf = std::numeric_limits<T>::infinity();
    const std::vector<T> al = {T(1), T(0), T(-2), inf, -inf, std::numeric_limits<T>::quiet_NaN(), T(-0.)};
    Guarded<V> ga, gb;
    V &a = ga.o, &b = gb.o;
    c.deviations(M > 3 ? 5 : 2 * M);
    for (size_t i = 0; i < M; ++i)
        a.array[i] = al[M > 3 ? c.dev(al.size()) : c.choose(al.size())];
    if (M < 3)
        for (size_t i = 0; i < M; ++i)
            b.array[i] = c.pick(al);
    else
        for (size_t i = 0; i < M; ++i)
            b.array[i] = al[c.dev(al.size())];
    const V &ca = a, &cb = b;
    long double dot = 0, sq = 0, sd = 0, prod = 1;
    for (size_t i = 0; i < M; ++i)
    {
        const long double x = a.array[i], y = b.array[i];
        dot += x * y;
        sq += x * x;
        sd += (x - y) * (x - y);
        prod *= x;
    }
    NOTE(c, tname<T>() << " a=" << show(a) << " b=" << show(b));
    c.state(hash_fp(a.array, M, hash_fp(b.array, M)));
    c.step(8);
    CHK(c, same(ca.dot(cb), T(dot)), "dot " << ca.dot(cb) << " want " << T(dot) << " a=" << show(a) << " b=" << show(b));
    CHK(c, same(vmml::dot(ca, cb), T(dot)), "free dot");
    CHK(c, same(ca.product(), T(prod)), "product " << ca.product() << " want " << T(prod) << " a=" << show(a));
    CHK(c, same(ca.squared_length(), T(sq)), "squared_length " << ca.squared_length() << " want " << T(sq) << " a=" << show(a));
    CHK(c, same(ca.squared_distance(cb), T(sd)), "squared_distance " << ca.squared_distance(cb) << " want " << T(sd) << " a=" << show(a) << " b=" << show(b));
    CHK(c, near(ca.length(), T(std::sqrt(sq)), 0, 8), "length " << ca.length() << " a=" << show(a));
    CHK(c, near(ca.distance(cb), T(std::sqrt(sd)), 0, 8), "distance " << ca.distance(cb) << " a=" << show(a) << " b=" << show(b));
    CHK(c, near(ca.norm(), double(std::sqrt(sq)), 0, 8), "norm " << ca.norm() << " a=" << show(a));
    CHK_GUARD(c, ga);
    CHK_GUARD(c, gb);
}

// norm() is a double: squares may leave the element type
template <size_t M, typename T>
void bignorm(Ctx& c)
{
    typedef std::numeric_limits<T> L;
    std::vector<T> a = {T(0), T(1), T(100)};
    if (Fp<T>::value)
        a.push_back(T(sizeof(T) > 4 ? 1e100 : 1e30)), a.push_back(T(-3e20)), a.push_back(T(1e-30));
    else
        a.push_back(L::max()), a.push_back(L::lowest()), a.push_back(T(L::max() / 3 * 2));
    Guarded<vmml::Vector<M, T>> g;
    long double sq = 0;
    for (size_t i = 0; i < M; ++i)
    {
        g.o.array[i] = c.pick(a);
        sq += (long double)g.o.array[i] * g.o.array[i];
    }
    c.state(hash_fp(g.o.array, M));
    c.step();
    const vmml::Vector<M, T>& v = g.o;
    CHK(c, near(v.norm(), (double)std::sqrt(sq), 0, 32), "norm of " << show(v) << " got " << v.norm() << " want " << std::sqrt(sq));
    CHK_GUARD(c, g);
}

template <size_t M, typename T>
void check_normalise(Ctx& c, Guarded<vmml::Vector<M, T>>& g)
{
    typedef vmml::Vector<M, T> V;
    V& v = g.o;
    const V before(v);
    long double sq = 0;
    for (size_t i = 0; i < M; ++i)
        sq += (long double)v.array[i] * v.array[i];
    const long double len = std::sqrt(sq);
    if ((sq > 0 && sq < 1e4L * std::numeric_limits<T>::min()) || sq > 0.99L * std::numeric_limits<T>::max())
        return; // the squared length is not representable
    NOTE(c, "normalize " << show(v));
    c.state(hash_fp(v.array, M));
    const V viafree = vmml::normalize(static_cast<const V&>(v));
    CHK(c, memcmp(&before, &v, sizeof v) == 0, "free normalize changed its argument");
    const T ret = v.normalize();
    c.step(2);
    if (sq == 0)
    {
        CHK(c, ret == 0, "normalize of the zero vector returned " << ret);
        for (size_t i = 0; i < M; ++i)
            CHK(c, v.array[i] == 0, "normalize changed the zero vector to " << show(v));
    }
    else
    {
        CHK(c, near(ret, T(len), 0, 8 + M), "normalize returned " << ret << " for a vector of length " << len);
        for (size_t i = 0; i < M; ++i)
            CHK(c, near(v.array[i], T(before.array[i] / len), 0, 12 + M), "normalize(" << show(before) << ") = " << show(v));
        CHK(c, near(v.length(), T(1), 1, 12 + M), "length after normalize");
        // normalising again changes nothing
        V again(v);
        again.normalize();
        for (size_t i = 0; i < M; ++i)
            CHK(c, near(again.array[i], v.array[i], 0, 12 + M), "normalize not idempotent");
    }
    for (size_t i = 0; i < M; ++i)
        CHK(c, same(viafree.array[i], v.array[i]), "free normalize differs");
    CHK_GUARD(c, g);
}

template <size_t M, typename T>
void normalise(Ctx& c)
{
    typedef vmml::Vector<M, T> V;
    // magnitudes whose squares stay representable
    const bool dbl = sizeof(T) > 4;
    const std::vector<T> scales = {T(1), T(3), T(1e-3), T(1e-7), T(1e-15), T(1e4), T(1e15), dbl ? T(1e-120) : T(1e-17), dbl ? T(1e120) : T(1e17)};
    const T sc = c.pick(scales);
    c.deviations(M > 9 ? 1 : M > 4 ? 2 : c.thorough() ? 4 : 3);
    Guarded<V> g;
    V& v = g.o;
    const std::vector<T> alpha = {T(0), T(1), T(-1), T(2), T(-3), T(0.5), T(1e-3)};
    const int kind = c.choose(3);
    for (size_t i = 0; i < M; ++i)
    {
        T x;
        if (M <= 3)
            x = c.pick(alpha);
        else
        {
            const int d = c.dev(int(alpha.size()) + 1);
            x = d ? alpha[d - 1] : kind == 2 ? T(0) : pattern<T>(kind, i);
        }
        v.array[i] = x * sc;
    }
    check_normalise<M, T>(c, g);
}
// operands of another element type: exact in both
template <typename T, typename TT>
void cross_mixed(Ctx& c)
{
    static const TT al[] = {TT(0), TT(1), TT(3), TT(7.5), TT(20)};
    vmml::Vector<3, TT> a, b;
    for (int i = 0; i < 3; ++i)
        a.array[i] = c.pick(al);
    for (int i = 0; i < 3; ++i)
        b.array[i] = c.pick(al) * (std::is_signed<TT>::value && i == 1 ? TT(-1) : TT(1));
    Guarded<vmml::Vector<3, T>> g(vmml::Vector<3, T>(T(9)));
    Frozen<vmml::Vector<3, TT>> fa(a), fb(b);
    g.o.cross(a, b);
    c.step();
    c.state(hash_fp(a.array, 3, hash_fp(b.array, 3)));
    for (int i = 0; i < 3; ++i)
    {
        const int j = (i + 1) % 3, k = (i + 2) % 3;
        const long double w = (long double)a.array[j] * b.array[k] - (long double)a.array[k] * b.array[j];
        if (std::numeric_limits<T>::is_integer ? w == std::floor(w) : true)
            CHK(c, (long double)g.o.array[i] == w, "cross product of " << show(a) << " and " << show(b) << " is " << show(g.o));
    }
    CHK_FROZEN(c, fa);
    CHK_FROZEN(c, fb);
    CHK_GUARD(c, g);
}
template <typename T>
void cross3(Ctx& c)
{
    typedef vmml::Vector<3, T> V;
    const std::vector<T> alpha = std::is_signed<T>::value
        ? std::vector<T>{T(0), T(1), T(-1), T(2), T(-3)}
        : std::vector<T>{T(0), T(1), T(2), T(5), T(7)};
    const int alias = c.choose(4); // fresh, dst==a, dst==b, a==b==dst
    Guarded<V> ga, gb;
    V &a = ga.o, &b = gb.o;
    for (int i = 0; i < 3; ++i)
        a.array[i] = c.pick(alpha);
    for (int i = 0; i < 3; ++i)
        b.array[i] = alias == 3 ? a.array[i] : c.pick(alpha);
    const V x(a), y(b);
    T want[3];
    for (int i = 0; i < 3; ++i)
    {
        const int j = (i + 1) % 3, k = (i + 2) % 3;
        want[i] = T(x.array[j] * y.array[k] - x.array[k] * y.array[j]);
    }
    NOTE(c, "cross " << show(x) << " " << show(y) << " alias " << alias);
    c.state(hash_fp(x.array, 3, hash_fp(y.array, 3, alias)));
    c.step(3);
    V dst(T(9));
    V* d = &dst;
    if (alias == 1) { a.cross(a, b); d = &a; }
    else if (alias == 2) { b.cross(a, b); d = &b; }
    else if (alias == 3) { a.cross(a, a); d = &a; }
    else dst.cross(a, b);
    const V viaop = x.cross(y);
    const V viafree = vmml::cross<3>(x, y);
    const V& selfop = alias == 3 ? x.cross(x) : viaop;
    for (int i = 0; i < 3; ++i)
    {
        CHK(c, d->array[i] == want[i], "cross(" << show(x) << "," << show(y) << ") alias " << alias << " = " << show(*d) << " want " << show(want, 3));
        CHK(c, viaop.array[i] == want[i], "a.cross(b) = " << show(viaop) << " want " << show(want, 3));
        CHK(c, viafree.array[i] == want[i], "free cross = " << show(viafree));
        CHK(c, selfop.array[i] == want[i], "x.cross(x)");
    }
    if (std::is_signed<T>::value)
        CHK(c, d->dot(x) == 0 && d->dot(y) == 0, "cross not orthogonal");
    if (d != &a)
        CHK(c, memcmp(&a, &x, sizeof x) == 0, "left operand changed");
    if (d != &b)
        CHK(c, memcmp(&b, &y, sizeof y) == 0, "right operand changed");
    // a destination of another type
    vmml::Vector<3, double> wide;
    wide.cross(x, y);
    for (int i = 0; i < 3; ++i)
        if (std::is_signed<T>::value)
            CHK(c, wide.array[i] == double(want[i]), "cross into double");
    CHK_GUARD(c, ga);
    CHK_GUARD(c, gb);
}

template <typename T>
void normal(Ctx& c)
{
    typedef vmml::Vector<3, T> V;
    const std::vector<T> alpha = c.thorough() ? std::vector<T>{T(-1), T(0), T(2), T(1)} : std::vector<T>{T(-1), T(0), T(2)};
    const std::vector<T> scales = {T(1), T(1e-3), T(1e3)};
    const int alias = c.choose(4);
    const T sc = c.pick(scales);
    V p[3];
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
            p[i].array[j] = c.pick(alpha) * sc;
    const V q[3] = {p[0], p[1], p[2]};
    long double u[3], v[3], n[3];
    for (int j = 0; j < 3; ++j)
    {
        u[j] = (long double)q[1].array[j] - q[0].array[j];
        v[j] = (long double)q[2].array[j] - q[0].array[j];
    }
    for (int i = 0; i < 3; ++i)
        n[i] = u[(i + 1) % 3] * v[(i + 2) % 3] - u[(i + 2) % 3] * v[(i + 1) % 3];
    const long double l = std::sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]);
    NOTE(c, "compute_normal " << show(q[0]) << show(q[1]) << show(q[2]) << " alias " << alias);
    c.state(hash_fp(q[0].array, 3, hash_fp(q[1].array, 3, hash_fp(q[2].array, 3, alias))));
    c.step(2);
    const bool flat = l < 1e-4L * sc * sc;
    if (flat && sc != T(1))
        return; // rounding decides the direction of a collinear triple
    V dst(T(5));
    V& d = alias ? p[alias - 1] : dst;
    d.compute_normal(p[0], p[1], p[2]);
    const V r = q[0].compute_normal(q[1], q[2]);
    for (int i = 0; i < 3; ++i)
    {
        const T want = flat ? T(0) : T(n[i] / l);
        CHK(c, near(d.array[i], want, 1, 48), "compute_normal(" << show(q[0]) << show(q[1]) << show(q[2]) << ") alias " << alias << " = " << show(d) << " component " << i << " want " << want);
        CHK(c, near(r.array[i], want, 1, 48), "a.compute_normal(b,c) = " << show(r) << " component " << i << " want " << want);
    }
    for (int i = 0; i < 3; ++i)
        if (&d != &p[i])
            CHK(c, memcmp(&p[i], &q[i], sizeof(V)) == 0, "operand changed");
}

// directions of length one up to rounding
const double DIRS[][3] = {{1, 0, 0}, {0, -1, 0}, {0, 0, 1}, {0, 0, -1}, {0.6, 0, 0.8}, {-0.8, 0.6, 0}, {2 / 3., -1 / 3., 2 / 3.}, {-2 / 7., 3 / 7., 6 / 7.}};

// vectors of almost unit length and of every order of magnitude
template <typename T>
void normalise_near(Ctx& c)
{
    typedef vmml::Vector<3, T> V;
    const int k = c.choose(8);
    const std::vector<T> lad = ladder<T>(1, true), dec = decades<T>();
    Guarded<V> g;
    const T f = c.flip() ? T(1) + c.pick(lad) : c.pick(dec);
    for (int i = 0; i < 3; ++i)
        g.o.array[i] = T(DIRS[k][i]) * f;
    check_normalise<3, T>(c, g);
}

// points at every distance from each other
template <typename T>
void distance_near(Ctx& c)
{
    typedef vmml::Vector<3, T> V;
    const std::vector<T> lad = ladder<T>(1, true);
    static const double P[][3] = {{0, 0, 0}, {1, 1, 1}, {-0.3, 2, 1000}, {1e-3, 1e-5, -4}};
    const int k = c.choose(4);
    V a, b;
    long double sd = 0;
    for (int i = 0; i < 3; ++i)
    {
        a.array[i] = T(P[k][i]);
        b.array[i] = a.array[i] + c.pick(lad);
        const long double d = (long double)a.array[i] - b.array[i];
        sd += d * d;
    }
    c.state(hash_fp(a.array, 3, hash_fp(b.array, 3)));
    c.step(2);
    CHK(c, near(a.squared_distance(b), T(sd), 0, 8), "squared_distance " << show(a) << show(b) << " = " << a.squared_distance(b) << " want " << sd);
    CHK(c, near(a.distance(b), T(std::sqrt(sd)), 0, 8), "distance " << show(a) << show(b) << " = " << a.distance(b) << " want " << std::sqrt(sd));
}

// small and large triangles, and needles
template <typename T>
void normal_near(Ctx& c)
{
    typedef vmml::Vector<3, T> V;
    const std::vector<T> dec = decades<T>(3);
    const int i = c.choose(3), swap = c.choose(2);
    const int m = std::numeric_limits<T>::max_exponent10 / 4 - 2;
    const T f = T(std::pow(10.L, c.choose(2 * m + 1) - m)), h = T(std::pow(10.L, -c.choose(5)));
    V p[3] = {V(T(0)), V(T(0)), V(T(0))};
    p[1].array[(i + 1) % 3] = f;
    p[2].array[(i + 2) % 3] = f * h;
    if (c.flip())
        p[2].array[(i + 1) % 3] = f / 2;
    V n;
    n.compute_normal(p[0], p[1 + swap], p[2 - swap]);
    c.step();
    c.state(hash_fp(p[1].array, 3, hash_fp(p[2].array, 3, swap)));
    for (int j = 0; j < 3; ++j)
        CHK(c, std::fabs(n.array[j] - (j == i ? T(swap ? -1 : 1) : T(0))) <= 16 * std::numeric_limits<T>::epsilon(), "compute_normal " << show(p[0]) << show(p[1 + swap]) << show(p[2 - swap]) << " = " << show(n));
}

template <typename T, typename TT>
void check_rotation(Ctx& c, const T theta, const vmml::Vector<3, TT>& ax, const vmml::Vector<3, T>& v);

// axes of almost unit length, and angles close to zero and to a half turn
template <typename T, typename TT>
void rotation_near(Ctx& c)
{
    const int k = c.choose(8);
    const bool which = c.flip();
    const std::vector<TT> lx = ladder<TT>(1, true);
    const std::vector<T> la = ladder<T>(1, true);
    const T d = which ? c.pick(la) : T(0);
    const TT e = which ? TT(0) : c.pick(lx);
    static const double BASE[] = {0.5, -2.5, 0, 3.14159265358979323846};
    static const double VECS[][3] = {{1, 2, 3}, {-0.5, 4, 0}, {0, 0, 1}};
    const T theta = T(BASE[c.choose(4)]) + d;
    vmml::Vector<3, TT> ax;
    vmml::Vector<3, T> v;
    const int q = c.choose(3);
    for (int i = 0; i < 3; ++i)
    {
        ax.array[i] = TT(DIRS[k][i]) * (TT(1) + e);
        v.array[i] = T(VECS[q][i]);
    }
    check_rotation<T, TT>(c, theta, ax, v);
}

// many turns: every order of magnitude of the angle
template <typename T, typename TT>
void rotation_turns(Ctx& c)
{
    static const double VECS[][3] = {{1, 2, 3}, {-0.5, 4, 0}, {0, 0, 1}};
    static const double LEAD[] = {1, 2.3, 3.14159265358979323846, 7.7};
    const T theta = T((c.flip() ? -1 : 1) * LEAD[c.choose(4)] * std::pow(10., c.choose(17)));
    const int k = c.choose(8), q = c.choose(3);
    vmml::Vector<3, TT> ax;
    vmml::Vector<3, T> v;
    for (int i = 0; i < 3; ++i)
    {
        ax.array[i] = TT(DIRS[k][i]);
        v.array[i] = T(VECS[q][i]);
    }
    check_rotation<T, TT>(c, theta, ax, v);
}

template <typename T, typename TT>
void rotation(Ctx& c)
{
    typedef vmml::Vector<3, T> V;
    const long double PI = 3.14159265358979323846264338327950288L;
    std::vector<long double> angles = {0, PI / 2, PI, -PI / 2, 2 * PI, PI / 3, 0.1L, -2.5L, 1e-4L, 3.14L, 7.L};
    if (c.thorough())
        for (int i = -24; i <= 24; ++i)
            angles.push_back(i * PI / 12 + 0.001L);
    const std::vector<T> al = {T(0), T(1), T(-1), T(2)};
    const std::vector<T> vl = {T(0), T(1), T(-3), T(0.5)};
    const std::vector<T> scales = {T(1), T(1e-6), T(1e6)};
    const T theta = T(angles[c.choose(int(angles.size()))]);
    const T sc = c.pick(scales);
    vmml::Vector<3, TT> ax;
    for (int i = 0; i < 3; ++i)
        ax.array[i] = TT(c.pick(al) * sc);
    V v;
    for (int i = 0; i < 3; ++i)
        v.array[i] = c.pick(vl);
    check_rotation<T, TT>(c, theta, ax, v);
}
template <typename T, typename TT>
void check_rotation(Ctx& c, const T theta, const vmml::Vector<3, TT>& ax, const vmml::Vector<3, T>& v)
{
    typedef vmml::Vector<3, T> V;
    const vmml::Vector<3, TT> ax0(ax);
    const V v0(v);
    long double k[3], l = 0;
    for (int i = 0; i < 3; ++i)
        l += (long double)ax.array[i] * ax.array[i];
    if (l == 0)
        return; // no axis
    l = std::sqrt(l);
    for (int i = 0; i < 3; ++i)
        k[i] = ax.array[i] / l;
    const long double C = std::cos((long double)theta), S = std::sin((long double)theta);
    long double kv = 0, len = 0;
    for (int i = 0; i < 3; ++i)
    {
        kv += k[i] * v.array[i];
        len += (long double)v.array[i] * v.array[i];
    }
    len = std::sqrt(len);
    NOTE(c, "rotate " << show(v) << " about " << show(ax) << " by " << theta);
    c.state(hash_fp(v.array, 3, hash_fp(ax.array, 3, mc::hash_val(theta))));
    c.step();
    const V r = v.rotate(theta, ax);
    const double eps = std::max<double>(std::numeric_limits<T>::epsilon(), std::numeric_limits<TT>::epsilon());
    for (int i = 0; i < 3; ++i)
    {
        const int a = (i + 1) % 3, b = (i + 2) % 3;
        const long double w = v.array[i] * C + (k[a] * v.array[b] - k[b] * v.array[a]) * S + k[i] * kv * (1 - C);
        CHK(c, std::fabs((long double)r.array[i] - w) <= 24 * eps * std::max<long double>(len, 1e-30L), "rotate " << show(v) << " about " << show(ax) << " by " << theta << " = " << show(r) << " component " << i << " want " << (double)w);
    }
    CHK(c, memcmp(&v, &v0, sizeof v) == 0 && memcmp(&ax, &ax0, sizeof ax) == 0, "operand changed");
}

template <size_t M, typename T>
void reg_metric()
{
    const std::string n = std::to_string(M) + "x" + tname<T>();
    mc::add("metric_" + n, [](Ctx& c) {
        std::vector<T> a = Alpha<T>::small();
        if (Fp<T>::value)
        {
            a.push_back(T(0.1));
            a.push_back(T(-700.25));
            a.push_back(T(1e-5));
        }
        else
            a.push_back(T(11));
        metric<M, T>(c, a, c.thorough() ? 800 : 90);
    }, "dot, lengths, distances, product, norm against long double sums");
}
// every number of components
template <size_t M, size_t E, typename T>
struct Sizes
{
    static void reg()
    {
        const std::string n = std::to_string(M) + "x" + tname<T>();
        mc::add("size_" + n, [](Ctx& c) { metric<M, T>(c, {T(0), T(5), T(2)}, 0); }, "");
        norms(n, std::is_floating_point<T>());
        Sizes<M + 1, E, T>::reg();
    }
    static void norms(const std::string& n, std::true_type) { mc::add("size_normalize_" + n, normalise<M, T>, ""); }
    static void norms(const std::string&, std::false_type) {}
};
template <size_t E, typename T>
struct Sizes<E, E, T>
{
    static void reg() {}
};
template <typename T>
void reg_ints()
{
    reg_metric<1, T>();
    reg_metric<2, T>();
    reg_metric<3, T>();
    reg_metric<4, T>();
    reg_metric<7, T>();
    mc::add("cross_" + tname<T>(), cross3<T>, "all pairs over a 5-letter alphabet, all destination aliasings");
}
template <typename T>
void reg_fp()
{
    reg_ints<T>();
    reg_metric<5, T>();
    reg_metric<8, T>();
    reg_metric<17, T>();
    mc::add("special_1_" + tname<T>(), specials<1, T>, "zeros, infinities, NaN");
    mc::add("special_2_" + tname<T>(), specials<2, T>, "");
    mc::add("special_3_" + tname<T>(), specials<3, T>, "");
    mc::add("special_4_" + tname<T>(), specials<4, T>, "");
    mc::add("special_6_" + tname<T>(), specials<6, T>, "");
    mc::add("normalize_1_" + tname<T>(), normalise<1, T>, "");
    mc::add("normalize_2_" + tname<T>(), normalise<2, T>, "");
    mc::add("normalize_3_" + tname<T>(), normalise<3, T>, "all vectors x 9 magnitudes");
    mc::add("normalize_4_" + tname<T>(), normalise<4, T>, "");
    mc::add("normalize_9_" + tname<T>(), normalise<9, T>, "");
    mc::add("normal_" + tname<T>(), normal<T>, "all lattice triangles x scale x aliasing");
    mc::add("normalize_near_" + tname<T>(), normalise_near<T>, "almost unit vectors, every order of magnitude");
    mc::add("distance_near_" + tname<T>(), distance_near<T>, "points at every distance");
    mc::add("normal_near_" + tname<T>(), normal_near<T>, "triangles of every size and shape");
    mc::add("rotate_near_" + tname<T>(), rotation_near<T, T>, "almost unit axes, small angles");
    mc::add("rotate_turns_" + tname<T>(), rotation_turns<T, T>, "angles of many turns");
    mc::add("rotate_" + tname<T>(), rotation<T, T>, "angle grid x axis lattice x scale x vector lattice");
}
} // namespace

REGISTER_BLOCK(c02)
{
#if PART == 0
    reg_fp<float>();
#elif PART == 1
    reg_fp<double>();
#elif PART == 2
    reg_ints<int>();
    reg_ints<long long>();
    reg_ints<short>();
#elif PART == 3
    Sizes<6, 36, float>::reg();
#elif PART == 4
    Sizes<6, 20, double>::reg();
    Sizes<6, 20, int>::reg();
    Sizes<6, 20, unsigned char>::reg();
#elif PART == 7
    Sizes<64, 65, float>::reg();
    Sizes<100, 101, double>::reg();
    Sizes<128, 129, int>::reg();
    Sizes<255, 258, unsigned char>::reg();
    Sizes<300, 301, float>::reg();
#elif PART == 6
    reg_metric<1, signed char>();
    reg_metric<2, signed char>();
    reg_metric<3, signed char>();
    reg_metric<4, signed char>();
    reg_metric<3, unsigned short>();
    mc::add("bignorm_2schar", bignorm<2, signed char>, "");
#else
    reg_metric<1, unsigned char>();
    reg_metric<3, unsigned char>();
    reg_metric<4, unsigned char>();
    reg_metric<2, unsigned>();
    reg_metric<3, unsigned>();
    reg_metric<5, unsigned>();
    mc::add("bignorm_2uchar", bignorm<2, unsigned char>, "norm beyond the element type");
    mc::add("bignorm_3short", bignorm<3, short>, "");
    mc::add("bignorm_3ushort", bignorm<3, unsigned short>, "");
    mc::add("bignorm_4int", bignorm<4, int>, "");
    mc::add("bignorm_2unsigned", bignorm<2, unsigned>, "");
    mc::add("bignorm_3float", bignorm<3, float>, "");
    mc::add("bignorm_4double", bignorm<4, double>, "");
    mc::add("cross_unsigned", cross3<unsigned>, "");
    mc::add("cross_double_int", cross_mixed<double, int>, "operands of another element type");
    mc::add("cross_int_short", cross_mixed<int, short>, "");
    mc::add("cross_float_double", cross_mixed<float, double>, "");
    mc::add("cross_double_float", cross_mixed<double, float>, "");
    mc::add("cross_int_double", cross_mixed<int, double>, "");
    mc::add("rotate_double_int", rotation<double, int>, "");
    mc::add("rotate_float_int", rotation<float, int>, "");
    mc::add("rotate_double_short", rotation<double, short>, "");
    mc::add("rotate_double_float", rotation<double, float>, "");
    mc::add("rotate_near_float_double", rotation_near<float, double>, "");
    mc::add("rotate_turns_double_int", rotation_turns<double, int>, "");
    mc::add("rotate_turns_float_double", rotation_turns<float, double>, "");
    mc::add("rotate_float_double", rotation<float, double>, "axis of another type");
    mc::add("rotate_near_float_double", rotation_near<float, double>, "");
    mc::add("rotate_near_double_float", rotation_near<double, float>, "");
    mc::add("rotate_double_float", rotation<double, float>, "axis of another type");
#endif
}
MC_MAIN()
