// C04: comparison, ordering, search, counting on Vector.
#include <vmmlib/vector.hpp>
#include "mc/common.hpp"
using namespace h;

namespace
{
template <typename T>
std::vector<T> letters(bool nan)
{
    if (std::is_floating_point<T>::value)
    {
        typedef std::numeric_limits<T> L;
        std::vector<T> v = {T(0), T(1), T(-1), T(2), T(-2), T(0.5), T(-3), T(1) + L::epsilon(), L::max(), L::lowest(), L::min(), L::denorm_min(), L::infinity(), -L::infinity()};
        if (nan)
            v.push_back(L::quiet_NaN());
        return v;
    }
    std::vector<T> v = {T(0), T(1), T(2), T(3), T(7), std::numeric_limits<T>::max()};
    if (std::is_signed<T>::value)
    {
        v.push_back(T(-1));
        v.push_back(T(-2));
        v.push_back(T(-7));
        v.push_back(T(100));
        v.push_back(T(-100));
    }
    else
        v.push_back(T(std::numeric_limits<T>::max() - 1));
    return v;
}

template <size_t M, typename T>
void operands(Ctx& c, vmml::Vector<M, T>& a, vmml::Vector<M, T>& b, const std::vector<T>& al, double full)
{
    const int kind = c.choose(3);
    c.deviations((c.thorough() ? 3 : 2) - (M > 17));
    // kind 2: equal bases, so that few deviations decide
    fill(c, a.array, M, al, kind == 2 ? 0 : kind, full);
    fill(c, b.array, M, al, kind == 2 ? 0 : 1 - kind, full);
}

template <size_t M, typename T>
void pairs(Ctx& c, double full)
{
    typedef vmml::Vector<M, T> V;
    Guarded<V> ga, gb;
    V &a = ga.o, &b = gb.o;
    operands<M, T>(c, a, b, letters<T>(false), full);
    Frozen<V> fa(a), fb(b);
    bool eq = true;
    for (size_t i = 0; i < M; ++i)
        eq = eq && a.array[i] == b.array[i];
    const bool lt = std::lexicographical_compare(a.array, a.array + M, b.array, b.array + M);
    const bool gt = std::lexicographical_compare(b.array, b.array + M, a.array, a.array + M);
    NOTE(c, show(a) << " vs " << show(b));
    c.state(hash_fp(a.array, M, hash_fp(b.array, M)));
    c.step(8);
    const V &x = a, &y = b;
    CHK(c, (x == y) == eq && (y == x) == eq, show(a) << " == " << show(b) << " gives " << (x == y));
    CHK(c, (x != y) == !eq && (y != x) == !eq, show(a) << " != " << show(b));
    CHK(c, (x < y) == lt, show(a) << " < " << show(b) << " gives " << (x < y));
    CHK(c, (y < x) == gt, show(b) << " < " << show(a) << " gives " << (y < x));
    CHK(c, x == x && !(x != x) && !(x < x), "reflexivity");
    CHK_FROZEN(c, fa);
    CHK_FROZEN(c, fb);
    CHK_GUARD(c, ga);
    CHK_GUARD(c, gb);
}

template <size_t M, typename T>
void tolerance(Ctx& c, double full)
{
    typedef vmml::Vector<M, T> V;
    V a, b;
    std::vector<T> tol = {T(0), T(1), T(2), T(3), std::numeric_limits<T>::max()};
    if (std::is_signed<T>::value)
        tol.push_back(T(-1));
    std::vector<T> al = letters<T>(true);
    if (std::is_floating_point<T>::value)
    {
        typedef std::numeric_limits<T> L;
        tol.push_back(L::epsilon());
        tol.push_back(T(0.5));
        tol.push_back(T(0.50001));
        tol.push_back(L::infinity());
        tol.push_back(L::quiet_NaN());
    }
    else if (std::is_signed<T>::value)
        al.erase(std::find(al.begin(), al.end(), std::numeric_limits<T>::max())); // differences overflow
    const bool deflt = c.choose(8) == 0;
    const T t = deflt ? std::numeric_limits<T>::epsilon() : c.pick(tol);
    operands<M, T>(c, a, b, al, full);
    bool want = true;
    for (size_t i = 0; i < M; ++i)
    {
        const T x = a.array[i], y = b.array[i];
        if (x != x || y != y)
            want = false;
        else
        {
            const T d = x < y ? T(y - x) : T(x - y);
            want = want && d < t;
        }
    }
    NOTE(c, show(a) << " ~ " << show(b) << " tolerance " << +t);
    c.state(hash_fp(a.array, M, hash_fp(b.array, M, mc::hash_val(t))));
    c.step(2);
    const bool r = deflt ? a.equals(b) : a.equals(b, t), s = deflt ? b.equals(a) : b.equals(a, t);
    CHK(c, r == want, show(a) << ".equals(" << show(b) << ", " << +t << ") = " << r);
    CHK(c, s == want, show(b) << ".equals(" << show(a) << ", " << +t << ") = " << s << " (not symmetric)");
    if (deflt)
        CHK(c, vmml::equals(a, b) == want, "free equals");
}

template <size_t M, typename T>
void order(Ctx& c)
{
    typedef vmml::Vector<M, T> V;
    const std::vector<T> al = M > 2 ? std::vector<T>{T(0), T(1)} : std::vector<T>{T(0), T(1), T(2), T(200)};
    V v[3];
    for (int k = 0; k < 3; ++k)
        for (size_t i = 0; i < M; ++i)
            v[k].array[i] = c.pick(al);
    c.state(hash_fp(v[0].array, M, hash_fp(v[1].array, M, hash_fp(v[2].array, M))));
    c.step(3);
    const bool ab = v[0] < v[1], bc = v[1] < v[2], ac = v[0] < v[2], ba = v[1] < v[0];
    CHK(c, !(ab && bc) || ac, "not transitive: " << show(v[0]) << show(v[1]) << show(v[2]));
    CHK(c, int(ab) + int(ba) + int(v[0] == v[1]) == 1, "not a total order: " << show(v[0]) << show(v[1]));
    CHK(c, ab || ba || bc == ac, "incomparable elements differ");
}

template <typename T>
void abs_idx(Ctx&, const vmml::Vector<3, T>&, std::false_type)
{
}

template <size_t M, typename T>
typename std::enable_if<std::is_signed<T>::value>::type abs_search(Ctx& c, const vmml::Vector<M, T>& v)
{
    size_t lo = 0, hi = 0;
    for (size_t i = 1; i < M; ++i)
    {
        const long double x = std::fabs((long double)v.array[i]);
        if (x < std::fabs((long double)v.array[lo])) lo = i;
        if (x > std::fabs((long double)v.array[hi])) hi = i;
    }
    CHK(c, v.find_abs_min_index() == lo, "find_abs_min_index of " << show(v) << " = " << v.find_abs_min_index());
    CHK(c, v.find_abs_max_index() == hi, "find_abs_max_index of " << show(v) << " = " << v.find_abs_max_index());
}
template <size_t M, typename T>
typename std::enable_if<!std::is_signed<T>::value>::type abs_search(Ctx&, const vmml::Vector<M, T>&)
{
}

template <size_t M, typename T>
void search(Ctx& c, double full)
{
    typedef vmml::Vector<M, T> V;
    Guarded<V> g;
    V& v = g.o;
    const int kind = c.choose(3);
    c.deviations((c.thorough() ? (M > 8 ? 3 : 4) : M > 8 ? 2 : 3) - (M > 17));
    const std::vector<T> al = letters<T>(false);
    fill(c, v.array, M, al, kind == 2 ? 3 : kind, full);
    Frozen<V> f(v);
    size_t lo = 0, hi = 0, nz = 0, one = 0;
    for (size_t i = 0; i < M; ++i)
    {
        if (v.array[i] < v.array[lo]) lo = i;
        if (v.array[i] > v.array[hi]) hi = i;
        nz += v.array[i] != T(0);
        one += v.array[i] == T(1);
    }
    NOTE(c, "search in " << show(v));
    c.state(hash_fp(v.array, M));
    c.step(10);
    const V& k = v;
    CHK(c, k.find_min_index() == lo, "find_min_index of " << show(v) << " = " << k.find_min_index());
    CHK(c, k.find_max_index() == hi, "find_max_index of " << show(v) << " = " << k.find_max_index());
    CHK(c, &k.find_min() == &v.array[lo] && &v.find_min() == &v.array[lo], "find_min of " << show(v) << " = " << +k.find_min() << "/" << +v.find_min());
    CHK(c, &k.find_max() == &v.array[hi] && &v.find_max() == &v.array[hi], "find_max of " << show(v) << " = " << +k.find_max() << "/" << +v.find_max());
    abs_search<M, T>(c, v);
    CHK(c, k.nnz() == nz, "nnz of " << show(v) << " = " << k.nnz());
    CHK(c, k.is_unit_vector() == (nz == 1 && one == 1), "is_unit_vector of " << show(v));
    CHK_FROZEN(c, f);
    // the references are into the vector
    v.find_max() = T(3);
    CHK(c, v.array[hi] == T(3), "find_max() is not a reference into the vector");
    CHK_GUARD(c, g);
}
// exactly one component 1 and nearly-unit vectors
template <size_t M, typename T>
void unit(Ctx& c)
{
    vmml::Vector<M, T> v;
    const std::vector<T> al = std::is_floating_point<T>::value ? std::vector<T>{T(0), T(1), T(-1), T(0.5), T(2), T(1) + std::numeric_limits<T>::epsilon(), std::numeric_limits<T>::denorm_min(), T(-0.)} : std::vector<T>{T(0), T(1), T(2), std::numeric_limits<T>::max()};
    size_t one = 0, nz = 0;
    c.deviations(M > 33 ? (c.thorough() ? 2 : 1) : 3);
    for (size_t i = 0; i < M; ++i)
    {
        v.array[i] = al[c.dev(int(al.size()))];
        one += v.array[i] == T(1);
        nz += v.array[i] != T(0);
    }
    c.state(hash_fp(v.array, M));
    c.step();
    CHK(c, v.is_unit_vector() == (one == 1 && nz == 1), "is_unit_vector of " << show(v) << " = " << v.is_unit_vector());
    CHK(c, v.nnz() == nz, "nnz of " << show(v));
}

// every value against its neighbours, its negation and its double
template <typename T>
void neighbours(Ctx& c)
{
    typedef vmml::Vector<3, T> V;
    const T x = pick_sweep<T>(c);
    const bool fp = std::is_floating_point<T>::value;
    typedef std::numeric_limits<T> L;
    T y = x;
    switch (c.choose(6))
    {
    case 0: break;
    case 1: y = fp ? T(std::nextafter((long double)x, 0.L) == 0 ? T(0) : std::nextafter(x, T(0))) : x == L::max() ? x : T(x + 1); break;
    case 2: y = fp ? T(std::nextafter(x, L::max())) : x == L::min() ? x : T(x - 1); break;
    case 3: y = fp || (std::is_signed<T>::value && x != L::min()) ? T(-x) : T(0); break;
    case 4: y = fp ? T(x / 2) : T(x / 2); break;
    default: y = T(1);
    }
    const size_t at = size_t(c.choose(3));
    V a(T(1), T(2), T(3)), b(a);
    a.array[at] = x;
    b.array[at] = y;
    c.step(6);
    c.state(hash_fp(a.array, 3, hash_fp(b.array, 3)));
    const V &p = a, &q = b;
    if (!(x == T(0) && y == T(0) && memcmp(&x, &y, sizeof x))) // signed zeros
        CHK(c, (p == q) == (x == y) && (p != q) == (x != y), show(a) << " == " << show(b) << " gives " << (p == q));
    CHK(c, (p < q) == (x < y) && (q < p) == (y < x), show(a) << " < " << show(b) << " gives " << (p < q) << ", the other way " << (q < p));
    size_t lo = 0, hi = 0, nz = 0;
    for (size_t i = 0; i < 3; ++i)
    {
        if (a.array[i] < a.array[lo]) lo = i;
        if (a.array[i] > a.array[hi]) hi = i;
        nz += a.array[i] != T(0);
    }
    CHK(c, p.find_min_index() == lo && p.find_max_index() == hi && p.nnz() == nz, "search in " << show(a));
    // min and max of almost equal components
    V s(x, y, x);
    size_t slo = y < x ? 1 : 0, shi = y > x ? 1 : 0;
    CHK(c, s.find_min_index() == slo && s.find_max_index() == shi && s.find_min() == s.array[slo] && s.find_max() == s.array[shi], "search in " << show(s));
    if (!std::is_signed<T>::value || fp || x != L::min())
        abs_search(c, s);
    V u(T(0), T(0), T(0));
    u.array[at] = x;
    CHK(c, u.is_unit_vector() == (x == T(1)) && u.nnz() == (x != T(0)), "is_unit_vector of " << show(u));
}
// differences of every order of magnitude against tolerances of every order
template <typename T>
void tolerances(Ctx& c)
{
    typedef vmml::Vector<3, T> V;
    static const std::vector<T> lad = ladder<T>(1, true), dec = decades<T>(sizeof(T) == 4 ? 1 : 8);
    static const T base[] = {T(0), T(1), T(-2), T(1000), T(1e-4)};
    const T b = c.pick(base) * (c.flip() ? T(1) : c.pick(dec)), d = c.pick(lad);
    const size_t at = size_t(c.choose(3));
    static const double f[] = {0.5, 0.999, 1, 1.001, 2};
    V x(b, T(2), T(-b)), y(x);
    y.array[at] += d;
    const T diff = x.array[at] < y.array[at] ? T(y.array[at] - x.array[at]) : T(x.array[at] - y.array[at]);
    const T t = T((diff == 0 ? std::fabs(d) : diff) * T(c.pick(f)));
    c.step(4);
    c.state(hash_fp(x.array, 3, hash_fp(y.array, 3, mc::hash_val(t))));
    CHK(c, x.equals(y, t) == (diff < t) && y.equals(x, t) == (diff < t), show(x) << ".equals(" << show(y) << ", " << t << ") = " << x.equals(y, t));
    const bool w = diff < std::numeric_limits<T>::epsilon();
    CHK(c, x.equals(y) == w && vmml::equals(y, x) == w, show(x) << ".equals(" << show(y) << ") = " << x.equals(y));
}

template <size_t M, typename T>
void reg(double full)
{
    const std::string n = std::to_string(M) + "x" + tname<T>();
    mc::add("pairs_" + n, [full](Ctx& c) { pairs<M, T>(c, c.thorough() ? full * 10 : full); }, "==, !=, < on all pairs");
    mc::add("equals_" + n, [full](Ctx& c) { tolerance<M, T>(c, full / (c.thorough() ? 1 : 10)); }, "equals with a tolerance, both directions, NaN and infinities");
    mc::add("search_" + n, [full](Ctx& c) { search<M, T>(c, c.thorough() ? full * 30 : full * 10); }, "minimum/maximum search, ties, counting");
    mc::add("unit_" + n, unit<M, T>, "is_unit_vector, nnz");
}
template <typename T>
void all()
{
    reg<1, T>(250);
    reg<2, T>(250);
    reg<3, T>(250);
    reg<4, T>(250);
    reg<8, T>(250);
    mc::add("neighbours_" + tname<T>(), neighbours<T>, "every exponent (narrow integers: every value) against its neighbours");
    mc::add("order_1_" + tname<T>(), order<1, T>, "strict total order on all triples");
    mc::add("order_2_" + tname<T>(), order<2, T>, "strict total order on all triples");
    mc::add("order_3_" + tname<T>(), order<3, T>, "strict total order on all triples");
    mc::add("order_4_" + tname<T>(), order<4, T>, "strict total order on all triples");
}
} // namespace
REGISTER_BLOCK(c04)
{
#if PART == 0
    all<float>();
    mc::add("tolerances_float", tolerances<float>, "differences and tolerances of every order of magnitude");
#elif PART == 1
    all<double>();
    mc::add("tolerances_double", tolerances<double>, "");
#elif PART == 2
    all<int>();
    all<short>();
#elif PART == 3
    all<unsigned>();
    all<unsigned char>();
#elif PART == 5
    reg<5, float>(60);
    reg<6, int>(60);
    reg<7, double>(60);
    reg<9, short>(60);
    reg<12, unsigned char>(60);
    reg<16, float>(60);
    reg<33, int>(60);
    mc::add("order_5_float", order<5, float>, "");
    mc::add("order_6_int", order<6, int>, "");
#elif PART == 7
    reg<64, float>(1);
    reg<100, double>(1);
    reg<128, int>(1);
    reg<256, unsigned char>(1);
    reg<257, short>(1);
    reg<300, float>(1);
#elif PART == 6
    all<signed char>();
    all<unsigned short>();
    reg<13, signed char>(60);
#else
    all<long long>();
    reg<17, float>(250);
    reg<5, unsigned long>(250);
#endif
}
MC_MAIN()
