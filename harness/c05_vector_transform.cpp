// C05: component-wise transforms.
#include <vmmlib/vector.hpp>
#include <vmmlib/util.hpp>
#include "mc/common.hpp"
using namespace h;

namespace
{
template <typename T>
std::vector<T> letters()
{
    if (std::is_floating_point<T>::value)
    {
        typedef std::numeric_limits<T> L;
        return {T(0), T(1), T(-1), T(0.5), T(2), T(-3), T(0.25), T(1e-3), T(1000), L::max(), L::lowest(), L::min(), L::infinity(), -L::infinity(), T(-0.), T(1) + L::epsilon(), T(-1) / 3};
    }
    std::vector<T> v = {T(0), T(1), T(2), T(3), T(9), T(100), std::numeric_limits<T>::max(), std::numeric_limits<T>::min()};
    if (std::is_signed<T>::value)
    {
        v.push_back(T(-1));
        v.push_back(T(-4));
    }
    return sizeof(T) == 8 ? plus(v, beyond<T>()) : v;
}
// vectors of one value of the sweep among ordinary ones
template <size_t M, typename T>
void fill_sweep(Ctx& c, T* p, int op);
template <size_t M, typename T>
void fill_vec(Ctx& c, T* p, const std::vector<T>& al, double full)
{
    const int kind = c.choose(2);
    c.deviations(c.thorough() ? (M > 9 ? 2 : M > 4 ? 3 : 4) : M > 9 ? 1 : M > 4 ? 2 : 3);
    fill(c, p, M, al, kind, full);
}

enum { CLAMP, CLAMP_DEF, CLAMP_OWN, SQRT, RECIP, RECIP_SAFE, MIN, MAX, ZERO, MANH, N_OPS };
const char* opn[] = {"clamp", "clamp()", "clamp(own components)", "sqrt_elementwise", "reciprocal", "reciprocal_safe", "min", "max", "zero", "manhattan"};

template <typename T>
typename std::enable_if<std::is_signed<T>::value, T>::type manh(const T*, size_t) { return T(0); }

template <size_t M, typename T>
typename std::enable_if<std::is_floating_point<T>::value || std::is_same<T, int>::value>::type manhattan_check(Ctx& c, const vmml::Vector<M, T>& v)
{
    long double s = 0;
    for (size_t i = 0; i < M; ++i)
        s += std::fabs((long double)v.array[i]);
    if (s > (long double)std::numeric_limits<T>::max() || s != s)
        return;
    const T r = vmml::manhattan(v);
    CHK(c, near(r, T(s), 0, M + 2), "manhattan of " << show(v) << " = " << +r << " want " << (double)s);
}
template <size_t M, typename T>
typename std::enable_if<!(std::is_floating_point<T>::value || std::is_same<T, int>::value)>::type manhattan_check(Ctx&, const vmml::Vector<M, T>&)
{
}

template <size_t M, typename T>
void fill_sweep(Ctx& c, T* p, int op)
{
    const size_t at = size_t(c.choose(int(M)));
    for (size_t i = 0; i < M; ++i)
        p[i] = pattern<T>(0, i);
    T x = pick_sweep<T>(c);
    if (op == SQRT && (x < T(0) || (!std::is_floating_point<T>::value && (long double)x >= 4503599627370496.L)))
        x = T(0);
    if (!std::is_floating_point<T>::value && op == RECIP && x == T(0))
        x = T(1);
    p[at] = x;
}

template <size_t M, typename T>
void ops(Ctx& c, double full)
{
    typedef vmml::Vector<M, T> V;
    const bool swept = full == 0;
    const int op = c.choose(N_OPS);
    Guarded<V> g;
    V& v = g.o;
    V other(T(1));
    T lo = T(0), hi = T(1);
    std::vector<T> al = letters<T>();
    if (M > 33)
    {
        std::vector<T> b;
        for (size_t i = 0; i < al.size(); i += 3)
            b.push_back(al[i]);
        al = b;
    }
    if (op == SQRT || (!std::is_floating_point<T>::value && op == RECIP))
    {
        std::vector<T> b;
        for (size_t i = 0; i < al.size(); ++i)
            // (an integer's root is that of the double it converts to)
            if (op == SQRT ? al[i] >= T(0) && (std::is_floating_point<T>::value || (long double)al[i] < 4503599627370496.L) : al[i] != T(0))
                b.push_back(al[i]);
        al = b;
    }
    size_t oi = 0, oj = 0;
    if (op == CLAMP)
    {
        lo = c.pick(al);
        hi = c.pick(al);
        if (hi < lo)
            return;
    }
    if (op == MIN || op == MAX)
    {
        c.deviations(1);
        fill(c, other.array, M, al, 1, 20);
    }
    if (swept)
        fill_sweep<M, T>(c, v.array, op);
    else
        fill_vec<M, T>(c, v.array, al, full);
    if (op == SQRT || (!std::is_floating_point<T>::value && op == RECIP))
        for (size_t i = 0; i < M; ++i) // the base patterns are not filtered
            if (op == SQRT && v.array[i] < T(0))
                v.array[i] = T(-v.array[i]);
    if (op == CLAMP_OWN)
    {
        oi = size_t(c.choose(int(M)));
        oj = M > 33 ? M - 1 - oi : size_t(c.choose(int(M)));
        lo = v.array[oi];
        hi = v.array[oj];
        if (!(lo <= hi))
            return;
    }
    T x[M];
    memcpy(x, v.array, sizeof x);
    const V other0(other);
    NOTE(c, opn[op] << " " << show(v) << " other " << show(other) << " [" << +lo << "," << +hi << "]");
    c.state(hash_fp(x, M, hash_fp(other.array, M, mc::hash_val(op, hash_fp(&lo, 1, hash_fp(&hi, 1))))));
    c.step();
    const V* res = &v;
    V r;
    switch (op)
    {
    case CLAMP: v.clamp(lo, hi); break;
    case CLAMP_DEF: v.clamp(); break;
    case CLAMP_OWN: v.clamp(v.array[oi], v.array[oj]); break;
    case SQRT: v.sqrt_elementwise(); break;
    case RECIP: v.reciprocal(); break;
    case RECIP_SAFE: v.reciprocal_safe(); break;
    case MIN: r = vmml::min(v, other); res = &r; break;
    case MAX: r = vmml::max(v, other); res = &r; break;
    case ZERO: vmml::zero(v); break;
    default: manhattan_check(c, v);
    }
    for (size_t i = 0; i < M; ++i)
    {
        T w;
        double ulps = 0;
        switch (op)
        {
        case CLAMP:
        case CLAMP_DEF:
        case CLAMP_OWN: w = x[i] < lo ? lo : x[i] > hi ? hi : x[i]; break;
        case SQRT: w = T(std::sqrt((long double)x[i])); ulps = 1; break;
        case RECIP: w = T(T(1) / x[i]); ulps = 1; break;
        case RECIP_SAFE: w = x[i] == T(0) ? std::numeric_limits<T>::max() : T(T(1) / x[i]); ulps = 1; break;
        case MIN: w = x[i] < other0.array[i] ? x[i] : other0.array[i]; break;
        case MAX: w = x[i] > other0.array[i] ? x[i] : other0.array[i]; break;
        case ZERO: w = T(0); break;
        default: w = x[i];
        }
        CHK(c, same(res->array[i], w) || (ulps > 0 && std::is_floating_point<T>::value && near(res->array[i], w, 0, ulps)), opn[op] << " of " << show(x, M) << " with " << show(other) << " [" << +lo << "," << +hi << "] = " << show(*res) << " component " << i << " want " << +w);
    }
    if (res != &v)
        CHK(c, memcmp(v.array, x, sizeof x) == 0, "operand changed");
    CHK(c, memcmp(&other, &other0, sizeof other) == 0, "operand changed");
    CHK_GUARD(c, g);
}

// scale_to: [-a, a] -> 0 .. max(TT), truncating
template <size_t M, typename T, typename TT>
void scale(Ctx& c)
{
    const std::vector<T> ranges = {T(1), T(2), T(0.5), T(100), T(1e-3)};
    const bool deflt = c.choose(6) == 0;
    const T a = deflt ? T(1) : c.pick(ranges);
    vmml::Vector<M, T> v;
    Guarded<vmml::Vector<M, TT>> g;
    vmml::Vector<M, TT>& r = g.o;
    r = TT(17);
    std::vector<T> fr = {T(-1), T(1), T(0), T(0.5), T(-0.25), T(0.001), T(-0.999)};
    if (c.thorough())
        for (int i = -30; i < 30; ++i)
            fr.push_back(T(i) / T(32));
    c.deviations(3);
    for (size_t i = 0; i < M; ++i)
        v.array[i] = fr[c.dev(int(fr.size()))] * a;
    Frozen<vmml::Vector<M, T>> f(v);
    c.state(hash_fp(v.array, M, hash_fp(&a, 1)));
    c.step();
    if (deflt)
        v.scale_to(r);
    else
        v.scale_to(r, -a, a);
    for (size_t i = 0; i < M; ++i)
    {
        const long double full = (long double)std::numeric_limits<TT>::max();
        const long double w = ((long double)v.array[i] + a) / (2 * (long double)a) * full;
        const long double slack = 8 * std::max<long double>(std::numeric_limits<T>::epsilon(), std::numeric_limits<TT>::epsilon()) * full;
        const long double got = r.array[i];
        const bool ok = std::is_floating_point<TT>::value ? std::fabs(got - w) <= slack : got <= w + slack && got >= std::floor(w - slack);
        CHK(c, ok, "scale_to of " << show(v) << " range " << a << " = " << show(r) << " component " << i << " want floor of " << (double)w);
    }
    CHK_FROZEN(c, f);
    CHK_GUARD(c, g);
}

template <size_t M, typename T>
void perturb(Ctx& c)
{
    typedef vmml::Vector<M, T> V;
    const std::vector<T> amount = {T(0), T(1), T(0.25), T(5), T(0.0001), T(-2)};
    const bool deflt = std::is_floating_point<T>::value && c.choose(4) == 0;
    const T p = deflt ? T(0.0001) : c.pick(amount);
    const unsigned seed = unsigned(c.choose(c.thorough() ? 4000 : 400));
    Guarded<V> g;
    V& v = g.o;
    for (size_t i = 0; i < M; ++i)
        v.array[i] = pattern<T>(int(seed % 3), i);
    const V v0(v);
    srand(seed);
    c.state(mc::hash_val(seed, hash_fp(&p, 1)));
    c.step();
    if (deflt)
        v.perturb();
    else
        v.perturb(p);
    for (size_t i = 0; i < M; ++i)
        CHK(c, v.array[i] == T(v0.array[i] + p) || v.array[i] == T(v0.array[i] - p), "perturb(" << +p << ") of " << show(v0) << " = " << show(v));
    CHK_GUARD(c, g);
    c.outcome(hash_fp(v.array, M));
}

template <size_t M, typename T>
void random(Ctx& c)
{
    typedef vmml::Vector<M, T> V;
    const int seed = c.choose(c.thorough() ? 20000 : 2000);
    const int before = c.choose(3);
    Guarded<V> g;
    V& v = g.o;
    v = T(77);
    for (int i = 0; i < before; ++i)
        rand();
    c.state(mc::hash_val(seed));
    c.step(3);
    v.set_random(seed);
    bool differ = false;
    for (size_t i = 0; i < M; ++i)
    {
        CHK(c, v.array[i] >= T(-1) && v.array[i] <= T(1), "set_random(" << seed << ") = " << show(v));
        differ = differ || v.array[i] != v.array[0];
    }
    if (M >= 4 && std::is_floating_point<T>::value)
        CHK(c, differ, "set_random fills all components with the same value");
    V w(T(-9));
    srand(unsigned(seed));
    w.set_random();
    CHK(c, w == v, "set_random(-1) after srand(" << seed << ") = " << show(w) << ", set_random(seed) = " << show(v));
    w = T(3);
    w.set_random(seed);
    CHK(c, w == v, "set_random depends on more than the seed");
    CHK_GUARD(c, g);
    c.outcome(hash_fp(v.array, M));
}

template <size_t M, typename T>
void history(Ctx& c, int depth)
{
    typedef vmml::Vector<M, T> V;
    Guarded<V> g;
    V& v = g.o;
    long double m[M];
    const std::vector<T> al = {T(0), T(4), T(0.25), T(-2), T(16)};
    for (size_t i = 0; i < M; ++i)
        m[i] = v.array[i] = c.pick(al);
    for (int d = 0; d < depth; ++d)
    {
        c.visit(hash_fp(v.array, M), depth - d);
        const int op = c.choose(6);
        bool neg = false;
        for (size_t i = 0; i < M; ++i)
            neg = neg || m[i] < 0;
        if (op == 1 && neg)
            return;
        vmml::Vector<M, double> o;
        c.step();
        for (size_t i = 0; i < M; ++i)
        {
            o.array[i] = double(i) - 1.5;
            switch (op)
            {
            case 0: m[i] = m[i] < -1 ? -1 : m[i] > 4 ? 4 : m[i]; break;
            case 1: m[i] = T(std::sqrt((T)m[i])); break;
            case 2: m[i] = m[i] == 0 ? (long double)std::numeric_limits<T>::max() : T(1) / (T)m[i]; break;
            case 3: m[i] = T(o.array[i]); break;
            case 4: m[i] = 0; break;
            default: m[i] = m[i] < 0.5L ? m[i] : 0.5L; break;
            }
        }
        switch (op)
        {
        case 0: v.clamp(T(-1), T(4)); break;
        case 1: v.sqrt_elementwise(); break;
        case 2: v.reciprocal_safe(); break;
        case 3: v.cast_from(o); break;
        case 4: vmml::zero(v); break;
        default: v = vmml::min(v, V(T(0.5))); break;
        }
        NOTE(c, "op " << op << " -> " << show(v));
        for (size_t i = 0; i < M; ++i)
            CHK(c, near(v.array[i], T(m[i]), 0, 4 * (d + 1)), "step " << d << " op " << op << " component " << i << " of " << show(v) << " want " << (double)m[i]);
        for (size_t i = 0; i < M; ++i)
            m[i] = v.array[i];
    }
    CHK_GUARD(c, g);
}

template <size_t M, typename T>
void reg()
{
    const std::string n = std::to_string(M) + "x" + tname<T>();
    mc::add("ops_" + n, [](Ctx& c) { ops<M, T>(c, c.thorough() ? 70000 : 300); }, "every transform on every component tuple");
    if (M == 3)
        mc::add("sweep_" + n, [](Ctx& c) { ops<M, T>(c, 0); }, "every transform on every magnitude");
    mc::add("perturb_" + n, perturb<M, T>, "all seeds of a range");
    if (std::is_signed<T>::value)
        mc::add("random_" + n, random<M, T>, "all seeds of a range");
}
template <typename T>
void all()
{
    reg<1, T>();
    reg<2, T>();
    reg<3, T>();
    reg<4, T>();
    reg<9, T>();
}
} // namespace
REGISTER_BLOCK(c05)
{
#if PART == 0
    all<float>();
    mc::add("scale_float_uchar", scale<3, float, unsigned char>, "");
    mc::add("scale_float_ushort", scale<4, float, unsigned short>, "");
    mc::add("scale_float_short", scale<2, float, short>, "");
    mc::add("scale_float_schar", scale<5, float, signed char>, "");
#elif PART == 1
    all<double>();
    mc::add("scale_double_uint", scale<3, double, unsigned>, "");
    mc::add("scale_double_int", scale<4, double, int>, "");
    mc::add("scale_double_uchar", scale<1, double, unsigned char>, "");
    mc::add("scale_double_float", scale<9, double, float>, "");
    mc::add("history_float", [](Ctx& c) { history<3, float>(c, c.thorough() ? 8 : 5); }, "");
    mc::add("history_double", [](Ctx& c) { history<2, double>(c, c.thorough() ? 8 : 6); }, "");
#elif PART == 2
    all<int>();
    all<short>();
#elif PART == 4
    reg<5, float>();
    reg<6, double>();
    reg<7, int>();
    reg<8, float>();
    reg<12, short>();
    reg<16, unsigned char>();
    reg<17, double>();
    reg<33, float>();
#elif PART == 6
    reg<64, float>();
    reg<100, double>();
    reg<128, int>();
    reg<257, unsigned char>();
#elif PART == 5
    all<signed char>();
    all<unsigned short>();
#else
    all<unsigned>();
    all<unsigned char>();
    reg<2, long long>();
    reg<3, long long>();
    reg<3, unsigned long>();
#endif
}
MC_MAIN()
