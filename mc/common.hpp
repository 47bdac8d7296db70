// Alphabets, guards and comparison helpers shared by the harnesses.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include "mc.hpp"

#include <algorithm>
#include <array>
#include <cmath>
#include <iomanip>
#include <iterator>
#include <list>
#include <memory>
#include <string>

namespace h
{
using mc::Ctx;

template <typename T>
struct TName;
#define H_TNAME(t)                                                             \
    template <>                                                                \
    struct TName<t>                                                            \
    {                                                                          \
        static const char* get() { return #t; }                               \
    };
H_TNAME(float)
H_TNAME(double)
H_TNAME(long double)
H_TNAME(int)
H_TNAME(unsigned)
H_TNAME(short)
H_TNAME(unsigned short)
H_TNAME(long)
H_TNAME(unsigned long)
H_TNAME(long long)
H_TNAME(unsigned char)
H_TNAME(signed char)
H_TNAME(char)
template <typename T>
std::string tname()
{
    return TName<T>::get();
}

// ------------------------------------------------------------- equality
template <typename T>
inline bool same(T a, T b)
{
    return a == b || (a != a && b != b);
}
// |a-b| <= ulps * eps * max(scale, |a|, |b|); NaN equals NaN
template <typename T>
inline bool near(T a, T b, double scale = 1, double ulps = 16)
{
    if (a == b)
        return true;
    const bool na = a != a, nb = b != b;
    if (na || nb)
        return na && nb;
    if (std::isinf((long double)a) || std::isinf((long double)b))
        return false;
    const long double m =
        std::max<long double>(scale, std::max(std::fabs((long double)a),
                                              std::fabs((long double)b)));
    return std::fabs((long double)a - (long double)b) <=
           ulps * (long double)std::numeric_limits<T>::epsilon() * m;
}

template <typename T>
std::string show(const T* p, size_t n)
{
    std::ostringstream os;
    os.precision(17);
    os << "(";
    for (size_t i = 0; i < n; ++i)
    {
        if (sizeof(T) == 1)
            os << (i ? " " : "") << int(p[i]);
        else
            os << (i ? " " : "") << p[i];
    }
    os << ")";
    return os.str();
}
template <typename C>
std::string show(const C& v)
{
    return show(&*v.begin(), size_t(v.end() - v.begin()));
}
inline std::string showb(unsigned char v) { return std::to_string(int(v)); }

// ------------------------------------------------------------- alphabets
template <typename T, bool FP = std::is_floating_point<T>::value,
          bool SG = std::is_signed<T>::value>
struct Alpha;
template <typename T>
struct Alpha<T, true, true>
{
    static std::vector<T> small()
    {
        return {T(0), T(1), T(-1), T(2), T(-3), T(0.5)};
    }
    static std::vector<T> wide()
    {
        typedef std::numeric_limits<T> L;
        return {T(0),      T(1),     T(-1),         T(0.5),       T(2),
                T(-3),     T(1000),  T(0.1),        T(-7.25),     L::max(),
                L::lowest(), L::min(), L::epsilon(), L::infinity(),
                -L::infinity(), L::quiet_NaN(), L::denorm_min()};
    }
};
template <typename T>
struct Alpha<T, false, true>
{
    static std::vector<T> small()
    {
        return {T(0), T(1), T(-1), T(2), T(-3), T(7)};
    }
    static std::vector<T> wide()
    {
        // products and sums of any two stay inside the type (or, for types
        // narrower than int, are computed in int)
        std::vector<T> v = {T(0), T(1),  T(-1), T(2),  T(-3),
                            T(7), T(10), T(-11), T(100)};
        if (sizeof(T) < sizeof(int))
        {
            v.push_back(std::numeric_limits<T>::max());
            v.push_back(std::numeric_limits<T>::min());
        }
        else
        {
            v.push_back(T(30000));
            v.push_back(T(-40000));
        }
        return v;
    }
};
template <typename T>
struct Alpha<T, false, false>
{
    static std::vector<T> small()
    {
        return {T(0), T(1), T(2), T(3), T(7), T(5)};
    }
    static std::vector<T> wide()
    {
        return {T(0),   T(1),   T(2),   T(3),
                T(10),  T(127), T(128), T(200),
                std::numeric_limits<T>::max(),
                T(std::numeric_limits<T>::max() - 1)};
    }
};
template <typename T>
std::vector<T> nonzero(std::vector<T> v)
{
    std::vector<T> r;
    for (size_t i = 0; i < v.size(); ++i)
        if (v[i] != T(0))
            r.push_back(v[i]);
    return r;
}
template <typename T>
std::vector<T> nonan(const std::vector<T>& v)
{
    std::vector<T> r;
    for (size_t i = 0; i < v.size(); ++i)
        if (v[i] == v[i])
            r.push_back(v[i]);
    return r;
}

// Integer values that no floating-point detour preserves (float keeps 24
// bits, double 53), and the limits.
template <typename T>
typename std::enable_if<std::is_integral<T>::value, std::vector<T>>::type
beyond()
{
    typedef std::numeric_limits<T> L;
    std::vector<T> v;
    v.push_back(L::max());
    v.push_back(T(L::max() - 1));
    v.push_back(L::min());
    if (sizeof(T) >= 4)
    {
        v.push_back(T(16777217));
        v.push_back(T(std::is_signed<T>::value ? -33554435LL : 33554435LL));
    }
    if (sizeof(T) == 8)
    {
        v.push_back(T(9007199254740993LL));
        v.push_back(T(std::is_signed<T>::value ? -36028797018963971LL : 36028797018963971LL));
        v.push_back(T(4294967299LL));
    }
    return v;
}
// Floating-point values with all mantissa bits in use.
template <typename T>
typename std::enable_if<std::is_floating_point<T>::value, std::vector<T>>::type
beyond()
{
    const T e = std::numeric_limits<T>::epsilon();
    return {1 + e, T(-1) / 3, T(16777217) / 3, T(1e-30) / 7};
}
// a value like v which no detour through another arithmetic type keeps
template <typename T>
T widen(T v)
{
    if (std::is_floating_point<T>::value)
        return v + v / T(3);
    if (sizeof(T) == 8)
        return T((v < T(0) ? -9007199254740993LL : 9007199254740993LL) + (long long)(v) * 4294967296LL);
    return sizeof(T) == 4 ? T((v < T(0) ? -16777217 : 16777217) + int(v) * 65536) : v;
}
// Offsets of every order of magnitude from 0.1 down to below the resolution of
// T, of both signs: whatever an implementation takes for "close enough" is hit
// by some of them.
template <typename T>
std::vector<T> ladder(int first = 1, bool zero = false)
{
    std::vector<T> v;
    if (zero)
        v.push_back(T(0));
    for (int k = first; k <= std::numeric_limits<T>::digits10 + 2; ++k)
    {
        const T d = T(std::pow(10.L, -k));
        v.push_back(d);
        v.push_back(-d);
    }
    return v;
}
// Every exponent of T with several mantissas, of both signs, including the
// denormalised numbers; every value of the narrow integers, the neighbourhood
// of every power of two for the wide ones.
template <typename T>
typename std::enable_if<std::is_floating_point<T>::value, std::vector<T>>::type
sweep()
{
    typedef std::numeric_limits<T> L;
    std::vector<T> v;
    for (int e = L::min_exponent - L::digits; e <= L::max_exponent - 1; ++e)
    {
        const T b = std::ldexp(T(1), e);
        const T f[] = {b, b * (1 + L::epsilon()), b * T(1.5), b * (T(4) / 3), b * (2 - L::epsilon())};
        for (int i = 0; i < 5; ++i)
            if (f[i] != 0 && (i == 0 || f[i] != f[i - 1]) && f[i] - f[i] == 0)
            {
                v.push_back(f[i]);
                v.push_back(-f[i]);
            }
    }
    v.push_back(T(0));
    v.push_back(-T(0));
    return v;
}
template <typename T>
typename std::enable_if<std::is_integral<T>::value, std::vector<T>>::type
sweep()
{
    typedef std::numeric_limits<T> L;
    std::vector<T> v;
    if (sizeof(T) < 4)
    {
        for (int i = L::min(); i <= L::max(); ++i)
            v.push_back(T(i));
        return v;
    }
    for (int k = 0; k < L::digits; ++k)
        for (int d = -1; d <= 1; ++d)
        {
            const T b = T(T(1) << k), x = T(b + T(d));
            v.push_back(x);
            if (std::is_signed<T>::value)
                v.push_back(T(-x));
        }
    v.push_back(L::max());
    v.push_back(L::min());
    return v;
}
template <typename T>
T pick_sweep(Ctx& c)
{
    static const std::vector<T> all = sweep<T>();
    const size_t n = (all.size() + 255) / 256, hi = n > 1 ? size_t(c.choose(int(n))) : 0;
    return all[hi * 256 + size_t(c.choose(int(std::min<size_t>(256, all.size() - hi * 256))))];
}
// every order of magnitude whose square T can hold
template <typename T>
std::vector<T> decades(int step = 1)
{
    std::vector<T> v;
    const int m = std::numeric_limits<T>::max_exponent10 / 2 - 2;
    for (int k = 0; k <= m; k += step)
    {
        v.push_back(T(std::pow(10.L, k)));
        if (k)
            v.push_back(T(std::pow(10.L, -k)));
    }
    return v;
}
template <typename T>
std::vector<T> plus(std::vector<T> a, const std::vector<T>& b)
{
    for (size_t i = 0; i < b.size(); ++i)
        if (std::find(a.begin(), a.end(), b[i]) == a.end())
            a.push_back(b[i]);
    return a;
}
// whether `a op b` is undefined in T (op 0..3 is + - * /)
template <typename T>
inline bool undefined_op(int op, T a, T b)
{
    if (!std::is_integral<T>::value)
        return false;
    if (op == 3)
        return b == T(0) || (std::is_signed<T>::value && sizeof(T) >= 4 &&
                             b == T(-1) && a == std::numeric_limits<T>::min());
    if (sizeof(T) < 4 || !std::is_signed<T>::value)
        return sizeof(T) == 2 && !std::is_signed<T>::value && op == 2 &&
               (long long)a * (long long)b > 2147483647LL;
    const __int128 x = (__int128)(long long)a, y = (__int128)(long long)b;
    const __int128 r = op == 0 ? x + y : op == 1 ? x - y : x * y;
    return r > (__int128)(long long)std::numeric_limits<T>::max() ||
           r < (__int128)(long long)std::numeric_limits<T>::min();
}

// distinct values per index, none equal to its neighbour's permutation image
template <typename T>
inline T pattern(int kind, size_t i)
{
    switch (kind)
    {
    case 0:
        return T(i + 1);
    case 1:
        return std::is_signed<T>::value ? T(-(int)(i) - 2) : T(2 * i + 3);
    case 2:
        return T((i * 7 + 3) % 23 + 1);
    default:
        return T(i % 2 ? 2 : 1);
    }
}

// Fill n values: exhaustively from the alphabet while |alphabet|^n stays
// small, otherwise the base pattern with deviations (the caller's budget).
template <typename T>
void fill(Ctx& c, T* p, size_t n, const std::vector<T>& alpha, int kind,
          double full_limit = 1300)
{
    if (std::pow(double(alpha.size()), double(n)) <= full_limit)
    {
        for (size_t i = 0; i < n; ++i)
            p[i] = c.pick(alpha);
        return;
    }
    for (size_t i = 0; i < n; ++i)
    {
        const int d = c.dev(int(alpha.size()) + 1);
        p[i] = d ? alpha[d - 1] : pattern<T>(kind, i);
    }
}

// ------------------------------------------------------------- guards
// An object between two canaries: anything written beyond it is noticed.
template <typename O>
struct Guarded
{
    unsigned char before[64];
    O o;
    unsigned char after[64];
    Guarded() : o() { arm(); }
    explicit Guarded(const O& x) : o(x) { arm(); }
    void arm()
    {
        memset(before, 0xA5, sizeof before);
        memset(after, 0x5A, sizeof after);
    }
    bool intact() const
    {
        for (size_t i = 0; i < sizeof before; ++i)
            if (before[i] != 0xA5 || after[i] != 0x5A)
                return false;
        return true;
    }
};
#define CHK_GUARD(c, g) CHK(c, (g).intact(), "memory around " #g " written")

// A raw snapshot used to show that an operand is not modified.
template <typename O>
struct Frozen
{
    const O& ref;
    unsigned char bytes[sizeof(O)];
    explicit Frozen(const O& o) : ref(o) { memcpy(bytes, &o, sizeof(O)); }
    bool unchanged() const { return memcmp(bytes, &ref, sizeof(O)) == 0; }
};
#define CHK_FROZEN(c, f)                                                       \
    CHK(c, (f).unchanged(), "operand " #f " was modified")

template <typename T>
uint64_t hash_fp(const T* p, size_t n, uint64_t h = 77)
{
    for (size_t i = 0; i < n; ++i)
        h = mc::hash_val(p[i] == T(0) ? T(0) : p[i], h); // merge -0 and 0
    return h;
}
} // namespace h
#endif
