// C29: scalar helpers, comparison functors, free equals().
#include <vmmlib/math.hpp>
#include <vmmlib/matrix.hpp>
#include <vmmlib/matrix_functors.hpp>
#include <vmmlib/util.hpp>
#include "mc/common.hpp"
using namespace h;

namespace
{
typedef long double L;

// magnitudes spread over the whole exponent range, exact and inexact
template <typename T>
std::vector<T> magnitudes(bool dense)
{
    typedef std::numeric_limits<T> N;
    std::vector<T> v = {T(0), N::denorm_min(), T(N::denorm_min() * 3), N::min(), T(N::min() * T(1.7)), N::epsilon(), T(1), T(3), T(4), T(5), T(12), T(0.1), T(1e6), N::max(), T(N::max() / 2), T(N::max() / T(1.5))};
    const int step = dense ? N::max_exponent / 64 : N::max_exponent / 16;
    for (int e = N::min_exponent; e < N::max_exponent; e += step)
    {
        v.push_back(std::ldexp(T(1), e));
        v.push_back(std::ldexp(T(1.3), e));
    }
    return v;
}

template <typename T>
void pythag(Ctx& c)
{
    const std::vector<T> m = magnitudes<T>(c.thorough());
    T a = c.pick(m), b;
    // any other magnitude, or one near the first (comparable operands)
    if (c.flip())
        b = c.pick(m);
    else
    {
        static const L f[] = {1, 0.5L, 2, 0.999L, 1.001L, 1e-3L, 1e3L, 0.75L, 1e-10L, 1e10L, 1e-5L};
        const L x = c.pick(f) * a;
        if (x > std::numeric_limits<T>::max())
            return;
        b = T(x);
    }
    if (c.flip())
        a = -a;
    if (c.flip())
        b = -b;
    c.step();
    c.state(mc::hash_val(double(a), mc::hash_val(double(b))));
    const T r = vmml::math::pythag(a, b);
    NOTE(c, "pythag(" << L(a) << ", " << L(b) << ") = " << L(r));
    // scale exactly so that the reference neither over- nor underflows
    int e = 0;
    const L hi = std::max(std::fabs(L(a)), std::fabs(L(b)));
    if (hi == 0)
    {
        CHK(c, r == 0, "pythag(0, 0) = " << L(r));
        return;
    }
    std::frexp(hi, &e);
    const L sa = std::ldexp(L(a), -e), sb = std::ldexp(L(b), -e);
    const L s = std::sqrt(sa * sa + sb * sb);
    const L lim = std::ldexp(L(std::numeric_limits<T>::max()), -e);
    const L eps = std::numeric_limits<T>::epsilon();
    if (s > lim * (1 - 4 * eps)) // the result itself overflows
    {
        CHK(c, !(s > lim * (1 + 4 * eps)) || r == std::numeric_limits<T>::infinity(), "pythag of an overflowing length");
        return;
    }
    const L want = std::ldexp(s, e);
    const L tol = 4 * eps * want + std::numeric_limits<T>::denorm_min();
    CHK(c, std::fabs(L(r) - want) <= tol, "pythag(" << L(a) << ", " << L(b) << ") = " << L(r) << " want " << want);
}

// operands almost equal, and one next to nothing beside the other
template <typename T>
void pythag_near(Ctx& c)
{
    static const std::vector<T> lad = ladder<T>(1, true), dec = decades<T>(std::max(1, std::numeric_limits<T>::max_exponent10 / 40));
    const T s = c.pick(dec), d = c.pick(lad);
    const bool ratio = c.flip(), swap = c.flip();
    T a = s, b = ratio ? T(s * d) : T(s * (1 + d));
    if (swap)
        std::swap(a, b);
    c.step();
    c.state(mc::hash_val(double(a), mc::hash_val(double(b))));
    const T r = vmml::math::pythag(a, b);
    const L q = std::min(std::fabs(L(a)), std::fabs(L(b))), p = std::max(std::fabs(L(a)), std::fabs(L(b)));
    const L want = p * std::sqrt(1 + (q / p) * (q / p));
    CHK(c, std::fabs(L(r) - want) <= 4 * L(std::numeric_limits<T>::epsilon()) * want, "pythag(" << L(a) << ", " << L(b) << ") = " << L(r) << " want " << want);
}
// every exponent (every value where they are few)
template <typename T>
void scalar_sweep(Ctx& c)
{
    typedef std::numeric_limits<T> N;
    const T a = pick_sweep<T>(c);
    if (N::is_integer && a == N::min())
        return;
    static const T bs[] = {T(1), T(-1), T(3), T(-5)};
    const int k = c.choose(6);
    T b = k < 4 ? bs[k] : a;
    if (k == 5)
        b = N::is_integer ? T(-a) : T(std::nextafter(a, T(0)));
    c.step(4);
    c.state(mc::hash_val(double(a), mc::hash_val(double(b))));
    const T mag = a < 0 ? T(-a) : a, mb = b < 0 ? T(-b) : b;
    const T r = vmml::math::sign(a, b);
    if (b != 0)
        CHK(c, r == (b < 0 ? T(-mag) : mag), "sign(" << L(a) << ", " << L(b) << ") = " << L(r));
    vmml::math::abs_less<T> less;
    vmml::math::abs_greater<T> greater;
    CHK(c, (less(a, b) != T(0)) == (mag < mb), "abs_less(" << L(a) << ", " << L(b) << ")");
    CHK(c, (greater(a, b) != T(0)) == (mag > mb), "abs_greater(" << L(a) << ", " << L(b) << ")");
    if (!N::is_integer || mag < T(std::sqrt(L(N::max()))))
        CHK(c, same(vmml::math::squared(a), T(a * a)), "squared(" << L(a) << ")");
}

template <typename T>
void signs(Ctx& c)
{
    typedef std::numeric_limits<T> N;
    std::vector<T> m = {T(0), T(1), T(2), T(3), T(7), T(100), N::max(), T(N::max() - 1)};
    if (!N::is_integer)
    {
        m.push_back(N::denorm_min());
        m.push_back(N::min());
        m.push_back(N::infinity());
        m.push_back(T(0.25));
        m.push_back(N::epsilon());
    }
    T a = c.pick(m), b = c.pick(m);
    const int s = c.choose(4);
    if (s & 1)
        a = T(-a);
    if (s & 2)
        b = T(-b);
    c.step();
    c.state(mc::hash_val(double(a), mc::hash_val(double(b))));
    const T r = vmml::math::sign(a, b);
    const T mag = a < 0 ? T(-a) : a;
    if (b > 0 || (b == 0 && !(s & 2)))
        CHK(c, r == mag, "sign(" << L(a) << ", " << L(b) << ") = " << L(r));
    else if (b < 0)
        CHK(c, r == T(-mag), "sign(" << L(a) << ", " << L(b) << ") = " << L(r));
    else
        CHK(c, r == mag || r == T(-mag), "sign(" << L(a) << ", -0) = " << L(r));
    vmml::math::abs_less<T> less;
    vmml::math::abs_greater<T> greater;
    const T mb = b < 0 ? T(-b) : b;
    CHK(c, (less(a, b) != T(0)) == (mag < mb), "abs_less(" << L(a) << ", " << L(b) << ")");
    CHK(c, (greater(a, b) != T(0)) == (mag > mb), "abs_greater(" << L(a) << ", " << L(b) << ")");
    // as comparator
    T pair[2] = {a, b};
    CHK(c, (std::max_element(pair, pair + 2, less) == pair + 1) == (mb > mag), "abs_less as a comparator");
    CHK(c, (std::max_element(pair, pair + 2, greater) == pair + 1) == (mb < mag), "abs_greater as a comparator");
}

template <typename T>
void square(Ctx& c)
{
    std::vector<T> v;
    const T top = std::numeric_limits<T>::is_integer ? T(std::sqrt(L(std::numeric_limits<T>::max()))) : T(1e15);
    for (int i = 0; i <= 40; ++i)
        v.push_back(T(i));
    for (T k = 64; k < top / 2; k = T(k * 2))
    {
        v.push_back(k);
        v.push_back(T(k + 1));
        v.push_back(T(k - 1));
    }
    v.push_back(T(top - 1));
    if (!std::numeric_limits<T>::is_integer)
    {
        v.push_back(T(0.1));
        v.push_back(T(1e-12));
        v.push_back(T(-1e8));
    }
    T a = c.pick(v);
    if (std::is_signed<T>::value && c.flip())
        a = T(-a);
    c.step();
    c.state(mc::hash_val(double(a)));
    const T r = vmml::math::squared(a);
    CHK(c, r == T(a * a), "squared(" << L(a) << ") = " << L(r) << " want " << L(T(a * a)));
}

// ------------------------------------------------------------ functors
template <size_t M, size_t N, typename T>
bool lines_equal(const vmml::Matrix<M, N, T>& a, const vmml::Matrix<M, N, T>& b, bool rows, L tol)
{
    for (size_t i = 0; i < (rows ? M : N); ++i)
    {
        bool eq = true, inv = true;
        for (size_t j = 0; j < (rows ? N : M); ++j)
        {
            const size_t k = rows ? j * M + i : i * M + j;
            const L x = a.array[k], y = b.array[k];
            if (tol < 0)
            {
                eq = eq && x == y;
                inv = inv && x == -y;
            }
            else
            {
                eq = eq && std::fabs(x - y) < tol;
                inv = inv && std::fabs(x + y) < tol;
            }
        }
        if (!eq && !inv)
            return false;
    }
    return true;
}
template <size_t M, size_t N, typename T>
void functors(Ctx& c, const vmml::Matrix<M, N, T>& a, const vmml::Matrix<M, N, T>& b)
{
    typedef vmml::Matrix<M, N, T> X;
    c.step();
    c.state(hash_fp(a.array, M * N, hash_fp(b.array, M * N)));
    vmml::matrix_equals_allow_inverted_rows<X> er;
    vmml::matrix_equals_allow_inverted_columns<X> ec;
    CHK(c, er(a, b) == lines_equal(a, b, true, -1), "inverted rows: " << show(a) << " and " << show(b) << " -> " << er(a, b));
    CHK(c, ec(a, b) == lines_equal(a, b, false, -1), "inverted columns: " << show(a) << " and " << show(b) << " -> " << ec(a, b));
    static const L tols[] = {0, 0.25L, 0.5L, 1.25L, 3};
    for (L t : tols)
    {
        CHK(c, er(a, b, T(t)) == lines_equal(a, b, true, t), "inverted rows within " << t << ": " << show(a) << " and " << show(b) << " -> " << er(a, b, T(t)));
        CHK(c, ec(a, b, T(t)) == lines_equal(a, b, false, t), "inverted columns within " << t << ": " << show(a) << " and " << show(b) << " -> " << ec(a, b, T(t)));
    }
}
template <size_t M, size_t N, typename T>
void inverted_full(Ctx& c, int n)
{
    static const T al[] = {T(1), T(0), T(-1), T(2.5)};
    vmml::Matrix<M, N, T> a, b;
    for (size_t i = 0; i < M * N; ++i)
    {
        a.array[i] = al[c.choose(n)];
        b.array[i] = al[c.choose(n)];
    }
    functors(c, a, b);
}
// every pattern of inverted rows and columns plus up to k changed elements
template <size_t M, size_t N, typename T>
void inverted_dev(Ctx& c, int k)
{
    vmml::Matrix<M, N, T> a, b;
    const int base = c.choose(2);
    const unsigned rows = c.choose(1 << M), cols = c.choose(1 << N);
    c.deviations(k);
    for (size_t j = 0; j < N; ++j)
        for (size_t i = 0; i < M; ++i)
        {
            const size_t p = j * M + i;
            a.array[p] = base ? T(int(i) - int(j)) : T(1 + i + 3 * j);
            T v = a.array[p];
            if (rows >> i & 1)
                v = -v;
            if (cols >> j & 1)
                v = -v;
            static const L d[] = {0, 1, -0.25L, 4};
            const int q = c.dev(5);
            b.array[p] = q == 4 ? T(-v) : T(v + d[q]);
        }
    functors(c, a, b);
}

// one element off the line or its inverse by every order of magnitude, against
// tolerances just below, at and above that difference
template <size_t M, size_t N, typename T>
void inverted_near(Ctx& c)
{
    static const std::vector<T> lad = ladder<T>(1, true);
    typedef vmml::Matrix<M, N, T> X;
    X a, b;
    const unsigned rows = c.choose(1 << M);
    const size_t at = size_t(c.choose(int(M * N)));
    const T d = c.pick(lad);
    for (size_t j = 0; j < N; ++j)
        for (size_t i = 0; i < M; ++i)
        {
            a.array[j * M + i] = T(1 + i + j);
            b.array[j * M + i] = (rows >> i & 1) ? T(-a.array[j * M + i]) : a.array[j * M + i];
        }
    const bool zero = c.flip();
    if (zero)
        a.array[at] = T(0), b.array[at] = d;
    else
        b.array[at] += d;
    const L real = std::min(std::fabs(L(a.array[at]) - b.array[at]), std::fabs(L(a.array[at]) + b.array[at]));
    c.step();
    c.state(hash_fp(a.array, M * N, hash_fp(b.array, M * N)));
    vmml::matrix_equals_allow_inverted_rows<X> er;
    vmml::matrix_equals_allow_inverted_columns<X> ec;
    CHK(c, er(a, b) == lines_equal(a, b, true, -1) && ec(a, b) == lines_equal(a, b, false, -1), "inverted rows/columns: " << show(a) << " and " << show(b) << " -> " << er(a, b) << ec(a, b));
    static const L f[] = {0.5L, 0.99L, 1, 1.01L, 2};
    const T t = T(c.pick(f) * (real == 0 ? std::fabs(L(d)) : real));
    CHK(c, er(a, b, t) == lines_equal(a, b, true, t) && ec(a, b, t) == lines_equal(a, b, false, t), "inverted rows/columns within " << L(t) << ": " << show(a) << " and " << show(b) << " -> " << er(a, b, t) << ec(a, b, t));
}

template <typename T, typename U>
void free_equals_near(Ctx& c)
{
    static const std::vector<L> lad = ladder<L>(1, true);
    static const L base[] = {0, 1, -1, 3, 1000, 5000, -70000, 3e6L, 1e9L};
    static const L eps = std::numeric_limits<float>::epsilon();
    const T a = T(c.pick(base));
    const U b = U(L(a) + c.pick(lad));
    c.step();
    c.state(mc::hash_val(double(a), mc::hash_val(double(b))));
    const L real = std::fabs(L(a) - L(b));
    if (real > 0 && std::fabs(real - eps) < eps * 1e-6L)
        return;
    CHK(c, vmml::equals(a, b) == (real < eps) && vmml::equals(b, a) == (real < eps), "equals(" << L(a) << ", " << L(b) << ") = " << vmml::equals(a, b));
}
template <typename T, typename U>
void free_equals(Ctx& c)
{
    static const L base[] = {0, 1, -1, 3, 1000, 1e-9L, 0.5L};
    static const L eps = std::numeric_limits<float>::epsilon();
    static const L diff[] = {0, 1, 0.5L, 0.99L, 1.01L, 2, 1e-3L, 1e4L, 1e8L, 1e12L};
    const T a = T(c.pick(base));
    L d = c.pick(diff) * eps;
    if (c.flip())
        d = -d;
    const U b = U(L(a) + d);
    c.step();
    c.state(mc::hash_val(double(a), mc::hash_val(double(b))));
    const L real = std::fabs(L(a) - L(b));
    if (real > 0 && std::fabs(real - eps) < eps * 1e-6L)
        return; // the difference itself is rounded
    CHK(c, vmml::equals(a, b) == (real < eps), "equals(" << L(a) << ", " << L(b) << ") = " << vmml::equals(a, b));
}
} // namespace

REGISTER_BLOCK(c29)
{
#if PART == 0
    mc::add("pythag_float", pythag<float>, "magnitude pairs and signs");
    mc::add("pythag_double", pythag<double>, "magnitude pairs and signs");
    mc::add("pythag_ldouble", pythag<L>, "magnitude pairs and signs");
    mc::add("pythag_near_float", pythag_near<float>, "almost equal or negligible operands");
    mc::add("pythag_near_double", pythag_near<double>, "");
    mc::add("pythag_near_ldouble", pythag_near<L>, "");
    mc::add("sweep_float", scalar_sweep<float>, "every exponent");
    mc::add("sweep_double", scalar_sweep<double>, "");
    mc::add("sweep_int", scalar_sweep<int>, "");
    mc::add("sweep_long", scalar_sweep<long>, "");
    mc::add("sign_float", signs<float>, "sign and comparators");
    mc::add("sign_double", signs<double>, "sign and comparators");
    mc::add("sign_ldouble", signs<L>, "sign and comparators");
    mc::add("sign_int", signs<int>, "sign and comparators");
    mc::add("sign_long", signs<long>, "sign and comparators");
    mc::add("square_float", square<float>, "");
    mc::add("square_double", square<double>, "");
    mc::add("square_int", square<int>, "");
    mc::add("square_unsigned", square<unsigned>, "");
    mc::add("square_llong", square<long long>, "");
    mc::add("equals_near_dd", free_equals_near<double, double>, "differences of every order of magnitude");
    mc::add("equals_near_ff", free_equals_near<float, float>, "");
    mc::add("equals_near_fd", free_equals_near<float, double>, "");
    mc::add("equals_near_id", free_equals_near<int, double>, "");
    mc::add("equals_dd", free_equals<double, double>, "free equals()");
    mc::add("equals_ff", free_equals<float, float>, "free equals()");
    mc::add("equals_fd", free_equals<float, double>, "free equals()");
    mc::add("equals_df", free_equals<double, float>, "free equals()");
    mc::add("equals_id", free_equals<int, double>, "free equals()");
    mc::add("equals_ii", free_equals<int, int>, "free equals()");
#elif PART == 1
    mc::add("near_22", inverted_near<2, 2, double>, "differences and tolerances of every order of magnitude");
    mc::add("near_33", inverted_near<3, 3, float>, "");
    mc::add("near_23", inverted_near<2, 3, double>, "");
    mc::add("near_32", inverted_near<3, 2, float>, "");
    mc::add("full_22", [](Ctx& c) { inverted_full<2, 2, double>(c, c.thorough() ? 4 : 3); }, "all matrix pairs");
    mc::add("full_13", [](Ctx& c) { inverted_full<1, 3, float>(c, 4); }, "all matrix pairs");
    mc::add("full_31", [](Ctx& c) { inverted_full<3, 1, double>(c, 4); }, "all matrix pairs");
    mc::add("full_11", [](Ctx& c) { inverted_full<1, 1, float>(c, 4); }, "all matrix pairs");
    mc::add("full_23", [](Ctx& c) { inverted_full<2, 3, double>(c, c.thorough() ? 3 : 2); }, "all matrix pairs");
    mc::add("full_32", [](Ctx& c) { inverted_full<3, 2, float>(c, c.thorough() ? 3 : 2); }, "all matrix pairs");
#else
    mc::add("dev_33", [](Ctx& c) { inverted_dev<3, 3, double>(c, c.thorough() ? 3 : 1); }, "inversion patterns plus changes");
    mc::add("dev_44", [](Ctx& c) { inverted_dev<4, 4, float>(c, c.thorough() ? 2 : 1); }, "inversion patterns plus changes");
    mc::add("dev_25", [](Ctx& c) { inverted_dev<2, 5, float>(c, c.thorough() ? 3 : 1); }, "inversion patterns plus changes");
    mc::add("dev_52", [](Ctx& c) { inverted_dev<5, 2, double>(c, c.thorough() ? 3 : 1); }, "inversion patterns plus changes");
    mc::add("dev_34", [](Ctx& c) { inverted_dev<3, 4, double>(c, c.thorough() ? 2 : 1); }, "inversion patterns plus changes");
#endif
}
MC_MAIN()
