// C11: reductions, counts, thresholds, sums, norms, definiteness.
#include <vmmlib/matrix.hpp>
#include "mc/common.hpp"
using namespace h;

namespace
{
typedef long double LD;
#define AT(m, R, r, c) (m).array[(c) * (R) + (r)]
template <typename T>
LD mag(T v)
{
    return std::fabs((LD)v);
}
template <typename T>
std::vector<T> letters(bool wide)
{
    typedef std::numeric_limits<T> L;
    std::vector<T> v;
    if (std::is_floating_point<T>::value)
    {
        v = {T(0), T(1), T(-1), T(-3), T(0.5)};
        if (wide)
        {
            v.push_back(L::infinity());
            v.push_back(-L::infinity());
            v.push_back(L::max());
            v.push_back(L::lowest());
            v.push_back(L::min());
            v.push_back(T(-0.5));
        }
    }
    else if (std::is_signed<T>::value)
    {
        v = {T(0), T(1), T(-1), T(-3), T(2)};
        if (wide)
        {
            v.push_back(L::max());
            v.push_back(T(-L::max()));
            v.push_back(T(-50));
            if (sizeof(T) == 8)
            {
                v.push_back(T(9007199254740993LL));
                v.push_back(T(-36028797018963971LL));
                v.push_back(T(36028797018963969LL));
            }
        }
    }
    else
    {
        v = {T(0), T(1), T(2), T(7), T(3)};
        if (wide)
        {
            v.push_back(L::max());
            v.push_back(T(L::max() / 2 + 1));
        }
    }
    return v;
}
// bases: all negative, all positive, mixed, all zero
template <typename T>
T base(int kind, size_t i)
{
    const bool s = std::is_signed<T>::value;
    switch (kind)
    {
    case 0: return s ? T(-int((i * 5) % 17) - 2) : T((i * 5) % 17 + 2);
    case 1: return T((i * 7) % 19 + 4);
    case 2: return s && i % 2 ? T(-int(i % 9) - 1) : T(i % 11 + 1);
    default: return T(0);
    }
}
template <typename T>
void content(Ctx& c, T* p, size_t n, bool wide)
{
    const std::vector<T> a = letters<T>(wide);
    if (std::pow(double(a.size()), double(n)) <= (c.thorough() ? 400000. : 20000.))
    {
        for (size_t i = 0; i < n; ++i)
            p[i] = c.pick(a);
        return;
    }
    const int kind = c.choose(4);
    c.deviations(n > 100 ? 1 : (c.thorough() ? 3 : 2) - (n > 36));
    for (size_t i = 0; i < n; ++i)
    {
        const int d = c.dev(int(a.size()) + 1);
        p[i] = d ? a[d - 1] : base<T>(kind, i);
    }
}

template <size_t M, size_t N, typename T>
void scan_checks(Ctx& c, Guarded<vmml::Matrix<M, N, T>>& g);
// extremes, counts, thresholds
template <size_t M, size_t N, typename T>
void scans(Ctx& c)
{
    Guarded<vmml::Matrix<M, N, T>> g;
    content(c, g.o.array, M * N, true);
    scan_checks(c, g);
}
// every exponent (narrow integers: every value) among zeros, ones or itself
template <typename T>
void scan_sweep(Ctx& c)
{
    const T x = pick_sweep<T>(c);
    Guarded<vmml::Matrix<2, 2, T>> g;
    const int how = c.choose(4), at = c.choose(4);
    if (std::is_signed<T>::value && std::is_integral<T>::value && x == std::numeric_limits<T>::min())
        return; // no magnitude
    for (int i = 0; i < 4; ++i)
        g.o.array[i] = i == at ? x : how == 0 ? T(0) : how == 1 ? T(1) : how == 2 ? T(-x) : std::is_floating_point<T>::value ? std::nextafter(x, T(i)) : T(x / 2);
    if (std::is_integral<T>::value && std::is_signed<T>::value)
        for (int i = 0; i < 4; ++i)
            if (g.o.array[i] == std::numeric_limits<T>::min())
                return;
    scan_checks(c, g);
    // the norms of a single element
    vmml::Matrix<2, 2, T> m;
    m = T(0);
    m.array[at] = x;
    CHK(c, m.sum_elements() == double(x), "sum_elements of " << show(m) << " is " << m.sum_elements());
    const double ax = std::fabs(double(x));
    if (ax == 0 || (ax < 1e150 && ax > 1e-150))
        CHK(c, near(m.frobenius_norm(), ax, 0, 16), "frobenius_norm of " << show(m) << " is " << m.frobenius_norm());
    // and of elements of very different magnitudes
    LD sum = 0, one = 0, sq = 0, half = 0, cube = 0, top = 0;
    for (int i = 0; i < 4; ++i)
    {
        const LD v = g.o.array[i], p = std::fabs(v);
        sum += v, one += p, sq += p * p, half += std::sqrt(p), cube += p * p * p;
        top = std::max(top, p);
    }
    if (top > 1e100L || top < 1e-100L)
        return;
    const vmml::Matrix<2, 2, T>& k = g.o;
    CHK(c, std::fabs(k.sum_elements() - sum) <= 4 * one * LD(2.3e-16), "sum_elements of " << show(k) << " is " << k.sum_elements());
    CHK(c, near(k.frobenius_norm(), double(std::sqrt(sq)), 0, 16), "frobenius_norm of " << show(k) << " is " << k.frobenius_norm() << " want " << double(std::sqrt(sq)));
    const double tol = sizeof(T) <= 4 ? 1e-5 : 1e-11;
    const double p1 = k.p_norm(1), p2 = k.p_norm(2), p3 = k.p_norm(3), ph = k.p_norm(0.5);
    CHK(c, std::fabs(p1 - one) <= tol * one, "p_norm(1) of " << show(k) << " is " << p1);
    CHK(c, std::fabs(p2 - std::sqrt(sq)) <= tol * std::sqrt(sq), "p_norm(2) of " << show(k) << " is " << p2);
    CHK(c, std::fabs(p3 - std::cbrt(cube)) <= tol * std::cbrt(cube), "p_norm(3) of " << show(k) << " is " << p3);
    CHK(c, std::fabs(ph - half * half) <= tol * half * half, "p_norm(0.5) of " << show(k) << " is " << ph);
}
template <size_t M, size_t N, typename T>
void scan_checks(Ctx& c, Guarded<vmml::Matrix<M, N, T>>& g)
{
    typedef vmml::Matrix<M, N, T> X;
    Frozen<X> f(g.o);
    const X& m = g.o;
    c.state(hash_fp(m.array, M * N));
    const T mn = m.get_min(), mx = m.get_max(), an = m.get_abs_min(), ax = m.get_abs_max();
    LD wmn = m.array[0], wmx = m.array[0], wan = mag(m.array[0]), wax = wan;
    size_t cnt = 0;
    for (size_t i = 0; i < M * N; ++i)
    {
        const LD v = m.array[i];
        wmn = std::min(wmn, v);
        wmx = std::max(wmx, v);
        wan = std::min(wan, mag(m.array[i]));
        wax = std::max(wax, mag(m.array[i]));
        cnt += m.array[i] != T(0);
    }
    c.step(5);
    NOTE(c, "matrix " << show(m));
    CHK(c, (LD)mn == wmn, "get_min of " << show(m) << " is " << +mn);
    CHK(c, (LD)mx == wmx, "get_max of " << show(m) << " is " << +mx);
    CHK(c, (LD)an == wan, "get_abs_min of " << show(m) << " is " << +an);
    CHK(c, (LD)ax == wax, "get_abs_max of " << show(m) << " is " << +ax);
    CHK(c, m.nnz() == cnt, "nnz of " << show(m) << " is " << m.nnz());
    c.outcome(mc::hash_val(mn, mc::hash_val(mx, mc::hash_val(an, mc::hash_val(ax, cnt)))));
    // every element magnitude, its neighbours and some constants as threshold
    std::vector<T> thr = {T(0), T(1), T(2), T(100)};
    if (std::is_signed<T>::value)
        thr.push_back(T(-1));
    for (size_t i = 0; i < M * N && i < 4; ++i)
    {
        const T t = T(mag(m.array[i]));
        thr.push_back(t);
        if (std::is_floating_point<T>::value)
        {
            thr.push_back(T(std::nextafter(t, T(0))));
            thr.push_back(T(std::nextafter(t, std::numeric_limits<T>::max())));
        }
        else if (t)
            thr.push_back(T(t - 1));
    }
    for (size_t k = 0; k < thr.size(); ++k)
    {
        size_t w = 0;
        for (size_t i = 0; i < M * N; ++i)
            w += mag(m.array[i]) > (LD)thr[k];
        CHK(c, m.nnz(thr[k]) == w, "nnz(" << +thr[k] << ") of " << show(m) << " is " << m.nnz(thr[k]) << " want " << w);
        Guarded<X> t(m);
        t.o.threshold(thr[k]);
        c.step(2);
        bool ok = true;
        for (size_t i = 0; i < M * N; ++i)
            ok = ok && t.o.array[i] == (mag(m.array[i]) > (LD)thr[k] ? m.array[i] : T(0));
        CHK(c, ok, "threshold(" << +thr[k] << ") of " << show(m) << " is " << show(t.o));
        CHK_GUARD(c, t);
    }
    // a threshold which is an element of the matrix itself
    for (size_t k = 0; k < M * N; k += k < 1 ? 1 : M * N / 2)
    {
        Guarded<X> t(m);
        t.o.threshold(t.o.array[k]);
        c.step();
        bool ok = true;
        for (size_t i = 0; i < M * N; ++i)
            ok = ok && t.o.array[i] == (mag(m.array[i]) > (LD)m.array[k] ? m.array[i] : T(0));
        CHK(c, ok, "threshold(own element " << k << ") of " << show(m) << " is " << show(t.o));
        CHK_GUARD(c, t);
    }
    CHK_FROZEN(c, f);
    CHK_GUARD(c, g);
}
template <typename T>
T wrap(LD v)
{
    return std::is_floating_point<T>::value ? T(v) : T((long long)v);
}

template <size_t M, size_t N, typename T>
typename std::enable_if<(M > 1)>::type row_sums(Ctx& c, const vmml::Matrix<M, N, T>& m)
{
    Guarded<vmml::Matrix<M / 2, N, T>> g;
    g.o = T(77);
    m.sum_rows(g.o);
    c.step();
    for (size_t r = 0; r < M / 2; ++r)
        for (size_t s = 0; s < N; ++s)
            CHK(c, AT(g.o, M / 2, r, s) == T(AT(m, M, 2 * r, s) + AT(m, M, 2 * r + 1, s)), "sum_rows of " << M << "x" << N << " " << show(m) << " is " << show(g.o));
    CHK_GUARD(c, g);
}
template <size_t M, size_t N, typename T>
typename std::enable_if<(M <= 1)>::type row_sums(Ctx&, const vmml::Matrix<M, N, T>&) {}
template <size_t M, size_t N, typename T>
typename std::enable_if<(N > 1)>::type col_sums(Ctx& c, const vmml::Matrix<M, N, T>& m)
{
    Guarded<vmml::Matrix<M, N / 2, T>> g;
    g.o = T(77);
    m.sum_columns(g.o);
    c.step();
    for (size_t r = 0; r < M; ++r)
        for (size_t s = 0; s < N / 2; ++s)
            CHK(c, AT(g.o, M, r, s) == T(AT(m, M, r, 2 * s) + AT(m, M, r, 2 * s + 1)), "sum_columns of " << M << "x" << N << " " << show(m) << " is " << show(g.o));
    CHK_GUARD(c, g);
}
template <size_t M, size_t N, typename T>
typename std::enable_if<(N <= 1)>::type col_sums(Ctx&, const vmml::Matrix<M, N, T>&) {}

template <size_t M, size_t N, typename T>
void sums(Ctx& c)
{
    typedef vmml::Matrix<M, N, T> X;
    Guarded<X> g;
    content(c, g.o.array, M * N, false);
    Frozen<X> f(g.o);
    const X& m = g.o;
    c.state(hash_fp(m.array, M * N));
    NOTE(c, "matrix " << show(m));
    Guarded<vmml::Vector<N, T>> gv;
    gv.o = vmml::Vector<N, T>(T(99));
    m.columnwise_sum(gv.o);
    c.step(5);
    LD all = 0, sq = 0;
    for (size_t s = 0; s < N; ++s)
    {
        LD w = 0;
        for (size_t r = 0; r < M; ++r)
        {
            w += AT(m, M, r, s);
            sq += (LD)AT(m, M, r, s) * AT(m, M, r, s);
        }
        all += w;
        CHK(c, gv.o.array[s] == wrap<T>(w), "columnwise_sum of " << M << "x" << N << " " << show(m) << " is " << show(gv.o));
    }
    CHK(c, m.sum_elements() == double(all), "sum_elements of " << show(m) << " is " << m.sum_elements() << " want " << double(all));
    CHK(c, near(m.frobenius_norm(), double(std::sqrt(sq)), 0, 16), "frobenius_norm of " << show(m) << " is " << m.frobenius_norm() << " want " << double(std::sqrt(sq)));
    static const double ps[6] = {1, 2, 3, 4, 0.5, 1.5};
    for (int k = 0; k < 6; ++k)
    {
        LD w = 0;
        for (size_t i = 0; i < M * N; ++i)
            w += std::pow(mag(m.array[i]), LD(ps[k]));
        w = std::pow(w, 1 / LD(ps[k]));
        const double got = m.p_norm(ps[k]);
        CHK(c, std::fabs(got - double(w)) <= 1e-5 * double(w) * (sizeof(T) <= 4 ? 1 : 1e-6), "p_norm(" << ps[k] << ") of " << show(m) << " is " << got << " want " << double(w));
    }
    row_sums(c, m);
    col_sums(c, m);
    CHK_FROZEN(c, f);
    CHK_GUARD(c, g);
    CHK_GUARD(c, gv);
}

// the double-valued reductions of elements whose sums and squares leave the
// element type (but not the integers a double can hold)
template <size_t M, size_t N, typename T>
void big(Ctx& c)
{
    typedef std::numeric_limits<T> L;
    typedef vmml::Matrix<M, N, T> X;
    std::vector<T> a = {T(0), T(1), T(100)};
    if (std::is_floating_point<T>::value)
    {
        a.push_back(T(16777216));
        a.push_back(T(-1099511627776.));
        a.push_back(T(0.125));
    }
    else
    {
        a.push_back(L::max());
        a.push_back(L::lowest());
        a.push_back(T(L::max() - L::max() / 3));
    }
    Guarded<X> g;
    if (std::pow(6., double(M * N)) <= 50000.)
        for (size_t i = 0; i < M * N; ++i)
            g.o.array[i] = c.pick(a);
    else
    {
        const T b = c.pick(a);
        c.deviations(2);
        for (size_t i = 0; i < M * N; ++i)
        {
            const int d = c.dev(int(a.size()) + 1);
            g.o.array[i] = d ? a[d - 1] : b;
        }
    }
    Frozen<X> f(g.o);
    const X& m = g.o;
    c.state(hash_fp(m.array, M * N));
    LD all = 0, sq = 0, one = 0;
    for (size_t i = 0; i < M * N; ++i)
    {
        all += (LD)m.array[i];
        sq += (LD)m.array[i] * m.array[i];
        one += mag(m.array[i]);
    }
    c.step(4);
    CHK(c, m.sum_elements() == double(all), "sum_elements of " << show(m) << " is " << m.sum_elements() << " want " << double(all));
    CHK(c, near(m.frobenius_norm(), double(std::sqrt(sq)), 0, 64), "frobenius_norm of " << show(m) << " is " << m.frobenius_norm() << " want " << double(std::sqrt(sq)));
    CHK(c, std::fabs(m.p_norm(1) - double(one)) <= 1e-9 * double(one), "p_norm(1) of " << show(m) << " is " << m.p_norm(1) << " want " << double(one));
    CHK(c, std::fabs(m.p_norm(2) - double(std::sqrt(sq))) <= 1e-5 * double(std::sqrt(sq)), "p_norm(2) of " << show(m) << " is " << m.p_norm(2) << " want " << double(std::sqrt(sq)));
    // modulo 2^n in the small and the unsigned types
    if (!std::is_floating_point<T>::value && (sizeof(T) < 4 || !std::is_signed<T>::value))
    {
        vmml::Vector<N, T> v(T(3));
        m.columnwise_sum(v);
        for (size_t s = 0; s < N; ++s)
        {
            unsigned long long w = 0;
            for (size_t r = 0; r < M; ++r)
                w += (unsigned long long)AT(m, M, r, s);
            CHK(c, v.array[s] == T(w), "columnwise_sum of " << show(m) << " is " << show(v));
        }
    }
    CHK_FROZEN(c, f);
    CHK_GUARD(c, g);
}

template <size_t M, typename T>
void definite(Ctx& c, int lo, int hi)
{
    typedef vmml::Matrix<M, M, T> X;
    X m;
    for (size_t i = 0; i < M * M; ++i)
        m.array[i] = T(lo + c.choose(hi - lo + 1));
    Frozen<X> f(m);
    c.state(hash_fp(m.array, M * M));
    LD minors[3] = {AT(m, M, 0, 0), 0, 0};
    if (M > 1)
        minors[1] = (LD)AT(m, M, 0, 0) * AT(m, M, 1, 1) - (LD)AT(m, M, 0, 1) * AT(m, M, 1, 0);
    if (M > 2)
    {
        LD a[3][3];
        for (size_t i = 0; i < 3; ++i)
            for (size_t j = 0; j < 3; ++j)
                a[i][j] = AT(m, M, i % M, j % M);
        minors[2] = a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]);
    }
    static const double lim[8] = {0, 1, -1, 0.5, -0.5, 2, -3, -1e12};
    for (int k = 0; k < 8; ++k)
    {
        bool want = true;
        for (size_t i = 0; i < M; ++i)
            want = want && !(minors[i] < (LD)T(lim[k]));
        c.step();
        CHK(c, vmml::is_positive_definite(m, T(lim[k])) == want, "is_positive_definite(" << show(m) << ", " << lim[k] << ") is " << !want);
    }
    // the default limit accepts everything down to -1e12
    CHK(c, vmml::is_positive_definite(m), "is_positive_definite(" << show(m) << ") with the default limit");
    CHK_FROZEN(c, f);
}
// minors and limits next to each other at every order of magnitude
template <typename T>
void definite_near(Ctx& c)
{
    vmml::Matrix<3, 3, T> m;
    m = T(0);
    const int k = c.choose(std::numeric_limits<T>::digits / 3), at = c.choose(3), rel = c.choose(5), off = c.choose(2);
    const T s = c.flip() ? T(1) : T(-1);
    for (int i = 0; i < 3; ++i)
        AT(m, 3, i, i) = T(1);
    AT(m, 3, at, at) = s * std::ldexp(T(1), -k);
    if (off) // and a term off the diagonal that moves the second minor
        AT(m, 3, 0, 1) = AT(m, 3, 1, 0) = std::ldexp(T(1), -k);
    const LD a = AT(m, 3, 0, 0), b = AT(m, 3, 1, 1), d = AT(m, 3, 2, 2), e = AT(m, 3, 0, 1);
    const LD minors[3] = {a, a * b - e * e, (a * b - e * e) * d};
    const T base = T(minors[c.choose(3)]);
    const T lim = rel == 0 ? base : rel == 1 ? std::nextafter(base, T(1e9)) : rel == 2 ? std::nextafter(base, T(-1e9)) : rel == 3 ? T(base * 2) : T(0);
    bool want = true;
    for (int i = 0; i < 3; ++i)
        want = want && !(minors[i] < (LD)lim);
    c.step();
    c.state(hash_fp(m.array, 9, mc::hash_val(lim)));
    CHK(c, vmml::is_positive_definite(m, lim) == want, "is_positive_definite(" << show(m) << ", " << lim << ") is " << !want);
}
#define S(x) std::to_string(x)
template <size_t M, size_t N, typename T>
void regb()
{
    mc::add("big_" + S(M) + S(N) + tname<T>(), big<M, N, T>, "sums and norms beyond the element type's range");
}
template <size_t M, size_t N, typename T>
void reg()
{
    mc::add("scans_" + S(M) + S(N) + tname<T>(), scans<M, N, T>, "extremes, nnz, threshold");
    mc::add("sums_" + S(M) + S(N) + tname<T>(), sums<M, N, T>, "sums and norms");
}
// every length of one dimension
template <size_t K, size_t E, typename T>
struct Sizes
{
    static void all()
    {
        reg<K, 2, T>(), reg<2, K, T>();
        Sizes<K + 1, E, T>::all();
    }
};
template <size_t E, typename T>
struct Sizes<E, E, T>
{
    static void all() {}
};
} // namespace

REGISTER_BLOCK(c11)
{
#if PART == 0
    reg<1, 1, float>(), reg<1, 4, float>(), reg<4, 1, float>(), reg<2, 2, float>(), reg<2, 3, float>(), reg<3, 2, float>();
    reg<3, 3, float>(), reg<4, 4, float>(), reg<5, 2, float>(), reg<3, 5, float>();
    reg<2, 9, float>(), reg<8, 2, float>();
    mc::add("sweep_float", scan_sweep<float>, "every exponent");
    mc::add("sweep_double", scan_sweep<double>, "");
    mc::add("sweep_int", scan_sweep<int>, "");
    mc::add("sweep_uchar", scan_sweep<unsigned char>, "");
    mc::add("sweep_short", scan_sweep<short>, "");
#elif PART == 1
    reg<1, 1, int>(), reg<1, 5, int>(), reg<5, 1, int>(), reg<2, 2, int>(), reg<2, 3, int>(), reg<3, 2, int>();
    reg<3, 3, int>(), reg<4, 4, int>(), reg<5, 3, int>(), reg<2, 7, int>();
    reg<8, 8, int>(), reg<1, 12, int>(), reg<13, 1, int>();
    reg<2, 2, long long>(), reg<3, 2, long long>(), reg<2, 5, long long>(), reg<2, 2, unsigned long>();
#elif PART == 2
    reg<2, 2, double>(), reg<3, 4, double>(), reg<4, 3, double>(), reg<6, 1, double>(), reg<9, 9, double>(), reg<3, 16, double>();
    reg<2, 2, unsigned char>(), reg<3, 3, unsigned char>(), reg<2, 4, unsigned char>();
#elif PART == 6
    reg<16, 16, float>(), reg<17, 17, int>(), reg<2, 100, double>(), reg<100, 3, float>(), reg<130, 2, int>(), reg<1, 130, double>(), reg<20, 20, unsigned char>();
    reg<64, 4, short>();
#elif PART == 4
    Sizes<5, 17, int>::all();
#elif PART == 5
    Sizes<5, 17, float>::all();
    reg<6, 7, double>(), reg<8, 4, unsigned char>(), reg<1, 33, float>(), reg<33, 1, int>();
#else
    reg<2, 2, unsigned>(), reg<4, 5, unsigned>(), reg<2, 3, short>(), reg<3, 3, short>(), reg<3, 3, signed char>();
    regb<2, 2, unsigned char>(), regb<4, 4, unsigned char>(), regb<2, 3, signed char>(), regb<3, 2, short>(), regb<2, 2, unsigned short>();
    regb<2, 3, int>(), regb<4, 4, int>(), regb<3, 2, unsigned>(), regb<2, 2, float>(), regb<3, 3, float>(), regb<1, 5, double>();
    mc::add("definite_near_float", definite_near<float>, "minors next to the limit");
    mc::add("definite_near_double", definite_near<double>, "");
    mc::add("definite1_float", [](Ctx& c) { definite<1, float>(c, -4, 4); }, "leading minors");
    mc::add("definite2_float", [](Ctx& c) { definite<2, float>(c, -3, 3); }, "");
    mc::add("definite2_double", [](Ctx& c) { definite<2, double>(c, -3, 3); }, "");
    mc::add("definite3_double", [](Ctx& c) { definite<3, double>(c, c.thorough() ? -2 : -1, c.thorough() ? 2 : 1); }, "");
    mc::add("definite3_float", [](Ctx& c) { definite<3, float>(c, 0, c.thorough() ? 3 : 2); }, "");
#endif
}
MC_MAIN()
