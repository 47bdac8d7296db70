// C09: determinant, minors, cofactors, adjugate and inverse.
#include <vmmlib/matrix.hpp>
#include "mc/common.hpp"
using namespace h;

namespace
{
typedef long double LD;
#define AT(m, R, r, c) (m).array[(c) * (R) + (r)]

// Leibniz sum by permutations, in long double (exact for the integers used)
LD leibniz(const LD* a, int n)
{
    int p[6];
    for (int i = 0; i < n; ++i)
        p[i] = i;
    LD sum = 0;
    do
    {
        int inv = 0;
        LD t = 1;
        for (int i = 0; i < n; ++i)
        {
            t *= a[i * n + p[i]];
            for (int j = i + 1; j < n; ++j)
                inv += p[i] > p[j];
        }
        sum += inv % 2 ? -t : t;
    } while (std::next_permutation(p, p + n));
    return sum;
}
void cut(const LD* a, int n, int row, int col, LD* out)
{
    int k = 0;
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
            if (i != row && j != col)
                out[k++] = a[i * n + j];
}

template <size_t M, typename T>
struct Ref
{
    LD a[M * M], minors[M * M], det, maxa, maxadj;
    explicit Ref(const vmml::Matrix<M, M, T>& m)
    {
        maxa = maxadj = 0;
        for (size_t i = 0; i < M; ++i)
            for (size_t j = 0; j < M; ++j)
            {
                a[i * M + j] = AT(m, M, i, j);
                maxa = std::max(maxa, std::fabs(a[i * M + j]));
            }
        LD sub[M * M];
        for (size_t i = 0; i < M; ++i)
            for (size_t j = 0; j < M; ++j)
            {
                cut(a, M, int(i), int(j), sub);
                minors[i * M + j] = leibniz(sub, M - 1);
                maxadj = std::max(maxadj, std::fabs(minors[i * M + j]));
            }
        det = 0; // first-row expansion of the exact minors
        for (size_t j = 0; j < M; ++j)
            det += (j % 2 ? -1 : 1) * a[j] * minors[j];
    }
    LD adj(size_t i, size_t j) const
    {
        return ((i + j) % 2 ? -1 : 1) * minors[j * M + i];
    }
};

// determinant, minors, cofactors, adjugate; exact: equality is demanded
template <size_t M, typename T>
void check_minors(Ctx& c, const vmml::Matrix<M, M, T>& m, const Ref<M, T>& r, double ulps)
{
    typedef vmml::Matrix<M, M, T> X;
    typedef vmml::Matrix<M - 1, M - 1, T> Y;
    Guarded<Y> gy;
    Guarded<X> gc, ga;
    gc.o = T(13);
    ga.o = T(17);
    c.step(2 + int(M * M));
    LD fact = 1;
    for (size_t i = 1; i + 1 <= M; ++i)
        fact *= r.maxa * i;
    for (size_t i = 0; i < M; ++i)
        for (size_t j = 0; j < M; ++j)
        {
            gy.o = T(11);
            const T got = m.get_minor(gy.o, i, j);
            const T want = T(r.minors[i * M + j]);
            CHK(c, ulps == 0 ? got == want : near(got, want, double(fact), ulps), "minor (" << i << "," << j << ") of " << show(m) << " is " << got << " want " << want);
            LD sub[M * M];
            cut(r.a, M, int(i), int(j), sub);
            for (size_t k = 0; k < M - 1; ++k)
                for (size_t l = 0; l < M - 1; ++l)
                    CHK(c, AT(gy.o, M - 1, k, l) == T(sub[k * (M - 1) + l]), "cut matrix (" << i << "," << j << ") of " << show(m) << " is " << show(gy.o));
        }
    m.get_cofactors(gc.o);
    m.get_adjugate(ga.o);
    for (size_t i = 0; i < M; ++i)
        for (size_t j = 0; j < M; ++j)
        {
            const T w = T(r.adj(i, j));
            CHK(c, ulps == 0 ? AT(gc.o, M, j, i) == w : near(AT(gc.o, M, j, i), w, double(fact), ulps), "cofactors of " << show(m) << " are " << show(gc.o) << " (row " << j << " column " << i << " want " << w << ")");
            CHK(c, ulps == 0 ? AT(ga.o, M, i, j) == w : near(AT(ga.o, M, i, j), w, double(fact), ulps), "adjugate of " << show(m) << " is " << show(ga.o) << " (row " << i << " column " << j << " want " << w << ")");
        }
    // A * adj(A) = det * I
    if (ulps == 0)
        for (size_t i = 0; i < M; ++i)
            for (size_t j = 0; j < M; ++j)
            {
                LD s = 0;
                for (size_t k = 0; k < M; ++k)
                    s += AT(m, M, i, k) * (LD)AT(ga.o, M, k, j);
                CHK(c, s == (i == j ? r.det : 0), "A*adj(A) of " << show(m) << " is not det*I at " << i << "," << j);
            }
    CHK_GUARD(c, gy);
    CHK_GUARD(c, gc);
    CHK_GUARD(c, ga);
}
template <size_t M, typename T>
void check_det(Ctx& c, const vmml::Matrix<M, M, T>& m, const Ref<M, T>& r, double ulps)
{
    const T d1 = m.det(), d2 = vmml::compute_determinant(m);
    LD fact = 1;
    for (size_t i = 1; i <= M; ++i)
        fact *= r.maxa * i;
    c.step(2);
    CHK(c, ulps == 0 ? d1 == T(r.det) && d2 == T(r.det) : near(d1, T(r.det), double(fact), ulps) && near(d2, T(r.det), double(fact), ulps), "det of " << show(m) << " is " << d1 << " / " << d2 << " want " << double(r.det));
    c.outcome(mc::hash_val(d1));
}

// exact: |det| is exact in T, so the comparison with tol is decided exactly
template <size_t M, typename T>
void check_inverse(Ctx& c, const vmml::Matrix<M, M, T>& m, const Ref<M, T>& r, T tol, bool use_default, bool exact)
{
    typedef vmml::Matrix<M, M, T> X;
    Guarded<X> g, g2;
    g.o = T(3);
    g2.o = T(5);
    const T t = use_default ? std::numeric_limits<T>::epsilon() : tol;
    const LD ad = std::fabs(r.det);
    LD fact = 1;
    for (size_t i = 1; i <= M; ++i)
        fact *= r.maxa * i;
    const LD slop = exact ? 0 : 64 * fact * std::numeric_limits<T>::epsilon();
    c.step(2);
    const bool ok = use_default ? m.inverse(g.o) : m.inverse(g.o, tol);
    const bool ok2 = use_default ? vmml::compute_inverse(m, g2.o) : vmml::compute_inverse(m, g2.o, tol);
    CHK(c, ok == ok2, "inverse and compute_inverse disagree on " << show(m));
    if (ad > (LD)t + slop)
        CHK(c, ok, "inverse of " << show(m) << " with |det| " << double(ad) << " > tolerance " << t << " reported as failed");
    if (ad + slop <= (LD)t)
        CHK(c, !ok, "inverse of " << show(m) << " with |det| " << double(ad) << " <= tolerance " << t << " reported as success");
    CHK_GUARD(c, g);
    CHK_GUARD(c, g2);
    if (!ok || ad <= 4 * slop)
        return;
    LD maxinv = r.maxadj / ad;
    const LD scale = maxinv * (1 + r.maxa * maxinv) + (exact ? 0 : maxinv * fact / ad);
    for (size_t i = 0; i < M; ++i)
        for (size_t j = 0; j < M; ++j)
        {
            const T w = T(r.adj(i, j) / r.det);
            CHK(c, near(AT(g.o, M, i, j), w, double(scale), 16) && near(AT(g2.o, M, i, j), w, double(scale), 16), "inverse of " << show(m) << " is " << show(g.o) << " / " << show(g2.o) << " element (" << i << "," << j << ") want " << w);
            // both products
            LD l = 0, q = 0;
            for (size_t k = 0; k < M; ++k)
            {
                l += (LD)AT(g.o, M, i, k) * AT(m, M, k, j);
                q += (LD)AT(m, M, i, k) * AT(g.o, M, k, j);
            }
            const LD e = 64 * std::numeric_limits<T>::epsilon() * M * r.maxa * scale;
            CHK(c, std::fabs(l - (i == j)) <= e && std::fabs(q - (i == j)) <= e, "inverse of " << show(m) << " times the matrix is not the identity");
        }
}
template <size_t M, typename T>
typename std::enable_if<(M >= 2 && M <= 4 && std::is_floating_point<T>::value)>::type inverses(Ctx& c, const vmml::Matrix<M, M, T>& m, const Ref<M, T>& r)
{
    const T ad = T(std::fabs(r.det));
    check_inverse(c, m, r, T(0), false, true);
    check_inverse(c, m, r, T(0), true, true);
    check_inverse(c, m, r, ad, false, true);
    check_inverse(c, m, r, T(ad * T(2)), false, true);
    check_inverse(c, m, r, T(ad / T(2)), false, true);
    check_inverse(c, m, r, std::nextafter(ad, T(0)), false, true);
    check_inverse(c, m, r, std::nextafter(ad, std::numeric_limits<T>::max()), false, true);
}
template <size_t M, typename T>
typename std::enable_if<(M > 4 || !std::is_floating_point<T>::value)>::type inverses(Ctx&, const vmml::Matrix<M, M, T>&, const Ref<M, T>&)
{
}

template <size_t M, typename T>
void all_checks(Ctx& c, const vmml::Matrix<M, M, T>& m, bool inv)
{
    const Ref<M, T> r(m);
    Frozen<vmml::Matrix<M, M, T>> f(m);
    c.state(hash_fp(m.array, M * M));
    NOTE(c, "matrix " << show(m) << " det " << double(r.det));
    check_minors(c, m, r, 0);
    if (M <= 4)
        check_det4(c, m, r);
    if (inv)
        inverses(c, m, r);
    CHK_FROZEN(c, f);
}
template <size_t M, typename T>
typename std::enable_if<(M <= 4)>::type check_det4(Ctx& c, const vmml::Matrix<M, M, T>& m, const Ref<M, T>& r) { check_det(c, m, r, 0); }
template <size_t M, typename T>
typename std::enable_if<(M > 4)>::type check_det4(Ctx&, const vmml::Matrix<M, M, T>&, const Ref<M, T>&) {}

// every matrix over an integer range
template <size_t M, typename T>
void full(Ctx& c, int lo, int hi)
{
    vmml::Matrix<M, M, T> m;
    for (size_t i = 0; i < M * M; ++i)
        m.array[i] = T(lo + c.choose(hi - lo + 1));
    all_checks(c, m, !std::is_integral<T>::value);
}
// int: exact for unimodular matrices
template <size_t M>
void unimodular(Ctx& c, int lo, int hi)
{
    vmml::Matrix<M, M, int> m;
    for (size_t i = 0; i < M * M; ++i)
        m.array[i] = lo + c.choose(hi - lo + 1);
    const Ref<M, int> r(m);
    Guarded<vmml::Matrix<M, M, int>> g;
    g.o = 5;
    c.state(hash_fp(m.array, M * M));
    const bool ok = m.inverse(g.o);
    c.step();
    CHK(c, ok == (r.det != 0), "int inverse of " << show(m) << " reports " << ok);
    if (r.det == 1 || r.det == -1)
        for (size_t i = 0; i < M; ++i)
            for (size_t j = 0; j < M; ++j)
                CHK(c, AT(g.o, M, i, j) == int(r.adj(i, j) / r.det), "int inverse of " << show(m) << " is " << show(g.o));
    CHK_GUARD(c, g);
}
// a well-conditioned integer base with deviations, rows scaled by powers of 2
template <size_t M, typename T>
void scaled(Ctx& c)
{
    static const int base[3][16] = {{1, 2, 0, -1, 0, 1, 3, 2, -2, 1, 1, 0, 1, 0, -1, 2},
                                    {0, 1, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, -1, 0},
                                    {3, 1, -2, 5, -1, 4, 2, 1, 2, -3, 5, 1, 1, 1, 2, -4}};
    const int b = c.choose(3);
    const int how = c.choose(7);
    static const int exps[4] = {-12, 12, -5, 5};
    c.deviations(c.thorough() ? 2 : 1);
    vmml::Matrix<M, M, T> m;
    for (size_t i = 0; i < M; ++i)
        for (size_t j = 0; j < M; ++j)
        {
            const int d = c.dev(7);
            const int v = d ? d - 4 : base[b][i * 4 + j];
            AT(m, M, i, j) = T(v);
        }
    for (size_t i = 0; i < M; ++i)
        for (size_t j = 0; j < M; ++j)
        {
            int e = 0;
            if (how < 4)
                e = exps[how];
            else if (how == 4)
                e = i % 2 ? 6 : -4;
            else if (how == 5)
                e = j == 0 ? -9 : 3;
            AT(m, M, i, j) = std::ldexp(AT(m, M, i, j), e);
        }
    const Ref<M, T> r(m);
    Frozen<vmml::Matrix<M, M, T>> f(m);
    c.state(hash_fp(m.array, M * M));
    NOTE(c, "matrix " << show(m) << " det " << double(r.det));
    check_minors(c, m, r, 0);
    check_det4(c, m, r);
    inverses(c, m, r);
    CHK_FROZEN(c, f);
}
// one entry of a simple matrix moved by every power of two that keeps all
// intermediate results exact: almost diagonal, almost affine, almost a
// rotation, almost symmetric, almost singular
template <size_t M, typename T>
void almost(Ctx& c)
{
    static const int base[8][16] = {{1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1},
                                    {0, -1, 0, 3, 1, 0, 0, -2, 0, 0, 1, 5, 0, 0, 0, 1},
                                    {2, 0, 0, 0, 0, -3, 0, 0, 0, 0, 1, 0, 0, 0, 0, 4},
                                    {2, 1, 0, 1, 1, 3, -1, 0, 0, -1, 1, 2, 1, 0, 2, -2},
                                    {1, 2, 3, 4, 2, 4, 6, 8, 1, 0, 1, 0, 0, 1, 0, 1}, // rank M-1 at most
                                    {1, 2, 0, 3, 0, 1, -1, 2, 0, 0, 3, 1, 0, 0, 0, 2},
                                    {1, 2, 3, 1, -1, 0, 2, 2, 2, 1, 1, 3, 0, 0, 0, 1},
                                    {0, 0, 1, 0, 0, 2, 0, 0, 3, 0, 0, 0, 0, 0, -1, 2}};
    const int b = c.choose(8), at = c.choose(int(M * M)), k = c.choose(std::numeric_limits<T>::digits - 8);
    const bool neg = c.flip(), entry = c.flip();
    vmml::Matrix<M, M, T> m;
    for (size_t i = 0; i < M; ++i)
        for (size_t j = 0; j < M; ++j)
            AT(m, M, i, j) = T(base[b][i * 4 + j]);
    const T d = std::ldexp(neg ? T(-1) : T(1), -k);
    if (entry)
        m.array[at] += d;
    else
        m.array[at] = d;
    all_checks(c, m, true);
}
// every uniform scale at which no determinant overflows
template <size_t M, typename T>
void scales(Ctx& c)
{
    static const int base[3][16] = {{1, 2, 0, -1, 0, 1, 3, 2, -2, 1, 1, 0, 1, 0, -1, 2},
                                    {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1},
                                    {3, 1, -2, 5, -1, 4, 2, 1, 2, -3, 5, 1, 1, 1, 2, -4}};
    const int lim = std::numeric_limits<T>::max_exponent / int(M) - 4;
    const int b = c.choose(3), n = (2 * lim + 1 + 63) / 64, e0 = n > 1 ? c.choose(n) * 64 : 0;
    const int e = e0 + c.choose(std::min(64, 2 * lim + 1 - e0)) - lim;
    const int only = c.choose(int(M) + 1); // all rows, or one of them
    vmml::Matrix<M, M, T> m;
    for (size_t i = 0; i < M; ++i)
        for (size_t j = 0; j < M; ++j)
            AT(m, M, i, j) = std::ldexp(T(base[b][i * 4 + j]), only == int(M) || only == int(i) ? e : 0);
    all_checks(c, m, true);
}
// generic real entries: everything within rounding
template <size_t M, typename T>
void generic(Ctx& c)
{
    static const double val[9] = {0.1, -0.7, 3.14159, 1e-3, -42.42, 0.333, 0, 1, -2.2};
    const int b = c.choose(3);
    c.deviations(c.thorough() ? 3 : 2);
    vmml::Matrix<M, M, T> m;
    for (size_t i = 0; i < M; ++i)
        for (size_t j = 0; j < M; ++j)
        {
            const int d = c.dev(9);
            const double dflt = b == 0 ? (i == j ? 1.7 : 0.3 * std::sin(double(3 * i + j)))
                                       : b == 1 ? std::cos(double(i * j + i + 2 * j)) : (i + j + 1 == M ? -2.3 : (i == j ? 0.9 : 0));
            AT(m, M, i, j) = T(d ? val[d - 1] : dflt);
        }
    const Ref<M, T> r(m);
    Frozen<vmml::Matrix<M, M, T>> f(m);
    c.state(hash_fp(m.array, M * M));
    NOTE(c, "matrix " << show(m) << " det " << double(r.det));
    check_minors(c, m, r, 16);
    check_det(c, m, r, 16);
    static const double tols[6] = {0, 1e-12, 1e-3, 0.5, 10, 1e6};
    for (int i = 0; i < 6; ++i)
        check_inverse(c, m, r, T(tols[i]), false, false);
    check_inverse(c, m, r, T(0), true, false);
    CHK_FROZEN(c, f);
}
// 5x5: minors, cofactors and adjugate (no closed form determinant exists)
template <typename T>
void five(Ctx& c)
{
    const int b = c.choose(3);
    c.deviations(b == 2 ? (c.thorough() ? 6 : 5) : (c.thorough() ? 3 : 2));
    vmml::Matrix<5, 5, T> m;
    for (size_t i = 0; i < 25; ++i)
    {
        if (b == 2) // permutation-like sparse matrices decide every term
        {
            const int d = i % 6 == 0 ? c.dev(2) : (i * 7 % 3 ? c.dev(2) : 0);
            m.array[i] = T(i % 6 == 0 ? 1 - d : d);
        }
        else
        {
            const int d = c.dev(6);
            m.array[i] = T(d ? d - 3 : (b ? int(i * 7 % 5) - 2 : (i % 6 == 0 ? 2 : int(i % 4) - 1)));
        }
    }
    const Ref<5, T> r(m);
    Frozen<vmml::Matrix<5, 5, T>> f(m);
    c.state(hash_fp(m.array, 25));
    NOTE(c, "matrix " << show(m));
    check_minors(c, m, r, 0);
    CHK_FROZEN(c, f);
}
template <typename T>
void one(Ctx& c)
{
    const std::vector<T> a = nonan(Alpha<T>::wide());
    vmml::Matrix<1, 1, T> m;
    m.array[0] = c.pick(a);
    CHK(c, m.det() == m.array[0] && vmml::compute_determinant(m) == m.array[0], "1x1 determinant");
    c.step(2);
    c.state(mc::hash_val(m.array[0]));
}
} // namespace

REGISTER_BLOCK(c09)
{
#if PART == 0
    mc::add("one_float", one<float>, "1x1 determinant");
    mc::add("one_int", one<int>, "1x1 determinant");
    mc::add("full2_float", [](Ctx& c) { full<2, float>(c, -3, 3); }, "all 2x2 over -3..3");
    mc::add("full2_double", [](Ctx& c) { full<2, double>(c, -3, 3); }, "all 2x2 over -3..3");
    mc::add("full2_int", [](Ctx& c) { full<2, int>(c, -4, 4); }, "all 2x2 over -4..4");
    mc::add("full3_double", [](Ctx& c) { full<3, double>(c, c.thorough() ? -2 : -1, c.thorough() ? 2 : 1); }, "all 3x3");
    mc::add("full3_float", [](Ctx& c) { full<3, float>(c, -1, 1); }, "all 3x3");
    mc::add("full3_int", [](Ctx& c) { full<3, int>(c, -1, c.thorough() ? 2 : 1); }, "all 3x3");
    mc::add("unimodular2", [](Ctx& c) { unimodular<2>(c, -4, 4); }, "integer inverses");
    mc::add("unimodular3", [](Ctx& c) { unimodular<3>(c, -1, 1); }, "integer inverses");
    mc::add("unimodular4", [](Ctx& c) { unimodular<4>(c, 0, 1); }, "integer inverses");
#elif PART == 1
    mc::add("full4_double", [](Ctx& c) { full<4, double>(c, c.thorough() ? -1 : 0, 1); }, "all 4x4");
    mc::add("full4_float", [](Ctx& c) { full<4, float>(c, 0, 1); }, "all 4x4");
    mc::add("full4_int", [](Ctx& c) { full<4, int>(c, 0, 1); }, "all 4x4");
#elif PART == 2
    mc::add("scaled2_float", scaled<2, float>, "power of two scalings");
    mc::add("scaled2_double", scaled<2, double>, "");
    mc::add("scaled3_float", scaled<3, float>, "");
    mc::add("scaled3_double", scaled<3, double>, "");
    mc::add("scaled4_float", scaled<4, float>, "");
    mc::add("scaled4_double", scaled<4, double>, "");
    mc::add("five_double", five<double>, "5x5 minors, cofactors, adjugate");
    mc::add("five_int", five<int>, "");
#elif PART == 4
    mc::add("almost2_float", almost<2, float>, "one entry off by every power of two");
    mc::add("almost2_double", almost<2, double>, "");
    mc::add("almost3_float", almost<3, float>, "");
    mc::add("almost3_double", almost<3, double>, "");
    mc::add("almost4_float", almost<4, float>, "");
    mc::add("almost4_double", almost<4, double>, "");
    mc::add("scales2_float", scales<2, float>, "every scale");
    mc::add("scales2_double", scales<2, double>, "");
    mc::add("scales3_float", scales<3, float>, "");
    mc::add("scales3_double", scales<3, double>, "");
    mc::add("scales4_float", scales<4, float>, "");
    mc::add("scales4_double", scales<4, double>, "");
#else
    mc::add("generic2_float", generic<2, float>, "real entries");
    mc::add("generic2_double", generic<2, double>, "");
    mc::add("generic3_float", generic<3, float>, "");
    mc::add("generic3_double", generic<3, double>, "");
    mc::add("generic4_float", generic<4, float>, "");
    mc::add("generic4_double", generic<4, double>, "");
#endif
}
MC_MAIN()
