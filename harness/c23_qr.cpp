// C23: QR decomposition against Gram-Schmidt with re-orthogonalisation.
#include <vmmlib/qr_decomposition.hpp>
#include "mc/common.hpp"
using namespace h;

namespace
{
typedef long double L;
template <size_t M, size_t N, typename T>
void decompose(Ctx& c, const vmml::Matrix<M, N, T>& a)
{
    const L eps = std::numeric_limits<T>::epsilon();
    // reference: columns of Q, R with positive diagonal (unique)
    // (the process is invariant under scaling a column, so the condition is
    // that of the matrix with columns of length one)
    L q[N][M], r[N][N] = {}, col[N];
    for (size_t j = 0; j < N; ++j)
    {
        L v[M], len0 = 0;
        for (size_t i = 0; i < M; ++i)
        {
            v[i] = a.array[j * M + i];
            len0 += v[i] * v[i];
        }
        col[j] = std::sqrt(len0);
        for (int pass = 0; pass < 3; ++pass)
            for (size_t k = 0; k < j; ++k)
            {
                L s = 0;
                for (size_t i = 0; i < M; ++i)
                    s += q[k][i] * v[i];
                r[k][j] += s;
                for (size_t i = 0; i < M; ++i)
                    v[i] -= s * q[k][i];
            }
        L len = 0;
        for (size_t i = 0; i < M; ++i)
            len += v[i] * v[i];
        len = std::sqrt(len);
        if (!(len > 1e-4L * std::sqrt(len0)) || len0 == 0)
            return; // dependent columns
        r[j][j] = len;
        for (size_t i = 0; i < M; ++i)
            q[j][i] = v[i] / len;
    }
    // condition number from the inverse of R
    L inv = 0;
    for (size_t j = 0; j < N; ++j)
    {
        L x[N] = {};
        for (size_t ii = j + 1; ii-- > 0;)
        {
            x[ii] = ii == j ? 1 : 0; // column j of the inverse of R
            for (size_t k = ii + 1; k <= j; ++k)
                x[ii] -= r[ii][k] * x[k];
            x[ii] /= r[ii][ii];
            inv += x[ii] * x[ii] * col[ii] * col[ii];
        }
    }
    const L cond = std::sqrt(N * inv);
    const L tol = 32 * eps * cond * cond * N;
    if (tol > 0.01L)
        return;
    Guarded<vmml::Matrix<M, M, T>> Q;
    Guarded<vmml::Matrix<N, N, T>> R;
    const int dirt = c.choose(2);
    for (size_t i = 0; i < M * M; ++i)
        Q.o.array[i] = dirt ? std::numeric_limits<T>::quiet_NaN() : T(3 * i + 1);
    for (size_t i = 0; i < N * N; ++i)
        R.o.array[i] = dirt ? std::numeric_limits<T>::infinity() : T(2 * i + 5);
    Guarded<vmml::Matrix<M, N, T>> A(a);
    Frozen<vmml::Matrix<M, N, T>> fa(A.o);
    vmml::qr_decompose_gram_schmidt(A.o, Q.o, R.o);
    c.step();
    c.state(hash_fp(a.array, M * N));
    NOTE(c, "A " << show(a) << " Q " << show(Q.o) << " R " << show(R.o));
    CHK_FROZEN(c, fa);
    CHK_GUARD(c, A);
    CHK_GUARD(c, Q);
    CHK_GUARD(c, R);
    for (size_t j = 0; j < N; ++j)
        for (size_t i = 0; i < N; ++i)
        {
            if (i > j)
                CHK(c, R.o.array[j * N + i] == T(0), "R of " << show(a) << " is not upper triangular: " << show(R.o));
            else
                CHK(c, std::fabs(R.o.array[j * N + i] - r[i][j]) <= tol * col[j], "R(" << i << "," << j << ") of " << show(a) << " is " << R.o.array[j * N + i] << " want " << double(r[i][j]));
            if (i == j)
                CHK(c, R.o.array[j * N + i] > 0, "diagonal of R of " << show(a) << " is not positive");
        }
    for (size_t j = 0; j < M; ++j)
        for (size_t i = 0; i < M; ++i)
            if (j < N)
                CHK(c, std::fabs(Q.o.array[j * M + i] - q[j][i]) <= tol, "Q(" << i << "," << j << ") of " << show(a) << " is " << Q.o.array[j * M + i] << " want " << double(q[j][i]));
            else
                CHK(c, Q.o.array[j * M + i] == T(0), "column " << j << " of Q of " << show(a) << " is not zero");
    // orthonormal, and the product gives A back
    for (size_t j = 0; j < N; ++j)
    {
        for (size_t k = 0; k <= j; ++k)
        {
            L s = 0;
            for (size_t i = 0; i < M; ++i)
                s += L(Q.o.array[j * M + i]) * Q.o.array[k * M + i];
            CHK(c, std::fabs(s - (j == k)) <= 2 * tol, "columns " << k << " and " << j << " of Q of " << show(a) << " have product " << double(s));
        }
        for (size_t i = 0; i < M; ++i)
        {
            L s = 0;
            for (size_t k = 0; k < N; ++k)
                s += L(Q.o.array[k * M + i]) * R.o.array[j * N + k];
            CHK(c, std::fabs(s - a.array[j * M + i]) <= 16 * N * eps * col[j], "Q R of " << show(a) << " has element (" << i << "," << j << ") " << double(s));
        }
    }
}
// scales of the columns: none, tiny, huge, the first, the last or every second
// one tiny, graded
template <typename T>
T scale(int kind, size_t j, size_t n)
{
    const bool f = sizeof(T) == 4;
    const T tiny = T(f ? 1e-14 : 1e-110), huge = T(f ? 1e14 : 1e110);
    switch (kind)
    {
    case 0: return T(1);
    case 1: return tiny;
    case 2: return huge;
    case 3: return j == 0 ? tiny : T(1);
    case 4: return j + 1 == n ? tiny : T(1);
    case 5: return j % 2 ? huge : T(1);
    case 6: return T(std::pow(T(1e-3), T(j)));
    default: return T(1e-6);
    }
}
template <size_t M, size_t N, typename T>
void full(Ctx& c, int n)
{
    static const T al[] = {T(0), T(1), T(-2), T(3), T(-1), T(0.5)};
    vmml::Matrix<M, N, T> a;
    const int s = c.choose(8);
    for (size_t i = 0; i < M * N; ++i)
        a.array[i] = al[c.choose(n)] * scale<T>(s, i / M, N);
    decompose(c, a);
}
// neighbourhoods of three bases for the larger shapes
template <size_t M, size_t N, typename T>
void dev(Ctx& c, int k)
{
    static const T al[] = {T(0), T(-4), T(0.3), T(9), T(1)};
    vmml::Matrix<M, N, T> a;
    const int base = c.choose(3), s = c.choose(8);
    c.deviations(k);
    for (size_t j = 0; j < N; ++j)
        for (size_t i = 0; i < M; ++i)
        {
            const T b = base == 0 ? T(i == j ? 5 : (i + 2 * j) % 3) : base == 1 ? T(i >= j ? 1.5 : -0.5) : T(int((i * 5 + j * 3 + i * j) % 7) - 3);
            const int d = c.dev(6);
            a.array[j * M + i] = (d ? al[d - 1] : b) * scale<T>(s, j, N);
        }
    decompose(c, a);
}
// almost orthogonal, almost triangular, almost normalised columns, and columns
// at every distance from dependence
template <size_t M, size_t N, typename T>
void almost(Ctx& c)
{
    static const std::vector<T> lad = ladder<T>(1);
    vmml::Matrix<M, N, T> a;
    const int base = c.choose(5);
    const size_t at = size_t(c.choose(int(M * N)));
    const T d = c.pick(lad);
    for (size_t j = 0; j < N; ++j)
        for (size_t i = 0; i < M; ++i)
            a.array[j * M + i] = base == 0 ? T(i == j) : base == 1 ? T(i <= j ? 1 : 0) : base == 2 ? T(i == (j + 1) % M ? -2 : 0) : base == 3 ? T(i == 0 ? 1 : i == j ? 0.5 : 0) : T(i == j ? 0.8 : i == j + 1 ? 0.6 : 0);
    if (c.flip())
        a.array[at] += d;
    else
        for (size_t i = 0; i < M; ++i) // the whole column
            a.array[at / M * M + i] *= 1 + d;
    decompose(c, a);
}
template <size_t M, size_t N, typename T>
void scales(Ctx& c)
{
    static const std::vector<T> dec = decades<T>();
    vmml::Matrix<M, N, T> a;
    const int base = c.choose(3), which = c.choose(int(N) + 1);
    const T s = c.pick(dec);
    for (size_t j = 0; j < N; ++j)
        for (size_t i = 0; i < M; ++i)
            a.array[j * M + i] = (base == 0 ? T(i == j ? 5 : (i + 2 * j) % 3) : base == 1 ? T(i >= j ? 1.5 : -0.5) : T(i == j)) * (which == int(N) || which == int(j) ? s : T(1));
    decompose(c, a);
}
#define S(x) std::to_string(x)
template <typename T>
void reg()
{
    const std::string n = tname<T>();
#define FULL(M, N, q, t) mc::add("full_" #M #N + n, [](Ctx& c) { full<M, N, T>(c, c.thorough() ? t : q); }, "complete alphabet")
#define DEV(M, N, q, t) mc::add("dev_" #M #N + n, [](Ctx& c) { dev<M, N, T>(c, c.thorough() ? t : q); }, "bounded neighbourhoods")
    FULL(1, 1, 6, 6);
    FULL(2, 1, 6, 6);
    FULL(3, 1, 6, 6);
    FULL(2, 2, 6, 6);
    FULL(3, 2, 4, 6);
    FULL(4, 2, 3, 4);
    FULL(3, 3, 3, 5);
    FULL(5, 1, 4, 6);
    DEV(4, 3, 2, 4);
    DEV(4, 4, 2, 4);
    DEV(5, 3, 2, 3);
    DEV(5, 5, 2, 3);
    DEV(7, 2, 2, 4);
    DEV(9, 6, 1, 2);
#define NEAR(M, N) mc::add("almost_" #M #N + n, almost<M, N, T>, "almost orthogonal, triangular, dependent"), mc::add("scales_" #M #N + n, scales<M, N, T>, "every scale")
    NEAR(1, 1);
    NEAR(2, 2);
    NEAR(3, 2);
    NEAR(3, 3);
    NEAR(4, 3);
    NEAR(4, 4);
    NEAR(6, 2);
}
} // namespace

REGISTER_BLOCK(c23)
{
#if PART == 0
    reg<float>();
#else
    reg<double>();
#endif
}
MC_MAIN()
