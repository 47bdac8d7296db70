// C10: Kronecker, Khatri-Rao, direct sum, diagonal, covariance, tensor,
// convolution, DCT and constant fills.
#include <vmmlib/matrix.hpp>
#include "mc/common.hpp"
using namespace h;

namespace
{
typedef long double LD;
#define AT(m, R, r, c) (m).array[(c) * (R) + (r)]

template <typename T>
std::vector<T> letters(bool special)
{
    if (std::is_floating_point<T>::value && special)
        return {T(0), T(1), T(-1), T(2.5), std::numeric_limits<T>::infinity()};
    if (std::is_floating_point<T>::value)
        return {T(0), T(1), T(-1), T(2.5)};
    if (std::is_signed<T>::value)
        return {T(0), T(1), T(-1), T(3)};
    return {T(0), T(1), T(3), T(5)};
}
// position-coded content (distinct primes-like values), small enough that all
// products and sums stay exact
template <typename T>
T code(int kind, size_t i)
{
    static const int p[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97};
    const int v = kind ? p[(i + 7) % 25] : p[i % 25];
    return T(std::is_signed<T>::value && i % 3 == 1 ? -v : v);
}
template <typename T>
void content(Ctx& c, T* p, size_t n, int kind, bool special = true)
{
    static const std::vector<T> with = letters<T>(true), without = letters<T>(false);
    const std::vector<T>& a = special ? with : without;
    for (size_t i = 0; i < n; ++i)
    {
        const int d = c.dev(int(a.size()) + 1);
        p[i] = d ? a[d - 1] : code<T>(kind, i);
    }
}
// values that need all bits of the type, and a partner which keeps the
// products inside it
template <typename T>
void full_width(T* p, size_t n)
{
    for (size_t i = 0; i < n; ++i)
        p[i] = widen(p[i]);
}
template <typename T>
void partner(T* p, size_t n)
{
    for (size_t i = 0; i < n; ++i)
        p[i] = T(i % 3 == 0 ? 1 : i % 3 == 1 ? 2 : std::is_signed<T>::value ? -1 : 3);
}
template <typename T>
T conv(LD v)
{
    return std::is_floating_point<T>::value ? T(v) : T((long long)v);
}

template <size_t M, size_t N, size_t O, size_t P, typename T>
void kron(Ctx& c)
{
    typedef vmml::Matrix<M, N, T> A;
    typedef vmml::Matrix<O, P, T> B;
    typedef vmml::Matrix<M * O, N * P, T> R;
    c.deviations(M * N + O * P > 100 ? 1 : c.thorough() ? 3 : 2);
    Guarded<A> ga;
    Guarded<B> gb;
    const int wide = c.choose(3);
    if (wide || M * N + O * P > 18)
        c.deviations(1);
    content(c, ga.o.array, M * N, 0);
    content(c, gb.o.array, O * P, 1);
    if (wide == 1)
        full_width(ga.o.array, M * N), partner(gb.o.array, O * P);
    if (wide == 2)
        full_width(gb.o.array, O * P), partner(ga.o.array, M * N);
    Frozen<A> fa(ga.o);
    Frozen<B> fb(gb.o);
    Guarded<R> g;
    g.o = T(99);
    const A& a = ga.o;
    a.kronecker_product(gb.o, g.o);
    c.step();
    c.state(hash_fp(ga.o.array, M * N, hash_fp(gb.o.array, O * P)));
    for (size_t r = 0; r < M * O; ++r)
        for (size_t s = 0; s < N * P; ++s)
        {
            const T w = T(AT(ga.o, M, r / O, s / P) * AT(gb.o, O, r % O, s % P));
            CHK(c, same(AT(g.o, M * O, r, s), w), "kronecker " << M << "x" << N << " (x) " << O << "x" << P << " of " << show(ga.o) << " and " << show(gb.o) << " at (" << r << "," << s << ") is " << +AT(g.o, M * O, r, s) << " want " << +w);
        }
    CHK_FROZEN(c, fa);
    CHK_FROZEN(c, fb);
    CHK_GUARD(c, ga);
    CHK_GUARD(c, gb);
    CHK_GUARD(c, g);
}
template <size_t M, size_t N, size_t O, typename T>
void khatri(Ctx& c)
{
    typedef vmml::Matrix<M, N, T> A;
    typedef vmml::Matrix<O, N, T> B;
    typedef vmml::Matrix<M * O, N, T> R;
    c.deviations(M * N + O * N > 100 ? 1 : c.thorough() ? 3 : 2);
    Guarded<A> ga;
    Guarded<B> gb;
    const int wide = c.choose(3);
    if (wide || M * N + O * N > 18)
        c.deviations(1);
    content(c, ga.o.array, M * N, 0);
    content(c, gb.o.array, O * N, 1);
    if (wide == 1)
        full_width(ga.o.array, M * N), partner(gb.o.array, O * N);
    if (wide == 2)
        full_width(gb.o.array, O * N), partner(ga.o.array, M * N);
    Frozen<A> fa(ga.o);
    Frozen<B> fb(gb.o);
    Guarded<R> g;
    g.o = T(99);
    const A& a = ga.o;
    a.khatri_rao_product(gb.o, g.o);
    c.step();
    c.state(hash_fp(ga.o.array, M * N, hash_fp(gb.o.array, O * N)));
    for (size_t r = 0; r < M * O; ++r)
        for (size_t s = 0; s < N; ++s)
        {
            const T w = T(AT(ga.o, M, r / O, s) * AT(gb.o, O, r % O, s));
            CHK(c, same(AT(g.o, M * O, r, s), w), "khatri_rao " << M << "x" << N << " and " << O << "x" << N << " of " << show(ga.o) << " and " << show(gb.o) << " at (" << r << "," << s << ") is " << +AT(g.o, M * O, r, s) << " want " << +w);
        }
    CHK_FROZEN(c, fa);
    CHK_FROZEN(c, fb);
    CHK_GUARD(c, g);
}
template <size_t O, size_t P, size_t Q, size_t R, typename T>
void dsum(Ctx& c)
{
    typedef vmml::Matrix<O, P, T> A;
    typedef vmml::Matrix<Q, R, T> B;
    typedef vmml::Matrix<O + Q, P + R, T> X;
    c.deviations(1);
    Guarded<A> ga;
    Guarded<B> gb;
    content(c, ga.o.array, O * P, 0);
    content(c, gb.o.array, Q * R, 1);
    if (c.flip())
        full_width(ga.o.array, O * P), full_width(gb.o.array, Q * R);
    Frozen<A> fa(ga.o);
    Frozen<B> fb(gb.o);
    Guarded<X> g;
    g.o = T(99);
    g.o.direct_sum(ga.o, gb.o);
    c.step();
    c.state(hash_fp(ga.o.array, O * P, hash_fp(gb.o.array, Q * R)));
    for (size_t r = 0; r < O + Q; ++r)
        for (size_t s = 0; s < P + R; ++s)
        {
            const T w = r < O && s < P ? AT(ga.o, O, r, s) : r >= O && s >= P ? AT(gb.o, Q, r - O, s - P) : T(0);
            CHK(c, AT(g.o, O + Q, r, s) == w, "direct_sum " << O << "x" << P << " + " << Q << "x" << R << " at (" << r << "," << s << ") is " << +AT(g.o, O + Q, r, s) << " want " << +w);
        }
    CHK_FROZEN(c, fa);
    CHK_FROZEN(c, fb);
    CHK_GUARD(c, g);
}
template <size_t M, typename T>
void diagonal(Ctx& c)
{
    c.deviations(M > 40 ? 1 : 2);
    vmml::Vector<M, T> v;
    content(c, v.array, M, 0);
    if (c.flip())
        full_width(v.array, M);
    Frozen<vmml::Vector<M, T>> fv(v);
    Guarded<vmml::Matrix<M, M, T>> g, z, i, f, i2;
    g.o = T(99);
    g.o.diag(v);
    z.o = T(9);
    z.o.zero();
    i.o = T(7);
    i2.o = T(8);
    vmml::set_to_identity_functor<vmml::Matrix<M, M, T>>()(i.o);
    vmml::set_to_zero_functor<vmml::Matrix<M, M, T>>()(i2.o);
    f.o.fill(v.array[0]);
    c.step(5);
    c.state(hash_fp(v.array, M));
    for (size_t r = 0; r < M; ++r)
        for (size_t s = 0; s < M; ++s)
        {
            CHK(c, AT(g.o, M, r, s) == (r == s ? v.array[r] : T(0)), "diag(" << show(v) << ") is " << show(g.o));
            CHK(c, AT(z.o, M, r, s) == T(0) && AT(i2.o, M, r, s) == T(0), "zero");
            CHK(c, AT(i.o, M, r, s) == T(r == s), "identity functor gives " << show(i.o));
            CHK(c, AT(f.o, M, r, s) == v.array[0], "fill");
            CHK(c, AT((vmml::Matrix<M, M, T>::IDENTITY), M, r, s) == T(r == s) && AT((vmml::Matrix<M, M, T>::ZERO), M, r, s) == T(0), "IDENTITY/ZERO constants");
        }
    CHK_FROZEN(c, fv);
    CHK_GUARD(c, g);
    CHK_GUARD(c, z);
    CHK_GUARD(c, i);
    CHK_GUARD(c, i2);
    CHK_GUARD(c, f);
}
template <size_t M, size_t N, typename T>
void covariance_tensor(Ctx& c)
{
    typedef vmml::Matrix<M, N, T> X;
    c.deviations(M * N > 100 ? 1 : c.thorough() ? 3 : 2);
    const int which = c.choose(2);
    Guarded<X> g;
    if (which)
    {
        content(c, g.o.array, M * N, 0);
        const bool wide = std::is_floating_point<T>::value && c.flip();
        if (wide)
            full_width(g.o.array, M * N);
        Frozen<X> f(g.o);
        Guarded<vmml::Matrix<M, M, T>> gc;
        gc.o = T(99);
        const X& x = g.o;
        x.symmetric_covariance(gc.o);
        c.step();
        c.state(hash_fp(g.o.array, M * N));
        for (size_t r = 0; r < M; ++r)
            for (size_t s = 0; s < M; ++s)
            {
                LD w = 0, mag = 0;
                for (size_t k = 0; k < N; ++k)
                {
                    w += (LD)AT(g.o, M, r, k) * AT(g.o, M, s, k);
                    mag += std::fabs((LD)AT(g.o, M, r, k) * AT(g.o, M, s, k));
                }
                CHK(c, same(AT(gc.o, M, r, s), conv<T>(w)) || (wide && std::fabs(AT(gc.o, M, r, s) - w) <= (N + 1) * mag * std::numeric_limits<T>::epsilon()), "symmetric_covariance of " << M << "x" << N << " " << show(g.o) << " is " << show(gc.o) << " at (" << r << "," << s << ") want " << double(w));
            }
        CHK_FROZEN(c, f);
        CHK_GUARD(c, gc);
    }
    else
    {
        vmml::Vector<N, T> u;
        vmml::Vector<M, T> v;
        content(c, u.array, N, 0);
        content(c, v.array, M, 1);
        const int wide = c.choose(3);
        if (wide == 1)
            full_width(u.array, N), partner(v.array, M);
        if (wide == 2)
            full_width(v.array, M), partner(u.array, N);
        Frozen<vmml::Vector<N, T>> fu(u);
        Frozen<vmml::Vector<M, T>> fv(v);
        g.o = T(99);
        g.o.tensor(u, v);
        c.step();
        c.state(hash_fp(u.array, N, hash_fp(v.array, M)));
        for (size_t r = 0; r < M; ++r)
            for (size_t s = 0; s < N; ++s)
                CHK(c, same(AT(g.o, M, r, s), T(u.array[s] * v.array[r])), "tensor of " << show(u) << " and " << show(v) << " is " << show(g.o));
        CHK_FROZEN(c, fu);
        CHK_FROZEN(c, fv);
        CHK_GUARD(c, g);
    }
}
template <typename T>
void tensor34(Ctx& c)
{
    c.deviations(3);
    vmml::Vector<3, T> u, v;
    content(c, u.array, 3, 0);
    content(c, v.array, 3, 1);
    const int wide = c.choose(3);
    if (wide == 1)
        full_width(u.array, 3), partner(v.array, 3);
    if (wide == 2)
        full_width(v.array, 3), partner(u.array, 3);
    Guarded<vmml::Matrix<4, 4, T>> g;
    g.o = T(99);
    g.o.tensor(u, v);
    c.step();
    c.state(hash_fp(u.array, 3, hash_fp(v.array, 3)));
    for (size_t r = 0; r < 4; ++r)
        for (size_t s = 0; s < 4; ++s)
        {
            const T w = T((s < 3 ? u.array[s] : T(1)) * (r < 3 ? v.array[r] : T(1)));
            CHK(c, same(AT(g.o, 4, r, s), w), "homogeneous tensor of " << show(u) << " and " << show(v) << " is " << show(g.o));
        }
    CHK_GUARD(c, g);
}
template <size_t M, size_t N, size_t U, size_t V, typename T>
void convolution(Ctx& c)
{
    typedef vmml::Matrix<M, N, T> X;
    typedef vmml::Matrix<U, V, T> K;
    Guarded<X> g;
    Guarded<K> gk;
    const int kind = c.choose(3);
    c.deviations(kind ? (c.thorough() && M * N < 100 ? 2 : 1) : 0);
    content(c, g.o.array, M * N, 0, false);
    if (kind == 0)
    {
        const size_t at = size_t(c.choose(int(U * V)));
        for (size_t i = 0; i < U * V; ++i)
            gk.o.array[i] = T(i == at);
        if (c.flip())
            full_width(g.o.array, M * N);
    }
    else
    {
        content(c, gk.o.array, U * V, 1, false);
        if (kind == 2)
        {
            // impulse image: the result is the mirrored kernel
            const size_t at = size_t(c.choose(int(M * N)));
            for (size_t i = 0; i < M * N; ++i)
                g.o.array[i] = T(i == at ? 2 : 0);
        }
    }
    Frozen<K> fk(gk.o);
    const X src(g.o);
    c.state(hash_fp(g.o.array, M * N, hash_fp(gk.o.array, U * V)));
    g.o.convolve(gk.o);
    c.step();
    for (int y = 0; y < int(M); ++y)
        for (int x = 0; x < int(N); ++x)
        {
            LD w = 0;
            for (int j = 0; j < int(U); ++j)
                for (int i = 0; i < int(V); ++i)
                {
                    const int sy = std::min(std::max(y + j - int(U / 2), 0), int(M) - 1);
                    const int sx = std::min(std::max(x + i - int(V / 2), 0), int(N) - 1);
                    w += (LD)AT(gk.o, U, j, i) * AT(src, M, sy, sx);
                }
            CHK(c, AT(g.o, M, y, x) == conv<T>(w), M << "x" << N << " " << show(src) << " convolved with " << U << "x" << V << " " << show(gk.o) << " is " << show(g.o) << " at (" << y << "," << x << ") want " << double(w));
        }
    CHK_FROZEN(c, fk);
    CHK_GUARD(c, g);
    CHK_GUARD(c, gk);
}
template <size_t M, typename T>
void dct(Ctx& c)
{
    Guarded<vmml::Matrix<M, M, T>> g;
    g.o = T(c.choose(3) - 1);
    g.o.set_dct();
    c.step();
    c.state(M);
    for (size_t r = 0; r < M; ++r)
        for (size_t s = 0; s < M; ++s)
        {
            const LD w = (r ? std::sqrt(LD(2) / M) : std::sqrt(LD(1) / M)) * std::cos(LD(M_PIl) * (2 * s + 1) * r / (2 * M));
            CHK(c, near(AT(g.o, M, r, s), T(w), 1, 64), "DCT " << M << " at (" << r << "," << s << ") is " << AT(g.o, M, r, s) << " want " << T(w));
            LD d = 0, e = 0;
            for (size_t k = 0; k < M; ++k)
            {
                d += (LD)AT(g.o, M, r, k) * AT(g.o, M, s, k);
                e += (LD)AT(g.o, M, k, r) * AT(g.o, M, k, s);
            }
            const LD tol = 64 * M * std::numeric_limits<T>::epsilon();
            CHK(c, std::fabs(d - (r == s)) < tol && std::fabs(e - (r == s)) < tol, "DCT matrix of size " << M << " is not orthonormal");
        }
    CHK_GUARD(c, g);
}
#define S(x) std::to_string(x)
template <size_t M, size_t N, size_t O, size_t P, typename T>
void r_k()
{
    mc::add("kronecker_" + S(M) + S(N) + S(O) + S(P) + tname<T>(), kron<M, N, O, P, T>, "Kronecker product");
    mc::add("direct_sum_" + S(M) + S(N) + S(O) + S(P) + tname<T>(), dsum<M, N, O, P, T>, "direct sum");
}
template <size_t M, size_t N, typename T>
void r_k2()
{
    r_k<M, N, 1, 1, T>(), r_k<M, N, 1, 2, T>(), r_k<M, N, 1, 3, T>(), r_k<M, N, 2, 1, T>(), r_k<M, N, 2, 2, T>();
    r_k<M, N, 2, 3, T>(), r_k<M, N, 3, 1, T>(), r_k<M, N, 3, 2, T>(), r_k<M, N, 3, 3, T>();
}
template <size_t M, size_t N, size_t O, typename T>
void r_h()
{
    mc::add("khatri_rao_" + S(M) + S(N) + S(O) + tname<T>(), khatri<M, N, O, T>, "Khatri-Rao product");
}
template <size_t M, size_t N, typename T>
void r_h2()
{
    r_h<M, N, 1, T>(), r_h<M, N, 2, T>(), r_h<M, N, 3, T>(), r_h<M, N, 4, T>();
}
template <size_t M, typename T>
void r_h3()
{
    r_h2<M, 1, T>(), r_h2<M, 2, T>(), r_h2<M, 3, T>();
}
template <size_t M, size_t N, typename T>
void r_t()
{
    mc::add("covariance_tensor_" + S(M) + S(N) + tname<T>(), covariance_tensor<M, N, T>, "A*A^T and u v^T");
}
template <size_t M, typename T>
void r_t2()
{
    r_t<M, 1, T>(), r_t<M, 2, T>(), r_t<M, 3, T>(), r_t<M, 4, T>(), r_t<M, 5, T>();
}
template <size_t M, size_t N, size_t U, size_t V, typename T>
void r_c()
{
    mc::add("convolve_" + S(M) + S(N) + "_" + S(U) + S(V) + tname<T>(), convolution<M, N, U, V, T>, "convolution with repeated borders");
}
template <size_t M, size_t N, typename T>
void r_c2()
{
    r_c<M, N, 1, 1, T>(), r_c<M, N, 1, 2, T>(), r_c<M, N, 1, 3, T>(), r_c<M, N, 2, 1, T>(), r_c<M, N, 2, 2, T>(), r_c<M, N, 2, 3, T>();
    r_c<M, N, 3, 1, T>(), r_c<M, N, 3, 2, T>(), r_c<M, N, 3, 3, T>(), r_c<M, N, 3, 5, T>(), r_c<M, N, 5, 3, T>(), r_c<M, N, 4, 4, T>();
}
// larger right operands, right operands taller and wider than the left one
template <size_t M, size_t N, typename T>
void r_big()
{
    r_k<M, N, 4, 3, T>(), r_k<M, N, 3, 4, T>(), r_k<M, N, 6, 2, T>(), r_k<M, N, 2, 6, T>();
    r_k<M, N, 5, 4, T>(), r_k<M, N, 4, 7, T>(), r_k<M, N, 8, 1, T>(), r_k<M, N, 1, 8, T>();
}
// every size
template <size_t M, size_t E, typename T>
struct Sizes
{
    static void reg()
    {
        mc::add("size_dct_" + S(M) + tname<T>(), dct<M, T>, "");
        mc::add("size_diag_" + S(M) + tname<T>(), diagonal<M, T>, "");
        r_h<2, M, 3, T>(), r_h<M, 2, 3, T>(), r_h<2, 2, M, T>();
        r_t<2, M, T>(), r_t<M, 2, T>();
        Sizes<M + 1, E, T>::reg();
    }
};
template <size_t E, typename T>
struct Sizes<E, E, T>
{
    static void reg() {}
};
} // namespace

REGISTER_BLOCK(c10)
{
#if PART == 0
    r_k2<1, 1, int>(), r_k2<1, 2, int>(), r_k2<1, 3, int>(), r_k2<2, 1, int>(), r_k2<2, 2, int>();
#elif PART == 1
    r_k2<2, 3, int>(), r_k2<3, 1, int>(), r_k2<3, 2, int>(), r_k2<3, 3, int>();
#elif PART == 2
    r_h3<1, int>(), r_h3<2, int>(), r_h3<3, int>(), r_h3<4, int>();
    r_h<2, 5, 3, float>(), r_h<3, 2, 2, unsigned char>(), r_h<5, 2, 4, double>();
    r_k<2, 2, 2, 3, long long>(), r_h<2, 3, 2, long long>(), r_k<5, 1, 1, 4, int>(), r_h<7, 2, 3, int>(), r_h<2, 6, 2, int>(), r_k<2, 5, 2, 2, int>();
    r_k<2, 3, 3, 2, float>(), r_k<4, 1, 2, 4, float>(), r_k<3, 2, 2, 4, double>(), r_k<2, 2, 2, 2, unsigned char>(), r_k<2, 1, 3, 2, unsigned>();
#elif PART == 3
    r_t2<1, int>(), r_t2<2, int>(), r_t2<3, int>(), r_t2<4, int>();
    r_t<5, 3, float>(), r_t<4, 4, float>(), r_t<3, 4, double>(), r_t<2, 3, unsigned>(), r_t<3, 3, float>(), r_t<6, 2, double>(), r_t<2, 3, long long>(), r_t<7, 8, int>(), r_t<9, 1, double>();
    mc::add("tensor34_int", tensor34<int>, "homogeneous tensor of two 3-vectors");
    mc::add("tensor34_float", tensor34<float>, "");
    mc::add("diag_1_int", diagonal<1, int>, "diagonal and constant fills");
    mc::add("diag_2_float", diagonal<2, float>, "");
    mc::add("diag_3_double", diagonal<3, double>, "");
    mc::add("diag_4_float", diagonal<4, float>, "");
    mc::add("diag_5_int", diagonal<5, int>, "");
    mc::add("diag_4_uchar", diagonal<4, unsigned char>, "");
    mc::add("dct_1_float", dct<1, float>, "DCT orthonormal");
    mc::add("dct_2_float", dct<2, float>, "");
    mc::add("dct_3_float", dct<3, float>, "");
    mc::add("dct_4_double", dct<4, double>, "");
    mc::add("dct_5_double", dct<5, double>, "");
    mc::add("dct_8_float", dct<8, float>, "");
    mc::add("dct_16_double", dct<16, double>, "");
    mc::add("dct_6_double", dct<6, double>, "");
    mc::add("dct_7_float", dct<7, float>, "");
    mc::add("dct_12_double", dct<12, double>, "");
    mc::add("dct_33_double", dct<33, double>, "");
#elif PART == 4
    r_c2<1, 1, int>(), r_c2<1, 4, int>(), r_c2<4, 1, int>();
#elif PART == 5
    r_c2<2, 3, int>(), r_c2<3, 2, int>(), r_c2<3, 3, int>();
#elif PART == 6
    r_c2<3, 5, float>(), r_c2<5, 3, double>();
#elif PART == 8
    r_big<1, 3, int>(), r_big<2, 2, int>();
#elif PART == 9
    r_big<3, 1, int>(), r_big<2, 5, int>();
#elif PART == 10
    Sizes<5, 20, double>::reg();
#elif PART == 12
    Sizes<32, 33, double>::reg();
    Sizes<64, 65, float>::reg();
    r_h<17, 16, 9, int>(), r_t<16, 17, int>(), r_k<6, 7, 5, 6, int>(), r_k<1, 33, 2, 9, float>(), r_k<20, 2, 9, 2, int>();
    r_t<9, 33, float>();
    r_c<18, 17, 3, 3, int>(), r_c<33, 4, 5, 3, float>(), r_c<2, 40, 1, 9, int>();
    mc::add("diag_100_int", diagonal<100, int>, "");
#elif PART == 11
    Sizes<5, 18, float>::reg();
    r_c<12, 3, 5, 3, int>(), r_c<3, 12, 3, 5, int>(), r_c<10, 10, 3, 3, int>(), r_c<16, 4, 9, 1, int>(), r_c<4, 20, 1, 9, int>(), r_c<8, 8, 7, 7, double>();
#else
    r_c2<4, 4, float>(), r_c<6, 7, 3, 3, int>(), r_c<9, 5, 7, 3, int>(), r_c<7, 2, 5, 3, unsigned>(), r_c<1, 2, 1, 7, int>(), r_c<2, 2, 5, 5, int>(), r_c<3, 1, 7, 2, float>(), r_c<1, 1, 6, 6, int>(), r_c<2, 2, 7, 6, double>(), r_c<3, 2, 1, 9, int>(), r_c<3, 4, 3, 2, unsigned>();
#endif
}
MC_MAIN()
