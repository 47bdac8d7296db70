// C08: matrix and matrix-vector arithmetic.
#include <vmmlib/matrix.hpp>
#include "mc/common.hpp"
using namespace h;

namespace
{
template <typename T>
std::vector<T> letters()
{
    if (std::is_floating_point<T>::value)
        return {T(0), T(1), T(-1), T(2), T(0.5)};
    if (std::is_signed<T>::value)
        return {T(0), T(1), T(-1), T(2), T(-3)};
    return {T(0), T(1), T(2), T(200), T(7)};
}
template <typename T>
T wrap(long double s)
{
    if (std::is_floating_point<T>::value)
        return T(s);
    return T((long long)s);
}
#define AT(m, R, r, c) (m).array[(c) * (R) + (r)]

template <size_t M, size_t N, typename T>
void fill_m(Ctx& c, vmml::Matrix<M, N, T>& m, int kind, double full)
{
    fill(c, m.array, M * N, letters<T>(), kind, full);
}

// |got - want| within the rounding of a sum of n terms with magnitude sum m
template <typename T>
bool rounded(T got, long double want, long double m, size_t n)
{
    return std::fabs((long double)got - want) <= (n + 1) * (long double)std::numeric_limits<T>::epsilon() * m;
}

// every product form: left MxP, right PxN
template <size_t M, size_t P, size_t N, typename T>
void product(Ctx& c)
{
    typedef vmml::Matrix<M, P, T> A;
    typedef vmml::Matrix<P, N, T> B;
    typedef vmml::Matrix<M, N, T> R;
    const int kind = c.choose(5);
    c.deviations(kind > 2 || M * P + P * N > 150 ? 1 : c.thorough() ? 3 : 2);
    Guarded<A> ga;
    Guarded<B> gb;
    A& a = ga.o;
    B& b = gb.o;
    const double n = double(M * P + P * N);
    const double full = std::pow(5., n) <= 4000 ? 1e9 : 1;
    if (kind == 2)
    {
        if (full > 1)
            return;
        a = T(0);
        b = T(0);
        // one or two non-zeros in each: decides every coefficient
        for (size_t i = 0; i < M * P; ++i)
            if (c.dev(2))
                a.array[i] = T(i + 2);
        for (size_t i = 0; i < P * N; ++i)
            if (c.dev(2))
                b.array[i] = T(i + 3);
    }
    else if (kind > 2)
    {
        // one operand with values that need all bits of the type
        fill_m(c, a, kind == 3 ? 1 : 3, 1);
        fill_m(c, b, kind == 3 ? 3 : 1, 1);
        if (kind == 3)
            for (size_t i = 0; i < M * P; ++i)
                a.array[i] = widen(a.array[i]);
        else
            for (size_t i = 0; i < P * N; ++i)
                b.array[i] = widen(b.array[i]);
    }
    else
    {
        fill_m(c, a, kind, full);
        fill_m(c, b, 1 - kind, full);
    }
    Frozen<A> fa(a);
    Frozen<B> fb(b);
    Guarded<R> gr, gf;
    gr.o = T(13);
    gf.o = T(17);
    NOTE(c, "product " << show(a) << " * " << show(b));
    c.state(hash_fp(a.array, M * P, hash_fp(b.array, P * N)));
    c.step(3);
    const A& ca = a;
    const R ro = ca * b;
    gr.o.multiply(a, b);
    vmml::multiply(a, b, gf.o);
    for (size_t r = 0; r < M; ++r)
        for (size_t s = 0; s < N; ++s)
        {
            long double w = 0, mag = 0;
            for (size_t p = 0; p < P; ++p)
            {
                w += (long double)AT(a, M, r, p) * AT(b, P, p, s);
                mag += std::fabs((long double)AT(a, M, r, p) * AT(b, P, p, s));
            }
            const T t = wrap<T>(w);
            if (kind > 2 && std::is_floating_point<T>::value)
                CHK(c, rounded(AT(ro, M, r, s), w, mag, P) && rounded(AT(gr.o, M, r, s), w, mag, P) && rounded(AT(gf.o, M, r, s), w, mag, P), "(" << M << "x" << P << ")*(" << P << "x" << N << ") " << tname<T>() << " element (" << r << "," << s << ") of " << show(a) << "*" << show(b) << ": operator* " << +AT(ro, M, r, s) << " multiply " << +AT(gr.o, M, r, s) << " free " << +AT(gf.o, M, r, s) << " want " << +t);
            else
                CHK(c, AT(ro, M, r, s) == t && AT(gr.o, M, r, s) == t && AT(gf.o, M, r, s) == t, "(" << M << "x" << P << ")*(" << P << "x" << N << ") " << tname<T>() << " element (" << r << "," << s << ") of " << show(a) << "*" << show(b) << ": operator* " << +AT(ro, M, r, s) << " multiply " << +AT(gr.o, M, r, s) << " free " << +AT(gf.o, M, r, s) << " want " << +t);
        }
    CHK_FROZEN(c, fa);
    CHK_FROZEN(c, fb);
    CHK_GUARD(c, ga);
    CHK_GUARD(c, gb);
    CHK_GUARD(c, gr);
    CHK_GUARD(c, gf);
}

enum
{
    ADD, SUB, PIECE, ADDC, SUBC, ADDS, SUBS, MULS, DIVS, MULSC, DIVSC, NEG, NEG2, TRANS, MATVEC, SQ, SQC, N_OPS
};
const char* opn[] = {"+", "-", "multiply_piecewise", "+=", "-=", "+= scalar", "-= scalar", "* scalar", "/ scalar", "*= scalar", "/= scalar", "negate", "unary -", "transpose", "* vector", "*= matrix", "*= matrix (mixed)"};

template <size_t M, typename T>
void star_eq(vmml::Matrix<M, M, T>& a, const vmml::Matrix<M, M, T>& b) { a *= b; }
template <size_t M, size_t N, typename T>
void star_eq(vmml::Matrix<M, N, T>&, const vmml::Matrix<M, N, T>&) {}

template <size_t M, size_t N, typename T>
void elementwise(Ctx& c)
{
    typedef vmml::Matrix<M, N, T> X;
    const int op = c.choose(N_OPS);
    if ((op == SQ || op == SQC) && M != N)
        return;
    if (op == SQC)
        return;
    const int alias = op <= SUBC || op == SQ ? c.choose(2) : op >= ADDS && op <= DIVSC ? c.choose(2) : 0;
    // kind 2: values that need all bits of the type
    const int kind = c.choose(op == SQ || op == SQC ? 2 : 3);
    c.deviations(M * N > 100 ? 1 : (c.thorough() ? 3 : 2) - (kind == 2) - (M * N > 30 ? 1 : 0));
    Guarded<X> ga, gb;
    X &a = ga.o, &b = gb.o;
    const double full = kind == 2 ? 1 : c.thorough() ? 4000 : 700;
    const std::vector<T> lets = kind == 2 ? plus(letters<T>(), beyond<T>()) : letters<T>();
    fill(c, a.array, M * N, lets, kind % 2, full);
    if (kind == 2)
        for (size_t i = 0; i < M * N; ++i)
            if (a.array[i] == pattern<T>(0, i))
                a.array[i] = widen(a.array[i]);
    T s = T(2);
    vmml::Vector<N, T> v;
    size_t own = 0;
    const bool div = op == DIVS || op == DIVSC;
    if (op >= ADDS && op <= DIVSC)
    {
        if (alias)
        {
            own = size_t(c.choose(int(M * N)));
            s = a.array[own];
        }
        else
        {
            const std::vector<T> sl = {T(0), T(1), T(2), T(3), std::is_signed<T>::value ? T(-5) : T(5)};
            s = kind == 2 ? c.pick(plus(sl, beyond<T>())) : c.pick(sl);
        }
        if (div && s == T(0))
            return;
    }
    else if (op == MATVEC)
        fill(c, v.array, N, letters<T>(), kind == 2 ? 3 : 1 - kind, std::pow(5., double(M * N)) <= full ? 700 : 1);
    else if ((op <= SUBC || op == SQ) && !alias)
        fill(c, b.array, M * N, lets, kind == 1 ? 0 : 1, std::pow(5., 2. * M * N) <= full ? full : 1);
    const X x(a);
    const X y = (op <= SUBC || op == SQ) && alias ? x : b;
    if (kind == 2)
        for (size_t i = 0; i < M * N; ++i)
        {
            const T p = x.array[i], q = op <= SUBC ? y.array[i] : s;
            bool undef = false;
            switch (op)
            {
            case ADD: case ADDC: case ADDS: undef = undefined_op(0, p, q); break;
            case SUB: case SUBC: case SUBS: undef = undefined_op(1, p, q); break;
            case PIECE: case MULS: case MULSC: undef = undefined_op(2, p, q); break;
            case DIVS: case DIVSC: undef = undefined_op(3, p, q); break;
            case NEG: case NEG2: undef = undefined_op(1, T(0), p); break;
            case MATVEC: undef = undefined_op(2, p, T(100)) || std::fabs((long double)p) * 100 > (long double)std::numeric_limits<T>::max(); break;
            }
            if (undef)
                return;
        }
    Frozen<X> fb(b);
    const X& cb = alias ? a : b;
    NOTE(c, "Matrix<" << M << "," << N << "," << tname<T>() << "> " << opn[op] << " alias " << alias << " a=" << show(a) << " b=" << show(b) << " s=" << +s);
    c.state(hash_fp(a.array, M * N, hash_fp(b.array, M * N, mc::hash_val(op * 2 + alias, hash_fp(&s, 1, hash_fp(v.array, N))))));
    c.step();
    X r;
    r = T(77);
    bool inplace = false;
    vmml::Vector<M, T> rv;
    vmml::Matrix<N, M, T> rt;
    const X& ca = a;
    switch (op)
    {
    case ADD: r = ca + cb; break;
    case SUB: r = ca - cb; break;
    case PIECE: a.multiply_piecewise(cb); inplace = true; break;
    case ADDC: a += cb; inplace = true; break;
    case SUBC: a -= cb; inplace = true; break;
    case ADDS: a += alias ? a.array[own] : s; inplace = true; break;
    case SUBS: a -= alias ? a.array[own] : s; inplace = true; break;
    case MULS: r = alias ? a * a.array[own] : a * s; break;
    case DIVS: r = alias ? a / a.array[own] : a / s; break;
    case MULSC: a *= alias ? a.array[own] : s; inplace = true; break;
    case DIVSC: a /= alias ? a.array[own] : s; inplace = true; break;
    case NEG: r = ca.negate(); break;
    case NEG2: r = -ca; break;
    case TRANS: rt = vmml::transpose(ca); break;
    case MATVEC: rv = ca * v; break;
    case SQ: star_eq(a, cb); inplace = true; break;
    }
    if (op == MATVEC)
    {
        for (size_t i = 0; i < M; ++i)
        {
            long double w = 0, mag = 0;
            for (size_t j = 0; j < N; ++j)
            {
                w += (long double)AT(x, M, i, j) * v.array[j];
                mag += std::fabs((long double)AT(x, M, i, j) * v.array[j]);
            }
            if (kind == 2 && std::is_floating_point<T>::value)
                CHK(c, rounded(rv.array[i], w, mag, N), show(x) << " * vector " << show(v) << " = " << show(rv) << " component " << i << " want " << (double)w);
            else
                CHK(c, rv.array[i] == wrap<T>(w), show(x) << " * vector " << show(v) << " = " << show(rv) << " component " << i << " want " << +wrap<T>(w));
        }
    }
    else if (op == TRANS)
    {
        for (size_t i = 0; i < M; ++i)
            for (size_t j = 0; j < N; ++j)
                CHK(c, AT(rt, N, j, i) == AT(x, M, i, j), "transpose of " << show(x));
    }
    else
    {
        const X& got = inplace ? a : r;
        for (size_t i = 0; i < M; ++i)
            for (size_t j = 0; j < N; ++j)
            {
                const T p = AT(x, M, i, j), q = AT(y, M, i, j);
                T w;
                switch (op)
                {
                case ADD:
                case ADDC: w = T(p + q); break;
                case SUB:
                case SUBC: w = T(p - q); break;
                case PIECE: w = T(p * q); break;
                case ADDS: w = T(p + s); break;
                case SUBS: w = T(p - s); break;
                case MULS:
                case MULSC: w = T(p * s); break;
                case DIVS:
                case DIVSC: w = T(p / s); break;
                case SQ:
                {
                    long double z = 0;
                    for (size_t k = 0; k < N; ++k)
                        z += (long double)AT(x, M, i, k) * AT(y, M, k, j);
                    w = wrap<T>(z);
                    break;
                }
                default: w = T(-p);
                }
                CHK(c, same(AT(got, M, i, j), w) || (div && std::is_floating_point<T>::value && near(AT(got, M, i, j), w, 0, 1)), "Matrix<" << M << "," << N << "," << tname<T>() << "> " << opn[op] << " alias " << alias << " a=" << show(x) << " b=" << show(y) << " s=" << +s << " gives " << show(got) << " element (" << i << "," << j << ") want " << +w);
            }
    }
    if (!inplace)
        CHK(c, memcmp(&a, &x, sizeof a) == 0, "operand changed");
    CHK_FROZEN(c, fb);
    CHK_GUARD(c, ga);
    CHK_GUARD(c, gb);
}

template <size_t M, typename T>
void check_homogeneous(Ctx& c, const vmml::Matrix<M, M, T>& m, const vmml::Vector<M - 1, T>& v)
{
    typedef vmml::Matrix<M, M, T> X;
    typedef vmml::Vector<M - 1, T> V;
    const X m0(m);
    const V v0(v);
    long double w[M], sc[M];
    for (size_t i = 0; i < M; ++i)
    {
        w[i] = AT(m, M, i, M - 1);
        sc[i] = std::fabs(w[i]);
        for (size_t j = 0; j + 1 < M; ++j)
        {
            w[i] += (long double)AT(m, M, i, j) * v.array[j];
            sc[i] += std::fabs((long double)AT(m, M, i, j) * v.array[j]);
        }
    }
    if (w[M - 1] == 0)
        return; // point at infinity
    NOTE(c, show(m) << " * homogeneous " << show(v));
    c.state(hash_fp(m.array, M * M, hash_fp(v.array, M - 1)));
    c.step();
    const X& cm = m;
    const V r = cm * v;
    for (size_t i = 0; i + 1 < M; ++i)
        if (std::is_floating_point<T>::value)
            CHK(c, std::fabs(r.array[i] - w[i] / w[M - 1]) <= 4 * M * std::numeric_limits<T>::epsilon() * (std::fabs(sc[i] / w[M - 1]) * (1 + sc[M - 1] / std::fabs(w[M - 1]))), show(m) << " * " << show(v) << " = " << show(r) << " component " << i << " want " << (double)(w[i] / w[M - 1]));
        else
            CHK(c, r.array[i] == T((long long)w[i] / (long long)w[M - 1]), show(m) << " * " << show(v) << " = " << show(r) << " component " << i);
    // equals the product with the vector extended by 1
    vmml::Vector<M, T> e(v);
    const vmml::Vector<M, T> f = cm * e;
    const V g(f);
    for (size_t i = 0; i + 1 < M; ++i)
        CHK(c, near(g.array[i], r.array[i], (double)std::fabs(sc[i] / w[M - 1]), 8 * M), "homogeneous product differs from the product with (v,1): " << show(r) << " and " << show(g));
    CHK(c, memcmp(&m, &m0, sizeof m) == 0 && memcmp(&v, &v0, sizeof v) == 0, "operand changed");
}

// (n+1)x(n+1) matrix times n-vector
template <size_t M, typename T>
void homogeneous(Ctx& c)
{
    typedef vmml::Matrix<M, M, T> X;
    typedef vmml::Vector<M - 1, T> V;
    const int kind = c.choose(3);
    c.deviations(c.thorough() ? 4 : 3);
    X m;
    V v;
    if (kind < 2)
        fill_m(c, m, kind, 1);
    else
        for (size_t i = 0; i < M * M; ++i) // identity base
            if (const int d = c.dev(int(letters<T>().size()) + 1))
                m.array[i] = letters<T>()[size_t(d - 1)];
    for (size_t i = 0; i + 1 < M; ++i)
    {
        const std::vector<T> vl = {pattern<T>(1, i), T(0), T(1), T(8)};
        v.array[i] = vl[size_t(c.dev(4))];
    }
    check_homogeneous<M, T>(c, m, v);
}
// last rows which yield every w: close to one, small, large, negative
template <size_t M, typename T>
void homogeneous_w(Ctx& c)
{
    const std::vector<T> lad = ladder<T>(1, true), dec = decades<T>();
    const T w = (c.flip() ? T(1) + c.pick(lad) : c.pick(dec)) * (c.flip() ? T(-1) : T(1));
    vmml::Matrix<M, M, T> m;
    vmml::Vector<M - 1, T> v;
    const int how = c.choose(3);
    for (size_t i = 0; i + 1 < M; ++i)
    {
        v.array[i] = pattern<T>(1, i) + T(1) / T(3);
        for (size_t j = 0; how && j < M; ++j)
            m.array[j * M + i] = pattern<T>(int(i), j) / T(7);
    }
    // w comes from the corner, or from one of the other elements
    if (how < 2)
        m.array[M * M - 1] = w;
    else
    {
        m.array[M * M - 1] = T(0);
        m.array[M - 1] = w / v.array[0];
    }
    check_homogeneous<M, T>(c, m, v);
}

struct AbsCmp
{
    int* calls;
    template <typename T>
    bool operator()(const T& a, const T& b) const
    {
        ++*calls;
        return (a < T(0) ? T(-a) : a) == (b < T(0) ? T(-b) : b);
    }
};
template <size_t M, size_t N, typename T>
void compare(Ctx& c)
{
    typedef vmml::Matrix<M, N, T> X;
    Guarded<X> ga, gb;
    X &a = ga.o, &b = gb.o;
    c.deviations(M * N >= 60 ? 1 : c.thorough() ? 3 : 2);
    std::vector<T> al = {T(0), T(1), T(2), T(3), T(9)};
    if (std::is_signed<T>::value)
        al.push_back(T(-1));
    if (std::is_floating_point<T>::value)
    {
        al.push_back(T(0.5));
        al.push_back(T(1) + std::numeric_limits<T>::epsilon());
        al.push_back(std::numeric_limits<T>::infinity());
        al.push_back(std::numeric_limits<T>::quiet_NaN());
    }
    else if (sizeof(T) >= 4) // neighbours which are one float (or double)
    {
        al.push_back(widen(T(5)));
        al.push_back(T(widen(T(5)) - 1));
    }
    std::vector<T> tol = {T(0), T(1), T(2), T(3)};
    if (std::is_floating_point<T>::value)
    {
        tol.push_back(std::numeric_limits<T>::epsilon());
        tol.push_back(T(0.50001));
        tol.push_back(std::numeric_limits<T>::infinity());
    }
    const T t = c.pick(tol);
    const double full = std::pow(double(al.size()), 2. * M * N) < 20000 ? 1e9 : 1;
    fill(c, a.array, M * N, al, 3, full);
    fill(c, b.array, M * N, al, 3, full);
    bool eq = true, close = true, ab = true, dclose = true;
    const T de = std::numeric_limits<T>::epsilon();
    for (size_t i = 0; i < M * N; ++i)
    {
        const T x = a.array[i], y = b.array[i];
        const T d = x < y ? T(y - x) : T(x - y);
        eq = eq && x == y;
        close = close && d < t;
        dclose = dclose && d < de;
        ab = ab && (x < T(0) ? T(-x) : x) == (y < T(0) ? T(-y) : y);
    }
    Frozen<X> fa(a), fb(b);
    NOTE(c, show(a) << " ~ " << show(b) << " tolerance " << +t);
    c.state(hash_fp(a.array, M * N, hash_fp(b.array, M * N, hash_fp(&t, 1))));
    c.step(6);
    const X &p = a, &q = b;
    CHK(c, (p == q) == eq && (q == p) == eq && (p != q) == !eq && (q != p) == !eq, show(a) << " == " << show(b) << " gives " << (p == q));
    CHK(c, p.equals(q, t) == close && q.equals(p, t) == close, show(a) << ".equals(" << show(b) << "," << +t << ") = " << p.equals(q, t) << "/" << q.equals(p, t));
    CHK(c, vmml::equals(p, q, t) == close && vmml::equals(p, q) == dclose, "free equals");
    int calls = 0;
    AbsCmp cmp = {&calls};
    CHK(c, p.equals(q, cmp) == ab, "equals with a functor");
    if (ab)
        CHK(c, calls == int(M * N), "functor called " << calls << " times");
    CHK_FROZEN(c, fa);
    CHK_FROZEN(c, fb);
    CHK_GUARD(c, ga);
    CHK_GUARD(c, gb);
}

// algebraic laws on the real code
template <typename T>
void laws(Ctx& c)
{
    typedef vmml::Matrix<2, 2, T> X;
    const std::vector<T> al = std::is_signed<T>::value ? std::vector<T>{T(0), T(1), T(-1)} : std::vector<T>{T(0), T(1), T(3)};
    X a, b, d;
    for (int i = 0; i < 4; ++i)
        a.array[i] = c.pick(al);
    for (int i = 0; i < 4; ++i)
        b.array[i] = c.pick(al);
    for (int i = 0; i < 4; ++i)
        d.array[i] = c.pick(al);
    c.state(hash_fp(a.array, 4, hash_fp(b.array, 4, hash_fp(d.array, 4))));
    c.step(10);
    CHK(c, (a * b) * d == a * (b * d), "product not associative");
    CHK(c, a * (b + d) == a * b + a * d && (a + b) * d == a * d + b * d, "product not distributive");
    CHK(c, vmml::transpose(a * b) == vmml::transpose(b) * vmml::transpose(a), "transpose of a product");
    CHK(c, a * X::IDENTITY == a && X::IDENTITY * a == a, "identity not neutral");
    CHK(c, a + X::ZERO == a && a - a == X::ZERO && a + (-a) == X::ZERO, "additive laws");
    X e(a);
    e *= b;
    e *= d;
    CHK(c, e == a * b * d, "compound product");
}

template <size_t M, typename T>
void history(Ctx& c, int depth)
{
    typedef vmml::Matrix<M, M, T> X;
    Guarded<X> g;
    X& v = g.o;
    long double m[M][M];
    X other;
    for (size_t i = 0; i < M; ++i)
        for (size_t j = 0; j < M; ++j)
        {
            m[i][j] = AT(v, M, i, j) = T(i == j ? 2 : int(i) - int(2 * j) % 3);
            AT(other, M, i, j) = T(int(i * 2 + j) % 4 - 1);
        }
    const X other0(other);
    for (int d = 0; d < depth; ++d)
    {
        c.visit(hash_fp(v.array, M * M), depth - d);
        const int op = c.choose(11);
        long double n[M][M];
        X cur(v);
        for (size_t i = 0; i < M; ++i)
            for (size_t j = 0; j < M; ++j)
            {
                const long double x = m[i][j], o = AT(other0, M, i, j);
                switch (op)
                {
                case 0: n[i][j] = x + o; break;
                case 1: n[i][j] = x - o; break;
                case 2: n[i][j] = x + x; break;
                case 3: n[i][j] = 0; break;
                case 4:
                case 5:
                    n[i][j] = 0;
                    for (size_t k = 0; k < M; ++k)
                        n[i][j] += m[i][k] * (op == 4 ? (long double)AT(other0, M, k, j) : m[k][j]);
                    break;
                case 6: n[i][j] = x * 3; break;
                case 7: n[i][j] = x - 1; break;
                case 8: n[i][j] = -x; break;
                case 9: n[i][j] = m[j][i]; break;
                default: n[i][j] = x * o;
                }
            }
        c.step();
        switch (op)
        {
        case 0: v += other; break;
        case 1: v -= other; break;
        case 2: v += v; break;
        case 3: v -= v; break;
        case 4: v *= other; break;
        case 5: v *= v; break;
        case 6: v *= T(3); break;
        case 7: v -= T(1); break;
        case 8: v = -v; break;
        case 9: v = vmml::transpose(v); break;
        default: v.multiply_piecewise(other); break;
        }
        NOTE(c, "op " << op << " -> " << show(v));
        for (size_t i = 0; i < M; ++i)
            for (size_t j = 0; j < M; ++j)
            {
                m[i][j] = n[i][j];
                CHK(c, (long double)AT(v, M, i, j) == m[i][j], "step " << d << " op " << op << " on " << show(cur) << " gives " << show(v) << " element (" << i << "," << j << ") want " << (double)m[i][j]);
            }
        CHK(c, memcmp(&other, &other0, sizeof other) == 0, "operand changed");
        c.state(hash_fp(v.array, M * M, mc::hash_val(d + 1000)));
        for (size_t i = 0; i < M; ++i)
            for (size_t j = 0; j < M; ++j)
                if (std::fabs(m[i][j]) > 1000) // keep the next step exact
                    return;
    }
    CHK_GUARD(c, g);
}

template <size_t M, size_t P, size_t N, typename T>
void reg_p()
{
    mc::add("product_" + std::to_string(M) + std::to_string(P) + std::to_string(N) + tname<T>(), product<M, P, N, T>, "matrix product, three forms");
}
template <size_t M, size_t P, typename T>
void reg_pn()
{
    reg_p<M, P, 1, T>();
    reg_p<M, P, 2, T>();
    reg_p<M, P, 3, T>();
    reg_p<M, P, 4, T>();
}
template <size_t M, typename T>
void reg_pm()
{
    reg_pn<M, 1, T>();
    reg_pn<M, 2, T>();
    reg_pn<M, 3, T>();
    reg_pn<M, 4, T>();
}
template <size_t M, size_t N, typename T>
void reg_e()
{
    const std::string n = std::to_string(M) + "x" + std::to_string(N) + tname<T>();
    mc::add("elementwise_" + n, elementwise<M, N, T>, "all operator forms and aliasings");
    mc::add("compare_" + n, compare<M, N, T>, "==, !=, equals with tolerance and functor");
}
template <typename T>
void reg_es()
{
    reg_e<1, 1, T>();
    reg_e<2, 2, T>();
    reg_e<2, 3, T>();
    reg_e<3, 2, T>();
    reg_e<3, 3, T>();
    reg_e<1, 4, T>();
    reg_e<4, 4, T>();
}
// zeros of both signs, infinities and NaN among small integers: any order of
// summation gives the same value, infinity or NaN
template <size_t M, size_t P, size_t N, typename T>
void specials(Ctx& c)
{
    const T inf = std::numeric_limits<T>::infinity();
    const T sp[] = {T(1), T(0), inf, -inf, std::numeric_limits<T>::quiet_NaN(), T(-0.)};
    Guarded<vmml::Matrix<M, P, T>> ga;
    Guarded<vmml::Matrix<P, N, T>> gb;
    vmml::Vector<P, T> v;
    const int kind = c.choose(2);
    c.deviations(3);
    auto put = [&](T* p, size_t n, int k) {
        for (size_t i = 0; i < n; ++i)
        {
            const int d = c.dev(7);
            p[i] = d ? sp[d - 1] : k ? T(0) : T(int(i * 5 % 7) - 3);
        }
    };
    put(ga.o.array, M * P, kind);
    put(gb.o.array, P * N, 0);
    for (size_t i = 0; i < P; ++i)
        v.array[i] = gb.o.array[i];
    const auto &a = ga.o;
    const auto &b = gb.o;
    NOTE(c, tname<T>() << " a=" << show(a) << " b=" << show(b));
    c.state(hash_fp(a.array, M * P, hash_fp(b.array, P * N)));
    c.step(7);
    vmml::Matrix<M, N, T> r, r2 = a * b;
    r.multiply(a, b);
    const vmml::Vector<M, T> rv = a * v;
    for (size_t i = 0; i < M; ++i)
    {
        long double wv = 0;
        for (size_t j = 0; j < N; ++j)
        {
            long double w = 0;
            for (size_t k = 0; k < P; ++k)
                w += (long double)AT(a, M, i, k) * AT(b, P, k, j);
            CHK(c, same(AT(r, M, i, j), T(w)) && same(AT(r2, M, i, j), T(w)), show(a) << " * " << show(b) << " = " << show(r) << " / " << show(r2) << " element (" << i << "," << j << ") want " << T(w));
        }
        for (size_t k = 0; k < P; ++k)
            wv += (long double)AT(a, M, i, k) * v.array[k];
        CHK(c, same(rv.array[i], T(wv)), show(a) << " * " << show(v) << " = " << show(rv));
    }
    vmml::Matrix<P, N, T> n = -b, pw(b), ts(b), m1(b), d1(b);
    pw.multiply_piecewise(b);
    ts *= T(0);
    m1 -= b;
    d1 /= T(2);
    for (size_t i = 0; i < P * N; ++i)
    {
        const T x = b.array[i];
        CHK(c, same(n.array[i], T(-x)), "negation of " << x << " gives " << n.array[i]);
        CHK(c, same(pw.array[i], T(x * x)), "square of " << x << " gives " << pw.array[i]);
        CHK(c, same(ts.array[i], T(x * T(0))), "0 * " << x << " gives " << ts.array[i]);
        CHK(c, same(m1.array[i], T(x - x)), x << " - " << x << " gives " << m1.array[i]);
        CHK(c, same(d1.array[i], T(x / T(2))), x << " / 2 gives " << d1.array[i]);
    }
    CHK_GUARD(c, ga);
    CHK_GUARD(c, gb);
}

// both operands almost of a special form: one element of the identity, zero,
// a diagonal, affine, symmetric, orthogonal or singular matrix moved by every
// power of two; the other operand likewise or generic
template <size_t M, typename T>
void almost(Ctx& c)
{
    typedef vmml::Matrix<M, M, T> X;
    static const int base[7][16] = {{1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1},
                                    {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0},
                                    {0, -1, 0, 3, 1, 0, 0, -2, 0, 0, 1, 5, 0, 0, 0, 1},
                                    {2, 0, 0, 0, 0, -3, 0, 0, 0, 0, 1, 0, 0, 0, 0, 4},
                                    {2, 1, 0, 1, 1, 3, -1, 0, 0, -1, 1, 2, 1, 0, 2, -2},
                                    {1, 2, 3, 4, 2, 4, 6, 8, 1, 0, 1, 0, 0, 1, 0, 1},
                                    {1, 2, -5, 3, 4, 1, -1, 2, 3, -2, 3, 1, 2, 5, -3, 7}};
    const int side = c.choose(2), b = c.choose(7), at = c.choose(int(M * M)), k = c.choose(std::numeric_limits<T>::digits + 12);
    const bool neg = c.flip(), entry = c.flip();
    X m, o;
    for (size_t i = 0; i < M; ++i)
        for (size_t j = 0; j < M; ++j)
        {
            AT(m, M, i, j) = T(base[b][i * 4 + j]);
            AT(o, M, i, j) = T(base[6][j * 4 + i]);
        }
    const T d = std::ldexp(neg ? T(-1) : T(1), -k);
    if (entry)
        m.array[at] += d;
    else
        m.array[at] = d;
    const X &l = side ? o : m, &r = side ? m : o;
    NOTE(c, tname<T>() << " " << show(l) << " * " << show(r));
    c.state(hash_fp(l.array, M * M, hash_fp(r.array, M * M)));
    c.step(6);
    X p, q(l), s, u(m), w(m);
    p.multiply(l, r);
    q *= r;
    s = l * r;
    u += o;
    w -= o;
    X tr = vmml::transpose(m);
    vmml::Vector<M, T> v;
    for (size_t i = 0; i < M; ++i)
        v.array[i] = AT(r, M, i, 0);
    const vmml::Vector<M, T> lv = l * v;
    for (size_t i = 0; i < M; ++i)
        for (size_t j = 0; j < M; ++j)
        {
            long double x = 0, sc = 0;
            for (size_t n = 0; n < M; ++n)
            {
                const long double t = (long double)AT(l, M, i, n) * AT(r, M, n, j);
                x += t;
                sc += std::fabs(t);
            }
            const T want = T(x);
            CHK(c, near(AT(p, M, i, j), want, double(sc), M) && near(AT(q, M, i, j), want, double(sc), M) && near(AT(s, M, i, j), want, double(sc), M), show(l) << " * " << show(r) << " = " << show(p) << " / " << show(q) << " / " << show(s) << " element (" << i << "," << j << ") want " << want);
            if (j == 0)
                CHK(c, near(lv.array[i], want, double(sc), M), show(l) << " * " << show(v) << " = " << show(lv));
            CHK(c, AT(u, M, i, j) == T(AT(m, M, i, j) + AT(o, M, i, j)) && AT(w, M, i, j) == T(AT(m, M, i, j) - AT(o, M, i, j)), "sum or difference of " << show(m) << " and " << show(o));
            CHK(c, AT(tr, M, j, i) == AT(m, M, i, j), "transpose of " << show(m) << " is " << show(tr));
        }
    vmml::Vector<M - 1, T> h;
    for (size_t i = 0; i + 1 < M; ++i)
        h.array[i] = AT(r, M, i, 0);
    check_homogeneous<M, T>(c, l, h);
}
// every length of one dimension
template <size_t K, size_t E, typename T>
struct Sizes
{
    static void reg()
    {
        reg_p<K, 2, 2, T>();
        reg_p<2, K, 2, T>();
        reg_p<2, 2, K, T>();
        reg_p<1, K, 1, T>();
        Sizes<K + 1, E, T>::reg();
    }
    static void reg2()
    {
        reg_e<K, 2, T>();
        reg_e<2, K, T>();
        Sizes<K + 1, E, T>::reg2();
    }
};
template <size_t E, typename T>
struct Sizes<E, E, T>
{
    static void reg() {}
    static void reg2() {}
};
} // namespace
REGISTER_BLOCK(c08)
{
#if PART == 0
    reg_pm<1, float>();
    reg_pm<2, float>();
#elif PART == 1
    reg_pm<3, float>();
    reg_pm<4, float>();
#elif PART == 2
    reg_pm<2, int>();
    reg_pm<4, int>();
#elif PART == 3
    reg_es<float>();
    mc::add("history_3_float", [](Ctx& c) { history<3, float>(c, c.thorough() ? 7 : 5); }, "");
#elif PART == 4
    reg_es<int>();
    reg_e<5, 3, int>();
    mc::add("laws_int", laws<int>, "associative, distributive, transpose, identity on all triples over {-1,0,1}");
    mc::add("laws_float", laws<float>, "");
    mc::add("history_4_int", [](Ctx& c) { history<4, int>(c, c.thorough() ? 7 : 5); }, "");
    mc::add("history_2_double", [](Ctx& c) { history<2, double>(c, c.thorough() ? 8 : 6); }, "");
#elif PART == 5
    reg_e<2, 2, unsigned char>();
    reg_e<3, 4, unsigned char>();
    reg_e<2, 2, signed char>();
    reg_e<3, 3, unsigned short>();
    reg_e<2, 3, unsigned>();
    reg_e<4, 4, double>();
    reg_e<6, 2, double>();
    mc::add("special_222_float", specials<2, 2, 2, float>, "zeros, infinities, NaN");
    mc::add("special_333_float", specials<3, 3, 3, float>, "");
    mc::add("special_444_float", specials<4, 4, 4, float>, "");
    mc::add("special_444_double", specials<4, 4, 4, double>, "");
    mc::add("special_232_double", specials<2, 3, 2, double>, "");
    mc::add("special_324_float", specials<3, 2, 4, float>, "");
    mc::add("special_151_float", specials<1, 5, 1, float>, "");
    mc::add("almost_3_float", almost<3, float>, "almost special matrices");
    mc::add("almost_4_float", almost<4, float>, "");
    mc::add("almost_3_double", almost<3, double>, "");
    mc::add("almost_4_double", almost<4, double>, "");
    mc::add("homogeneous_2_float", homogeneous<2, float>, "");
    mc::add("homogeneous_3_float", homogeneous<3, float>, "");
    mc::add("homogeneous_4_float", homogeneous<4, float>, "");
    mc::add("homogeneous_3_double", homogeneous<3, double>, "");
    mc::add("homogeneous_4_double", homogeneous<4, double>, "");
    mc::add("homogeneous_5_double", homogeneous<5, double>, "");
    mc::add("homogeneous_w_3_float", homogeneous_w<3, float>, "every w");
    mc::add("homogeneous_w_4_float", homogeneous_w<4, float>, "");
    mc::add("homogeneous_w_4_double", homogeneous_w<4, double>, "");
    mc::add("homogeneous_w_5_double", homogeneous_w<5, double>, "");
    mc::add("homogeneous_4_int", homogeneous<4, int>, "");
#elif PART == 6
    reg_p<3, 3, 3, double>();
    reg_p<4, 4, 4, double>();
    reg_p<2, 3, 4, double>();
    reg_p<5, 7, 6, double>();
    reg_p<6, 1, 5, double>();
    reg_p<1, 9, 1, double>();
    reg_p<2, 2, 2, unsigned char>();
    reg_p<2, 2, 2, signed char>();
    reg_p<3, 2, 3, unsigned short>();
    reg_p<3, 3, 3, unsigned>();
    reg_p<2, 3, 2, short>();
    reg_p<4, 2, 3, long long>();
    reg_p<3, 3, 3, long long>();
    reg_e<2, 2, long long>();
    reg_e<3, 3, long long>();
    reg_e<2, 3, unsigned long>();
    reg_e<7, 2, short>();
#elif PART == 8
    Sizes<5, 18, float>::reg();
#elif PART == 9
    Sizes<5, 18, int>::reg();
#elif PART == 11
    reg_p<16, 16, 16, float>();
    reg_p<20, 17, 18, int>();
    reg_p<33, 2, 34, double>();
    reg_p<2, 100, 3, float>();
    reg_p<3, 257, 2, int>();
    reg_p<64, 3, 1, unsigned char>();
#elif PART == 12
    reg_e<11, 12, float>();
    reg_e<2, 65, int>();
    reg_e<100, 1, double>();
    reg_e<34, 4, unsigned char>();
    mc::add("compare_257x2short", compare<257, 2, short>, "");
    mc::add("compare_20x20float", compare<20, 20, float>, "");
#elif PART == 10
    Sizes<5, 11, float>::reg2();
    reg_e<17, 2, int>();
    reg_p<8, 8, 8, double>();
    reg_p<6, 5, 7, int>();
    reg_p<4, 4, 9, float>();
    reg_p<9, 4, 4, float>();
    reg_p<4, 9, 4, float>();
    reg_e<8, 8, int>();
#else
    reg_pm<1, int>();
    reg_pm<3, int>();
#endif
}
MC_MAIN()
