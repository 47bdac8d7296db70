// C07: matrix storage, accessors, fills and shape conversions.
#include <vmmlib/matrix.hpp>
#include "mc/common.hpp"
using namespace h;

namespace
{
template <typename T>
T value(size_t i, int salt)
{
    const int x = int((i * 7 + size_t(salt) * 11) % 53) + 60 * (salt % 2) + 1;
    return std::is_signed<T>::value && (i + size_t(salt)) % 3 == 0 ? T(-x) : T(x);
}

template <typename T>
T full(size_t i, int salt)
{
    return widen(value<T>(i, salt));
}

// model: row-major nested table
template <size_t M, size_t N, typename T>
struct Model
{
    T e[M][N];
};

template <size_t M, size_t N, size_t O, size_t P, typename T>
typename std::enable_if<(O <= M && P <= N)>::type sub_reads(Ctx& c, const vmml::Matrix<M, N, T>& k, const Model<M, N, T>& m)
{
    for (size_t r = 0; r + O <= M; ++r)
        for (size_t q = 0; q + P <= N; ++q)
        {
            const vmml::Matrix<O, P, T> a = k.template get_sub_matrix<O, P>(r, q);
            vmml::Matrix<O, P, T> b;
            b = T(99);
            k.get_sub_matrix(b, r, q);
            for (size_t i = 0; i < O; ++i)
                for (size_t j = 0; j < P; ++j)
                    CHK(c, same(a.array[j * O + i], m.e[r + i][q + j]) && same(b.array[j * O + i], m.e[r + i][q + j]), "get_sub_matrix<" << O << "," << P << ">(" << r << "," << q << ")");
            if (r == 0 && q == 0)
            {
                vmml::Matrix<O, P, T> d;
                k.get_sub_matrix(d);
                CHK(c, d == a, "get_sub_matrix default offsets");
            }
        }
}
template <size_t M, size_t N, size_t O, size_t P, typename T>
typename std::enable_if<!(O <= M && P <= N)>::type sub_reads(Ctx&, const vmml::Matrix<M, N, T>&, const Model<M, N, T>&)
{
}
template <size_t M, size_t N, typename T>
typename std::enable_if<(N > 1 && M >= N - 1 && (M == N || N < 3))>::type translation(Ctx& c, const vmml::Matrix<M, N, T>& k, const Model<M, N, T>& m)
{
    const vmml::Vector<N - 1, T> t = k.get_translation();
    vmml::Vector<N - 1, double> d;
    k.get_translation(d);
    for (size_t i = 0; i + 1 < N; ++i)
        CHK(c, same(t.array[i], m.e[i][N - 1]) && d.array[i] == double(m.e[i][N - 1]), "get_translation component " << i);
}
template <size_t M, size_t N, typename T>
typename std::enable_if<!(N > 1 && M >= N - 1 && (M == N || N < 3))>::type translation(Ctx&, const vmml::Matrix<M, N, T>&, const Model<M, N, T>&)
{
}
template <size_t M, size_t N, typename T>
void xyz(Ctx&, vmml::Matrix<M, N, T>&, const Model<M, N, T>&)
{
}
template <typename T>
void xyz(Ctx& c, vmml::Matrix<4, 4, T>& v, const Model<4, 4, T>& m)
{
    CHK(c, same(v.x(), m.e[0][3]) && same(v.y(), m.e[1][3]) && same(v.z(), m.e[2][3]), "x(), y(), z()");
}

template <size_t M, size_t N, typename T>
void readers(Ctx& c, vmml::Matrix<M, N, T>& v, const Model<M, N, T>& m)
{
    typedef vmml::Matrix<M, N, T> X;
    const X& k = v;
    CHK(c, sizeof(X) == M * N * sizeof(T), "storage");
    CHK(c, k.size() == M * N && k.get_number_of_rows() == M && k.get_number_of_columns() == N && size_t(X::ROWS) == M && size_t(X::COLS) == N, "sizes");
    T* p = v;
    const T* q = k;
    CHK(c, p == v.array && q == v.array, "pointer conversion");
    CHK(c, size_t(v.end() - v.begin()) == M * N && size_t(k.end() - k.begin()) == M * N && size_t(v.rend() - v.rbegin()) == M * N && size_t(k.rend() - k.rbegin()) == M * N, "iterator range");
    vmml::Matrix<N, M, T> tr;
    tr = T(55);
    k.transpose_to(tr);
    const vmml::Matrix<N, M, T> tf = vmml::transpose(k);
    for (size_t r = 0; r < M; ++r)
        for (size_t s = 0; s < N; ++s)
        {
            const T w = m.e[r][s];
            const size_t at = s * M + r;
            CHK(c, same(v.array[at], w), "element (" << r << "," << s << ") of " << show(v) << " want " << +w);
            CHK(c, same(v.at(r, s), w) && same(k.at(r, s), w), "at(" << r << "," << s << ")");
            CHK(c, same(v(r, s), w) && same(k(r, s), w), "(" << r << "," << s << ")");
            CHK(c, same(v[r][s], w) && same(v[int(r)][s], w), "[" << r << "][" << s << "]");
            const typename X::row_accessor ra = v[r];
            CHK(c, same(ra[s], w), "const row accessor");
            CHK(c, same(*(v.begin() + at), w) && same(*(k.begin() + at), w), "iterator");
            CHK(c, same(*(v.rbegin() + (M * N - 1 - at)), w) && same(*(k.rbegin() + (M * N - 1 - at)), w), "reverse iterator");
            CHK(c, same(tr.array[r * N + s], w) && same(tf.array[r * N + s], w), "transpose of " << show(v) << " is " << show(tr) << show(tf));
        }
    size_t cnt = 0;
    for (typename X::const_reverse_iterator i = k.rbegin(); i != k.rend(); ++i, ++cnt)
        CHK(c, same(*i, v.array[M * N - 1 - cnt]), "reverse traversal");
    CHK(c, cnt == M * N, "reverse traversal length");
    for (size_t r = 0; r < M; ++r)
    {
        const vmml::Vector<N, T> a = k.get_row(r);
        Guarded<vmml::Vector<N, T>> gb;
        Guarded<vmml::Matrix<1, N, T>> gd;
        k.get_row(r, gb.o);
        k.get_row(r, gd.o);
        for (size_t s = 0; s < N; ++s)
            CHK(c, same(a.array[s], m.e[r][s]) && same(gb.o.array[s], m.e[r][s]) && same(gd.o.array[s], m.e[r][s]), "get_row(" << r << ") of " << show(v) << " = " << show(a) << show(gb.o) << show(gd.o));
        CHK_GUARD(c, gb);
        CHK_GUARD(c, gd);
    }
    for (size_t s = 0; s < N; ++s)
    {
        const vmml::Vector<M, T> a = k.get_column(s);
        Guarded<vmml::Vector<M, T>> gb;
        Guarded<vmml::Matrix<M, 1, T>> gd;
        k.get_column(s, gb.o);
        k.get_column(s, gd.o);
        for (size_t r = 0; r < M; ++r)
            CHK(c, same(a.array[r], m.e[r][s]) && same(gb.o.array[r], m.e[r][s]) && same(gd.o.array[r], m.e[r][s]), "get_column(" << s << ") of " << show(v) << " = " << show(a) << show(gb.o) << show(gd.o));
        CHK_GUARD(c, gb);
        CHK_GUARD(c, gd);
    }
    sub_reads<M, N, 1, 1>(c, k, m);
    sub_reads<M, N, 2, 2>(c, k, m);
    sub_reads<M, N, 2, 1>(c, k, m);
    sub_reads<M, N, 1, 3>(c, k, m);
    sub_reads<M, N, 3, 2>(c, k, m);
    sub_reads<M, N, M, N>(c, k, m);
    translation(c, k, m);
    xyz(c, v, m);
}

template <size_t M, size_t N, typename T>
struct Mut
{
    typedef vmml::Matrix<M, N, T> X;
    typedef Model<M, N, T> K;

    template <size_t P, size_t Q, typename U>
    static void convert(Ctx& c, X& v, K& m, int salt)
    {
        vmml::Matrix<P, Q, U> s;
        for (size_t i = 0; i < P * Q; ++i)
            s.array[i] = full<U>(i, salt);
        if (!std::is_signed<T>::value && std::is_signed<U>::value)
            for (size_t i = 0; i < P * Q; ++i)
                s.array[i] = U(std::fabs((double)s.array[i]));
        const vmml::Matrix<P, Q, U> s0(s);
        const int how = c.choose(2);
        if (how == 0)
            v = s;
        else
            v = X(s);
        for (size_t r = 0; r < M; ++r)
            for (size_t q = 0; q < N; ++q)
                m.e[r][q] = r < P && q < Q ? static_cast<T>(s0.array[q * P + r]) : T(0);
        CHK(c, memcmp(&s, &s0, sizeof s) == 0, "source changed");
    }
    template <typename U>
    static void cast(X& v, K& m, int salt)
    {
        vmml::Matrix<M, N, U> s;
        for (size_t i = 0; i < M * N; ++i)
            s.array[i] = U(std::fabs((double)full<U>(i, salt)));
        v.cast_from(s);
        for (size_t r = 0; r < M; ++r)
            for (size_t q = 0; q < N; ++q)
                m.e[r][q] = static_cast<T>(s.array[q * M + r]);
    }
    template <size_t O, size_t P>
    static typename std::enable_if<(O <= M && P <= N)>::type set_sub(Ctx& c, X& v, K& m, int salt)
    {
        const size_t r = size_t(c.choose(int(M - O) + 1)), q = size_t(c.choose(int(N - P) + 1));
        vmml::Matrix<O, P, T> s;
        for (size_t i = 0; i < O * P; ++i)
            s.array[i] = full<T>(i + 5, salt);
        NOTE(c, "set_sub_matrix<" << O << "," << P << ">(" << r << "," << q << ")");
        v.set_sub_matrix(s, r, q);
        for (size_t i = 0; i < O; ++i)
            for (size_t j = 0; j < P; ++j)
                m.e[r + i][q + j] = s.array[j * O + i];
    }
    template <size_t O, size_t P>
    static typename std::enable_if<!(O <= M && P <= N)>::type set_sub(Ctx&, X&, K&, int)
    {
    }
    static void element(Ctx& c, X& v, K& m, int salt)
    {
        const size_t r = size_t(c.choose(int(M))), s = size_t(c.choose(int(N)));
        const int how = c.choose(7);
        const T x = full<T>(40 + r, salt);
        const size_t at = s * M + r;
        NOTE(c, "write (" << r << "," << s << ") how " << how);
        switch (how)
        {
        case 0: v.at(r, s) = x; break;
        case 1: v(r, s) = x; break;
        case 2: v[r][s] = x; break;
        case 3: v[int(r)][s] = x; break;
        case 4: *(v.begin() + at) = x; break;
        case 5: *(v.rbegin() + (M * N - 1 - at)) = x; break;
        default: { T* p = v; p[at] = x; }
        }
        m.e[r][s] = x;
    }
    static void row(Ctx& c, X& v, K& m, int salt)
    {
        const size_t r = size_t(c.choose(int(M)));
        vmml::Vector<N, T> a;
        vmml::Matrix<1, N, T> b;
        for (size_t i = 0; i < N; ++i)
            a.array[i] = b.array[i] = full<T>(i + 3, salt);
        NOTE(c, "set_row(" << r << ")");
        if (c.flip())
            v.set_row(r, a);
        else
            v.set_row(r, b);
        for (size_t i = 0; i < N; ++i)
            m.e[r][i] = a.array[i];
    }
    static void column(Ctx& c, X& v, K& m, int salt)
    {
        const size_t s = size_t(c.choose(int(N)));
        vmml::Vector<M, T> a;
        vmml::Matrix<M, 1, T> b;
        for (size_t i = 0; i < M; ++i)
            a.array[i] = b.array[i] = full<T>(i + 9, salt);
        NOTE(c, "set_column(" << s << ")");
        if (c.flip())
            v.set_column(s, a);
        else
            v.set_column(s, b);
        for (size_t i = 0; i < M; ++i)
            m.e[i][s] = a.array[i];
    }
    // rows and columns of itself
    static void own(Ctx& c, X& v, K& m)
    {
        if (c.flip())
        {
            const size_t a = size_t(c.choose(int(M))), b = size_t(c.choose(int(M)));
            v.set_row(a, v.get_row(b));
            for (size_t i = 0; i < N; ++i)
                m.e[a][i] = m.e[b][i];
        }
        else
        {
            const size_t a = size_t(c.choose(int(N))), b = size_t(c.choose(int(N)));
            v.set_column(a, v.get_column(b));
            for (size_t i = 0; i < M; ++i)
                m.e[i][a] = m.e[i][b];
        }
    }
    static void range(Ctx& c, X& v, K& m, int salt)
    {
        const size_t n = size_t(c.choose(int(M * N) + 3));
        const int how = c.choose(4);
        const int order = c.choose(3); // row-major by default, explicitly, column-major
        std::vector<int> a(n);
        for (size_t i = 0; i < n; ++i)
            a[i] = std::is_signed<T>::value ? value<int>(i, salt) : std::abs(value<int>(i, salt));
        NOTE(c, "set of " << n << " values how " << how << " order " << order);
        if (how == 3)
        {
            std::vector<T> f(n);
            for (size_t i = 0; i < n; ++i)
                f[i] = full<T>(i, salt);
            if (order == 0) v.set(f.begin(), f.end());
            else v.set(f.begin(), f.end(), order == 1);
            for (size_t i = 0; i < n && i < M * N; ++i)
                (order < 2 ? m.e[i / N][i % N] : m.e[i % M][i / M]) = f[i];
            return;
        }
        if (how == 0)
        {
            // exactly n elements on the heap: reading the end is noticed
            std::unique_ptr<int[]> p(new int[n ? n : 1]);
            std::copy(a.begin(), a.end(), p.get());
            const int* b = p.get();
            if (order == 0) v.set(b, b + n);
            else v.set(b, b + n, order == 1);
        }
        else if (how == 1)
        {
            const std::list<double> l(a.begin(), a.end());
            if (order == 0) v.set(l.begin(), l.end());
            else v.set(l.begin(), l.end(), order == 1);
        }
        else
        {
            std::ostringstream os;
            for (size_t i = 0; i < n; ++i)
                os << a[i] << " ";
            std::istringstream is(os.str());
            std::istream_iterator<int> b(is), e;
            if (order == 0) v.set(b, e);
            else v.set(b, e, order == 1);
        }
        for (size_t i = 0; i < n && i < M * N; ++i)
            if (order < 2)
                m.e[i / N][i % N] = static_cast<T>(a[i]);
            else
                m.e[i % M][i / M] = static_cast<T>(a[i]);
    }
    static void all(K& m, T x)
    {
        for (size_t r = 0; r < M; ++r)
            for (size_t s = 0; s < N; ++s)
                m.e[r][s] = x;
    }
    static void ident(K& m)
    {
        all(m, T(0));
        if (M == N)
            for (size_t r = 0; r < M && r < N; ++r)
                m.e[r][r] = T(1);
    }
    template <typename Y>
    static void square_only(Ctx& c, Y& v, K& m, std::true_type)
    {
        switch (c.choose(4))
        {
        case 0:
            vmml::identity(v);
            ident(m);
            break;
        case 1:
            v = Y::IDENTITY;
            ident(m);
            break;
        case 2:
        {
            v = vmml::transpose(v);
            for (size_t r = 0; r < M; ++r)
                for (size_t s = 0; s < r; ++s)
                    std::swap(m.e[r][s], m.e[s][r]);
            break;
        }
        default:
            vmml::set_to_identity_functor<Y>()(v);
            ident(m);
        }
    }
    template <typename Y>
    static void square_only(Ctx&, Y&, K&, std::false_type)
    {
    }
    static void transl(Ctx&, vmml::Matrix<M, N, T>&, K&, int, std::false_type) {}
    static void transl(Ctx& c, vmml::Matrix<M, N, T>& v, K& m, int salt, std::true_type)
    {
        T a[3];
        for (int i = 0; i < 3; ++i)
            a[i] = full<T>(size_t(i) + 2, salt);
        double d[3] = {double(a[0]), double(a[1]), double(a[2])};
        const int how = c.choose(5);
        X* r = 0;
        switch (how)
        {
        case 0: r = &v.set_translation(a[0], a[1], a[2]); break;
        case 1: r = &v.set_translation(static_cast<const T*>(a)); break;
        case 2: r = &v.set_translation(vmml::Vector<3, T>(a[0], a[1], a[2])); break;
        case 3: r = &v.set_translation(static_cast<const double*>(d)); break;
        default:
            v.x() = a[0];
            v.y() = a[1];
            v.z() = a[2];
            r = &v;
        }
        CHK(c, r == &v, "set_translation returns the matrix");
        for (size_t i = 0; i < 3; ++i)
            m.e[i][N - 1] = a[i];
    }
    static const int N_OPS = 26;
    static void apply(Ctx& c, int op, X& v, K& m, int salt)
    {
        T a[M * N + 4];
        for (size_t i = 0; i < M * N + 4; ++i)
            a[i] = full<T>(i + 1, salt);
        switch (op)
        {
        case 0: element(c, v, m, salt); break;
        case 1: row(c, v, m, salt); break;
        case 2: column(c, v, m, salt); break;
        case 3: range(c, v, m, salt); break;
        case 4: set_sub<1, 1>(c, v, m, salt); break;
        case 5: set_sub<2, 2>(c, v, m, salt); break;
        case 6: set_sub<M, 1>(c, v, m, salt); break;
        case 7: set_sub<1, N>(c, v, m, salt); break;
        case 8: set_sub<3, 2>(c, v, m, salt); break;
        case 9:
            v = static_cast<const T*>(a);
            for (size_t i = 0; i < M * N; ++i)
                m.e[i / N][i % N] = a[i];
            break;
        case 10:
        {
            T b[M][N];
            for (size_t i = 0; i < M * N; ++i)
                b[i / N][i % N] = a[i];
            v = b;
            memcpy(m.e, b, sizeof b);
            break;
        }
        case 11:
        {
            const std::vector<T> s(a, a + M * N + c.choose(3));
            v = s;
            for (size_t i = 0; i < M * N; ++i)
                m.e[i / N][i % N] = a[i];
            break;
        }
        case 12:
            switch (c.choose(4))
            {
            case 0: v.fill(a[0]); all(m, a[0]); break;
            case 1: v = a[0]; all(m, a[0]); break;
            case 2: v.zero(); all(m, T(0)); break;
            default: vmml::set_to_zero_functor<X>()(v); all(m, T(0));
            }
            break;
        case 13:
            switch (c.choose(3))
            {
            case 0: v = X(); ident(m); break;
            case 1: v = X::ZERO; all(m, T(0)); break;
            default: { X& w = v; v = w; break; }
            }
            break;
        case 14: square_only(c, v, m, std::integral_constant<bool, M == N>()); break;
        case 15: convert<M, N, double>(c, v, m, salt); break;
        case 16: convert<M + 1, N + 2, T>(c, v, m, salt); break;
        case 17: convert<(M > 1 ? M - 1 : 2), N, int>(c, v, m, salt); break;
        case 18: convert<M, (N > 1 ? N - 1 : 2), T>(c, v, m, salt); break;
        case 19: convert<N + 1, (M > 1 ? M - 1 : 1), float>(c, v, m, salt); break;
        case 20: cast<float>(v, m, salt); break;
        case 21: own(c, v, m); break;
        // as many elements in another arrangement
        case 22: convert<N, M, T>(c, v, m, salt); break;
        case 23: convert<1, M * N, T>(c, v, m, salt); break;
        case 24: convert<M * N, 1, int>(c, v, m, salt); break;
        default: transl(c, v, m, salt, std::integral_constant<bool, M == 4 && N == 4>());
        }
    }
};

template <size_t M, size_t N, typename T>
void history(Ctx& c, int depth)
{
    typedef vmml::Matrix<M, N, T> X;
    Guarded<X> g;
    X& v = g.o;
    Model<M, N, T> m;
    for (size_t r = 0; r < M; ++r)
        for (size_t s = 0; s < N; ++s)
        {
            m.e[r][s] = r == s && M == N ? T(1) : T(0);
            CHK(c, v.array[s * M + r] == m.e[r][s], "default matrix is " << show(v));
        }
    for (size_t r = 0; r < M; ++r)
        for (size_t s = 0; s < N; ++s)
            v.array[s * M + r] = m.e[r][s] = T(100 + r * N + s);
    for (int d = 0; d < depth; ++d)
    {
        c.visit(hash_fp(&m.e[0][0], M * N, hash_fp(v.array, M * N)), depth - d);
        const int op = c.choose(Mut<M, N, T>::N_OPS);
        NOTE(c, "Matrix<" << M << "," << N << "," << tname<T>() << "> op " << op << " on " << show(v));
        c.step();
        Mut<M, N, T>::apply(c, op, v, m, d);
        NOTE(c, "  -> " << show(v));
        readers(c, v, m);
        CHK_GUARD(c, g);
        c.state(hash_fp(v.array, M * N, mc::hash_val(d + 1000)));
    }
    c.outcome(hash_fp(v.array, M * N));
}

template <size_t M, size_t N, typename T>
void reg(int extra = 0)
{
    const std::string n = std::to_string(M) + "x" + std::to_string(N) + tname<T>();
    mc::add("history_" + n, [extra](Ctx& c) { history<M, N, T>(c, (c.thorough() ? 3 : 2) + extra); }, "all sequences of setters and fills; every accessor compared with the table after each");
}
} // namespace
REGISTER_BLOCK(c07)
{
#if PART == 0
    reg<1, 1, float>(1);
    reg<1, 2, float>();
    reg<2, 1, int>();
    reg<2, 2, float>();
#elif PART == 1
    reg<2, 3, double>();
    reg<3, 2, float>();
    reg<1, 4, int>();
#elif PART == 2
    reg<3, 3, int>();
    reg<4, 1, double>();
    reg<3, 4, unsigned char>();
#elif PART == 3
    reg<4, 4, float>();
    reg<5, 2, short>();
#elif PART == 4
    reg<4, 3, int>();
    reg<2, 5, float>();
#elif PART == 5
    reg<4, 4, double>();
    reg<4, 4, unsigned>();
#elif PART == 6
    reg<5, 5, float>(-1);
    reg<1, 9, int>(-1);
    reg<9, 1, float>(-1);
    reg<7, 6, int>(-1);
    reg<2, 16, float>(-1);
#elif PART == 8
    reg<3, 8, int>(-1);
    reg<8, 3, float>(-1);
    reg<6, 6, double>(-1);
    reg<17, 1, int>(-1);
#elif PART == 9
    reg<8, 8, int>(-1);
    reg<12, 2, float>(-1);
    reg<5, 7, unsigned char>(-1);
    reg<1, 17, double>(-1);
#elif PART == 11
    reg<16, 16, float>(-1);
    reg<20, 17, int>(-1);
    reg<17, 33, unsigned char>(-1);
#elif PART == 12
    reg<64, 3, double>(-1);
    reg<2, 100, float>(-1);
    reg<300, 2, int>(-1);
    reg<1, 257, short>(-1);
#elif PART == 10
    reg<2, 2, signed char>();
    reg<3, 3, unsigned short>();
    reg<5, 3, signed char>(-1);
#else
    reg<3, 3, unsigned char>();
    reg<4, 4, int>();
    reg<2, 3, long long>();
    reg<3, 3, unsigned long>();
#endif
}
MC_MAIN()
