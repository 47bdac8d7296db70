// C24: bounds checking of every indexed access.
#include <vmmlib/matrix.hpp>
#include <vmmlib/vector.hpp>
#include "mc/common.hpp"
using namespace h;

namespace
{
// in range, at the bound, beyond, and values that wrap in index arithmetic
std::vector<size_t> indices(size_t bound, size_t extra, bool wide)
{
    std::vector<size_t> r;
    for (size_t i = 0; i <= bound + 1; ++i)
        r.push_back(i);
    const size_t top = ~size_t(0);
    if (!wide)
    {
        r.push_back(top);
        return r;
    }
    const size_t more[] = {bound * 2, extra, extra - 1, extra + 1, extra * 4, top, top - 1, top - 2, top - bound, top - bound + 1, top / 2, top / 2 + 1,
                           size_t(1) << 62, size_t(1) << 61, size_t(1) << 60, size_t(1) << 32, (size_t(1) << 32) + 1, size_t(1) << 31,
                           (size_t(1) << 31) - 1, size_t(1) << 16, 256, 255};
    for (size_t i : more)
        if (std::find(r.begin(), r.end(), i) == r.end())
            r.push_back(i);
    return r;
}
std::string str(size_t i)
{
    return std::to_string(i);
}

template <typename F>
void attempt(Ctx& c, bool valid, const std::string& what, F f)
{
    c.step();
    bool threw = false;
    std::string d;
    try
    {
        f();
    }
    catch (const vmml::exception& e)
    {
        threw = true;
        d = e.what();
        const std::exception& base = e; // catchable as a standard exception
        CHK(c, d == base.what(), "what() of the base class");
    }
    catch (const std::exception& e)
    {
        CHK(c, false, what << " throws something else: " << e.what());
    }
    NOTE(c, what << (threw ? " throws" : " returns"));
    CHK(c, threw || valid, what << " was accepted");
    CHK(c, !threw || !valid, what << " was rejected: " << d);
    if (threw)
    {
        // file(line): - text
        const size_t p = d.find(".hpp(");
        CHK(c, p != std::string::npos && p > 0, what << ": exception does not name a file: " << d);
        CHK(c, p + 5 < d.size() && d[p + 5] >= '1' && d[p + 5] <= '9', what << ": exception does not name a line: " << d);
        const size_t q = d.find(")", p);
        CHK(c, q != std::string::npos && d.find_first_of("abcdefghijklmnopqrstuvwxyz", q) != std::string::npos, what << ": exception has no description: " << d);
    }
}

template <typename T>
struct Model
{
    std::vector<T> a;
    unsigned next = 1;
    T fresh() { return T(100 + next++ % 97); }
};

// the object lives alone on the heap: touching anything beyond it is fatal
template <size_t M, size_t N, typename T>
struct Obj
{
    std::unique_ptr<vmml::Matrix<M, N, T>> p;
    Model<T> m;
    Obj() : p(new vmml::Matrix<M, N, T>())
    {
        m.a.resize(M * N);
        for (size_t i = 0; i < M * N; ++i)
            m.a[i] = p->array[i] = T(i + 1);
    }
    T& mod(size_t r, size_t k) { return m.a[k * M + r]; }
    void verify(Ctx& c, const std::string& what)
    {
        for (size_t i = 0; i < M * N; ++i)
            CHK(c, p->array[i] == m.a[i], what << " changed element " << i % M << "," << i / M << " to " << double(p->array[i]) << " want " << double(m.a[i]));
    }
    uint64_t hash() const { return hash_fp(p->array, M * N); }
};

template <size_t M, size_t N, typename T>
void element(Ctx& c, Obj<M, N, T>& o, bool wide)
{
    vmml::Matrix<M, N, T>& m = *o.p;
    const vmml::Matrix<M, N, T>& k = m;
    const size_t r = c.pick(indices(M, M * N, wide)), q = c.pick(indices(N, M * N, wide));
    const bool valid = r < M && q < N;
    const T want = valid ? o.mod(r, q) : T(0), v = o.m.fresh();
    const std::string at = "(" + str(r) + "," + str(q) + ") of " + str(M) + "x" + str(N);
    switch (c.choose(8))
    {
    case 0:
        attempt(c, valid, "at" + at, [&] { CHK(c, m.at(r, q) == want, "at" << at << " reads something else"); });
        break;
    case 1:
        attempt(c, valid, "const at" + at, [&] { CHK(c, k.at(r, q) == want, "const at" << at << " reads something else"); });
        break;
    case 2:
        attempt(c, valid, at, [&] { CHK(c, m(r, q) == want, at << " reads something else"); });
        break;
    case 3:
        attempt(c, valid, "const " + at, [&] { CHK(c, k(r, q) == want, "const " << at << " reads something else"); });
        break;
    case 4:
        attempt(c, valid, "at= " + at, [&] { m.at(r, q) = v; o.mod(r, q) = v; });
        break;
    case 5:
        attempt(c, valid, "()= " + at, [&] { m(r, q) = v; o.mod(r, q) = v; });
        break;
    case 6:
        attempt(c, valid, "[][]= " + at, [&] { m[r][q] = v; o.mod(r, q) = v; });
        break;
    case 7:
    {
        // the two brackets check separately
        typedef typename vmml::Matrix<M, N, T>::row_accessor RA;
        bool got = false;
        std::unique_ptr<RA> ra;
        attempt(c, r < M, "[] " + at, [&] { ra.reset(new RA(m[r])); got = true; });
        if (got)
        {
            const RA& cra = *ra;
            attempt(c, q < N, "row_accessor [] " + at, [&] { CHK(c, (*ra)[q] == want, "row accessor reads something else"); });
            attempt(c, q < N, "const row_accessor [] " + at, [&] { CHK(c, cra[q] == want, "row accessor reads something else"); });
        }
        break;
    }
    }
    o.verify(c, at);
}

template <size_t M, size_t N, typename T>
void int_row(Ctx& c, Obj<M, N, T>& o)
{
    static const int rows[] = {0, 1, 2, 3, 4, 5, -1, -2, int(M), -int(M), int(M + 1), 2147483647, -2147483647 - 1, 65536, int(M * N)};
    const int r = c.pick(rows);
    const bool valid = r >= 0 && r < int(M);
    vmml::Matrix<M, N, T>& m = *o.p;
    attempt(c, valid, "[int " + std::to_string(r) + "][0]", [&] {
        CHK(c, m[r][0] == o.mod(r, 0), "[int][0]");
        m[r][0] = T(77);
        o.mod(r, 0) = T(77);
    });
    o.verify(c, "[int]");
}

template <size_t M, size_t N, typename T>
void lines(Ctx& c, Obj<M, N, T>& o, bool wide)
{
    vmml::Matrix<M, N, T>& m = *o.p;
    const vmml::Matrix<M, N, T>& k = m;
    const bool row = c.flip();
    const size_t i = row ? c.pick(indices(M, M * N, wide)) : c.pick(indices(N, M * N, wide));
    const bool valid = i < (row ? M : N);
    const std::string at = (row ? "row(" : "column(") + str(i) + ") of " + str(M) + "x" + str(N);
    std::unique_ptr<vmml::Vector<M, T>> cv(new vmml::Vector<M, T>);
    std::unique_ptr<vmml::Vector<N, T>> rv(new vmml::Vector<N, T>);
    std::unique_ptr<vmml::Matrix<M, 1, T>> cm(new vmml::Matrix<M, 1, T>);
    std::unique_ptr<vmml::Matrix<1, N, T>> rm(new vmml::Matrix<1, N, T>);
    T cd[M], rd[N];
    for (size_t j = 0; j < M; ++j)
        cd[j] = cv->array[j] = cm->array[j] = T(60 + j);
    for (size_t j = 0; j < N; ++j)
        rd[j] = rv->array[j] = rm->array[j] = T(80 + j);
    const int op = c.choose(5);
    bool filled[4] = {false, false, false, false}; // cv rv cm rm
    auto wrote = [&] {
        for (size_t j = 0; j < (row ? N : M); ++j)
            (row ? o.mod(i, j) : o.mod(j, i)) = row ? rd[j] : cd[j];
    };
    switch (op)
    {
    case 0:
        attempt(c, valid, "get_" + at, [&] {
            if (row)
                k.get_row(i, *rv), filled[1] = true;
            else
                k.get_column(i, *cv), filled[0] = true;
        });
        break;
    case 1:
        attempt(c, valid, "get_ matrix " + at, [&] {
            if (row)
                k.get_row(i, *rm), filled[3] = true;
            else
                k.get_column(i, *cm), filled[2] = true;
        });
        break;
    case 2:
        attempt(c, valid, "get_ by value " + at, [&] {
            if (row)
            {
                const vmml::Vector<N, T> v = k.get_row(i);
                for (size_t j = 0; j < N; ++j)
                    CHK(c, v.array[j] == o.mod(i, j), "get_" << at << " value " << j);
            }
            else
            {
                const vmml::Vector<M, T> v = k.get_column(i);
                for (size_t j = 0; j < M; ++j)
                    CHK(c, v.array[j] == o.mod(j, i), "get_" << at << " value " << j);
            }
        });
        break;
    case 3:
        attempt(c, valid, "set_" + at, [&] {
            if (row)
                m.set_row(i, *rv);
            else
                m.set_column(i, *cv);
            wrote();
        });
        break;
    case 4:
        attempt(c, valid, "set_ matrix " + at, [&] {
            if (row)
                m.set_row(i, *rm);
            else
                m.set_column(i, *cm);
            wrote();
        });
        break;
    }
    o.verify(c, at);
    for (size_t j = 0; j < M; ++j)
    {
        CHK(c, cv->array[j] == (filled[0] ? o.mod(j, i) : cd[j]), at << " column vector element " << j);
        CHK(c, cm->array[j] == (filled[2] ? o.mod(j, i) : cd[j]), at << " column matrix element " << j);
    }
    for (size_t j = 0; j < N; ++j)
    {
        CHK(c, rv->array[j] == (filled[1] ? o.mod(i, j) : rd[j]), at << " row vector element " << j);
        CHK(c, rm->array[j] == (filled[3] ? o.mod(i, j) : rd[j]), at << " row matrix element " << j);
    }
}

template <size_t O, size_t P, size_t M, size_t N, typename T>
typename std::enable_if<(O <= M && P <= N)>::type subs(Ctx& c, Obj<M, N, T>& o, bool wide)
{
    vmml::Matrix<M, N, T>& m = *o.p;
    const vmml::Matrix<M, N, T>& k = m;
    const size_t r = c.pick(indices(M, M * N, wide)), q = c.pick(indices(N, M * N, wide));
    const bool valid = r <= M - O && q <= N - P;
    const std::string at = "sub_matrix<" + str(O) + "," + str(P) + ">(" + str(r) + "," + str(q) + ") of " + str(M) + "x" + str(N);
    std::unique_ptr<vmml::Matrix<O, P, T>> s(new vmml::Matrix<O, P, T>);
    for (size_t j = 0; j < O * P; ++j)
        s->array[j] = T(60 + j);
    switch (c.choose(3))
    {
    case 0:
        attempt(c, valid, "get_" + at, [&] {
            k.get_sub_matrix(*s, r, q);
            for (size_t i = 0; i < O; ++i)
                for (size_t j = 0; j < P; ++j)
                    CHK(c, s->array[j * O + i] == o.mod(r + i, q + j), "get_" << at << " element");
        });
        if (!valid)
            for (size_t j = 0; j < O * P; ++j)
                CHK(c, s->array[j] == T(60 + j), "get_" << at << " wrote to the result and threw");
        break;
    case 1:
        attempt(c, valid, "get_ by value " + at, [&] {
            const vmml::Matrix<O, P, T> s2 = k.template get_sub_matrix<O, P>(r, q);
            for (size_t i = 0; i < O; ++i)
                for (size_t j = 0; j < P; ++j)
                    CHK(c, s2.array[j * O + i] == o.mod(r + i, q + j), "get_" << at << " element");
        });
        break;
    case 2:
        attempt(c, valid, "set_" + at, [&] { m.set_sub_matrix(*s, r, q); });
        // a rejected write may already have stored elements that are in range
        for (size_t i = 0; i < M; ++i)
            for (size_t j = 0; j < N; ++j)
            {
                const bool in = i >= r && i - r < O && j >= q && j - q < P;
                if (!in)
                    continue;
                const T v = s->array[(j - q) * O + (i - r)];
                if (valid || m.array[j * M + i] == v)
                    o.mod(i, j) = v;
            }
        break;
    }
    o.verify(c, at);
}
template <size_t O, size_t P, size_t M, size_t N, typename T>
typename std::enable_if<!(O <= M && P <= N)>::type subs(Ctx&, Obj<M, N, T>&, bool)
{
}

template <size_t M, size_t N, typename T>
void from_vector(Ctx& c, Obj<M, N, T>& o)
{
    const size_t len = size_t(c.choose(int(M * N + 3)));
    std::vector<T> d(len);
    d.shrink_to_fit();
    for (size_t i = 0; i < len; ++i)
        d[i] = T(50 + i);
    const bool valid = len >= M * N;
    attempt(c, valid, "= std::vector of " + str(len), [&] { *o.p = d; });
    if (valid) // row-major
        for (size_t i = 0; i < M; ++i)
            for (size_t j = 0; j < N; ++j)
                o.mod(i, j) = d[i * N + j];
    o.verify(c, "= std::vector of " + str(len));
}

template <size_t M, size_t N, typename T>
void any(Ctx& c, Obj<M, N, T>& o, bool wide)
{
    switch (c.choose(8))
    {
    case 0: element(c, o, wide); break;
    case 1: int_row(c, o); break;
    case 2: lines(c, o, wide); break;
    case 3: from_vector(c, o); break;
    case 4: subs<1, 1>(c, o, wide); break;
    case 5: subs<M, N>(c, o, wide); break;
    case 6: subs<M, 1>(c, o, wide); break;
    case 7:
        if (M > 2 || N > 2)
            subs<2, 2>(c, o, wide);
        else
            subs<1, N>(c, o, wide);
        break;
    }
}
template <size_t M, size_t N, typename T>
void single(Ctx& c)
{
    Obj<M, N, T> o;
    any(c, o, true);
    c.state(o.hash());
}
// rejected accesses leave an object that works exactly as before
template <size_t M, size_t N, typename T>
void history(Ctx& c)
{
    Obj<M, N, T> o;
    const int depth = c.thorough() ? 4 : 2;
    for (int i = 0; i < depth; ++i)
    {
        any(c, o, false);
        c.visit(o.hash(), depth - i - 1);
    }
}

template <size_t M, typename T>
void vec(Ctx& c)
{
    std::unique_ptr<vmml::Vector<M, T>> p(new vmml::Vector<M, T>);
    vmml::Vector<M, T>& v = *p;
    const vmml::Vector<M, T>& k = v;
    T m[M];
    for (size_t i = 0; i < M; ++i)
        m[i] = v.array[i] = T(i + 1);
    const int depth = c.thorough() ? 3 : 2;
    for (int n = 0; n < depth; ++n)
    {
        const size_t i = c.pick(indices(M, M * sizeof(T), n == 0));
        const std::string at = "(" + str(i) + ") of " + str(M);
        const bool valid = i < M;
        switch (c.choose(9))
        {
        case 0:
            attempt(c, valid, "at" + at, [&] { CHK(c, v.at(i) == m[i], "at" << at); });
            break;
        case 1:
            attempt(c, valid, "const at" + at, [&] { CHK(c, k.at(i) == m[i], "const at" << at); });
            break;
        case 2:
            attempt(c, valid, at, [&] { CHK(c, v(i) == m[i], at); });
            break;
        case 3:
            attempt(c, valid, "const " + at, [&] { CHK(c, k(i) == m[i], "const " << at); });
            break;
        case 4:
            attempt(c, valid, "at=" + at, [&] { v.at(i) = T(90 + n); m[i] = T(90 + n); });
            break;
        case 5:
            attempt(c, valid, "()=" + at, [&] { v(i) = T(95 + n); m[i] = T(95 + n); });
            break;
#ifdef VMMLIB_NO_CONVERSION_OPERATORS
        case 6:
            attempt(c, valid, "[]" + at, [&] { CHK(c, v[i] == m[i], "[]" << at); });
            break;
        case 7:
            attempt(c, valid, "const []" + at, [&] { CHK(c, k[i] == m[i], "const []" << at); });
            break;
        case 8:
            attempt(c, valid, "[]=" + at, [&] { v[i] = T(85 + n); m[i] = T(85 + n); });
            break;
#endif
        default:
            return;
        }
        for (size_t j = 0; j < M; ++j)
            CHK(c, v.array[j] == m[j], at << " changed component " << j);
        c.visit(hash_fp(v.array, M), depth - n - 1);
    }
}

// no operation of the library trips over its own checks
template <size_t M, typename T>
void internal(Ctx& c)
{
    c.choose(1);
    vmml::Matrix<M, M, T> a, b;
    for (size_t i = 0; i < M * M; ++i)
        a.array[i] = T(i + (i % (M + 1) == 0 ? 5 : 1));
    try
    {
        b = a * a;
        b += a;
        b.multiply(a, a);
        b.multiply_piecewise(a);
        b.transpose_to(a);
        (void)(a == b);
        (void)a.equals(b, T(1));
        vmml::Vector<M, T> v(1);
        v = a * v;
        (void)(v == v);
        v += v;
        (void)v.dot(v);
        (void)v.find_max();
        (void)v.find_min();
        (void)v.find_max_index();
        (void)v.find_min_index();
        b.tensor(v, v);
        std::stringstream s;
        s << a << v;
        c.step(20);
    }
    catch (const std::exception& e)
    {
        CHK(c, false, "an operation on valid operands throws " << e.what());
    }
}

template <size_t M, size_t N, typename T>
void reg(bool hist)
{
    const std::string n = str(M) + "x" + str(N) + tname<T>();
    mc::add("single_" + n, single<M, N, T>, "every access with every index");
    if (hist)
        mc::add("history_" + n, history<M, N, T>, "sequences of accepted and rejected accesses");
}
} // namespace

REGISTER_BLOCK(c24)
{
#if PART == 0
    reg<1, 1, float>(true);
    reg<2, 2, double>(true);
#elif PART == 1
    reg<4, 4, float>(false);
    reg<2, 5, unsigned char>(false);
#elif PART == 2
    reg<1, 4, int>(true);
    reg<4, 1, double>(true);
#elif PART == 3
    reg<2, 3, float>(true);
    reg<4, 3, long double>(false);
#elif PART == 4
    reg<3, 3, double>(false);
    reg<8, 9, short>(false);
#elif PART >= 5
    reg<3, 2, float>(true);
#endif
#if PART >= 5
    mc::add("vec_1f", vec<1, float>, "vector accessors");
    mc::add("vec_2d", vec<2, double>, "vector accessors");
    mc::add("vec_3f", vec<3, float>, "vector accessors");
    mc::add("vec_4i", vec<4, int>, "vector accessors");
    mc::add("vec_5u", vec<5, unsigned char>, "vector accessors");
    mc::add("vec_9d", vec<9, double>, "vector accessors");
    mc::add("internal_2", internal<2, double>, "library operations on valid operands");
    mc::add("internal_3", internal<3, float>, "library operations on valid operands");
    mc::add("internal_4", internal<4, double>, "library operations on valid operands");
#endif
}
MC_MAIN()
