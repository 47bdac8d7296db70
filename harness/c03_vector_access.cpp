// C03: construction, filling, conversion and every accessor of Vector.
#include <vmmlib/vector.hpp>
#include "mc/common.hpp"
using namespace h;

namespace
{
template <size_t N>
struct Sz
{
};

// ---- all readers agree with the model --------------------------------
template <size_t M, typename T>
void read_xyzw(Ctx& c, vmml::Vector<M, T>& v, const T* m)
{
    const vmml::Vector<M, T>& k = v;
    CHK(c, same(v.x(), m[0]) && same(k.x(), m[0]) && same(v.r(), m[0]) && same(k.r(), m[0]), "x/r");
    if (M > 1)
        CHK(c, same(v.y(), m[1]) && same(k.y(), m[1]) && same(v.g(), m[1]) && same(k.g(), m[1]), "y/g of " << show(m, M));
    if (M > 2)
        CHK(c, same(v.z(), m[2]) && same(k.z(), m[2]) && same(v.b(), m[2]) && same(k.b(), m[2]), "z/b of " << show(m, M));
    if (M > 3)
        CHK(c, same(v.w(), m[3]) && same(k.w(), m[3]) && same(v.a(), m[3]) && same(k.a(), m[3]), "w/a of " << show(m, M));
}
template <size_t M, size_t N, typename T>
typename std::enable_if<(N <= M && N > 0)>::type sub_reads(Ctx& c, vmml::Vector<M, T>& v, const T* m)
{
    const vmml::Vector<M, T>& k = v;
    for (size_t o = 0; o + N <= M; ++o)
    {
        vmml::Vector<N, T>& s = v.template get_sub_vector<N>(o);
        const vmml::Vector<N, T>& t = k.template get_sub_vector<N>(o);
        for (size_t i = 0; i < N; ++i)
            CHK(c, same(s.at(i), m[o + i]) && same(t.at(i), m[o + i]) && &s.at(i) == &v.array[o + i], "get_sub_vector<" << N << ">(" << o << ")");
    }
}
template <size_t M, size_t N, typename T>
typename std::enable_if<!(N <= M && N > 0)>::type sub_reads(Ctx&, vmml::Vector<M, T>&, const T*)
{
}

template <size_t M, typename T>
void readers(Ctx& c, vmml::Vector<M, T>& v, const T* m, const char* where)
{
    typedef vmml::Vector<M, T> V;
    const V& k = v;
    CHK(c, V::size() == M && size_t(V::DIMENSION) == M, "size");
    CHK(c, sizeof(V) == M * sizeof(T), "storage is not exactly M components");
    T* p = v;
    const T* q = k;
    CHK(c, p == v.array && q == v.array, "pointer conversion");
    typename V::iterator it = v.begin();
    typename V::const_iterator ci = k.begin();
    typename V::reverse_iterator ri = v.rbegin();
    typename V::const_reverse_iterator rc = k.rbegin();
    CHK(c, size_t(v.end() - v.begin()) == M && size_t(k.end() - k.begin()) == M && size_t(v.rend() - v.rbegin()) == M && size_t(k.rend() - k.rbegin()) == M, "iterator range");
    for (size_t i = 0; i < M; ++i, ++it, ++ci, ++ri, ++rc)
    {
        CHK(c, same(v.array[i], m[i]), where << ": component " << i << " of " << show(v) << " want " << show(m, M));
        CHK(c, same(v.at(i), m[i]) && same(k.at(i), m[i]), where << ": at(" << i << ")");
        CHK(c, same(v(i), m[i]) && same(k(i), m[i]), where << ": (" << i << ")");
        CHK(c, same(v[i], m[i]) && same(k[i], m[i]), where << ": [" << i << "]");
        CHK(c, same(p[i], m[i]) && same(q[i], m[i]), where << ": pointer");
        CHK(c, same(*it, m[i]) && same(*ci, m[i]), where << ": iterator " << i);
        CHK(c, same(*ri, m[M - 1 - i]) && same(*rc, m[M - 1 - i]), where << ": reverse iterator " << i << " " << show(v));
    }
    CHK(c, it == v.end() && ci == k.end() && ri == v.rend() && rc == k.rend(), "iterator end");
    read_xyzw(c, v, m);
    sub_reads<M, 1>(c, v, m);
    sub_reads<M, 2>(c, v, m);
    sub_reads<M, 3>(c, v, m);
    sub_reads<M, 4>(c, v, m);
    sub_reads<M, M - 1>(c, v, m);
    sub_reads<M, M>(c, v, m);
}

// ---- operand values ----------------------------------------------------
template <typename T>
T value(size_t i, int salt)
{
    static const int tab[] = {3, 7, 1, 12, 5, 9, 2, 11, 4, 8, 6, 10, 13};
    const int x = tab[(i * 5 + size_t(salt) * 3) % 13] + salt;
    if (std::is_floating_point<T>::value)
        return T(x) * T(0.5) * ((i + salt) % 2 ? T(-1) : T(1));
    return std::is_signed<T>::value && (i + salt) % 2 ? T(-x) : T(x);
}

// values which no detour through a narrower or a floating-point type keeps
template <typename T>
T full(size_t i, int salt)
{
    return widen(value<T>(i, salt));
}

// ---- mutators: each one updates the vector and the model -------------------
template <size_t M, typename T>
struct Mut
{
    typedef vmml::Vector<M, T> V;
    typedef vmml::Vector<M + 1, T> V1;

    template <typename U>
    static vmml::Vector<M, U> other(int salt)
    {
        vmml::Vector<M, U> o;
        for (size_t i = 0; i < M; ++i)
            o.array[i] = value<U>(i, salt);
        return o;
    }

    // conversions from other element types
    template <typename U>
    static void from(Ctx& c, V& v, T* m, int salt)
    {
        vmml::Vector<M, U> o = other<U>(salt);
        const vmml::Vector<M, U> o0(o);
        const int how = c.choose(3);
        if (how == 0)
            v = o;
        else if (how == 1)
            v = V(o);
        else
            v.cast_from(o);
        for (size_t i = 0; i < M; ++i)
            m[i] = static_cast<T>(o0.array[i]);
        CHK(c, memcmp(&o, &o0, sizeof o) == 0, "source changed");
    }

    static void up(Ctx& c, V& v, T* m, int salt, std::true_type)
    {
        // from one dimension less
        vmml::Vector<M - 1, T> s;
        for (size_t i = 0; i + 1 < M; ++i)
            s.array[i] = full<T>(i, salt);
        const vmml::Vector<M - 1, T> s0(s);
        const T last = full<T>(17, salt);
        const int how = c.choose(4);
        NOTE(c, "from M-1, how " << how);
        if (how == 0)
            v = s;
        else if (how == 1)
            v = V(s);
        else if (how == 2)
            v = V(s, last);
        else
            v.set(s, last);
        for (size_t i = 0; i + 1 < M; ++i)
            m[i] = s0.array[i];
        m[M - 1] = how < 2 ? T(1) : last;
        CHK(c, memcmp(&s, &s0, sizeof s) == 0, "source changed");
    }
    static void up(Ctx&, V&, T*, int, std::false_type) {}

    static void down(Ctx& c, V& v, T* m, int salt)
    {
        V1 s;
        for (size_t i = 0; i < M; ++i)
            s.array[i] = T(value<T>(i, salt) * T(2));
        const int w = c.choose(4);
        s.array[M] = w == 0 ? T(1) : w == 1 ? T(2) : w == 2 ? T(4) : std::is_signed<T>::value ? T(-3) : T(3);
        const V1 s0(s);
        NOTE(c, "from M+1: " << show(s));
        if (c.flip())
            v = s;
        else
            v = V(s);
        for (size_t i = 0; i < M; ++i)
        {
            const T want = T(s0.array[i] / s0.array[M]);
            CHK(c, near(v.array[i], want, 0, 3), "homogeneous divide " << show(s) << " -> " << show(v));
            m[i] = v.array[i];
        }
        CHK(c, memcmp(&s, &s0, sizeof s) == 0, "source changed");
    }

    template <size_t N>
    static void set_n(V& v, T* m, int salt)
    {
        vmml::Vector<N, T> s;
        for (size_t i = 0; i < N; ++i)
            s.array[i] = full<T>(i, salt);
        v.set(s);
        for (size_t i = 0; i < N && i < M; ++i)
            m[i] = s.array[i];
    }

    static void set_few(Ctx& c, V& v, T* m, int salt)
    {
        const int most = M > 4 ? 4 : int(M);
        const int n = 1 + c.choose(most);
        T a[4];
        for (int i = 0; i < 4; ++i)
            a[i] = full<T>(i, salt);
        NOTE(c, "set of " << n << " values");
        few(v, a, n, std::integral_constant<size_t, (M > 4 ? 4 : M)>());
        for (size_t i = 0; i < M; ++i)
            if (n == 1)
                m[i] = a[0];
            else if (i < size_t(n))
                m[i] = a[i];
    }
    static void few(V& v, const T* a, int, std::integral_constant<size_t, 1>) { v.set(a[0]); }
    static void few(V& v, const T* a, int n, std::integral_constant<size_t, 2>)
    {
        if (n == 1) v.set(a[0]);
        else v.set(a[0], a[1]);
    }
    static void few(V& v, const T* a, int n, std::integral_constant<size_t, 3>)
    {
        if (n == 1) v.set(a[0]);
        else if (n == 2) v.set(a[0], a[1]);
        else v.set(a[0], a[1], a[2]);
    }
    static void few(V& v, const T* a, int n, std::integral_constant<size_t, 4>)
    {
        if (n == 1) v.set(a[0]);
        else if (n == 2) v.set(a[0], a[1]);
        else if (n == 3) v.set(a[0], a[1], a[2]);
        else v.set(a[0], a[1], a[2], a[3]);
    }
    // exact-size constructors
    static V ctor(const T* a, Sz<1>) { return V(a[0]); }
    static V ctor(const T* a, Sz<2>) { return V(a[0], a[1]); }
    static V ctor(const T* a, Sz<3>) { return V(a[0], a[1], a[2]); }
    static V ctor(const T* a, Sz<4>) { return V(a[0], a[1], a[2], a[3]); }
    template <size_t K>
    static V ctor(const T* a, Sz<K>) { return V(a); }

    static void element_write(Ctx& c, V& v, T* m, int salt)
    {
        const size_t i = size_t(c.choose(int(M)));
        const T x = full<T>(i + 29, salt);
        const int how = c.choose(9);
        NOTE(c, "write component " << i << " how " << how);
        switch (how)
        {
        case 0: v.at(i) = x; break;
        case 1: v(i) = x; break;
        case 2: v[i] = x; break;
        case 3: *(v.begin() + i) = x; break;
        case 4: *(v.rbegin() + (M - 1 - i)) = x; break;
        case 5: { T* p = v; p[i] = x; break; }
        case 6: v.template get_sub_vector<1>(i).x() = x; break;
        case 7: (i == 0 ? v.x() : i == 1 ? v.y() : i == 2 ? v.z() : i == 3 ? v.w() : v.array[i]) = x; break;
        default: (i == 0 ? v.r() : i == 1 ? v.g() : i == 2 ? v.b() : i == 3 ? v.a() : v.array[i]) = x; break;
        }
        m[i] = x;
    }

    static void ranges(Ctx& c, V& v, T* m, int salt)
    {
        const size_t n = size_t(c.choose(int(M) + 3));
        const int how = c.choose(4);
        std::vector<int> a(n + 1);
        for (size_t i = 0; i < n; ++i)
            a[i] = std::is_signed<T>::value ? int(value<int>(i, salt)) : std::abs(value<int>(i, salt));
        NOTE(c, "iter_set of " << n << " values how " << how);
        if (how == 3)
        {
            std::vector<T> f(n + 1);
            for (size_t i = 0; i < n; ++i)
                f[i] = full<T>(i, salt);
            v.iter_set(f.begin(), f.begin() + n);
            for (size_t i = 0; i < n && i < M; ++i)
                m[i] = f[i];
            return;
        }
        if (how == 0)
            v.iter_set(a.begin(), a.begin() + n);
        else if (how == 1)
        {
            std::list<double> l(a.begin(), a.begin() + n);
            v.iter_set(l.begin(), l.end());
        }
        else
        {
            std::istringstream is;
            std::ostringstream os;
            for (size_t i = 0; i < n; ++i)
                os << a[i] << " ";
            is.str(os.str());
            v.iter_set(std::istream_iterator<int>(is), std::istream_iterator<int>());
        }
        for (size_t i = 0; i < n && i < M; ++i)
            m[i] = static_cast<T>(a[i]);
    }
    static const int N_OPS = 17;

    static void apply(Ctx& c, int op, V& v, T* m, int salt)
    {
        T a[M + 4];
        for (size_t i = 0; i < M + 4; ++i)
            a[i] = full<T>(i, salt);
        switch (op)
        {
        case 0: // pointer assignment
        {
            V& r = (v = static_cast<const T*>(a));
            CHK(c, &r == &v, "operator=( const T* ) returns *this");
            memcpy(m, a, sizeof(T) * M);
            break;
        }
        case 1: // filler
        {
            const T r = (v = a[2]);
            CHK(c, same(r, a[2]), "operator=( T ) returns the filler");
            std::fill(m, m + M, a[2]);
            break;
        }
        case 2: // same type
        {
            const V o(static_cast<const T*>(a));
            V& r = (v = o);
            CHK(c, &r == &v, "operator= returns *this");
            memcpy(m, a, sizeof(T) * M);
            break;
        }
        case 3: // itself
        {
            V& r = v;
            v = r;
            break;
        }
        case 4: from<float>(c, v, m, salt); break;
        case 5: from<double>(c, v, m, salt); break;
        case 6: if (std::is_signed<T>::value) from<int>(c, v, m, salt); break;
        case 7: from<unsigned char>(c, v, m, salt); break;
        case 8: up(c, v, m, salt, std::integral_constant<bool, (M > 1)>()); break;
        case 9: down(c, v, m, salt); break;
        case 10: set_n<1>(v, m, salt); break;
        case 11: set_n<M>(v, m, salt); break;
        case 12: set_n<M + 2>(v, m, salt); break;
        case 13: set_few(c, v, m, salt); break;
        case 14: element_write(c, v, m, salt); break;
        case 15: ranges(c, v, m, salt); break;
        default:
            switch (c.choose(4))
            {
            case 0: v = V(); std::fill(m, m + M, T(0)); break;
            case 1: v = V(a[1]); std::fill(m, m + M, a[1]); break;
            case 2: v = ctor(a, Sz<M>()); memcpy(m, a, sizeof(T) * M); break;
            default: v = V(static_cast<const T*>(a)); memcpy(m, a, sizeof(T) * M); break;
            }
        }
    }
};

template <size_t M, typename T>
void history(Ctx& c, int depth)
{
    typedef vmml::Vector<M, T> V;
    Guarded<V> g;
    V& v = g.o;
    T m[M];
    for (size_t i = 0; i < M; ++i)
        v.array[i] = m[i] = T(40 + i);
    for (int d = 0; d < depth; ++d)
    {
        c.visit(hash_fp(m, M, hash_fp(v.array, M)), depth - d);
        const int op = c.choose(Mut<M, T>::N_OPS);
        NOTE(c, "Vector<" << M << "," << tname<T>() << "> op " << op << " on " << show(m, M));
        c.step();
        Mut<M, T>::apply(c, op, v, m, d);
        NOTE(c, "  -> " << show(v));
        std::ostringstream w;
        readers(c, v, m, "after a mutator");
        CHK_GUARD(c, g);
        c.state(hash_fp(m, M, mc::hash_val(d + 1000)));
    }
    c.outcome(hash_fp(m, M));
}

// converting element types: every value of a boundary alphabet
template <typename T, typename U>
void convert(Ctx& c)
{
    std::vector<U> src = {U(0), U(1), U(2), U(-1), U(100), U(127), U(0.5), U(1.75), U(-2.75), U(126.99), U(3.0000001)};
    src = plus(src, beyond<U>());
    vmml::Vector<3, U> o;
    for (int i = 0; i < 3; ++i)
    {
        o.array[i] = c.pick(src);
        if (!std::is_signed<T>::value && std::is_signed<U>::value && o.array[i] < U(0))
            o.array[i] = U(5); // outside the range of the target
        if (std::is_integral<T>::value && std::is_floating_point<U>::value && std::fabs((long double)o.array[i]) > (long double)(std::numeric_limits<T>::max()))
            o.array[i] = U(6); // outside the range of the target
    }
    c.state(hash_fp(o.array, 3));
    c.step(4);
    vmml::Vector<3, T> a(o), b, d(T(9)), e;
    b = o;
    d.cast_from(o);
    e.iter_set(o.begin(), o.end());
    for (int i = 0; i < 3; ++i)
    {
        const T w = static_cast<T>(o.array[i]);
        CHK(c, a.array[i] == w && b.array[i] == w && d.array[i] == w && e.array[i] == w, tname<U>() << " -> " << tname<T>() << " " << show(o) << " gives " << show(a) << show(b) << show(d) << show(e));
    }
}

// writes through overlapping sub-vector views
template <size_t M, size_t N, typename T>
void views(Ctx& c)
{
    typedef vmml::Vector<M, T> V;
    Guarded<V> g;
    V& v = g.o;
    T m[M];
    for (size_t i = 0; i < M; ++i)
        v.array[i] = m[i] = T(i + 1);
    const int steps = 3;
    for (int s = 0; s < steps; ++s)
    {
        c.visit(hash_fp(m, M), steps - s);
        const size_t o = size_t(c.choose(int(M - N) + 1));
        const int how = c.choose(3);
        vmml::Vector<N, T>& w = v.template get_sub_vector<N>(o);
        NOTE(c, "view<" << N << ">(" << o << ") how " << how);
        c.step();
        if (how == 0)
        {
            w = T(20 + s);
            for (size_t i = 0; i < N; ++i)
                m[o + i] = T(20 + s);
        }
        else if (how == 1)
        {
            w *= T(3);
            for (size_t i = 0; i < N; ++i)
                m[o + i] = T(m[o + i] * T(3));
        }
        else
        {
            vmml::Vector<N, T> x;
            for (size_t i = 0; i < N; ++i)
                x.array[i] = T(30 + i + 5 * s);
            w = x;
            for (size_t i = 0; i < N; ++i)
                m[o + i] = x.array[i];
        }
        readers(c, v, m, "after a view write");
        CHK_GUARD(c, g);
    }
}

template <typename T>
void constants(Ctx& c)
{
    typedef vmml::Vector<3, T> V;
    const struct
    {
        const V* v;
        int x, y, z;
        const char* n;
    } t[] = {{&V::FORWARD, 0, 0, -1, "FORWARD"}, {&V::BACKWARD, 0, 0, 1, "BACKWARD"}, {&V::UP, 0, 1, 0, "UP"}, {&V::DOWN, 0, -1, 0, "DOWN"}, {&V::LEFT, -1, 0, 0, "LEFT"}, {&V::RIGHT, 1, 0, 0, "RIGHT"}, {&V::ONE, 1, 1, 1, "ONE"}, {&V::ZERO, 0, 0, 0, "ZERO"}, {&V::UNIT_X, 1, 0, 0, "UNIT_X"}, {&V::UNIT_Y, 0, 1, 0, "UNIT_Y"}, {&V::UNIT_Z, 0, 0, 1, "UNIT_Z"}};
    const int i = c.choose(11);
    c.state(uint64_t(i));
    c.step();
    CHK(c, t[i].v->array[0] == T(t[i].x) && t[i].v->array[1] == T(t[i].y) && t[i].v->array[2] == T(t[i].z), t[i].n << " is " << show(*t[i].v));
}
template <size_t M, typename T>
void ones(Ctx& c)
{
    typedef vmml::Vector<M, T> V;
    c.step();
    for (size_t i = 0; i < M; ++i)
        CHK(c, V::ONE.array[i] == T(1) && V::ZERO.array[i] == T(0), "ONE/ZERO of dimension " << M);
    V d;
    for (size_t i = 0; i < M; ++i)
        CHK(c, d.array[i] == T(0), "default vector is zero");
}

// the homogeneous divide for every w: close to one, small, large
template <size_t M, typename T>
void homogeneous_w(Ctx& c)
{
    const std::vector<T> lad = ladder<T>(1, true), dec = decades<T>();
    const T w = (c.flip() ? T(1) + c.pick(lad) : c.pick(dec)) * (c.flip() ? T(-1) : T(1));
    const int salt = c.choose(4), how = c.choose(2);
    vmml::Vector<M + 1, T> s;
    for (size_t i = 0; i < M; ++i)
        s.array[i] = full<T>(i, salt);
    s.array[M] = w;
    const vmml::Vector<M + 1, T> s0(s);
    Guarded<vmml::Vector<M, T>> g;
    if (how)
        g.o = s;
    else
        g.o = vmml::Vector<M, T>(s);
    c.step();
    c.state(hash_fp(s.array, M + 1));
    for (size_t i = 0; i < M; ++i)
        CHK(c, near(g.o.array[i], T((long double)s0.array[i] / s0.array[M]), 0, 2), "homogeneous divide " << show(s0) << " -> " << show(g.o));
    CHK(c, memcmp(&s, &s0, sizeof s) == 0, "source changed");
    CHK_GUARD(c, g);
}

template <size_t M, typename T>
void reg()
{
    const std::string n = std::to_string(M) + "x" + tname<T>();
    mc::add("history_" + n, [](Ctx& c) { history<M, T>(c, (c.thorough() ? 4 : 2) + (M <= 2 ? 1 : 0)); }, "all sequences of constructors, setters, assignments, conversions and element writes; every accessor read after each");
    mc::add("ones_" + n, ones<M, T>, "ONE, ZERO, default");
}
template <typename T>
void all()
{
    reg<1, T>();
    reg<2, T>();
    reg<3, T>();
    reg<4, T>();
    reg<5, T>();
    mc::add("convert_float_" + tname<T>(), convert<T, float>, "");
    mc::add("convert_double_" + tname<T>(), convert<T, double>, "");
    mc::add("convert_int_" + tname<T>(), convert<T, int>, "");
    mc::add("convert_llong_" + tname<T>(), convert<T, long long>, "");
    mc::add("convert_ulong_" + tname<T>(), convert<T, unsigned long>, "");
    mc::add("convert_short_" + tname<T>(), convert<T, short>, "");
    mc::add("convert_uchar_" + tname<T>(), convert<T, unsigned char>, "");
    mc::add("views_4_2_" + tname<T>(), views<4, 2, T>, "");
    mc::add("views_5_3_" + tname<T>(), views<5, 3, T>, "");
}
template <typename T>
void signed_only()
{
    mc::add("constants_" + tname<T>(), constants<T>, "");
}
} // namespace

REGISTER_BLOCK(c03)
{
#if PART == 0
    all<float>();
    signed_only<float>();
    reg<9, float>();
    mc::add("homogeneous_w_2_float", homogeneous_w<2, float>, "");
    mc::add("homogeneous_w_3_float", homogeneous_w<3, float>, "");
#elif PART == 1
    all<double>();
    signed_only<double>();
    mc::add("homogeneous_w_3_double", homogeneous_w<3, double>, "");
    mc::add("homogeneous_w_4_double", homogeneous_w<4, double>, "");
#elif PART == 2
    all<int>();
    signed_only<int>();
    reg<17, int>();
#elif PART == 3
    all<unsigned>();
#elif PART == 4
    all<unsigned char>();
#elif PART == 7
    all<signed char>();
    signed_only<signed char>();
    all<unsigned short>();
#elif PART == 8
    reg<64, float>();
    reg<100, double>();
#elif PART == 9
    reg<257, short>();
#elif PART == 6
    reg<6, float>();
    reg<7, double>();
    reg<8, int>();
    reg<12, short>();
    reg<16, float>();
    reg<33, unsigned char>();
#else
    all<long long>();
    signed_only<long long>();
    signed_only<short>();
#endif
}
MC_MAIN()
