// C01: vector arithmetic is exactly element-wise.
#include <vmmlib/vector.hpp>
#include "mc/common.hpp"
using namespace h;

namespace
{
enum Op
{
    ADD,
    SUB,
    MUL,
    DIV
};
template <typename T>
T ref(Op op, T a, T b)
{
    switch (op)
    {
    case ADD:
        return static_cast<T>(a + b);
    case SUB:
        return static_cast<T>(a - b);
    case MUL:
        return static_cast<T>(a * b);
    default:
        return static_cast<T>(a / b);
    }
}
const char* opname[] = {"+", "-", "*", "/"};

enum Form
{
    VV,      // a op b
    VV_SELF, // a op a
    VVC,     // a op= b
    VVC_SELF,
    VS,  // a op s
    VSC, // a op= s
    VS_OWN,  // a op a[i]
    VSC_OWN, // a op= a[i]
    SV,      // s * a
    NEG,
    NEGC, // negate()
    N_FORMS
};
const char* formname[] = {"v op v", "v op itself", "v op= v", "v op= itself",
                          "v op s", "v op= s", "v op own component",
                          "v op= own component", "s*v", "-v", "negate()"};

// the same value bit for bit, any NaN for a NaN: 0 and -0 differ
template <typename T>
bool exact(T a, T b)
{
    return same(a, b) && (a != T(0) || !std::is_floating_point<T>::value || std::signbit((double)a) == std::signbit((double)b));
}

template <size_t M, typename T>
void one_op(Ctx& c, const std::vector<T>& alpha, double full)
{
    typedef vmml::Vector<M, T> V;
    const int form = c.choose(N_FORMS);
    const Op op = form == SV ? MUL
                             : form == NEG || form == NEGC ? SUB
                                                           : Op(c.choose(4));
    const bool intdiv = op == DIV && !std::is_floating_point<T>::value;
    const std::vector<T> alphab = intdiv ? nonzero(alpha) : alpha;
    const bool self = form == VV_SELF || form == VVC_SELF || form == VS_OWN ||
                      form == VSC_OWN;
    const int kind = c.choose(2);
    c.deviations((M >= 8 ? 1 : 2) + (c.thorough() && M < 17 ? 1 : 0));
    Guarded<V> ga;
    Guarded<V> gb;
    V& a = ga.o;
    V& b = gb.o;
    fill(c, a.array, M, self ? alphab : alpha, kind, full);
    T s = T(1);
    size_t own = 0;
    if (form == VV || form == VVC)
        fill(c, b.array, M, alphab, 1 - kind, full);
    else if (form == VS || form == VSC || form == SV)
        s = c.pick(alphab);
    else if (form == VS_OWN || form == VSC_OWN)
    {
        own = c.choose(M);
        s = a.array[own];
    }
    T a0[M], b0[M], want[M];
    memcpy(a0, a.array, sizeof a0);
    memcpy(b0, b.array, sizeof b0);
    NOTE(c, "Vector<" << M << "," << tname<T>() << "> " << formname[form] << " "
                      << opname[op] << " a=" << show(a0, M)
                      << " b=" << show(b0, M) << " s=" << +s);
    // signed overflow: the scalar operator has no result either
    for (size_t i = 0; i < M; ++i)
    {
        const T x = form == NEG || form == NEGC ? T(0) : a0[i];
        const T y = form == NEG || form == NEGC ? a0[i]
                    : form == VV || form == VVC ? b0[i]
                    : form == VV_SELF || form == VVC_SELF ? a0[i] : s;
        if (undefined_op(op, x, y))
            return;
    }
    c.state(hash_fp(a0, M, hash_fp(b0, M, mc::hash_val(form * 4 + op,
                                                       hash_fp(&s, 1, M)))));
    bool inplace = false;
    V r;
    for (size_t i = 0; i < M; ++i)
        switch (form)
        {
        case VV:
        case VVC:
            want[i] = ref(op, a0[i], b0[i]);
            break;
        case VV_SELF:
        case VVC_SELF:
            want[i] = ref(op, a0[i], a0[i]);
            break;
        case SV:
            want[i] = ref(MUL, a0[i], s);
            break;
        case NEG:
        case NEGC:
            want[i] = static_cast<T>(-a0[i]);
            break;
        default:
            want[i] = ref(op, a0[i], s);
        }
    const V& ca = a;
    c.step();
    switch (form)
    {
    case VV:
        r = op == ADD ? ca + b : op == SUB ? ca - b : op == MUL ? ca * b : ca / b;
        break;
    case VV_SELF:
        r = op == ADD ? ca + a : op == SUB ? ca - a : op == MUL ? ca * a : ca / a;
        break;
    case VVC:
    case VVC_SELF:
    {
        const V& o = form == VVC ? b : a;
        if (op == ADD)
            a += o;
        else if (op == SUB)
            a -= o;
        else if (op == MUL)
            a *= o;
        else
            a /= o;
        inplace = true;
        break;
    }
    case VS:
        r = op == ADD ? ca + s : op == SUB ? ca - s : op == MUL ? ca * s : ca / s;
        break;
    case VS_OWN:
    {
        const T& e = a.array[own];
        r = op == ADD ? ca + e : op == SUB ? ca - e : op == MUL ? ca * e : ca / e;
        break;
    }
    case VSC:
    case VSC_OWN:
    {
        const T& e = form == VSC ? s : a.array[own];
        if (op == ADD)
            a += e;
        else if (op == SUB)
            a -= e;
        else if (op == MUL)
            a *= e;
        else
            a /= e;
        inplace = true;
        break;
    }
    case SV:
        r = s * ca;
        break;
    case NEG:
        r = -ca;
        break;
    default:
    {
        const V& back = a.negate();
        CHK(c, &back == &a, "negate() must return the vector itself");
        inplace = true;
    }
    }
    const T* got = inplace ? a.array : r.array;
    for (size_t i = 0; i < M; ++i)
        CHK(c, exact(got[i], want[i]),
            "Vector<" << M << "," << tname<T>() << "> " << formname[form] << " "
                      << opname[op] << " component " << i << ": a="
                      << show(a0, M) << " b=" << show(b0, M) << " s=" << +s
                      << " got " << show(got, M) << " want " << show(want, M));
    if (!inplace)
        CHK(c, memcmp(a.array, a0, sizeof a0) == 0, "left operand changed");
    CHK(c, memcmp(b.array, b0, sizeof b0) == 0, "right operand changed");
    CHK_GUARD(c, ga);
    CHK_GUARD(c, gb);
    c.outcome(hash_fp(got, M));
}

// every exponent (narrow integers: every value) as one component or as the
// scalar, beside ordinary numbers
template <typename T>
void exponents(Ctx& c)
{
    typedef vmml::Vector<3, T> V;
    const T x = pick_sweep<T>(c);
    static const std::vector<T> ord = std::is_floating_point<T>::value ? std::vector<T>{T(1), T(-3), T(1) / T(3)} : std::vector<T>{T(1), T(2), T(7)};
    const T y = c.pick(ord);
    const size_t at = size_t(c.choose(3));
    const Op op = Op(c.choose(4));
    const bool left = c.flip();
    const V a(T(5), T(2), T(3)), b(T(1), T(4), T(2));
    V l(a), r(b);
    (left ? l : r).array[at] = x;
    (left ? r : l).array[at] = y;
    for (size_t i = 0; i < 3; ++i)
        if (undefined_op(op, l.array[i], r.array[i]))
            return;
    c.step(3);
    c.state(hash_fp(l.array, 3, hash_fp(r.array, 3, op)));
    const V lc(l), rc(r);
    const V v1 = op == ADD ? lc + rc : op == SUB ? lc - rc : op == MUL ? lc * rc : lc / rc;
    V v2(l);
    op == ADD ? v2 += rc : op == SUB ? v2 -= rc : op == MUL ? v2 *= rc : v2 /= rc;
    for (size_t i = 0; i < 3; ++i)
    {
        const T w = ref(op, l.array[i], r.array[i]);
        CHK(c, exact(v1.array[i], w) && exact(v2.array[i], w), show(l) << " " << opname[op] << " " << show(r) << " is " << show(v1) << " / " << show(v2) << ", component " << i << " want " << +w);
    }
    CHK(c, memcmp(&l, &lc, sizeof l) == 0 && memcmp(&r, &rc, sizeof r) == 0, "operand changed");
    // the scalar forms with the scalar on the right
    const T s = r.array[at];
    for (size_t i = 0; i < 3; ++i)
        if (undefined_op(op, l.array[i], s))
            return;
    const V v3 = op == ADD ? lc + s : op == SUB ? lc - s : op == MUL ? lc * s : lc / s;
    V v4(l), v5(v3);
    op == ADD ? v4 += s : op == SUB ? v4 -= s : op == MUL ? v4 *= s : v4 /= s;
    if (op == MUL)
        v5 = s * lc;
    for (size_t i = 0; i < 3; ++i)
    {
        const T w = ref(op, l.array[i], s);
        CHK(c, exact(v3.array[i], w) && exact(v4.array[i], w) && exact(v5.array[i], w), show(l) << " " << opname[op] << " " << +s << " is " << show(v3) << " / " << show(v4) << " / " << show(v5) << ", component " << i << " want " << +w);
    }
    for (size_t i = 0; i < 3; ++i)
        if (undefined_op(SUB, T(0), l.array[i]))
            return;
    const V v6 = -lc;
    V v7(l);
    v7.negate();
    for (size_t i = 0; i < 3; ++i)
        CHK(c, exact(v6.array[i], T(-l.array[i])) && exact(v7.array[i], T(-l.array[i])), "negation of " << show(l) << " is " << show(v6) << " / " << show(v7));
}
// Histories of in-place operations on one vector, model = plain array.
template <size_t M, typename T>
void history(Ctx& c, int depth)
{
    typedef vmml::Vector<M, T> V;
    Guarded<V> g;
    V& v = g.o;
    T m[M];
    const std::vector<T> scal = {T(1), T(2), T(3)};
    for (size_t i = 0; i < M; ++i)
        m[i] = v.array[i] = c.choose(2) ? T(i + 1) : T(5);
    NOTE(c, "Vector<" << M << "," << tname<T>() << "> start " << show(m, M));
    for (int d = 0; d < depth; ++d)
    {
        c.visit(hash_fp(m, M, hash_fp(v.array, M)), depth - d);
        const int k = c.choose(9);
        T want[M];
        memcpy(want, m, sizeof m);
        V other;
        for (size_t i = 0; i < M; ++i)
            other.array[i] = T(i % 3 + 1);
        const T s = k < 4 ? c.pick(scal) : T(2);
        c.step();
        for (size_t i = 0; i < M; ++i)
            switch (k)
            {
            case 0:
            case 1:
            case 2:
            case 3:
                want[i] = ref(Op(k), m[i], s);
                break;
            case 4:
                want[i] = ref(ADD, m[i], other.array[i]);
                break;
            case 5:
                want[i] = ref(SUB, m[i], other.array[i]);
                break;
            case 6:
                want[i] = ref(MUL, m[i], other.array[i]);
                break;
            case 7:
                want[i] = ref(DIV, m[i], other.array[i]);
                break;
            default:
                want[i] = T(-m[i]);
            }
        switch (k)
        {
        case 0:
            v += s;
            break;
        case 1:
            v -= s;
            break;
        case 2:
            v *= s;
            break;
        case 3:
            v /= s;
            break;
        case 4:
            v += other;
            break;
        case 5:
            v -= other;
            break;
        case 6:
            v *= other;
            break;
        case 7:
            v /= other;
            break;
        default:
            v.negate();
        }
        NOTE(c, "op " << k << " s=" << +s << " -> " << show(v.array, M));
        for (size_t i = 0; i < M; ++i)
            CHK(c, exact(v.array[i], want[i]),
                "history step " << d << " op " << k << ": got "
                                << show(v.array, M) << " want "
                                << show(want, M));
        memcpy(m, want, sizeof m);
        if (std::is_floating_point<T>::value)
            for (size_t i = 0; i < M; ++i)
                if (std::fabs((double)m[i]) > 1e6)
                    return;
        if (std::is_signed<T>::value && !std::is_floating_point<T>::value)
            for (size_t i = 0; i < M; ++i)
                if (std::fabs((double)m[i]) > 4000)
                    return;
    }
    CHK_GUARD(c, g);
}

template <size_t M, typename T>
void reg()
{
    const std::string n = std::to_string(M) + "x" + tname<T>();
    mc::add("wide_" + n,
            [](Ctx& c) { one_op<M, T>(c, plus(Alpha<T>::wide(), beyond<T>()), c.thorough() ? 300 : 20); },
            "every operator form, values from the wide alphabet (limits, inf, "
            "NaN), full product while <= 300 tuples, else <=2 (3) deviations");
}
template <size_t M, typename T>
void reg_small()
{
    const std::string n = std::to_string(M) + "x" + tname<T>();
    mc::add("full_" + n,
            [](Ctx& c) {
                one_op<M, T>(c, Alpha<T>::small(), c.thorough() ? 1300 : 40);
            },
            "every operator form, full product of the small alphabet");
}
// every number of components
template <size_t M, size_t E, typename T>
struct Sizes
{
    static void reg()
    {
        mc::add("size_" + std::to_string(M) + "x" + tname<T>(), [](Ctx& c) { one_op<M, T>(c, {T(3), T(0), std::numeric_limits<T>::max()}, 0); }, "every operator form, <=1 deviation");
        Sizes<M + 1, E, T>::reg();
    }
};
template <size_t E, typename T>
struct Sizes<E, E, T>
{
    static void reg() {}
};
template <typename T>
void reg_all()
{
    reg<1, T>();
    reg<2, T>();
    reg<3, T>();
    reg<4, T>();
    reg<5, T>();
    reg<8, T>();
    reg<17, T>();
    reg_small<1, T>();
    reg_small<2, T>();
    reg_small<3, T>();
    reg_small<4, T>();
    mc::add("exponents_" + tname<T>(), exponents<T>, "every exponent (narrow integers: every value) in either operand");
    mc::add("history_3x" + tname<T>(),
            [](Ctx& c) { history<3, T>(c, c.thorough() ? 7 : 5); },
            "all sequences of in-place operations against an array model");
}
} // namespace

REGISTER_BLOCK(c01)
{
#if PART == 0
    reg_all<float>();
#elif PART == 1
    reg_all<double>();
#elif PART == 2
    reg_all<int>();
#elif PART == 3
    reg_all<unsigned>();
#elif PART == 4
    reg_all<unsigned char>();
#elif PART == 5
    reg_all<short>();
#elif PART == 6
    reg_all<long long>();
    reg_all<unsigned long>();
#elif PART == 8
    reg_all<signed char>();
    reg_all<unsigned short>();
#elif PART == 10
    Sizes<64, 65, float>::reg();
    Sizes<100, 101, double>::reg();
    Sizes<128, 129, int>::reg();
    Sizes<257, 258, unsigned char>::reg();
#elif PART == 7
    Sizes<6, 36, float>::reg();
#else
    Sizes<6, 20, int>::reg();
    Sizes<6, 20, double>::reg();
    Sizes<6, 20, unsigned char>::reg();
#endif
}
MC_MAIN()
