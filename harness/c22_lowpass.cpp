// C22: low-pass filter histories against a window model.
#include <vmmlib/lowpass_filter.hpp>
#include <vmmlib/vector.hpp>
#include "mc/common.hpp"
#include <deque>
using namespace h;

namespace
{
typedef long double L;
template <typename T>
struct Elem
{
    static const int N = 1;
    typedef T S;
    static T make(const L* v) { return T(v[0]); }
    static L get(const T& v, int) { return v; }
};
template <size_t M, typename T>
struct Elem<vmml::Vector<M, T>>
{
    static const int N = M;
    typedef T S;
    static vmml::Vector<M, T> make(const L* v)
    {
        vmml::Vector<M, T> r;
        for (size_t i = 0; i < M; ++i)
            r.array[i] = T(v[i]);
        return r;
    }
    static L get(const vmml::Vector<M, T>& v, int i) { return v.array[i]; }
};
// through operator->
template <typename F, typename T>
L arrow(const F& f, const T*, int)
{
    return *f.operator->();
}
template <typename F, size_t M, typename T>
L arrow(const F& f, const vmml::Vector<M, T>*, int i)
{
    return f->array[i];
}

template <size_t W, typename T>
void history(Ctx& c, int depth, bool fine)
{
    typedef vmml::LowpassFilter<W, T> F;
    typedef Elem<T> E;
    const int N = E::N;
    static const float usual[] = {0.f, 0.5f, 1.f, 0.3f};
    // weights whose powers become tiny, in front of values that are not
    static const float small[] = {1.f / 32, 1.f / 1024, 0.f, 1e-6f};
    static const L values[][4] = {{1, -2, 8, 0.5L}, {0, 0, 0, 0}, {-3, 5, 0.1L, 100}, {1000, 1e-3L, -7, 3}, {INFINITY, INFINITY, INFINITY, INFINITY}};
    const float* const factors = fine ? small : usual;
    float f = factors[c.choose(4)];
    const bool fresh = c.flip();
    std::unique_ptr<F> p(new F(f));
    std::deque<std::vector<L>> win;
    bool added = false;
    std::vector<L> out(N), tol(N);
    bool defined = false; // infinities in the window make the output undefined
    if (!fresh) // a filter with a past
        for (int i = 0; i < int(W) + 2; ++i)
        {
            L v[4] = {L(i) * 3 - 1, L(i), -L(i), 2};
            p->add(E::make(v));
            win.push_front(std::vector<L>());
            for (int j = 0; j < N; ++j)
                win.front().push_back(E::get(E::make(v), j));
            if (win.size() > W)
                win.pop_back();
        }
    for (int i = 0; i < depth; ++i)
    {
        const int op = c.choose(11);
        c.step();
        if (op < 6)
        {
            if (op == 5 && !(added && defined))
                return;
            std::vector<L> x(N);
            T ret;
            if (op == 5)
            {
                for (int j = 0; j < N; ++j)
                    x[j] = E::get(p->get(), j);
                ret = p->add(p->get()); // its own output
            }
            else
            {
                const T v = E::make(values[op]);
                const T v0(v);
                for (int j = 0; j < N; ++j)
                    x[j] = E::get(v, j);
                ret = p->add(v);
                for (int j = 0; j < N; ++j)
                    CHK(c, E::get(v, j) == E::get(v0, j), "the added value changed");
            }
            win.push_front(x);
            if (win.size() > W)
                win.pop_back();
            added = true;
            defined = true;
            for (int j = 0; j < N; ++j)
            {
                const L eps = std::numeric_limits<typename E::S>::epsilon();
                L big = 0, e = 0; // e: bound of the accumulated rounding
                L w = f;
                out[j] = win[0][j];
                for (size_t k = 0; k < win.size(); ++k)
                {
                    if (k)
                    {
                        e = e * std::fabs(1 - w) + 4 * eps * ((std::fabs(1 - w) + k * w) * std::fabs(out[j]) + std::fabs(win[k][j] * w) * (1 + k));
                        out[j] = out[j] * (1 - w) + win[k][j] * w;
                        w *= f;
                    }
                    big = std::max(big, std::fabs(win[k][j]));
                }
                if (!(big < 1e30L))
                    defined = false;
                tol[j] = e + W * std::numeric_limits<typename E::S>::min();
                if (defined)
                    CHK(c, std::fabs(E::get(ret, j) - out[j]) <= tol[j], "add number " << i << " (factor " << f << ", window " << win.size() << ") returns " << double(E::get(ret, j)) << " want " << double(out[j]));
                if (f == 0 && defined)
                    CHK(c, E::get(ret, j) == x[j], "factor 0 returns " << double(E::get(ret, j)) << " instead of the newest value " << double(x[j]));
            }
            NOTE(c, "add " << double(x[0]) << " -> " << double(E::get(ret, 0)));
        }
        else if (op < 10)
        {
            f = factors[op - 6];
            p->set_smooth_factor(f);
            NOTE(c, "factor " << f);
        }
        else
        {
            // a copy continues on its own; the original is left behind
            std::unique_ptr<F> q(new F(*p));
            L v[4] = {55, 66, 77, 88};
            p->add(E::make(v));
            p->set_smooth_factor(0.9f);
            p.swap(q);
            NOTE(c, "copy");
        }
        uint64_t hs = mc::hash_val(f, mc::hash_val(added));
        for (size_t k = 0; k < win.size(); ++k)
            for (int j = 0; j < N; ++j)
                hs = mc::hash_val(double(win[k][j]), hs);
        if (added && defined)
            for (int j = 0; j < N; ++j)
            {
                hs = mc::hash_val(double(out[j]), hs);
                const F& cf = *p;
                const L a = E::get(cf.get(), j), b = E::get(*cf, j), d = arrow(cf, (const T*)0, j);
                CHK(c, a == b && a == d, "get, * and -> report different values");
                CHK(c, std::fabs(a - out[j]) <= tol[j], "after step " << i << " get reports " << double(a) << " want " << double(out[j]));
            }
        c.visit(hs, depth - i - 1);
    }
}
// constant input
template <size_t W, typename T>
void constant(Ctx& c)
{
    typedef Elem<T> E;
    const int nf = 21;
    const float f = float(c.choose(nf)) / (nf - 1);
    static const L values[][4] = {{1, -2, 8, 0.5L}, {0.1L, 0.3L, -7.7L, 1e-6L}, {-3e8L, 5, 2.5e-9L, 100}};
    const L* v = values[c.choose(3)];
    const T x = E::make(v);
    vmml::LowpassFilter<W, T> p(f);
    for (int i = 0; i < 3 * int(W); ++i)
    {
        const T r = p.add(x);
        c.step();
        for (int j = 0; j < E::N; ++j)
            CHK(c, std::fabs(E::get(r, j) - E::get(x, j)) <= 4 * W * std::numeric_limits<typename E::S>::epsilon() * std::fabs(E::get(x, j)), "constant input " << double(E::get(x, j)) << " with factor " << f << " gives " << double(E::get(r, j)));
    }
    c.state(mc::hash_val(f, mc::hash_val(double(v[0]))));
}
// factors next to 0, to 1/2 and to 1, over values which are almost equal or
// differ by every order of magnitude
template <size_t W, typename T>
void fine_factors(Ctx& c)
{
    typedef Elem<T> E;
    static const std::vector<float> lad = ladder<float>(1, true);
    static const std::vector<L> vl = ladder<L>(1, true);
    static const float base[] = {0.f, 0.5f, 1.f};
    const float f = c.pick(base) + c.pick(lad);
    if (f < 0 || f > 1)
        return;
    const L d = c.pick(vl);
    const bool around = c.flip();
    vmml::LowpassFilter<W, T> p(c.flip() ? f : 0.25f);
    p.set_smooth_factor(f);
    std::deque<std::vector<L>> win;
    for (int i = 0; i < int(W) + 2; ++i)
    {
        L v[4];
        for (int j = 0; j < 4; ++j)
            v[j] = (around ? 1 + j : 0) + (i % 2 ? d : -d * j) * (i % 3 + 1);
        const T x = E::make(v);
        win.push_front(std::vector<L>());
        for (int j = 0; j < E::N; ++j)
            win.front().push_back(E::get(x, j));
        if (win.size() > W)
            win.pop_back();
        const T ret = p.add(x);
        c.step();
        for (int j = 0; j < E::N; ++j)
        {
            const L eps = std::numeric_limits<typename E::S>::epsilon();
            L e = 0, w = f, out = win[0][j];
            for (size_t k = 1; k < win.size(); ++k)
            {
                e = e * std::fabs(1 - w) + 4 * eps * ((std::fabs(1 - w) + k * w) * std::fabs(out) + std::fabs(win[k][j] * w) * (1 + k));
                out = out * (1 - w) + win[k][j] * w;
                w *= f;
            }
            CHK(c, std::fabs(E::get(ret, j) - out) <= e + W * std::numeric_limits<typename E::S>::min(), "add number " << i << " (factor " << f << ", window " << win.size() << ") returns " << double(E::get(ret, j)) << " want " << double(out));
        }
        c.state(mc::hash_val(f, mc::hash_val(double(d), mc::hash_val(i))));
    }
}
// long windows: every input value one deviation from a ramp
template <size_t W, typename T>
void window(Ctx& c)
{
    typedef Elem<T> E;
    static const float factors[] = {0.9375f, 0.5f, 0.99f, 1.f, 0.1f, 0.f};
    const float f = c.pick(factors);
    vmml::LowpassFilter<W, T> p(f);
    std::deque<std::vector<L>> win;
    c.deviations(c.thorough() && W < 40 ? 2 : 1);
    for (int i = 0; i < int(2 * W) + 3; ++i)
    {
        static const L other[] = {0, -1000, 1e6L};
        const int d = c.dev(4);
        L v[4];
        for (int j = 0; j < 4; ++j)
            v[j] = d ? other[d - 1] : L(i + 1) * (j % 2 ? -3 : 2);
        const T x = E::make(v);
        win.push_front(std::vector<L>());
        for (int j = 0; j < E::N; ++j)
            win.front().push_back(E::get(x, j));
        if (win.size() > W)
            win.pop_back();
        const T ret = p.add(x);
        c.step();
        for (int j = 0; j < E::N; ++j)
        {
            const L eps = std::numeric_limits<typename E::S>::epsilon();
            L e = 0, w = f, out = win[0][j];
            for (size_t k = 1; k < win.size(); ++k)
            {
                e = e * std::fabs(1 - w) + 4 * eps * ((std::fabs(1 - w) + k * w) * std::fabs(out) + std::fabs(win[k][j] * w) * (1 + k));
                out = out * (1 - w) + win[k][j] * w;
                w *= f;
            }
            CHK(c, std::fabs(E::get(ret, j) - out) <= e + W * std::numeric_limits<typename E::S>::min(), "add number " << i << " (factor " << f << ", window " << win.size() << ") returns " << double(E::get(ret, j)) << " want " << double(out));
            c.state(mc::hash_val(double(E::get(ret, j)), mc::hash_val(i)));
        }
    }
}
#define S(x) std::to_string(x)
template <size_t W, typename T>
void reg(const std::string& n)
{
    mc::add("history_w" + S(W) + n, [](Ctx& c) { history<W, T>(c, (c.thorough() ? 7 : 5) - (W > 5), false); }, "add / set_smooth_factor / copy histories");
    mc::add("small_w" + S(W) + n, [](Ctx& c) { history<W, T>(c, (c.thorough() ? 6 : 4) - (W > 5), true); }, "the same with weights whose powers become tiny");
    mc::add("fine_w" + S(W) + n, fine_factors<W, T>, "factors and values close to each other at every order of magnitude");
    mc::add("constant_w" + S(W) + n, constant<W, T>, "constant input");
}
template <typename T>
void regs(const std::string& n)
{
    reg<1, T>(n);
    reg<2, T>(n);
    reg<3, T>(n);
    reg<4, T>(n);
    reg<5, T>(n);
    reg<9, T>(n);
    mc::add("window_w16" + n, window<16, T>, "long windows");
    mc::add("window_w17" + n, window<17, T>, "");
    mc::add("window_w20" + n, window<20, T>, "");
    mc::add("window_w33" + n, window<33, T>, "");
    mc::add("window_w65" + n, window<65, T>, "");
    mc::add("window_w130" + n, window<130, T>, "");
}
} // namespace

REGISTER_BLOCK(c22)
{
#if PART == 0
    regs<float>("float");
    regs<double>("double");
#else
    regs<vmml::Vector<3, float>>("v3float");
    regs<vmml::Vector<4, double>>("v4double");
    reg<3, vmml::Vector<2, float>>("v2float");
#endif
}
MC_MAIN()
