// C13: quantise / dequantise.
#include <vmmlib/matrix.hpp>
#include "mc/common.hpp"
using namespace h;

namespace
{
typedef long double LD;
const double RANGES[][2] = {{0, 1}, {-1, 1}, {-1, 3}, {2, 10}, {-10, -2}, {0, 255}, {-0.001, 0.002}, {-1e6, 1e6}, {-3, 3}, {0, 65535}, {-128, 127}, {100, 100.5}};
const int NR = 12;
template <typename T, typename TT>
struct Q
{
    static bool sg() { return std::is_signed<TT>::value; }
    static LD R() { return LD(std::numeric_limits<TT>::max()) - LD(std::numeric_limits<TT>::min()); }
    // |code - exact| bound beyond the ideal one
    static LD slack(LD mn, LD mx)
    {
        const LD range = mx - mn, big = std::max(std::fabs(mn), std::fabs(mx));
        return 8 * std::numeric_limits<T>::epsilon() * R() * std::max<LD>(1, big / range);
    }
    static LD exact(LD x, LD mn, LD mx)
    {
        const LD e = (sg() ? x : x - mn) * R() / (mx - mn);
        return std::min<LD>(std::max<LD>(e, std::numeric_limits<TT>::min()), std::numeric_limits<TT>::max());
    }
    // the repository's own test fixes truncation after adding one half for
    // negative values of signed codes: up to 1.5 codes towards zero
    static bool close(LD got, LD x, LD mn, LD mx)
    {
        const LD d = got - exact(x, mn, mx), sl = slack(mn, mx);
        return d >= -0.5 - sl && d <= (sg() && x < 0 ? 1.5 : 0.5) + sl;
    }
    static bool usable(int r) { return !sg() || RANGES[r][0] == -RANGES[r][1]; }
};
const size_t W = 16;

// windows of 16 consecutive grid points; the grid has 4 points per code:
// centre, just below / at / just above the boundary to the next code
template <typename T, typename TT>
void grid_range(Ctx& c, int stride, T mn, T mx);
template <typename T, typename TT>
void grid(Ctx& c, int stride)
{
    const int r = c.choose(NR);
    if (!Q<T, TT>::usable(r))
        return;
    grid_range<T, TT>(c, stride, T(RANGES[r][0]), T(RANGES[r][1]));
}
// ranges of every order of magnitude: [0,s], [-s,s], [-s,0], [s,3s], [1,1+s]
template <typename T, typename TT>
void ranges(Ctx& c, int stride)
{
    static const std::vector<T> dec = decades<T>(sizeof(T) == 4 ? 1 : 4);
    const T s = c.pick(dec);
    const int kind = c.choose(5);
    if (Q<T, TT>::sg() && kind != 1)
        return;
    const T mn = kind == 0 ? T(0) : kind == 1 || kind == 2 ? -s : kind == 3 ? s : T(1), mx = kind <= 1 ? s : kind == 2 ? T(0) : kind == 3 ? T(3 * s) : T(1 + s);
    if (!((mx - mn) * 1e-3L > std::numeric_limits<T>::epsilon() * std::max(std::fabs(mn), std::fabs(mx))))
        return;
    grid_range<T, TT>(c, stride, mn, mx);
}
template <typename T, typename TT>
void grid_range(Ctx& c, int stride, T mn, T mx)
{
    typedef Q<T, TT> q;
    const long total = long(q::R()) * 4 + 64; // 8 codes beyond either end
    const int windows = int(total / long(W * stride)) + 1;
    const long first = (long)c.choose(windows) * long(W * stride) - 32;
    const LD step = ((LD)mx - mn) / q::R();
    vmml::Matrix<4, 4, T> m, d;
    vmml::Matrix<4, 4, TT> code;
    static const LD off[4] = {0, 0.499, 0.5, 0.501};
    const LD lo = q::sg() ? -(LD)(mx - mn) / 2 : (LD)mn;
    for (size_t i = 0; i < W; ++i)
    {
        const long p = first + long(i) * stride;
        const long k = (p >= 0 ? p / 4 : -((-p + 3) / 4));
        m.array[i] = T(lo + step * (k + off[p - k * 4]));
        code.array[i] = TT(85);
        d.array[i] = T(77);
    }
    Frozen<vmml::Matrix<4, 4, T>> fm(m);
    const vmml::Matrix<4, 4, T>& cm = m;
    cm.quantize_to(code, mn, mx);
    Frozen<vmml::Matrix<4, 4, TT>> fc(code);
    const vmml::Matrix<4, 4, TT>& cc = code;
    cc.dequantize(d, mn, mx);
    c.step(2);
    c.state(hash_fp(m.array, W));
    c.outcome(hash_fp(code.array, W));
    const LD sl = q::slack(mn, mx);
    for (size_t i = 0; i < W; ++i)
    {
        const LD e = q::exact(m.array[i], mn, mx), got = code.array[i];
        CHK(c, q::close(got, m.array[i], mn, mx), tname<T>() << " value " << double(m.array[i]) << " in [" << mn << "," << mx << "] quantises to " << double(got) << ", exact position " << double(e));
        if (!q::sg())
        {
            if (m.array[i] <= mn)
                CHK(c, got == 0, "value at or below the minimum quantises to " << double(got));
            if (m.array[i] >= mx)
                CHK(c, got == (LD)std::numeric_limits<TT>::max(), "value at or above the maximum quantises to " << double(got));
        }
        if (i)
            CHK(c, code.array[i - 1] <= code.array[i], "not monotone: " << m.array[i - 1] << " -> " << +code.array[i - 1] << " but " << m.array[i] << " -> " << +code.array[i]);
        CHK(c, d.array[i] >= mn && d.array[i] <= mx, "dequantised value " << d.array[i] << " outside [" << mn << "," << mx << "]");
        const LD clamped = std::min<LD>(std::max<LD>(m.array[i], mn), mx);
        const LD err = std::fabs((LD)d.array[i] - clamped);
        CHK(c, err <= step * ((q::sg() ? 1.5 : 1) + sl) + 8 * std::numeric_limits<T>::epsilon() * std::max(std::fabs((LD)mn), std::fabs((LD)mx)), "value " << m.array[i] << " in [" << mn << "," << mx << "] -> code " << +code.array[i] << " -> " << d.array[i] << " (step " << double(step) << ")");
    }
    CHK_FROZEN(c, fm);
    CHK_FROZEN(c, fc);
}
// all codes, by rows of 64
template <typename T, typename TT>
void decode(Ctx& c, int stride)
{
    typedef Q<T, TT> q;
    const int r = c.choose(NR);
    if (!q::usable(r))
        return;
    const T mn = T(RANGES[r][0]), mx = T(RANGES[r][1]);
    const long n = long(q::R()) + 1;
    const long base = (long)c.choose(int((n + 64 * stride - 1) / (64 * stride))) * 64 * stride;
    vmml::Matrix<8, 8, TT> code;
    Guarded<vmml::Matrix<8, 8, T>> g;
    for (long i = 0; i < 64; ++i)
    {
        code.array[i] = TT(std::min<long>(base + i * stride, n - 1) + long(std::numeric_limits<TT>::min()));
        g.o.array[i] = T(55);
    }
    Frozen<vmml::Matrix<8, 8, TT>> fc(code);
    const vmml::Matrix<8, 8, TT>& cc = code;
    cc.dequantize(g.o, mn, mx);
    c.step();
    c.state(hash_fp(code.array, 64, mc::hash_val(r)));
    for (int i = 0; i < 64; ++i)
    {
        LD w = (LD)code.array[i] * ((LD)mx - mn) / q::R() + (q::sg() ? 0 : (LD)mn);
        w = std::min<LD>(std::max<LD>(w, mn), mx);
        CHK(c, std::fabs((LD)g.o.array[i] - w) <= 8 * std::numeric_limits<T>::epsilon() * std::max(std::fabs((LD)mn), std::fabs((LD)mx)), "code " << +code.array[i] << " in [" << mn << "," << mx << "] dequantises to " << g.o.array[i] << " want " << double(w));
        CHK(c, g.o.array[i] >= mn && g.o.array[i] <= mx, "dequantised value " << g.o.array[i] << " outside [" << mn << "," << mx << "]");
        if (i)
            CHK(c, g.o.array[i - 1] <= g.o.array[i], "dequantisation not monotone");
    }
    CHK_FROZEN(c, fc);
    CHK_GUARD(c, g);
}
// values up to 2^24 ranges beyond either end saturate
template <typename T, typename TT>
void outside(Ctx& c)
{
    typedef Q<T, TT> q;
    typedef std::numeric_limits<TT> L;
    const int r = c.choose(NR);
    if (!q::usable(r))
        return;
    const T mn = T(RANGES[r][0]), mx = T(RANGES[r][1]);
    const int k = c.choose(31) - 6, at = c.choose(6);
    vmml::Matrix<2, 3, T> m;
    Guarded<vmml::Matrix<2, 3, TT>> code;
    for (int i = 0; i < 6; ++i)
    {
        const LD d = std::ldexp((LD)mx - mn, k);
        m.array[i] = i != at ? T(mn + (mx - mn) * T(i) / T(5)) : T(i % 2 ? mx + d : mn - d);
        code.o.array[i] = TT(85);
    }
    const T x = m.array[at];
    if (x >= mn && x <= mx)
        return; // rounded back
    c.step();
    c.state(hash_fp(m.array, 6));
    m.quantize_to(code.o, mn, mx);
    for (int i = 0; i < 6; ++i)
        CHK(c, q::close(code.o.array[i], m.array[i], mn, mx), "value " << m.array[i] << " in [" << mn << "," << mx << "] quantises to " << +code.o.array[i]);
    if (k >= 0)
        CHK(c, code.o.array[at] == (x > mx ? L::max() : L::min()), "value " << x << " outside [" << mn << "," << mx << "] quantises to " << +code.o.array[at]);
    CHK_GUARD(c, code);
}
// quantize(): range taken from the elements
template <size_t M, size_t N, typename T, typename TT>
void whole(Ctx& c)
{
    typedef Q<T, TT> q;
    static const std::vector<T> a = {T(0), T(1), T(-1), T(-3), T(0.37), T(-2.6), T(100)};
    Guarded<vmml::Matrix<M, N, T>> g, d;
    Guarded<vmml::Matrix<M, N, TT>> code;
    const int kind = c.choose(3);
    c.deviations(c.thorough() ? 4 : 3);
    LD mn = 1e30, mx = -1e30;
    for (size_t i = 0; i < M * N; ++i)
    {
        const int k = c.dev(8);
        g.o.array[i] = k ? a[k - 1] : (kind == 0 ? T(-2 - int(i * 3 % 5)) : kind == 1 ? T(0.2) * T(i % 4 + 1) : T(i % 2 ? 5 : -5));
        code.o.array[i] = TT(13);
        d.o.array[i] = T(21);
        mn = std::min<LD>(mn, g.o.array[i]);
        mx = std::max<LD>(mx, g.o.array[i]);
    }
    if (q::sg() && mn != -mx)
        return;
    Frozen<vmml::Matrix<M, N, T>> f(g.o);
    const vmml::Matrix<M, N, T>& cm = g.o;
    T lo = T(-77), hi = T(66);
    cm.quantize(code.o, lo, hi);
    code.o.dequantize(d.o, lo, hi);
    c.step(2);
    c.state(hash_fp(g.o.array, M * N));
    NOTE(c, "matrix " << show(g.o));
    CHK(c, (LD)lo == mn && (LD)hi == mx, "quantize of " << show(g.o) << " reports the range [" << lo << "," << hi << "]");
    const LD step = (mx - mn) / q::R();
    for (size_t i = 0; i < M * N; ++i)
    {
        if (mx > mn)
            CHK(c, q::close(code.o.array[i], g.o.array[i], mn, mx), "quantize of " << show(g.o) << " gives code " << +code.o.array[i] << " for element " << i);
        CHK(c, std::fabs((LD)d.o.array[i] - g.o.array[i]) <= (mx > mn ? step * ((q::sg() ? 1.5 : 1) + q::slack(mn, mx)) : 0) + 8 * std::numeric_limits<T>::epsilon() * std::max(std::fabs(mn), std::fabs(mx)), "element " << i << " of " << show(g.o) << " comes back as " << d.o.array[i]);
        CHK(c, d.o.array[i] >= lo && d.o.array[i] <= hi, "dequantised outside the range");
    }
    CHK_FROZEN(c, f);
    CHK_GUARD(c, g);
    CHK_GUARD(c, d);
    CHK_GUARD(c, code);
}
template <typename T, typename TT>
void reg(int stride_quick, int stride_thorough)
{
    const std::string n = tname<T>() + "_" + tname<TT>();
    mc::add("grid_" + n, [=](Ctx& c) { grid<T, TT>(c, c.thorough() ? stride_thorough : stride_quick); }, "value grid around every code boundary");
    mc::add("ranges_" + n, [=](Ctx& c) { ranges<T, TT>(c, std::max(stride_quick, int(std::min<long double>(1e9L, Q<T, TT>::R() / 256 + 1))) | 1); }, "ranges of every order of magnitude");
    mc::add("decode_" + n, [=](Ctx& c) { decode<T, TT>(c, c.thorough() ? stride_thorough : std::max(1, stride_quick / 8)); }, "every code");
    mc::add("outside_" + n, outside<T, TT>, "far beyond the range");
    mc::add("quantize_22_" + n, whole<2, 2, T, TT>, "range from the elements");
    mc::add("quantize_13_" + n, whole<1, 3, T, TT>, "");
    mc::add("quantize_34_" + n, whole<3, 4, T, TT>, "");
}
} // namespace

REGISTER_BLOCK(c13)
{
#if PART == 0
    reg<float, unsigned char>(1, 1);
    reg<double, unsigned char>(1, 1);
    reg<float, unsigned short>(1, 1);
    reg<double, unsigned short>(1, 1);
#else
    reg<float, signed char>(1, 1);
    reg<double, signed char>(1, 1);
    reg<float, short>(1, 1);
    reg<double, short>(1, 1);
    reg<double, unsigned>(1 << 17, 1 << 10);
    reg<double, int>(1 << 17, 1 << 10);
#endif
}
MC_MAIN()
