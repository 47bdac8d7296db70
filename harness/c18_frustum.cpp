// C18: frustum matrices, adjust_near, jitter, set_perspective.
#include <vmmlib/frustum.hpp>
#include <vmmlib/vector.hpp>
#include "mc/common.hpp"
using namespace h;

namespace
{
typedef long double L;
const L PI = 3.14159265358979323846264338327950288L;
struct F6
{
    L v[6];
};
template <typename T>
F6 ref(const vmml::Frustum<T>& f)
{
    F6 r;
    for (int i = 0; i < 6; ++i)
        r.v[i] = f.array[i];
    return r;
}
template <typename T>
std::string str(const vmml::Frustum<T>& f)
{
    return show(f.array, 6);
}
// where the matrix sends a point
template <typename T>
void project(const vmml::Matrix<4, 4, T>& m, const L* p, L* out, L& w)
{
    L o[4];
    for (int i = 0; i < 4; ++i)
        o[i] = L(m.array[i]) * p[0] + L(m.array[4 + i]) * p[1] + L(m.array[8 + i]) * p[2] + L(m.array[12 + i]);
    w = o[3];
    for (int i = 0; i < 3; ++i)
        out[i] = o[i] / o[3];
}
template <typename T>
void corners(Ctx& c, const vmml::Frustum<T>& f)
{
    const L eps = std::numeric_limits<T>::epsilon();
    const F6 r = ref(f);
    Guarded<vmml::Matrix<4, 4, T>> gp, go;
    for (int i = 0; i < 16; ++i)
        gp.o.array[i] = go.o.array[i] = T(77);
    Frozen<vmml::Frustum<T>> fr(f);
    f.compute_matrix(gp.o);
    f.compute_ortho_matrix(go.o);
    const vmml::Matrix<4, 4, T> p2 = f.compute_matrix(), o2 = f.compute_ortho_matrix();
    CHK_FROZEN(c, fr);
    CHK_GUARD(c, gp);
    CHK_GUARD(c, go);
    c.step(4);
    CHK(c, p2 == gp.o && o2 == go.o, "the two forms of compute_matrix differ");
    L cond = 1;
    for (int i = 0; i < 3; ++i)
        cond = std::max(cond, (std::fabs(r.v[2 * i]) + std::fabs(r.v[2 * i + 1])) / std::fabs(r.v[2 * i + 1] - r.v[2 * i]));
    for (int k = 0; k < 8; ++k)
    {
        const L x = r.v[k & 1], y = r.v[2 + (k >> 1 & 1)], d = r.v[4 + (k >> 2)];
        const L want[3] = {k & 1 ? 1.L : -1.L, k & 2 ? 1.L : -1.L, k & 4 ? 1.L : -1.L};
        const L persp[3] = {x * d / r.v[4], y * d / r.v[4], -d}, box[3] = {x, y, -d};
        L o[3], w;
        project(gp.o, persp, o, w);
        CHK(c, w > 0, "corner " << k << " of frustum " << str(f) << " has clip w " << w);
        for (int i = 0; i < 3; ++i)
            CHK(c, std::fabs(o[i] - want[i]) <= 16 * eps * cond, "perspective corner " << k << " of frustum " << str(f) << " goes to (" << o[0] << " " << o[1] << " " << o[2] << ") by " << show(gp.o));
        project(go.o, box, o, w);
        CHK(c, w > 0, "corner " << k << " of the box of " << str(f) << " has clip w " << w);
        for (int i = 0; i < 3; ++i)
            CHK(c, std::fabs(o[i] - want[i]) <= 16 * eps * cond, "orthographic corner " << k << " of " << str(f) << " goes to (" << o[0] << " " << o[1] << " " << o[2] << ") by " << show(go.o));
    }
}
template <typename T>
void access(Ctx& c, const vmml::Frustum<T>& f)
{
    typedef vmml::Frustum<T> F;
    const F& cf = f;
    F m(f);
    CHK(c, cf.left() == f.array[0] && cf.right() == f.array[1] && cf.bottom() == f.array[2] && cf.top() == f.array[3] && cf.near_plane() == f.array[4] && cf.far_plane() == f.array[5], "accessors of " << str(f));
    CHK(c, &m.left() == m.array && &m.right() == m.array + 1 && &m.bottom() == m.array + 2 && &m.top() == m.array + 3 && &m.near_plane() == m.array + 4 && &m.far_plane() == m.array + 5, "mutable accessors");
    const L scale = std::fabs(L(f.array[0])) + std::fabs(L(f.array[1])) + std::fabs(L(f.array[2])) + std::fabs(L(f.array[3]));
    CHK(c, near<T>(f.get_width(), std::fabs(f.array[1] - f.array[0]), double(scale), 2) && near<T>(f.get_height(), std::fabs(f.array[3] - f.array[2]), double(scale), 2), "width and height of " << str(f) << " are " << f.get_width() << ", " << f.get_height());
    const F cp(f);
    F as;
    for (int i = 0; i < 6; ++i)
        CHK(c, as.array[i] == 0, "default frustum is not zero");
    as = f;
    F se;
    se.set(f.array[0], f.array[1], f.array[2], f.array[3], f.array[4], f.array[5]);
    const F six(f.array[0], f.array[1], f.array[2], f.array[3], f.array[4], f.array[5]);
    const F ptr(f.array);
    double da[6];
    float fa[6];
    int ia[6];
    for (int i = 0; i < 6; ++i)
    {
        da[i] = f.array[i];
        fa[i] = float(f.array[i]);
        ia[i] = int(f.array[i] * 10);
    }
    const F pd(da), pf(fa), pi(ia);
    const vmml::Frustum<double> cd(f);
    const vmml::Frustum<float> cfl(f);
    vmml::Frustum<double> ad;
    ad = f;
    vmml::Frustum<float> af;
    af = f;
    c.step(12);
    for (int i = 0; i < 6; ++i)
    {
        const T v = f.array[i];
        CHK(c, cp.array[i] == v && as.array[i] == v && se.array[i] == v && six.array[i] == v && ptr.array[i] == v && pd.array[i] == v, "construction of " << str(f) << " element " << i);
        CHK(c, pf.array[i] == T(float(v)) && pi.array[i] == T(ia[i]), "construction from another type, element " << i);
        CHK(c, cd.array[i] == double(v) && ad.array[i] == double(v) && cfl.array[i] == float(v) && af.array[i] == float(v), "conversion of " << str(f) << " element " << i);
    }
}
template <typename T>
void grid(Ctx& c)
{
    const bool t = c.thorough();
    const std::vector<T> lo = t ? std::vector<T>{T(-1), T(-2.5), T(0.3), T(-0.001), T(-40)} : std::vector<T>{T(-1), T(-2.5), T(0.3)};
    const std::vector<T> len = t ? std::vector<T>{T(2), T(0.7), T(5), T(1e-3), T(130), T(-2)} : std::vector<T>{T(2), T(0.7), T(5)};
    const std::vector<T> nr = t ? std::vector<T>{T(1), T(0.1), T(12), T(1e-3), T(500)} : std::vector<T>{T(1), T(0.1), T(12)};
    const std::vector<T> fr = {T(2), T(1000), T(1.125), T(15)};
    vmml::Frustum<T> f;
    f.array[0] = c.pick(lo);
    f.array[1] = f.array[0] + c.pick(len);
    f.array[2] = c.pick(lo);
    f.array[3] = f.array[2] + c.pick(len);
    f.array[4] = c.pick(nr);
    f.array[5] = f.array[4] * c.pick(fr);
    NOTE(c, str(f));
    c.state(hash_fp(f.array, 6));
    corners(c, f);
    access(c, f);
}
template <typename T>
void perspective(Ctx& c)
{
    const L eps = std::numeric_limits<T>::epsilon();
    const int n = c.thorough() ? 359 : 59;
    const T fov = T(180.L * (c.choose(n) + 1) / (n + 1));
    const std::vector<T> as = {T(1), T(4.0 / 3), T(0.5), T(16), T(0.1)}, nr = {T(1), T(0.1), T(12), T(1e-3)}, fr = {T(2), T(1000), T(1.125)};
    const T a = c.pick(as), d = c.pick(nr), far_ = T(d * c.pick(fr));
    Guarded<vmml::Frustum<T>> g(c.flip() ? vmml::Frustum<T>(9, 8, 7, 6, 5, 4) : vmml::Frustum<T>::DEFAULT);
    vmml::Frustum<T>& f = g.o;
    f.set_perspective(fov, a, d, far_);
    c.step();
    c.state(hash_fp(f.array, 6));
    const L tn = std::tan(L(fov) / 2 / 180 * PI), top = tn * d;
    const L rel = 16 * eps * (1 + (L(fov) / 360 * PI) * (1 + tn * tn) / tn);
    NOTE(c, "fov " << fov << " aspect " << a << " -> " << str(f));
    CHK(c, f.array[4] == d && f.array[5] == far_, "set_perspective near and far are " << f.array[4] << ", " << f.array[5]);
    CHK(c, std::fabs(f.array[3] - top) <= rel * top && f.array[2] == -f.array[3], "set_perspective(" << fov << ", " << a << ", " << d << ") = " << str(f) << " want top " << top);
    CHK(c, std::fabs(f.array[1] - top * a) <= rel * top * a && f.array[0] == -f.array[1], "set_perspective(" << fov << ", " << a << ", " << d << ") = " << str(f) << " want right " << top * a);
    CHK(c, f.array[1] > 0 && f.array[3] > 0, "set_perspective is not oriented");
    corners(c, f);
    CHK_GUARD(c, g);
}
// histories of adjust_near, jitter and assignments
template <typename T>
void history(Ctx& c, int depth)
{
    const L eps = std::numeric_limits<T>::epsilon();
    static const T starts[2][6] = {{T(-1), T(1), T(-0.75), T(0.75), T(0.5), T(100)}, {T(0.2), T(1.7), T(-3), T(-1), T(2), T(64)}};
    const int s = c.choose(2);
    Guarded<vmml::Frustum<T>> g{vmml::Frustum<T>(starts[s])};
    vmml::Frustum<T>& f = g.o;
    F6 m = ref(f);
    L tol[6] = {0, 0, 0, 0, 0, 0};
    for (int i = 0; i < depth; ++i)
    {
        const int op = c.choose(9);
        static const T dist[] = {T(0.5), T(2), T(0.1), T(7), T(1e-3)};
        switch (op)
        {
        case 0: case 1: case 2: case 3: case 4:
        {
            const L k = L(dist[op]) / m.v[4];
            for (int j = 0; j < 4; ++j)
            {
                m.v[j] *= k;
                tol[j] = tol[j] * k + 4 * eps * std::fabs(m.v[j]);
            }
            m.v[4] = dist[op];
            f.adjust_near(dist[op]);
            break;
        }
        case 5: case 6:
        {
            const vmml::Vector<2, T> j = op == 5 ? vmml::Vector<2, T>(T(0.25), T(-0.5)) : vmml::Vector<2, T>(T(-1), T(0.125));
            f.apply_jitter(j);
            for (int k = 0; k < 4; ++k)
            {
                m.v[k] += j.array[k / 2];
                tol[k] += eps * (std::fabs(m.v[k]) + 1);
            }
            break;
        }
        case 7:
        {
            const vmml::Frustum<double> d(f);
            const vmml::Frustum<T> back(d);
            f = back;
            break;
        }
        case 8:
            f.set_perspective(T(90), T(1), T(1), T(50));
            m = F6{{-1, 1, -1, 1, 1, 50}};
            for (int k = 0; k < 4; ++k)
                tol[k] = 4 * eps;
            break;
        }
        c.step();
        NOTE(c, "op " << op << " -> " << str(f));
        for (int k = 0; k < 6; ++k)
            CHK(c, std::fabs(f.array[k] - m.v[k]) <= tol[k], "element " << k << " after operation " << op << ": " << str(f) << " want " << m.v[k]);
        CHK_GUARD(c, g);
        c.visit(mc::hash_bytes(f.array, sizeof f.array, mc::hash_bytes(tol, sizeof(L) * 0)), depth - i - 1);
    }
    corners(c, f);
}
// moves and jitters of every order of magnitude, twice in a row, and back
template <typename T>
void small_moves(Ctx& c)
{
    const L eps = std::numeric_limits<T>::epsilon();
    static const T starts[3][6] = {{T(-1), T(1), T(-0.75), T(0.75), T(0.5), T(100)}, {T(0.2), T(1.7), T(-3), T(-1), T(2), T(64)}, {T(-3e-4), T(1e-4), T(2e-4), T(5e-4), T(1e-5), T(1e-4)}};
    static const std::vector<T> lad = ladder<T>(1, true), dec = decades<T>();
    Guarded<vmml::Frustum<T>> g{vmml::Frustum<T>(starts[c.choose(3)])};
    vmml::Frustum<T>& f = g.o;
    const int kind = c.choose(4);
    F6 m = ref(f);
    const F6 first = m;
    L tol[6] = {0, 0, 0, 0, 0, 0};
    const T off = kind == 1 ? T(0) : c.pick(lad);
    const T big = kind == 1 ? c.pick(dec) : T(1);
    for (int rep = 0; rep < 3; ++rep)
    {
        if (kind <= 1)
        {
            // rep 2: back to where it came from
            const T d = rep == 2 ? T(first.v[4]) : kind == 0 ? T(f.array[4] * (1 + off)) : T(f.array[4] * (rep ? big : T(1) / big));
            const L k = L(d) / m.v[4];
            for (int j = 0; j < 4; ++j)
            {
                m.v[j] *= k;
                tol[j] = tol[j] * k + 4 * eps * std::fabs(m.v[j]);
            }
            m.v[4] = d;
            f.adjust_near(d);
        }
        else
        {
            const vmml::Vector<2, T> j = kind == 2 ? vmml::Vector<2, T>(off, T(0)) : vmml::Vector<2, T>(rep == 1 ? T(0) : -off, off);
            f.apply_jitter(j);
            for (int k = 0; k < 4; ++k)
            {
                m.v[k] += j.array[k / 2];
                tol[k] += eps * (std::fabs(m.v[k]) + std::fabs(L(off)));
            }
        }
        c.step();
        NOTE(c, "move " << rep << " kind " << kind << " offset " << double(off) << " -> " << str(f));
        for (int k = 0; k < 6; ++k)
            CHK(c, std::fabs(f.array[k] - m.v[k]) <= tol[k] + std::numeric_limits<T>::min(), "element " << k << " after " << (kind <= 1 ? "adjust_near" : "apply_jitter") << ": " << str(f) << " want " << double(m.v[k]));
        CHK_GUARD(c, g);
        c.state(hash_fp(f.array, 6));
    }
}
// frusta of almost no extent, almost symmetric ones, near planes close to the
// far plane, and everything at once at every scale
template <typename T>
void thin(Ctx& c)
{
    static const std::vector<T> lad = ladder<T>(), dec = decades<T>(2);
    const int kind = c.choose(6);
    vmml::Frustum<T> f(T(-1), T(1), T(-0.75), T(0.75), T(0.5), T(100));
    const T d = kind == 5 ? T(0) : c.pick(lad), s = kind == 5 ? c.pick(dec) : T(1);
    switch (kind)
    {
    case 0: f.array[1] = f.array[0] + d; break;
    case 1: f.array[3] = f.array[2] + d; break;
    case 2: f.array[1] += d; f.array[2] -= d; break; // almost symmetric
    case 3: f.array[5] = f.array[4] + std::fabs(d); break;
    case 4: f.array[4] = std::fabs(d); break;
    default:
        for (int i = 0; i < 6; ++i)
            f.array[i] *= s;
    }
    if (f.array[1] == f.array[0] || f.array[3] == f.array[2] || f.array[4] == f.array[5])
        return;
    NOTE(c, str(f));
    c.state(hash_fp(f.array, 6));
    corners(c, f);
    access(c, f);
}
template <typename T>
void fovs(Ctx& c)
{
    // opening angles near 0 and near 180 degrees, aspect ratios near 1
    static const std::vector<T> lad = ladder<T>();
    const L eps = std::numeric_limits<T>::epsilon();
    const int kind = c.choose(4);
    const T d = c.pick(lad);
    if (kind == 0 && d < 0)
        return;
    const T fov = kind == 0 ? d * 10 : kind == 1 ? T(180 - std::fabs(d) * 10) : kind == 2 ? T(90 + d) : T(60), a = kind == 3 ? T(1 + d) : T(1.5);
    if (kind == 1 && (fov == 180 || std::fabs(d) < 100 * eps))
        return;
    vmml::Frustum<T> f;
    f.set_perspective(fov, a, T(0.5), T(8));
    c.step();
    c.state(hash_fp(f.array, 6));
    const L tn = std::tan(L(fov) / 2 / 180 * PI), top = tn * 0.5L;
    const L rel = 16 * eps * (1 + (L(fov) / 360 * PI) * (1 + tn * tn) / tn);
    CHK(c, f.array[4] == T(0.5) && f.array[5] == 8, "set_perspective near and far are " << f.array[4] << ", " << f.array[5]);
    CHK(c, std::fabs(f.array[3] - top) <= rel * top && f.array[2] == -f.array[3], "set_perspective(" << fov << ", " << a << ") = " << str(f) << " want top " << double(top));
    CHK(c, std::fabs(f.array[1] - top * a) <= rel * top * a && f.array[0] == -f.array[1], "set_perspective(" << fov << ", " << a << ") = " << str(f) << " want right " << double(top * a));
}
template <typename T>
void constants(Ctx& c)
{
    c.choose(1);
    const vmml::Frustum<T>& d = vmml::Frustum<T>::DEFAULT;
    const T w[6] = {T(-1), T(1), T(-1), T(1), T(0.1), T(100)};
    for (int i = 0; i < 6; ++i)
        CHK(c, d.array[i] == w[i], "DEFAULT element " << i);
}
} // namespace

REGISTER_BLOCK(c18)
{
#if PART == 0
    typedef float E;
#else
    typedef double E;
#endif
    const std::string n = tname<E>();
    mc::add("grid_" + n, grid<E>, "corner mapping over a parameter grid");
    mc::add("perspective_" + n, perspective<E>, "set_perspective");
    mc::add("history_" + n, [](Ctx& c) { history<E>(c, c.thorough() ? 8 : 6); }, "adjust_near / jitter histories");
    mc::add("small_moves_" + n, small_moves<E>, "near plane moves and jitters of every order of magnitude");
    mc::add("thin_" + n, thin<E>, "almost empty, almost symmetric, tiny and huge frusta");
    mc::add("fovs_" + n, fovs<E>, "extreme opening angles");
    mc::add("constants_" + n, constants<E>, "");
}
MC_MAIN()
