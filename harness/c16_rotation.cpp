// C16: unit quaternions and rotation matrices.
#include <vmmlib/matrix.hpp>
#include <vmmlib/quaternion.hpp>
#include "mc/common.hpp"
using namespace h;

namespace
{
typedef long double L;
const L PI = 3.14159265358979323846264338327950288L;
struct R // reference quaternion x y z w
{
    L c[4];
};
struct M3
{
    L m[3][3];
};
R unit(const R& a)
{
    L n = 0;
    R r;
    for (int i = 0; i < 4; ++i)
        n += a.c[i] * a.c[i];
    n = std::sqrt(n);
    for (int i = 0; i < 4; ++i)
        r.c[i] = a.c[i] / n;
    return r;
}
void cross(const L* a, const L* b, L* r)
{
    for (int i = 0; i < 3; ++i)
        r[i] = a[(i + 1) % 3] * b[(i + 2) % 3] - a[(i + 2) % 3] * b[(i + 1) % 3];
}
// q v q^-1 for unit q: v + 2w(u x v) + 2 u x (u x v)
void act(const R& q, const L* v, L* out)
{
    L a[3], b[3];
    cross(q.c, v, a);
    cross(q.c, a, b);
    for (int i = 0; i < 3; ++i)
        out[i] = v[i] + 2 * q.c[3] * a[i] + 2 * b[i];
}
M3 matrix(const R& q)
{
    M3 r;
    for (int k = 0; k < 3; ++k)
    {
        L e[3] = {0, 0, 0}, o[3];
        e[k] = 1;
        act(q, e, o);
        for (int i = 0; i < 3; ++i)
            r.m[i][k] = o[i];
    }
    return r;
}
template <typename T, size_t D>
L dist(const vmml::Matrix<D, D, T>& a, const M3& b)
{
    L d = 0;
    for (int i = 0; i < 3; ++i)
        for (int k = 0; k < 3; ++k)
        {
            const L e = std::fabs(L(a.array[k * D + i]) - b.m[i][k]);
            if (!(e <= d))
                d = e;
        }
    return d;
}
template <typename T>
std::string strq(const vmml::Quaternion<T>& q)
{
    return show(q.array, 4);
}
template <typename T>
vmml::Quaternion<T> toq(const R& r)
{
    return vmml::Quaternion<T>(T(r.c[0]), T(r.c[1]), T(r.c[2]), T(r.c[3]));
}
template <typename T>
R ref(const vmml::Quaternion<T>& q)
{
    R r = {{q.array[0], q.array[1], q.array[2], q.array[3]}};
    return r;
}

// quaternion -> matrix -> quaternion, 3x3 and 4x4
template <typename T>
void convert(Ctx& c, const R& r)
{
    typedef vmml::Quaternion<T> Q;
    const L eps = std::numeric_limits<T>::epsilon();
    const Q q = toq<T>(r);
    const R qr = unit(ref(q)); // rounded operand
    const M3 want = matrix(qr);
    Frozen<Q> fq(q);
    c.step(2);
    NOTE(c, "q = " << strq(q));
    c.state(hash_fp(q.array, 4));
    Guarded<vmml::Matrix<3, 3, T>> m3;
    Guarded<vmml::Matrix<4, 4, T>> m4;
    m3.o = q.get_rotation_matrix();
    for (int i = 0; i < 16; ++i)
        m4.o.array[i] = T(50 + i);
    q.get_rotation_matrix(m4.o);
    CHK_FROZEN(c, fq);
    CHK(c, dist(m3.o, want) <= 16 * eps, "matrix of " << strq(q) << " is " << show(m3.o));
    CHK(c, dist(m4.o, want) <= 16 * eps, "4x4 matrix of " << strq(q) << " is " << show(m4.o));
    for (int i = 0; i < 16; ++i)
        CHK(c, (i % 4 < 3 && i < 12) || m4.o.array[i] == T(50 + i), "entry " << i << " outside the rotation block changed");
    // proper rotation: orthonormal, determinant 1
    L g[3][3];
    for (int k = 0; k < 3; ++k)
        for (int i = 0; i < 3; ++i)
            g[k][i] = m3.o.array[k * 3 + i];
    L x[3];
    cross(g[0], g[1], x);
    for (int i = 0; i < 3; ++i)
        CHK(c, std::fabs(x[i] - g[2][i]) <= 32 * eps, "matrix of " << strq(q) << " is not right-handed orthonormal");
    CHK_GUARD(c, m3);
    CHK_GUARD(c, m4);
}
// matrix -> quaternion
template <typename T>
void back(Ctx& c, const R& r)
{
    typedef vmml::Quaternion<T> Q;
    const L eps = std::numeric_limits<T>::epsilon();
    const R u = unit(r);
    const M3 want = matrix(u);
    vmml::Matrix<3, 3, T> m;
    vmml::Matrix<4, 4, T> f;
    vmml::Matrix<5, 5, T> v;
    f = T(9);
    v = T(9);
    for (int i = 0; i < 3; ++i)
        for (int k = 0; k < 3; ++k)
            m.array[k * 3 + i] = f.array[k * 4 + i] = v.array[k * 5 + i] = T(want.m[i][k]);
    c.state(hash_fp(m.array, 9));
    c.step(4);
    const Q q(m), q4(f), q5(v);
    Guarded<Q> g;
    g.o.template set<3>(m);
    CHK(c, q == g.o && q == q4 && q == q5, "constructors and set disagree for " << show(m));
    CHK_GUARD(c, g);
    L n = 0;
    for (int i = 0; i < 4; ++i)
        n += L(q.array[i]) * q.array[i];
    NOTE(c, show(m) << " -> " << strq(q));
    CHK(c, std::fabs(std::sqrt(n) - 1) <= 32 * eps, "quaternion of rotation matrix " << show(m) << " is " << strq(q) << " with norm " << std::sqrt(n));
    // the same rotation: equal up to sign
    L d1 = 0, d2 = 0;
    for (int i = 0; i < 4; ++i)
    {
        d1 = std::max(d1, std::fabs(q.array[i] - u.c[i]));
        d2 = std::max(d2, std::fabs(q.array[i] + u.c[i]));
    }
    CHK(c, std::min(d1, d2) <= 32 * eps, "quaternion of the rotation matrix of (" << u.c[0] << " " << u.c[1] << " " << u.c[2] << " " << u.c[3] << ") is " << strq(q) << ", off by " << double(std::min(d1, d2)));
    CHK(c, dist(q.get_rotation_matrix(), want) <= 64 * eps, "matrix of quaternion of " << show(m) << " differs by " << double(dist(q.get_rotation_matrix(), want)));
}
R lattice(Ctx& c, int lim)
{
    R r;
    for (int i = 0; i < 4; ++i)
    {
        const int k = c.choose(2 * lim + 1);
        r.c[i] = k % 2 ? -(k + 1) / 2 : k / 2;
    }
    return r;
}
bool zero(const R& r) { return r.c[0] == 0 && r.c[1] == 0 && r.c[2] == 0 && r.c[3] == 0; }
template <typename T>
void lattices(Ctx& c)
{
    const R r = lattice(c, c.thorough() ? 6 : 3);
    if (zero(r))
        return;
    convert<T>(c, unit(r));
    back<T>(c, r);
}
// axis / angle grid, dense around 0 and the half turn
template <typename T>
void angles(Ctx& c)
{
    const int lim = c.thorough() ? 3 : 2;
    L ax[3];
    for (int i = 0; i < 3; ++i)
        ax[i] = c.choose(2 * lim + 1) - lim;
    const L tiny = c.thorough() ? L(c.choose(3)) * 1e-4L : L(c.choose(2)) * 1e-4L;
    if (ax[0] == 0 && ax[1] == 0 && ax[2] == 0)
        return;
    // nearly axis-aligned axes
    for (int i = 0; i < 3; ++i)
        if (ax[i] == 0)
            ax[i] = tiny * (i + 1);
    L th;
    if (c.flip())
    {
        const int n = c.thorough() ? 180 : 36;
        th = PI * c.choose(2 * n + 1) / n - PI;
    }
    else
    {
        const bool half = c.flip();
        const int e = c.choose(c.thorough() ? 37 : 19);
        const L d = e == 0 ? 0 : std::pow(10.L, c.thorough() ? -(e - 1) / 4.L : -(e - 1) / 2.L);
        th = (half ? PI : 0) + (c.flip() ? d : -d);
    }
    const L n = std::sqrt(ax[0] * ax[0] + ax[1] * ax[1] + ax[2] * ax[2]);
    R r;
    for (int i = 0; i < 3; ++i)
        r.c[i] = std::sin(th / 2) * ax[i] / n;
    r.c[3] = std::cos(th / 2);
    NOTE(c, "axis " << ax[0] << " " << ax[1] << " " << ax[2] << " angle " << double(th));
    convert<T>(c, r);
    back<T>(c, r);
}
// simple rotations with one component of the quaternion moved by every order of
// magnitude: almost the identity, almost a half turn, almost about an axis
template <typename T>
void near_simple(Ctx& c)
{
    static const std::vector<L> lad = ladder<L>(1);
    static const L base[][4] = {{0, 0, 0, 1}, {1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, -1, 0}, {1, 0, 0, 1}, {0, -1, 0, 1}, {0, 0, 1, 1}, {1, 1, 0, 0}, {0, 1, 1, 0}, {1, 0, -1, 0},
                                {1, 1, 1, 0}, {1, 1, 1, 1}, {1, -1, 1, -1}, {0, 0, 0, -1}, {1, 2, 0, 1}, {3, 4, 0, 0}, {0, 0, 1, 2}};
    const L* b = base[c.choose(17)];
    const int i = c.choose(4), j = c.choose(4);
    const L d = c.pick(lad), e = i == j ? 0 : c.flip() ? d : -d;
    R r = {{b[0], b[1], b[2], b[3]}};
    r.c[i] += d;
    if (i < j)
        r.c[j] += e;
    else if (i > j)
        r.c[j] += d * d;
    convert<T>(c, unit(r));
    back<T>(c, r);
}
// products of rotations: words over generators, quaternion and matrix in step
template <typename T>
void words(Ctx& c, int depth)
{
    typedef vmml::Quaternion<T> Q;
    const L eps = std::numeric_limits<T>::epsilon();
    static const L s = std::sqrt(0.5L);
    static const R gens[] = {{{s, 0, 0, s}}, {{0, s, 0, s}}, {{0, 0, 1, 0}}, {{0.5L, 0.5L, 0.5L, 0.5L}}, {{0.6L, 0, 0, 0.8L}}, {{0.48L, -0.6L, 0.64L, 0}}};
    Q q(Q::IDENTITY);
    vmml::Matrix<3, 3, T> m = q.get_rotation_matrix();
    M3 ref;
    for (int i = 0; i < 3; ++i)
        for (int k = 0; k < 3; ++k)
            ref.m[i][k] = i == k;
    for (int d = 0; d < depth; ++d)
    {
        const R& g = gens[c.choose(6)];
        const bool left = c.flip();
        const Q gq = toq<T>(g);
        q = left ? gq * q : q * gq;
        const vmml::Matrix<3, 3, T> gm = gq.get_rotation_matrix();
        m = left ? gm * m : m * gm;
        const M3 G = matrix(g);
        M3 n;
        for (int i = 0; i < 3; ++i)
            for (int k = 0; k < 3; ++k)
            {
                n.m[i][k] = 0;
                for (int j = 0; j < 3; ++j)
                    n.m[i][k] += left ? G.m[i][j] * ref.m[j][k] : ref.m[i][j] * G.m[j][k];
            }
        ref = n;
        c.step(4);
        const L tol = 64 * eps * (d + 1);
        CHK(c, dist(q.get_rotation_matrix(), ref) <= tol, "after " << d + 1 << " factors the quaternion " << strq(q) << " has the matrix " << show(q.get_rotation_matrix()));
        CHK(c, dist(m, ref) <= tol, "product of matrices is " << show(m));
        const Q b(m);
        CHK(c, dist(b.get_rotation_matrix(), ref) <= 2 * tol, "quaternion of product matrix is " << strq(b));
        c.state(hash_fp(q.array, 4));
    }
}
// the matrix acts on vectors like q v q^-1; rotate* functions
template <typename T>
void action(Ctx& c)
{
    typedef vmml::Quaternion<T> Q;
    typedef vmml::Vector<3, T> V3;
    const L eps = std::numeric_limits<T>::epsilon();
    const R r = lattice(c, c.thorough() ? 3 : 2);
    static const L al[] = {0, 1, -2, 0.3L};
    L v[3], o[3];
    for (int i = 0; i < 3; ++i)
        v[i] = T(c.pick(al));
    if (zero(r))
        return;
    const R u = unit(r);
    Q q = toq<T>(u);
    const V3 x = V3(T(v[0]), T(v[1]), T(v[2]));
    act(unit(ref(q)), v, o);
    const L tol = 32 * eps * 4;
    c.step(4);
    c.state(hash_fp(q.array, 4, hash_fp(x.array, 3)));
    const V3 a = q.get_rotation_matrix() * x;
    const Q b = q * Q(x) * q.get_conjugate(), b2 = q * Q(x) * q.inverse(), b3 = q * x * q.inverse();
    for (int i = 0; i < 3; ++i)
        CHK(c, std::fabs(a.array[i] - o[i]) <= tol && std::fabs(b.array[i] - o[i]) <= tol && std::fabs(b2.array[i] - o[i]) <= tol && std::fabs(b3.array[i] - o[i]) <= tol, "rotation of " << show(x) << " by " << strq(q) << ": matrix " << show(a) << " q v q^-1 " << strq(b) << strq(b2) << strq(b3));
    CHK(c, std::fabs(b.w()) <= tol && std::fabs(b2.w()) <= tol && std::fabs(b3.w()) <= tol, "q v q^-1 is not pure: " << strq(b));
}
template <typename T>
void rotators(Ctx& c)
{
    typedef vmml::Quaternion<T> Q;
    typedef vmml::Vector<3, T> V3;
    const L eps = std::numeric_limits<T>::epsilon();
    const int which = c.choose(4);
    const int n = c.thorough() ? 24 : 8;
    static const std::vector<L> lad = ladder<L>(1, true);
    static const L turns[] = {7.5L, -9.75L, 11, 12.7L, -16, 25.25L, -50.3L, 101, -1000.7L, 65537};
    const int grid = 4 * n + 1, pick = c.choose(grid + 3 + 10);
    const T th = T(pick >= grid + 3 ? turns[pick - grid - 3] : pick < grid ? PI * (pick - 2 * n) / n : PI * (pick - grid) / 2 + c.pick(lad));
    static const L al[] = {0, 1, -2, 0.3L};
    V3 x, axis(0, 0, 0);
    for (int i = 0; i < 3; ++i)
        x.array[i] = T(c.pick(al));
    if (which == 3)
    {
        static const L aa[] = {0, 1, -2.5L};
        for (int i = 0; i < 3; ++i)
            axis.array[i] = T(c.pick(aa));
        if (axis.array[0] == 0 && axis.array[1] == 0 && axis.array[2] == 0)
            return;
    }
    else
        axis.array[which] = 1;
    R r;
    L nn = 0;
    for (int i = 0; i < 3; ++i)
        nn += L(axis.array[i]) * axis.array[i];
    for (int i = 0; i < 3; ++i)
        r.c[i] = axis.array[i] / std::sqrt(nn) * std::sin(L(th) / 2);
    r.c[3] = std::cos(L(th) / 2);
    L v[3] = {x.array[0], x.array[1], x.array[2]}, o[3];
    act(r, v, o);
    const V3 x0(x);
    c.step();
    c.state(hash_fp(x.array, 3, hash_fp(axis.array, 3, mc::hash_val(th))));
    // the object the functions are called on takes no part
    Q any(T(3), T(-1), T(2), T(5));
    const Q any0(any);
    V3 ax(axis);
    const Q res = which == 0 ? any.rotate_x(th, x) : which == 1 ? any.rotate_y(th, x) : which == 2 ? any.rotate_z(th, x) : any.rotate(th, ax, x);
    CHK(c, any == any0 && x == x0, "rotate changed an operand");
    const L tol = 64 * eps * 4;
    for (int i = 0; i < 3; ++i)
        CHK(c, std::fabs(res.array[i] - o[i]) <= tol, "rotate " << which << " by " << th << " about " << show(axis) << " of " << show(x) << " is " << strq(res));
    CHK(c, std::fabs(res.w()) <= tol, "rotated vector has w = " << res.w());
    // the same through a rotation matrix of the library
    vmml::Matrix<4, 4, T> m;
    m = vmml::Matrix<4, 4, T>::IDENTITY;
    if (which == 0)
        m.rotate_x(th);
    else if (which == 1)
        m.rotate_y(th);
    else if (which == 2)
        m.rotate_z(th);
    else
    {
        V3 un(axis);
        un.normalize();
        m.rotate(th, un);
    }
    const vmml::Vector<4, T> y = m * vmml::Vector<4, T>(x.array[0], x.array[1], x.array[2], T(1));
    for (int i = 0; i < 3; ++i)
        CHK(c, std::fabs(L(y.array[i]) - res.array[i]) <= 2 * tol, "matrix and quaternion rotation " << which << " by " << th << " about " << show(axis) << " of " << show(x) << " differ: " << show(y) << strq(res));
}
} // namespace

REGISTER_BLOCK(c16)
{
#if PART == 0
    typedef float E;
#else
    typedef double E;
#endif
    const std::string n = tname<E>();
    mc::add("lattice_" + n, lattices<E>, "all integer quaternions, both directions");
    mc::add("angles_" + n, angles<E>, "axis-angle grid dense at half turns");
    mc::add("near_" + n, near_simple<E>, "simple rotations off by every order of magnitude");
    mc::add("words_" + n, [](Ctx& c) { words<E>(c, c.thorough() ? 6 : 4); }, "products of generators");
    mc::add("action_" + n, action<E>, "matrix action equals q v q^-1");
    mc::add("rotators_" + n, rotators<E>, "rotate, rotate_x/y/z");
}
MC_MAIN()
