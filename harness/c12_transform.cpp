// C12: in-place 4x4 transforms and the create_/apply_ helpers.
#include <vmmlib/matrix.hpp>
#include <vmmlib/util.hpp>
#include "mc/common.hpp"
using namespace h;

namespace
{
typedef long double LD;
struct M4
{
    LD a[4][4];
    static M4 id()
    {
        M4 m;
        for (int i = 0; i < 4; ++i)
            for (int j = 0; j < 4; ++j)
                m.a[i][j] = i == j;
        return m;
    }
    M4 operator*(const M4& o) const
    {
        M4 r;
        for (int i = 0; i < 4; ++i)
            for (int j = 0; j < 4; ++j)
            {
                r.a[i][j] = 0;
                for (int k = 0; k < 4; ++k)
                    r.a[i][j] += a[i][k] * o.a[k][j];
            }
        return r;
    }
};
// right-handed rotation about a unit axis (Rodrigues)
M4 rot(LD t, LD x, LD y, LD z)
{
    const LD c = std::cos(t), s = std::sin(t), k = 1 - c;
    M4 m = M4::id();
    const LD r[3][3] = {{c + k * x * x, k * x * y - s * z, k * x * z + s * y},
                        {k * x * y + s * z, c + k * y * y, k * y * z - s * x},
                        {k * x * z - s * y, k * y * z + s * x, c + k * z * z}};
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
            m.a[i][j] = r[i][j];
    return m;
}
M4 scl(LD x, LD y, LD z)
{
    M4 m = M4::id();
    m.a[0][0] = x;
    m.a[1][1] = y;
    m.a[2][2] = z;
    return m;
}
M4 trn(LD x, LD y, LD z)
{
    M4 m = M4::id();
    m.a[0][3] = x;
    m.a[1][3] = y;
    m.a[2][3] = z;
    return m;
}
template <typename T>
M4 lift(const vmml::Matrix<4, 4, T>& m)
{
    M4 r;
    for (int i = 0; i < 4; ++i)
        for (int j = 0; j < 4; ++j)
            r.a[i][j] = m.array[j * 4 + i];
    return r;
}
template <typename T>
void same4(Ctx& c, const vmml::Matrix<4, 4, T>& got, const M4& w, double ulps, const std::string& what)
{
    LD big = 1;
    for (int i = 0; i < 4; ++i)
        for (int j = 0; j < 4; ++j)
            big = std::max(big, std::fabs(w.a[i][j]));
    for (int i = 0; i < 4; ++i)
        for (int j = 0; j < 4; ++j)
            CHK(c, near(got.array[j * 4 + i], T(w.a[i][j]), double(big), ulps), what << " gives " << show(got) << ": element (" << i << "," << j << ") want " << double(w.a[i][j]));
}

// the first NANG angles, axes and vectors serve the sequences; single calls get all
const double PI_ = 3.141592653589793;
const double ANG[] = {0, PI_ / 2, -PI_ / 2, PI_, 0.3, -2.1, 7.25, 1e-4, -PI_, 2 * PI_, -2 * PI_, 3 * PI_ / 2, PI_ / 4, PI_ / 3, 4 * PI_, 100, -1e-4,
                      1e-1, 1e-2, 1e-3, 1e-5, 1e-6, 1e-7, 1e-8, 1e-10, 1e-12, 1e-14, -1e-6, -1e-9,
                      PI_ - 1e-2, PI_ - 1e-3, PI_ - 1e-4, PI_ + 1e-5, PI_ - 1e-6, PI_ + 1e-8, PI_ - 1e-10,
                      PI_ / 2 - 1e-2, PI_ / 2 + 1e-3, PI_ / 2 - 1e-4, PI_ / 2 + 1e-5, -PI_ / 2 + 1e-6, PI_ / 2 + 1e-8, 2 * PI_ - 1e-3, 2 * PI_ + 1e-5,
                      1e3, -2.3e4, 7.7e5, -1e6, 3.3e7, 1e9, -4.1e10, 1e12, 6.6e15};
const int NANG = 8, ALLANG = sizeof ANG / sizeof *ANG;
const double AXES[][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {0, 0, -1}, {0.6, 0, 0.8}, {2 / 3., -1 / 3., 2 / 3.}, {0.57735026918962576, 0.57735026918962576, 0.57735026918962576}, {-0.8, 0.6, 0},
                         {1, 1e-2, 0}, {1, 0, 1e-3}, {0, 1, -1e-4}, {1e-5, 0, 1}, {0, 1e-6, -1}, {1e-7, 1, 0}, {-1, 0, 1e-9}, {0, -1, 0}, {-1, 0, 0}, {0, 0.6, 0.8}, {0, -0.8, 0.6}};
const int NAX = 8, ALLAX = sizeof AXES / sizeof *AXES;
const double VEC[][3] = {{2, -3, 5}, {1, 1, 1}, {0, 0.5, -1}, {0.1, 7, -0.25},
                         {2, 2, 2}, {-2, -2, -2}, {-1, -1, -1}, {0, 0, 0}, {0.3, 0.3, 0.3}, {3, 3, 1}, {3, 1, 3}, {1, 3, 3}, {-1, 1, 1}, {1, -1, 1}, {1, 1, -1}, {2, -2, 2},
                         {4, 0, 0}, {0, 4, 0}, {0, 0, 4}, {1, 2, 0}, {1, 1, 2}, {1e6, 1, 1}, {1e-6, 1e6, 1}, {1 + 1e-3, 1, 1}, {1, 1 - 1e-4, 1}, {1, 1, 1 + 1e-5}, {1 + 1e-6, 1 + 1e-6, 1 + 1e-6}, {1, 1, 1 - 1e-9}, {1e-5, 1e-6, 1e-7}, {-1e-9, 0, 1e-12}, {1e8, -1e8, 1e8}};
const int NVEC = 4, ALLVEC = sizeof VEC / sizeof *VEC;

template <typename T>
vmml::Vector<3, T> axis(int i)
{
    const double* a = AXES[i];
    const double n = std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]);
    return vmml::Vector<3, T>(T(a[0] / n), T(a[1] / n), T(a[2] / n));
}

enum
{
    RX, RY, RZ, PX, PY, PZ, ROT, SC_P, SC_X, SC_V, ST_X, ST_P, ST_V, STR_P, STR_V, X_, Y_, Z_, A_TR, A_ROT, M_SC, M_SCS, N_OPS
};
const char* opn[] = {"rotate_x", "rotate_y", "rotate_z", "pre_rotate_x", "pre_rotate_y", "pre_rotate_z", "rotate", "scale(ptr)", "scale(x,y,z)", "scale(vec)", "set_translation(x,y,z)", "set_translation(ptr)", "set_translation(vec)", "scale_translation(ptr)", "scale_translation(vec)", "x()=", "y()=", "z()=", "apply_translation", "apply_rotation", "*= create_scaling(vec)", "*= create_scaling(s)"};

// performs op on the object, returns the expected matrix computed from w
template <typename T, typename TT>
M4 apply(vmml::Matrix<4, 4, T>& m, const M4& w, int op, int ai, int xi, int vi, bool& chained)
{
    const TT ang = TT(ANG[ai]);
    const T angt = T(ang);
    const vmml::Vector<3, T> ax = axis<T>(xi);
    const TT v[3] = {TT(VEC[vi][0]), TT(VEC[vi][1]), TT(VEC[vi][2])};
    const vmml::Vector<3, TT> vv(v[0], v[1], v[2]);
    const LD lv[3] = {T(v[0]), T(v[1]), T(v[2])};
    const vmml::Matrix<4, 4, T>* self = &m;
    M4 r = w;
    switch (op)
    {
    case RX: self = &m.rotate_x(ang); r = w * rot(angt, 1, 0, 0); break;
    case RY: self = &m.rotate_y(ang); r = w * rot(angt, 0, 1, 0); break;
    case RZ: self = &m.rotate_z(ang); r = w * rot(angt, 0, 0, 1); break;
    case PX: self = &m.pre_rotate_x(ang); r = rot(-angt, 1, 0, 0) * w; break;
    case PY: self = &m.pre_rotate_y(ang); r = rot(-angt, 0, 1, 0) * w; break;
    case PZ: self = &m.pre_rotate_z(ang); r = rot(-angt, 0, 0, 1) * w; break;
    case ROT: self = &m.rotate(ang, ax); r = rot(angt, ax.array[0], ax.array[1], ax.array[2]); break;
    case SC_P: self = &m.scale(v); r = w * scl(lv[0], lv[1], lv[2]); break;
    case SC_X: self = &m.scale(v[0], T(v[1]), T(v[2])); r = w * scl(lv[0], lv[1], lv[2]); break;
    case SC_V: self = &m.scale(vv); r = w * scl(lv[0], lv[1], lv[2]); break;
    case ST_X: self = &m.set_translation(v[0], v[1], v[2]); goto st;
    case ST_P: self = &m.set_translation(v); goto st;
    case ST_V:
        self = &m.set_translation(vv);
    st:
        for (int i = 0; i < 3; ++i)
            r.a[i][3] = lv[i];
        break;
    case STR_P: self = &m.scale_translation(v); goto str;
    case STR_V:
        self = &m.scale_translation(vv);
    str:
        for (int i = 0; i < 3; ++i)
            r.a[i][3] *= lv[i];
        break;
    case X_: m.x() = T(v[0]); r.a[0][3] = lv[0]; break;
    case Y_: m.y() = T(v[1]); r.a[1][3] = lv[1]; break;
    case Z_: m.z() = T(v[2]); r.a[2][3] = lv[2]; break;
    case A_TR: vmml::apply_translation(m, T(v[0]), T(v[1]), T(v[2])); r = w * trn(lv[0], lv[1], lv[2]); break;
    case A_ROT: vmml::apply_rotation(m, angt, ax.array[0], ax.array[1], ax.array[2]); r = w * rot(angt, ax.array[0], ax.array[1], ax.array[2]); break;
    case M_SC: m *= vmml::create_scaling(vmml::Vector<3, T>(T(v[0]), T(v[1]), T(v[2]))); r = w * scl(lv[0], lv[1], lv[2]); break;
    case M_SCS: m *= vmml::create_scaling(T(v[0])); r = w * scl(lv[0], lv[0], lv[0]); break;
    }
    chained = self == &m;
    return r;
}
void args(Ctx& c, int op, int& ai, int& xi, int& vi, int na, int nx, int nv)
{
    ai = xi = vi = 0;
    if (op <= PZ)
        ai = c.choose(na);
    else if (op == ROT || op == A_ROT)
        ai = c.choose(na), xi = c.choose(nx);
    else
        vi = c.choose(nv);
}
// the first three serve the sequences
const int NSTART = 10;
template <typename T>
void start(vmml::Matrix<4, 4, T>& m, int k)
{
    static const double s[NSTART][16] = {{1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1},
                                         {2, -3, 5, 7, 11, -13, 17, 19, -23, 29, 31, -37, 41, 43, -47, 53},
                                         {0.36, 0.48, -0.8, 0, -0.8, 0.6, 0, 0, 0.48, 0.64, 0.6, 0, 3, -2, 8, 1},
                                         {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0},
                                         {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 2},
                                         {2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 5, -4, 3, 0},
                                         {3, 0, 0, 0, 0, -2, 0, 0, 0, 0, 0.5, 0, 0, 0, 0, 1},
                                         {1.5, 0, 0, 0, 0, 2, 0, 0, 0, 0, -1.02, -1, 0, 0, -2.02, 0},
                                         {1, 0, 0, 1e-4, 0, 1, 0, 0, 0, 0, 1, 0, 7, 8, 9, 1},
                                         {1, 2, 3, 4, 2, 4, 6, 8, -1, -2, -3, -4, 0.5, 1, 1.5, 2}};
    for (int i = 0; i < 16; ++i)
        m.array[i] = T(s[k][i]);
}

// every call on every start matrix, all arguments
template <typename T, typename TT>
void single(Ctx& c)
{
    const int k = c.choose(NSTART), op = c.choose(N_OPS);
    int ai, xi, vi;
    args(c, op, ai, xi, vi, ALLANG, ALLAX, ALLVEC);
    Guarded<vmml::Matrix<4, 4, T>> g;
    start(g.o, k);
    if (!std::is_same<T, TT>::value && std::fabs(ANG[ai]) > 200)
        return; // the angle in which type?
    const M4 w = lift(g.o);
    bool chained = false;
    const M4 r = apply<T, TT>(g.o, w, op, ai, xi, vi, chained);
    c.step();
    c.state(hash_fp(g.o.array, 16));
    std::ostringstream os;
    os << opn[op] << " (argument " << ai << "," << xi << "," << vi << ") on start matrix " << k;
    NOTE(c, os.str());
    same4(c, g.o, r, 8, os.str());
    CHK(c, chained, opn[op] << " does not return the matrix");
    CHK_GUARD(c, g);
}
// every sequence: each step against the matrix product computed from the
// matrix before the step (states may therefore be merged)
template <typename T>
void stepwise(Ctx& c, int depth, int na, int nv)
{
    Guarded<vmml::Matrix<4, 4, T>> g;
    start(g.o, c.choose(3));
    for (int d = 0; d < depth; ++d)
    {
        c.visit(hash_fp(g.o.array, 16), depth - d);
        const int op = c.choose(N_OPS);
        int ai, xi, vi;
        args(c, op, ai, xi, vi, na, 2, nv);
        if (op == ROT || op == A_ROT)
            xi += 4;
        ai = na == 2 ? ai * 3 + 1 : ai;
        const M4 w = lift(g.o);
        bool chained = false;
        const M4 r = apply<T, T>(g.o, w, op, ai, xi, vi, chained);
        c.step();
        std::ostringstream os;
        os << "step " << d << " " << opn[op] << "(" << ai << "," << xi << "," << vi << ")";
        NOTE(c, os.str() << " -> " << show(g.o));
        same4(c, g.o, r, 8, os.str());
        c.state(hash_fp(g.o.array, 16, mc::hash_val(d)));
    }
    CHK_GUARD(c, g);
}
// whole product: rotations only, orthonormal with determinant 1 throughout
template <typename T>
void rotations(Ctx& c, int depth, int na)
{
    Guarded<vmml::Matrix<4, 4, T>> g;
    start(g.o, 0);
    M4 w = M4::id();
    for (int d = 0; d < depth; ++d)
    {
        int op = c.choose(8);
        op = op < 7 ? op : int(A_ROT);
        const int ai = c.choose(na), xi = op == ROT || op == A_ROT ? 4 + c.choose(2) : 0;
        bool chained = false;
        w = apply<T, T>(g.o, w, op, 1 + ai * (NANG - 2) / na, xi, 0, chained);
        c.step();
        c.state(hash_fp(g.o.array, 16, mc::hash_val(d)));
        NOTE(c, opn[op] << "(" << 1 + ai * (NANG - 2) / na << "," << xi << ")");
    }
    same4(c, g.o, w, 16 * depth, "sequence of rotations");
    const LD tol = 64 * depth * std::numeric_limits<T>::epsilon();
    M4 m = lift(g.o);
    LD det = 0;
    for (int i = 0; i < 3; ++i)
    {
        det += m.a[0][i] * (m.a[1][(i + 1) % 3] * m.a[2][(i + 2) % 3] - m.a[1][(i + 2) % 3] * m.a[2][(i + 1) % 3]);
        for (int j = 0; j < 3; ++j)
        {
            LD s = 0, t = 0;
            for (int k = 0; k < 3; ++k)
            {
                s += m.a[i][k] * m.a[j][k];
                t += m.a[k][i] * m.a[k][j];
            }
            CHK(c, std::fabs(s - (i == j)) < tol && std::fabs(t - (i == j)) < tol, "rotation sequence is not orthonormal: " << show(g.o));
        }
    }
    CHK(c, std::fabs(det - 1) < tol, "rotation sequence has determinant " << double(det));
    CHK_GUARD(c, g);
}
// whole product of mixed calls, compared at the end only
template <typename T>
void product(Ctx& c, int depth)
{
    static const int ops[] = {RX, PY, RZ, SC_X, SC_V, A_TR, A_ROT, M_SC, ST_V, STR_P, PX};
    Guarded<vmml::Matrix<4, 4, T>> g;
    start(g.o, 2);
    M4 w = lift(g.o);
    for (int d = 0; d < depth; ++d)
    {
        const int op = c.pick(ops);
        const int ai = op == RX || op == PY || op == RZ || op == A_ROT || op == PX ? 4 + c.choose(2) : 0;
        bool chained;
        w = apply<T, T>(g.o, w, op, ai, 5, 0, chained);
        c.step();
        NOTE(c, opn[op] << "(" << ai << ") -> " << show(g.o));
        c.state(hash_fp(g.o.array, 16, mc::hash_val(d)));
    }
    same4(c, g.o, w, 64 * depth, "sequence of transforms");
    CHK_GUARD(c, g);
}
// the create_ helpers and translation access
template <typename T>
void helpers(Ctx& c)
{
    const int which = c.choose(9);
    const int ai = which == 2 || which == 3 ? c.choose(ALLANG) : 0;
    const int xi = which == 2 || which == 3 ? c.choose(ALLAX) : 0;
    const int vi = which == 2 || which == 3 ? 0 : c.choose(ALLVEC);
    const vmml::Vector<3, T> v(T(VEC[vi][0]), T(VEC[vi][1]), T(VEC[vi][2]));
    const vmml::Vector<3, T> ax = axis<T>(xi);
    const LD x = v.array[0], y = v.array[1], z = v.array[2];
    const T ang = T(ANG[ai]);
    c.step();
    c.state(mc::hash_val(((which * 64 + ai) * 64 + xi) * 64 + vi));
    NOTE(c, "helper " << which << " angle " << ai << " axis " << xi << " vector " << vi);
    typedef vmml::Matrix<4, 4, T> X;
    switch (which)
    {
    case 0: same4(c, X(vmml::create_translation<4, 4>(v)), trn(x, y, z), 0, "create_translation<4,4>"); break;
    case 1: same4(c, X(vmml::create_translation(v)), trn(x, y, z), 0, "create_translation"); break;
    case 2: same4(c, X(vmml::create_rotation<4, 4>(ang, ax)), rot(ang, ax.array[0], ax.array[1], ax.array[2]), 8, "create_rotation<4,4>"); break;
    case 3: same4(c, X(vmml::create_rotation(ang, ax)), rot(ang, ax.array[0], ax.array[1], ax.array[2]), 8, "create_rotation"); break;
    case 4: same4(c, X(vmml::create_scaling<4, 4>(v)), scl(x, y, z), 0, "create_scaling<4,4>"); break;
    case 5: same4(c, X(vmml::create_scaling(v)), scl(x, y, z), 0, "create_scaling"); break;
    case 6: same4(c, X(vmml::create_scaling(v.array[0])), scl(x, x, x), 0, "create_scaling(scalar)"); break;
    case 7:
    {
        Guarded<X> g;
        start(g.o, 1);
        const X before(g.o);
        g.o.set_translation(v);
        vmml::Vector<3, T> t(T(9), T(9), T(9));
        vmml::Vector<3, double> td(9., 9., 9.);
        g.o.get_translation(t);
        g.o.get_translation(td);
        const X& cm = g.o;
        const vmml::Vector<3, T> u = cm.get_translation();
        for (int i = 0; i < 3; ++i)
            CHK(c, t.array[i] == v.array[i] && u.array[i] == v.array[i] && td.array[i] == double(v.array[i]), "get_translation after set_translation(" << show(v) << ") is " << show(t) << show(u));
        CHK(c, &g.o.x() == g.o.array + 12 && &g.o.y() == g.o.array + 13 && &g.o.z() == g.o.array + 14, "x(), y(), z() name the translation");
        for (int i = 0; i < 16; ++i)
            if (i < 12 || i == 15)
                CHK(c, g.o.array[i] == before.array[i], "set_translation changed element " << i);
        CHK_GUARD(c, g);
        break;
    }
    default:
    {
        // translations of other shapes
        vmml::Matrix<3, 3, T> m;
        vmml::Matrix<5, 5, T> n;
        for (int i = 0; i < 9; ++i)
            m.array[i] = T(i + 1);
        for (int i = 0; i < 25; ++i)
            n.array[i] = T(i * 2);
        const vmml::Vector<2, T> a = m.get_translation();
        const vmml::Vector<4, T> b = n.get_translation();
        CHK(c, a.array[0] == m.array[6] && a.array[1] == m.array[7], "3x3 get_translation " << show(a));
        for (int i = 0; i < 4; ++i)
            CHK(c, b.array[i] == n.array[20 + i], "5x5 get_translation " << show(b));
    }
    }
}
} // namespace

REGISTER_BLOCK(c12)
{
#if PART == 0
    mc::add("single_float", single<float, float>, "every call, all arguments");
    mc::add("single_double", single<double, double>, "");
    mc::add("single_float_double", single<float, double>, "argument type differs from element type");
    mc::add("single_double_float", single<double, float>, "");
    mc::add("helpers_float", helpers<float>, "create_ helpers, translation access");
    mc::add("helpers_double", helpers<double>, "");
#elif PART == 1
    mc::add("stepwise_float", [](Ctx& c) { stepwise<float>(c, c.thorough() ? 4 : 3, 2, 2); }, "all call sequences");
    mc::add("stepwise_double", [](Ctx& c) { stepwise<double>(c, c.thorough() ? 4 : 3, 3, 1); }, "");
    mc::add("rotations_float", [](Ctx& c) { rotations<float>(c, c.thorough() ? 5 : 4, 2); }, "orthonormality of rotation sequences");
    mc::add("rotations_double", [](Ctx& c) { rotations<double>(c, c.thorough() ? 4 : 3, 6); }, "");
    mc::add("product_float", [](Ctx& c) { product<float>(c, c.thorough() ? 6 : 4); }, "whole products");
    mc::add("product_double", [](Ctx& c) { product<double>(c, c.thorough() ? 6 : 4); }, "");
#endif
}
MC_MAIN()
