// Operand sets and result output for one element type.
#ifndef VERIF_OPS_IN_HPP
#define VERIF_OPS_IN_HPP
#include "api.hpp"

#include <vmmlib/aabb.hpp>
#include <vmmlib/frustum.hpp>
#include <vmmlib/frustum_culler.hpp>
#include <vmmlib/intersection.hpp>
#include <vmmlib/lowpass_filter.hpp>
#include <vmmlib/math.hpp>
#include <vmmlib/matrix.hpp>
#include <vmmlib/matrix_functors.hpp>
#include <vmmlib/qr_decomposition.hpp>
#include <vmmlib/quaternion.hpp>
#include <vmmlib/util.hpp>
#include <vmmlib/vector.hpp>

#include <cmath>
#include <limits>
#include <sstream>
#include <string>
#include <vector>

namespace ops
{
template <typename T>
struct In
{
    typedef vmml::Vector<1, T> V1;
    typedef vmml::Vector<2, T> V2;
    typedef vmml::Vector<3, T> V3;
    typedef vmml::Vector<4, T> V4;
    typedef vmml::Vector<5, T> V5;
    typedef vmml::Vector<9, T> V9;
    typedef vmml::Matrix<2, 2, T> M2;
    typedef vmml::Matrix<3, 3, T> M3;
    typedef vmml::Matrix<4, 4, T> M4;
    typedef vmml::Matrix<3, 4, T> M34;
    typedef vmml::Matrix<4, 3, T> M43;
    typedef vmml::Matrix<2, 3, T> M23;
    typedef vmml::Matrix<5, 2, T> M52;
    typedef vmml::Matrix<3, 1, T> M31;
    typedef vmml::Matrix<1, 3, T> M13;
    typedef vmml::Quaternion<T> Q;

    T s, t, u;     // scalars, s != 0
    T f01;         // in [0, 1]
    T angle;
    V2 v2a, v2b;
    V3 v3a, v3b, v3c, axis;
    V4 v4a, v4b, sphere, plane;
    V9 v9a, v9b;
    V5 v5a;
    M2 m2a, m2b;
    M3 m3a, m3b, rot3;
    M4 m4a, m4b, rot4;
    M34 m34;
    M43 m43;
    M23 m23, m23b;
    M52 m52;
    M31 m31;
    M13 m13;
    Q qa, qb, qu;
    vmml::AABB<T> ba, bb;
    vmml::Frustum<T> fr;
    vmml::FrustumCuller<T> cull;
    vmml::Vector<3, int> i3;
    vmml::Vector<4, int> i4;
    vmml::Vector<3, unsigned char> u3;
    vmml::Matrix<3, 3, int> im3;
    vmml::Matrix<3, 3, unsigned char> um3;
    T raw[16];
    T raw2[4][4];
};

// deterministic value streams without rand()
template <typename T>
struct Stream
{
    unsigned x;
    int kind;
    Stream(int k) : x(12345 + 77 * k), kind(k) {}
    T operator()()
    {
        x = x * 1103515245u + 12345u;
        const int r = int(x >> 16 & 0x7fff);
        switch (kind)
        {
        case 0: return T(r % 11 - 5);                                  // integers
        case 1: return T(r % 65 - 32) / T(8);                          // dyadic
        case 2: return T(r % 2001 - 1000) / T(313);                    // reals
        case 3: return T(r % 2001 - 1000) * T(1e-4) / T(3);            // small
        case 4: return T(r % 3 - 1);                                   // many zeros
        default: return T(r % 2001 - 1000) * T(1e4) / T(7);            // large
        }
    }
};
enum
{
    SETS = 6
};
inline const char* const* set_names()
{
    static const char* const n[] = {"integers", "dyadic", "reals", "small", "zeros", "large"};
    return n;
}

template <typename T>
void build(void* where, int set)
{
    memset(where, 0, sizeof(In<T>));
    In<T>& i = *new (where) In<T>();
    Stream<T> g(set);
    i.s = T(set == 0 ? 3 : set == 1 ? -2.5 : 1.7);
    i.t = T(set == 0 ? -2 : set == 1 ? 0.25 : -0.3);
    i.u = T(set == 4 ? 0 : set == 0 ? 5 : 2.25);
    i.f01 = T(set == 0 ? 0.5 : set == 4 ? 1 : set == 2 ? 0.3 : set == 5 ? 0.04 : 0.95);
    i.angle = T(set == 0 ? 1 : set == 1 ? -0.5 : set == 4 ? 0 : 2.1);
#define FILL(x)                                                                \
    for (size_t k = 0; k < sizeof(i.x.array) / sizeof(i.x.array[0]); ++k)      \
        i.x.array[k] = g();
    FILL(v2a) FILL(v2b) FILL(v3a) FILL(v3b) FILL(v3c) FILL(v4a) FILL(v4b)
    FILL(v9a) FILL(v9b) FILL(v5a) FILL(m2a) FILL(m2b) FILL(m3a) FILL(m3b)
    FILL(m4a) FILL(m4b) FILL(m34) FILL(m43) FILL(m23) FILL(m23b) FILL(m52)
    FILL(m31) FILL(m13) FILL(qa) FILL(qb)
#undef FILL
    // regular enough for the inverses and for QR (the zeros set stays singular)
    if (set != 4)
    {
        for (size_t k = 0; k < 4; ++k)
            i.m4a.array[k * 5] += T(10) * (g.kind == 5 ? T(1e6) : T(1));
        for (size_t k = 0; k < 3; ++k)
        {
            i.m3a.array[k * 4] += T(10) * (g.kind == 5 ? T(1e6) : T(1));
            i.m43.array[k * 5] += T(10) * (g.kind == 5 ? T(1e6) : T(1));
        }
        for (size_t k = 0; k < 2; ++k)
            i.m2a.array[k * 3] += T(10) * (g.kind == 5 ? T(1e6) : T(1));
        i.qa.array[3] += 1;
        i.qb.array[0] += 2;
    }
    else
    {
        i.qa.array[0] = 1;
        i.qb.array[3] = 1;
    }
    // unit axis, rotations and unit quaternion with exact entries
    const T ax[][3] = {{1, 0, 0}, {0, T(0.6), T(0.8)}, {T(2.0 / 3), T(-1.0 / 3), T(2.0 / 3)}};
    for (int k = 0; k < 3; ++k)
        i.axis.array[k] = ax[set % 3][k];
    const T r[][9] = {{0, 1, 0, -1, 0, 0, 0, 0, 1}, {1, 0, 0, 0, -1, 0, 0, 0, -1}, {T(2.0 / 3), T(2.0 / 3), T(-1.0 / 3), T(-1.0 / 3), T(2.0 / 3), T(2.0 / 3), T(2.0 / 3), T(-1.0 / 3), T(2.0 / 3)}};
    for (int k = 0; k < 9; ++k)
        i.rot3.array[k] = r[set % 3][k];
    for (int k = 0; k < 16; ++k)
        i.rot4.array[k] = k / 4 < 3 && k % 4 < 3 ? r[(set + 1) % 3][k / 4 * 3 + k % 4] : T(k == 15);
    const T q[][4] = {{0, 0, 0, 1}, {T(0.5), T(-0.5), T(0.5), T(0.5)}, {T(0.48), T(0.36), T(0), T(0.8)}};
    for (int k = 0; k < 4; ++k)
        i.qu.array[k] = q[set % 3][k];
    for (int k = 0; k < 3; ++k)
        i.plane.array[k] = i.axis.array[k];
    i.plane.array[3] = T(-1.5);
    for (int k = 0; k < 3; ++k)
        i.sphere.array[k] = g();
    i.sphere.array[3] = T(set == 4 ? 0 : 2);
    for (int k = 0; k < 3; ++k)
    {
        const T a = g(), b = g(), c = g(), d = g();
        i.ba.getMin().array[k] = a < b ? a : b;
        i.ba.getMax().array[k] = a < b ? b : a;
        i.bb.getMin().array[k] = c < d ? c : d;
        i.bb.getMax().array[k] = c < d ? d : c;
    }
    const T fr[] = {T(-1), T(set == 2 ? 1.25 : 1), T(-0.75), T(0.75), T(set == 3 ? 0.1 : 1), T(100)};
    for (int k = 0; k < 6; ++k)
        i.fr.array[k] = fr[k];
    const vmml::Vector<3, T> c[8] = {vmml::Vector<3, T>(-1, 1, -1), vmml::Vector<3, T>(1, 1, -1), vmml::Vector<3, T>(-1, -1, -1), vmml::Vector<3, T>(1, -1, -1),
                                     vmml::Vector<3, T>(-9, 9, -9), vmml::Vector<3, T>(9, 9, -9), vmml::Vector<3, T>(-9, -9, -9), vmml::Vector<3, T>(9, -9, -9)};
    i.cull.setup(c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]);
    for (int k = 0; k < 3; ++k)
    {
        i.i3.array[k] = int(7 * k - 5 - set);
        i.u3.array[k] = (unsigned char)(40 * k + 7 + set);
    }
    for (int k = 0; k < 4; ++k)
        i.i4.array[k] = int(12 - 5 * k + set);
    for (int k = 0; k < 9; ++k)
    {
        i.im3.array[k] = int(k * k - 11 + set);
        i.um3.array[k] = (unsigned char)(k * 27 + set);
    }
    for (int k = 0; k < 16; ++k)
    {
        i.raw[k] = g();
        i.raw2[k / 4][k % 4] = g();
    }
}

// ------------------------------------------------------------- output
template <typename X>
inline typename std::enable_if<std::is_arithmetic<X>::value, Out&>::type operator<<(Out& o, X x)
{
    o.add((long double)x);
    return o;
}
template <size_t M, typename T>
inline Out& operator<<(Out& o, const vmml::Vector<M, T>& v)
{
    for (size_t k = 0; k < M; ++k)
        o.add(v.array[k]);
    return o;
}
template <size_t M, size_t N, typename T>
inline Out& operator<<(Out& o, const vmml::Matrix<M, N, T>& v)
{
    for (size_t k = 0; k < M * N; ++k)
        o.add(v.array[k]);
    return o;
}
template <typename T>
inline Out& operator<<(Out& o, const vmml::Quaternion<T>& v)
{
    for (size_t k = 0; k < 4; ++k)
        o.add(v.array[k]);
    return o;
}
template <typename T>
inline Out& operator<<(Out& o, const vmml::AABB<T>& v)
{
    return o << v.getMin() << v.getMax();
}
template <typename T>
inline Out& operator<<(Out& o, const vmml::Frustum<T>& v)
{
    for (size_t k = 0; k < 6; ++k)
        o.add(v.array[k]);
    return o;
}
inline Out& operator<<(Out& o, const std::string& s)
{
    unsigned h = 17;
    for (size_t k = 0; k < s.size(); ++k)
        h = h * 31 + (unsigned char)s[k];
    o.add(s.size());
    o.add(h);
    return o;
}
inline Out& operator<<(Out& o, vmml::Visibility v)
{
    return o << int(v);
}
inline Out& operator<<(Out& o, bool v)
{
    return o << int(v);
}

// `RES(type, name);` is a result object with previous contents
#define RES(type, name)                                                        \
    type name;                                                                 \
    ::ops::soil(&name, sizeof name, dirt, o.n)
#define OP(name, fl, ...)                                                      \
    {                                                                          \
        name, [](const void* in_, int dirt, Out& o) {                          \
            (void)dirt;                                                        \
            const I& in = *static_cast<const I*>(in_);                         \
            __VA_ARGS__                                                        \
        },                                                                     \
            fl                                                                 \
    }
#define OPS_TYPES                                                              \
    typedef In<T> I;                                                           \
    typedef typename I::V2 V2;                                                 \
    typedef typename I::V3 V3;                                                 \
    typedef typename I::V4 V4;                                                 \
    typedef typename I::V5 V5;                                                 \
    typedef typename I::V9 V9;                                                 \
    typedef typename I::M2 M2;                                                 \
    typedef typename I::M3 M3;                                                 \
    typedef typename I::M4 M4;                                                 \
    typedef typename I::M34 M34;                                               \
    typedef typename I::M43 M43;                                               \
    typedef typename I::M23 M23;                                               \
    typedef typename I::M52 M52;                                               \
    typedef typename I::M31 M31;                                               \
    typedef typename I::M13 M13;                                               \
    typedef typename I::Q Q
} // namespace ops
#endif
