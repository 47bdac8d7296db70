// C20: bounding boxes as hulls of what was merged into them.
#include <vmmlib/aabb.hpp>
#include "mc/common.hpp"
using namespace h;

namespace
{
typedef long double L;
const L INF = std::numeric_limits<L>::infinity();
struct Model
{
    L lo[3], hi[3];
    void reset()
    {
        for (int i = 0; i < 3; ++i)
            lo[i] = INF, hi[i] = -INF;
    }
    void merge(const Model& o)
    {
        for (int i = 0; i < 3; ++i)
        {
            lo[i] = std::min(lo[i], o.lo[i]);
            hi[i] = std::max(hi[i], o.hi[i]);
        }
    }
    bool undefined() const { return lo[0] == INF; }
    bool empty() const { return lo[0] >= hi[0] || lo[1] >= hi[1] || lo[2] >= hi[2]; }
};
template <typename T>
vmml::Vector<3, T> vec(L x, L y, L z)
{
    return vmml::Vector<3, T>(T(x), T(y), T(z));
}
Model box(L a, L b, L c, L d, L e, L f) { return Model{{a, b, c}, {d, e, f}}; }
template <typename T>
std::string str(const vmml::AABB<T>& b)
{
    return show(b.getMin()) + show(b.getMax());
}
template <typename T>
uint64_t hb(const vmml::AABB<T>& b)
{
    return hash_fp(b.getMin().array, 3, hash_fp(b.getMax().array, 3));
}

// compares every read operation with the model
template <typename T>
void check(Ctx& c, vmml::AABB<T>& b, const Model& m, bool spheres)
{
    const vmml::AABB<T>& cb = b;
    CHK(c, cb.isEmpty() == m.empty(), "isEmpty of " << str(b) << " is " << cb.isEmpty());
    if (m.undefined())
        return; // reading an empty box is undefined
    for (int i = 0; i < 3; ++i)
        CHK(c, cb.getMin().array[i] == m.lo[i] && cb.getMax().array[i] == m.hi[i] && b.getMin().array[i] == m.lo[i] && b.getMax().array[i] == m.hi[i], "box is " << str(b) << " want (" << m.lo[0] << " " << m.lo[1] << " " << m.lo[2] << ")(" << m.hi[0] << " " << m.hi[1] << " " << m.hi[2] << ")");
    const vmml::Vector<3, T> d = cb.getDimension(), ce = cb.getCenter();
    for (int i = 0; i < 3; ++i)
    {
        if (!std::is_signed<T>::value && m.lo[i] > m.hi[i])
            continue; // a negative extent
        CHK(c, d.array[i] == T(m.hi[i] - m.lo[i]), "dimension of " << str(b) << " is " << show(d));
        const L mid = (m.hi[i] + m.lo[i]) / 2;
        const L slack = std::is_floating_point<T>::value ? 0 : 0.5L;
        CHK(c, std::fabs(ce.array[i] - mid) <= slack, "center of " << str(b) << " is " << show(ce));
    }
    // points: every combination of below, on, inside, on, above per axis
    for (int k = 0; k < 125; ++k)
    {
        L p[3];
        for (int i = 0, q = k; i < 3; ++i, q /= 5)
        {
            const int s = q % 5;
            p[i] = s == 0 ? m.lo[i] - 1 : s == 1 ? m.lo[i] : s == 2 ? L(T((m.lo[i] + m.hi[i]) / 2)) : s == 3 ? m.hi[i] : m.hi[i] + 1;
        }
        if (!std::is_signed<T>::value && (p[0] < 0 || p[1] < 0 || p[2] < 0))
            continue;
        const vmml::Vector<3, T> v = vec<T>(p[0], p[1], p[2]);
        bool in = true, in2 = true;
        for (int i = 0; i < 3; ++i)
        {
            const bool ok = p[i] >= m.lo[i] && p[i] <= m.hi[i];
            in = in && ok;
            if (i < 2)
                in2 = in2 && ok;
        }
        CHK(c, b.isIn(v) == in, "isIn(" << show(v) << ") of " << str(b) << " is " << !in);
        CHK(c, b.isIn2d(v) == in2, "isIn2d(" << show(v) << ") of " << str(b) << " is " << !in2);
    }
    c.step(250);
    if (!spheres)
        return;
    for (int r = 0; r <= 3; ++r)
        for (int k = 0; k < 125; ++k)
        {
            L p[3];
            bool in = true;
            for (int i = 0, q = k; i < 3; ++i, q /= 5)
            {
                const int s = q % 5;
                p[i] = s == 0 ? m.lo[i] + r - 1 : s == 1 ? m.lo[i] + r : s == 2 ? L(T((m.lo[i] + m.hi[i]) / 2)) : s == 3 ? m.hi[i] - r : m.hi[i] - r + 1;
                in = in && p[i] - r >= m.lo[i] && p[i] + r <= m.hi[i];
            }
            const vmml::Vector<4, T> v((T)p[0], (T)p[1], (T)p[2], (T)r);
            CHK(c, b.isIn(v) == in, "isIn(sphere " << show(v) << ") of " << str(b) << " is " << !in);
        }
    c.step(500);
}
const Model POINTS[] = {{{0, 0, 0}, {0, 0, 0}}, {{4, 1, 2}, {4, 1, 2}}, {{1, 6, 3}, {1, 6, 3}}, {{2, 2, 9}, {2, 2, 9}}, {{-3, 0, 5}, {-3, 0, 5}}, {{0, -8, 1}, {0, -8, 1}}, {{7, 7, -2}, {7, 7, -2}}};
const Model BOXES[] = {{{1, 1, 1}, {3, 5, 2}}, {{0, 3, 2}, {8, 4, 10}}, {{5, 0, 7}, {9, 9, 7}}, {{11, 3, 3}, {11, 3, 3}}, {{-2, -4, -6}, {-1, 2, 0}}, {{-7, -4, 1}, {-7, 10, 2}}};

template <typename T>
void history(Ctx& c, int depth)
{
    typedef vmml::AABB<T> B;
    const bool sg = std::is_signed<T>::value;
    const int np = sg ? 7 : 4, nb = sg ? 6 : 4;
    const bool filled = c.flip();
    Guarded<B> g(filled ? B(vec<T>(2, 2, 2), vec<T>(3, 4, 5)) : B());
    B& b = g.o;
    Model m = box(2, 2, 2, 3, 4, 5);
    if (!filled)
        m.reset();
    for (int i = 0; i < depth; ++i)
    {
        const int fixed = 15;
        const int op = c.choose(fixed + np + nb);
        std::ostringstream what;
        if (op >= fixed + np)
        {
            const Model& o = BOXES[op - fixed - np];
            const B ob(vec<T>(o.lo[0], o.lo[1], o.lo[2]), vec<T>(o.hi[0], o.hi[1], o.hi[2]));
            b.merge(ob);
            m.merge(o);
            what << "merge " << str(ob);
        }
        else if (op >= fixed)
        {
            const Model& o = POINTS[op - fixed];
            const vmml::Vector<3, T> p = vec<T>(o.lo[0], o.lo[1], o.lo[2]);
            b.merge(p);
            m.merge(o);
            what << "merge point " << show(p);
        }
        else
            switch (op)
            {
            case 0:
                b.setEmpty();
                m.reset();
                what << "setEmpty";
                break;
            case 1:
            {
                B e;
                b.merge(e);
                what << "merge empty";
                break;
            }
            case 2:
            {
                B e(vec<T>(1, 1, 1), vec<T>(2, 2, 2));
                e.setEmpty();
                b.merge(e);
                what << "merge reset box";
                break;
            }
            case 3:
                b.merge(b);
                what << "merge self";
                break;
            case 4:
                b.set(vec<T>(1, 2, 3), vec<T>(4, 8, 6));
                m = box(1, 2, 3, 4, 8, 6);
                what << "set";
                break;
            case 5:
                b.set(T(5), T(6), T(7), T(3));
                m = box(2, 3, 4, 8, 9, 10);
                what << "set cube";
                break;
            case 6:
                if (m.undefined())
                    return;
                b.setMin(vec<T>(1, 0, 2));
                m.lo[0] = 1, m.lo[1] = 0, m.lo[2] = 2;
                what << "setMin";
                break;
            case 7:
                if (m.undefined())
                    return;
                b.setMax(vec<T>(3, 9, 1));
                m.hi[0] = 3, m.hi[1] = 9, m.hi[2] = 1;
                what << "setMax";
                break;
            case 8:
                b = B();
                m.reset();
                what << "= B()";
                break;
            case 9:
            {
                const B copy(b);
                B other(vec<T>(0, 0, 0), vec<T>(1, 1, 1));
                other = copy;
                b = other;
                what << "copy";
                break;
            }
            case 10:
                b = B::makeUnitBox();
                m = box(0, 0, 0, 1, 1, 1);
                what << "unit box";
                break;
            default:
            {
                if (m.undefined())
                    return;
                for (int k = 0; sizeof(T) == 1 && k < 3; ++k) // four times must fit
                    if (4 * std::max(std::fabs(m.lo[k]), std::fabs(m.hi[k])) > std::numeric_limits<T>::max())
                        return;
                if (op == 11)
                    b += T(2);
                else if (op == 12)
                    b -= T(1);
                else if (op == 13)
                    b *= T(2);
                else
                    b = (b * T(4)) / T(2);
                for (int k = 0; k < 3; ++k)
                {
                    m.lo[k] = op == 11 ? m.lo[k] + 2 : op == 12 ? m.lo[k] - 1 : m.lo[k] * 2;
                    m.hi[k] = op == 11 ? m.hi[k] + 2 : op == 12 ? m.hi[k] - 1 : m.hi[k] * 2;
                    if (!sg && (m.lo[k] < 0 || m.hi[k] < 0))
                        return;
                }
                what << "scalar op " << op;
            }
            }
        c.step();
        NOTE(c, what.str() << " -> " << str(b));
        CHK_GUARD(c, g);
        // full probing once per distinct state; bounds at every step
        CHK(c, b.isEmpty() == m.empty(), "isEmpty after " << what.str() << " is " << b.isEmpty() << " for " << str(b));
        if (!m.undefined())
            for (int k = 0; k < 3; ++k)
                CHK(c, b.getMin().array[k] == m.lo[k] && b.getMax().array[k] == m.hi[k], "after " << what.str() << " the box is " << str(b) << " want (" << m.lo[0] << " " << m.lo[1] << " " << m.lo[2] << ")(" << m.hi[0] << " " << m.hi[1] << " " << m.hi[2] << ")");
        c.visit(m.undefined() ? 1 : hb(b), depth - i - 1);
        if (i + 1 >= depth - 2)
            check(c, b, m, sg);
    }
}
// an offset that leaves few bits for the fraction (and cannot be kept in a
// narrower type), with room for multiplication by 7
template <typename T>
T far_away()
{
    if (!std::is_floating_point<T>::value)
        return sizeof(T) < 4 ? T(40) : widen(T(5));
    return T(std::ldexp(1., std::numeric_limits<T>::digits - 5)) + T(1);
}
// everything about one box
template <typename T>
void single(Ctx& c)
{
    typedef vmml::AABB<T> B;
    const int where = c.choose(3); // around zero, far away, far on both sides
    std::vector<T> lo = {T(-4), T(0), T(3)};
    for (size_t i = 0; where && i < lo.size(); ++i)
        lo[i] = T(where == 2 && i % 2 ? lo[i] - far_away<T>() : lo[i] + far_away<T>());
    const std::vector<T> len = {T(0), T(2), T(5), T(-3)};
    T a[3], b[3];
    Model m;
    for (int i = 0; i < 3; ++i)
    {
        m.lo[i] = a[i] = c.pick(lo);
        m.hi[i] = b[i] = T(a[i] + c.pick(len));
    }
    Guarded<B> g(B(vec<T>(a[0], a[1], a[2]), vec<T>(b[0], b[1], b[2])));
    NOTE(c, str(g.o));
    c.state(hb(g.o));
    check(c, g.o, m, true);
    CHK_GUARD(c, g);
    // arithmetic with scalars acts on both corners
    static const L sc[] = {0, 1, 2, 7};
    const B& x = g.o;
    for (int k = 0; k < 4; ++k)
    {
        const T s = T(sc[k]);
        B p(x), q(x), r(x), t(x);
        p += s;
        q -= s;
        r *= s;
        if (s != T(0))
            t /= s;
        const B p2 = x + s, q2 = x - s, r2 = x * s;
        c.step(7);
        for (int i = 0; i < 3; ++i)
        {
            CHK(c, p.getMin().array[i] == a[i] + s && p.getMax().array[i] == b[i] + s, "+= " << +s << " of " << str(x) << " is " << str(p));
            CHK(c, q.getMin().array[i] == a[i] - s && q.getMax().array[i] == b[i] - s, "-= " << +s << " of " << str(x) << " is " << str(q));
            CHK(c, r.getMin().array[i] == a[i] * s && r.getMax().array[i] == b[i] * s, "*= " << +s << " of " << str(x) << " is " << str(r));
            if (s != T(0))
            {
                CHK(c, near<T>(t.getMin().array[i], T(a[i] / s)) && near<T>(t.getMax().array[i], T(b[i] / s)), "/= " << +s << " of " << str(x) << " is " << str(t));
                const B t2 = x / s;
                CHK(c, near<T>(t2.getMin().array[i], T(a[i] / s)) && near<T>(t2.getMax().array[i], T(b[i] / s)), "/ " << +s << " of " << str(x) << " is " << str(t2));
            }
        }
        for (int i = 0; i < 3; ++i)
            CHK(c, p2.getMin().array[i] == p.getMin().array[i] && p2.getMax().array[i] == p.getMax().array[i] &&
                   q2.getMin().array[i] == q.getMin().array[i] && q2.getMax().array[i] == q.getMax().array[i] &&
                   r2.getMin().array[i] == r.getMin().array[i] && r2.getMax().array[i] == r.getMax().array[i],
                "value and compound forms differ for " << str(x));
    }
    // comparison (that of long double compares the padding, too)
    for (int k = 0; sizeof(T) <= 8 && k < 7; ++k)
    {
        B y(x);
        if (k < 3)
            y.getMin().array[k] = T(y.getMin().array[k] + T(1));
        else if (k < 6)
            y.getMax().array[k - 3] = T(y.getMax().array[k - 3] + T(1));
        CHK(c, (x == y) == (k == 6) && (x != y) == (k != 6), "comparison of " << str(x) << " and " << str(y));
    }
}
// spheres and cubes
template <typename T>
void spheres(Ctx& c)
{
    typedef vmml::AABB<T> B;
    const std::vector<T> ce = sizeof(T) >= 4 ? std::vector<T>{T(0), T(-3), T(7), T(100)} : std::vector<T>{T(0), T(-3), T(7)};
    const std::vector<T> ra = sizeof(T) >= 8 ? std::vector<T>{T(0), T(1), T(5), T(16777217), T(33554435)} : sizeof(T) >= 4 && !std::is_floating_point<T>::value ? std::vector<T>{T(0), T(1), T(5), T(16777217), T(100000001)} : std::vector<T>{T(0), T(1), T(5)};
    const T x = c.pick(ce), y = c.pick(ce), z = c.pick(ce), r = c.pick(ra);
    c.step(4);
    c.state(mc::hash_val(x, mc::hash_val(y, mc::hash_val(z, mc::hash_val(r)))));
    B boxes[3] = {B(x, y, z, r), B(vmml::Vector<4, T>(x, y, z, r)), B()};
    boxes[2].set(x, y, z, r);
    const T lo[3] = {T(x - r), T(y - r), T(z - r)}, hi[3] = {T(x + r), T(y + r), T(z + r)};
    for (int k = 0; k < 3; ++k)
        for (int i = 0; i < 3; ++i)
            CHK(c, boxes[k].getMin().array[i] == lo[i] && boxes[k].getMax().array[i] == hi[i], "box " << k << " of sphere " << +x << " " << +y << " " << +z << " r " << +r << " is " << str(boxes[k]));
    // its own sphere fits exactly; one unit larger or shifted does not
    const vmml::Vector<4, T> s(x, y, z, r);
    CHK(c, boxes[0].isIn(s), "the box of sphere " << show(s) << " does not contain it");
    CHK(c, !boxes[0].isIn(vmml::Vector<4, T>(x, y, z, T(r + 1))), "the box of sphere " << show(s) << " contains a larger one");
    for (int i = 0; i < 6; ++i)
    {
        vmml::Vector<4, T> q(s);
        q.array[i / 2] = T(q.array[i / 2] + (i % 2 ? 1 : -1));
        CHK(c, !boxes[0].isIn(q), "the box of sphere " << show(s) << " contains the shifted " << show(q));
        if (r > T(0))
        {
            q.array[3] = T(r - 1);
            CHK(c, boxes[0].isIn(q), "the box of sphere " << show(s) << " does not contain the inner " << show(q));
        }
    }
}
// the hull is independent of order and repetition
template <typename T>
void orders(Ctx& c)
{
    typedef vmml::AABB<T> B;
    const bool sg = std::is_signed<T>::value;
    const int n = sg ? 13 : 7;
    const int len = c.thorough() ? 6 : 4;
    B b;
    Model m;
    m.reset();
    for (int i = 0; i < len; ++i)
    {
        const int k = c.choose(n);
        const Model& o = sg ? (k < 7 ? POINTS[k] : BOXES[k - 7]) : (k < 4 ? POINTS[k] : BOXES[k - 4]);
        if (k < (sg ? 7 : 4))
            b.merge(vec<T>(o.lo[0], o.lo[1], o.lo[2]));
        else
            b.merge(B(vec<T>(o.lo[0], o.lo[1], o.lo[2]), vec<T>(o.hi[0], o.hi[1], o.hi[2])));
        m.merge(o);
        c.step();
        c.state(hb(b));
        for (int j = 0; j < 3; ++j)
            CHK(c, b.getMin().array[j] == m.lo[j] && b.getMax().array[j] == m.hi[j], "hull is " << str(b));
    }
}
// every pair of boxes of a lattice, flat and point boxes and boxes without
// volume included
template <typename T>
void pairs(Ctx& c)
{
    typedef vmml::AABB<T> B;
    static const int iv[][2] = {{3, 3}, {1, 4}, {2, 2}, {0, 5}, {4, 6}, {6, 6}};
    const int n = c.thorough() ? 6 : 4;
    Model m[2];
    for (int k = 0; k < 2; ++k)
        for (int i = 0; i < 3; ++i)
        {
            const int q = c.choose(n);
            m[k].lo[i] = iv[q][0];
            m[k].hi[i] = iv[q][1];
        }
    // as they are, scaled to fractions and tiny values, and moved far away
    for (int f = 0; f < (std::is_floating_point<T>::value ? 5 : 2); ++f)
    {
        const bool fp = std::is_floating_point<T>::value;
        const L scale = fp && f == 1 ? 0.125L : f == 2 ? (L)std::numeric_limits<T>::min() : 1, shift = f == 3 ? 1000000 : f == 4 || (f == 1 && !fp) ? -(L)far_away<T>() : 0;
        B b[2];
        Model s[2];
        for (int k = 0; k < 2; ++k)
        {
            for (int i = 0; i < 3; ++i)
                s[k].lo[i] = (L)T(m[k].lo[i] * scale - shift), s[k].hi[i] = (L)T(m[k].hi[i] * scale - shift);
            b[k].set(vec<T>(s[k].lo[0], s[k].lo[1], s[k].lo[2]), vec<T>(s[k].hi[0], s[k].hi[1], s[k].hi[2]));
        }
        const B other(b[1]);
        CHK(c, sizeof(T) > 8 || (b[0] == b[1]) == (std::equal(s[0].lo, s[0].lo + 3, s[1].lo) && std::equal(s[0].hi, s[0].hi + 3, s[1].hi)), "comparison of " << str(b[0]) << str(b[1]));
        const std::string before = str(b[0]);
        b[0].merge(b[1]);
        s[0].merge(s[1]);
        c.step(3);
        c.state(hb(b[0]));
        for (int i = 0; i < 3; ++i)
            CHK(c, b[0].getMin().array[i] == s[0].lo[i] && b[0].getMax().array[i] == s[0].hi[i], "merge of " << before << " and " << str(b[1]) << " is " << str(b[0]));
        CHK(c, str(b[1]) == str(other), "merge changed its argument");
        b[0].merge(B());
        B e;
        e.merge(b[0]);
        for (int i = 0; i < 3; ++i)
            CHK(c, e.getMin().array[i] == s[0].lo[i] && e.getMax().array[i] == s[0].hi[i] && b[0].getMin().array[i] == s[0].lo[i] && b[0].getMax().array[i] == s[0].hi[i], "merge with an empty box is " << str(b[0]) << " or " << str(e));
        CHK(c, e.isEmpty() == s[0].empty(), "isEmpty of " << str(e));
    }
}
// two boxes whose faces differ by every power of two down to the last bits:
// each face of the second one equal to, inside or outside that of the first
template <typename T>
void faces(Ctx& c)
{
    typedef vmml::AABB<T> B;
    const L d = std::ldexp(L(1), -(c.choose(std::numeric_limits<T>::digits - 6) + 1));
    Model m[2];
    m[0].lo[0] = 1, m[0].lo[1] = 2, m[0].lo[2] = -3;
    m[0].hi[0] = 2, m[0].hi[1] = 4, m[0].hi[2] = 1;
    int st[6];
    for (int i = 0; i < 6; ++i)
        st[i] = c.choose(3) - 1;
    for (int i = 0; i < 3; ++i)
    {
        m[1].lo[i] = m[0].lo[i] + st[i] * d;
        m[1].hi[i] = m[0].hi[i] + st[3 + i] * d;
    }
    B b[2];
    for (int k = 0; k < 2; ++k)
        b[k] = B(vec<T>(m[k].lo[0], m[k].lo[1], m[k].lo[2]), vec<T>(m[k].hi[0], m[k].hi[1], m[k].hi[2]));
    NOTE(c, str(b[0]) << " and " << str(b[1]));
    c.state(hb(b[1]));
    c.step(8);
    bool same_ = true;
    for (int i = 0; i < 6; ++i)
        same_ = same_ && !st[i];
    if (sizeof(T) <= 8)
        CHK(c, (b[0] == b[1]) == same_ && (b[0] != b[1]) == !same_, "comparison of " << str(b[0]) << " and " << str(b[1]));
    // merged as a box, in both orders, and as its corners
    B u[4] = {b[0], b[1], b[0], b[0]};
    u[0].merge(b[1]);
    u[1].merge(b[0]);
    u[2].merge(b[1].getMin());
    u[2].merge(b[1].getMax());
    u[3].merge(b[1].getMax());
    u[3].merge(b[1].getMin());
    Model w(m[0]);
    w.merge(m[1]);
    for (int k = 0; k < 4; ++k)
        for (int i = 0; i < 3; ++i)
            CHK(c, u[k].getMin().array[i] == w.lo[i] && u[k].getMax().array[i] == w.hi[i], "merge (kind " << k << ") of " << str(b[0]) << " and " << str(b[1]) << " is " << str(u[k]));
    // every corner of the second box
    for (int k = 0; k < 8; ++k)
    {
        L p[3];
        bool in = true, in2 = true;
        for (int i = 0; i < 3; ++i)
        {
            p[i] = k & (1 << i) ? m[1].hi[i] : m[1].lo[i];
            const bool ok = p[i] >= m[0].lo[i] && p[i] <= m[0].hi[i];
            in = in && ok;
            in2 = in2 && (ok || i == 2);
        }
        const vmml::Vector<3, T> v = vec<T>(p[0], p[1], p[2]);
        CHK(c, b[0].isIn(v) == in && b[0].isIn2d(v) == in2, "isIn/isIn2d of " << show(v) << " in " << str(b[0]) << " is " << b[0].isIn(v) << "/" << b[0].isIn2d(v));
    }
    // a sphere that fills the shortest side, moved and grown
    const L r = 0.5L + st[3] * d;
    L ce[3];
    bool in = true;
    for (int i = 0; i < 3; ++i)
    {
        ce[i] = (m[0].lo[i] + m[0].hi[i]) / 2 + (i == 1 ? st[4] * L(0.5) : 0) + st[i] * d;
        in = in && ce[i] + r <= m[0].hi[i] && ce[i] - r >= m[0].lo[i];
    }
    const T sx = T(ce[0]), sy = T(ce[1]), sz = T(ce[2]), sr = T(r);
    const vmml::Vector<4, T> s(sx, sy, sz, sr);
    CHK(c, b[0].isIn(s) == in, "isIn of sphere " << show(s) << " in " << str(b[0]) << " is " << b[0].isIn(s));
    // thin boxes
    const B t(vec<T>(m[0].lo[0], m[0].lo[1], m[0].lo[2]), vec<T>(m[1].lo[0], m[1].lo[1], m[1].lo[2]));
    CHK(c, t.isEmpty() == !(st[0] > 0 && st[1] > 0 && st[2] > 0), "isEmpty of " << str(t) << " is " << t.isEmpty());
    for (int i = 0; i < 3; ++i)
        CHK(c, t.getDimension().array[i] == st[i] * d && b[1].getDimension().array[i] == m[1].hi[i] - m[1].lo[i], "getDimension of " << str(t) << " or " << str(b[1]));
}
template <typename T>
void reg()
{
    const std::string n = tname<T>();
    mc::add("history_" + n, [](Ctx& c) { history<T>(c, c.thorough() ? 6 : 4); }, "histories of resets, sets and merges");
    mc::add("orders_" + n, orders<T>, "all merge orders");
    mc::add("pairs_" + n, pairs<T>, "merge of every pair of boxes of a lattice");
}
template <typename T>
void regs()
{
    reg<T>();
    const std::string n = tname<T>();
    mc::add("single_" + n, single<T>, "every query on every box of a lattice");
    mc::add("spheres_" + n, spheres<T>, "sphere and cube constructors, containment of spheres");
}
} // namespace

REGISTER_BLOCK(c20)
{
#if PART == 0
    mc::add("faces_float", faces<float>, "faces equal, inside or outside by every power of two");
    mc::add("faces_double", faces<double>, "");
    mc::add("faces_longdouble", faces<long double>, "");
    regs<float>();
    regs<double>();
    regs<long double>();
#else
    regs<int>();
    regs<short>();
    regs<long long>();
    reg<unsigned>();
    reg<unsigned char>();
    reg<signed char>();
    reg<unsigned short>();
#endif
}
MC_MAIN()
