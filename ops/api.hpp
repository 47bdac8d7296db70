// The operation catalogue shared by C25, C26 and C27. Library independent.
#ifndef VERIF_OPS_API_HPP
#define VERIF_OPS_API_HPP
#include <cstddef>
#include <cstdint>
#include <cstring>

namespace ops
{
// What an operation produced: a list of numbers and short strings, kept in
// place (no heap), so that producing it touches no shared state.
struct Out
{
    enum
    {
        MAX = 400
    };
    long double v[MAX];
    int n;
    bool overflow;
    double ulps; // how much the configurations may differ (C27)
    bool hidden_allowed;
    Out() : n(0), overflow(false), ulps(64) {}
    void add(long double x)
    {
        if (n < MAX)
            v[n++] = x != x ? __builtin_nanl("") : x;
        else
            overflow = true;
    }
    bool equal(const Out& o) const
    {
        if (n != o.n)
            return false;
        for (int i = 0; i < n; ++i)
            if (!same(v[i], o.v[i]))
                return false;
        return true;
    }
    static bool same(long double a, long double b)
    {
        if (a != a || b != b)
            return a != a && b != b;
        return a == b && __builtin_signbit(a) == __builtin_signbit(b);
    }
    // first difference, or -1
    int differs(const Out& o) const
    {
        for (int i = 0; i < n && i < o.n; ++i)
            if (!same(v[i], o.v[i]))
                return i;
        return n == o.n ? -1 : n < o.n ? n : o.n;
    }
};

// flags
enum
{
    SKIP_SHARED = 1, // uses rand(): documented shared state (not in C25)
    TRANSCENDENTAL = 2, // calls libm functions that need not be exact
    ERRORS = 4,         // reports errors (by exception)
    CHECKED = 8         // of accesses only checked with safe accessors
};

struct Op
{
    const char* name;
    // runs on operand set `in` (an In<T>), with result objects prefilled
    // with the bytes of pattern `dirt`
    void (*run)(const void* in, int dirt, Out& out);
    int flags;
};

struct Catalogue
{
    const char* type;      // element type
    const char* group;
    const Op* ops;
    int count;
    size_t in_size;
    int sets;
    void (*build)(void* in, int set); // constructs operand set
    uint64_t (*constants)();          // digest of the library constants used
    const char* const* set_names;
};

enum
{
    MAX_CATALOGUES = 32
};
struct All
{
    Catalogue c[MAX_CATALOGUES];
    int n;
};
All& all();

struct Adder
{
    explicit Adder(const Catalogue& c) { all().c[all().n++] = c; }
};

// Previous contents beyond byte patterns (C26): what the operation is about
// to write there (taken from an earlier run), exactly or nearly, and the
// operands.
enum
{
    NEAR = 8, // the first such `dirt`
    NEAR_KINDS = 8,
    COPIES = NEAR + NEAR_KINDS // + number of the operand
};
struct Prior
{
    const long double* v; // the output of an earlier run
    int n, size;          // its length; the size of the element type
    const unsigned char* operand;
    size_t bytes;
};
inline Prior& prior()
{
    static Prior p;
    return p;
}
template <typename T>
inline void soil_near(void* p, size_t n, int kind, int at)
{
    T* x = static_cast<T*>(p);
    for (size_t i = 0; i < n / sizeof(T) && at + int(i) < prior().n; ++i)
    {
        const T v = T(prior().v[at + int(i)]);
        x[i] = kind == 0 ? v : kind == 1 ? v + 1 : kind == 2 ? v - 1 : kind == 3 ? v + v * T(1e-6) : kind == 4 ? -v : kind == 5 ? v + v : kind == 6 ? (i % 2 ? v : v + 1) : (i % 2 ? v + 1 : v);
    }
}
inline void soil(void* p, size_t n, int dirt, int at)
{
    static const unsigned char pat[] = {0xA5, 0x00, 0xFF, 0x3F, 0x7F};
    if (dirt >= COPIES)
    {
        for (size_t i = 0; i < n; ++i)
            static_cast<unsigned char*>(p)[i] = prior().operand[i % prior().bytes];
    }
    else if (dirt >= NEAR)
    {
        memset(p, 0, n);
        if (prior().size == 4)
            soil_near<float>(p, n, dirt - NEAR, at);
        else
            soil_near<double>(p, n, dirt - NEAR, at);
    }
    else if (dirt)
        memset(p, pat[dirt % 5], n);
}
} // namespace ops
#endif
