// C26: an operation's result depends on its operands only.
//
// Each operation of the catalogue (ops/) is first run on each operand set in
// a fresh process of its own: these are the reference results.  Then every
// history of up to three operations is executed, with result objects, stack
// and heap holding previous contents of several patterns, operands always at
// the same address, and every result, the operands and the library constants
// are compared bit by bit with the references.
#include "mc/common.hpp"
#include "ops/in.hpp"

#include <cfenv>
#include <clocale>
#include <cstdlib>
#include <iostream>
#include <locale>
#include <malloc.h>
#include <new>
#include <xmmintrin.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

using mc::Ctx;

namespace ops
{
All& all()
{
    static All a;
    return a;
}
} // namespace ops

namespace
{
using ops::Catalogue;
using ops::Out;

struct Ref
{
    int n; // -1: did not finish
    long double v[Out::MAX];
};
struct Inst // one operation of one catalogue
{
    const Catalogue* cat;
    const ops::Op* op;
    int cat_index;
};
std::vector<Inst> insts;
std::vector<int> of_type[2]; // instances per element type
int sets;
Ref* refs;                  // [inst * sets + set]
const size_t IN_MAX = 8192;
unsigned char* images[ops::MAX_CATALOGUES][16];
alignas(4096) unsigned char where[IN_MAX]; // pages of its own
uint64_t const_ref[ops::MAX_CATALOGUES];

struct Slot
{
    size_t off;
    int size; // of T, or 0: an int, or 1: a byte
    const char* field;
};
std::vector<Slot> slots_of[2];
const unsigned char soils[] = {0x00, 0xA5, 0xFF, 0x3F, 0x7F};

// leaves pattern p on the stack the operation is about to use
MC_NOINLINE void smear(int p)
{
    volatile unsigned char a[24 * 1024];
    memset(const_cast<unsigned char*>(a), soils[p % 5], sizeof a);
    asm volatile("" : : "r"(a) : "memory");
}

// What the program shares with the library: the floating point mode, the
// locale, the standard streams and, except for operations documented to draw
// random numbers, rand(); also no file is left open.
struct Surroundings
{
    int round, free_fds, random;
    unsigned mxcsr;
    unsigned short x87;
    std::ios::fmtflags flags[3];
    std::streamsize precision[3], width[3];
    char fill[3];
    int state[3];
    void look(bool draw)
    {
        round = fegetround();
        mxcsr = _mm_getcsr() & ~0x3fu;
        asm volatile("fnstcw %0" : "=m"(x87));
        std::ostream* const s[] = {&std::cout, &std::cerr, &std::clog};
        for (int i = 0; i < 3; ++i)
        {
            flags[i] = s[i]->flags();
            precision[i] = s[i]->precision();
            width[i] = s[i]->width();
            fill[i] = s[i]->fill();
            state[i] = s[i]->rdstate();
        }
        int fd[4];
        for (int& f : fd)
            f = dup(0);
        free_fds = 0;
        for (int f : fd)
        {
            free_fds = free_fds * 32 + f;
            close(f);
        }
        random = draw ? rand() : 0;
    }
    const char* differs(const Surroundings& o) const
    {
        if (round != o.round || mxcsr != o.mxcsr || x87 != o.x87)
            return "the floating point mode";
        for (int i = 0; i < 3; ++i)
            if (flags[i] != o.flags[i] || precision[i] != o.precision[i] || width[i] != o.width[i] || fill[i] != o.fill[i] || state[i] != o.state[i])
                return "the settings of a standard stream";
        if (free_fds != o.free_fds)
            return "the set of open files";
        if (random != o.random)
            return "the state of rand()";
        return nullptr;
    }
};
const char* changed_surroundings = nullptr;

MC_NOINLINE void run(int k, int set, int dirt, Out& o)
{
    const Inst& i = insts[k];
    memcpy(where, images[i.cat_index][set], i.cat->in_size);
#if !defined(__SANITIZE_ADDRESS__)
    mallopt(M_PERTURB, soils[dirt % 5]);
#endif
    const bool draw = !(i.op->flags & ops::SKIP_SHARED);
    static std::stringbuf written;
    std::ostream* const std_streams[] = {&std::cout, &std::cerr, &std::clog};
    std::streambuf* old[3];
    for (int j = 0; j < 3; ++j)
        old[j] = std_streams[j]->rdbuf(&written);
    Surroundings before, after;
    srand(77);
    before.look(true);
    srand(77);
    smear(dirt);
    i.op->run(where, dirt, o);
    after.look(draw);
    if (!draw)
        before.random = 0;
    changed_surroundings = before.differs(after);
    for (int j = 0; j < 3; ++j)
        std_streams[j]->rdbuf(old[j]);
    if (written.in_avail() > 0)
    {
        changed_surroundings = "the output of a standard stream";
        written.str("");
    }
    if (strcmp(setlocale(LC_ALL, nullptr), "C") || !(std::locale() == std::locale::classic()))
        changed_surroundings = "the locale";
}

std::string label(int k, int set)
{
    return std::string(insts[k].cat->type) + " '" + insts[k].op->name + "' on the " +
           insts[k].cat->set_names[set] + " operands";
}

void prepare()
{
    const ops::All& a = ops::all();
    sets = a.c[0].sets;
    for (int c = 0; c < a.n; ++c)
    {
        const Catalogue& cat = a.c[c];
        if (cat.in_size > IN_MAX)
            abort();
        const_ref[c] = cat.constants();
        for (int s = 0; s < sets; ++s)
        {
            images[c][s] = static_cast<unsigned char*>(malloc(cat.in_size));
            cat.build(images[c][s], s);
        }
        for (int k = 0; k < cat.count; ++k)
        {
            of_type[strcmp(cat.type, "float") != 0].push_back(int(insts.size()));
            insts.push_back(Inst{&cat, &cat.ops[k], c});
        }
    }
    const size_t bytes = insts.size() * sets * sizeof(Ref);
    refs = static_cast<Ref*>(mmap(nullptr, bytes, PROT_READ | PROT_WRITE,
                                  MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (refs == MAP_FAILED)
        abort();
    const int workers = 8;
    std::vector<pid_t> pids;
    for (int w = 0; w < workers; ++w)
    {
        const pid_t p = fork();
        if (p == 0)
        {
            for (size_t j = w; j < insts.size() * sets; j += workers)
            {
                refs[j].n = -1;
                const pid_t q = fork();
                if (q == 0)
                {
                    Out o;
                    run(int(j / sets), int(j % sets), 0, o);
                    if (!o.overflow)
                    {
                        memcpy(refs[j].v, o.v, sizeof(long double) * o.n);
                        refs[j].n = o.n;
                    }
                    _exit(0);
                }
                int st;
                waitpid(q, &st, 0);
            }
            _exit(0);
        }
        pids.push_back(p);
    }
    for (pid_t p : pids)
    {
        int st;
        waitpid(p, &st, 0);
    }
}

std::string compare(int k, int set, const Out& o)
{
    const Ref& r = refs[k * sets + set];
    std::ostringstream m;
    m.precision(17);
    if (changed_surroundings)
        return label(k, set) + " changed " + changed_surroundings + " of the program";
    if (r.n < 0)
        return label(k, set) + " did not finish when run alone in a fresh process";
    if (o.n != r.n)
    {
        m << label(k, set) << " produced " << o.n << " values, alone " << r.n;
        return m.str();
    }
    for (int i = 0; i < o.n; ++i)
        if (!Out::same(o.v[i], r.v[i]))
        {
            m << label(k, set) << ": value " << i << " is " << o.v[i]
              << ", in a fresh process " << r.v[i];
            return m.str();
        }
    const Inst& in = insts[k];
    const unsigned char* im = images[in.cat_index][set];
    for (size_t b = 0; b < in.cat->in_size; ++b)
        if (where[b] != im[b])
        {
            m << label(k, set) << " modified its constant operands (byte " << b << ")";
            return m.str();
        }
    return "";
}

std::string constants_changed()
{
    const ops::All& a = ops::all();
    for (int c = 0; c < a.n; ++c)
        if (a.c[c].constants() != const_ref[c])
            return std::string("library constants of ") + a.c[c].type + " " + a.c[c].group + " changed";
    return "";
}

// runs op k, result compared
void step(Ctx& c, int k, int set, int dirt, const std::string& before)
{
    Out o;
    run(k, set, dirt, o);
    c.step();
    const std::string m = compare(k, set, o);
    CHK(c, m.empty(), m << " (previous contents pattern " << dirt << ", after " << before << ")");
    c.outcome(mc::hash_bytes(&o.n, sizeof o.n, uint64_t(k * sets + set)));
}

// --- repeated on every operand set with every previous content
void repeats(Ctx& c, int type)
{
    const int k = of_type[type][c.choose(int(of_type[type].size()))];
    const int s = c.choose(sets), d = c.choose(5);
    NOTE(c, label(k, s) << ", contents " << d);
    const int n = c.thorough() ? 40 : 6;
    for (int i = 0; i < n; ++i)
        step(c, k, s, d, "repetitions of itself");
    for (int e = 0; e < 5; ++e)
        step(c, k, s, e, "repetitions of itself");
    const std::string m = constants_changed();
    CHK(c, m.empty(), m << " after " << label(k, s));
    c.state(mc::hash_bytes(&k, sizeof k, uint64_t(s * 8 + d)));
}

// --- over results: result objects hold what the operation is about to write,
// exactly or nearly, the result on other operands, or an operand's value
void targets(Ctx& c, int type)
{
    const int k = of_type[type][c.choose(int(of_type[type].size()))];
    const int s = c.choose(sets);
    NOTE(c, label(k, s) << " over earlier results and operands");
    ops::Prior& p = ops::prior();
    p.size = type ? 8 : 4;
    for (int from = 0; from < sets; ++from)
    {
        const Ref& r = refs[k * sets + from];
        p.v = r.v;
        p.n = r.n;
        for (int h = 0; h < (from == s || c.thorough() ? int(ops::NEAR_KINDS) : 1); ++h)
            step(c, k, s, ops::NEAR + h, "a run on operand set " + std::to_string(from));
    }
    const unsigned char* im = images[insts[k].cat_index][s];
    const std::vector<Slot>& sl = slots_of[type];
    for (size_t j = 0; j < sl.size();)
    {
        size_t e = j + 1;
        while (e < sl.size() && sl[e].field == sl[j].field)
            ++e;
        p.operand = im + sl[j].off;
        p.bytes = (e < sl.size() && sl[e].off > sl[j].off) ? sl[e].off - sl[j].off : 4;
        step(c, k, s, ops::COPIES, std::string("copying operand ") + sl[j].field);
        j = e;
    }
    c.state(mc::hash_bytes(&k, sizeof k, uint64_t(s * 8 + 5)));
}

// --- histories in a long-lived process
void history(Ctx& c, const std::vector<int>& first, const std::vector<int>& then, int set_step)
{
    const int b = first[c.choose(int(first.size()))];
    const int a = then[c.choose(int(then.size()))];
    NOTE(c, insts[b].op->name << ", then " << insts[a].op->name);
    for (int sb = 0; sb < sets; sb += set_step)
        for (int sa = 0; sa < sets; sa += set_step)
        {
            step(c, b, sb, 0, "earlier histories");
            step(c, a, sa, 1 + (sa + sb) % 4, label(b, sb));
        }
    const std::string m = constants_changed();
    CHK(c, m.empty(), m << " after " << label(b, 0) << " and " << label(a, 0));
    const uint64_t key = uint64_t(b) << 32 | uint64_t(a);
    c.state(mc::hash_bytes(&key, sizeof key));
}

void triples(Ctx& c, int type)
{
    const std::vector<int>& v = of_type[type];
    const int x = v[c.choose(int(v.size()))], y = v[c.choose(int(v.size()))],
              z = v[c.choose(int(v.size()))];
    NOTE(c, insts[x].op->name << ", " << insts[y].op->name << ", " << insts[z].op->name);
    step(c, x, 2, 0, "earlier histories");
    step(c, y, 1, 1, label(x, 2));
    step(c, z, 2, 2, label(x, 2) + " and " + label(y, 1));
    const uint64_t key = (uint64_t(x) << 32 | uint64_t(y)) * 1000 + uint64_t(z);
    c.state(mc::hash_bytes(&key, sizeof key));
}

// --- histories each in a process of its own
struct Verdict
{
    volatile int done;
    char text[600];
};
Verdict* verdict()
{
    static Verdict* v = nullptr;
    static pid_t owner = 0;
    if (owner != getpid())
    {
        owner = getpid();
        v = static_cast<Verdict*>(mmap(nullptr, sizeof(Verdict), PROT_READ | PROT_WRITE,
                                       MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    }
    return v;
}
void fresh(Ctx& c, const std::vector<std::pair<int, int>>& h)
{
    Verdict* v = verdict();
    v->done = 0;
    v->text[0] = 0;
    const pid_t p = fork();
    if (p < 0)
        mc::Ctx::fail_hard("fork");
    if (p == 0)
    {
        std::string m;
        for (size_t i = 0; i < h.size() && m.empty(); ++i)
        {
            Out o;
            run(h[i].first, h[i].second, i == 0 ? 0 : 1 + int(i) % 4, o);
            m = compare(h[i].first, h[i].second, o);
        }
        if (m.empty())
            m = constants_changed();
        strncpy(v->text, m.c_str(), sizeof v->text - 1);
        v->done = 1;
        _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    c.step(int(h.size()));
    std::string all;
    for (size_t i = 0; i < h.size(); ++i)
        all += (i ? ", then " : "") + label(h[i].first, h[i].second);
    CHK(c, v->done, "a fresh process died (status " << st << ") running " << all);
    CHK(c, v->text[0] == 0, v->text << " in a fresh process running " << all);
    uint64_t key = 7;
    for (auto& x : h)
        key = mc::hash_bytes(&x, sizeof x, key);
    c.state(key);
}
void fresh_pairs(Ctx& c, int type)
{
    const std::vector<int>& v = of_type[type];
    const int b = v[c.choose(int(v.size()))], a = v[c.choose(int(v.size()))];
    static const int quick[][2] = {{2, 1}};
    int sb, sa;
    if (a == b || c.thorough())
    {
        sb = c.choose(sets);
        sa = c.choose(sets);
    }
    else
    {
        sb = quick[0][0];
        sa = quick[0][1];
    }
    std::vector<std::pair<int, int>> h;
    h.push_back(std::make_pair(b, sb));
    h.push_back(std::make_pair(a, sa));
    h.push_back(std::make_pair(a, sb));
    fresh(c, h);
}
void fresh_triples(Ctx& c, int type)
{
    const std::vector<int>& v = of_type[type];
    const int x = v[c.choose(int(v.size()))], y = v[c.choose(int(v.size()))],
              z = v[c.choose(int(v.size()))];
    std::vector<std::pair<int, int>> h;
    h.push_back(std::make_pair(x, 2));
    h.push_back(std::make_pair(y, 1));
    h.push_back(std::make_pair(z, 2));
    fresh(c, h);
}

// --- operands in read-only memory: not even written and restored
void frozen(Ctx& c, int type)
{
    const int k = of_type[type][c.choose(int(of_type[type].size()))];
    const int set = c.choose(sets);
    Verdict* v = verdict();
    v->done = 0;
    v->text[0] = 0;
    const pid_t p = fork();
    if (p < 0)
        mc::Ctx::fail_hard("fork");
    if (p == 0)
    {
        const Inst& i = insts[k];
        memcpy(where, images[i.cat_index][set], i.cat->in_size);
        if (mprotect(where, sizeof where, PROT_READ))
            _exit(3);
        Out o;
        i.op->run(where, 0, o);
        strncpy(v->text, compare(k, set, o).c_str(), sizeof v->text - 1);
        v->done = 1;
        _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    c.step();
    CHK(c, v->done, label(k, set) << " does not run (status " << st << ") with its constant operands in read-only memory");
    CHK(c, v->text[0] == 0, v->text << " (operands in read-only memory)");
    const uint64_t key = uint64_t(k) << 32 | uint64_t(set);
    c.state(mc::hash_bytes(&key, sizeof key));
}
// --- operands that differ from the previous ones in a single place
//
// For every operation: every scalar of its operands which can influence the
// result is changed by one rounding step, by relative amounts from 1e-9 to
// 1e-3, by one, in sign, by exchange with its neighbour and to distant values.  The reference of
// each changed operand set comes from a fresh process; then one process runs
// the original and the changed sets alternately.
template <typename T>
void find_slots(std::vector<Slot>& v)
{
    alignas(64) static unsigned char mem[IN_MAX];
    ops::build<T>(mem, 1);
    const ops::In<T>& i = *reinterpret_cast<ops::In<T>*>(mem);
    const struct
    {
        const void* p;
        size_t n;
        int size;
        const char* name;
    } f[] = {
#define F(x) {&i.x, sizeof(i.x), int(sizeof(T)), #x}
#define G(x, z) {&i.x, sizeof(i.x), z, #x}
        F(s), F(t), F(u), F(f01), F(angle), F(v2a), F(v2b), F(v3a), F(v3b), F(v3c), F(axis), F(v4a), F(v4b), F(sphere), F(plane), F(v9a), F(v9b), F(v5a),
        F(m2a), F(m2b), F(m3a), F(m3b), F(rot3), F(m4a), F(m4b), F(rot4), F(m34), F(m43), F(m23), F(m23b), F(m52), F(m31), F(m13), F(qa), F(qb), F(qu),
        F(ba), F(bb), F(fr), F(cull), G(i3, 0), G(i4, 0), G(u3, 1), G(im3, 0), G(um3, 1), F(raw), F(raw2)
#undef F
#undef G
    };
    for (const auto& x : f)
        for (size_t k = 0; k < x.n; k += x.size ? size_t(x.size) : sizeof(int))
            v.push_back(Slot{size_t(static_cast<const unsigned char*>(x.p) - mem) + k, x.size, x.name});
}
enum
{
    CHANGES = 9
};
template <typename T>
bool change_T(unsigned char* im, size_t off, int how, bool has_next)
{
    T x, y;
    memcpy(&x, im + off, sizeof x);
    switch (how)
    {
    case 0: y = std::nextafter(x, T(1e30)); break;
    case 1: y = x == 0 ? T(1e-12) : T(x + x * T(1e-9)); break;
    case 2: y = x == 0 ? T(1e-8) : T(x + x * T(1e-6)); break;
    case 3: y = x == 0 ? T(1e-4) : T(x - x * T(1e-3)); break;
    case 4: y = -x; break;
    case 5: y = x + 1; break;
    case 7: y = x * 8 + 40; break;
    case 8: y = x / 16 - 12; break;
    default:
    {
        if (!has_next)
            return false;
        T z;
        memcpy(&z, im + off + sizeof x, sizeof x);
        memcpy(im + off + sizeof x, &x, sizeof x);
        y = z;
    }
    }
    memcpy(im + off, &y, sizeof y);
    return memcmp(&x, &y, sizeof x) != 0;
}
bool change(unsigned char* im, const std::vector<Slot>& sl, size_t k, int how)
{
    const Slot& s = sl[k];
    const bool next = k + 1 < sl.size() && sl[k + 1].field == s.field;
    if (s.size == 1)
    {
        im[s.off] += (unsigned char)(how + 1);
        return true;
    }
    if (s.size == 0)
    {
        int x;
        memcpy(&x, im + s.off, sizeof x);
        const int y = how == 4 ? -x : x + how + 1;
        memcpy(im + s.off, &y, sizeof y);
        return x != y;
    }
    return s.size == 4 ? change_T<float>(im, s.off, how, next) : change_T<double>(im, s.off, how, next);
}
struct Shared
{
    Ref ref[CHANGES];
    char text[900];
    volatile int done;
};
Shared* shared()
{
    static Shared* v = nullptr;
    static pid_t owner = 0;
    if (owner != getpid())
    {
        owner = getpid();
        v = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    }
    return v;
}
MC_NOINLINE void run_image(int k, const unsigned char* im, int dirt, Out& o)
{
    memcpy(where, im, insts[k].cat->in_size);
#if !defined(__SANITIZE_ADDRESS__)
    mallopt(M_PERTURB, soils[dirt % 5]);
#endif
    smear(dirt);
    insts[k].op->run(where, dirt, o);
}
// the result of one image in a process of its own
void alone(int k, const unsigned char* im, Ref& r)
{
    r.n = -1;
    const pid_t q = fork();
    if (q == 0)
    {
        Out o;
        run_image(k, im, 0, o);
        if (!o.overflow)
        {
            memcpy(r.v, o.v, sizeof(long double) * o.n);
            r.n = o.n;
        }
        _exit(0);
    }
    int st;
    waitpid(q, &st, 0);
}
bool equal(const Ref& a, const Out& b)
{
    if (a.n != b.n)
        return false;
    for (int i = 0; i < a.n; ++i)
        if (!Out::same(a.v[i], b.v[i]))
            return false;
    return true;
}
bool equal(const Ref& a, const Ref& b)
{
    if (a.n != b.n)
        return false;
    for (int i = 0; i < a.n; ++i)
        if (!Out::same(a.v[i], b.v[i]))
            return false;
    return true;
}
// slots [lo, hi) that influence the result, by bisection
void influence(int k, int set, const std::vector<Slot>& sl, size_t lo, size_t hi, std::vector<size_t>& found)
{
    Shared* sh = shared();
    const Ref& r0 = refs[k * sets + set];
    const size_t n = insts[k].cat->in_size;
    bool seen = false;
    static const int ways[] = {5, 2, 7};
    for (int w = 0; w < 3 && !seen; ++w)
    {
        const int how = ways[w];
        unsigned char im[IN_MAX];
        memcpy(im, images[insts[k].cat_index][set], n);
        for (size_t j = lo; j < hi; ++j)
            change(im, sl, j, how);
        alone(k, im, sh->ref[0]);
        seen = !equal(r0, sh->ref[0]);
    }
    if (!seen)
        return;
    if (hi - lo == 1)
    {
        found.push_back(lo);
        return;
    }
    // first at the borders of the fields, then inside
    size_t mid = (lo + hi) / 2;
    if (sl[lo].field != sl[hi - 1].field)
    {
        size_t m = mid;
        while (m > lo && sl[m].field == sl[m - 1].field)
            --m;
        if (m == lo)
            for (m = mid; sl[m].field == sl[m - 1].field; ++m)
                ;
        mid = m;
    }
    influence(k, set, sl, lo, mid, found);
    influence(k, set, sl, mid, hi, found);
}
void neighbours(Ctx& c, int type, const std::vector<int>& base)
{
    const int k = of_type[type][c.choose(int(of_type[type].size()))];
    const int set = base[c.choose(int(base.size()))];
    const std::vector<Slot>& sl = slots_of[type];
    const size_t n = insts[k].cat->in_size;
    const unsigned char* im0 = images[insts[k].cat_index][set];
    Shared* sh = shared();
    std::vector<size_t> found;
    influence(k, set, sl, 0, sl.size(), found);
    NOTE(c, label(k, set) << ": " << found.size() << " scalars influence the result");
    const Ref& r0 = refs[k * sets + set];
    for (size_t f = 0; f < found.size(); ++f)
    {
        const size_t j = found[f];
        bool ok[CHANGES];
        unsigned char im[CHANGES][IN_MAX];
        for (int h = 0; h < CHANGES; ++h)
        {
            memcpy(im[h], im0, n);
            ok[h] = change(im[h], sl, j, h);
            if (ok[h])
                alone(k, im[h], sh->ref[h]);
            ok[h] = ok[h] && sh->ref[h].n >= 0;
        }
        sh->done = 0;
        sh->text[0] = 0;
        const pid_t p = fork();
        if (p == 0)
        {
            std::ostringstream m;
            for (int round = 0; round < 2 && m.str().empty(); ++round)
                for (int h = 0; h < CHANGES && m.str().empty(); ++h)
                {
                    if (!ok[h])
                        continue;
                    Out a, b;
                    run_image(k, round ? im[h] : im0, 1, a);
                    run_image(k, round ? im0 : im[h], 2, b);
                    const Ref &ra = round ? sh->ref[h] : r0, &rb = round ? r0 : sh->ref[h];
                    if (!equal(ra, a) || !equal(rb, b))
                        m << label(k, set) << " gives another result than in a fresh process when run alternately with "
                          << sl[j].field << " changed at byte " << sl[j].off << " (change " << h << ")";
                }
            strncpy(sh->text, m.str().c_str(), sizeof sh->text - 1);
            sh->done = 1;
            _exit(0);
        }
        int st;
        waitpid(p, &st, 0);
        c.step(4 * CHANGES);
        CHK(c, sh->done, "a fresh process died (status " << st << ") running " << label(k, set) << " with changed operands");
        CHK(c, sh->text[0] == 0, sh->text);
        const uint64_t key = (uint64_t(k) * 16 + uint64_t(set)) << 32 | uint64_t(j);
        c.state(mc::hash_bytes(&key, sizeof key));
    }
}
} // namespace

int main(int argc, char** argv)
{
    prepare();
    find_slots<float>(slots_of[0]);
    find_slots<double>(slots_of[1]);
#if defined(__SANITIZE_ADDRESS__)
    for (int t = 0; t < 2; ++t)
    {
        const std::string n = t ? "double" : "float";
        mc::add("repeats_" + n, [t](Ctx& c) { repeats(c, t); }, "each operation repeated on each operand set over each previous content");
        mc::add("targets_" + n, [t](Ctx& c) { targets(c, t); }, "each operation with result objects holding its own result, near ones and operands");
        mc::add("pairs_" + n, [t](Ctx& c) { history(c, of_type[t], of_type[t], 1); }, "all ordered pairs, all operand set pairs, one process");
        mc::add("mixed_" + n, [t](Ctx& c) { history(c, of_type[t], of_type[1 - t], c.thorough() ? 1 : 3); }, "all pairs across element types");
        mc::add("triples_" + n, [t](Ctx& c) { triples(c, t); }, "all ordered triples, one process", 1);
    }
#else
    for (int t = 0; t < 2; ++t)
    {
        const std::string n = t ? "double" : "float";
        mc::add("repeats_plain_" + n, [t](Ctx& c) { repeats(c, t); }, "repetitions over stack and heap patterns");
        mc::add("frozen_" + n, [t](Ctx& c) { frozen(c, t); }, "each operation on operands in read-only memory");
        mc::add("fresh_" + n, [t](Ctx& c) { fresh_pairs(c, t); }, "all ordered pairs, each in a fresh process");
        mc::add("neighbours_" + n, [t](Ctx& c) { neighbours(c, t, c.thorough() ? std::vector<int>{0, 1, 2, 3, 4, 5} : std::vector<int>{0, 1, 2, 5}); }, "operands changed in one place");
        mc::add("fresh3_" + n, [t](Ctx& c) { fresh_triples(c, t); }, "all ordered triples, each in a fresh process", 1);
    }
#endif
    return mc::main(argc, argv);
}
