// C14: stream and raw-file round trips, truncated and failing inputs, printing.
#include <vmmlib/aabb.hpp>
#include <vmmlib/frustum.hpp>
#include <vmmlib/frustum_culler.hpp>
#include <vmmlib/matrix.hpp>
#include <vmmlib/quaternion.hpp>
#include "mc/common.hpp"
#include <cerrno>
#include <fstream>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
using namespace h;

#if PART == 3
// Controlled environment for the files: every read/write of libstdc++ goes
// through here; while a fault plan is active its answers are choices.
namespace fault
{
mc::Ctx* ctx = nullptr;
bool eio = false, eof = false; // something was withheld
bool skip = false;             // this execution belongs to another worker
// iostreams swallow exceptions, so the explorer's must not pass through them
int answer(int n)
{
    if (skip)
        return 0;
    try
    {
        return ctx->dev(n);
    }
    catch (const mc::Skip&)
    {
        skip = true;
        return 0;
    }
}
void end()
{
    ctx = nullptr;
    if (skip)
        throw mc::Skip();
}
}
extern "C" ssize_t read(int fd, void* p, size_t n)
{
    if (fault::ctx && fd > 2)
    {
        switch (fault::answer(6))
        {
        case 1: n = std::min<size_t>(n, 1); break;
        case 2: n = std::max<size_t>(1, std::min<size_t>(n / 2, 37)); break;
        case 3: errno = EIO; fault::eio = true; return -1;
        case 4: fault::eof = true; return 0;
        case 5: errno = EINTR; return -1;
        }
    }
    return syscall(SYS_read, fd, p, n);
}
extern "C" ssize_t write(int fd, const void* p, size_t n)
{
    if (fault::ctx && fd > 2)
        switch (fault::answer(4))
        {
        case 1: n = std::min<size_t>(n, 1); break;
        case 2: n = std::max<size_t>(1, n / 2); break;
        case 3: errno = EINTR; return -1;
        }
    return syscall(SYS_write, fd, p, n);
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int cnt)
{
    if (fault::ctx && fd > 2 && cnt > 0)
        switch (fault::answer(4))
        {
        case 1: return syscall(SYS_write, fd, v[0].iov_base, std::min<size_t>(v[0].iov_len, 1));
        case 2: return syscall(SYS_writev, fd, v, 1);
        case 3: errno = EINTR; return -1;
        }
    return syscall(SYS_writev, fd, v, cnt);
}
#endif

namespace
{
std::string scratch()
{
    const std::string& s = mc::options().scratch;
    return (s.empty() ? std::string(".") : s) + "/w" + std::to_string(getpid());
}
// the library reports missing files on std::cout
struct Quiet
{
    std::streambuf* b;
    std::ostringstream os;
    Quiet() : b(std::cout.rdbuf(os.rdbuf())) {}
    ~Quiet() { std::cout.rdbuf(b); }
};
struct Dir
{
    std::string path, file;
    explicit Dir(const std::string& f) : path(scratch()), file(path + "/" + f)
    {
        mkdir(path.c_str(), 0700);
        unlink(file.c_str());
    }
    ~Dir()
    {
        unlink(file.c_str());
        rmdir(path.c_str());
    }
};
std::string slurp(const std::string& f)
{
    std::string r;
    FILE* in = fopen(f.c_str(), "rb");
    if (!in)
        return "<missing>";
    char b[4096];
    size_t n;
    while ((n = fread(b, 1, sizeof b, in)) > 0)
        r.append(b, n);
    fclose(in);
    return r;
}
void spit(const std::string& f, const std::string& s)
{
    FILE* out = fopen(f.c_str(), "wb");
    fwrite(s.data(), 1, s.size(), out);
    fclose(out);
}

template <typename T>
std::vector<T> letters()
{
    typedef std::numeric_limits<T> L;
    if (std::is_floating_point<T>::value)
        return {T(0), T(1), T(-1), T(0.1), T(-1e-7), T(123456.789), L::max(), L::lowest(), L::min(), T(1) / T(3)};
    if (sizeof(T) == 1)
        return {T('0'), T('a'), T('-'), T(200), T(255), T('9'), T(' '), T('\n'), T('\t'), T(0)};
    if (std::is_signed<T>::value)
        return {T(0), T(1), T(-1), T(12345), L::max(), L::min()};
    return {T(0), T(1), T(7), T(255), L::max()};
}
template <typename T>
bool is_space(T v)
{
    return sizeof(T) == 1 && ((unsigned char)v == ' ' || ((unsigned char)v >= 9 && (unsigned char)v <= 13));
}
template <typename T>
void content(Ctx& c, T* p, size_t n, int kind, double full = 1)
{
    static const std::vector<T> a = letters<T>();
    if (std::pow(double(a.size()), double(n)) <= full)
    {
        for (size_t i = 0; i < n; ++i)
            p[i] = c.pick(a);
        return;
    }
    for (size_t i = 0; i < n; ++i)
    {
        const int d = c.dev(int(a.size()) + 1);
        const T b = sizeof(T) == 1 ? T('A' + int(i + 5 * kind) % 50) : std::is_floating_point<T>::value ? T(T(0.1) * T(i + 1) * (kind ? 3 : -7)) : T(i * 3 + 1 + kind);
        p[i] = d ? a[d - 1] : b;
    }
}

template <typename T>
struct Fmt
{
    static const int N = std::is_floating_point<T>::value ? 3 : 2;
    static void set(std::ios& s, int k)
    {
        s.precision(std::numeric_limits<T>::max_digits10);
        if (std::is_floating_point<T>::value)
        {
            if (k == 1)
                s.setf(std::ios::scientific, std::ios::floatfield);
            if (k == 2)
                s.setf(std::ios::showpos | std::ios::uppercase);
        }
        else if (k == 1)
            s.setf(std::ios::showpos);
    }
};

// storage index of the k-th value written
template <size_t M, typename T>
size_t index(const vmml::Vector<M, T>&, size_t k)
{
    return k;
}
template <size_t M, size_t N, typename T>
size_t index(const vmml::Matrix<M, N, T>&, size_t k)
{
    return (k % N) * M + k / N;
}

// several objects of different shapes through one stream
template <typename T, typename A, typename B>
void stream_roundtrip(Ctx& c)
{
    const int fmt = c.choose(Fmt<T>::N);
    const int order = c.choose(3); // one, two or three objects
    A a, a2;
    B b;
    const size_t na = size_t(a.end() - a.begin()), nb = size_t(b.end() - b.begin());
    c.deviations(na + nb > 60 ? 1 : c.thorough() ? 3 : 2);
    content(c, a.array, na, 0, order ? 1 : 1000);
    if (order > 0)
        content(c, b.array, nb, 1);
    else
        std::fill(b.begin(), b.end(), T(65));
    if (order > 1)
        content(c, a2.array, na, 1);
    else
        std::fill(a2.begin(), a2.end(), T(65));
    std::stringstream ss;
    Fmt<T>::set(ss, fmt);
    const std::ios::fmtflags fl = ss.flags();
    Frozen<A> fa(a);
    a.write_to_stream(ss);
    if (order > 0)
        b.write_to_stream(ss);
    if (order > 1)
        a2.write_to_stream(ss);
    CHK_FROZEN(c, fa);
    Guarded<A> ra, ra2;
    Guarded<B> rb;
    for (size_t i = 0; i < na; ++i)
        ra.o.array[i] = ra2.o.array[i] = T(85);
    for (size_t i = 0; i < nb; ++i)
        rb.o.array[i] = T(86);
    NOTE(c, "text '" << ss.str() << "'");
    ra.o.read_from_stream(ss);
    if (order > 0)
        rb.o.read_from_stream(ss);
    if (order > 1)
        ra2.o.read_from_stream(ss);
    c.step(2 * (order + 1));
    c.state(hash_fp(a.array, na, hash_fp(b.array, nb, mc::hash_val(order))));
    bool space = false, ok = !ss.fail() && ss.flags() == fl;
    for (size_t i = 0; i < na; ++i)
    {
        space = space || is_space(a.array[i]) || (order > 1 && is_space(a2.array[i]));
        ok = ok && ra.o.array[i] == a.array[i] && (order < 2 || ra2.o.array[i] == a2.array[i]);
    }
    for (size_t i = 0; i < nb && order; ++i)
    {
        space = space || is_space(b.array[i]);
        ok = ok && rb.o.array[i] == b.array[i];
    }
    if (space)
    {
        // known finding: extraction skips white space.  Anything else that
        // goes wrong here is not covered by it.
        std::istringstream plain(ss.str());
        bool as_known = true;
        T x;
        for (int o = 0; o <= order; ++o)
            for (size_t k = 0; k < (o == 1 ? nb : na); ++k)
            {
                x = o == 1 ? T(86) : T(85);
                plain >> x;
                const T got = o == 0 ? ra.o.array[index(a, k)] : o == 1 ? rb.o.array[index(b, k)] : ra2.o.array[index(a2, k)];
                as_known = as_known && (!plain || got == x);
            }
        CHK(c, ok || as_known, "reading '" << ss.str() << "' gives " << show(ra.o) << ", " << show(rb.o));
        CHK_KEY(c, ok, "stream-whitespace-" + tname<T>(), "an element of type " << tname<T>() << " whose value is a white-space character is skipped when read back: wrote '" << ss.str() << "', read " << show(ra.o));
    }
    else
        CHK(c, ok, "stream round trip of " << order + 1 << " object(s): wrote '" << ss.str() << "' read " << show(ra.o) << " from " << show(a) << ", " << show(rb.o) << " from " << show(b));
    CHK_GUARD(c, ra);
    CHK_GUARD(c, rb);
    CHK_GUARD(c, ra2);
}

// a stream buffer that delivers a prefix, then ends or fails
struct CutBuf : std::streambuf
{
    std::string s;
    size_t pos, cut;
    bool throws;
    char ch;
    CutBuf(const std::string& t, size_t n, bool th) : s(t), pos(0), cut(n), throws(th) {}
    int_type underflow() override
    {
        if (gptr() < egptr())
            return traits_type::to_int_type(*gptr());
        if (pos >= cut)
        {
            if (throws)
                throw std::runtime_error("device failed");
            return traits_type::eof();
        }
        ch = s[pos++];
        setg(&ch, &ch, &ch + 1);
        return traits_type::to_int_type(ch);
    }
};
template <typename T, typename A>
void stream_cut(Ctx& c)
{
    A a;
    const size_t n = size_t(a.end() - a.begin());
    const int kind = c.choose(2);
    c.deviations(1);
    content(c, a.array, n, kind);
    std::ostringstream os;
    os.precision(std::numeric_limits<T>::max_digits10);
    a.write_to_stream(os);
    const std::string text = os.str();
    const size_t cut = size_t(c.choose(int(text.size()) + 1));
    const bool throws = c.flip();
    CutBuf buf(text, cut, throws);
    std::istream is(&buf);
    Guarded<A> r;
    for (size_t i = 0; i < n; ++i)
        r.o.array[i] = T(85);
    r.o.read_from_stream(is);
    c.step();
    c.state(hash_fp(a.array, n, mc::hash_val(cut)));
    NOTE(c, "'" << text << "' cut at " << cut << (throws ? " (error)" : " (end)") << " -> " << show(r.o));
    // storage order of reading: vectors by index, matrices row by row
    std::istringstream toks(text);
    std::string t;
    size_t end = 0;
    for (size_t k = 0; toks >> t; ++k)
    {
        const size_t from = text.find(t, end);
        end = from + t.size();
        const size_t i = index(a, k);
        // a complete last number may also be ended by the end of the input
        if (end < cut || (end == cut && !throws))
            CHK(c, r.o.array[i] == a.array[i], "'" << text << "' cut at " << cut << ": element " << k << " is complete but reads " << +r.o.array[i]);
        else if (from >= cut)
            CHK(c, r.o.array[i] == T(85), "'" << text << "' cut at " << cut << ": element " << k << " lies beyond the end but changed to " << +r.o.array[i]);
    }
    CHK_GUARD(c, r);
}

// ------------------------------------------------------------- raw files
const char* NAMES[] = {"x.raw", "raw", "a.b.raw"};
template <size_t M, size_t N, typename T>
void raw_roundtrip(Ctx& c)
{
    typedef vmml::Matrix<M, N, T> X;
    const char* name = c.pick(NAMES);
    const bool slash = c.flip();
    const int old = c.choose(3); // no file, shorter file, longer file before
    c.deviations(c.thorough() ? 2 : 1);
    X a;
    content(c, a.array, M * N, 0, 30);
    Dir d(name);
    Quiet q;
    const std::string dir = d.path + (slash ? "/" : "");
    if (old)
        spit(d.file, std::string(old == 1 ? 1 : sizeof(T) * M * N + 13, 'z'));
    Frozen<X> f(a);
    a.write_to_raw(dir, name);
    CHK_FROZEN(c, f);
    const std::string bytes = slurp(d.file);
    CHK(c, bytes.size() == sizeof(T) * M * N && !memcmp(bytes.data(), a.array, bytes.size()), "raw file holds " << bytes.size() << " bytes, want the image of the " << sizeof(T) * M * N << " byte matrix");
    Guarded<X> g;
    for (size_t i = 0; i < M * N; ++i)
        g.o.array[i] = T(85);
    g.o.read_from_raw(dir, name);
    c.step(2);
    c.state(hash_fp(a.array, M * N));
    CHK(c, !memcmp(g.o.array, a.array, sizeof a.array), "raw round trip of " << show(a) << " gives " << show(g.o));
    CHK_GUARD(c, g);
}
// every file length, also longer than the matrix; missing file; a directory
template <size_t M, size_t N, typename T>
void raw_cut(Ctx& c)
{
    typedef vmml::Matrix<M, N, T> X;
    const int full = int(sizeof(T) * M * N);
    const int len = c.choose(full + 20) - 2;
    const bool slash = c.flip();
    X a;
    for (size_t i = 0; i < M * N; ++i)
        a.array[i] = T(T(i + 1) * T(1.25));
    Dir d("t.raw");
    Quiet q;
    std::string bytes((const char*)a.array, full);
    bytes.append(40, '\x7f');
    if (len >= 0)
        spit(d.file, bytes.substr(0, len));
    if (len == -2)
        mkdir(d.file.c_str(), 0700);
    Guarded<X> g;
    for (size_t i = 0; i < M * N; ++i)
        g.o.array[i] = T(85);
    g.o.read_from_raw(d.path + (slash ? "/" : ""), "t.raw");
    if (len == -2)
        rmdir(d.file.c_str());
    c.step();
    c.state(mc::hash_val(len));
    for (size_t i = 0; i < M * N; ++i)
    {
        const bool complete = int((i + 1) * sizeof(T)) <= len;
        CHK(c, g.o.array[i] == (complete ? a.array[i] : T(85)), "raw file of " << len << " bytes: element " << i << " is " << +g.o.array[i]);
    }
    CHK_GUARD(c, g);
}
// files of many blocks: written, cut at and next to every block border, read
template <size_t M, size_t N, typename T>
void raw_blocks(Ctx& c)
{
    typedef vmml::Matrix<M, N, T> X;
    const long full = long(sizeof(T) * M * N);
    const int blocks = int(full / 4096) + 2;
    const int b = c.choose(blocks + 1);
    const long len = (b == blocks ? full : 4096L * b) + c.choose(3) - 1;
    if (len < 0)
        return;
    std::unique_ptr<X> a(new X), g(new X);
    for (size_t i = 0; i < M * N; ++i)
        a->array[i] = T(T((i * 7919 + 3) % 60013) + T(0.25));
    Dir d("b.raw");
    Quiet q;
    a->write_to_raw(d.path, "b.raw");
    std::string bytes = slurp(d.file);
    CHK(c, long(bytes.size()) == full && !memcmp(bytes.data(), a->array, full), "raw file holds " << bytes.size() << " bytes, want the image of the " << full << " byte matrix");
    bytes.resize(len, '\x7f');
    spit(d.file, bytes);
    for (size_t i = 0; i < M * N; ++i)
        g->array[i] = T(85);
    g->read_from_raw(d.path, "b.raw");
    c.step(2);
    c.state(mc::hash_val(len));
    for (size_t i = 0; i < M * N; ++i)
    {
        const bool complete = long((i + 1) * sizeof(T)) <= len;
        CHK(c, g->array[i] == (complete ? a->array[i] : T(85)), "raw file of " << len << " bytes: element " << i << " is " << +g->array[i]);
    }
}
// writing to a directory that does not exist: nothing happens
template <size_t M, size_t N, typename T>
void raw_unwritable(Ctx& c)
{
    typedef vmml::Matrix<M, N, T> X;
    Quiet q;
    X a;
    c.deviations(1);
    content(c, a.array, M * N, 0);
    Frozen<X> f(a);
    Guarded<X> g(a);
    a.write_to_raw(scratch() + "/missing/", "x.raw");
    g.o.read_from_raw(scratch() + "/missing", "x.raw");
    c.step(2);
    CHK_FROZEN(c, f);
    CHK(c, !memcmp(&g.o, &a, sizeof a), "reading a missing file changed the matrix");
    CHK_GUARD(c, g);
}
#if PART == 3
// every pattern of short, interrupted and failing system calls up to the
// deviation bound, while writing and while reading
template <size_t M, size_t N, typename T>
void raw_faults(Ctx& c, int budget)
{
    typedef vmml::Matrix<M, N, T> X;
    static X a;
    static Guarded<X> g;
    for (size_t i = 0; i < M * N; ++i)
    {
        a.array[i] = T(i + 1);
        g.o.array[i] = T(-7);
    }
    g.arm();
    Dir d("f.raw");
    Quiet q;
    c.deviations(budget);
    struct Off
    {
        ~Off() { fault::ctx = nullptr; }
    } off;
    fault::eio = fault::eof = fault::skip = false;
    fault::ctx = &c;
    a.write_to_raw(d.path, "f.raw");
    fault::end();
    const std::string bytes = slurp(d.file);
    CHK(c, bytes.size() == sizeof a.array && !memcmp(bytes.data(), a.array, bytes.size()), "short or interrupted writes damaged the file: " << bytes.size() << " bytes instead of " << sizeof a.array);
    fault::ctx = &c;
    g.o.read_from_raw(d.path, "f.raw");
    fault::end();
    c.step(2);
    c.state(mc::hash_val(c.budget_left() * 4 + fault::eio * 2 + fault::eof));
    bool changed = true;
    size_t n = 0;
    for (size_t i = 0; i < M * N; ++i)
    {
        const bool same_now = g.o.array[i] == a.array[i];
        CHK(c, same_now || g.o.array[i] == T(-7), "element " << i << " is neither read nor unchanged: " << +g.o.array[i]);
        CHK(c, !same_now || changed, "element " << i << " was read although an earlier one was not");
        changed = changed && same_now;
        n += same_now;
    }
    if (!fault::eio && !fault::eof)
        CHK(c, n == M * N, "only " << n << " of " << M * N << " elements read although no error occurred");
    CHK_GUARD(c, g);
}
#endif

// ------------------------------------------------------------- printing
struct Flags
{
    std::ios::fmtflags f;
    int prec;
};
Flags pick_flags(Ctx& c)
{
    Flags r;
    r.f = std::ios::fmtflags();
    static const std::ios::fmtflags adj[] = {std::ios::fmtflags(), std::ios::left, std::ios::right, std::ios::internal};
    static const std::ios::fmtflags base[] = {std::ios::dec, std::ios::hex, std::ios::oct};
    static const std::ios::fmtflags flt[] = {std::ios::fmtflags(), std::ios::fixed, std::ios::scientific};
    r.f = c.pick(adj) | c.pick(base) | c.pick(flt);
    if (c.flip())
        r.f |= std::ios::showpos;
    if (c.flip())
        r.f |= std::ios::uppercase;
    if (c.flip())
        r.f |= std::ios::boolalpha | std::ios::showpoint | std::ios::skipws | std::ios::unitbuf;
    static const int precs[] = {0, 1, 6, 17};
    r.prec = c.pick(precs);
    return r;
}
template <typename O, typename T>
void print_one(Ctx& c, const O& o, const std::vector<T>& want, const Flags& f, int repeat)
{
    std::ostringstream os;
    os.flags(f.f);
    os.precision(f.prec);
    os.fill('~');
    os.fill(' ');
    Frozen<O> fr(o);
    for (int i = 0; i < repeat; ++i)
        os << o;
    c.step(repeat);
    CHK(c, os.flags() == f.f, "printing changed the stream's flags from " << int(f.f) << " to " << int(os.flags()));
    CHK(c, os.precision() == f.prec, "printing changed the stream's precision from " << f.prec << " to " << os.precision());
    CHK(c, os.width() == 0 && os.fill() == ' ' && os.good(), "printing left width, fill or an error behind");
    CHK_FROZEN(c, fr);
    std::string s = os.str();
    NOTE(c, s);
    for (size_t i = 0; i < s.size(); ++i)
        if (strchr("[]()|,\n", s[i]))
            s[i] = ' ';
    std::istringstream is(s);
    std::string t;
    size_t k = 0;
    const int base = f.f & std::ios::hex ? 16 : f.f & std::ios::oct ? 8 : 10;
    for (; is >> t; ++k)
    {
        const T w = want[k % want.size()];
        if (std::is_floating_point<T>::value)
        {
            const double v = strtod(t.c_str(), nullptr);
            CHK(c, v == double(w) || std::fabs(v - double(w)) <= 1e-4 * std::fabs(double(w)) + (f.f & std::ios::fixed ? 1e-5 : 0), "printed element " << k << " is '" << t << "' want " << double(w) << " in '" << os.str() << "'");
        }
        else
            CHK(c, strtoll(t.c_str(), nullptr, base) == (long long)w, "printed element " << k << " is '" << t << "' want " << double(w) << " in '" << os.str() << "'");
    }
    CHK(c, k == want.size() * size_t(repeat), "printed " << k << " elements of " << want.size() << " in '" << os.str() << "'");
}
template <typename T>
std::vector<T> numbers(size_t n, int kind)
{
    std::vector<T> v;
    for (size_t i = 0; i < n; ++i)
    {
        if (std::is_floating_point<T>::value)
            v.push_back(kind == 2 ? T(i % 5 == 0 ? -1e30 : i % 5 == 1 ? 1e-30 : i % 5 == 2 ? 123456789 : i % 5 == 3 ? std::numeric_limits<T>::infinity() : -0.00012345) : T((kind ? 1.5 : -0.125) * double(i * 7 % 11 + 1) + (i % 3 == 2 ? 100 : 0)));
        else
            v.push_back(kind == 2 ? (i % 2 ? std::numeric_limits<T>::max() : T(i * 1000003)) : T(i * 37 % 101 + 1 + kind));
    }
    return v;
}
template <typename T, size_t M, size_t N>
void printing(Ctx& c)
{
    const int what = c.choose(2);
    const int kind = c.choose(3);
    const int repeat = 1 + c.choose(2);
    const Flags f = pick_flags(c);
    c.state(mc::hash_val(int(f.f) * 64 + f.prec));
    if (what == 0)
    {
        vmml::Vector<M, T> v;
        const std::vector<T> n = numbers<T>(M, kind);
        std::copy(n.begin(), n.end(), v.array);
        print_one(c, v, n, f, repeat);
    }
    else
    {
        vmml::Matrix<M, N, T> m;
        const std::vector<T> n = numbers<T>(M * N, kind);
        for (size_t i = 0; i < M * N; ++i)
            m.array[index(m, i)] = n[i];
        print_one(c, m, n, f, repeat);
    }
}
template <typename T>
void printing2(Ctx& c)
{
    const int what = c.choose(2);
    const int kind = c.choose(2);
    const int repeat = 1 + c.choose(2);
    Flags f = pick_flags(c);
    c.state(mc::hash_val(int(f.f) * 64 + f.prec));
    if (what == 0)
    {
        vmml::Frustum<T> o;
        const std::vector<T> n = numbers<T>(6, kind);
        std::copy(n.begin(), n.end(), o.array);
        print_one(c, o, n, f, repeat);
    }
    else
    {
        vmml::Quaternion<T> o;
        const std::vector<T> n = numbers<T>(4, kind);
        std::copy(n.begin(), n.end(), o.array);
        if (f.prec < 6)
            f.prec = 6; // quaternions are printed with the caller's precision
        print_one(c, o, n, f, repeat);
    }
}
// boxes, cullers and visibilities
template <typename T>
void printing3(Ctx& c)
{
    const int what = c.choose(3);
    const int kind = c.choose(2);
    const int repeat = 1 + c.choose(2);
    const Flags f = pick_flags(c);
    c.state(mc::hash_val(int(f.f) * 64 + f.prec));
    std::ostringstream os;
    os.flags(f.f);
    os.precision(f.prec);
    std::string want;
    if (what == 0)
    {
        const std::vector<T> n = numbers<T>(6, kind);
        const vmml::AABB<T> b(vmml::Vector<3, T>(n[0], n[1], n[2]), vmml::Vector<3, T>(n[3], n[4], n[5]));
        for (int i = 0; i < repeat; ++i)
            os << b;
        std::istringstream is(os.str());
        std::string t;
        size_t k = 0;
        while (is >> t)
        {
            if (t == "-" || t.find_first_of("0123456789") == std::string::npos)
                continue;
            const double v = strtod(t.c_str(), nullptr), w = double(n[k++ % 6]);
            CHK(c, std::fabs(v - w) <= 1e-4 * std::fabs(w) + 1e-5, "printed bound " << k - 1 << " is '" << t << "' want " << w << " in '" << os.str() << "'");
        }
        CHK(c, k == 6 * size_t(repeat), "printed " << k << " bounds in '" << os.str() << "'");
    }
    else if (what == 1)
    {
        vmml::FrustumCuller<T> cu;
        const T s = kind ? T(1) : T(-1); // of the coordinate axes
        typedef vmml::Vector<3, T> V;
        // the box [-2,4] x [-3,5] x [-s*7,-s*1]
        const T l = -2, r = 4, b = -3, t = 5, n = -1 * s, fr = -7 * s;
        cu.setup(V(l, t, n), V(r, t, n), V(l, b, n), V(r, b, n), V(l, t, fr), V(r, t, fr), V(l, b, fr), V(r, b, fr));
        for (int i = 0; i < repeat; ++i)
            os << cu;
        std::string s2 = os.str();
        for (size_t i = 0; i < s2.size(); ++i)
            if (strchr("[]()|,:\n", s2[i]))
                s2[i] = ' ';
        const struct
        {
            const char* name;
            int axis;
            T at;
        } pl[] = {{"left", 0, l}, {"right", 0, r}, {"top", 1, t}, {"bottom", 1, b}, {"near", 2, n}, {"far", 2, fr}};
        std::istringstream is(s2);
        std::string t2;
        int seen[6] = {0, 0, 0, 0, 0, 0};
        while (is >> t2)
            for (int p = 0; p < 6; ++p)
                if (t2 == pl[p].name)
                {
                    double v[4];
                    std::string x;
                    for (int k = 0; k < 4; ++k)
                    {
                        is >> x;
                        v[k] = strtod(x.c_str(), nullptr);
                    }
                    ++seen[p];
                    for (int k = 0; k < 4; ++k)
                    {
                        const double w = k == pl[p].axis ? 1 : k == 3 ? std::fabs(double(pl[p].at)) : 0;
                        CHK(c, std::fabs(std::fabs(v[k]) - w) < 1e-3, "component " << k << " of the " << pl[p].name << " plane is printed as " << v[k] << " in '" << os.str() << "'");
                    }
                    CHK(c, std::fabs(v[pl[p].axis] * double(pl[p].at) + v[3]) < 1e-3, "the printed " << pl[p].name << " plane does not hold its side: '" << os.str() << "'");
                }
        for (int p = 0; p < 6; ++p)
            CHK(c, seen[p] == repeat, "the " << pl[p].name << " plane is printed " << seen[p] << " times in '" << os.str() << "'");
    }
    else
    {
        static const vmml::Visibility v[] = {vmml::VISIBILITY_NONE, vmml::VISIBILITY_PARTIAL, vmml::VISIBILITY_FULL};
        static const char* n[] = {"not", "partially", "fully"};
        for (int i = 0; i < 3; ++i)
        {
            std::ostringstream one;
            one.flags(f.f);
            one << v[i];
            os << v[i];
            for (int j = 0; j < 3; ++j)
                CHK(c, (one.str().find(n[j]) != std::string::npos) == (i == j), "visibility " << i << " is printed as '" << one.str() << "'");
        }
    }
    c.step(repeat);
    CHK(c, os.flags() == f.f && os.precision() == f.prec && os.width() == 0 && os.good(), "printing changed the stream's state");
}
// the text file: one line per row, the elements as they are printed
template <size_t M, size_t N, typename T>
void csv(Ctx& c)
{
    typedef vmml::Matrix<M, N, T> X;
    static const char* names[] = {"x.csv", "x", "csv", "a.b", "cs", "x.csv.txt"};
    const char* name = c.pick(names);
    const bool slash = c.flip();
    const int old = c.choose(3), kind = c.choose(3);
    X a;
    const std::vector<T> n = numbers<T>(M * N, kind);
    for (size_t i = 0; i < M * N; ++i)
        a.array[index(a, i)] = n[i];
    std::string file = name;
    if (file.size() < 3 || file.substr(file.size() - 3) != "csv")
        file += ".csv";
    Dir d(file);
    Quiet q;
    if (old)
        spit(d.file, std::string(old == 1 ? 1 : 4000, 'z'));
    if (old == 2)
        spit(d.path + "/other", "kept");
    Frozen<X> f(a);
    a.write_csv_file(d.path + (slash ? "/" : ""), name);
    CHK_FROZEN(c, f);
    const std::string text = slurp(d.file);
    if (old == 2)
    {
        CHK(c, slurp(d.path + "/other") == "kept", "write_csv_file changed another file");
        unlink((d.path + "/other").c_str());
    }
    c.step();
    c.state(mc::hash_bytes(text.data(), text.size()));
    std::istringstream lines(text);
    std::string line;
    size_t rows = 0;
    while (std::getline(lines, line))
    {
        for (size_t i = 0; i < line.size(); ++i)
            if (strchr("[]()|,;", line[i]))
                line[i] = ' ';
        std::istringstream is(line);
        std::string t;
        size_t k = 0;
        for (; is >> t; ++k)
        {
            CHK(c, rows < M && k < N, "too many elements in the text file '" << text << "'");
            const double v = strtod(t.c_str(), nullptr), w = double(a(rows, k));
            CHK(c, v == w || std::fabs(v - w) <= 1e-4 * std::fabs(w), "element (" << rows << ", " << k << ") is written as '" << t << "' want " << w);
        }
        CHK(c, k == 0 || k == N, "row " << rows << " of the text file has " << k << " elements: '" << text << "'");
        rows += k ? 1 : 0;
    }
    CHK(c, rows == M, "the text file has " << rows << " rows, want " << M << ": '" << text << "'");
}
#define S(x) std::to_string(x)
template <typename T>
void reg_streams()
{
    using vmml::Matrix;
    using vmml::Vector;
    const std::string n = tname<T>();
    mc::add("stream_v3_m22_" + n, stream_roundtrip<T, Vector<3, T>, Matrix<2, 2, T>>, "several objects in one stream");
    mc::add("stream_m23_v4_" + n, stream_roundtrip<T, Matrix<2, 3, T>, Vector<4, T>>, "");
    mc::add("stream_v1_m32_" + n, stream_roundtrip<T, Vector<1, T>, Matrix<3, 2, T>>, "");
    mc::add("stream_m14_v2_" + n, stream_roundtrip<T, Matrix<1, 4, T>, Vector<2, T>>, "");
    mc::add("stream_v100_m79_" + n, stream_roundtrip<T, Vector<100, T>, Matrix<7, 9, T>>, "");
    mc::add("stream_m33_m41_" + n, stream_roundtrip<T, Matrix<3, 3, T>, Matrix<4, 1, T>>, "");
}
template <typename T>
void reg_cut()
{
    using vmml::Matrix;
    using vmml::Vector;
    const std::string n = tname<T>();
    mc::add("stream_cut_v4_" + n, stream_cut<T, Vector<4, T>>, "every truncation point of the text, end or error");
    mc::add("stream_cut_m23_" + n, stream_cut<T, Matrix<2, 3, T>>, "");
    mc::add("stream_cut_m32_" + n, stream_cut<T, Matrix<3, 2, T>>, "");
}
template <size_t M, size_t N, typename T>
void reg_raw()
{
    const std::string n = S(M) + S(N) + tname<T>();
    mc::add("raw_" + n, raw_roundtrip<M, N, T>, "raw file round trip");
    mc::add("raw_cut_" + n, raw_cut<M, N, T>, "every file length");
    mc::add("raw_unwritable_" + n, raw_unwritable<M, N, T>, "missing directory");
}
} // namespace

REGISTER_BLOCK(c14)
{
#if PART == 0
    reg_streams<float>();
    reg_streams<double>();
    reg_streams<int>();
    reg_streams<unsigned>();
#elif PART == 4
    reg_streams<long long>();
    reg_streams<short>();
    reg_streams<unsigned char>();
    reg_streams<char>();
#elif PART == 1
    reg_cut<float>();
    reg_cut<double>();
    reg_cut<int>();
    reg_cut<unsigned>();
    mc::add("printing_float_34", printing<float, 3, 4>, "elements in order, stream state restored, all flag combinations");
    mc::add("printing_double_23", printing<double, 2, 3>, "");
    mc::add("printing_int_42", printing<int, 4, 2>, "");
    mc::add("printing_unsigned_11", printing<unsigned, 1, 1>, "");
    mc::add("printing_frustum_quaternion_float", printing2<float>, "");
    mc::add("printing_frustum_quaternion_double", printing2<double>, "");
    mc::add("printing_box_culler_float", printing3<float>, "boxes, cullers, visibilities");
    mc::add("printing_box_culler_double", printing3<double>, "");
    mc::add("csv_34_float", csv<3, 4, float>, "text files");
    mc::add("csv_23_double", csv<2, 3, double>, "");
    mc::add("csv_11_int", csv<1, 1, int>, "");
    mc::add("csv_51_unsigned", csv<5, 1, unsigned>, "");
#elif PART == 2
    reg_raw<1, 1, float>();
    reg_raw<2, 3, float>();
    reg_raw<3, 2, double>();
    reg_raw<4, 4, double>();
    reg_raw<4, 4, float>();
    reg_raw<2, 2, unsigned char>();
    reg_raw<5, 3, unsigned char>();
    reg_raw<3, 3, short>();
    reg_raw<1, 6, int>();
    reg_raw<4, 2, unsigned>();
    mc::add("raw_blocks_12896_double", raw_blocks<128, 96, double>, "files of many blocks, cut next to every block border");
    mc::add("raw_blocks_300250_float", raw_blocks<300, 250, float>, "");
    mc::add("raw_blocks_700100_uchar", raw_blocks<700, 100, unsigned char>, "");
    mc::add("raw_blocks_33257_short", raw_blocks<33, 257, short>, "");
    mc::add("raw_cut_3311_double", raw_cut<33, 11, double>, "every file length");
    reg_raw<2, 2, long long>();
#else
    mc::add("raw_faults_33_float", [](Ctx& c) { raw_faults<3, 3, float>(c, c.thorough() ? 6 : 4); }, "short, interrupted and failing reads and writes");
    mc::add("raw_faults_40_double", [](Ctx& c) { raw_faults<40, 40, double>(c, c.thorough() ? 4 : 3); }, "file larger than the stream buffer");
    mc::add("raw_faults_90_short", [](Ctx& c) { raw_faults<90, 61, short>(c, c.thorough() ? 4 : 3); }, "");
#endif
}
MC_MAIN()
