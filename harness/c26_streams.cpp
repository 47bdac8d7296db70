// C26: what is printed depends on the object and the stream's settings only,
// not on what the stream printed before.
#include <vmmlib/aabb.hpp>
#include <vmmlib/frustum.hpp>
#include <vmmlib/frustum_culler.hpp>
#include <vmmlib/matrix.hpp>
#include <vmmlib/quaternion.hpp>
#include <vmmlib/vector.hpp>
#include "mc/common.hpp"
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
using namespace h;

namespace
{
enum
{
    N_ITEMS = 22
};
template <size_t M, size_t N, typename T>
vmml::Matrix<M, N, T> mat(const T* p)
{
    vmml::Matrix<M, N, T> m;
    m.set(p, p + M * N, true);
    return m;
}
template <typename T>
void print(std::ostream& s, int item)
{
    typedef vmml::Vector<3, T> V3;
    static const T e[] = {T(1) / 3, T(-2.5), T(12345.678), T(0), T(7), T(-1e-5), T(0.1), T(3), T(4e8), T(5), T(-6), T(1e20), T(8), T(9.75), T(2), T(1)};
    switch (item)
    {
    case 0: s << V3(e[0], e[1], e[2]); break;
    case 1: s << vmml::Vector<2, T>(e[8], e[5]); break;
    case 2: s << vmml::Vector<4, int>(1, -20, 300, 4096); break;
    case 3: s << vmml::Vector<1, T>(e[6]); break;
    case 4: s << mat<2, 3, T>(e); break;
    case 5: s << mat<4, 4, T>(e); break;
    case 6: s << mat<1, 1, T>(e + 2); break;
    case 7: s << vmml::Quaternion<T>(e[0], e[1], e[2], e[5]); break;
    case 8: s << vmml::Frustum<T>(e[0], e[1], e[2], e[4], e[5], e[8]); break;
    case 9: s << vmml::AABB<T>(V3(e[1], e[1], e[3]), V3(e[0], e[2], e[4])); break;
    case 10: s << vmml::AABB<T>(); break;
    case 11: s << vmml::VISIBILITY_NONE << vmml::VISIBILITY_FULL; break;
    case 12: vmml::Vector<4, T>(e[0], e[1], e[2], e[8]).write_to_stream(s); break;
    case 13: mat<2, 2, T>(e).write_to_stream(s); break;
    case 14: s << e[0]; break;
    case 15: s << e[11]; break;
    case 16: s << 255; break;
    case 17: s << true; break;
    case 18: s << "text" << 'c'; break;
    case 19:
    {
        vmml::FrustumCuller<T> k;
        k.setup(vmml::Matrix<4, 4, T>::IDENTITY);
        s << k;
        break;
    }
    case 20: s << vmml::Matrix<3, 1, int>() << vmml::Matrix<2, 2, unsigned char>(); break;
    default: s << static_cast<const void*>(nullptr) << -1.5f << 7u; break;
    }
}
void settings(std::ostream& s, int k)
{
    static const int prec[] = {6, 0, 1, 2, 3, 4, 5, 7, 9, 12, 17, 20};
    typedef std::ios I;
    static const struct
    {
        I::fmtflags f, m;
    } fl[] = {{I::fmtflags(), I::fmtflags()}, {I::fixed, I::floatfield}, {I::scientific, I::floatfield}, {I::left, I::adjustfield}, {I::internal, I::adjustfield}, {I::hex, I::basefield}, {I::showpos, I::showpos}, {I::boolalpha | I::uppercase, I::boolalpha | I::uppercase}, {I::showpoint, I::showpoint}, {I::oct | I::showbase, I::basefield | I::showbase}, {I::fixed | I::left, I::floatfield | I::adjustfield}, {I::fixed | I::scientific, I::floatfield}};
    s.precision(prec[k % 12]);
    s.setf(fl[k / 12].f, fl[k / 12].m);
}
template <typename T>
const std::string& alone(int k, int item)
{
    static std::string text[144][N_ITEMS];
    std::string& t = text[k][item];
    if (t.empty())
    {
        std::ostringstream s;
        settings(s, k);
        print<T>(s, item);
        t = s.str() + "."; // never empty
    }
    return t;
}
template <typename T>
void sequence(Ctx& c, int depth)
{
    const int k = c.choose(144);
    std::ostringstream s;
    settings(s, k);
    const std::ios::fmtflags f = s.flags();
    const std::streamsize p = s.precision();
    std::string done;
    for (int d = 0; d < depth; ++d)
    {
        const int item = c.choose(N_ITEMS);
        const std::string want = alone<T>(k, item);
        const size_t before = s.str().size();
        print<T>(s, item);
        c.step();
        const std::string got = s.str().substr(before) + ".";
        CHK(c, got == want, "after " << (d ? done : "nothing") << " item " << item << " is printed as '" << got << "', alone as '" << want << "' (precision " << p << ", flags " << f << ")");
        CHK(c, s.flags() == f && s.precision() == p && s.width() == 0 && s.fill() == ' ' && s.good(), "printing item " << item << " leaves flags " << s.flags() << " precision " << s.precision() << " width " << s.width());
        done += std::to_string(item) + " ";
        c.state(mc::hash_val(((k * 32 + item) * 4 + d)));
    }
}
// --- files: all histories of writing, reading and shortening three files by
// matrices of three types; every file and the set of open files looked at
// after each step
const char* const FILES[] = {"a.raw", "b.raw", "other.raw"};
std::string file_bytes(const std::string& p)
{
    std::ifstream f(p.c_str(), std::ios::binary);
    std::ostringstream s;
    s << f.rdbuf();
    return s.str();
}
void put(const std::string& p, const std::string& b)
{
    std::ofstream f(p.c_str(), std::ios::binary | std::ios::trunc);
    f.write(b.data(), std::streamsize(b.size()));
}
int free_fds()
{
    int fd[4], r = 0;
    for (int& f : fd)
        f = dup(0);
    for (int f : fd)
    {
        r = r * 32 + f;
        close(f);
    }
    return r;
}
template <size_t M, size_t N, typename T>
void file_step(Ctx& c, bool write, const std::string& dir, int f, int step, std::string* model)
{
    typedef vmml::Matrix<M, N, T> X;
    X m;
    for (size_t i = 0; i < M * N; ++i)
        m.array[i] = T(T(int(i) * 3 + step * 17 + 1) / T(2));
    std::string bytes(reinterpret_cast<const char*>(m.array), sizeof m.array);
    const X before(m);
    if (write)
    {
        m.write_to_raw(dir, FILES[f]);
        model[f] = bytes;
    }
    else
    {
        m.read_from_raw(dir, FILES[f]);
        const size_t n = std::min(model[f].size(), bytes.size()) / sizeof(T) * sizeof(T);
        bytes.replace(0, n, model[f], 0, n);
    }
    c.step();
    CHK(c, !memcmp(m.array, bytes.data(), bytes.size()), (write ? "writing " : "reading ") << FILES[f] << " of " << model[f].size() << " bytes as step " << step << " gives " << show(m) << ", was " << show(before));
}
void files(Ctx& c)
{
    const int depth = c.thorough() ? 4 : 3;
    static std::string dir;
    static pid_t owner = 0;
    if (owner != getpid())
    {
        owner = getpid();
        dir = mc::options().scratch + "/h" + std::to_string(owner);
        mkdir(dir.c_str(), 0700);
    }
    std::string model[3];
    model[0] = std::string("some earlier text, longer than a matrix of nine doubles: ") + std::string(60, '.');
    model[1] = "";
    model[2] = "abcdefghijk";
    for (int i = 0; i < 3; ++i)
        put(dir + "/" + FILES[i], model[i]);
    const int open = free_fds();
    const bool slash = c.flip();
    for (int d = 0; d < depth; ++d)
    {
        const int f = c.choose(3), what = c.choose(7);
        const std::string at = dir + (slash ? "/" : "");
        NOTE(c, (what == 6 ? "shorten " : what < 3 ? "write " : "read ") << FILES[f] << " type " << what % 3);
        switch (what)
        {
        case 0: case 3: file_step<3, 3, float>(c, what == 0, at, f, d, model); break;
        case 1: case 4: file_step<2, 2, double>(c, what == 1, at, f, d, model); break;
        case 2: case 5: file_step<1, 5, short>(c, what == 2, at, f, d, model); break;
        default:
            model[f].resize(model[f].size() * 2 / 3);
            put(dir + "/" + FILES[f], model[f]);
        }
        for (int i = 0; i < 3; ++i)
            CHK(c, file_bytes(dir + "/" + FILES[i]) == model[i], "step " << d << " left " << FILES[i] << " with other contents");
        CHK(c, free_fds() == open, "step " << d << " left a file open");
        c.state(mc::hash_bytes(model[0].data(), model[0].size(), mc::hash_bytes(model[1].data(), model[1].size(), mc::hash_bytes(model[2].data(), model[2].size(), uint64_t(what)))));
    }
    for (int i = 0; i < 3; ++i)
        unlink((dir + "/" + FILES[i]).c_str());
}
} // namespace
REGISTER_BLOCK(c26s)
{
    mc::add("streams_float", [](Ctx& c) { sequence<float>(c, c.thorough() ? 3 : 2); }, "every object printed after every other, 144 stream settings");
    mc::add("files", files, "histories of raw files");
    mc::add("streams_double", [](Ctx& c) { sequence<double>(c, c.thorough() ? 3 : 2); }, "");
}
MC_MAIN()
