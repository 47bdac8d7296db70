// C28: version macros. versions.inc (generated by checks.py from the tree's
// version.in.hpp with cmake's configure_file) holds, for every library
// version, run-time functions and #if results.
#include <vmmlib/vmmlib_config.hpp>
#include "mc/common.hpp"
using namespace h;

struct Version
{
    int v[3];                         // what the build was configured with
    int (*macro)(int);                // VMMLIB_VERSION_MAJOR/MINOR/PATCH
    unsigned (*cmp)(int, int, int);   // bits: GT GE LT LE
    const unsigned char* pre;         // the same from #if, index by triple
};
#include "versions.inc"

namespace
{
int sgn(const int* a, const int* b)
{
    for (int i = 0; i < 3; ++i)
        if (a[i] != b[i])
            return a[i] < b[i] ? -1 : 1;
    return 0;
}
void judge(Ctx& c, const Version& w, const int* o, unsigned bits, const char* how)
{
    const int s = sgn(w.v, o);
    const unsigned want = (s > 0 ? 1 : 0) | (s >= 0 ? 2 : 0) | (s < 0 ? 4 : 0) | (s <= 0 ? 8 : 0);
    CHK(c, bits == want, how << ": library " << w.v[0] << "." << w.v[1] << "." << w.v[2] << " against " << o[0] << "." << o[1] << "." << o[2] << " gives GT " << (bits & 1) << " GE " << (bits >> 1 & 1) << " LT " << (bits >> 2 & 1) << " LE " << (bits >> 3 & 1));
}
void run(Ctx& c)
{
    const Version& w = VERSIONS[c.choose(NVERSIONS)];
    for (int i = 0; i < 3; ++i)
        CHK(c, w.macro(i) == w.v[i], "version number " << i << " is " << w.macro(i) << ", configured " << w.v[i]);
    int t[3];
    for (int i = 0; i < 3; ++i)
    {
        const int far_[] = {-1, 0, 1, 2, 3, 10, 99, w.v[i], w.v[i] + 1, w.v[i] - 1, 1000000};
        t[i] = c.pick(far_);
    }
    c.step();
    c.state(mc::hash_bytes(t, sizeof t, mc::hash_bytes(w.v, sizeof w.v)));
    judge(c, w, t, w.cmp(t[0], t[1], t[2]), "run time");
}
void preprocessor(Ctx& c)
{
    const Version& w = VERSIONS[c.choose(NVERSIONS)];
    int idx = 0, t[3];
    for (int i = 0; i < 3; ++i)
    {
        const int k = c.choose(PRE_N);
        idx = idx * PRE_N + k;
        t[i] = PRE_VALUES[k];
    }
    c.step();
    c.state(mc::hash_bytes(t, sizeof t, mc::hash_bytes(w.v, sizeof w.v)));
    judge(c, w, t, w.pre[idx], "#if");
}
// arguments that are expressions, and macros inside larger conditions
void expressions(Ctx& c)
{
    const Version& w = VERSIONS[c.choose(NVERSIONS)];
    int t[3];
    for (int i = 0; i < 3; ++i)
        t[i] = c.choose(4);
    c.step();
    judge(c, w, t, w.cmp(t[0] + 0, t[1] * 1, 2 + t[2] - 2), "expressions");
}
} // namespace

REGISTER_BLOCK(c28)
{
    mc::add("runtime", run, "all library versions against all triples");
    mc::add("preprocessor", preprocessor, "the same in #if");
    mc::add("expressions", expressions, "arguments that are expressions");
}
MC_MAIN()
