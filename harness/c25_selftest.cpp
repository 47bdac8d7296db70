// C25: operations with known concurrency behaviour; the explorer has to find
// the broken ones and stay quiet on the others.  Compiled with the same
// instrumentation as the catalogue.
#include "ops/in.hpp"

#include <atomic>
#include <mutex>

namespace selftest
{
using ops::Out;
typedef vmml::Vector<3, double> V3;

// lost update
int counter = 0;
void racy_counter(const void*, int, Out& o)
{
    const int v = counter;
    counter = v + 1;
    o.add(1);
}
// unsynchronised shared scratch: wrong results in some interleavings
void shared_scratch(const void* p, int, Out& o)
{
    static double scratch[3];
    const V3& v = *static_cast<const V3*>(p);
    for (int i = 0; i < 3; ++i)
        scratch[i] = 2 * v.array[i];
    for (int i = 0; i < 3; ++i)
        o.add(scratch[i]);
}
// lazily initialised without a guard: a race even though the values agree
bool ready = false;
double table[4];
void unguarded_table(const void*, int, Out& o)
{
    if (!ready)
    {
        for (int i = 0; i < 4; ++i)
            table[i] = i * 0.5;
        ready = true;
    }
    for (int i = 0; i < 4; ++i)
        o.add(table[i]);
}
// memoised result guarded by a mutex, but the lookup is not
std::mutex m;
double key = -1, value = 0;
void half_locked_cache(const void* p, int, Out& o)
{
    const V3& v = *static_cast<const V3*>(p);
    double k, r;
    {
        std::lock_guard<std::mutex> l(m);
        if (key != v.array[0])
        {
            key = v.array[0];
            value = v.array[0] * 3;
        }
        k = key;
    }
    {
        std::lock_guard<std::mutex> l(m);
        r = value;
    }
    (void)k;
    o.add(r);
}
// memory of another thread reached through a static pointer
struct Node
{
    double d[4];
};
std::atomic<Node*> last(nullptr);
void leaked_pointer(const void* p, int, Out& o)
{
    const V3& v = *static_cast<const V3*>(p);
    Node n;
    n.d[0] = v.array[0];
    last.store(&n);
    last.load()->d[1] = v.array[1];
    o.add(n.d[0]);
    o.add(n.d[1] == v.array[1]);
}

// --- correct ones
void guarded_static(const void*, int, Out& o)
{
    static const V3 k(o.n + 1., 2., 3.);
    for (int i = 0; i < 3; ++i)
        o.add(k.array[i]);
}
thread_local double own[3];
void thread_local_scratch(const void* p, int, Out& o)
{
    const V3& v = *static_cast<const V3*>(p);
    for (int i = 0; i < 3; ++i)
        own[i] = 2 * v.array[i];
    for (int i = 0; i < 3; ++i)
        o.add(own[i]);
}
std::mutex m2;
double key2 = -1, value2 = 0;
void locked_cache(const void* p, int, Out& o)
{
    const V3& v = *static_cast<const V3*>(p);
    std::lock_guard<std::mutex> l(m2);
    if (key2 != v.array[0])
    {
        key2 = v.array[0];
        value2 = v.array[0] * 3;
    }
    o.add(value2);
}
std::atomic<int> calls(0);
void atomic_statistics(const void* p, int, Out& o)
{
    calls.fetch_add(1);
    o.add(static_cast<const V3*>(p)->array[2]);
}
std::once_flag once;
double late[2];
void call_once_table(const void*, int, Out& o)
{
    std::call_once(once, [] { late[0] = 4; late[1] = 5; });
    o.add(late[0] + late[1]);
}
void heap_scratch(const void* p, int, Out& o)
{
    std::vector<V3> v(5, *static_cast<const V3*>(p));
    v.push_back(v[2] + v[3]);
    o.add(v.back().array[1]);
}

extern const ops::Op broken[] = {
    {"racy counter", racy_counter, 0},
    {"shared scratch", shared_scratch, 0},
    {"unguarded table", unguarded_table, 0},
    {"half locked cache", half_locked_cache, 0},
    {"leaked pointer", leaked_pointer, 0},
};
extern const int n_broken = 5;
extern const ops::Op correct[] = {
    {"guarded static", guarded_static, 0},
    {"thread local scratch", thread_local_scratch, 0},
    {"locked cache", locked_cache, 0},
    {"atomic statistics", atomic_statistics, 0},
    {"call_once table", call_once_table, 0},
    {"heap scratch", heap_scratch, 0},
};
extern const int n_correct = 6;
} // namespace selftest
