// C25: threads.  The catalogue operations are compiled with the compiler's
// -fsanitize=thread instrumentation, but linked with the runtime below instead
// of the sanitizer's: every memory access, atomic, static-initialisation guard
// and mutex operation of an operation calls into it.  Two or three real
// threads run under a token scheduler (exactly one runs at a time) whose
// decisions are enumerated:
//   * "alone": the shared accesses of each operation alone, fresh and warm;
//   * "preempt": for every ordered pair, one preemption at every shared
//     access (thorough: two), results compared with those of the operation
//     run alone in a fresh process;
//   * whenever any operation writes memory that is not its own, the pair is
//     explored in fresh processes over all interleavings of the conflicting
//     accesses and synchronisation operations up to a preemption bound, with
//     happens-before race detection.  Pairs without shared writes have only
//     independent steps, so a single Mazurkiewicz trace.
#include "mc/common.hpp"
#include "ops/api.hpp"

#include <cerrno>
#include <linux/futex.h>
#include <map>
#include <new>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

using mc::Ctx;
using ops::Catalogue;
using ops::Out;

namespace ops
{
All& all()
{
    static All a;
    return a;
}
} // namespace ops
namespace selftest
{
extern const ops::Op broken[];
extern const int n_broken;
extern const ops::Op correct[];
extern const int n_correct;
} // namespace selftest

// ======================================================================
// runtime
// ======================================================================
namespace rt
{
enum
{
    MAXT = 3,
    MAXACC = 1 << 15,
    MAXPOINTS = 4096
};
struct Access
{
    uintptr_t a;
    uint32_t size;
    uint8_t write; // 1 write, 2 synchronisation
};
struct Job
{
    const ops::Op* op;
    const void* in;
    int dirt;
};
struct Clock
{
    uint32_t c[MAXT];
};
struct Thr
{
    int id;
    pthread_t th;
    char *stack, *stack_end;
    char *arena, *arena_end, *arena_pos;
    int token; // futex: 1 = may run
    bool active, finished;
    const void* blocked; // waiting for this object
    Job job;
    Out* out;
    Clock vc;
    int points; // shared accesses so far
    int acc_n;
    Access* acc;
    int shared_writes;
};

// one execution's plan and result, shared with the parent process
struct Shared
{
    volatile int done;
    char fail[700];
    // plan
    int nchoices;
    uint8_t choices[MAXPOINTS];
    // decision points met
    int npoints;
    uint8_t enabled[MAXPOINTS]; // mask of runnable threads
    uint8_t chosen[MAXPOINTS];
    uint8_t before[MAXPOINTS]; // running thread when the point was met
    int points_of[MAXT];
    int shared_writes;
    int nconf;
    uintptr_t conf[256]; // granules in conflict
    long executions;
    char what[300];
};

Thr thr[MAXT];
int nthr = 0;
pid_t owner = 0;
static __thread Thr* self = nullptr;
Shared* sh = nullptr;
const size_t STACK = 1 << 20, ARENA = 64 << 20;

enum Mode
{
    COUNT,   // decision points: every shared access
    CONFLICT // decision points: accesses to `granules`, synchronisation
};
Mode mode = COUNT;
const size_t MAXGRAN = 4096;
uintptr_t granules[MAXGRAN];
int ngranules = 0;
bool recording = false;
bool races = false;

void futex_wait(int* p, int v)
{
    syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0);
}
void futex_wake(int* p)
{
    syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
int parent_token = 0;

void give(int* t)
{
    __atomic_store_n(t, 1, __ATOMIC_SEQ_CST);
    futex_wake(t);
}
void take(int* t)
{
    for (int spin = 0; spin < 200; ++spin)
        if (__atomic_load_n(t, __ATOMIC_SEQ_CST))
            break;
    while (!__atomic_load_n(t, __ATOMIC_SEQ_CST))
        futex_wait(t, 0);
    __atomic_store_n(t, 0, __ATOMIC_SEQ_CST);
}

void die(const char* m)
{
    if (!sh->fail[0])
        strncpy(sh->fail, m, sizeof sh->fail - 1);
    sh->done = 1;
    _exit(0);
}

int runnable()
{
    int m = 0;
    for (int i = 0; i < nthr; ++i)
        if (thr[i].active && !thr[i].finished && !thr[i].blocked)
            m |= 1 << i;
    return m;
}
void switch_to(Thr* from, int to)
{
    if (from && from->id == to)
        return;
    give(&thr[to].token);
    if (from && !from->finished)
        take(&from->token);
}
int lowest(int mask)
{
    for (int i = 0; i < nthr; ++i)
        if (mask >> i & 1)
            return i;
    return -1;
}

// the running thread t is about to do something visible
void point(Thr* t)
{
    ++t->points;
    const int k = sh->npoints;
    const int en = runnable();
    if (k >= MAXPOINTS)
        return;
    sh->npoints = k + 1;
    int to = t->id;
    if (k < sh->nchoices)
    {
        to = sh->choices[k];
        if (!(en >> to & 1))
        {
            // one-time initialisation inside the standard library makes the
            // first run of some operations longer than later ones
            if (mode == CONFLICT)
                die("schedule not reproducible (internal error of the check)");
            to = t->id;
        }
    }
    sh->enabled[k] = uint8_t(en);
    sh->chosen[k] = uint8_t(to);
    sh->before[k] = uint8_t(t->id);
    if (to != t->id)
        switch_to(t, to);
}
// t cannot go on
void block(Thr* t, const void* on)
{
    t->blocked = on;
    const int en = runnable();
    if (!en)
        die("deadlock: every thread waits");
    switch_to(t, lowest(en));
}
void unblock(const void* on)
{
    for (int i = 0; i < nthr; ++i)
        if (thr[i].blocked == on)
            thr[i].blocked = nullptr;
}

// ---- happens-before
struct Cell
{
    uintptr_t g;
    Clock w[8];  // per byte: component of the last write (0: none)
    int wt[8];
    Clock r[8];
};
std::map<uintptr_t, Cell>* cells = nullptr;
std::map<const void*, Clock>* syncs = nullptr;
bool in_rt = false; // the runtime itself allocates

void join(Clock& a, const Clock& b)
{
    for (int i = 0; i < MAXT; ++i)
        if (b.c[i] > a.c[i])
            a.c[i] = b.c[i];
}
void acquire(Thr* t, const void* p)
{
    if (!races)
        return;
    in_rt = true;
    auto i = syncs->find(p);
    if (i != syncs->end())
        join(t->vc, i->second);
    in_rt = false;
}
void release(Thr* t, const void* p)
{
    if (!races)
        return;
    in_rt = true;
    join((*syncs)[p], t->vc);
    ++t->vc.c[t->id];
    in_rt = false;
}
bool ordered(const Clock& past, const Clock& now)
{
    for (int i = 0; i < MAXT; ++i)
        if (past.c[i] > now.c[i])
            return false;
    return true;
}
void race_check(Thr* t, uintptr_t a, size_t n, bool write)
{
    if (!races)
        return;
    in_rt = true;
    for (uintptr_t p = a; p < a + n; ++p)
    {
        Cell& c = (*cells)[p >> 3];
        const int b = int(p & 7);
        if (!ordered(c.w[b], t->vc) || (write && !ordered(c.r[b], t->vc)))
        {
            const bool ww = !ordered(c.w[b], t->vc);
            snprintf(sh->fail, sizeof sh->fail,
                     "data race: '%s' in thread %d %s memory at %p that another "
                     "thread %s without synchronisation",
                     t->job.op->name, t->id, write ? "writes" : "reads", (void*)p,
                     ww ? "wrote" : "reads");
            die(sh->fail);
        }
        if (write)
            c.w[b].c[t->id] = t->vc.c[t->id];
        else
            c.r[b].c[t->id] = t->vc.c[t->id];
    }
    in_rt = false;
}

bool own(const Thr* t, uintptr_t a)
{
    return (a >= uintptr_t(t->stack) && a < uintptr_t(t->stack_end)) ||
           (a >= uintptr_t(t->arena) && a < uintptr_t(t->arena_end));
}
bool in_granules(uintptr_t a, size_t n)
{
    for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; ++g)
    {
        int lo = 0, hi = ngranules;
        while (lo < hi)
        {
            const int m = (lo + hi) / 2;
            if (granules[m] < g)
                lo = m + 1;
            else
                hi = m;
        }
        if (lo < ngranules && granules[lo] == g)
            return true;
    }
    return false;
}
void record(Thr* t, uintptr_t a, size_t n, int write)
{
    if (recording && t->acc_n < MAXACC)
    {
        Access& x = t->acc[t->acc_n++];
        x.a = a;
        x.size = uint32_t(n);
        x.write = uint8_t(write);
    }
}
inline void access(uintptr_t a, size_t n, bool write)
{
    Thr* t = self;
    if (!t || !t->active || in_rt || n == 0)
        return;
    if (own(t, a))
    {
        // a granule of this memory may have been seen by another thread
        if (mode == CONFLICT && in_granules(a, n))
        {
            point(t);
            race_check(t, a, n, write);
        }
        return;
    }
    if (write)
        ++t->shared_writes;
    record(t, a, n, write);
    if (mode == COUNT || in_granules(a, n))
        point(t);
    race_check(t, a, n, write);
}
// an atomic operation: synchronises
inline void atomic_op(const void* p, size_t n, bool write, bool rmw)
{
    Thr* t = self;
    if (!t || !t->active || in_rt)
        return;
    if (own(t, uintptr_t(p)))
        return;
    if (write)
    {
        ++t->shared_writes;
        record(t, uintptr_t(p), n, 2);
    }
    else
        record(t, uintptr_t(p), n, 0);
    point(t);
    if (!write || rmw)
        acquire(t, p);
    if (write)
        release(t, p);
}

// ---- threads
void* body(void* arg)
{
    Thr* t = static_cast<Thr*>(arg);
    self = t;
    for (;;)
    {
        take(&t->token);
        Out o;
        t->out = &o;
        t->job.op->run(t->job.in, t->job.dirt, o);
        // the result is read by the controller while this frame lives
        t->finished = true;
        const int en = runnable();
        if (en)
            give(&thr[lowest(en)].token);
        else
        {
            for (int i = 0; i < nthr; ++i)
                if (thr[i].active && !thr[i].finished)
                    die("deadlock: a thread waits for ever");
            give(&parent_token);
        }
        take(&t->token); // released by the controller after it compared
        if (t->id == 0)
            give(&parent_token);
        else
            give(&parent_token);
    }
    return nullptr;
}
void start(int n)
{
    if (owner != getpid())
    {
        owner = getpid();
        nthr = 0;
    }
    while (nthr < n)
    {
        Thr& t = thr[nthr];
        if (!t.stack)
        {
            t.stack = static_cast<char*>(mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
            t.arena = static_cast<char*>(mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
            t.acc = static_cast<Access*>(mmap(nullptr, MAXACC * sizeof(Access), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
            if (t.stack == MAP_FAILED || t.arena == MAP_FAILED || t.acc == MAP_FAILED)
                abort();
        }
        t.stack_end = t.stack + STACK;
        t.arena_end = t.arena + ARENA;
        t.arena_pos = t.arena;
        t.id = nthr;
        t.token = 0;
        t.active = false;
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstack(&at, t.stack, STACK);
        if (pthread_create(&t.th, &at, body, &t))
            abort();
        pthread_attr_destroy(&at);
        ++nthr;
    }
}
// runs the jobs under the schedule in sh; results are handed to `look`
template <typename F>
void execute(const Job* jobs, int n, F look)
{
    start(n);
    sh->npoints = 0;
    for (int i = 0; i < nthr; ++i)
    {
        Thr& t = thr[i];
        t.active = i < n;
        t.finished = false;
        t.blocked = nullptr;
        t.points = t.acc_n = t.shared_writes = 0;
        if (t.arena_pos > t.arena + ARENA / 2)
            t.arena_pos = t.arena;
        memset(&t.vc, 0, sizeof t.vc);
        t.vc.c[i] = 1;
        if (i < n)
            t.job = jobs[i];
    }
    if (races)
    {
        in_rt = true;
        if (!cells)
        {
            cells = new std::map<uintptr_t, Cell>;
            syncs = new std::map<const void*, Clock>;
        }
        cells->clear();
        syncs->clear();
        in_rt = false;
    }
    give(&thr[0].token);
    take(&parent_token);
    ++sh->executions;
    for (int i = 0; i < n; ++i)
    {
        sh->points_of[i] = thr[i].points;
        sh->shared_writes += thr[i].shared_writes;
        thr[i].active = false;
    }
    look();
    for (int i = 0; i < n; ++i)
    {
        give(&thr[i].token);
        take(&parent_token);
    }
}
} // namespace rt

// ---- allocation
static void* rt_alloc(size_t n)
{
    rt::Thr* t = rt::self;
    if (t && t->active && !rt::in_rt)
    {
        n = (n + 31) & ~size_t(15);
        if (t->arena_pos + n > t->arena_end)
            abort();
        void* p = t->arena_pos + 0;
        t->arena_pos += n;
        return p;
    }
    void* p = malloc(n ? n : 1);
    if (!p)
        abort();
    return p;
}
static void rt_free(void* p)
{
    for (int i = 0; i < rt::MAXT; ++i)
        if (rt::thr[i].arena && p >= rt::thr[i].arena && p < rt::thr[i].arena_end)
            return;
    free(p);
}
void* operator new(size_t n) { return rt_alloc(n); }
void* operator new[](size_t n) { return rt_alloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return rt_alloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return rt_alloc(n); }
void operator delete(void* p) noexcept { rt_free(p); }
void operator delete[](void* p) noexcept { rt_free(p); }
void operator delete(void* p, size_t) noexcept { rt_free(p); }
void operator delete[](void* p, size_t) noexcept { rt_free(p); }

extern "C"
{
    void __tsan_init() {}
    void __tsan_func_entry(void*) {}
    void __tsan_func_exit() {}
    void __tsan_vptr_update(void** p, void*) { rt::access(uintptr_t(p), sizeof *p, true); }
    void __tsan_vptr_read(void** p) { rt::access(uintptr_t(p), sizeof *p, false); }
#define RW(n)                                                                  \
    void __tsan_read##n(void* p) { rt::access(uintptr_t(p), n, false); }       \
    void __tsan_write##n(void* p) { rt::access(uintptr_t(p), n, true); }       \
    void __tsan_unaligned_read##n(void* p) { rt::access(uintptr_t(p), n, false); } \
    void __tsan_unaligned_write##n(void* p) { rt::access(uintptr_t(p), n, true); } \
    void __tsan_volatile_read##n(void* p) { rt::access(uintptr_t(p), n, false); } \
    void __tsan_volatile_write##n(void* p) { rt::access(uintptr_t(p), n, true); } \
    void __tsan_unaligned_volatile_read##n(void* p) { rt::access(uintptr_t(p), n, false); } \
    void __tsan_unaligned_volatile_write##n(void* p) { rt::access(uintptr_t(p), n, true); } \
    void __tsan_read_write##n(void* p) { rt::access(uintptr_t(p), n, false); rt::access(uintptr_t(p), n, true); }
    RW(1) RW(2) RW(4) RW(8) RW(16)
    void __tsan_read_range(void* p, unsigned long n) { rt::access(uintptr_t(p), n, false); }
    void __tsan_write_range(void* p, unsigned long n) { rt::access(uintptr_t(p), n, true); }

#define ATOMIC(bits, type)                                                     \
    type __tsan_atomic##bits##_load(const volatile type* p, int)               \
    {                                                                          \
        rt::atomic_op(const_cast<const type*>(p), sizeof(type), false, false); \
        return __atomic_load_n(p, __ATOMIC_SEQ_CST);                           \
    }                                                                          \
    void __tsan_atomic##bits##_store(volatile type* p, type v, int)            \
    {                                                                          \
        rt::atomic_op(const_cast<const type*>(p), sizeof(type), true, false);  \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                              \
    }                                                                          \
    type __tsan_atomic##bits##_exchange(volatile type* p, type v, int)         \
    {                                                                          \
        rt::atomic_op(const_cast<const type*>(p), sizeof(type), true, true);   \
        return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                    \
    }                                                                          \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile type* p, type* e, type v, int, int) \
    {                                                                          \
        rt::atomic_op(const_cast<const type*>(p), sizeof(type), true, true);   \
        return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    }                                                                          \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile type* p, type* e, type v, int, int) \
    {                                                                          \
        rt::atomic_op(const_cast<const type*>(p), sizeof(type), true, true);   \
        return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    }                                                                          \
    type __tsan_atomic##bits##_compare_exchange_val(volatile type* p, type e, type v, int, int) \
    {                                                                          \
        rt::atomic_op(const_cast<const type*>(p), sizeof(type), true, true);   \
        __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        return e;                                                              \
    }
#define FETCH(bits, type, op)                                                  \
    type __tsan_atomic##bits##_fetch_##op(volatile type* p, type v, int)       \
    {                                                                          \
        rt::atomic_op(const_cast<const type*>(p), sizeof(type), true, true);   \
        return __atomic_fetch_##op(p, v, __ATOMIC_SEQ_CST);                    \
    }
#define ALLATOMIC(bits, type)                                                  \
    ATOMIC(bits, type)                                                         \
    FETCH(bits, type, add) FETCH(bits, type, sub) FETCH(bits, type, and)       \
    FETCH(bits, type, or) FETCH(bits, type, xor) FETCH(bits, type, nand)
    ALLATOMIC(8, uint8_t)
    ALLATOMIC(16, uint16_t)
    ALLATOMIC(32, uint32_t)
    ALLATOMIC(64, uint64_t)
    void __tsan_atomic_thread_fence(int) {}
    void __tsan_atomic_signal_fence(int) {}

    // library calls of the instrumented code (linked with --wrap)
    void* __real_memcpy(void*, const void*, size_t);
    void* __real_memmove(void*, const void*, size_t);
    void* __real_memset(void*, int, size_t);
    int __real_memcmp(const void*, const void*, size_t);
    void* __wrap_memcpy(void* d, const void* s, size_t n)
    {
        rt::access(uintptr_t(s), n, false);
        rt::access(uintptr_t(d), n, true);
        return __real_memcpy(d, s, n);
    }
    void* __wrap_memmove(void* d, const void* s, size_t n)
    {
        rt::access(uintptr_t(s), n, false);
        rt::access(uintptr_t(d), n, true);
        return __real_memmove(d, s, n);
    }
    void* __wrap_memset(void* d, int c, size_t n)
    {
        rt::access(uintptr_t(d), n, true);
        return __real_memset(d, c, n);
    }
    int __wrap_memcmp(const void* a, const void* b, size_t n)
    {
        rt::access(uintptr_t(a), n, false);
        rt::access(uintptr_t(b), n, false);
        return __real_memcmp(a, b, n);
    }

    // static initialisation
    int __real___cxa_guard_acquire(uint64_t*);
    void __real___cxa_guard_release(uint64_t*);
    void __real___cxa_guard_abort(uint64_t*);
    int __wrap___cxa_guard_acquire(uint64_t* g)
    {
        rt::Thr* t = rt::self;
        if (!t || !t->active)
            return __real___cxa_guard_acquire(g);
        char* b = reinterpret_cast<char*>(g);
        rt::point(t);
        for (;;)
        {
            if (b[0])
            {
                rt::acquire(t, g);
                return 0;
            }
            if (!b[1])
                break;
            rt::block(t, g);
        }
        b[1] = 1;
        return 1;
    }
    void __wrap___cxa_guard_release(uint64_t* g)
    {
        rt::Thr* t = rt::self;
        if (!t || !t->active)
            return __real___cxa_guard_release(g);
        rt::point(t);
        char* b = reinterpret_cast<char*>(g);
        b[1] = 0;
        b[0] = 1;
        rt::release(t, g);
        rt::unblock(g);
    }
    void __wrap___cxa_guard_abort(uint64_t* g)
    {
        rt::Thr* t = rt::self;
        if (!t || !t->active)
            return __real___cxa_guard_abort(g);
        reinterpret_cast<char*>(g)[1] = 0;
        rt::unblock(g);
    }

    // mutexes
    int __real_pthread_mutex_lock(pthread_mutex_t*);
    int __real_pthread_mutex_trylock(pthread_mutex_t*);
    int __real_pthread_mutex_unlock(pthread_mutex_t*);
    int __real_pthread_once(pthread_once_t*, void (*)());
    static struct
    {
        void* m;
        int by;
    } held[64];
    static int* holder(void* m)
    {
        for (int i = 0; i < 64; ++i)
        {
            if (held[i].m == m)
                return &held[i].by;
            if (!held[i].m)
            {
                held[i].m = m;
                held[i].by = -1;
                return &held[i].by;
            }
        }
        abort();
    }
    int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
    {
        rt::Thr* t = rt::self;
        if (!t || !t->active)
            return __real_pthread_mutex_lock(m);
        rt::point(t);
        int* h = holder(m);
        while (*h >= 0)
            rt::block(t, m);
        *h = t->id;
        rt::acquire(t, m);
        return 0;
    }
    int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
    {
        rt::Thr* t = rt::self;
        if (!t || !t->active)
            return __real_pthread_mutex_trylock(m);
        rt::point(t);
        int* h = holder(m);
        if (*h >= 0)
            return EBUSY;
        *h = t->id;
        rt::acquire(t, m);
        return 0;
    }
    int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
    {
        rt::Thr* t = rt::self;
        if (!t || !t->active)
            return __real_pthread_mutex_unlock(m);
        rt::point(t);
        *holder(m) = -1;
        rt::release(t, m);
        rt::unblock(m);
        return 0;
    }
    int __wrap_pthread_once(pthread_once_t* o, void (*f)())
    {
        rt::Thr* t = rt::self;
        if (!t || !t->active)
            return __real_pthread_once(o, f);
        rt::point(t);
        for (;;)
        {
            if (*o == 2)
            {
                rt::acquire(t, o);
                return 0;
            }
            if (*o == 0)
                break;
            rt::block(t, o);
        }
        *o = 1;
        f();
        rt::point(t);
        *o = 2;
        rt::release(t, o);
        rt::unblock(o);
        return 0;
    }
}

// ======================================================================
// scenarios
// ======================================================================
namespace
{
struct Inst
{
    const ops::Op* op;
    const char* type;
    int cat;
};
std::vector<Inst> insts;
std::vector<int> of_type[2], self_broken, self_correct;
int sets;
unsigned char* images[ops::MAX_CATALOGUES][16];
const char* const* set_names;
int self_cat;

struct Ref
{
    int n; // values, or -1
    int accesses, writes;
    char fail[200];
    long double v[Out::MAX];
};
Ref* refs;

std::string label(int k, int s)
{
    return std::string(insts[k].type) + " '" + insts[k].op->name + "' (" + set_names[s] + ")";
}
rt::Job job(int k, int s, int dirt)
{
    rt::Job j;
    j.op = insts[k].op;
    j.in = images[insts[k].cat][s];
    j.dirt = dirt;
    return j;
}

// runs f in a forked child; false if it died
template <typename F>
bool in_child(F f, int& status)
{
    rt::sh->done = 0;
    rt::sh->fail[0] = 0;
    rt::sh->shared_writes = 0;
    rt::sh->executions = 0;
    const pid_t p = fork();
    if (p < 0)
        mc::Ctx::fail_hard("fork");
    if (p == 0)
    {
        alarm(60);
        f();
        rt::sh->done = 1;
        _exit(0);
    }
    status = 0;
    while (waitpid(p, &status, 0) < 0 && errno == EINTR)
    {
    }
    return rt::sh->done != 0;
}
void map_shared()
{
    static pid_t mine = 0;
    if (mine == getpid())
        return;
    mine = getpid();
    rt::sh = static_cast<rt::Shared*>(mmap(nullptr, sizeof(rt::Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (rt::sh == MAP_FAILED)
        abort();
}

void prepare()
{
    const ops::All& a = ops::all();
    sets = a.c[0].sets;
    set_names = a.c[0].set_names;
    const size_t page = 4096;
    for (int c = 0; c < a.n; ++c)
    {
        const Catalogue& cat = a.c[c];
        for (int s = 0; s < sets; ++s)
        {
            const size_t len = (cat.in_size + page - 1) / page * page;
            unsigned char* p = static_cast<unsigned char*>(mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
            cat.build(p, s);
            mprotect(p, len, PROT_READ); // operands are shared and constant
            images[c][s] = p;
        }
        for (int k = 0; k < cat.count; ++k)
        {
            if (cat.ops[k].flags & ops::SKIP_SHARED)
                continue;
            of_type[strcmp(cat.type, "float") != 0].push_back(int(insts.size()));
            insts.push_back(Inst{&cat.ops[k], cat.type, c});
        }
    }
    self_cat = a.n;
    for (int s = 0; s < sets; ++s)
    {
        double* d = static_cast<double*>(mmap(nullptr, page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        for (int i = 0; i < 4; ++i)
            d[i] = 1 + s + i * 10;
        mprotect(d, page, PROT_READ);
        images[self_cat][s] = reinterpret_cast<unsigned char*>(d);
    }
    for (int k = 0; k < selftest::n_broken; ++k)
    {
        self_broken.push_back(int(insts.size()));
        insts.push_back(Inst{&selftest::broken[k], "selftest", self_cat});
    }
    for (int k = 0; k < selftest::n_correct; ++k)
    {
        self_correct.push_back(int(insts.size()));
        insts.push_back(Inst{&selftest::correct[k], "selftest", self_cat});
    }
    const size_t n = insts.size() * sets;
    refs = static_cast<Ref*>(mmap(nullptr, n * sizeof(Ref), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (refs == MAP_FAILED)
        abort();
    std::vector<pid_t> kids;
    for (int w = 0; w < 8; ++w)
    {
        const pid_t p = fork();
        if (p == 0)
        {
            map_shared();
            for (size_t j = w; j < n; j += 8)
            {
                Ref& r = refs[j];
                r.n = -1;
                int st;
                rt::sh->nchoices = 0;
                in_child([&] {
                    rt::recording = true;
                    const rt::Job jb = job(int(j / sets), int(j % sets), 0);
                    rt::execute(&jb, 1, [&] {
                        const Out& o = *rt::thr[0].out;
                        memcpy(r.v, o.v, sizeof(long double) * o.n);
                        r.accesses = rt::thr[0].points;
                        r.writes = rt::thr[0].shared_writes;
                        r.n = o.n;
                    });
                }, st);
                strncpy(r.fail, rt::sh->fail, sizeof r.fail - 1);
            }
            _exit(0);
        }
        kids.push_back(p);
    }
    for (pid_t p : kids)
    {
        int st;
        waitpid(p, &st, 0);
    }
}

std::string compare(int k, int s, const Out& o)
{
    const Ref& r = refs[k * sets + s];
    std::ostringstream m;
    m.precision(17);
    if (o.n != r.n)
    {
        m << label(k, s) << " produced " << o.n << " values, alone " << r.n;
        return m.str();
    }
    for (int i = 0; i < o.n; ++i)
        if (!Out::same(o.v[i], r.v[i]))
        {
            m << label(k, s) << ": value " << i << " is " << o.v[i] << ", run alone " << r.v[i];
            return m.str();
        }
    return "";
}
struct Part
{
    int k, s;
};
// compares all results of the execution that just ended
void compare_all(const std::vector<Part>& p, const char* how)
{
    for (size_t i = 0; i < p.size(); ++i)
    {
        const std::string m = compare(p[i].k, p[i].s, *rt::thr[i].out);
        if (!m.empty())
        {
            snprintf(rt::sh->fail, sizeof rt::sh->fail, "%s %s", m.c_str(), how);
            rt::die(rt::sh->fail);
        }
    }
}
std::string text(const std::vector<Part>& p)
{
    std::string t;
    for (size_t i = 0; i < p.size(); ++i)
        t += (i ? " || " : "") + label(p[i].k, p[i].s);
    return t;
}
void finish(Ctx& c, bool ok, int st, const std::vector<Part>& p)
{
    std::ostringstream m;
    if (ok && rt::sh->fail[0])
        m << rt::sh->fail;
    else if (!ok)
        m << "the process died (status " << st
          << (WIFSIGNALED(st) && WTERMSIG(st) == SIGSEGV ? ", e.g. a write to the constant operands" : "") << ")";
    CHK(c, m.str().empty(), m.str() << "; threads: " << text(p) << "; schedule of length " << rt::sh->npoints);
}

// all interleavings of conflicting accesses, each in a fresh process
long explore(Ctx& c, const std::vector<Part>& p, int bound)
{
    const int n = int(p.size());
    std::vector<rt::Job> jobs;
    for (int i = 0; i < n; ++i)
        jobs.push_back(job(p[i].k, p[i].s, i));
    // granules any thread touches while some thread writes them
    std::vector<uintptr_t> conf;
    long total = 0;
    for (int round = 0; round < 6; ++round)
    {
        rt::ngranules = 0;
        for (uintptr_t g : conf)
            if (rt::ngranules < int(rt::MAXGRAN))
                rt::granules[rt::ngranules++] = g;
        std::vector<uint8_t> prefix;
        bool grew = false;
        for (;;)
        {
            rt::sh->nchoices = int(prefix.size());
            for (size_t i = 0; i < prefix.size(); ++i)
                rt::sh->choices[i] = prefix[i];
            rt::sh->nconf = 0;
            int st;
            const bool ok = in_child([&] {
                rt::mode = rt::CONFLICT;
                rt::recording = true;
                rt::races = true;
                rt::execute(jobs.data(), n, [&] {
                    // newly met conflicts
                    std::map<uintptr_t, int> w, r; // granule -> thread mask
                    for (int i = 0; i < n; ++i)
                        for (int q = 0; q < rt::thr[i].acc_n; ++q)
                        {
                            const rt::Access& x = rt::thr[i].acc[q];
                            for (uintptr_t g = x.a >> 3; g <= (x.a + x.size - 1) >> 3; ++g)
                                (x.write ? w : r)[g] |= 1 << i;
                        }
                    for (auto& e : w)
                    {
                        int mask = e.second;
                        auto f = r.find(e.first);
                        if (f != r.end())
                            mask |= f->second;
                        // memory of a thread's own stack or arena that
                        // another thread writes is in conflict too
                        bool foreign = false;
                        for (int i = 0; i < n; ++i)
                            foreign = foreign || rt::own(&rt::thr[i], e.first << 3);
                        if (((mask & (mask - 1)) || foreign) && rt::sh->nconf < 256)
                            rt::sh->conf[rt::sh->nconf++] = e.first;
                    }
                    for (auto& e : r)
                    {
                        bool foreign = false;
                        for (int i = 0; i < n; ++i)
                            foreign = foreign || rt::own(&rt::thr[i], e.first << 3);
                        if (foreign && rt::sh->nconf < 256)
                            rt::sh->conf[rt::sh->nconf++] = e.first;
                    }
                    compare_all(p, "under an interleaving of conflicting accesses");
                });
            }, st);
            ++total;
            c.step(rt::sh->npoints + 1);
            finish(c, ok, st, p);
            for (int i = 0; i < rt::sh->nconf; ++i)
            {
                const uintptr_t g = rt::sh->conf[i];
                auto at = std::lower_bound(conf.begin(), conf.end(), g);
                if (at == conf.end() || *at != g)
                {
                    conf.insert(at, g);
                    grew = true;
                }
            }
            if (grew)
                break; // start again with the larger conflict set
            // next schedule within the preemption bound
            int np = rt::sh->npoints;
            std::vector<uint8_t> chosen(rt::sh->chosen, rt::sh->chosen + np);
            bool found = false;
            while (np > 0 && !found)
            {
                const int k = np - 1;
                int pre = 0;
                for (int i = 0; i < k; ++i)
                    pre += chosen[i] != rt::sh->before[i];
                // the order of alternatives: the running thread first
                std::vector<int> alt;
                alt.push_back(rt::sh->before[k]);
                for (int t = 0; t < n; ++t)
                    if (t != rt::sh->before[k] && (rt::sh->enabled[k] >> t & 1))
                        alt.push_back(t);
                size_t at = 0;
                while (at < alt.size() && alt[at] != chosen[k])
                    ++at;
                if (at + 1 < alt.size() && pre + 1 <= bound)
                {
                    prefix.assign(chosen.begin(), chosen.begin() + k);
                    prefix.push_back(uint8_t(alt[at + 1]));
                    found = true;
                }
                --np;
            }
            if (!found)
                return total;
            if (total > 20000)
                return total;
        }
    }
    return total;
}

// one preemption (two with `twice`) at every shared access, one process
void preempt(Ctx& c, const std::vector<Part>& p, bool twice, bool always_explore)
{
    const int n = int(p.size());
    std::vector<rt::Job> jobs;
    for (int i = 0; i < n; ++i)
    {
        const Ref& r = refs[p[i].k * sets + p[i].s];
        CHK(c, r.n >= 0, label(p[i].k, p[i].s) << " does not finish when run alone: " << r.fail);
        jobs.push_back(job(p[i].k, p[i].s, 1 + i));
    }
    int st;
    long execs = 0;
    const bool ok = in_child([&] {
        rt::mode = rt::COUNT;
        int limit = refs[p[0].k * sets + p[0].s].accesses;
        const int limit1 = twice ? refs[p[1].k * sets + p[1].s].accesses : 0;
        for (int i = 0; i <= limit; ++i)
            for (int j = 0; j <= limit1; ++j)
            {
                // thread 0 up to access i, thread 1 up to its access j, ...
                int m = 0;
                const int room = rt::MAXPOINTS - 2;
                for (int q = 0; q < i && m < room; ++q)
                    rt::sh->choices[m++] = 0;
                if (i < limit && m < room)
                    rt::sh->choices[m++] = 1;
                if (twice && i < limit)
                {
                    // the first access of thread 1 is its own decision point
                    for (int q = 0; q < j && m < room; ++q)
                        rt::sh->choices[m++] = 1;
                    if (j < limit1 && m < room)
                        rt::sh->choices[m++] = 0;
                }
                if (rt::sh->shared_writes)
                    m = 0; // counts may differ now; explored separately
                rt::sh->nchoices = m;
                rt::execute(jobs.data(), n, [&] { compare_all(p, "with one preemption"); });
                if (rt::sh->shared_writes)
                    return;
                if (rt::sh->points_of[0] > limit)
                    limit = rt::sh->points_of[0];
                if (i == limit)
                    break;
            }
    }, st);
    execs = rt::sh->executions;
    c.step(int(execs));
    const bool wrote = rt::sh->shared_writes || refs[p[0].k * sets + p[0].s].writes;
    finish(c, ok, st, p);
    for (size_t i = 0; i < p.size(); ++i)
        c.outcome(mc::hash_bytes(&p[i], sizeof p[i]));
    uint64_t h = 0;
    for (size_t i = 0; i < p.size(); ++i)
        h = mc::hash_bytes(&p[i], sizeof p[i], h);
    c.state(h);
    if (wrote || always_explore)
    {
        const long e = explore(c, p, c.thorough() ? 3 : 2);
        NOTE(c, "explored " << e << " interleavings of conflicting accesses");
    }
}

void pairs(Ctx& c, const std::vector<int>& first, const std::vector<int>& second, bool all_sets)
{
    map_shared();
    std::vector<Part> p(2);
    p[0].k = first[c.choose(int(first.size()))];
    p[1].k = second[c.choose(int(second.size()))];
    p[0].s = 2;
    p[1].s = 1;
    if (all_sets)
    {
        p[0].s = c.choose(sets);
        p[1].s = c.choose(sets);
    }
    NOTE(c, text(p));
    preempt(c, p, false, false);
}
void same_op(Ctx& c, const std::vector<int>& v)
{
    map_shared();
    std::vector<Part> p(2);
    p[0].k = p[1].k = v[c.choose(int(v.size()))];
    p[0].s = c.choose(sets);
    p[1].s = c.choose(sets);
    NOTE(c, text(p));
    preempt(c, p, false, true);
}
void twice(Ctx& c, const std::vector<int>& v)
{
    map_shared();
    std::vector<Part> p(2);
    p[0].k = v[c.choose(int(v.size()))];
    p[1].k = v[c.choose(int(v.size()))];
    p[0].s = 2;
    p[1].s = 1;
    NOTE(c, text(p));
    preempt(c, p, true, false);
}
void three(Ctx& c, const std::vector<int>& v)
{
    map_shared();
    std::vector<Part> p(3);
    p[0].k = v[c.choose(int(v.size()))];
    p[1].k = v[c.choose(int(v.size()))];
    p[2].k = v[c.choose(int(v.size()))];
    p[0].s = 2;
    p[1].s = 1;
    p[2].s = 0;
    NOTE(c, text(p));
    // thread 0 to the middle, thread 1 to its middle, thread 2 whole
    std::vector<rt::Job> jobs;
    for (int i = 0; i < 3; ++i)
        jobs.push_back(job(p[i].k, p[i].s, 1 + i));
    int st;
    const bool ok = in_child([&] {
        rt::mode = rt::COUNT;
        const int l0 = refs[p[0].k * sets + p[0].s].accesses / 2, l1 = refs[p[1].k * sets + p[1].s].accesses / 2;
        int m = 0;
        for (int q = 0; q < l0 && m < rt::MAXPOINTS; ++q)
            rt::sh->choices[m++] = 0;
        if (l0 && m < rt::MAXPOINTS)
        {
            rt::sh->choices[m++] = 1;
            for (int q = 0; q < l1 && m < rt::MAXPOINTS; ++q)
                rt::sh->choices[m++] = 1;
            if (l1 && m < rt::MAXPOINTS)
                rt::sh->choices[m++] = 2;
        }
        rt::sh->nchoices = m;
        rt::execute(jobs.data(), 3, [&] { compare_all(p, "with three threads"); });
    }, st);
    c.step(int(rt::sh->executions));
    const bool wrote = rt::sh->shared_writes != 0;
    finish(c, ok, st, p);
    if (wrote)
        explore(c, p, 2);
    uint64_t h = 3;
    for (size_t i = 0; i < p.size(); ++i)
        h = mc::hash_bytes(&p[i], sizeof p[i], h);
    c.state(h);
}
// the machinery itself: broken operations must be reported, correct ones not
void selftest_(Ctx& c, bool broken)
{
    map_shared();
    const std::vector<int>& v = broken ? self_broken : self_correct;
    std::vector<Part> p(2);
    p[0].k = p[1].k = v[c.choose(int(v.size()))];
    p[0].s = 2;
    p[1].s = 1;
    NOTE(c, text(p));
    bool reported = false;
    std::string what;
    try
    {
        preempt(c, p, false, true);
    }
    catch (const mc::Failure& f)
    {
        reported = true;
        what = f.msg;
    }
    NOTE(c, "reported: " << what);
    if (reported != broken)
    {
        fprintf(stderr, "C25 self-test: '%s' %s: %s\n", insts[p[0].k].op->name, broken ? "was not reported" : "was reported", what.c_str());
        mc::Ctx::fail_hard("C25 self-test failed");
    }
}
} // namespace

int main(int argc, char** argv)
{
    prepare();
    mc::add("selftest_broken", [](Ctx& c) { selftest_(c, true); }, "known races must be found");
    mc::add("selftest_correct", [](Ctx& c) { selftest_(c, false); }, "known correct synchronisation must be accepted");
    for (int t = 0; t < 2; ++t)
    {
        const std::string n = t ? "double" : "float";
        mc::add("same_" + n, [t](Ctx& c) { same_op(c, of_type[t]); }, "each operation against itself, all operand set pairs, all interleavings of conflicts");
        mc::add("pairs_" + n, [t](Ctx& c) { pairs(c, of_type[t], of_type[t], false); }, "all ordered pairs, one preemption at every shared access");
        mc::add("mixed_" + n, [t](Ctx& c) { pairs(c, of_type[t], of_type[1 - t], false); }, "pairs across element types", 1);
        mc::add("sets_" + n, [t](Ctx& c) { pairs(c, of_type[t], of_type[t], true); }, "all pairs with all operand sets", 1);
        mc::add("twice_" + n, [t](Ctx& c) { twice(c, of_type[t]); }, "all pairs, two preemptions at every pair of shared accesses", 1);
        mc::add("three_" + n, [t](Ctx& c) { three(c, of_type[t]); }, "all triples", 1);
    }
    return mc::main(argc, argv);
}
