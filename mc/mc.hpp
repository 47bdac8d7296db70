// A small stateless model checker for real C++ code.
//
// A scenario is a function that asks its Ctx for choices (operation, operand,
// environment answer, deviation from a default) and drives the *real* vmmlib
// code with them, comparing every step with a reference model.  The explorer
// re-executes the scenario for EVERY sequence of choices (depth-first), on 8
// forked workers that shard the choice tree by prefix.  State hashing
// (visit/seen) prunes re-reached states: key = canonical object+model state
// plus remaining depth, so a pruned subtree has been (or is being) explored
// from an identical state.
//
// A failing execution is identified by its choice vector; the parent process
// confirms it by replaying it in a fresh process before it is reported.
#ifndef VERIF_MC_HPP
#define VERIF_MC_HPP

#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define MC_NOINLINE __attribute__((noinline))

namespace mc
{
// ------------------------------------------------------------------ hashing
inline uint64_t mix64(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 0x1234567)
{
    const unsigned char* b = static_cast<const unsigned char*>(p);
    while (n >= 8)
    {
        uint64_t v;
        memcpy(&v, b, 8);
        h = mix64(h ^ v);
        b += 8;
        n -= 8;
    }
    uint64_t v = n;
    for (size_t i = 0; i < n; ++i)
        v = (v << 8) | b[i];
    return mix64(h ^ v);
}
template <typename T>
uint64_t hash_val(const T& v, uint64_t h = 0x1234567)
{
    static_assert(std::is_arithmetic<T>::value || std::is_enum<T>::value,
                  "hash_val takes scalars");
    return hash_bytes(&v, sizeof(T), h);
}
template <typename It>
uint64_t hash_range(It b, It e, uint64_t h = 0x1234567)
{
    for (; b != e; ++b)
        h = hash_val(*b, h);
    return h;
}

// ------------------------------------------------------------- shared memory
static const int MAX_WORKERS = 16;
static const int MAX_CHOICES = 4096;
static const int MAX_KEYS = 64;
static const int KEYLEN = 96;
static const int MSGLEN = 3000;
static const int RING = 64; // remembered executions per worker

struct Exec
{
    int n;
    uint16_t ch[512];
};

struct WorkerShm
{
    volatile int n;                      // current choice vector
    volatile uint16_t ch[MAX_CHOICES];
    std::atomic<uint64_t> beat;          // executions started
    volatile int failed;                 // 0 none, 1 check, 2 exception
    volatile int diverged;
    char msg[MSGLEN];
    Exec ring[RING];
    uint64_t ring_pos;
    Exec samples[3];
    int n_samples;
};

struct KeyHit
{
    std::atomic<int> state; // 0 free, 1 being filled, 2 ready
    char key[KEYLEN];
    char msg[MSGLEN / 3];
    Exec exec;
    std::atomic<uint64_t> count;
};

struct Shm
{
    std::atomic<uint64_t> executions, complete, pruned, checks, steps, states,
        outcomes;
    std::atomic<int> stop, capped, table_full;
    WorkerShm w[MAX_WORKERS];
    KeyHit keys[MAX_KEYS];
};

class HashSet
{
public:
    HashSet() : _tab(nullptr), _bits(0), _count(nullptr), _full(nullptr) {}
    void open(int bits, std::atomic<uint64_t>* count, std::atomic<int>* full)
    {
        _bits = bits;
        _tab = static_cast<std::atomic<uint64_t>*>(
            mmap(nullptr, size_t(8) << bits, PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        if (_tab == MAP_FAILED)
        {
            perror("mmap");
            _exit(2);
        }
        _count = count;
        _full = full;
    }
    void close()
    {
        if (_tab)
            munmap(static_cast<void*>(_tab), size_t(8) << _bits);
        _tab = nullptr;
    }
    // true: newly inserted (or table full: nothing is ever pruned then)
    bool insert(uint64_t h)
    {
        if (h == 0)
            h = 1;
        const uint64_t mask = (uint64_t(1) << _bits) - 1;
        uint64_t i = mix64(h) & mask;
        for (int probes = 0; probes < 512; ++probes, i = (i + 1) & mask)
        {
            uint64_t cur = _tab[i].load(std::memory_order_relaxed);
            if (cur == h)
                return false;
            if (cur == 0)
            {
                if (_tab[i].compare_exchange_strong(cur, h))
                {
                    _count->fetch_add(1, std::memory_order_relaxed);
                    return true;
                }
                if (cur == h)
                    return false;
            }
        }
        _full->store(1);
        return true;
    }

private:
    std::atomic<uint64_t>* _tab;
    int _bits;
    std::atomic<uint64_t>* _count;
    std::atomic<int>* _full;
};

struct Prune {};
struct Skip {};
struct Failure
{
    std::string msg;
};

struct Options
{
    int tier; // 0 quick, 1 thorough
    int workers;
    double budget; // seconds per scenario; 0: none
    std::string filter, out, scratch;
    Options() : tier(0), workers(8), budget(0) {}
};
inline Options& options()
{
    static Options o;
    return o;
}

// ------------------------------------------------------------------- context
class Ctx
{
public:
    Ctx()
        : shm(nullptr), me(nullptr), replaying(false), notes_on(false),
          worker(0), workers(1), _pos(0), _len(0), _budget(0), _product(1),
          _sharded(false), _prefix(0), _fresh_from(0), l_checks(0), l_steps(0)
    {
    }

    // -- choices ----------------------------------------------------------
    int choose(int n)
    {
        if (n <= 0)
            fail_hard("choose(0)");
        if (n > 65535)
            fail_hard("choose: alphabet too large");
        int v;
        if (_pos < _len)
        {
            v = _ch[_pos];
            if (replaying)
            {
                _n[_pos] = n;
                if (v >= n)
                    fail_hard("replayed choice out of range");
            }
            else if (_n[_pos] != n)
                fail_hard("divergence while re-executing a prefix");
        }
        else
        {
            if (_len >= MAX_CHOICES)
                fail_hard("choice stack overflow");
            v = 0;
            _ch[_len] = 0;
            _n[_len] = n;
            ++_len;
            if (me)
            {
                me->ch[_pos] = 0;
                me->n = _len;
            }
        }
        ++_pos;
        _product *= double(n);
        if (!_sharded && _product >= 256.)
            shard();
        return v;
    }
    // Deviation from the default answer 0; costs one unit of the budget set
    // with deviations(k).  Enumerates every combination of at most k
    // deviations (Hamming ball).
    void deviations(int k) { _budget = k; }
    int dev(int n)
    {
        const int v = choose(_budget > 0 ? n : 1);
        if (v)
            --_budget;
        return v;
    }
    int budget_left() const { return _budget; }
    template <typename T, size_t N>
    const T& pick(const T (&a)[N])
    {
        return a[choose(int(N))];
    }
    template <typename T>
    const T& pick(const std::vector<T>& a)
    {
        return a[choose(int(a.size()))];
    }
    bool flip() { return choose(2) != 0; }
    int tier() const { return options().tier; }
    bool thorough() const { return options().tier > 0; }

    // -- states -----------------------------------------------------------
    // count a distinct state
    void state(uint64_t h)
    {
        if (states)
            states->insert(mix64(h));
    }
    // prune when the (state, remaining depth) has been reached before.  Only
    // valid when the future depends on h alone.
    void visit(uint64_t h, int remaining)
    {
        // never before the shard point: all workers must see the same prefixes
        if (!states || !_sharded)
            return;
        const uint64_t k =
            mix64(mix64(h) + 0x51ed270b * uint64_t(remaining + 1));
        // A prefix that is being re-executed has been inserted by ourselves.
        if (_pos < _fresh_from)
            return;
        if (!states->insert(k) && !replaying)
            throw Prune();
    }
    void outcome(uint64_t h)
    {
        if (outs)
            outs->insert(mix64(h));
    }
    void step(int n = 1) { l_steps += n; }

    // -- oracle -----------------------------------------------------------
    void checked() { ++l_checks; }
    void fail(const std::string& m) { throw Failure{m}; }
    // keyed failure: does not stop the execution; the driver decides whether
    // the key is a listed known finding or a violation.
    void key_fail(const std::string& key, const std::string& m)
    {
        if (replaying)
        {
            key_hits.push_back(key);
            if (notes_on)
                log.push_back("KEY " + key + ": " + m);
        }
        if (!shm)
            return;
        for (int i = 0; i < MAX_KEYS; ++i)
        {
            KeyHit& k = shm->keys[i];
            int s = 0;
            if (k.state.compare_exchange_strong(s, 1))
            {
                snprintf(k.key, KEYLEN, "%s", key.c_str());
                snprintf(k.msg, sizeof(k.msg), "%s", m.c_str());
                k.exec.n = _len < 512 ? _len : 512;
                for (int j = 0; j < k.exec.n; ++j)
                    k.exec.ch[j] = uint16_t(_ch[j]);
                k.count = 1;
                k.state = 2;
                return;
            }
            while (k.state.load() == 1)
                ;
            if (strncmp(k.key, key.c_str(), KEYLEN - 1) == 0)
            {
                k.count.fetch_add(1);
                return;
            }
        }
        fail("too many distinct finding keys; last: " + key + ": " + m);
    }
    void note(const std::string& s)
    {
        if (notes_on && log.size() < 400)
            log.push_back(s);
    }
    static void fail_hard(const char* m)
    {
        fprintf(stderr, "mc: harness error: %s\n", m);
        fflush(stderr);
        _exit(3);
    }

    // -- explorer internals -------------------------------------------------
    void begin()
    {
        _pos = 0;
        _budget = 0;
        _product = 1;
        _sharded = workers <= 1;
        if (me)
        {
            me->n = _len;
            me->beat.fetch_add(1, std::memory_order_relaxed);
        }
    }
    // after an execution: move to the next leaf; false when done
    bool next()
    {
        int len = _pos < _len ? _pos : _len;
        while (len > 0 && _ch[len - 1] + 1 >= _n[len - 1])
            --len;
        if (len == 0)
            return false;
        ++_ch[len - 1];
        _len = len;
        _fresh_from = len;
        if (me)
        {
            me->ch[len - 1] = uint16_t(_ch[len - 1]);
            me->n = len;
        }
        return true;
    }
    // An execution that never reached the shard point is run by every worker
    // and counted by the one its number selects.
    bool owns()
    {
        if (_sharded)
            return true;
        const bool mine = int(_prefix % workers) == worker;
        ++_prefix;
        return mine;
    }
    void load(const std::vector<int>& v)
    {
        _len = int(v.size());
        for (int i = 0; i < _len; ++i)
        {
            _ch[i] = v[i];
            _n[i] = 0;
        }
        if (me)
        {
            for (int i = 0; i < _len; ++i)
                me->ch[i] = uint16_t(v[i]);
            me->n = _len;
        }
    }
    int length() const { return _pos; }
    int choice(int i) const { return _ch[i]; }
    void flush()
    {
        if (!shm)
            return;
        shm->checks.fetch_add(l_checks, std::memory_order_relaxed);
        shm->steps.fetch_add(l_steps, std::memory_order_relaxed);
        l_checks = l_steps = 0;
    }

    Shm* shm;
    WorkerShm* me;
    HashSet* states = nullptr;
    HashSet* outs = nullptr;
    bool replaying, notes_on;
    int worker, workers;
    std::vector<std::string> log;
    std::vector<std::string> key_hits;

private:
    void shard()
    {
        _sharded = true;
        // The decision is made once per distinct prefix, when it is first
        // reached; re-executions below it are ours by construction.
        if (_pos < _fresh_from)
            return;
        const bool mine = int(_prefix % workers) == worker;
        ++_prefix;
        if (!mine)
            throw Skip();
    }

    int _ch[MAX_CHOICES];
    int _n[MAX_CHOICES];
    int _pos, _len, _budget;
    double _product;
    bool _sharded;
    uint64_t _prefix;
    int _fresh_from;

public:
    uint64_t l_checks, l_steps;
};

// ------------------------------------------------------------------ registry
struct Scenario
{
    std::string name;
    std::function<void(Ctx&)> fn;
    std::string about;
    int min_tier;
};
inline std::vector<Scenario>& scenarios()
{
    static std::vector<Scenario> s;
    return s;
}
struct Reg
{
    Reg(const char* name, void (*fn)(Ctx&), const char* about = "",
        int min_tier = 0)
    {
        scenarios().push_back(Scenario{name, fn, about, min_tier});
    }
};
inline void add(const std::string& name, std::function<void(Ctx&)> fn,
                const std::string& about = "", int min_tier = 0)
{
    scenarios().push_back(Scenario{name, fn, about, min_tier});
}

#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define SCENARIO(name, about)                                                  \
    static void name(mc::Ctx& c);                                              \
    static mc::Reg MC_CAT(reg_, name)(#name, name, about);                     \
    static void name(mc::Ctx& c)
#define SCENARIO_THOROUGH(name, about)                                         \
    static void name(mc::Ctx& c);                                              \
    static mc::Reg MC_CAT(reg_, name)(#name, name, about, 1);                  \
    static void name(mc::Ctx& c)
#define REGISTER_BLOCK(tag)                                                    \
    static void MC_CAT(block_, tag)();                                         \
    static struct MC_CAT(Block_, tag)                                          \
    {                                                                          \
        MC_CAT(Block_, tag)() { MC_CAT(block_, tag)(); }                       \
    } MC_CAT(block_obj_, tag);                                                 \
    static void MC_CAT(block_, tag)()

#define CHK(c, cond, msg)                                                      \
    do                                                                         \
    {                                                                          \
        (c).checked();                                                         \
        if (!(cond))                                                           \
        {                                                                      \
            std::ostringstream mc_os_;                                         \
            mc_os_.precision(17);                                              \
            mc_os_ << __FILE__ << ":" << __LINE__ << ": " << msg;              \
            (c).fail(mc_os_.str());                                            \
        }                                                                      \
    } while (0)
#define CHK_KEY(c, cond, key, msg)                                             \
    do                                                                         \
    {                                                                          \
        (c).checked();                                                         \
        if (!(cond))                                                           \
        {                                                                      \
            std::ostringstream mc_os_;                                         \
            mc_os_.precision(17);                                              \
            mc_os_ << msg;                                                     \
            (c).key_fail(key, mc_os_.str());                                   \
        }                                                                      \
    } while (0)
#define NOTE(c, msg)                                                           \
    do                                                                         \
    {                                                                          \
        if ((c).notes_on)                                                      \
        {                                                                      \
            std::ostringstream mc_os_;                                         \
            mc_os_.precision(17);                                              \
            mc_os_ << msg;                                                     \
            (c).note(mc_os_.str());                                            \
        }                                                                      \
    } while (0)

// ---------------------------------------------------------------- JSON output
inline std::string jstr(const std::string& s)
{
    std::string o = "\"";
    for (size_t i = 0; i < s.size(); ++i)
    {
        const unsigned char ch = s[i];
        if (ch == '"' || ch == '\\')
        {
            o += '\\';
            o += char(ch);
        }
        else if (ch < 0x20 || ch >= 0x7f)
        {
            char buf[8];
            snprintf(buf, sizeof buf, "\\u%04x", ch);
            o += buf;
        }
        else
            o += char(ch);
    }
    return o + "\"";
}
inline double now()
{
    return std::chrono::duration<double>(
               std::chrono::steady_clock::now().time_since_epoch())
        .count();
}

// ------------------------------------------------------------------ execution
struct RunResult
{
    int failed; // 0 ok, 1 check failure, 2 unexpected exception
    std::string msg;
};
inline RunResult run_once(const Scenario& s, Ctx& c)
{
    RunResult r{0, ""};
    try
    {
        s.fn(c);
    }
    catch (const Failure& f)
    {
        r.failed = 1;
        r.msg = f.msg;
    }
    catch (const Prune&)
    {
        r.failed = -1;
    }
    catch (const Skip&)
    {
        r.failed = -2;
    }
    catch (const std::exception& e)
    {
        r.failed = 2;
        r.msg = std::string("unexpected exception: ") + e.what();
    }
    catch (...)
    {
        r.failed = 2;
        r.msg = "unexpected exception of unknown type";
    }
    return r;
}

inline void save_exec(Exec& e, const Ctx& c)
{
    e.n = c.length() < 512 ? c.length() : 512;
    for (int i = 0; i < e.n; ++i)
        e.ch[i] = uint16_t(c.choice(i));
}

inline void worker_main(const Scenario& s, Shm* shm, HashSet& st, HashSet& ou,
                        int w, int W, double deadline)
{
    static Ctx c; // large
    c.shm = shm;
    c.me = &shm->w[w];
    c.states = &st;
    c.outs = &ou;
    c.worker = w;
    c.workers = W;
    uint64_t execs = 0, complete = 0, pruned = 0, next_sample = 1, loops = 0;
    bool more = true;
    while (more)
    {
        if (shm->stop.load(std::memory_order_relaxed))
            break;
        c.begin();
        const uint64_t checks0 = c.l_checks, steps0 = c.l_steps;
        RunResult r = run_once(s, c);
        if (r.failed != -2)
        {
            if (r.failed == -1)
            {
                ++pruned;
                ++execs;
            }
            else if (c.owns())
            {
                ++complete;
                ++execs;
            }
            else
            {
                c.l_checks = checks0;
                c.l_steps = steps0;
            }
            if (c.length() <= 512)
                save_exec(c.me->ring[c.me->ring_pos++ % RING], c);
            if (r.failed == 0 && execs >= next_sample &&
                c.me->n_samples < 1000000)
            {
                // first, then ever later executions (powers of 7)
                save_exec(c.me->samples[c.me->n_samples < 3
                                            ? c.me->n_samples
                                            : 1 + (c.me->n_samples & 1)],
                          c);
                ++c.me->n_samples;
                next_sample *= 7;
            }
        }
        if (r.failed > 0)
        {
            c.me->failed = r.failed;
            snprintf(c.me->msg, MSGLEN, "%s", r.msg.c_str());
            c.me->n = c.length();
            shm->stop = 1;
            break;
        }
        if ((++loops & 0x3f) == 0)
        {
            c.flush();
            if (deadline > 0 && now() > deadline)
            {
                shm->capped = 1;
                break;
            }
        }
        more = c.next();
    }
    c.flush();
    shm->executions.fetch_add(execs);
    shm->complete.fetch_add(complete);
    shm->pruned.fetch_add(pruned);
}

typedef std::vector<std::vector<int>> History;

// Replay a history of executions in a fresh process. Returns 0 ok, 1 failed
// (msg filled), 2 hang.
inline int replay(const Scenario& s, const History& h, std::string& msg,
                  std::vector<std::string>& log, double limit,
                  bool want_notes = true)
{
    int fd[2];
    if (pipe(fd))
        return 0;
    fflush(stdout);
    fflush(stderr);
    const pid_t pid = fork();
    if (pid == 0)
    {
        close(fd[0]);
        static Ctx c;
        c.replaying = true;
        RunResult r{0, ""};
        for (size_t i = 0; i < h.size(); ++i)
        {
            c.notes_on = want_notes && i + 1 == h.size();
            c.key_hits.clear();
            c.load(h[i]);
            if (c.notes_on)
            {
                // notes up to a crash are written as they come
            }
            c.begin();
            r = run_once(s, c);
            if (r.failed > 0)
                break;
        }
        std::string out = r.failed > 0 ? "F" : "O";
        out += r.msg;
        out += '\x1e';
        for (size_t i = 0; i < c.log.size(); ++i)
            out += c.log[i] + '\x1f';
        size_t off = 0;
        while (off < out.size())
        {
            ssize_t k = write(fd[1], out.data() + off, out.size() - off);
            if (k <= 0)
                break;
            off += size_t(k);
        }
        _exit(0);
    }
    close(fd[1]);
    fcntl(fd[0], F_SETFL, O_NONBLOCK);
    std::string out;
    const double t0 = now();
    int status = 0;
    bool hung = false;
    for (;;)
    {
        char buf[4096];
        ssize_t k;
        while ((k = read(fd[0], buf, sizeof buf)) > 0)
            out.append(buf, size_t(k));
        const pid_t p = waitpid(pid, &status, WNOHANG);
        if (p == pid)
        {
            while ((k = read(fd[0], buf, sizeof buf)) > 0)
                out.append(buf, size_t(k));
            break;
        }
        if (now() - t0 > limit)
        {
            kill(pid, SIGKILL);
            waitpid(pid, &status, 0);
            hung = true;
            break;
        }
        usleep(1000);
    }
    close(fd[0]);
    if (hung)
    {
        msg = "does not terminate";
        return 2;
    }
    if (!out.empty() && WIFEXITED(status) && WEXITSTATUS(status) == 0)
    {
        const size_t sep = out.find('\x1e');
        msg = out.substr(1, sep - 1);
        std::string rest = sep == std::string::npos ? "" : out.substr(sep + 1);
        size_t b = 0, e;
        while ((e = rest.find('\x1f', b)) != std::string::npos)
        {
            log.push_back(rest.substr(b, e - b));
            b = e + 1;
        }
        return out[0] == 'F' ? 1 : 0;
    }
    if (WIFEXITED(status) && WEXITSTATUS(status) == 3)
        Ctx::fail_hard("replay diverged");
    std::ostringstream os;
    if (WIFSIGNALED(status))
        os << "process died with signal " << WTERMSIG(status);
    else
        os << "process exited with status " << WEXITSTATUS(status)
           << " (sanitizer report on stderr)";
    msg = os.str();
    return 1;
}

inline std::string jchoices(const std::vector<int>& v)
{
    std::ostringstream os;
    os << "[";
    for (size_t i = 0; i < v.size(); ++i)
        os << (i ? "," : "") << v[i];
    os << "]";
    return os.str();
}
inline std::string jhistory(const History& h)
{
    std::string s = "[";
    for (size_t i = 0; i < h.size(); ++i)
        s += (i ? "," : "") + jchoices(h[i]);
    return s + "]";
}
inline std::string jlog(const std::vector<std::string>& l)
{
    std::string s = "[";
    for (size_t i = 0; i < l.size(); ++i)
        s += (i ? "," : "") + jstr(l[i]);
    return s + "]";
}
inline std::vector<int> to_vec(const Exec& e)
{
    return std::vector<int>(e.ch, e.ch + e.n);
}

struct ScenarioOutcome
{
    bool failed;
};

inline bool run_scenario(const Scenario& s, FILE* out, int attempt = 0)
{
    const int W = options().workers;
    const double t0 = now();
    Shm* shm = static_cast<Shm*>(mmap(nullptr, sizeof(Shm),
                                      PROT_READ | PROT_WRITE,
                                      MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (shm == MAP_FAILED)
    {
        perror("mmap");
        _exit(2);
    }
    HashSet st, ou;
    st.open(options().tier ? 27 : 25, &shm->states, &shm->table_full);
    ou.open(22, &shm->outcomes, &shm->table_full);
    const double deadline = options().budget > 0 ? t0 + options().budget : 0;

    pid_t pids[MAX_WORKERS];
    uint64_t beats[MAX_WORKERS];
    double beat_t[MAX_WORKERS];
    int status[MAX_WORKERS];
    bool done[MAX_WORKERS], hung[MAX_WORKERS];
    fflush(stdout);
    fflush(stderr);
    fflush(out);
    for (int w = 0; w < W; ++w)
    {
        pids[w] = fork();
        if (pids[w] == 0)
        {
            worker_main(s, shm, st, ou, w, W, deadline);
            _exit(0);
        }
        beats[w] = 0;
        beat_t[w] = now();
        status[w] = 0;
        done[w] = hung[w] = false;
    }
    const double hang_limit = attempt ? 120. : 20.;
    int left = W;
    useconds_t nap = 300;
    while (left)
    {
        for (int w = 0; w < W; ++w)
        {
            if (done[w])
                continue;
            if (waitpid(pids[w], &status[w], WNOHANG) == pids[w])
            {
                done[w] = true;
                --left;
                if (status[w] != 0)
                    shm->stop = 1;
                continue;
            }
            const uint64_t b = shm->w[w].beat.load();
            if (b != beats[w])
            {
                beats[w] = b;
                beat_t[w] = now();
            }
            else if (now() - beat_t[w] > hang_limit)
            {
                kill(pids[w], SIGKILL);
                waitpid(pids[w], &status[w], 0);
                done[w] = hung[w] = true;
                --left;
                shm->stop = 1;
            }
        }
        usleep(nap);
        if (nap < 10000)
            nap *= 2;
    }

    // ---- failures: confirm by replay in a fresh process -------------------
    bool failed = false, retry = false;
    std::string fail_json;
    for (int w = 0; w < W && !failed; ++w)
    {
        WorkerShm& ws = shm->w[w];
        const bool crash = !hung[w] && status[w] != 0;
        if (crash && WIFEXITED(status[w]) && WEXITSTATUS(status[w]) == 3)
        {
            fprintf(stderr, "mc: harness error in scenario %s\n",
                    s.name.c_str());
            _exit(3);
        }
        if (!ws.failed && !crash && !hung[w])
            continue;
        std::vector<int> cur;
        for (int i = 0; i < ws.n; ++i)
            cur.push_back(ws.ch[i]);
        std::string first = ws.failed ? std::string(ws.msg)
                            : hung[w] ? "no progress"
                                      : "worker crashed";
        std::string msg;
        std::vector<std::string> log;
        History h(1, cur);
        int r = replay(s, h, msg, log, hung[w] ? 90. : 60.);
        std::string how = "single execution";
        if (r == 0 && hung[w])
        {
            retry = true; // slow machine: run again with a longer limit
            continue;
        }
        // history-dependent: replay with the executions before it
        for (int k = 2; r == 0 && k <= RING; k *= 2)
        {
            History hh;
            const uint64_t rp = ws.ring_pos;
            // a failed execution was pushed to the ring as well
            const bool pushed = ws.failed != 0;
            for (int back = k; back >= 1; --back)
            {
                const int64_t idx =
                    int64_t(rp) - back - (pushed ? 1 : 0);
                if (idx >= 0 && int64_t(rp) - idx <= RING)
                    hh.push_back(to_vec(ws.ring[idx % RING]));
            }
            hh.push_back(cur);
            log.clear();
            r = replay(s, hh, msg, log, 60.);
            if (r)
            {
                h = hh;
                how = "execution after " + std::to_string(hh.size() - 1) +
                      " earlier ones in the same process";
            }
        }
        if (r == 0)
        {
            if (crash && WIFSIGNALED(status[w]) &&
                WTERMSIG(status[w]) == SIGKILL)
            {
                retry = true; // killed from outside (memory), not a crash
                continue;
            }
            if (attempt == 0)
            {
                retry = true; // deterministic re-run decides
                continue;
            }
            how = "seen twice in full runs of the scenario, not when the "
                  "execution is replayed alone: the result depends on more "
                  "than the operands (uninitialised or hidden state)";
            msg = first;
        }
        failed = true;
        std::ostringstream os;
        os << "{\"scenario\":" << jstr(s.name) << ",\"worker\":" << w
           << ",\"message\":" << jstr(msg) << ",\"first_seen\":" << jstr(first)
           << ",\"confirmed\":" << jstr(how) << ",\"history\":" << jhistory(h)
           << ",\"log\":" << jlog(log) << "}";
        fail_json = os.str();
    }
    if (retry && !failed && attempt < 2)
    {
        st.close();
        ou.close();
        munmap(shm, sizeof(Shm));
        return run_scenario(s, out, attempt + 1);
    }
    // ---- samples: re-run a few executions with notes on -------------------
    std::ostringstream samples;
    samples << "[";
    int ns = 0;
    if (!failed)
        for (int w = 0; w < W && ns < 3; ++w)
        {
            WorkerShm& ws = shm->w[w];
            if (!ws.n_samples)
                continue;
            const int i = ws.n_samples > 2 ? 2 : ws.n_samples - 1;
            std::string msg;
            std::vector<std::string> log;
            const int r =
                replay(s, History(1, to_vec(ws.samples[i])), msg, log, 60.);
            if (r == 0)
                samples << (ns++ ? "," : "") << "{\"choices\":"
                        << jchoices(to_vec(ws.samples[i]))
                        << ",\"trace\":" << jlog(log) << "}";
        }
    samples << "]";

    fprintf(out,
            "{\"scenario\":%s,\"about\":%s,\"executions\":%llu,\"complete\":"
            "%llu,\"pruned\":%llu,\"checks\":%llu,\"transitions\":%llu,"
            "\"states\":%llu,\"outcomes\":%llu,\"capped\":%s,\"table_full\":"
            "%s,\"wall_s\":%.3f,\"keys\":[",
            jstr(s.name).c_str(), jstr(s.about).c_str(),
            (unsigned long long)shm->executions.load(),
            (unsigned long long)shm->complete.load(),
            (unsigned long long)shm->pruned.load(),
            (unsigned long long)shm->checks.load(),
            (unsigned long long)shm->steps.load(),
            (unsigned long long)shm->states.load(),
            (unsigned long long)shm->outcomes.load(),
            shm->capped.load() ? "true" : "false",
            shm->table_full.load() ? "true" : "false", now() - t0);
    for (int i = 0, n = 0; i < MAX_KEYS; ++i)
        if (shm->keys[i].state.load() == 2)
            fprintf(out, "%s{\"key\":%s,\"msg\":%s,\"history\":%s,\"count\":%llu}",
                    n++ ? "," : "", jstr(shm->keys[i].key).c_str(),
                    jstr(shm->keys[i].msg).c_str(),
                    jhistory(History(1, to_vec(shm->keys[i].exec))).c_str(),
                    (unsigned long long)shm->keys[i].count.load());
    fprintf(out, "],\"samples\":%s,\"failure\":%s}\n", samples.str().c_str(),
            failed ? fail_json.c_str() : "null");
    fflush(out);
    st.close();
    ou.close();
    munmap(shm, sizeof(Shm));
    return failed;
}

// ------------------------------------------------------------------------ main
inline History parse_history(const std::string& t)
{
    // "1,2,3;4,5"
    History h(1);
    std::string num;
    for (size_t i = 0; i <= t.size(); ++i)
    {
        const char ch = i < t.size() ? t[i] : ';';
        if (ch >= '0' && ch <= '9')
            num += ch;
        else
        {
            if (!num.empty())
                h.back().push_back(atoi(num.c_str()));
            num.clear();
            if (ch == ';' && i < t.size())
                h.push_back(std::vector<int>());
        }
    }
    return h;
}

inline int main(int argc, char** argv)
{
    Options& o = options();
    std::string replay_name, replay_hist;
    bool list = false;
    for (int i = 1; i < argc; ++i)
    {
        const std::string a = argv[i];
        const std::string v = i + 1 < argc ? argv[i + 1] : "";
        if (a == "--tier")
            o.tier = v == "thorough", ++i;
        else if (a == "--workers")
            o.workers = atoi(v.c_str()), ++i;
        else if (a == "--budget")
            o.budget = atof(v.c_str()), ++i;
        else if (a == "--only")
            o.filter = v, ++i;
        else if (a == "--out")
            o.out = v, ++i;
        else if (a == "--scratch")
            o.scratch = v, ++i;
        else if (a == "--replay")
        {
            replay_name = v;
            replay_hist = i + 2 < argc ? argv[i + 2] : "";
            i += 2;
        }
        else if (a == "--list")
            list = true;
        else
        {
            fprintf(stderr, "unknown argument %s\n", a.c_str());
            return 2;
        }
    }
    if (o.workers > MAX_WORKERS)
        o.workers = MAX_WORKERS;
    if (list)
    {
        for (size_t i = 0; i < scenarios().size(); ++i)
            printf("%s\t%s\n", scenarios()[i].name.c_str(),
                   scenarios()[i].about.c_str());
        return 0;
    }
    if (!replay_name.empty())
    {
        for (size_t i = 0; i < scenarios().size(); ++i)
            if (scenarios()[i].name == replay_name)
            {
                std::string msg;
                std::vector<std::string> log;
                const int r = replay(scenarios()[i],
                                     parse_history(replay_hist), msg, log, 120.);
                for (size_t k = 0; k < log.size(); ++k)
                    printf("  %s\n", log[k].c_str());
                printf("%s%s\n", r ? "REPRODUCED: " : "not reproduced",
                       msg.c_str());
                return r ? 1 : 0;
            }
        fprintf(stderr, "no scenario %s\n", replay_name.c_str());
        return 2;
    }
    FILE* out = o.out.empty() ? stdout : fopen(o.out.c_str(), "w");
    if (!out)
    {
        perror("out");
        return 2;
    }
    bool any = false;
    int ran = 0;
    for (size_t i = 0; i < scenarios().size(); ++i)
    {
        const Scenario& s = scenarios()[i];
        if (s.min_tier > o.tier)
            continue;
        if (!o.filter.empty() && s.name.find(o.filter) == std::string::npos)
            continue;
        ++ran;
        any = run_scenario(s, out) || any;
    }
    fprintf(out, "{\"done\":true,\"ran\":%d}\n", ran);
    fclose(out);
    return any ? 1 : 0;
}
} // namespace mc

#define MC_MAIN()                                                              \
    int main(int argc, char** argv) { return mc::main(argc, argv); }
#endif
