// Controlled scheduler.
//
// The code under test is compiled with -fsanitize=thread but linked with this
// file instead of libtsan: every atomic operation and every plain memory access
// of the instrumented code calls one of the __tsan_* functions below, and the
// pthread primitives are interposed. While the scheduler is active exactly one
// managed thread runs at a time; at each of those points the next thread is
// chosen from a seeded PRNG. Mutexes, condition variables, joins, sleeps and
// the clock are virtual, so a run is a deterministic function of its seed,
// timeouts cost no real time, and "nobody can run" is detected.
//
// While the scheduler is inactive everything passes through to libc.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "vf.hpp"
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <map>
#include <new>
#include <pthread.h>
#include <sys/mman.h>
#include <sched.h>
#include <set>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

namespace vf {

// ================================================================ trace log
static char *g_buf = nullptr;
static size_t g_len = 0, g_cap = 0;
static int g_fd = -1;
static uint64_t g_count = 0;

static void rawWrite()
{
    size_t o = 0;
    while (o < g_len)
    {
        ssize_t r = ::write(g_fd, g_buf + o, g_len - o);
        if (r <= 0) break;
        o += size_t(r);
    }
    g_len = 0;
}
void logFlush() { if (g_fd >= 0) rawWrite(); }

static void crashHandler(int sig)
{
    static volatile sig_atomic_t again = 0;
    if (again) _exit(4);
    again = 1;
    char t[96];
    int n = snprintf(t, sizeof t, "{\"e\":\"crash\",\"sig\":%d}\n", sig);
    if (g_fd >= 0)
    {
        rawWrite();
        if (::write(g_fd, t, size_t(n)) < 0) _exit(4);
    }
    _exit(4);
}

void logOpen(const char *path)
{
    g_fd = ::open(path, O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (g_fd < 0) { perror(path); _exit(2); }
    g_cap = 1 << 20;
    g_buf = (char *)malloc(g_cap);
    static char altstack[65536];
    stack_t ss; memset(&ss, 0, sizeof ss);
    ss.ss_sp = altstack; ss.ss_size = sizeof altstack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_handler = crashHandler;
    sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGALRM}) sigaction(s, &sa, nullptr);
    atexit(logFlush);
}

void logLine(const std::string &s)
{
    g_count++;
    if (g_fd < 0) { fputs(s.c_str(), stdout); fputc('\n', stdout); return; }
    if (g_len + s.size() + 1 > g_cap) rawWrite();
    if (s.size() + 1 > g_cap)
    {
        if (::write(g_fd, s.data(), s.size()) < 0 || ::write(g_fd, "\n", 1) < 0) _exit(2);
        return;
    }
    memcpy(g_buf + g_len, s.data(), s.size());
    g_len += s.size();
    g_buf[g_len++] = '\n';
}
uint64_t logCount() { return g_count; }

// ================================================================ memory in use
// operator new takes blocks from an arena with a shadow byte per 16 bytes; a released block stays
// marked for a while, so that instrumented code touching it (or the gap between blocks) is noticed.
static char *const ARENA = (char *)0x600000000000ull;
static const size_t ARENA_SIZE = 16ull << 30, KEEP = 1 << 20;
static unsigned char *g_shadow = nullptr;
static size_t g_bump = 0;
struct Freed { Freed *next; };
struct SizeClass { Freed *head = nullptr, *tail = nullptr; size_t bytes = 0; };
static SizeClass g_class[257];
static char g_memLock = 0;

static void memoryFault(const char *what)
{
    g_shadow = nullptr;
    char t[96];
    int n = snprintf(t, sizeof t, "{\"e\":\"crash\",\"sig\":0,\"what\":\"%s\"}\n", what);
    if (getenv("VF_ABORT")) abort();
    if (g_fd >= 0)
    {
        rawWrite();
        if (::write(g_fd, t, size_t(n)) < 0) _exit(4);
    }
    _exit(4);
}
static inline void chk(const volatile void *a)
{
    const size_t o = size_t((const volatile char *)a - ARENA);
    if (o >= ARENA_SIZE || !g_shadow || !g_shadow[o >> 4]) return;
    memoryFault(g_shadow[o >> 4] == 1 ? "released memory used" : "memory outside of blocks used");
}
static void *memNew(size_t n)
{
    if (n == 0) n = 1;
    const size_t c = (n + 15) / 16;
    if (c > 256) return nullptr;
    while (__atomic_exchange_n(&g_memLock, 1, __ATOMIC_ACQUIRE)) {}
    if (!g_shadow && !g_bump)
    {
        void *m = mmap(ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        void *h = mmap(nullptr, ARENA_SIZE / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m == ARENA && h != MAP_FAILED) g_shadow = (unsigned char *)h;
        else g_bump = ARENA_SIZE;
    }
    char *p = nullptr;
    SizeClass &k = g_class[c];
    if (k.bytes > KEEP || (k.head && g_bump + c * 16 + 16 > ARENA_SIZE))
    {
        p = (char *)k.head;
        k.head = k.head->next;
        if (!k.head) k.tail = nullptr;
        k.bytes -= c * 16;
    }
    else if (g_bump + c * 16 + 16 <= ARENA_SIZE)
    {
        p = ARENA + g_bump + 16;
        *(size_t *)(p - 16) = c;
        if (g_shadow) g_shadow[g_bump >> 4] = 2;
        g_bump += c * 16 + 16;
    }
    if (p && g_shadow) memset(g_shadow + ((p - ARENA) >> 4), 0, c);
    __atomic_store_n(&g_memLock, 0, __ATOMIC_RELEASE);
    return p;
}
static bool memDelete(void *v)
{
    char *p = (char *)v;
    if (size_t(p - ARENA) >= ARENA_SIZE) return false;
    while (__atomic_exchange_n(&g_memLock, 1, __ATOMIC_ACQUIRE)) {}
    const size_t o = size_t(p - ARENA) >> 4;
    if (g_shadow && (g_shadow[o] || o == 0 || g_shadow[o - 1] != 2)) memoryFault("released twice");
    const size_t c = *(size_t *)(p - 16);
    if (g_shadow) memset(g_shadow + o, 1, c);
    SizeClass &k = g_class[c];
    Freed *f = (Freed *)p;
    f->next = nullptr;
    if (k.tail) k.tail->next = f; else k.head = f;
    k.tail = f;
    k.bytes += c * 16;
    __atomic_store_n(&g_memLock, 0, __ATOMIC_RELEASE);
    return true;
}
} // namespace vf
void *operator new(size_t n) { void *p = vf::memNew(n); if (!p) p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { void *p = vf::memNew(n); return p ? p : malloc(n ? n : 1); }
void *operator new[](size_t n, const std::nothrow_t &t) noexcept { return operator new(n, t); }
void operator delete(void *p) noexcept { if (p && !vf::memDelete(p)) free(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { operator delete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { operator delete(p); }
namespace vf {

// ================================================================ real functions
template <typename F> static F real(const char *name)
{
    void *p = dlsym(RTLD_NEXT, name);
    if (!p) { fprintf(stderr, "vfsched: no %s\n", name); _exit(2); }
    return reinterpret_cast<F>(p);
}
#define REAL(ret, name, ...) \
    typedef ret (*name##_t)(__VA_ARGS__); \
    static name##_t r_##name() { static name##_t f = nullptr; if (!f) f = real<name##_t>(#name); return f; }
REAL(int, pthread_create, pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)
REAL(int, pthread_join, pthread_t, void **)
REAL(int, pthread_mutex_lock, pthread_mutex_t *)
REAL(int, pthread_mutex_trylock, pthread_mutex_t *)
REAL(int, pthread_mutex_unlock, pthread_mutex_t *)
REAL(int, pthread_mutex_timedlock, pthread_mutex_t *, const struct timespec *)
REAL(int, pthread_cond_wait, pthread_cond_t *, pthread_mutex_t *)
REAL(int, pthread_cond_timedwait, pthread_cond_t *, pthread_mutex_t *, const struct timespec *)
REAL(int, pthread_cond_clockwait, pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *)
REAL(int, pthread_cond_signal, pthread_cond_t *)
REAL(int, pthread_cond_broadcast, pthread_cond_t *)
REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t *)
REAL(int, pthread_rwlock_tryrdlock, pthread_rwlock_t *)
REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t *)
REAL(int, pthread_rwlock_trywrlock, pthread_rwlock_t *)
REAL(int, pthread_rwlock_unlock, pthread_rwlock_t *)
REAL(int, sched_yield, void)
REAL(int, nanosleep, const struct timespec *, struct timespec *)
REAL(int, clock_nanosleep, clockid_t, int, const struct timespec *, struct timespec *)
REAL(int, clock_gettime, clockid_t, struct timespec *)
REAL(int, gettimeofday, struct timeval *, void *)

// ================================================================ state
enum State { RUN, BLK_MUTEX, BLK_COND, BLK_JOIN, BLK_SLEEP, BLK_RW, DONE };
struct Th
{
    int id = 0;
    State st = RUN;
    void *on = nullptr;       // mutex / cond waited for
    int joinOn = -1;
    bool timed = false, timedOut = false, signaled = false;
    uint64_t deadline = 0;
    std::atomic<int> baton{0};
    long prio = 0;
    uint64_t streak = 0;
    pthread_t pt;
    void *(*fn)(void *) = nullptr;
    void *arg = nullptr;
    void *ret = nullptr;
    bool detached = false;
    char *stackLo = nullptr, *stackHi = nullptr;
};
struct Mx { int owner = -1; unsigned count = 0; };
struct Rw { int writer = -1; std::multiset<int> readers; };

static bool g_active = false;
static std::vector<Th *> g_th;
static std::map<void *, Mx> g_mx;
static std::map<void *, Rw> g_rw;
static thread_local Th *t_self = nullptr;
static thread_local int t_noYield = 0;
static SchedOpts g_o;
static Rng g_rng(1);
static uint64_t g_now = 0, g_steps = 0, g_switches = 0, g_minDeadline = ~0ull;
static uint64_t g_clockBase = 0, g_rtBase = 0;
static long g_lowPrio = 0;
static std::set<uint64_t> g_pct;
static bool g_stuckReported = false;

static void defaultStuck(const char *why)
{
    J("stuck").str("why", why).log();
    logFlush();
    _exit(3);
}
void (*onStuck)(const char *why) = defaultStuck;

bool schedActive() { return g_active; }
uint64_t nowNs() { return g_now; }
int self() { return t_self ? t_self->id : -1; }
uint64_t steps() { return g_steps; }
uint64_t switches() { return g_switches; }
uint64_t liveThreads() { uint64_t n = 0; for (auto t : g_th) if (t->st != DONE) n++; return n; }
void noYield(bool on) { t_noYield += on ? 1 : -1; }

static inline bool managed() { return g_active && t_self != nullptr; }

static void batonWait(Th *t)
{
    for (int spin = 0; spin < 200; spin++)
    {
        if (t->baton.load(std::memory_order_acquire)) { t->baton.store(0, std::memory_order_relaxed); return; }
        __builtin_ia32_pause();
    }
    while (true)
    {
        int one = 1;
        if (t->baton.compare_exchange_strong(one, 0, std::memory_order_acquire)) return;
        syscall(SYS_futex, &t->baton, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    }
}
static void batonGive(Th *t)
{
    t->baton.store(1, std::memory_order_release);
    syscall(SYS_futex, &t->baton, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

static void wakeTimed()
{
    uint64_t m = ~0ull;
    for (auto t : g_th)
    {
        if (t->st == DONE || t->st == RUN || !t->timed) continue;
        if (t->deadline <= g_now) { t->timedOut = true; t->st = RUN; t->timed = false; }
        else if (t->deadline < m) m = t->deadline;
    }
    g_minDeadline = m;
}

static Th *pick(bool mustLeave)
{
    while (true)
    {
        if (g_now >= g_minDeadline) wakeTimed();
        Th *cand[256]; unsigned n = 0;
        for (auto t : g_th)
            if (t->st == RUN && !(mustLeave && t == t_self) && n < 256) cand[n++] = t;
        if (n == 0)
        {
            if (t_self->st == RUN) return t_self;
            if (g_minDeadline == ~0ull) return nullptr;
            g_now = g_minDeadline;
            wakeTimed();
            continue;
        }
        if (g_o.strategy == PCT)
        {
            Th *b = cand[0];
            for (unsigned i = 1; i < n; i++) if (cand[i]->prio > b->prio) b = cand[i];
            return b;
        }
        if (g_o.strategy == ROUND)
        {
            Th *b = nullptr;
            for (unsigned i = 0; i < n; i++) if (cand[i]->id > t_self->id) { b = cand[i]; break; }
            return b ? b : cand[0];
        }
        return cand[g_rng.below(n)];
    }
}

static void stuck(const char *why)
{
    if (g_stuckReported) _exit(3);
    g_stuckReported = true;
    onStuck(why);
    logFlush();
    _exit(3);
}

// hand the baton to another thread; returns when this thread holds it again
static void switchTo(Th *n)
{
    Th *me = t_self;
    if (n == me) return;
    g_switches++;
    batonGive(n);
    batonWait(me);
}

static void reschedule(bool mustLeave)
{
    Th *n = pick(mustLeave);
    if (!n) stuck("deadlock");
    switchTo(n);
}

// block until st is set back to RUN by somebody else (or time)
static void blockHere()
{
    t_self->streak = 0;
    if (t_self->timed && t_self->deadline < g_minDeadline) g_minDeadline = t_self->deadline;
    while (t_self->st != RUN)
    {
        Th *n = pick(false);
        if (!n) stuck("deadlock");
        if (n == t_self) break;
        switchTo(n);
    }
}

static inline void tick()
{
    g_now += g_o.tickNs;
    if (++g_steps > g_o.maxSteps) stuck("steplimit");
}

static void pointImpl(unsigned period)
{
    tick();
    Th *me = t_self;
    if (g_now >= g_minDeadline) wakeTimed();
    if (t_noYield) return;
    if (g_o.spuriousPeriod && g_rng.below(g_o.spuriousPeriod) == 0)
    {
        for (auto t : g_th) if (t->st == BLK_COND) { t->st = RUN; t->timed = false; t->signaled = true; break; }
    }
    if (++me->streak > 4000)
    {
        me->streak = 0;
        me->prio = --g_lowPrio;
        reschedule(true);
        return;
    }
    if (g_o.strategy == PCT)
    {
        if (g_pct.count(g_steps)) me->prio = --g_lowPrio;
        else if (period == 0) return;
        reschedule(false);
        return;
    }
    if (period == 0) return;
    if (g_rng.below(period) == 0) reschedule(false);
}

void point() { if (managed()) pointImpl(1); }
static inline void syncPoint() { if (managed()) pointImpl(g_o.syncPeriod); }
static inline void plainPoint(void *a)
{
    if (!g_active || !t_self || t_noYield) return;
    if ((char *)a >= t_self->stackLo && (char *)a < t_self->stackHi) return;
    if (g_o.plainPeriod == 0) { return; }
    if (g_o.strategy == PCT) { tick(); if (g_pct.count(g_steps)) { t_self->prio = --g_lowPrio; reschedule(false); } return; }
    pointImpl(g_o.plainPeriod);
}

static void setStack(Th *t)
{
    pthread_attr_t a;
    if (pthread_getattr_np(pthread_self(), &a) == 0)
    {
        void *lo; size_t sz;
        pthread_attr_getstack(&a, &lo, &sz);
        t->stackLo = (char *)lo; t->stackHi = t->stackLo + sz;
        pthread_attr_destroy(&a);
    }
}

void schedBegin(const SchedOpts &o)
{
    g_o = o;
    if (g_o.syncPeriod == 0) g_o.syncPeriod = 1;
    g_rng = Rng(o.seed * 7919 + 13);
    g_steps = g_switches = 0;
    g_minDeadline = ~0ull;
    g_stuckReported = false;
    g_lowPrio = 0;
    g_pct.clear();
    for (auto t : g_th) delete t;
    g_th.clear();
    g_mx.clear();
    g_rw.clear();
    if (o.strategy == PCT)
    {
        // change points over growing windows, so that short and long runs both get some
        for (unsigned i = 0; i < o.pctDepth; i++)
        {
            g_pct.insert(1 + g_rng.below(500));
            g_pct.insert(1 + g_rng.below(5000));
            g_pct.insert(1 + g_rng.below(50000));
            g_pct.insert(1 + g_rng.below(500000));
        }
    }
    struct timespec ts;
    r_clock_gettime()(CLOCK_MONOTONIC, &ts); g_clockBase = uint64_t(ts.tv_sec) * 1000000000ull + ts.tv_nsec;
    r_clock_gettime()(CLOCK_REALTIME, &ts); g_rtBase = uint64_t(ts.tv_sec) * 1000000000ull + ts.tv_nsec;
    g_now = 0;
    auto m = new Th();
    m->id = 0; m->pt = pthread_self(); m->prio = 1000 + g_rng.below(1000);
    setStack(m);
    g_th.push_back(m);
    t_self = m;
    g_active = true;
}

void schedEnd()
{
    // let every other thread finish
    unsigned spins = 0;
    while (liveThreads() > 1)
    {
        reschedule(true);
        tick();
        if (++spins > 100000) stuck("threads left running");
    }
    g_active = false;
    t_self = nullptr;
}

// ================================================================ threads
static void *trampoline(void *p)
{
    Th *t = (Th *)p;
    batonWait(t);
    t_self = t;
    setStack(t);
    t->ret = t->fn(t->arg);
    // hand over for good
    noYield(false);
    t_noYield = 0;
    t->st = DONE;
    for (auto o : g_th) if (o->st == BLK_JOIN && o->joinOn == t->id) o->st = RUN;
    Th *n = pick(false);
    t_self = nullptr;
    if (!n || n == t)
    {
        if (g_minDeadline == ~0ull || !n) stuck("deadlock");
    }
    g_switches++;
    batonGive(n);
    return t->ret;
}

} // namespace vf

using namespace vf;

static inline uint64_t toNs(const struct timespec *ts) { return uint64_t(ts->tv_sec) * 1000000000ull + uint64_t(ts->tv_nsec); }
// convert an absolute deadline on the given clock into virtual time
static uint64_t absToVirtual(clockid_t c, const struct timespec *ts)
{
    const uint64_t base = (c == CLOCK_REALTIME) ? g_rtBase : g_clockBase;
    const uint64_t t = toNs(ts);
    return t > base ? t - base : 0;
}

static int vMutexLock(void *m, bool recursive)
{
    while (true)
    {
        Mx &x = g_mx[m];
        if (x.owner < 0) { x.owner = t_self->id; x.count = 1; return 0; }
        if (x.owner == t_self->id && recursive) { x.count++; return 0; }
        t_self->st = BLK_MUTEX; t_self->on = m; t_self->timed = false;
        blockHere();
    }
}
static void vMutexUnlock(void *m)
{
    auto it = g_mx.find(m);
    if (it == g_mx.end()) return;
    if (it->second.count > 1) { it->second.count--; return; }
    g_mx.erase(it);
    for (auto t : g_th) if (t->st == BLK_MUTEX && t->on == m) t->st = RUN;
}
static bool isRecursive(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }

static int vCondWait(pthread_cond_t *c, pthread_mutex_t *m, bool timed, uint64_t deadline)
{
    pointImpl(g_o.syncPeriod);
    const bool rec = isRecursive(m);
    Th *me = t_self;
    me->st = BLK_COND; me->on = c; me->timed = timed; me->deadline = deadline;
    me->timedOut = false; me->signaled = false;
    vMutexUnlock(m);
    blockHere();
    me->timed = false;
    const bool to = me->timedOut && !me->signaled;
    vMutexLock(m, rec);
    return to ? ETIMEDOUT : 0;
}

extern "C" {

int pthread_create(pthread_t *pt, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
    if (!managed()) return r_pthread_create()(pt, a, fn, arg);
    auto t = new Th();
    t->id = int(g_th.size());
    t->fn = fn; t->arg = arg;
    t->prio = 1000 + g_rng.below(1000);
    g_th.push_back(t);
    int rc = r_pthread_create()(pt, a, vf::trampoline, t);
    if (rc != 0) { t->st = DONE; return rc; }
    t->pt = *pt;
    syncPoint();
    return 0;
}

int pthread_join(pthread_t pt, void **ret)
{
    if (managed())
    {
        for (auto t : g_th)
            if (t->id != 0 && pthread_equal(t->pt, pt) && t->joinOn != -2)
            {
                if (t->st != DONE)
                {
                    t_self->st = BLK_JOIN; t_self->joinOn = t->id; t_self->timed = false;
                    blockHere();
                }
                t->joinOn = -2;
                int rc = r_pthread_join()(pt, ret);
                syncPoint();
                return rc;
            }
    }
    return r_pthread_join()(pt, ret);
}

int pthread_mutex_lock(pthread_mutex_t *m)
{
    if (!managed()) return r_pthread_mutex_lock()(m);
    pointImpl(g_o.syncPeriod);
    return vMutexLock(m, isRecursive(m));
}
int pthread_mutex_trylock(pthread_mutex_t *m)
{
    if (!managed()) return r_pthread_mutex_trylock()(m);
    pointImpl(g_o.syncPeriod);
    Mx &x = g_mx[m];
    if (x.owner < 0) { x.owner = t_self->id; x.count = 1; return 0; }
    if (x.owner == t_self->id && isRecursive(m)) { x.count++; return 0; }
    return EBUSY;
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts)
{
    if (!managed()) return r_pthread_mutex_timedlock()(m, ts);
    return pthread_mutex_lock(m);
}
int pthread_mutex_unlock(pthread_mutex_t *m)
{
    if (!managed()) return r_pthread_mutex_unlock()(m);
    vMutexUnlock(m);
    pointImpl(g_o.syncPeriod);
    return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    if (!managed()) return r_pthread_cond_wait()(c, m);
    return vCondWait(c, m, false, 0);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
    if (!managed()) return r_pthread_cond_timedwait()(c, m, ts);
    return vCondWait(c, m, true, absToVirtual(CLOCK_REALTIME, ts));
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t clk, const struct timespec *ts)
{
    if (!managed()) return r_pthread_cond_clockwait()(c, m, clk, ts);
    return vCondWait(c, m, true, absToVirtual(clk, ts));
}
int pthread_cond_signal(pthread_cond_t *c)
{
    if (!managed()) return r_pthread_cond_signal()(c);
    pointImpl(g_o.syncPeriod);
    Th *w[256]; unsigned n = 0;
    for (auto t : g_th) if (t->st == BLK_COND && t->on == c && n < 256) w[n++] = t;
    if (n) { Th *t = w[g_rng.below(n)]; t->st = RUN; t->timed = false; t->signaled = true; }
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c)
{
    if (!managed()) return r_pthread_cond_broadcast()(c);
    pointImpl(g_o.syncPeriod);
    for (auto t : g_th) if (t->st == BLK_COND && t->on == c) { t->st = RUN; t->timed = false; t->signaled = true; }
    return 0;
}

// ---- rwlocks
static int vRw(pthread_rwlock_t *l, bool write, bool tryOnly)
{
    pointImpl(g_o.syncPeriod);
    while (true)
    {
        Rw &x = g_rw[l];
        const bool ok = write ? (x.writer < 0 && x.readers.empty()) : (x.writer < 0);
        if (ok) { if (write) x.writer = t_self->id; else x.readers.insert(t_self->id); return 0; }
        if (tryOnly) return EBUSY;
        t_self->st = BLK_RW; t_self->on = l; t_self->timed = false;
        blockHere();
    }
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { return managed() ? vRw(l, false, false) : r_pthread_rwlock_rdlock()(l); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { return managed() ? vRw(l, false, true) : r_pthread_rwlock_tryrdlock()(l); }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { return managed() ? vRw(l, true, false) : r_pthread_rwlock_wrlock()(l); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { return managed() ? vRw(l, true, true) : r_pthread_rwlock_trywrlock()(l); }
int pthread_rwlock_unlock(pthread_rwlock_t *l)
{
    if (!managed()) return r_pthread_rwlock_unlock()(l);
    Rw &x = g_rw[l];
    if (x.writer == t_self->id) x.writer = -1;
    else { auto it = x.readers.find(t_self->id); if (it != x.readers.end()) x.readers.erase(it); }
    for (auto t : g_th) if (t->st == BLK_RW && t->on == l) t->st = RUN;
    pointImpl(g_o.syncPeriod);
    return 0;
}

int sched_yield(void)
{
    if (!managed()) return r_sched_yield()();
    tick();
    if (t_noYield) return 0;
    t_self->prio = --g_lowPrio;
    reschedule(true);
    return 0;
}

static int vSleep(uint64_t ns)
{
    tick();
    Th *me = t_self;
    if (g_o.strategy == PCT) me->prio = --g_lowPrio;
    me->st = BLK_SLEEP; me->timed = true; me->timedOut = false; me->deadline = g_now + ns;
    blockHere();
    me->timed = false;
    return 0;
}
int nanosleep(const struct timespec *ts, struct timespec *rem)
{
    if (!managed()) return r_nanosleep()(ts, rem);
    return vSleep(toNs(ts));
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *ts, struct timespec *rem)
{
    if (!managed()) return r_clock_nanosleep()(c, flags, ts, rem);
    uint64_t ns = toNs(ts);
    if (flags & TIMER_ABSTIME) { uint64_t v = absToVirtual(c, ts); ns = v > g_now ? v - g_now : 0; }
    return vSleep(ns);
}
int usleep(useconds_t us)
{
    struct timespec ts; ts.tv_sec = us / 1000000; ts.tv_nsec = long(us % 1000000) * 1000;
    return nanosleep(&ts, nullptr);
}
int clock_gettime(clockid_t c, struct timespec *ts)
{
    if (!managed() || (c != CLOCK_REALTIME && c != CLOCK_MONOTONIC)) return r_clock_gettime()(c, ts);
    g_now += 100;
    const uint64_t t = g_now + ((c == CLOCK_REALTIME) ? g_rtBase : g_clockBase);
    ts->tv_sec = time_t(t / 1000000000ull); ts->tv_nsec = long(t % 1000000000ull);
    return 0;
}

// ---- function-local statics: the guard may be held across a switch
int __cxa_guard_acquire(uint64_t *g)
{
    volatile char *b = (volatile char *)g;
    while (true)
    {
        if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) return 0;
        char exp = 0;
        if (__atomic_compare_exchange_n(b + 1, &exp, (char)1, false, __ATOMIC_ACQ_REL, __ATOMIC_RELAXED))
        {
            if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) { __atomic_store_n(b + 1, (char)0, __ATOMIC_RELEASE); return 0; }
            return 1;
        }
        sched_yield();
    }
}
void __cxa_guard_release(uint64_t *g)
{
    volatile char *b = (volatile char *)g;
    __atomic_store_n(b, (char)1, __ATOMIC_RELEASE);
    __atomic_store_n(b + 1, (char)0, __ATOMIC_RELEASE);
}
void __cxa_guard_abort(uint64_t *g)
{
    volatile char *b = (volatile char *)g;
    __atomic_store_n(b + 1, (char)0, __ATOMIC_RELEASE);
}

// ================================================================ compiler hooks
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **p, void *) { plainPoint(p); chk(p); }
void __tsan_vptr_read(void **p) { plainPoint(p); chk(p); }
#define RW(n) \
    void __tsan_read##n(void *p) { plainPoint(p); chk(p); } \
    void __tsan_write##n(void *p) { plainPoint(p); chk(p); } \
    void __tsan_read_write##n(void *p) { plainPoint(p); chk(p); } \
    void __tsan_unaligned_read##n(void *p) { plainPoint(p); chk(p); } \
    void __tsan_unaligned_write##n(void *p) { plainPoint(p); chk(p); } \
    void __tsan_volatile_read##n(void *p) { plainPoint(p); chk(p); } \
    void __tsan_volatile_write##n(void *p) { plainPoint(p); chk(p); } \
    void __tsan_unaligned_volatile_read##n(void *p) { plainPoint(p); chk(p); } \
    void __tsan_unaligned_volatile_write##n(void *p) { plainPoint(p); chk(p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { plainPoint(p); chk(p); if (n) chk((char *)p + n - 1); }
void __tsan_write_range(void *p, unsigned long n) { plainPoint(p); chk(p); if (n) chk((char *)p + n - 1); }

#define ATOMICS(n, T) \
    T __tsan_atomic##n##_load(const volatile T *a, int) { syncPoint(); chk(a); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##n##_store(volatile T *a, T v, int) { chk(a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); syncPoint(); } \
    T __tsan_atomic##n##_exchange(volatile T *a, T v, int) { syncPoint(); chk(a); T r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); syncPoint(); return r; } \
    T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int) { syncPoint(); chk(a); T r = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); syncPoint(); return r; } \
    T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int) { syncPoint(); chk(a); T r = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); syncPoint(); return r; } \
    T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int) { syncPoint(); chk(a); T r = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); syncPoint(); return r; } \
    T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int) { syncPoint(); chk(a); T r = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); syncPoint(); return r; } \
    T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int) { syncPoint(); chk(a); T r = __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); syncPoint(); return r; } \
    T __tsan_atomic##n##_fetch_nand(volatile T *a, T v, int) { syncPoint(); chk(a); T r = __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); syncPoint(); return r; } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { syncPoint(); chk(a); int r = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); syncPoint(); return r; } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { syncPoint(); chk(a); int r = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); syncPoint(); return r; } \
    T __tsan_atomic##n##_compare_exchange_val(volatile T *a, T c, T v, int, int) { syncPoint(); chk(a); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); syncPoint(); return c; }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); syncPoint(); }
void __tsan_atomic_signal_fence(int) {}

} // extern "C"
