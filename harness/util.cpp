// Conformance driver for the containers and locks in Pothos/Util.
#include "vf.hpp"
#include <Pothos/Util/OrderedQueue.hpp>
#include <Pothos/Util/RingDeque.hpp>
#include <Pothos/Util/SpinLock.hpp>
#include <Pothos/Util/SpinLockRW.hpp>
#include <atomic>
#include <memory>
#include <mutex>
#include <set>
#include <sys/personality.h>
#include <thread>
#include <unistd.h>

using vf::J;
using vf::Rng;

// an element that notices use after destruction, double construction and leaks
static std::set<const void *> g_live;
static bool g_bad = false;
struct Elem
{
    int v;
    explicit Elem(int x = -1) : v(x) { born(); }
    Elem(const Elem &o) : v(o.get()) { born(); }
    Elem(Elem &&o) : v(o.get()) { born(); o.v = -2; }
    Elem &operator=(const Elem &o) { v = o.get(); get(); return *this; }
    Elem &operator=(Elem &&o) { const int x = o.get(); o.v = -2; get(); v = x; return *this; }
    ~Elem() { if (!g_live.erase(this)) g_bad = true; }
    int get() const { if (!g_live.count(this)) g_bad = true; return v; }
    void born() { if (!g_live.insert(this).second) g_bad = true; }
};

typedef Pothos::Util::RingDeque<Elem> Ring;
typedef Pothos::Util::OrderedQueue<Elem> OQ;

static void containers(Rng &r)
{
    {
        std::vector<std::unique_ptr<Ring>> d;
        for (int k = 0; k < 3; k++) { const size_t cap = 1 + r.below(6); d.emplace_back(new Ring(cap)); J("new").num("d", k + 1).num("cap", (long long)cap).log(); }
        int next = 0;
        auto look = [&](int k) {
            auto &x = *d[size_t(k)];
            std::vector<int> v;
            for (size_t i = 0; i < x.size(); i++) v.push_back(r.chance(1, 2) ? x[i].get() : static_cast<const Ring &>(x)[i].get());
            int f = -1, b = -1;
            if (!x.empty()) { f = x.front().get(); b = static_cast<const Ring &>(x).back().get(); }
            J("look").num("d", k + 1).nums("v", v).num("size", (long long)x.size()).num("cap", (long long)x.capacity()).boolean("empty", x.empty()).boolean("full", x.full()).num("f", f).num("b", b).boolean("bad", g_bad).num("live", (long long)g_live.size()).log();
        };
        const int steps = 10 + r.below(60);
        for (int s = 0; s < steps; s++)
        {
            const int k = int(r.below(3)), o = int(r.below(3));
            auto &x = *d[size_t(k)];
            switch (r.below(13))
            {
            case 0: case 1: if (!x.full()) { x.push_back(Elem(++next)); J("pushb").num("d", k + 1).num("v", next).log(); } break;
            case 2: if (!x.full()) { x.push_front(Elem(++next)); J("pushf").num("d", k + 1).num("v", next).log(); } break;
            case 3: if (!x.full()) { const int got = x.emplace_back(++next).get(); J("pushb").num("d", k + 1).num("v", got).log(); } break;
            case 4: if (!x.full()) { const int got = x.emplace_front(++next).get(); J("pushf").num("d", k + 1).num("v", got).log(); } break;
            case 5: case 6: if (!x.empty()) { x.pop_front(); J("popf").num("d", k + 1).log(); } break;
            case 7: if (!x.empty()) { x.pop_back(); J("popb").num("d", k + 1).log(); } break;
            case 8: { const size_t cap = 1 + r.below(10); x.set_capacity(cap); J("setcap").num("d", k + 1).num("n", (long long)cap).log(); break; }
            case 9: if (r.chance(1, 2)) { x.clear(); J("clear").num("d", k + 1).log(); } break;
            case 10: if (d[size_t(o)]->capacity()) { x = *d[size_t(o)]; J("copy").num("d", k + 1).num("o", o + 1).log(); break; }
            case 11: if (o != k || r.chance(1, 2)) { x = std::move(*d[size_t(o)]); J("move").num("d", k + 1).num("o", o + 1).log(); } break;
            case 12:
                if (r.chance(1, 2)) { if (d[size_t(o)]->capacity()) d[size_t(k)].reset(new Ring(*d[size_t(o)])); else break;; J("copy").num("d", k + 1).num("o", o + 1).log(); }
                else if (o != k) { d[size_t(k)].reset(new Ring(std::move(*d[size_t(o)]))); J("move").num("d", k + 1).num("o", o + 1).log(); }
                break;
            }
            // a ring that was moved from mostly gets room again
            for (int z = 0; z < 3; z++) if (!d[size_t(z)]->capacity() && r.chance(1, 2)) { const size_t cap = 1 + r.below(6); d[size_t(z)]->set_capacity(cap); J("setcap").num("d", z + 1).num("n", (long long)cap).log(); }
            look(k);
            if (r.chance(1, 4)) look(o);
        }
    }
    J("none").num("live", (long long)g_live.size()).boolean("bad", g_bad).log();
    g_live.clear(); g_bad = false;
    {
        const size_t cap = 1 + r.below(6);
        OQ q(cap);
        J("oq").num("cap", (long long)cap).num("shows", (long long)q.capacity()).log();
        std::vector<size_t> away; // indexes that are not in the queue
        for (size_t i = 0; i < cap; i++) away.push_back(i);
        std::vector<size_t> order; // of the ready ones, as the driver believes
        size_t ack = 0;
        const int steps = 10 + r.below(60);
        for (int s = 0; s < steps; s++)
        {
            if (r.chance(1, 2) && !away.empty())
            {
                const size_t w = r.chance(1, 2) ? 0 : r.below(unsigned(away.size()));
                const size_t i = away[w];
                away.erase(away.begin() + long(w));
                if (r.chance(1, 2)) q.push(Elem(int(i)), i); else { const Elem e{int(i)}; q.push(e, i); }
                J("qpush").num("i", (long long)i).log();
            }
            else if (!q.empty())
            {
                const int f = r.chance(1, 2) ? q.front().get() : static_cast<const OQ &>(q).front().get();
                q.pop();
                away.push_back(size_t(f));
                J("qpop").num("v", f).log();
            }
            else J("qempty").log();
        }
        (void)order; (void)ack;
    }
    J("none").num("live", (long long)g_live.size()).boolean("bad", g_bad).log();
    g_live.clear(); g_bad = false;
}

struct RawRW
{
    Pothos::Util::SpinLockRW m;
};

static void locks(Rng &r)
{
    Pothos::Util::SpinLock sl;
    Pothos::Util::SpinLockRW rw;
    int shared = 0;      // written by holders only
    const int n = 2 + int(r.below(3));
    std::vector<std::thread> th;
    for (int k = 0; k < n; k++)
    {
        const uint64_t s = r.next();
        th.emplace_back([&, s, k] {
            Rng q(s);
            for (int i = 0; i < 6; i++)
            {
                const int what = int(q.below(6));
                auto work = [&](const char *m, bool w, bool tried) {
                    J("in").num("t", k).str("m", m).boolean("w", w).boolean("tried", tried).log();
                    for (int z = int(q.below(3)); z > 0; z--) vf::point();
                    if (w) { const int x = shared; vf::point(); shared = x + 1; }
                    J("out").num("t", k).str("m", m).log();
                };
                if (what == 0) { sl.lock(); work("s", false, false); sl.unlock(); }
                else if (what == 1) { if (sl.try_lock()) { work("s", false, true); sl.unlock(); } else J("tryfail").num("t", k).str("m", "s").log(); }
                else if (what == 2) { std::lock_guard<Pothos::Util::SpinLockRW> l(rw); work("rw", true, false); }
                else if (what == 3) { if (rw.try_lock()) { work("rw", true, true); rw.unlock(); } }
                else if (what == 4) { Pothos::Util::SpinLockRW::SharedLock l(rw); work("rw", false, false); }
                else { if (rw.try_lock_shared()) { work("rw", false, true); rw.unlock_shared(); } }
            }
            J("bye").num("t", k).log();
        });
    }
    for (auto &t : th) t.join();
    // readers do not exclude each other
    rw.lock_shared(); J("in").num("t", 0).str("m", "rw").boolean("w", false).boolean("tried", false).log();
    bool both = false, wr = true, rd = true;
    for (int k = 0; k < 50 && !both; k++) both = rw.try_lock_shared();
    if (both) rw.unlock_shared();
    wr = rw.try_lock();
    J("out").num("t", 0).str("m", "rw").log();
    rw.unlock_shared();
    bool free = false;
    for (int k = 0; k < 50 && !free; k++) free = rw.try_lock();
    if (free) { rd = rw.try_lock_shared(); rw.unlock(); }
    bool sfree = sl.try_lock(), sagain = sl.try_lock();
    sl.unlock();
    J("ends").boolean("both", both).boolean("wr", wr).boolean("free", free).boolean("rd", rd).boolean("sfree", sfree).boolean("sagain", sagain).num("writes", shared).log();
}

static void oneRun(uint64_t seed, bool lk)
{
    Rng r(seed);
    vf::SchedOpts so;
    so.seed = seed;
    so.strategy = r.chance(1, 2) ? vf::RANDOM : vf::PCT;
    so.syncPeriod = 1u << r.below(4);
    so.plainPeriod = r.chance(1, 2) ? 0 : (4u << r.below(4));
    so.tickNs = 100;
    vf::schedBegin(so);
    J("run").num("seed", (long long)(seed & 0x7fffffff)).log();
    if (lk) locks(r); else containers(r);
    vf::schedEnd();
}

int main(int argc, char **argv)
{
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && personality(ADDR_NO_RANDOMIZE) != -1 && !getenv("VF_NOASLR"))
    {
        setenv("VF_NOASLR", "1", 1);
        execv("/proc/self/exe", argv);
    }
    vf::Args a(argc, argv);
    if (a.has("out")) vf::logOpen(a.get("out", "").c_str());
    const uint64_t s0 = uint64_t(a.num("seed", 1));
    const int n = int(a.num("n", 1));
    alarm(unsigned(a.num("limit", 300)));
    for (int k = 0; k < n; k++) oneRun(s0 * 1000003 + uint64_t(k), a.num("locks", 0) != 0);
    vf::logFlush();
    return 0;
}
