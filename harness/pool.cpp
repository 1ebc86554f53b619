// Conformance driver for thread pools: blocks that want turns, moved between
// pools, destroyed and created by several control threads.
#include "vf.hpp"
#include <Pothos/Framework.hpp>
#include <Pothos/Callable.hpp>
#include <Poco/Logger.h>
#include <Poco/NullChannel.h>
#include <chrono>
#include <memory>
#include <mutex>
#include <sys/personality.h>
#include <thread>
#include <unistd.h>

using vf::J;
using vf::Rng;

static int g_block = 0, g_pool = 0;

class PB : public Pothos::Block
{
public:
    int due = 0;
    PB(bool src)
    {
        setName("b" + std::to_string(++g_block));
        if (src) setupOutput(0, "uint8"); else setupInput(0, "uint8");
        registerCallable("kick", Pothos::Callable(&PB::kick).bind(std::ref(*this), 0));
        if (!src) input(0)->setReserve(1000000);
    }
    int kick(int n)
    {
        J("kick").str("b", getName()).num("n", n).log();
        due += n;
        return 0;
    }
    bool prepare()
    {
        J("in").str("b", getName()).num("t", vf::self()).log();
        vf::point();
        if (due > 0) { due--; this->yield(); }
        J("out").str("b", getName()).num("t", vf::self()).log();
        return false;
    }
};

struct Pair
{
    std::shared_ptr<PB> a, b;
    std::shared_ptr<Pothos::Topology> t;
};

static void oneRun(uint64_t seed)
{
    Rng r(seed);
    g_block = g_pool = 0;
    vf::SchedOpts so;
    so.seed = seed;
    so.strategy = r.chance(1, 2) ? vf::RANDOM : vf::PCT;
    so.syncPeriod = 1u << r.below(6);
    so.plainPeriod = r.chance(1, 2) ? 0 : (100u << r.below(4));
    so.pctDepth = 1 + r.below(4);
    so.tickNs = 100;
    so.spuriousPeriod = r.chance(1, 4) ? 50 : 0;
    vf::schedBegin(so);
    J("run").num("seed", (long long)(seed & 0x7fffffff)).log();
    {
        struct P { Pothos::ThreadPool p; std::string n; };
        std::vector<P> pools;
        auto newPool = [&]() {
            Pothos::ThreadPoolArgs a;
            a.numThreads = r.chance(1, 4) ? 0 : 1 + r.below(3);
            a.yieldMode = r.chance(1, 5) ? "SPIN" : (r.chance(1, 3) ? "HYBRID" : (r.chance(1, 2) ? "CONDITION" : ""));
            P p; p.p = Pothos::ThreadPool(a); p.n = "p" + std::to_string(++g_pool);
            J("pool").str("p", p.n).num("n", (long long)a.numThreads).log();
            pools.push_back(p);
        };
        std::vector<Pair> pairs;
        auto newPair = [&]() {
            Pair q;
            q.a = std::make_shared<PB>(true); q.b = std::make_shared<PB>(false);
            J("mk").str("b", q.a->getName()).log();
            J("mk").str("b", q.b->getName()).log();
            q.t.reset(new Pothos::Topology());
            q.t->connect(q.a, 0, q.b, 0);
            q.t->commit();
            pairs.push_back(q);
        };
        auto setPool = [&](PB &b, const Pothos::ThreadPool &p, const std::string &n) {
            J("set").str("b", b.getName()).str("p", n).log();
            b.setThreadPool(p);
            J("setdone").str("b", b.getName()).str("p", n).log();
        };
        const int np = 1 + r.below(2);
        for (int k = 0; k < np; k++) newPool();
        const int nq = 1 + r.below(3);
        for (int k = 0; k < nq; k++) newPair();
        auto settle = [&]() {
            std::vector<std::string> all;
            for (auto &q : pairs) for (auto *b : {q.a.get(), q.b.get()}) all.push_back(b->getName());
            bool done = false;
            for (int k = 0; k < 4000 && !done; k++)
            {
                std::this_thread::sleep_for(std::chrono::microseconds(500));
                done = true;
                for (auto &q : pairs) for (auto *b : {q.a.get(), q.b.get()}) if (b->due && b->getThreadPool()) done = false;
            }
            J("settled").boolean("done", done).num("live", (long long)vf::liveThreads()).log();
        };
        const int rounds = 2 + r.below(4);
        for (int k = 0; k < rounds; k++)
        {
            // several control threads move different blocks at the same time
            std::vector<std::thread> ctl;
            for (auto &q : pairs) for (auto *b : {q.a.get(), q.b.get()})
            {
                const int what = r.below(6);
                if (what < 3)
                {
                    const unsigned w = r.below(unsigned(pools.size()));
                    auto p = pools[w].p; auto n = pools[w].n;
                    const bool par = r.chance(1, 2);
                    const int kicks = r.below(4);
                    auto fn = [=, &setPool]() { if (kicks) b->call("kick", kicks); setPool(*b, p, n); if (kicks & 1) b->call("kick", 1); };
                    p = Pothos::ThreadPool();
                    if (par) ctl.emplace_back(fn); else fn();
                }
                else if (what == 3 && r.chance(1, 3)) setPool(*b, Pothos::ThreadPool(), "none");
                else if (what < 5) { if (b->getThreadPool() || true) b->call("kick", 1 + int(r.below(3))); }
            }
            if (r.chance(1, 3) && !pairs.empty())
            {
                // move a whole topology at once
                auto &q = pairs[r.below(unsigned(pairs.size()))];
                for (auto &t : ctl) t.join();
                ctl.clear();
                const unsigned w = r.below(unsigned(pools.size()));
                q.t->setThreadPool(pools[w].p);
                J("set").str("b", q.a->getName()).str("p", pools[w].n).log();
                J("set").str("b", q.b->getName()).str("p", pools[w].n).log();
                q.t->commit();
                J("setdone").str("b", q.a->getName()).str("p", pools[w].n).log();
                J("setdone").str("b", q.b->getName()).str("p", pools[w].n).log();
                q.t->setThreadPool(Pothos::ThreadPool());
            }
            for (auto &t : ctl) t.join();
            if (r.chance(1, 2)) settle();
            if (r.chance(1, 4) && pairs.size() > 1)
            {
                auto q = pairs.back(); pairs.pop_back();
                q.t.reset();
                const std::string an = q.a->getName(), bn = q.b->getName();
                q.a.reset(); J("freed").str("b", an).log();
                q.b.reset(); J("freed").str("b", bn).log();
            }
            if (r.chance(1, 4) && pairs.size() < 3) newPair();
            if (r.chance(1, 4)) newPool();
            if (r.chance(1, 5) && pools.size() > 1) pools.erase(pools.begin()); // its blocks keep it alive
        }
        settle();
        std::vector<std::string> names;
        for (auto &q : pairs) { names.push_back(q.a->getName()); names.push_back(q.b->getName()); }
        if (r.chance(1, 2)) pools.clear();
        pairs.clear();
        for (auto &n : names) J("freed").str("b", n).log();
        pools.clear();
        J("end").num("live", (long long)vf::liveThreads()).log();
    }
    vf::schedEnd();
}

int main(int argc, char **argv)
{
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && personality(ADDR_NO_RANDOMIZE) != -1 && !getenv("VF_NOASLR"))
    {
        setenv("VF_NOASLR", "1", 1);
        execv("/proc/self/exe", argv);
    }
    vf::Args a(argc, argv);
    Poco::Logger::root().setChannel(new Poco::NullChannel());
    Poco::Logger::root().setLevel(0);
    if (a.has("out")) vf::logOpen(a.get("out", "").c_str());
    const uint64_t s0 = uint64_t(a.num("seed", 1));
    const int n = int(a.num("n", 1));
    alarm(unsigned(a.num("limit", 300)));
    for (int k = 0; k < n; k++) oneRun(s0 * 1000003 + uint64_t(k));
    vf::logFlush();
    return 0;
}
