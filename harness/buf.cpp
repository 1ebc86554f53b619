// Conformance driver for buffer managers, reference counted chunks and buffer
// accumulators, used through their public interface.
#include "vf.hpp"
#include <Pothos/Framework.hpp>
#include <algorithm>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
#include <sys/personality.h>
#include <thread>
#include <unistd.h>

using vf::J;
using vf::Rng;
typedef Pothos::BufferChunk Chunk;

static std::vector<int> bytesOf(size_t addr, size_t n)
{
    std::vector<int> v;
    for (size_t i = 0; i < n; i++) v.push_back(((const unsigned char *)addr)[i]);
    return v;
}

struct Hold
{
    int id; Chunk c; std::vector<unsigned char> was;
    bool same() const { return c.length == was.size() && (was.empty() || memcmp((const void *)c.address, was.data(), was.size()) == 0); }
};

static void oneRun(uint64_t seed, bool accs)
{
    Rng r(seed);
    vf::SchedOpts so;
    so.seed = seed;
    so.strategy = r.chance(1, 2) ? vf::RANDOM : vf::PCT;
    so.syncPeriod = 1u << r.below(5);
    so.plainPeriod = r.chance(1, 2) ? 0 : (50u << r.below(4));
    so.tickNs = 100;
    vf::schedBegin(so);
    {
        const bool circ = r.chance(1, 2);
        Pothos::BufferManagerArgs a;
        a.numBuffers = 1 + r.below(4);
        a.bufferSize = circ ? 4096 : 4 + r.below(40);
        const bool threaded = r.chance(1, 3);
        size_t slab = 0; // start of the memory the manager hands out
        Pothos::SharedBuffer slabBuf;
        auto m = Pothos::BufferManager::make(circ ? "circular" : "generic", a, [&](const Pothos::BufferManagerArgs &x) {
            auto b = circ ? Pothos::SharedBuffer::makeCirc(x.bufferSize * x.numBuffers) : Pothos::SharedBuffer::make(x.bufferSize * x.numBuffers);
            slab = b.getAddress(); slabBuf = b;
            return b;
        });
        const size_t R = a.bufferSize * a.numBuffers;
        J("run").str("kind", circ ? "circular" : "generic").num("n", (long long)a.numBuffers).num("b", (long long)a.bufferSize).num("seed", (long long)(seed & 0x7fffffff)).log();
        if (circ)
        {
            // both mappings show the same memory
            bool ok = slabBuf.getAlias() == slab + R;
            for (size_t k = 0; ok && k < R; k += 509)
            {
                ((unsigned char *)slab)[k] = (unsigned char)(k * 7 + 1);
                if (((unsigned char *)slab)[k + R] != (unsigned char)(k * 7 + 1)) ok = false;
                ((unsigned char *)slab)[k + R] = (unsigned char)(k + 3);
                if (((unsigned char *)slab)[k] != (unsigned char)(k + 3)) ok = false;
            }
            J("alias").boolean("ok", ok).log();
        }
        // returned buffers come back through the callback when other threads drop references
        std::mutex retM;
        std::vector<Pothos::ManagedBuffer> ret;
        if (threaded) m->setCallback([&](const Pothos::ManagedBuffer &b) { std::lock_guard<std::mutex> l(retM); ret.push_back(b); });
        auto drain = [&]() {
            if (!threaded) return;
            std::vector<Pothos::ManagedBuffer> v;
            { std::lock_guard<std::mutex> l(retM); v.swap(ret); }
            for (auto &b : v) m->push(b);
        };
        unsigned char next = 0;
        int ids = 0;
        std::deque<Hold> holds;
        Pothos::BufferAccumulator acc[2];
        std::vector<int> pend[2]; // only to choose sensible arguments
        Chunk own; size_t ownOff = 0; // driver's own memory, cut into slices
        auto fill = [&](size_t addr, size_t n) { for (size_t i = 0; i < n; i++) ((unsigned char *)addr)[i] = next = (unsigned char)((next + 1) % 251); };
        std::mutex dropM;
        std::deque<Hold> toDrop;
        bool stop = false;
        std::vector<std::thread> th;
        if (threaded) for (int k = 0; k < 2; k++) th.emplace_back([&] {
            while (true)
            {
                Hold h;
                {
                    std::lock_guard<std::mutex> l(dropM);
                    if (toDrop.empty()) { if (stop) return; }
                    else { h = std::move(toDrop.front()); toDrop.pop_front(); }
                }
                if (h.c)
                {
                    Chunk copy(h.c); // counts go up and down in several threads
                    Hold k(std::move(h));
                    copy.clear();
                    J("late").boolean("same", k.same()).log();
                }
                else std::this_thread::sleep_for(std::chrono::microseconds(1));
            }
        });
        auto drop = [&](size_t k) {
            Hold h = std::move(holds[k]);
            holds.erase(holds.begin() + long(k));
            J("drop").num("id", h.id).boolean("same", h.same()).boolean("later", threaded).log();
            if (!threaded && r.chance(1, 3)) h.c.clear();
            if (threaded) { std::lock_guard<std::mutex> l(dropM); toDrop.push_back(std::move(h)); }
        };
        auto front = [&]() {
            drain();
            if (m->empty()) { J("front").boolean("empty", true).num("off", 0).num("len", 0).log(); return false; }
            const auto &f = m->front();
            J("front").boolean("empty", false).num("off", (long long)((f.address - slab) % R)).num("len", (long long)f.length).log();
            if (f.length) memset((void *)f.address, 0xEE, f.length); // a free buffer is ours to write on
            return f.length != 0;
        };
        auto take = [&](size_t n) {
            Hold h; h.id = ++ids; h.c = m->front(); h.c.length = n;
            fill(h.c.address, n);
            h.was.assign((unsigned char *)h.c.address, (unsigned char *)h.c.address + n);
            m->pop(n);
            J("take").num("id", h.id).num("off", (long long)((h.c.address - slab) % R)).num("n", (long long)n).log();
            return h;
        };
        auto pickN = [&](size_t len) -> size_t {
            if (len > 64) return r.chance(1, 2) ? 1 + r.below(24) : (r.chance(1, 2) ? len - r.below(20) : 1 + r.below(unsigned(len)));
            return r.chance(1, 3) ? len : 1 + r.below(unsigned(len));
        };
        // chunks of several buffers: whole buffers one after another through an accumulator
        auto gather = [&]() {
            Pothos::BufferAccumulator w;
            std::vector<int> parts;
            size_t total = 0, off = 0;
            const size_t want = 2 + r.below(3);
            for (size_t k = 0; k < want; k++)
            {
                if (!front()) break;
                const size_t len = m->front().length;
                auto h = take(circ && r.chance(1, 2) ? pickN(len) : (r.chance(1, 8) ? pickN(len) : len));
                if (k == 0) off = (h.c.address - slab) % R;
                total += h.c.length; parts.push_back(h.id);
                w.push(std::move(h.c));
            }
            if (parts.empty()) return;
            Hold h; h.id = ++ids;
            h.c = w.front();
            h.was.assign((unsigned char *)h.c.address, (unsigned char *)h.c.address + h.c.length);
            J("gather").num("id", h.id).nums("parts", parts).num("off", (long long)off).num("n", (long long)h.c.length).boolean("whole", h.c.length == total).log();
            holds.push_back(std::move(h));
        };
        const bool keeper = accs && r.chance(1, 3); // many assembled fronts alive at once
        const size_t maxHolds = keeper ? 14 : 6;
        const int steps = 40 + r.below(120);
        for (int s = 0; s < steps; s++)
        {
            int op = r.below(accs ? 16 : 8);
            if (keeper && r.chance(3, 4)) { static const int w[] = {9, 9, 9, 12, 12, 13, 15, 15}; op = w[r.below(8)]; }
            if (r.chance(1, 12)) { gather(); continue; }
            if (holds.size() > 1 && r.chance(1, 10))
            {
                // one chunk assigned over another
                const size_t i = r.below(unsigned(holds.size()));
                size_t j = r.below(unsigned(holds.size() - 1)); if (j >= i) j++;
                const bool move = r.chance(2, 3);
                const bool same = holds[i].same() && holds[j].same();
                J("assign").num("to", holds[i].id).num("from", holds[j].id).boolean("move", move).boolean("same", same).log();
                if (move) holds[i].c = std::move(holds[j].c); else holds[i].c = holds[j].c;
                holds[i].was = holds[j].was;
                J("same").num("id", holds[i].id).boolean("same", holds[i].same()).log();
                if (move) holds.erase(holds.begin() + long(j));
                continue;
            }
            if (op < 3)
            {
                if (!front()) { if (!holds.empty() && r.chance(1, 2)) drop(r.below(unsigned(holds.size()))); continue; }
                holds.push_back(take(pickN(m->front().length)));
            }
            else if (op < 5) { if (!holds.empty()) drop(r.chance(1, 2) ? 0 : r.below(unsigned(holds.size()))); }
            else if (op == 5 && !holds.empty())
            {
                Hold h = holds[r.below(unsigned(holds.size()))];
                J j("dup"); j.num("from", h.id); h.id = ++ids; j.num("id", h.id).log();
                if (r.chance(1, 2)) { Chunk t; t = h.c; h.c = std::move(t); }
                holds.push_back(h);
            }
            else if (op == 6 && !holds.empty())
            {
                auto &h = holds[r.below(unsigned(holds.size()))];
                const size_t cut = r.below(unsigned(h.c.length + 1));
                if (cut < h.c.length)
                {
                    h.c.address += cut; h.c.length -= cut; h.was.erase(h.was.begin(), h.was.begin() + long(cut));
                    J("cut").num("id", h.id).num("n", (long long)cut).log();
                }
            }
            else if (op == 7 && !holds.empty())
            {
                auto &h = holds[r.below(unsigned(holds.size()))];
                switch (r.below(3))
                {
                case 0: { Chunk &alias = h.c; h.c = alias; break; }       // assigned to itself
                case 1: { Hold t(std::move(h)); h = std::move(t); break; } // moved away and back
                case 2: { Chunk t(h.c); std::swap(t, h.c); break; }
                }
                J("same").num("id", h.id).boolean("same", h.same()).log();
            }
            else if (op < 8) {}
            // ---------------------------------------------- accumulators
            else if (op < 12)
            {
                const int k = r.below(2);
                Chunk c; int id = 0;
                bool soft = false;
                if (!keeper && r.chance(1, 2))
                {
                    if (!front()) continue;
                    if (m->front().length > 64 && r.chance(1, 3)) { holds.push_back(take(pickN(m->front().length))); continue; }
                    const size_t len = std::min<size_t>(m->front().length, 64);
                    auto h = take(r.chance(1, 4) ? len : 1 + r.below(unsigned(len)));
                    id = h.id; c = std::move(h.c);
                }
                else if (keeper || r.chance(1, 2))
                {
                    const size_t n = 1 + r.below(24);
                    if (!own || ownOff + n > own.length) { own = Chunk(size_t(96)); ownOff = 0; }
                    c = own; c.address += ownOff; c.length = n; fill(c.address, n);
                    ownOff += n + (keeper || r.chance(1, 4) ? 1 : 0);
                    if (ownOff >= own.length) own = Chunk();
                }
                else if (!holds.empty())
                {
                    auto &h = holds[r.below(unsigned(holds.size()))];
                    if (h.c.length == 0 || h.c.length > 80) continue;
                    c = h.c; id = h.id; soft = true;
                }
                else continue;
                auto v = bytesOf(c.address, c.length);
                pend[k].insert(pend[k].end(), v.begin(), v.end());
                J("apush").num("a", k + 1).num("id", id).boolean("kept", soft).nums("v", v).log();
                acc[k].push(std::move(c));
            }
            else if (op < 13)
            {
                const int k = r.below(2);
                const size_t n = 1 + r.below(unsigned(pend[k].size() + 8));
                J("areq").num("a", k + 1).num("n", (long long)n).log();
                acc[k].require(n);
            }
            else if (op < 15)
            {
                const int k = r.below(2);
                const auto len = acc[k].front().length;
                if (len == 0) continue;
                const size_t n = r.chance(1, 3) ? len : 1 + r.below(unsigned(len));
                acc[k].pop(n);
                pend[k].erase(pend[k].begin(), pend[k].begin() + long(std::min(n, pend[k].size())));
                J("apop").num("a", k + 1).num("n", (long long)n).log();
            }
            else
            {
                const int k = r.below(2);
                if (r.chance(1, 8)) { acc[k].clear(); pend[k].clear(); J("aclear").num("a", k + 1).log(); }
                else if (acc[k].front().length)
                {
                    // keep the front (all of it or a part)
                    Hold h; h.id = ++ids; h.c = acc[k].front();
                    if (r.chance(1, 2)) h.c.length = 1 + r.below(unsigned(h.c.length));
                    h.was.assign((unsigned char *)h.c.address, (unsigned char *)h.c.address + h.c.length);
                    J("akeep").num("a", k + 1).num("id", h.id).num("n", (long long)h.c.length).log();
                    holds.push_back(h);
                }
            }
            if (accs)
            {
                const int k = r.below(2);
                const auto &f = acc[k].front();
                J("afront").num("a", k + 1).nums("v", bytesOf(f.address, f.length)).num("tot", (long long)acc[k].getTotalBytesAvailable()).boolean("empty", acc[k].empty()).log();
            }
            if (holds.size() > maxHolds) drop(r.below(unsigned(holds.size())));
        }
        while (!holds.empty()) drop(r.below(unsigned(holds.size())));
        for (int k = 0; k < 2; k++) if (accs)
        {
            while (r.chance(19, 20) && acc[k].front().length)
            {
                const auto &f = acc[k].front();
                J("afront").num("a", k + 1).nums("v", bytesOf(f.address, f.length)).num("tot", (long long)acc[k].getTotalBytesAvailable()).boolean("empty", acc[k].empty()).log();
                const size_t n = r.chance(1, 2) ? f.length : 1 + r.below(unsigned(f.length));
                acc[k].pop(n);
                J("apop").num("a", k + 1).num("n", (long long)n).log();
            }
            acc[k].clear();
            J("aclear").num("a", k + 1).log();
        }
        { std::lock_guard<std::mutex> l(dropM); stop = true; }
        for (auto &t : th) t.join();
        drain();
        J("quiet").log();
        // everything came back: all buffers can be had again, whole
        for (size_t k = 0; k < a.numBuffers + 1; k++)
        {
            if (!front()) break;
            holds.push_back(take(m->front().length));
        }
        J("full").num("held", (long long)holds.size()).log();
        while (!holds.empty()) drop(0);
        // chunks may outlive their manager
        drain();
        J("end").log();
        if (threaded) { std::lock_guard<std::mutex> l(dropM); toDrop.clear(); }
        m.reset();
    }
    vf::schedEnd();
}

int main(int argc, char **argv)
{
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && personality(ADDR_NO_RANDOMIZE) != -1 && !getenv("VF_NOASLR"))
    {
        setenv("VF_NOASLR", "1", 1);
        execv("/proc/self/exe", argv);
    }
    vf::Args a(argc, argv);
    if (a.has("out")) vf::logOpen(a.get("out", "").c_str());
    const uint64_t s0 = uint64_t(a.num("seed", 1));
    const int n = int(a.num("n", 1));
    alarm(unsigned(a.num("limit", 300)));
    for (int k = 0; k < n; k++) oneRun(s0 * 1000003 + uint64_t(k), a.num("acc", 0) != 0);
    vf::logFlush();
    return 0;
}
