// Conformance driver for memory domains: ports in different domains, blocks that bring their own
// buffer managers or refuse a domain, and the copiers that the topology puts in between.
#include "vf.hpp"
#include <Pothos/Framework.hpp>
#include <Poco/Logger.h>
#include <Poco/NullChannel.h>
#include <json.hpp>
#include <algorithm>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sys/personality.h>
#include <thread>
#include <unistd.h>

using vf::J;
using vf::Rng;
using json = nlohmann::json;

static std::mutex g_m;
static std::map<const Pothos::BufferManager *, std::string> g_tags;
static std::map<std::string, std::pair<std::vector<int>, std::vector<int>>> g_sent; // output -> items sent quietly / at all
static std::map<std::pair<std::string, std::string>, std::vector<int>> g_got;
static std::map<std::string, std::set<std::string>> g_mgr; // output -> managers its buffers came from
static std::vector<std::string> g_outNames;
static std::vector<std::weak_ptr<Pothos::Block>> g_copiers;
static Rng g_rng(1);
static int g_seq = 0;
static unsigned g_copierMood = 0;

static unsigned rnd(unsigned n) { std::lock_guard<std::mutex> l(g_m); return g_rng.below(n); }

static std::string list(const std::vector<std::string> &v)
{
    std::string s = "[";
    for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + v[i];
    return s + "]";
}
static std::string q(const std::string &s) { return "\"" + J::esc(s) + "\""; }

struct PortCfg
{
    std::string id, dom;
    std::map<std::string, std::string> modes; // domain of the other side -> "ABDICATE", "CUSTOM", "ERROR"
};

static std::shared_ptr<Pothos::BufferManager> manager(const PortCfg &p, const std::string &domain)
{
    const auto &m = p.modes.at(domain);
    if (m == "ERROR") throw Pothos::PortDomainError("no " + domain);
    if (m == "ABDICATE") return nullptr;
    Pothos::BufferManagerArgs a;
    a.numBuffers = 1 + rnd(4); a.bufferSize = 4u << rnd(4);
    auto mgr = Pothos::BufferManager::make(rnd(4) || getenv("NOCIRC") ? "generic" : "circular", a);
    std::lock_guard<std::mutex> l(g_m);
    g_tags[mgr.get()] = p.id + ":" + domain;
    return mgr;
}

struct Source : Pothos::Block
{
    std::vector<PortCfg> ps;
    int pending = 0;
    Source(const std::vector<PortCfg> &c): ps(c)
    {
        for (size_t k = 0; k < ps.size(); k++) this->setupOutput(k, "int32", ps[k].dom);
        this->registerCall(this, "fire", &Source::fire);
    }
    void fire(int n) { pending += n; }
    std::shared_ptr<Pothos::BufferManager> getOutputBufferManager(const std::string &name, const std::string &domain) override { return manager(ps[size_t(std::stoi(name))], domain); }
    void work()
    {
        if (!pending) return;
        for (auto o : this->outputs()) if (o->elements() == 0) return;
        for (auto o : this->outputs())
        {
            const auto &id = ps[size_t(o->index())].id;
            const auto mgr = o->buffer().getManagedBuffer().getBufferManager();
            {
                std::lock_guard<std::mutex> l(g_m);
                const int idx = int(std::find(g_outNames.begin(), g_outNames.end(), id) - g_outNames.begin());
                const int seq = ++g_seq;
                o->buffer().as<int32_t *>()[0] = (idx << 20) | seq;
                auto it = g_tags.find(mgr.get());
                g_mgr[id].insert(it == g_tags.end() ? "plain" : it->second);
                g_sent[id].second.push_back(seq);
            }
            o->produce(1);
        }
        if (--pending) this->yield();
    }
};

struct Sink : Pothos::Block
{
    std::vector<PortCfg> ps;
    Sink(const std::vector<PortCfg> &c): ps(c)
    {
        for (size_t k = 0; k < ps.size(); k++) this->setupInput(k, "int32", ps[k].dom);
    }
    std::shared_ptr<Pothos::BufferManager> getInputBufferManager(const std::string &name, const std::string &domain) override { return manager(ps[size_t(std::stoi(name))], domain); }
    void work()
    {
        for (auto i : this->inputs())
        {
            const auto &b = i->buffer();
            const size_t n = i->elements();
            std::lock_guard<std::mutex> l(g_m);
            for (size_t k = 0; k < n; k++)
            {
                const uint32_t v = b.as<const uint32_t *>()[k];
                const size_t idx = v >> 20;
                g_got[{idx < g_outNames.size() ? g_outNames[idx] : "?", ps[size_t(i->index())].id}].push_back(int(v & 0xfffff));
            }
            i->consume(n);
        }
    }
};

struct Copier : Pothos::Block
{
    static Pothos::Block *make() { return new Copier(); }
    Copier() { this->setupInput(0); this->setupOutput(0); }
    void work()
    {
        auto i = this->input(0); auto o = this->output(0);
        size_t n = std::min(i->elements(), o->elements()) / 4 * 4;
        if (g_copierMood == 1) n = std::min<size_t>(n, 4);
        if (g_copierMood == 2 && rnd(2)) { this->yield(); return; }
        if (!n) return;
        memcpy(o->buffer().as<char *>(), i->buffer().as<const char *>(), n);
        i->consume(n); o->produce(n);
    }
};
static Pothos::BlockRegistry g_registerCopier("/blocks/copier", &Copier::make);

static void oneRun(uint64_t seed)
{
    Rng r(seed);
    vf::SchedOpts so;
    so.seed = seed;
    so.strategy = r.chance(1, 2) ? vf::RANDOM : vf::PCT;
    so.syncPeriod = 2u << r.below(5);
    so.plainPeriod = r.chance(3, 4) ? 0 : 400;
    so.pctDepth = 1 + r.below(4);
    so.tickNs = 100;
    g_rng = Rng(seed + 77); g_seq = 0; g_tags.clear(); g_sent.clear(); g_got.clear(); g_mgr.clear(); g_outNames.clear();
    g_copierMood = r.below(3);
    vf::schedBegin(so);
    {
        static const std::vector<std::string> doms = {"", "g", "h"};
        const int nd = 1 + int(r.below(3));
        const unsigned custom = r.below(5), error = r.below(4);
        auto port = [&](const std::string &id) {
            PortCfg p; p.id = id; p.dom = doms[r.below(unsigned(nd))];
            for (auto &d : doms)
            {
                auto &m = p.modes[d];
                m = r.below(6) < custom ? "CUSTOM" : "ABDICATE";
                if (!d.empty() && r.below(8) < error) m = "ERROR"; // every block can deal with ordinary memory
            }
            return p;
        };
        std::vector<std::shared_ptr<Source>> src;
        std::vector<std::shared_ptr<Sink>> dst;
        std::vector<PortCfg> outs, ins;
        std::vector<std::string> desc;
        auto describe = [&](const PortCfg &p, bool in) {
            std::string m = "{";
            for (auto &d : doms) m += (d.empty() ? "" : ",") + q(d) + ":" + q(p.modes.at(d));
            desc.push_back(J().str("p", p.id).boolean("isin", in).str("dom", p.dom).raw("modes", m + "}").done());
        };
        std::map<std::string, std::pair<int, int>> place;
        for (int k = 1 + int(r.below(3)); k > 0; k--)
        {
            std::vector<PortCfg> ps;
            for (int o = 1 + int(r.chance(1, 3)); o > 0; o--) { ps.push_back(port("S" + std::to_string(src.size()) + "." + std::to_string(ps.size()))); place[ps.back().id] = {int(src.size()), int(ps.size()) - 1}; describe(ps.back(), false); outs.push_back(ps.back()); g_outNames.push_back(ps.back().id); }
            src.push_back(std::make_shared<Source>(ps));
        }
        for (int k = 1 + int(r.below(4)); k > 0; k--)
        {
            std::vector<PortCfg> ps;
            for (int o = 1 + int(r.chance(1, 4)); o > 0; o--) { ps.push_back(port("D" + std::to_string(dst.size()) + "." + std::to_string(ps.size()))); place[ps.back().id] = {int(dst.size()), int(ps.size()) - 1}; describe(ps.back(), true); ins.push_back(ps.back()); }
            dst.push_back(std::make_shared<Sink>(ps));
        }
        J("run").raw("ports", list(desc)).num("seed", (long long)(seed & 0x7fffffff)).log();
        std::map<std::string, std::string> byUid;
        for (size_t k = 0; k < src.size(); k++) byUid[src[k]->uid()] = "S" + std::to_string(k);
        for (size_t k = 0; k < dst.size(); k++) byUid[dst[k]->uid()] = "D" + std::to_string(k);
        int copiers = 0;
        {
            auto t = Pothos::Topology::make();
            if (r.chance(1, 2)) t->setThreadPool(Pothos::ThreadPool(Pothos::ThreadPoolArgs(1 + r.below(3))));
            std::set<std::pair<std::string, std::string>> flows;
            auto toggle = [&]() {
                const auto s = outs[r.below(unsigned(outs.size()))].id, d = ins[r.below(unsigned(ins.size()))].id;
                const auto a = place[s], b = place[d];
                const auto sp = std::to_string(a.second), dp = std::to_string(b.second);
                if (flows.count({s, d}))
                {
                    t->disconnect(std::static_pointer_cast<Pothos::Block>(src[size_t(a.first)]), sp, std::static_pointer_cast<Pothos::Block>(dst[size_t(b.first)]), dp);
                    flows.erase({s, d});
                    J("disconnect").str("s", s).str("d", d).log();
                }
                else
                {
                    t->connect(std::static_pointer_cast<Pothos::Block>(src[size_t(a.first)]), sp, std::static_pointer_cast<Pothos::Block>(dst[size_t(b.first)]), dp);
                    flows.insert({s, d});
                    J("connect").str("s", s).str("d", d).log();
                }
            };
            auto fire = [&](int n) { for (auto &b : src) b->call("fire", n); };
            // everything sent, everything that arrived, where the memory came from
            auto probe = [&](bool quietly) {
                t->waitInactive(0.01, 2.0);
                std::vector<std::string> sent, got, mgr;
                std::lock_guard<std::mutex> l(g_m);
                for (auto &x : g_sent) sent.push_back(J().str("o", x.first).nums("n", x.second.second).done());
                for (auto &x : g_got) got.push_back(J().str("o", x.first.first).str("i", x.first.second).nums("n", x.second).done());
                for (auto &x : g_mgr) mgr.push_back(J().str("o", x.first).strs("m", x.second).done());
                J("probe").boolean("quiet", quietly).raw("sent", list(sent)).raw("got", list(got)).raw("mgr", list(mgr)).log();
                g_sent.clear(); g_got.clear(); g_mgr.clear();
            };
            auto commit = [&]() {
                const bool noisy = r.chance(2, 3);
                std::thread noise;
                if (noisy) { fire(1 + int(r.below(6))); const int n = int(r.below(5)); if (n) noise = std::thread([&fire, n] { fire(n); }); }
                bool ok = true; std::string what;
                try { t->commit(); }
                catch (const Pothos::Exception &ex) { ok = false; what = ex.displayText(); }
                if (noise.joinable()) noise.join();
                auto o = json::parse(t->dumpJSON("{\"mode\":\"rendered\"}"));
                std::vector<std::string> c;
                auto nameOf = [&](const json &x, const char *i, const char *p) {
                    const auto uid = x[i].get<std::string>();
                    if (!byUid.count(uid)) byUid[uid] = "C" + std::to_string(copiers++);
                    const auto n = byUid[uid];
                    return n[0] == 'C' ? n : n + "." + x[p].get<std::string>();
                };
                for (auto &x : o["connections"]) { const auto a = nameOf(x, "srcId", "srcName"); const auto b = nameOf(x, "dstId", "dstName"); c.push_back("[" + q(a) + "," + q(b) + "]"); }
                J("commit").boolean("ok", ok).raw("conns", list(c)).str("what", what).log();
                probe(false);
                fire(1 + int(r.below(3)));
                probe(true);
            };
            for (int k = 1 + int(r.below(5)); k > 0; k--) toggle();
            commit();
            for (int k = 1 + int(r.below(5)); k > 0; k--)
            {
                for (int e = int(r.below(3)); e > 0; e--) toggle();
                commit();
            }
        }
        src.clear(); dst.clear();
        std::lock_guard<std::mutex> l(g_m);
        J("end").log();
    }
    vf::schedEnd();
}

int main(int argc, char **argv)
{
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && personality(ADDR_NO_RANDOMIZE) != -1 && !getenv("VF_NOASLR"))
    {
        setenv("VF_NOASLR", "1", 1);
        execv("/proc/self/exe", argv);
    }
    vf::Args a(argc, argv);
    Poco::Logger::root().setChannel(new Poco::NullChannel());
    Poco::Logger::root().setLevel(0);
    if (a.has("out")) vf::logOpen(a.get("out", "").c_str());
    const uint64_t s0 = uint64_t(a.num("seed", 1));
    const int n = int(a.num("n", 1));
    alarm(unsigned(a.num("limit", 300)));
    for (int k = 0; k < n; k++) oneRun(s0 * 1000003 + uint64_t(k));
    vf::logFlush();
    return 0;
}
