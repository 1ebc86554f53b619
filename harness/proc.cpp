// Conformance driver for topologies that span processes. The processes are emulated: each "remote" one is a
// thread with a real handler that talks over in-memory pipes to the real client; the process identity that the
// library sees depends on the thread. The network blocks, which are not part of the library, are stand-ins
// that share a queue.
// LINK: -Wl,--wrap=_ZN6Pothos6System8HostInfo3getEv
// LINK: -Wl,--wrap=_ZN6Pothos12RemoteClient18lookupIpFromNodeIdENSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE
#include "vf.hpp"
#include <Pothos/Framework.hpp>
#include <Pothos/Proxy.hpp>
#include <Pothos/Remote.hpp>
#include <Pothos/System/HostInfo.hpp>
#include <Poco/Logger.h>
#include <Poco/NullChannel.h>
#include <Poco/URI.h>
#include <json.hpp>
#include <algorithm>
#include <condition_variable>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <streambuf>
#include <sys/personality.h>
#include <thread>
#include <unistd.h>

using Pothos::Proxy;
using vf::J;
using vf::Rng;
using json = nlohmann::json;

static thread_local int tl_pid = 0;
static int g_node[3];
Pothos::System::HostInfo realGet() asm("__real__ZN6Pothos6System8HostInfo3getEv");
Pothos::System::HostInfo wrapGet() asm("__wrap__ZN6Pothos6System8HostInfo3getEv");
Pothos::System::HostInfo wrapGet()
{
    auto i = realGet();
    i.pid = std::to_string(100 + tl_pid);
    i.nodeId = "node" + std::to_string(g_node[tl_pid]);
    i.nodeName = "host" + std::to_string(g_node[tl_pid]);
    return i;
}
std::string wrapLookup(const std::string nodeId) asm("__wrap__ZN6Pothos12RemoteClient18lookupIpFromNodeIdENSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE");
std::string wrapLookup(const std::string nodeId) { return "10.0.0." + nodeId.substr(4); }

static std::mutex g_m;
static std::map<std::string, std::vector<int>> g_sent;
static std::map<std::pair<std::string, std::string>, std::vector<int>> g_got;
static std::vector<std::string> g_outNames;
static std::map<std::string, std::string> g_byUid; // block uid -> name
static int g_seq = 0, g_fail = 0, g_alive = 0;
static unsigned g_mood = 0;
static Rng g_rng(1);
static unsigned rnd(unsigned n) { std::lock_guard<std::mutex> l(g_m); return g_rng.below(n); }

static std::string list(const std::vector<std::string> &v)
{
    std::string s = "[";
    for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + v[i];
    return s + "]";
}
static std::string q(const std::string &s) { return "\"" + J::esc(s) + "\""; }

// ------------------------------------------------------------------ pipes
struct Link
{
    std::mutex m;
    std::condition_variable c;
    std::deque<char> q[2];
    bool closed = false;
    void put(int d, const char *s, size_t n)
    {
        std::unique_lock<std::mutex> l(m);
        if (!closed) q[d].insert(q[d].end(), s, s + n);
        c.notify_all();
    }
    size_t get(int d, char *s, size_t n)
    {
        std::unique_lock<std::mutex> l(m);
        while (q[d].empty() && !closed) c.wait(l);
        size_t k = 0;
        while (k < n && !q[d].empty()) { s[k++] = q[d].front(); q[d].pop_front(); }
        return k;
    }
    void close() { std::unique_lock<std::mutex> l(m); closed = true; c.notify_all(); }
};
struct InBuf : std::streambuf
{
    Link &k; int d; char b[4096];
    InBuf(Link &k, int d) : k(k), d(d) {}
    int_type underflow() override
    {
        const size_t n = k.get(d, b, sizeof b);
        if (!n) return traits_type::eof();
        setg(b, b, b + n);
        return traits_type::to_int_type(b[0]);
    }
};
struct OutBuf : std::streambuf // everything up to a flush at once
{
    Link &k; int d; std::string s;
    OutBuf(Link &k, int d) : k(k), d(d) {}
    int_type overflow(int_type c) override { s += char(c); return c; }
    std::streamsize xsputn(const char *p, std::streamsize n) override { s.append(p, size_t(n)); return n; }
    int sync() override { k.put(d, s.data(), s.size()); s.clear(); return 0; }
};

// ------------------------------------------------------------------ blocks
struct Source : Pothos::Block
{
    std::vector<std::string> ids;
    int pending = 0;
    Source(const std::string &name, int n)
    {
        for (int k = 0; k < n; k++) { this->setupOutput(k, "int32"); ids.push_back(name + "." + std::to_string(k)); }
        this->registerCall(this, "fire", &Source::fire);
        std::lock_guard<std::mutex> l(g_m);
        g_byUid[this->uid()] = name;
    }
    static Pothos::Block *make(const std::string &name, int n) { return new Source(name, n); }
    void fire(int n) { pending += n; }
    void work()
    {
        if (!pending) return;
        for (auto o : this->outputs()) if (o->elements() == 0) return;
        for (auto o : this->outputs())
        {
            const auto &id = ids[size_t(o->index())];
            {
                std::lock_guard<std::mutex> l(g_m);
                const int idx = int(std::find(g_outNames.begin(), g_outNames.end(), id) - g_outNames.begin());
                const int seq = ++g_seq;
                o->buffer().as<int32_t *>()[0] = (idx << 20) | seq;
                g_sent[id].push_back(seq);
            }
            o->produce(1);
        }
        if (--pending) this->yield();
    }
};
struct Sink : Pothos::Block
{
    std::vector<std::string> ids;
    Sink(const std::string &name, int n)
    {
        for (int k = 0; k < n; k++) { this->setupInput(k, "int32"); ids.push_back(name + "." + std::to_string(k)); }
        std::lock_guard<std::mutex> l(g_m);
        g_byUid[this->uid()] = name;
    }
    static Pothos::Block *make(const std::string &name, int n) { return new Sink(name, n); }
    void work()
    {
        for (auto i : this->inputs())
        {
            const size_t n = i->elements();
            std::lock_guard<std::mutex> l(g_m);
            for (size_t k = 0; k < n; k++)
            {
                const uint32_t v = i->buffer().as<const uint32_t *>()[k];
                const size_t idx = v >> 20;
                g_got[{idx < g_outNames.size() ? g_outNames[idx] : "?", ids[size_t(i->index())]}].push_back(int(v & 0xfffff));
            }
            i->consume(n);
        }
    }
};
static Pothos::BlockRegistry g_regSource("/vf/source", &Source::make), g_regSink("/vf/sink", &Sink::make);

// ------------------------------------------------------------------ network blocks
struct NetSource;
struct Channel
{
    std::mutex m, rm;
    std::deque<char> q;
    NetSource *reader = nullptr;
};
static std::map<int, std::shared_ptr<Channel>> g_channels;
struct NetInfo { int port = 0, ends = 0; int pid[2] = {-1, -1}; std::string mode[2], host[2]; };
static std::map<int, NetInfo> g_nets; // by port
struct NetBlock : Pothos::Block
{
    std::shared_ptr<Channel> ch;
    int port = 0;
    NetBlock(int side, const std::string &uri, const std::string &mode)
    {
        std::lock_guard<std::mutex> l(g_m);
        if (g_fail && --g_fail == 0) throw Pothos::RuntimeException("network block", "injected failure");
        Poco::URI u(uri);
        if (mode == "BIND")
        {
            port = int(g_nets.size()) + 5001;
            g_nets[port].port = port;
            g_channels[port] = std::make_shared<Channel>();
        }
        else port = u.getPort();
        if (!g_nets.count(port)) throw Pothos::RuntimeException("network block", "nobody listens at " + uri);
        ch = g_channels[port];
        auto &n = g_nets[port];
        n.ends++;
        n.pid[side] = tl_pid; n.mode[side] = mode; n.host[side] = u.getHost();
        g_byUid[this->uid()] = (side ? "R" : "T") + std::to_string(port);
        g_alive++;
        this->registerCall(this, "getActualPort", &NetBlock::getActualPort);
    }
    ~NetBlock() { std::lock_guard<std::mutex> l(g_m); g_alive--; }
    std::string getActualPort() const { return std::to_string(port); }
};
struct NetSource : NetBlock
{
    NetSource(const std::string &uri, const std::string &mode): NetBlock(1, uri, mode)
    {
        this->setupOutput(0);
        this->registerCall(this, "wake", &NetSource::wake);
        std::lock_guard<std::mutex> l(ch->rm);
        ch->reader = this;
    }
    ~NetSource() { std::lock_guard<std::mutex> l(ch->rm); ch->reader = nullptr; }
    static Pothos::Block *make(const std::string &uri, const std::string &mode) { return new NetSource(uri, mode); }
    void wake() {}
    void work()
    {
        auto o = this->output(0);
        std::lock_guard<std::mutex> l(ch->m);
        size_t n = std::min(o->elements(), ch->q.size()) / 4 * 4;
        if (g_mood == 1) n = std::min<size_t>(n, 4);
        if (g_mood == 2 && n && rnd(2)) { this->yield(); return; }
        if (!n) return;
        for (size_t k = 0; k < n; k++) { o->buffer().as<char *>()[k] = ch->q.front(); ch->q.pop_front(); }
        o->produce(n);
        if (!ch->q.empty()) this->yield();
    }
};
struct NetSink : NetBlock
{
    NetSink(const std::string &uri, const std::string &mode): NetBlock(0, uri, mode) { this->setupInput(0); }
    static Pothos::Block *make(const std::string &uri, const std::string &mode) { return new NetSink(uri, mode); }
    void work()
    {
        auto i = this->input(0);
        const size_t n = i->elements();
        if (!n) return;
        {
            std::lock_guard<std::mutex> l(ch->m);
            const char *p = i->buffer().as<const char *>();
            ch->q.insert(ch->q.end(), p, p + n);
        }
        i->consume(n);
        std::lock_guard<std::mutex> l(ch->rm);
        if (ch->reader) static_cast<Pothos::Block *>(ch->reader)->call("wake");
    }
};
static Pothos::BlockRegistry g_regNs("/blocks/network_source", &NetSource::make), g_regNk("/blocks/network_sink", &NetSink::make);

// ------------------------------------------------------------------ a remote process
struct Conn
{
    Link link;
    InBuf sIn, cIn; OutBuf sOut, cOut;
    std::istream si, ci; std::ostream so, co;
    std::thread server;
    Pothos::ProxyEnvironment::Sptr env;
    Conn(int pid): sIn(link, 0), cIn(link, 1), sOut(link, 1), cOut(link, 0), si(&sIn), ci(&cIn), so(&sOut), co(&cOut)
    {
        server = std::thread([this, pid] {
            tl_pid = pid;
            try { Pothos::RemoteHandler h("peer" + std::to_string(pid)); h.runHandler(si, so); } catch (const Pothos::Exception &) {}
            link.close();
        });
        env = Pothos::RemoteClient::makeEnvironment(ci, co, "managed");
    }
    void close() { env.reset(); link.close(); server.join(); }
};

static void oneRun(uint64_t seed)
{
    Rng r(seed);
    vf::SchedOpts so;
    so.seed = seed;
    so.strategy = r.chance(1, 2) ? vf::RANDOM : vf::PCT;
    so.syncPeriod = 4u << r.below(6);
    so.plainPeriod = 0;
    so.pctDepth = 1 + r.below(4);
    so.tickNs = 100;
    g_rng = Rng(seed + 77); g_seq = 0; g_sent.clear(); g_got.clear(); g_outNames.clear(); g_byUid.clear(); g_nets.clear(); g_channels.clear(); g_fail = 0; g_alive = 0;
    g_mood = r.below(3);
    g_node[0] = 0; g_node[1] = int(r.below(2)); g_node[2] = int(r.below(3));
    vf::schedBegin(so);
    {
        const int np = 2 + int(r.chance(2, 3));
        std::vector<std::unique_ptr<Conn>> conns;
        std::vector<std::vector<Pothos::ProxyEnvironment::Sptr>> envs; envs.resize(size_t(np));
        envs[0].push_back(Pothos::ProxyEnvironment::make("managed"));
        for (int p = 1; p < np; p++)
            for (int k = 1 + int(r.chance(1, 4)); k > 0; k--) { conns.emplace_back(new Conn(p)); envs[size_t(p)].push_back(conns.back()->env); }
        auto envOf = [&](int p) { auto &e = envs[size_t(p)]; return e[r.below(unsigned(e.size()))]; };

        struct Place { Proxy block, top; int pid; std::string port; };
        std::map<std::string, Place> place;
        std::vector<std::string> outs, ins, desc, procs;
        std::vector<Proxy> sources;
        auto put = [&](bool in, int k) {
            const std::string name = (in ? "D" : "S") + std::to_string(k);
            const int pid = int(r.below(unsigned(np))), ports = 1 + int(r.chance(1, 3));
            auto env = envOf(pid);
            Proxy b = env->findProxy("Pothos/BlockRegistry").call(in ? "/vf/sink" : "/vf/source", name, ports);
            if (!in) sources.push_back(b);
            Proxy top = b;
            const unsigned wrap = r.below(4);
            if (wrap < 2)
            {
                auto te = wrap ? env : envs[0][0];
                top = te->findProxy("Pothos/Topology").call("make");
                for (int p = 0; p < ports; p++)
                {
                    const auto ps = std::to_string(p);
                    if (in) top.call("connect", top, "w" + ps, b, ps);
                    else top.call("connect", b, ps, top, "w" + ps);
                }
            }
            for (int p = 0; p < ports; p++)
            {
                const auto id = name + "." + std::to_string(p);
                place[id] = Place{b, top, pid, (wrap < 2 ? "w" : "") + std::to_string(p)};
                (in ? ins : outs).push_back(id);
                if (!in) g_outNames.push_back(id);
                desc.push_back(J().str("p", id).num("proc", pid).num("wrap", wrap).done());
            }
        };
        for (int k = 0, n = 1 + int(r.below(3)); k < n; k++) put(false, k);
        for (int k = 0, n = 1 + int(r.below(4)); k < n; k++) put(true, k);
        J("run").raw("ports", list(desc)).nums("node", std::vector<int>(g_node, g_node + 3)).num("seed", (long long)(seed & 0x7fffffff)).log();
        {
            auto t = Pothos::Topology::make();
            if (r.chance(1, 2)) t->setThreadPool(Pothos::ThreadPool(Pothos::ThreadPoolArgs(1 + r.below(3))));
            std::set<std::pair<std::string, std::string>> flows;
            auto toggle = [&]() {
                const auto s = outs[r.below(unsigned(outs.size()))], d = ins[r.below(unsigned(ins.size()))];
                auto &a = place[s]; auto &b = place[d];
                if (flows.count({s, d}))
                {
                    t->disconnect(a.top, a.port, b.top, b.port);
                    flows.erase({s, d});
                    J("disconnect").str("s", s).str("d", d).log();
                }
                else
                {
                    t->connect(a.top, a.port, b.top, b.port);
                    flows.insert({s, d});
                    J("connect").str("s", s).str("d", d).log();
                }
            };
            auto fire = [&](int n) { for (auto &b : sources) b.call("fire", n); };
            auto probe = [&](bool quietly) {
                t->waitInactive(0.02, 20.0);
                std::vector<std::string> sent, got;
                std::lock_guard<std::mutex> l(g_m);
                for (auto &x : g_sent) sent.push_back(J().str("o", x.first).nums("n", x.second).done());
                for (auto &x : g_got) got.push_back(J().str("o", x.first.first).str("i", x.first.second).nums("n", x.second).done());
                J("probe").boolean("quiet", quietly).num("alive", g_alive).raw("sent", list(sent)).raw("got", list(got)).log();
                g_sent.clear(); g_got.clear();
            };
            auto commit = [&]() {
                std::thread noise;
                if (r.chance(2, 3)) { fire(1 + int(r.below(6))); const int n = int(r.below(5)); if (n) noise = std::thread([&fire, n] { fire(n); }); }
                { std::lock_guard<std::mutex> l(g_m); g_fail = r.chance(1, 6) ? 1 + int(r.below(3)) : 0; }
                bool ok = true; std::string what;
                try { t->commit(); }
                catch (const Pothos::Exception &ex) { ok = false; what = ex.displayText(); }
                if (noise.joinable()) noise.join();
                { std::lock_guard<std::mutex> l(g_m); g_fail = 0; }
                auto o = json::parse(t->dumpJSON("{\"mode\":\"rendered\"}"));
                std::vector<std::string> c, nets;
                {
                    std::lock_guard<std::mutex> l(g_m);
                    auto nameOf = [&](const json &x, const char *i, const char *p) {
                        const auto n = g_byUid[x[i].get<std::string>()];
                        return n[0] == 'R' || n[0] == 'T' ? n : n + "." + x[p].get<std::string>();
                    };
                    for (auto &x : o["connections"]) { const auto a = nameOf(x, "srcId", "srcName"); const auto b = nameOf(x, "dstId", "dstName"); c.push_back("[" + q(a) + "," + q(b) + "]"); }
                    for (auto &x : g_nets)
                    {
                        auto &n = x.second;
                        const int bind = n.mode[0] == "BIND" ? 0 : 1;
                        nets.push_back(J().str("t", "T" + std::to_string(n.port)).str("r", "R" + std::to_string(n.port)).num("ends", n.ends).num("tproc", n.pid[0]).num("rproc", n.pid[1])
                            .boolean("paired", n.mode[bind] == "BIND" && n.mode[1 - bind] == "CONNECT").num("binds", n.pid[bind]).strs("hosts", std::vector<std::string>{n.host[0], n.host[1]}).done());
                    }
                }
                J("commit").boolean("ok", ok).raw("conns", list(c)).raw("nets", list(nets)).str("what", what).log();
                probe(false);
                fire(1 + int(r.below(3)));
                probe(true);
            };
            for (int k = 1 + int(r.below(5)); k > 0; k--) toggle();
            commit();
            for (int k = 1 + int(r.below(4)); k > 0; k--)
            {
                for (int e = int(r.below(4)); e > 0; e--) toggle();
                commit();
            }
        }
        place.clear(); sources.clear(); envs.clear();
        { std::lock_guard<std::mutex> l(g_m); J("gone").num("alive", g_alive).log(); }
        for (auto &c : conns) c->close();
        J("end").log();
    }
    vf::schedEnd();
}

int main(int argc, char **argv)
{
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && personality(ADDR_NO_RANDOMIZE) != -1 && !getenv("VF_NOASLR"))
    {
        setenv("VF_NOASLR", "1", 1);
        execv("/proc/self/exe", argv);
    }
    vf::Args a(argc, argv);
    Poco::Logger::root().setChannel(new Poco::NullChannel());
    Poco::Logger::root().setLevel(0);
    if (a.has("out")) vf::logOpen(a.get("out", "").c_str());
    const uint64_t s0 = uint64_t(a.num("seed", 1));
    const int n = int(a.num("n", 1));
    alarm(unsigned(a.num("limit", 300)));
    for (int k = 0; k < n; k++) oneRun(s0 * 1000003 + uint64_t(k));
    vf::logFlush();
    return 0;
}
