// Conformance driver for topologies as descriptions of a graph: hierarchy,
// connect, disconnect, commit, and the views of it that can be asked for.
#include "vf.hpp"
#include <Pothos/Framework.hpp>
#include <Poco/Logger.h>
#include <Poco/NullChannel.h>
#include <json.hpp>
#include <algorithm>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sys/personality.h>
#include <thread>
#include <unistd.h>

using vf::J;
using vf::Rng;
using json = nlohmann::json;

static std::mutex g_m;
static std::vector<std::string> g_got; // edges over which something arrived
static std::set<std::string> g_alive;

static std::string quad(const std::string &a, const std::string &b, const std::string &c, const std::string &d)
{
    return "[\"" + J::esc(a) + "\",\"" + J::esc(b) + "\",\"" + J::esc(c) + "\",\"" + J::esc(d) + "\"]";
}
static std::string list(const std::vector<std::string> &v)
{
    std::string s = "[";
    for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + v[i];
    return s + "]";
}

struct Leaf : Pothos::Block
{
    const std::string tag;
    Leaf(const std::string &n, const std::string &name, const std::vector<std::string> &ins, const std::vector<std::string> &outs): tag(n)
    {
        this->setName(name);
        for (auto &p : ins) this->setupInput(p, "int");
        for (auto &p : outs) this->setupOutput(p, "int");
        this->registerCall(this, "fire", &Leaf::fire);
        std::lock_guard<std::mutex> l(g_m); g_alive.insert(n);
    }
    ~Leaf() { std::lock_guard<std::mutex> l(g_m); g_alive.erase(tag); }
    void fire()
    {
        for (auto o : this->allOutputs()) o.second->postMessage(std::string(tag + "\x1f" + o.first));
    }
    void work()
    {
        for (auto i : this->allInputs()) while (i.second->hasMessage())
        {
            const auto s = i.second->popMessage().extract<std::string>();
            const auto k = s.find('\x1f');
            std::lock_guard<std::mutex> l(g_m);
            g_got.push_back(quad(s.substr(0, k), s.substr(k + 1), tag, i.first));
        }
    }
};

struct Node
{
    std::string name;
    bool topo;
    int parent; // index of the topology it belongs to
    std::shared_ptr<Leaf> leaf;
    std::shared_ptr<Pothos::Topology> t;
    std::vector<std::string> ins, outs;
    Pothos::Object obj() const { return topo ? Pothos::Object(t) : Pothos::Object(std::static_pointer_cast<Pothos::Block>(leaf)); }
};
struct Fl { int s; std::string sp; int d; std::string dp; };

static std::vector<std::string> portNames(std::vector<std::string> v) { std::vector<std::string> o; for (auto &x : v) o.push_back("\"" + J::esc(x) + "\""); return o; }

static void oneRun(uint64_t seed, bool pass)
{
    Rng r(seed);
    vf::SchedOpts so;
    so.seed = seed;
    so.strategy = r.chance(1, 2) ? vf::RANDOM : vf::PCT;
    so.syncPeriod = 2u << r.below(5);
    so.plainPeriod = r.chance(3, 4) ? 0 : 400;
    so.pctDepth = 1 + r.below(4);
    so.tickNs = 100;
    vf::schedBegin(so);
    {
        const int nt = 1 + r.below(4), nl = std::max(nt, 2 + int(r.below(4)));
        std::vector<Node> N;
        // names are for the user's eyes only: they need not differ
        const unsigned naming = r.below(4);
        auto nameOf = [&](const std::string &n) -> std::string { return naming == 0 ? n : naming == 1 ? "one" : naming == 2 ? "" : (r.chance(1, 2) ? n.substr(0, 1) : n); };
        for (int k = 0; k < nt; k++)
        {
            Node n; n.name = "T" + std::to_string(k); n.topo = true; n.parent = k ? (r.chance(1, 2) ? k - 1 : int(r.below(unsigned(k)))) : -1;
            n.t = Pothos::Topology::make(); n.t->setName(nameOf(n.name));
            N.push_back(n);
        }
        for (int k = 0; k < nl; k++)
        {
            Node n; n.name = "L" + std::to_string(k); n.topo = false; n.parent = k < nt ? k : int(r.below(unsigned(nt)));
            static const std::vector<std::vector<std::string>> sets = {{"0"}, {"0", "1"}, {"x"}, {"0", "x"}, {"2"}, {"0", "x y"}, {}};
            n.ins = sets[r.below(r.chance(1, 3) ? 7 : 2)]; n.outs = sets[r.below(r.chance(1, 3) ? 7 : 2)];
            n.leaf.reset(new Leaf(n.name, nameOf(n.name), n.ins, n.outs));
            N.push_back(n);
        }
        {
            std::vector<std::string> v;
            for (auto &n : N) v.push_back("{\"n\":\"" + n.name + "\",\"topo\":" + (n.topo ? "true" : "false") + ",\"ins\":" + list(portNames(n.ins)) + ",\"outs\":" + list(portNames(n.outs)) + "}");
            J("run").raw("nodes", list(v)).num("seed", (long long)(seed & 0x7fffffff)).log();
        }
        std::map<std::string, std::string> byUid;
        for (auto &n : N) byUid[n.topo ? n.t->uid() : n.leaf->uid()] = n.name;
        std::vector<std::vector<Fl>> flows(static_cast<size_t>(nt));

        static const std::vector<std::string> joints = {"0", "1", "p"};
        auto pickPort = [&](int t, int o, bool src) -> std::string {
            const auto &n = N[size_t(o)];
            if (r.chance(1, 25)) return r.chance(1, 2) ? "nope" : "7";
            if (n.topo && o == t) return joints[r.below(3)];
            if (n.topo)
            {
                auto v = src ? n.t->outputPortNames() : n.t->inputPortNames();
                return v.empty() ? joints[r.below(3)] : v[r.below(unsigned(v.size()))];
            }
            const auto &v = src ? n.outs : n.ins;
            if (r.chance(1, 5)) return std::to_string(r.below(5)); // may be allocated on demand
            return v.empty() ? "0" : v[r.below(unsigned(v.size()))];
        };
        auto allPorts = [&]() {
            std::vector<std::vector<std::string>> v;
            for (auto &n : N) { v.push_back(n.topo ? n.t->inputPortNames() : n.leaf->inputPortNames()); v.push_back(n.topo ? n.t->outputPortNames() : n.leaf->outputPortNames()); }
            return v;
        };
        std::vector<std::vector<std::string>> before;
        auto rec = [&](const char *e, int t, const Fl &f, bool ok) {
            J(e).str("t", N[size_t(t)].name).str("s", N[size_t(f.s)].name).str("sp", f.sp).str("d", N[size_t(f.d)].name).str("dp", f.dp).boolean("ok", ok).boolean("kept", before == allPorts()).log();
        };
        auto connect = [&](int t, const Fl &f) {
            bool ok = true;
            before = allPorts();
            try { N[size_t(t)].t->_connect(N[size_t(f.s)].obj(), f.sp, N[size_t(f.d)].obj(), f.dp); }
            catch (const Pothos::TopologyConnectError &) { ok = false; }
            if (ok) flows[size_t(t)].push_back(f);
            rec("connect", t, f, ok);
        };
        auto disconnect = [&](int t, const Fl &f) {
            bool ok = true;
            before = allPorts();
            try { N[size_t(t)].t->_disconnect(N[size_t(f.s)].obj(), f.sp, N[size_t(f.d)].obj(), f.dp); }
            catch (const Pothos::TopologyConnectError &) { ok = false; }
            auto &v = flows[size_t(t)];
            for (size_t k = 0; ok && k < v.size(); k++) if (v[k].s == f.s && v[k].sp == f.sp && v[k].d == f.d && v[k].dp == f.dp) { v.erase(v.begin() + long(k)); break; }
            rec("disconnect", t, f, ok);
        };
        auto randomFlow = [&](int t) {
            std::vector<int> c;
            for (int k = 0; k < int(N.size()); k++) if (N[size_t(k)].parent == t) { c.push_back(k); c.push_back(k); }
            if (t || r.chance(1, 10)) c.push_back(t);
            Fl f;
            do {
                f.s = c[r.below(unsigned(c.size()))]; f.d = c[r.below(unsigned(c.size()))];
            } while (!pass && f.s == t && f.d == t);
            f.sp = pickPort(t, f.s, true); f.dp = pickPort(t, f.d, false);
            return f;
        };
        auto ports = [&](int k) {
            auto &n = N[size_t(k)];
            auto in = n.topo ? n.t->inputPortNames() : n.leaf->inputPortNames();
            if (!n.topo) in.erase(std::remove(in.begin(), in.end(), std::string("fire")), in.end()); // the slot of the registered call
            J("ports").str("n", n.name).strs("ins", in).strs("outs", n.topo ? n.t->outputPortNames() : n.leaf->outputPortNames()).log();
        };
        auto dump = [&](int t, const std::string &mode) {
            auto o = json::parse(N[size_t(t)].t->dumpJSON("{\"mode\":\"" + mode + "\"}"));
            std::vector<std::string> c, b;
            for (auto &x : o["connections"]) c.push_back(quad(byUid[x["srcId"].get<std::string>()], x["srcName"].get<std::string>(), byUid[x["dstId"].get<std::string>()], x["dstName"].get<std::string>()));
            if (o["blocks"].is_object()) for (auto it = o["blocks"].begin(); it != o["blocks"].end(); ++it) b.push_back("\"" + byUid[it.key()] + "\"");
            J("dump").str("t", N[size_t(t)].name).str("mode", mode).raw("conns", list(c)).raw("blocks", list(b)).log();
        };
        auto stats = [&]() {
            auto o = json::parse(N[0].t->queryJSONStats());
            std::vector<std::string> b;
            if (o.is_object()) for (auto it = o.begin(); it != o.end(); ++it) b.push_back("\"" + byUid[it.key()] + "\"");
            J("stats").raw("blocks", list(b)).log();
        };
        auto probe = [&]() {
            N[0].t->waitInactive(0.005, 2.0);
            { std::lock_guard<std::mutex> l(g_m); g_got.clear(); }
            for (auto &n : N) if (!n.topo) n.leaf->call("fire");
            N[0].t->waitInactive(0.01, 2.0);
            std::vector<std::string> got, act;
            { std::lock_guard<std::mutex> l(g_m); got = g_got; }
            std::sort(got.begin(), got.end());
            for (auto &n : N) if (!n.topo && n.leaf->isActive()) act.push_back("\"" + n.name + "\"");
            J("probe").raw("got", list(got)).raw("act", list(act)).log();
        };
        auto commit = [&]() {
            bool ok = true; std::string what;
            try { N[0].t->commit(); }
            catch (const Pothos::Exception &ex) { ok = false; what = ex.displayText(); }
            J("commit").boolean("ok", ok).str("what", what).log();
            probe();
        };
        // a well connected hierarchy to begin with
        if (r.chance(2, 3)) for (int t = nt - 1; t >= 0; t--)
        {
            std::vector<int> lv, sv;
            for (int k = 0; k < int(N.size()); k++) if (N[size_t(k)].parent == t) (N[size_t(k)].topo ? sv : lv).push_back(k);
            auto someSrc = [&](int not_) {
                Fl f; f.d = 0;
                for (int k = 0; k < 6; k++)
                {
                    const unsigned w = r.below(4);
                    f.s = w == 0 && t ? t : w == 1 && !sv.empty() ? sv[r.below(unsigned(sv.size()))] : lv[r.below(unsigned(lv.size()))];
                    if (f.s == not_) continue;
                    if (N[size_t(f.s)].topo && f.s != t && N[size_t(f.s)].t->outputPortNames().empty()) continue;
                    break;
                }
                f.sp = pickPort(t, f.s, true);
                return f;
            };
            auto someDst = [&](Fl f, int not_) {
                for (int k = 0; k < 6; k++)
                {
                    const unsigned w = r.below(4);
                    f.d = w == 0 && t ? t : w == 1 && !sv.empty() ? sv[r.below(unsigned(sv.size()))] : lv[r.below(unsigned(lv.size()))];
                    if (f.d == not_) continue;
                    if (N[size_t(f.d)].topo && f.d != t && N[size_t(f.d)].t->inputPortNames().empty()) continue;
                    break;
                }
                f.dp = pickPort(t, f.d, false);
                return f;
            };
            auto put = [&](const Fl &f) { if (pass || !(f.s == t && f.d == t)) connect(t, f); };
            for (int k = 1 + int(r.below(3)); k > 0; k--) put(someDst(someSrc(-1), -1));
            if (t && pass && r.chance(1, 2)) for (int k = 1 + int(r.below(3)); k > 0; k--)
            {
                Fl f; f.s = f.d = t; f.sp = pickPort(t, t, true); f.dp = pickPort(t, t, false);
                put(f);
            }
            for (int x : sv)
            {
                for (auto &nm : N[size_t(x)].t->inputPortNames()) if (r.chance(3, 4)) { Fl f = someSrc(r.chance(1, 8) ? -1 : x); f.d = x; f.dp = nm; put(f); }
                for (auto &nm : N[size_t(x)].t->outputPortNames()) if (r.chance(3, 4)) { Fl f; f.s = x; f.sp = nm; put(someDst(f, r.chance(1, 8) ? -1 : x)); }
            }
        }
        else
        for (int t = nt - 1; t >= 0; t--) for (int k = 1 + int(r.below(4)); k > 0; k--) connect(t, randomFlow(t));
        const int steps = 5 + r.below(20);
        for (int k = 0; k < steps; k++)
        {
            const int t = int(r.below(unsigned(nt)));
            const unsigned what = r.below(100);
            // blocks keep running while they are being connected
            std::thread noise;
            if (r.chance(1, 3))
            {
                auto b = N[size_t(nt) + r.below(unsigned(nl))].leaf;
                const int fires = 1 + int(r.below(4));
                noise = std::thread([b, fires] { for (int i = 0; i < fires; i++) b->call("fire"); });
            }
            if (what < 40) connect(t, randomFlow(t));
            else if (what < 60 && !flows[size_t(t)].empty()) { const Fl f = flows[size_t(t)][r.below(unsigned(flows[size_t(t)].size()))]; disconnect(t, f); }
            else if (what < 64 && !flows[size_t(t)].empty()) { const Fl f = flows[size_t(t)][r.below(unsigned(flows[size_t(t)].size()))]; connect(t, f); }
            else if (what < 68) disconnect(t, randomFlow(t));
            else if (what < 71)
            {
                const bool rc = r.chance(1, 2);
                N[size_t(t)].t->disconnectAll(rc);
                std::set<int> todo{t}; // follow what the driver believes, to choose later arguments
                while (!todo.empty())
                {
                    const int x = *todo.begin(); todo.erase(todo.begin());
                    if (rc) for (auto &f : flows[size_t(x)]) { if (N[size_t(f.s)].topo && f.s != x) todo.insert(f.s); if (N[size_t(f.d)].topo && f.d != x) todo.insert(f.d); }
                    flows[size_t(x)].clear();
                }
                J("dall").str("t", N[size_t(t)].name).boolean("rec", rc).log();
            }
            else if (what < 78) ports(int(r.below(unsigned(N.size()))));
            else if (what < 84) dump(t, "top");
            else if (what < 87) dump(0, "rendered");
            else if (what < 90) dump(0, "flat");
            else if (what < 92) stats();
            else { if (noise.joinable()) noise.join(); commit(); }
            if (noise.joinable()) noise.join();
        }
        commit();
        dump(0, "rendered");
        dump(0, "flat");
        stats();
        for (int k = 0; k < int(N.size()); k++) ports(k);
        while (N.size() > 1) N.pop_back(); // only the topology keeps the rest alive
        J("held").strs("alive", g_alive).log();
        N.clear();
        J("end").num("alive", (long long)g_alive.size()).log();
    }
    vf::schedEnd();
}

int main(int argc, char **argv)
{
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && personality(ADDR_NO_RANDOMIZE) != -1 && !getenv("VF_NOASLR"))
    {
        setenv("VF_NOASLR", "1", 1);
        execv("/proc/self/exe", argv);
    }
    vf::Args a(argc, argv);
    Poco::Logger::root().setChannel(new Poco::NullChannel());
    Poco::Logger::root().setLevel(0);
    if (a.has("out")) vf::logOpen(a.get("out", "").c_str());
    const uint64_t s0 = uint64_t(a.num("seed", 1));
    const int n = int(a.num("n", 1));
    alarm(unsigned(a.num("limit", 300)));
    for (int k = 0; k < n; k++) oneRun(s0 * 1000003 + uint64_t(k), a.num("pass", 1) != 0);
    vf::logFlush();
    return 0;
}
