// Conformance driver for the plugin registry: several threads add, remove and look up
// plugins in one tree; some plugins are event handlers.
#include "vf.hpp"
#include <Pothos/Callable.hpp>
#include <Pothos/Exception.hpp>
#include <Pothos/Object.hpp>
#include <Pothos/Plugin.hpp>
#include <Poco/Logger.h>
#include <functional>
#include <map>
#include <sys/personality.h>
#include <thread>
#include <unistd.h>

using vf::J;
using vf::Rng;
using Pothos::PluginRegistry;

static int g_run = 0;
static std::string g_prefix;
typedef std::vector<std::string> Path;

static std::string full(const Path &p)
{
    std::string s = g_prefix;
    for (auto &x : p) s += "/" + x;
    return s;
}

static Path rel(const std::string &s)
{
    Path p;
    if (s.compare(0, g_prefix.size(), g_prefix) != 0) return {"?" + s};
    size_t i = g_prefix.size();
    while (i < s.size())
    {
        const size_t j = s.find('/', i + 1);
        p.push_back(s.substr(i + 1, j == std::string::npos ? j : j - i - 1));
        i = j == std::string::npos ? s.size() : j;
    }
    return p;
}

static thread_local int t_id = 0;

struct Handler
{
    int id;
    int mode; // 0 plain, 1 looks things up, 2 throws
    void operator()(const Pothos::Plugin &p, const std::string &ev) const
    {
        int obj = -1;
        const auto &o = p.getObject();
        if (o && o.type() == typeid(int)) obj = o.extract<int>();
        else if (o) obj = -2;
        J("hev").num("t", t_id).num("h", id).strs("p", rel(p.getPath().toString())).num("o", obj).str("ev", ev).log();
        if (mode == 1)
        {
            (void)PluginRegistry::exists(p.getPath());
            (void)PluginRegistry::list(p.getPath());
        }
        if (mode == 2) throw Pothos::RuntimeException("handler " + std::to_string(id) + " throws");
    }
};

static void wrongSig1(const Pothos::Plugin &, const int &) { J("hev").num("t", t_id).num("h", 0).strs("p", Path{}).num("o", 0).str("ev", "wrong").log(); }
static int wrongSig2(const Pothos::Plugin &, const std::string &) { J("hev").num("t", t_id).num("h", 0).strs("p", Path{}).num("o", 0).str("ev", "wrong").log(); return 0; }
static void wrongSig3(const Pothos::Plugin &) { J("hev").num("t", t_id).num("h", 0).strs("p", Path{}).num("o", 0).str("ev", "wrong").log(); }

// what identifies the object of a plugin in the trace: >0 an int, <0 -2
static std::string g_names[8] = {"a", "b", "C", "d-1", "e_2", "9", "zz", "m"};

static Path somePath(Rng &r, unsigned width, unsigned depth)
{
    Path p;
    const unsigned n = r.chance(1, 12) ? 0 : 1 + r.below(depth);
    for (unsigned k = 0; k < n; k++) p.push_back(g_names[r.below(width)]);
    return p;
}

static std::string enc(const Path &p) // as a JSON list
{
    J j;
    j.strs("p", p);
    const auto s = j.done();
    return s.substr(5, s.size() - 6);
}

static void walk(const Pothos::PluginRegistryInfoDump &d, std::string &out)
{
    if (!d.objectType.empty())
    {
        int v = -2;
        if (d.objectType.find_first_not_of("0123456789") == std::string::npos) v = std::atoi(d.objectType.c_str());
        if (!out.empty()) out += ",";
        out += "[" + enc(rel(d.pluginPath)) + "," + std::to_string(v) + "]";
    }
    for (auto &s : d.subInfo) walk(s, out);
}

static const Pothos::PluginRegistryInfoDump *find(const Pothos::PluginRegistryInfoDump &d, const std::string &p)
{
    if (d.pluginPath == p) return &d;
    for (auto &s : d.subInfo) if (auto *x = find(s, p)) return x;
    return nullptr;
}

static void worker(int t, uint64_t seed, int steps, unsigned width, unsigned depth, int *ids)
{
    t_id = t;
    Rng r(seed);
    for (int k = 0; k < steps; k++)
    {
        const Path p = somePath(r, width, depth);
        const auto fp = full(p);
        const unsigned what = r.below(16);
        if (what < 5)
        {
            const int id = ++*ids * 8 + t;
            Pothos::Object o;
            int obj = id, h = 0;
            const unsigned kind = r.below(8);
            if (kind < 5) o = Pothos::Object(id);
            else if (kind < 7)
            {
                h = id; obj = -2;
                o = Pothos::Object(Pothos::Callable(std::function<void(const Pothos::Plugin &, const std::string &)>(Handler{id, int(r.below(3))})));
            }
            else
            {
                obj = -2;
                const unsigned w = r.below(4);
                if (w == 0) o = Pothos::Object(Pothos::Callable(&wrongSig1));
                else if (w == 1) o = Pothos::Object(Pothos::Callable(&wrongSig2));
                else if (w == 2) o = Pothos::Object(Pothos::Callable(&wrongSig3));
                else o = Pothos::Object(Pothos::Callable());
            }
            J("call").num("t", t).str("op", "add").strs("p", p).num("o", obj).num("h", h).log();
            bool ok = true;
            try { if (r.chance(1, 2)) PluginRegistry::add(Pothos::Plugin(fp, o)); else PluginRegistry::add(fp, o); }
            catch (const Pothos::PluginRegistryError &) { ok = false; }
            J("ret").num("t", t).boolean("ok", ok).log();
        }
        else if (what < 8)
        {
            J("call").num("t", t).str("op", "remove").strs("p", p).num("o", 0).num("h", 0).log();
            bool ok = true, same = true;
            int obj = 0;
            try
            {
                const auto q = PluginRegistry::remove(fp);
                same = q.getPath().toString() == fp;
                obj = q.getObject().type() == typeid(int) ? q.getObject().extract<int>() : -2;
            }
            catch (const Pothos::PluginRegistryError &) { ok = false; }
            J("ret").num("t", t).boolean("ok", ok).num("o", obj).boolean("same", same).log();
        }
        else if (what < 10)
        {
            J("call").num("t", t).str("op", "get").strs("p", p).num("o", 0).num("h", 0).log();
            bool ok = true, same = true;
            int obj = 0;
            try
            {
                const auto q = PluginRegistry::get(fp);
                same = q.getPath().toString() == fp;
                obj = q.getObject().type() == typeid(int) ? q.getObject().extract<int>() : -2;
            }
            catch (const Pothos::PluginRegistryError &) { ok = false; }
            J("ret").num("t", t).boolean("ok", ok).num("o", obj).boolean("same", same).log();
        }
        else if (what < 12)
        {
            const bool e = what == 10;
            J("call").num("t", t).str("op", e ? "empty" : "exists").strs("p", p).num("o", 0).num("h", 0).log();
            const bool b = e ? PluginRegistry::empty(fp) : PluginRegistry::exists(fp);
            J("ret").num("t", t).boolean("ok", b).log();
        }
        else if (what < 15)
        {
            J("call").num("t", t).str("op", "list").strs("p", p).num("o", 0).num("h", 0).log();
            const auto v = PluginRegistry::list(fp);
            J("ret").num("t", t).boolean("ok", true).strs("v", v).log();
        }
        else
        {
            J("call").num("t", t).str("op", "dump").strs("p", Path{}).num("o", 0).num("h", 0).log();
            const auto d = PluginRegistry::dump();
            std::string out;
            if (auto *x = find(d, g_prefix)) walk(*x, out);
            J("ret").num("t", t).boolean("ok", true).raw("v", "[" + out + "]").log();
        }
    }
}

static void paths(Rng &r)
{
    static const char alpha[] = "//////abYZ019_-.@ \\[`{:^";
    auto some = [&] {
        std::string s = r.chance(7, 8) ? "/" : "";
        const unsigned n = r.below(9);
        for (unsigned i = 0; i < n; i++)
        {
            const bool plain = r.chance(9, 10);
            s += alpha[plain ? r.below(15) : r.below(sizeof(alpha) - 1)];
            if (plain && s.size() > 1 && s[s.size() - 1] == '/' && s[s.size() - 2] == '/' && r.chance(5, 6)) s.back() = 'q';
        }
        if (s.empty()) s = "/";
        return s;
    };
    auto chars = [](const std::string &s) { Path p; for (char c : s) p.push_back(std::string(1, c)); return p; };
    for (int k = 0; k < 12; k++)
    {
        const auto s = some();
        bool ok = true;
        Path nodes;
        std::string str;
        try { const Pothos::PluginPath p(s); nodes = p.listNodes(); str = p.toString(); }
        catch (const Pothos::PluginPathError &) { ok = false; }
        J("path").strs("s", chars(s)).boolean("ok", ok).strs("nodes", nodes).boolean("same", !ok || str == s).log();
        if (!ok) continue;
        const auto s2 = some();
        try
        {
            const Pothos::PluginPath p(s), q(s2);
            Pothos::PluginPath j(p, q);
            J("joined").strs("a", p.listNodes()).strs("b", q.listNodes()).strs("nodes", j.listNodes()).boolean("eq", j == p).log();
        }
        catch (const Pothos::PluginPathError &)
        {
            bool valid = true;
            try { Pothos::PluginPath q(s2); } catch (const Pothos::PluginPathError &) { valid = false; }
            if (valid) J("joinfail").str("a", s).str("b", s2).log();
        }
        Path sub;
        for (unsigned i = r.below(3) + 1; i > 0; i--) sub.push_back(g_names[r.below(8)]);
        std::string ss;
        for (auto &x : sub) ss += (ss.empty() ? "" : "/") + x;
        const Pothos::PluginPath p(s);
        const auto j = p.join(ss);
        J("joined").strs("a", p.listNodes()).strs("b", sub).strs("nodes", j.listNodes()).boolean("eq", j == p).log();
    }
}

static void oneRun(uint64_t seed)
{
    Rng r(seed);
    vf::SchedOpts so;
    so.seed = seed;
    so.strategy = r.chance(1, 2) ? vf::RANDOM : vf::PCT;
    so.syncPeriod = 1u << r.below(4);
    so.plainPeriod = r.chance(1, 3) ? 0 : (4u << r.below(7));
    so.tickNs = 100;
    vf::schedBegin(so);
    J("run").num("seed", (long long)(seed & 0x7fffffff)).log();
    paths(r);
    g_prefix = "/vf/r" + std::to_string(++g_run);
    const unsigned width = r.chance(1, 2) ? 2 + r.below(2) : 8, depth = 1 + r.below(3);
    const int n = r.chance(1, 4) ? 1 : 2 + int(r.below(2));
    const int steps = n == 1 ? 10 + int(r.below(40)) : 6 + int(r.below(14));
    int ids[4] = {0, 0, 0, 0};
    std::vector<std::thread> th;
    for (int k = 1; k < n; k++)
    {
        const uint64_t s = r.next();
        int *id = &ids[k];
        th.emplace_back([=] { worker(k, s, steps, width, depth, id); });
    }
    worker(0, r.next(), steps, width, depth, &ids[0]);
    for (auto &t : th) t.join();
    // afterwards: the whole tree as one thread sees it
    J("call").num("t", 0).str("op", "dump").strs("p", Path{}).num("o", 0).num("h", 0).log();
    const auto d = PluginRegistry::dump();
    std::string out;
    if (auto *x = find(d, g_prefix)) walk(*x, out);
    J("ret").num("t", 0).boolean("ok", true).raw("v", "[" + out + "]").log();
    J("end").log();
    vf::schedEnd();
}

int main(int argc, char **argv)
{
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && personality(ADDR_NO_RANDOMIZE) != -1 && !getenv("VF_NOASLR"))
    {
        setenv("VF_NOASLR", "1", 1);
        execv("/proc/self/exe", argv);
    }
    vf::Args a(argc, argv);
    if (a.has("out")) vf::logOpen(a.get("out", "").c_str());
    const uint64_t s0 = uint64_t(a.num("seed", 1));
    const int n = int(a.num("n", 1));
    alarm(unsigned(a.num("limit", 300)));
    Poco::Logger::get("").setLevel("none");
    { Poco::Logger::get("Pothos.PluginRegistry.add").setLevel("none"); Poco::Logger::get("Pothos.PluginRegistry.remove").setLevel("none"); Poco::Logger::get("Pothos.PluginRegistry.handlePluginEvent").setLevel("none"); }
    for (int k = 0; k < n; k++) oneRun(s0 * 1000003 + uint64_t(k));
    vf::logFlush();
    return 0;
}
