// Conformance driver for remote proxies: client threads, one or two connections to handlers in this
// process over in-memory pipes, optionally cut at some byte.
#include "vf.hpp"
#include <Pothos/Exception.hpp>
#include <Pothos/Managed.hpp>
#include <Pothos/Object.hpp>
#include <Pothos/Object/Containers.hpp>
#include <Pothos/Plugin.hpp>
#include <Pothos/Proxy.hpp>
#include <Pothos/Remote.hpp>
#include <Poco/Logger.h>
#include <condition_variable>
#include <cstring>
#include <deque>
#include <functional>
#include <iostream>
#include <memory>
#include <mutex>
#include <streambuf>
#include <sys/personality.h>
#include <thread>
#include <unistd.h>

using Pothos::Object;
using Pothos::Proxy;
using vf::J;
using vf::Rng;

static int g_run = 0;

// ------------------------------------------------------------------ a link: two byte pipes that break together
struct Link
{
    std::mutex m;
    std::condition_variable c;
    std::deque<char> q[2];
    long long left = -1; // bytes until it breaks
    bool broken = false, closed = false, keep = true;
    int no = 0;
    void put(int d, const char *s, size_t n)
    {
        std::unique_lock<std::mutex> l(m);
        for (size_t k = 0; k < n && !broken && !closed; k++)
        {
            if (left == 0) { snap(); break; }
            if (left > 0) left--;
            q[d].push_back(s[k]);
        }
        c.notify_all();
    }
    void snap()
    {
        broken = true;
        vf::NoYield ny;
        J("lost").num("c", no).log();
        if (!keep) { q[0].clear(); q[1].clear(); }
    }
    size_t get(int d, char *s, size_t n)
    {
        std::unique_lock<std::mutex> l(m);
        while (q[d].empty() && !broken && !closed) c.wait(l);
        size_t k = 0;
        while (k < n && !q[d].empty()) { s[k++] = q[d].front(); q[d].pop_front(); }
        return k;
    }
    void close()
    {
        std::unique_lock<std::mutex> l(m);
        closed = true;
        c.notify_all();
    }
};
struct InBuf : std::streambuf
{
    Link &k; int d; char b[64]; size_t max;
    InBuf(Link &k, int d, size_t max) : k(k), d(d), max(max) {}
    int_type underflow() override
    {
        const size_t n = k.get(d, b, max);
        if (!n) return traits_type::eof();
        setg(b, b, b + n);
        return traits_type::to_int_type(b[0]);
    }
};
struct OutBuf : std::streambuf
{
    Link &k; int d;
    OutBuf(Link &k, int d) : k(k), d(d) {}
    int_type overflow(int_type c) override { const char x = char(c); k.put(d, &x, 1); return c; }
    std::streamsize xsputn(const char *s, std::streamsize n) override { k.put(d, s, size_t(n)); return n; }
};

// ------------------------------------------------------------------ the remote class
struct Thing
{
    int id, run, val;
    Thing(int n, int i) : id(i), run(g_run), val(0) { J("made").num("n", n).num("id", id).log(); }
    Thing(const Thing &) = delete;
    ~Thing() { if (run == g_run) J("died").num("id", id).log(); }
    void did(int n, const char *op, long long arg, long long res) { J("did").num("n", n).num("id", id).str("op", op).num("arg", arg).num("res", res).log(); }
    int add(int n, int k) { val += k; did(n, "add", k, val); return val; }
    int see(int n, const std::shared_ptr<Thing> &o) { did(n, "see", o->id, o->val); return o->val; }
    Object echo(int n, const Object &o) { did(n, "echo", 0, 0); return o; }
    int fail(int n, const std::string &s) { did(n, "fail", 0, 0); throw std::runtime_error(s); }
    std::shared_ptr<Thing> child(int n, int i) { did(n, "child", i, 0); return std::make_shared<Thing>(n, i); }
    static std::shared_ptr<Thing> make(int n, int i) { return std::make_shared<Thing>(n, i); }
    static int many(int n, const std::string &a, double b, const std::vector<int> &v, const std::complex<double> &z)
    {
        int s = int(a.size()) * 1000 + int(b * 2) * 100 + int(z.real() - z.imag()) * 10;
        for (int x : v) s += x;
        J("did").num("n", n).num("id", 0).str("op", "many").num("arg", 0).num("res", s).log();
        return s;
    }
};
struct Odd { int x = 1; }; // no serialization
static Odd makeOdd() { return Odd(); }

static void registerAll()
{
    Pothos::ManagedClass()
        .registerClass<Thing>()
        .registerStaticMethod(POTHOS_FCN_TUPLE(Thing, make))
        .registerStaticMethod(POTHOS_FCN_TUPLE(Thing, many))
        .registerStaticMethod("odd", &makeOdd)
        .registerMethod(POTHOS_FCN_TUPLE(Thing, add))
        .registerMethod(POTHOS_FCN_TUPLE(Thing, see))
        .registerMethod(POTHOS_FCN_TUPLE(Thing, echo))
        .registerMethod(POTHOS_FCN_TUPLE(Thing, fail))
        .registerMethod(POTHOS_FCN_TUPLE(Thing, child))
        .commit("VfThing");
}

// ------------------------------------------------------------------ the clients
struct Conn
{
    Link link;
    std::unique_ptr<InBuf> sb_in, cb_in;
    std::unique_ptr<OutBuf> sb_out, cb_out;
    std::unique_ptr<std::istream> s_in, c_in;
    std::unique_ptr<std::ostream> s_out, c_out;
    std::thread server;
    Pothos::ProxyEnvironment::Sptr env;
    Proxy cls;
};

struct World
{
    std::vector<std::unique_ptr<Conn>> conns;
    int nextN = 0;
    std::mutex mu;
    Pothos::ProxyEnvironment::Sptr local;

    int fresh(int &x) { std::lock_guard<std::mutex> l(mu); return ++x; }

    void ret(int t, int n, const char *kind, long long res, bool good = true) { J("ret").num("t", t).num("n", n).str("kind", kind).num("res", res).boolean("good", good).log(); }

    struct Slot { Proxy p; int c = -1; };

    static Object someValue(Rng &r)
    {
        switch (r.below(8))
        {
        case 0: return Object(int(r.next()));
        case 1: return Object(std::string(r.below(3000), char('a' + r.below(26))));
        case 2: { std::string s; for (unsigned k = r.below(20); k > 0; k--) s += char(r.below(256)); return Object(s); }
        case 3: return Object(double(int(r.next())) / 8);
        case 4: { std::vector<int> v; for (unsigned k = r.below(400); k > 0; k--) v.push_back(int(r.next())); return Object(v); }
        case 5: { Pothos::ObjectVector v; for (unsigned k = r.below(4); k > 0; k--) v.push_back(Object(int(k))); return Object(v); }
        case 6: return Object((long long)(r.next()));
        default: return Object(std::complex<double>(1.5, -int(r.below(100))));
        }
    }
    static std::string image(const Object &o)
    {
        if (!o) return "null";
        std::stringstream ss;
        o.serialize(ss);
        return ss.str();
    }

    void drop(int t, int s, Slot &x)
    {
        J("drop").num("t", t).num("s", s).log();
        x.p = Proxy();
        x.c = -1;
        J("dropped").num("t", t).num("s", s).log();
    }

    void client(int t, uint64_t seed, int steps)
    {
        Rng r(seed);
        std::vector<Slot> slots(3);
        int ids = 0; // ids of this thread's objects: t * 1000 + k
        auto S = [&](size_t k) { return t * 10 + int(k); };
        // runs f, classifies what comes out
        auto guard = [&](int n, const std::function<void()> &f)
        {
            try { f(); return; }
            catch (const Pothos::ProxyExceptionMessage &ex) { ret(t, n, "msg", 0, ex.message().find("oops" + std::to_string(n) + ".") != std::string::npos); }
            catch (const Pothos::IOException &) { ret(t, n, "io", 0); }
            catch (const Pothos::Exception &) { ret(t, n, "err", 0); }
            catch (const std::exception &) { ret(t, n, "err", 0); }
        };
        for (int i = 0; i < steps; i++)
        {
            const size_t a = r.below(3), b = r.below(3);
            const int c = int(r.below(unsigned(conns.size())));
            Conn &cn = *conns[size_t(c)];
            const int n = fresh(nextN);
            auto call = [&](const char *op, int conn, int id, long long arg) { J("call").num("t", t).num("n", n).num("c", conn).str("op", op).num("s", id).num("arg", arg).log(); };
            Slot &x = slots[a];
            switch (r.below(13))
            {
            case 0: case 1:
            {
                if (x.p) drop(t, S(a), x);
                const int id = t * 1000 + ++ids;
                call("make", c, S(a), id);
                guard(n, [&] { Proxy p = cn.cls.call("make", n, id); x.p = std::move(p); x.c = c; ret(t, n, "ok", id); });
                break;
            }
            case 2: case 3: case 4:
                if (!x.p) break;
                { const int k = r.range(-50, 50); call("add", x.c, S(a), k); guard(n, [&] {
                    // the argument as a value, or already a proxy of another environment
                    const int v = r.chance(1, 3) ? x.p.call<int>("add", local->makeProxy(n), local->makeProxy(k)) : x.p.call<int>("add", n, k);
                    ret(t, n, "ok", v); }); }
                break;
            case 5:
                if (!x.p || !slots[b].p) break;
                call("see", x.c, S(a), S(b));
                guard(n, [&] { const int v = x.p.call<int>("see", n, slots[b].p); ret(t, n, "ok", v); });
                break;
            case 6:
            {
                if (!x.p) break;
                const Object v = someValue(r);
                call("echo", x.c, S(a), 0);
                guard(n, [&] { const Object w = x.p.call<Object>("echo", n, v); ret(t, n, "ok", 0, image(v) == image(w)); });
                break;
            }
            case 7:
                if (!x.p) break;
                call("fail", x.c, S(a), 0);
                guard(n, [&] { x.p.call("fail", n, "oops" + std::to_string(n) + "."); ret(t, n, "ok", 0); });
                break;
            case 8:
            {
                if (!x.p || a == b) break;
                if (slots[b].p) drop(t, S(b), slots[b]);
                const int id = t * 1000 + ++ids;
                call("child", x.c, S(a), id * 100 + S(b));
                guard(n, [&] { Proxy p = x.p.call("child", n, id); slots[b].p = std::move(p); slots[b].c = x.c; ret(t, n, "ok", id); });
                break;
            }
            case 9:
            {
                call("many", c, 0, 0);
                std::vector<int> v(r.below(5), 3);
                guard(n, [&] { const int s = cn.cls.call<int>("many", n, std::string("abc"), 2.5, v, std::complex<double>(7, 4)); ret(t, n, "ok", s, s == 3000 + 500 + 30 + 3 * int(v.size())); });
                break;
            }
            case 10:
                // wrong method, wrong argument, things that cannot travel
                switch (r.below(5))
                {
                case 0: call("wrong", c, 0, 0); guard(n, [&] { cn.cls.call("nothing", n); ret(t, n, "ok", 0); }); break;
                case 1: call("wrong", c, 0, 0); guard(n, [&] { cn.cls.call("make", n, std::string("x")); ret(t, n, "ok", 0); }); break;
                case 2: call("wrong", c, 0, 0); guard(n, [&] { cn.env->findProxy("VfNothing"); ret(t, n, "ok", 0); }); break;
                case 3: call("wrong", c, 0, 0); guard(n, [&] { cn.env->convertObjectToProxy(Object(Odd())); ret(t, n, "ok", 0); }); break;
                case 4: call("wrong", c, 0, 0); guard(n, [&] { cn.cls.call<Odd>("odd"); ret(t, n, "ok", 0); }); break;
                }
                break;
            case 11:
            {
                // plain values: same as in the local environment
                const Object v = someValue(r), w = r.chance(1, 2) ? v : someValue(r);
                call("plain", c, 0, 0);
                guard(n, [&]
                {
                    auto all = [&](const Pothos::ProxyEnvironment::Sptr &e)
                    {
                        const Proxy p = e->convertObjectToProxy(v), q = e->convertObjectToProxy(w);
                        std::string s = image(p.toObject()) + "|" + p.toString() + "|" + p.getClassName() + "|";
                        if (v.type() == typeid(int) || v.type() == typeid(std::string)) s += std::to_string(p.hashCode());
                        try { s += std::to_string(p.compareTo(q)); } catch (const Pothos::ProxyCompareError &) { s += "cmp"; }
                        return s;
                    };
                    const auto z = all(cn.env);
                    bool same = z == all(local);
                    ret(t, n, "ok", 0, same);
                });
                break;
            }
            case 12:
                if (x.p && a != b && r.chance(1, 2))
                {
                    // a second reference
                    if (slots[b].p) drop(t, S(b), slots[b]);
                    J("dup").num("t", t).num("s", S(a)).num("o", S(b)).log();
                    slots[b] = x;
                }
                else if (x.p) drop(t, S(a), x);
                break;
            }
        }
        for (size_t k = 0; k < slots.size(); k++) if (slots[k].p) drop(t, S(k), slots[k]);
        J("leave").num("t", t).log();
    }

    void go(Rng &r)
    {
        local = Pothos::ProxyEnvironment::make("managed");
        const int nc = r.chance(1, 3) ? 2 : 1, nt = 1 + int(r.below(3));
        const bool cut = r.chance(2, 5);
        bool up = true;
        for (int c = 0; c < nc; c++)
        {
            conns.emplace_back(new Conn);
            Conn &k = *conns.back();
            k.link.no = c;
            k.link.keep = r.chance(1, 2);
            const size_t mx = r.chance(1, 2) ? 64 : 1 + r.below(7);
            k.sb_in.reset(new InBuf(k.link, 0, mx)); k.cb_in.reset(new InBuf(k.link, 1, mx));
            k.sb_out.reset(new OutBuf(k.link, 1)); k.cb_out.reset(new OutBuf(k.link, 0));
            k.s_in.reset(new std::istream(k.sb_in.get())); k.c_in.reset(new std::istream(k.cb_in.get()));
            k.s_out.reset(new std::ostream(k.sb_out.get())); k.c_out.reset(new std::ostream(k.cb_out.get()));
            k.server = std::thread([&k, c]
            {
                bool threw = false;
                try { Pothos::RemoteHandler h("vf"); h.runHandler(*k.s_in, *k.s_out); } catch (const Pothos::Exception &) { threw = true; }
                J("server").num("c", c).boolean("threw", threw).log();
                k.link.close();
            });
            k.env = Pothos::RemoteClient::makeEnvironment(*k.c_in, *k.c_out, "managed");
            k.cls = k.env->findProxy("VfThing");
            J("open").num("c", c).log();
        }
        if (cut) for (auto &k : conns) if (r.chance(3, 4)) { std::lock_guard<std::mutex> l(k->link.m); k->link.left = r.below(r.chance(1, 2) ? 6000 : 30000); }
        std::vector<std::thread> th;
        for (int t = 1; t <= nt; t++) { const uint64_t s = r.next(); const int steps = 3 + int(r.below(8)); th.emplace_back([=] { client(t, s, steps); }); }
        for (auto &t : th) t.join();
        for (auto &k : conns)
        {
            J("bye").num("c", k->link.no).log();
            k->cls = Proxy();
            k->env.reset();
            k->link.close();
            J("gone").num("c", k->link.no).log();
        }
        for (auto &k : conns) k->server.join();
        J("end").log();
    }
};

static void oneRun(uint64_t seed)
{
    Rng r(seed);
    vf::SchedOpts so;
    so.seed = seed;
    so.strategy = r.chance(2, 3) ? vf::RANDOM : vf::PCT;
    so.syncPeriod = 1u << r.below(5);
    so.plainPeriod = r.chance(1, 2) ? 0 : (16u << r.below(8));
    so.tickNs = 100;
    g_run++;
    vf::schedBegin(so);
    J("run").num("seed", (long long)(seed & 0x7fffffff)).log();
    World().go(r);
    vf::schedEnd();
    g_run++;
}

int main(int argc, char **argv)
{
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && personality(ADDR_NO_RANDOMIZE) != -1 && !getenv("VF_NOASLR"))
    {
        setenv("VF_NOASLR", "1", 1);
        execv("/proc/self/exe", argv);
    }
    vf::Args a(argc, argv);
    if (a.has("out")) vf::logOpen(a.get("out", "").c_str());
    Poco::Logger::get("").setLevel(0);
    const uint64_t s0 = uint64_t(a.num("seed", 1));
    const int n = int(a.num("n", 1));
    alarm(unsigned(a.num("limit", 300)));
    registerAll();
    for (int k = 0; k < n; k++) oneRun(s0 * 1000003 + uint64_t(k));
    vf::logFlush();
    return 0;
}
