// Conformance driver for calls: callables with bound arguments, and managed classes called through proxies.
#include "vf.hpp"
#include <Pothos/Callable.hpp>
#include <Pothos/Managed.hpp>
#include <Pothos/Object.hpp>
#include <Pothos/Plugin.hpp>
#include <Pothos/Proxy.hpp>
#include <Poco/Logger.h>
#include <atomic>
#include <functional>
#include <map>
#include <memory>
#include <sys/personality.h>
#include <thread>
#include <typeinfo>
#include <unistd.h>

using Pothos::Callable;
using Pothos::Object;
using Pothos::Proxy;
using vf::J;
using vf::Rng;

static std::atomic<int> g_live(0);
static int numOf(const std::string &s) { return std::atoi(s.c_str() + 1); }

// ------------------------------------------------------------------ the classes
template <int W> struct A
{
    int id, x = 0;
    A() : id(0) { g_live++; }
    A(int k) : id(k) { g_live++; }
    A(const std::string &s) : id(numOf(s)) { g_live++; }
    A(int a, int b) : id(a + b) { g_live++; }
    A(const Object *, size_t n) : id(int(n)) { g_live++; }
    A(const A &o) : id(o.id), x(o.x) { g_live++; }
    virtual ~A() { g_live--; id = -77; }
    int meth(int k) { x += k; return note(k); }
    int cmeth(const std::string &s) const { return note(numOf(s)); }
    int note(int k) const;
};
template <int W> struct B : A<W> { long pad = 0; using A<W>::A; B() {} };
template <int W> struct M
{
    int mid;
    M() : mid(0) { g_live++; }
    M(int k) : mid(k) { g_live++; }
    M(const std::string &s) : mid(numOf(s)) { g_live++; }
    M(int a, int b) : mid(a + b) { g_live++; }
    M(const Object *, size_t n) : mid(int(n)) { g_live++; }
    M(const M &o) : mid(o.mid) { g_live++; }
    virtual ~M() { g_live--; mid = -77; }
};
template <int W> struct C : B<W>, M<W>
{
    C() {}
    C(int k) : B<W>(k), M<W>(k) {}
    C(const std::string &s) : B<W>(s), M<W>(s) {}
    C(int a, int b) : B<W>(a, b), M<W>(a, b) {}
    C(const Object *o, size_t n) : B<W>(o, n), M<W>(o, n) {}
};
template <int W> int idOf(const A<W> &a) { return a.id; }
template <int W> int idOf(const M<W> &m) { return m.mid; }
template <int W> int idOf(const C<W> &c) { return c.id == c.mid ? c.id : -55; }

// ------------------------------------------------------------------ values, as [type, number]
static std::string tv(const char *t, long long k) { return "[\"" + std::string(t) + "\"," + std::to_string(k) + "]"; }
static std::string show(int k) { return tv("i", k); }
static std::string show(double k) { return tv("d", (long long)k == k ? (long long)k : -99); }
static std::string show(const std::string &s) { return tv("s", numOf(s)); }
template <int W> std::string show(const A<W> &a) { return tv("A", a.id); }
template <int W> std::string show(const std::shared_ptr<A<W>> &a) { return tv("sA", a->id); }
template <int W> std::string showObj(const Object &o)
{
    if (o.type() == typeid(int)) return show(o.extract<int>());
    if (o.type() == typeid(double)) return show(o.extract<double>());
    if (o.type() == typeid(std::string)) return show(o.extract<std::string>());
#define KIND(X, n) \
    if (o.type() == typeid(X<W>)) return tv(n, idOf(o.extract<X<W>>())); \
    if (o.type() == typeid(X<W> *)) return tv("p" n, idOf(*o.extract<X<W> *>())); \
    if (o.type() == typeid(std::shared_ptr<X<W>>)) return tv("s" n, idOf(*o.extract<std::shared_ptr<X<W>>>()));
    KIND(A, "A") KIND(B, "B") KIND(M, "M") KIND(C, "C")
#undef KIND
    return tv("?", 0);
}
template <int W, class T> struct Sh { static std::string f(const T &v) { return show(v); } };
template <int W> struct Sh<W, Object> { static std::string f(const Object &v) { return showObj<W>(v); } };
static long long kOf(const std::string &s) { return std::atoll(s.c_str() + s.rfind(',') + 1); }
template <int W> static std::string typeName(const std::type_info &t)
{
    if (t == typeid(int)) return "i";
    if (t == typeid(double)) return "d";
    if (t == typeid(std::string)) return "s";
    if (t == typeid(Object)) return "o";
    if (t == typeid(void)) return "v";
    if (t == typeid(A<W>)) return "A";
    if (t == typeid(A<W> *)) return "pA";
    if (t == typeid(std::shared_ptr<A<W>>)) return "sA";
    return "?";
}

// ------------------------------------------------------------------ what gets called
static std::string lst(const std::vector<std::string> &v)
{
    std::string s = "[";
    for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + v[i];
    return s + "]";
}
static int hit(int w, const char *kind, int f, int self, const std::string &name, const std::vector<std::string> &v)
{
    long long res = self, sum = 0;
    for (size_t i = 0; i < v.size(); i++) { res += (long long)(i + 1) * kOf(v[i]); sum += kOf(v[i]); }
    J("hit").num("w", w).str("kind", kind).num("f", f).num("self", self).str("name", name).raw("args", lst(v)).log();
    if (!v.empty() && sum % 7 == 0) throw std::runtime_error("boom" + std::to_string(sum));
    return int(res);
}
template <int W> int A<W>::note(int k) const { return hit(W, "m", 999, id, "", {tv("i", k)}); }
template <int W, int F, class... T> int freeFn(T... a) { return hit(W, "s", F, 0, "", {Sh<W, typename std::decay<T>::type>::f(a)...}); }
template <int W, int F, class... T> void voidFn(T... a) { hit(W, "s", F, 0, "", {Sh<W, typename std::decay<T>::type>::f(a)...}); }
template <int W, class X, int F, class... T> int methFn(X &self, T... a) { return hit(W, "m", F, idOf(self), "", {Sh<W, typename std::decay<T>::type>::f(a)...}); }
template <int W> std::vector<std::string> objs(const Object *a, size_t n) { std::vector<std::string> v; for (size_t i = 0; i < n; i++) v.push_back(showObj<W>(a[i])); return v; }
template <int W, class X> Object opFn(X &self, const Object *a, size_t n) { return Object(hit(W, "op", 0, idOf(self), "", objs<W>(a, n))); }
template <int W, class X> Object wildFn(X &self, const std::string &name, const Object *a, size_t n) { return Object(hit(W, "wild", 0, idOf(self), name, objs<W>(a, n))); }
template <int W> Object sopFn(const Object *a, size_t n) { return Object(hit(W, "sop", 0, 0, "", objs<W>(a, n))); }
template <int W> Object swildFn(const std::string &name, const Object *a, size_t n) { return Object(hit(W, "swild", 0, 0, name, objs<W>(a, n))); }

typedef std::string Str;
struct Sig { const char *t; };
#define SIGS(G) \
    G(0, ) G(1, , int) G(2, , double) G(3, , const Str &) G(4, , const A<W> &) G(5, , Object) G(6, , int, int) G(7, , int, const Str &) \
    G(8, , const Str &, int) G(9, , double, double) G(10, , const A<W> &, int) G(11, , const std::shared_ptr<A<W>> &) G(12, , Object, Object) \
    G(13, , int, double, const Str &) G(14, , Str, Str, Str) G(15, , int, double, const Str &, Object) G(16, , Str, int, const std::shared_ptr<A<W>> &, double, int) G(17, , int, int, int, int)
static const std::vector<std::vector<std::string>> &sigs()
{
    static const std::vector<std::vector<std::string>> v = {{}, {"i"}, {"d"}, {"s"}, {"A"}, {"o"}, {"i", "i"}, {"i", "s"}, {"s", "i"}, {"d", "d"}, {"A", "i"}, {"sA"}, {"o", "o"}, {"i", "d", "s"}, {"s", "s", "s"}, {"i", "d", "s", "o"}, {"s", "i", "sA", "d", "i"}, {"i", "i", "i", "i"}};
    return v;
}
static std::string qlist(const std::vector<std::string> &v) { std::vector<std::string> o; for (auto &x : v) o.push_back("\"" + x + "\""); return lst(o); }

// ------------------------------------------------------------------ callables
template <int W> static void callables(Rng &r, int steps)
{
    struct Slot { Callable c; };
    std::vector<Slot> S(4);
    std::vector<std::shared_ptr<A<W>>> owned; // objects that methods are called on
    std::vector<std::pair<int, Object>> vals;
    auto someVal = [&]() -> Object {
        const int k = int(r.below(20));
        switch (r.below(6))
        {
        case 0: case 1: return Object(k);
        case 2: return Object(double(k));
        case 3: return Object("v" + std::to_string(k));
        case 4: { auto a = std::make_shared<A<W>>(k); owned.push_back(a); return r.chance(1, 2) ? Object(std::ref(*a)) : Object(*a); }
        default: return Object(std::make_shared<A<W>>(k));
        }
    };
    for (int i = 0; i < steps; i++)
    {
        const size_t a = r.below(4), b = r.below(4);
        Callable &c = S[a].c;
        const int op = i < 4 ? 0 : int(r.below(20));
        if (op < 3)
        {
            int f = int(r.below(18)), ret = 0;
            std::vector<std::string> sig = sigs()[size_t(f)];
            switch (r.below(8))
            {
            case 0: // a method
                if (r.chance(1, 2)) { c = Callable(&A<W>::meth); sig = {"A", "i"}; f = 998; }
                else { c = Callable(&A<W>::cmeth); sig = {"A", "s"}; f = 998; }
                break;
            case 1: // something that makes an object
                ret = 2;
                switch (r.below(4))
                {
                case 0: c = Callable::factory<A<W>>(); sig = {}; break;
                case 1: c = Callable::factory<A<W>, int>(); sig = {"i"}; break;
                case 2: c = Callable::factoryShared<A<W>, const std::string &>(); sig = {"s"}; ret = 3; break;
                default: c = Callable::factory<A<W>, int, int>(); sig = {"i", "i"}; break;
                }
                f = 0;
                break;
            case 2: // nothing returned
                ret = 1;
#define G(n, d, ...) case n: c = Callable(&voidFn<W, n, ##__VA_ARGS__>); break;
                switch (f) { SIGS(G) }
#undef G
                break;
            case 3: // a function object with state
                { const int st = f; std::function<int(int, const std::string &)> fn = [st](int k, const std::string &s) { return hit(W, "s", 100 + st, 0, "", {show(k), show(s)}); }; c = Callable(fn); f = 100 + st; sig = {"i", "s"}; }
                break;
            default:
#define G(n, d, ...) case n: c = Callable(&freeFn<W, n, ##__VA_ARGS__>); break;
                switch (f) { SIGS(G) }
#undef G
            }
            J("mk").num("c", (long long)a).num("f", f).raw("sig", qlist(sig)).num("ret", ret).log();
        }
        else if (op == 3 && r.chance(1, 2)) { c = Callable(); J("mk").num("c", (long long)a).num("f", -1).raw("sig", "[]").num("ret", 0).log(); }
        else if (op < 6)
        {
            if (r.chance(1, 2)) c = S[b].c; else { Callable t(S[b].c); c = std::move(t); }
            J("copy").num("c", (long long)a).num("from", (long long)b).boolean("eq", c == S[b].c).log();
        }
        else if (op < 9)
        {
            const Object v = someVal();
            const size_t n = r.below(r.chance(1, 3) ? 7 : 3);
            J("bind").num("c", (long long)a).num("n", (long long)n).raw("v", showObj<W>(v)).log();
            c.bind(Object(v), n);
        }
        else if (op == 9)
        {
            const size_t n = r.below(r.chance(1, 3) ? 7 : 3);
            J("unbind").num("c", (long long)a).num("n", (long long)n).log();
            c.unbind(n);
        }
        else if (op < 12)
        {
            J j("num"); j.num("c", (long long)a);
            try { const auto n = c.getNumArgs(); j.boolean("ok", true).num("n", (long long)n).log(); }
            catch (const Pothos::CallableNullError &) { j.boolean("ok", false).num("n", 0).log(); }
        }
        else if (op < 14)
        {
            const int n = int(r.below(7)) - 2;
            J j("type"); j.num("c", (long long)a).num("n", n);
            try { const auto &t = c.type(n); j.str("kind", "ok").str("t", typeName<W>(t)).log(); }
            catch (const Pothos::CallableNullError &) { j.str("kind", "null").str("t", "").log(); }
            catch (const Pothos::CallableArgumentError &) { j.str("kind", "arg").str("t", "").log(); }
        }
        else
        {
            std::vector<Object> args;
            size_t n = r.below(5);
            if (c && r.chance(2, 3)) n = c.getNumArgs() + (r.chance(1, 8) ? 1 : 0);
            for (size_t k = 0; k < n; k++)
            {
                Object v = someVal();
                // usually something that fits
                for (int t = 0; t < 6 && c && k < c.getNumArgs() && r.chance(5, 6) && !v.canConvert(c.type(int(k))); t++) v = someVal();
                args.push_back(v);
            }
            std::vector<std::string> sv;
            for (auto &v : args) sv.push_back(showObj<W>(v));
            J("ccall").num("c", (long long)a).raw("args", lst(sv)).log();
            J j("cret");
            try
            {
                const Object o = c.opaqueCall(args.data(), args.size());
                if (!o) j.str("kind", "void").raw("v", "[\"\",0]");
                else j.str("kind", "ok").raw("v", showObj<W>(o));
            }
            catch (const Pothos::CallableNullError &) { j.str("kind", "null").raw("v", "[\"\",0]"); }
            catch (const Pothos::CallableArgumentError &) { j.str("kind", "arg").raw("v", "[\"\",0]"); }
            catch (const std::runtime_error &ex) { j.str("kind", "thrown").raw("v", tv("", numOf(std::string(ex.what()).substr(3)))); }
            j.log();
        }
    }
}

// ------------------------------------------------------------------ managed classes
template <int W> struct Classes
{
    Rng r;
    explicit Classes(uint64_t s) : r(s) {}
    Pothos::ProxyEnvironment::Sptr env;
    struct Inst { Proxy p; std::string cls, how; int id; std::shared_ptr<void> own; };
    std::vector<Inst> insts;
    struct Reg { bool on = false; std::string path; std::vector<std::string> bases; std::vector<std::string> names; };
    std::map<std::string, Reg> regs;
    int paths = 0, handles = 0;
    std::vector<int> hs; // handle numbers of insts

    template <class X> void addMethod(Pothos::ManagedClass &m, const std::string &name, int f)
    {
#define G(n, d, ...) case n: m.registerMethod(name, Callable(&methFn<W, X, n, ##__VA_ARGS__>)); break;
        switch (f) { SIGS(G) }
#undef G
    }
    void addStatic(Pothos::ManagedClass &m, const std::string &name, int f)
    {
#define G(n, d, ...) case n: m.registerStaticMethod(name, Callable(&freeFn<W, n, ##__VA_ARGS__>)); break;
        switch (f) { SIGS(G) }
#undef G
    }
    static std::string entry(const std::string &name, int f, const std::vector<std::string> &sig) { return "{\"name\":\"" + name + "\",\"f\":" + std::to_string(f) + ",\"sig\":" + qlist(sig) + "}"; }

    template <class X> void field(Pothos::ManagedClass &, std::vector<std::string> &, std::false_type) {}
    template <class X> void field(Pothos::ManagedClass &m, std::vector<std::string> &ms, std::true_type)
    {
        m.registerField("x", &A<W>::x);
        ms.push_back(entry("get:x", 200, {}));
        ms.push_back(entry("set:x", 201, {"i"}));
    }

    template <class X, class Base1, class Base2> void commit(const char *cls, const char *b1, const char *b2)
    {
        Pothos::ManagedClass m;
        std::vector<std::string> ms, ss, ct, op, sop, bases;
        m.template registerClass<X>();
        auto one = [&](int which) {
            switch (which)
            {
            case 0: m.template registerConstructor<X>(); ct.push_back(qlist({})); break;
            case 1: m.template registerConstructor<X, int>(); ct.push_back(qlist({"i"})); break;
            case 2: m.template registerConstructor<X, const std::string &>(); ct.push_back(qlist({"s"})); break;
            case 3: m.template registerConstructor<X, int, int>(); ct.push_back(qlist({"i", "i"})); break;
            }
        };
        unsigned have = 0;
        for (int k = int(r.below(4)); k > 0; k--) { const unsigned w = r.below(4); if (!(have >> w & 1)) { have |= 1u << w; one(int(w)); } }
        const bool opctor = r.chance(1, 5);
        if (opctor) m.template registerOpaqueConstructor<X>();
        static const char *names[] = {"f", "g", "h"};
        for (int k = int(r.below(6)); k > 0; k--) { const std::string n = names[r.below(3)]; const int f = int(r.below(18)); addMethod<X>(m, n, f); ms.push_back(entry(n, f, sigs()[size_t(f)])); }
        for (int k = int(r.below(5)); k > 0; k--) { const std::string n = names[r.below(3)]; const int f = int(r.below(18)); addStatic(m, n, f); ss.push_back(entry(n, f, sigs()[size_t(f)])); }
        if (std::string(cls) == "A" && r.chance(1, 2)) field<X>(m, ms, std::is_same<X, A<W>>());
        for (auto n : names) if (r.chance(1, 8)) { m.registerOpaqueMethod(n, Callable(&opFn<W, X>)); op.push_back("\"" + std::string(n) + "\""); }
        for (auto n : names) if (r.chance(1, 8)) { m.registerOpaqueStaticMethod(n, Callable(&sopFn<W>)); sop.push_back("\"" + std::string(n) + "\""); }
        const bool wild = r.chance(1, 6), swild = r.chance(1, 6);
        if (wild) m.registerWildcardMethod(Callable(&wildFn<W, X>));
        if (swild) m.registerWildcardStaticMethod(Callable(&swildFn<W>));
        std::vector<std::string> bs;
        const bool first = r.chance(3, 4), second = r.chance(3, 4), swap = r.chance(1, 2);
        auto base1 = [&] { if (first && b1) { m.template registerBaseClass<X, Base1>(); bs.push_back(b1); } };
        auto base2 = [&] { if (second && b2) { m.template registerBaseClass<X, Base2>(); bs.push_back(b2); } };
        if (swap) { base2(); base1(); } else { base1(); base2(); }
        std::string path = "VfW" + std::to_string(W) + "/" + cls + std::to_string(++paths);
        if (r.chance(1, 8)) for (auto &x : regs) if (x.second.on && r.chance(1, 2)) path = x.second.path; // taken
        bool ok = true;
        try { m.commit(path); }
        catch (const Pothos::PluginRegistryError &) { ok = false; }
        J("commit").num("w", W).str("cls", cls).str("path", path).boolean("ok", ok).raw("m", lst(ms)).raw("sm", lst(ss)).raw("ct", lst(ct)).raw("op", lst(op)).raw("sop", lst(sop))
            .boolean("wild", wild).boolean("swild", swild).boolean("opctor", opctor).strs("bases", bs).log();
        if (ok) { auto &g = regs[cls]; g.on = true; g.path = path; g.bases = bs; }
    }
    void unload(const std::string &cls)
    {
        auto &g = regs[cls];
        J("unload").num("w", W).str("cls", cls).log();
        Pothos::ManagedClass::unload(g.path);
        g.on = false;
    }
    bool usable(const std::string &cls) // with all of its bases
    {
        auto &g = regs[cls];
        if (!g.on) return false;
        for (auto &b : g.bases) if (!usable(b)) return false;
        return true;
    }
    Proxy someArg()
    {
        const int k = int(r.below(20));
        switch (r.below(7))
        {
        case 0: case 1: return env->makeProxy(k);
        case 2: return env->makeProxy(double(k));
        case 3: return env->makeProxy("v" + std::to_string(k));
        case 4: return env->makeProxy(A<W>(k));
        case 5: return env->makeProxy(std::make_shared<A<W>>(k));
        default: if (!insts.empty()) return insts[r.below(unsigned(insts.size()))].p; return env->makeProxy(k);
        }
    }
    void made(const Proxy &p)
    {
        const std::string s = showObj<W>(p.toObject());
        Inst n; n.p = p;
        std::string t = s.substr(2, s.find('"', 2) - 2);
        n.how = t.size() == 2 ? t.substr(0, 1) : "v"; n.cls = t.substr(t.size() - 1); n.id = int(kOf(s));
        insts.push_back(n); hs.push_back(++handles);
        J("ret").num("w", W).str("kind", "made").num("res", n.id).str("cls", n.cls).str("how", n.how).num("h", handles).log();
    }
    void forget(size_t k) { J("forget").num("w", W).num("h", hs[k]).log(); insts.erase(insts.begin() + long(k)); hs.erase(hs.begin() + long(k)); }

    void invoke(const Proxy &target, int h, const std::string &cls, const std::string &name, const std::vector<Proxy> &args, bool makes)
    {
        std::vector<std::string> v;
        for (auto &a : args) v.push_back(showObj<W>(a.toObject()));
        J("call").num("w", W).num("h", h).str("cls", cls).str("name", name).raw("args", lst(v)).log();
        auto done = [&](const char *kind, long long res) { J("ret").num("w", W).str("kind", kind).num("res", res).str("cls", "").str("how", "").num("h", 0).log(); };
        try
        {
            Proxy p;
            if (args.size() <= 2 && r.chance(1, 2)) p = args.empty() ? target.call(name) : args.size() == 1 ? target.call(name, args[0]) : target.call(name, args[0], args[1]);
            else p = target.getHandle()->call(name, args.data(), args.size());
            if (makes && p.toObject().type() != typeid(int)) made(p);
            else if (p.toObject()) done("ok", p.convert<int>());
            else done("ok", 0);
        }
        catch (const Pothos::ProxyExceptionMessage &ex)
        {
            const auto at = ex.message().find("boom");
            done("msg", at == std::string::npos ? -1 : std::atoi(ex.message().c_str() + at + 4));
        }
        catch (const Pothos::Exception &) { done("err", 0); }
    }

    void go(int steps)
    {
        env = Pothos::ProxyEnvironment::make("managed");
        static const char *all[] = {"A", "M", "B", "C"};
        auto reg = [&](const std::string &c) {
            if (c == "A") commit<A<W>, A<W>, A<W>>("A", nullptr, nullptr);
            else if (c == "M") commit<M<W>, M<W>, M<W>>("M", nullptr, nullptr);
            else if (c == "B") commit<B<W>, A<W>, A<W>>("B", "A", nullptr);
            else commit<C<W>, B<W>, M<W>>("C", "B", "M");
        };
        for (auto c : all) if (r.chance(7, 8)) reg(c);
        for (int i = 0; i < steps; i++)
        {
            const std::string cls = all[r.below(4)];
            const unsigned op = r.below(30);
            if (op < 2) { if (!regs[cls].on) reg(cls); else if (r.chance(1, 2)) unload(cls); }
            else if (op < 8)
            {
                // a new object
                if (insts.size() > 5) { const size_t k = r.below(unsigned(insts.size())); if (insts[k].how != "p") { forget(k); continue; } }
                if (!regs[cls].on || insts.size() > 8) continue;
                std::vector<Proxy> args;
                switch (r.below(6))
                {
                case 0: break;
                case 1: case 2: args = {env->makeProxy(int(r.below(20)))}; break;
                case 3: args = {env->makeProxy("v" + std::to_string(r.below(20)))}; break;
                case 4: args = {env->makeProxy(int(r.below(20))), env->makeProxy(double(r.below(20)))}; break;
                default: for (unsigned k = r.below(4); k > 0; k--) args.push_back(someArg());
                }
                static const char *ways[] = {"()", "new", "shared"};
                Proxy p;
                try { p = env->findProxy(regs[cls].path); } catch (const Pothos::Exception &) {}
                J("find").num("w", W).str("cls", cls).boolean("ok", bool(p)).log();
                if (p) invoke(p, 0, cls, ways[r.below(3)], args, true);
            }
            else if (op < 12)
            {
                // a static method
                if (!regs[cls].on) continue;
                std::vector<Proxy> args;
                for (unsigned k = r.below(4); k > 0; k--) args.push_back(someArg());
                static const char *names[] = {"f", "g", "h", "k"};
                invoke(env->findProxy(regs[cls].path), 0, cls, names[r.below(4)], args, false);
            }
            else if (op == 12)
            {
                bool ok = true;
                try
                {
                    if (cls == "A") Pothos::ManagedClass::lookup(typeid(A<W>)); else if (cls == "B") Pothos::ManagedClass::lookup(typeid(std::shared_ptr<B<W>>));
                    else if (cls == "C") Pothos::ManagedClass::lookup(typeid(C<W> *)); else Pothos::ManagedClass::lookup(typeid(M<W>));
                }
                catch (const Pothos::ManagedClassLookupError &) { ok = false; }
                J("lookup").num("w", W).str("cls", cls).boolean("ok", ok).log();
            }
            else if (op == 13 && !insts.empty())
            {
                // an object made with new goes away with delete
                const size_t k = r.below(unsigned(insts.size()));
                if (insts[k].how != "p" || !usable(insts[k].cls)) continue;
                destroy(k);
            }
            else if (!insts.empty())
            {
                const size_t k = r.below(unsigned(insts.size()));
                if (!usable(insts[k].cls) && regs[insts[k].cls].on) continue; // without a registered base: not settled what happens
                std::vector<Proxy> args;
                static const char *names[] = {"f", "g", "h", "k", "get:x", "set:x"};
                const std::string name = names[r.below(r.chance(1, 3) ? 6 : 3)];
                if (name == "set:x") { if (r.chance(7, 8)) args.push_back(r.chance(1, 2) ? env->makeProxy(int(r.below(20))) : someArg()); }
                else if (name != "get:x") for (unsigned n = r.below(4); n > 0; n--) args.push_back(someArg());
                invoke(insts[k].p, hs[k], insts[k].cls, name, args, false);
            }
        }
        // everything made with new has to be deleted
        for (size_t k = insts.size(); k-- > 0;)
        {
            if (insts[k].how != "p") { forget(k); continue; }
            if (!usable(insts[k].cls)) { auto o = insts[k].p.toObject(); drop(o); forget(k); continue; }
            destroy(k);
        }
        for (auto c : all) if (regs[c].on) unload(c);
        J("leave").num("w", W).log();
    }
    static void drop(const Object &o)
    {
        if (o.type() == typeid(A<W> *)) delete o.extract<A<W> *>();
        else if (o.type() == typeid(B<W> *)) delete o.extract<B<W> *>();
        else if (o.type() == typeid(C<W> *)) delete o.extract<C<W> *>();
        else if (o.type() == typeid(M<W> *)) delete o.extract<M<W> *>();
    }
    void destroy(size_t k)
    {
        bool ok = true;
        try { insts[k].p.call("delete"); } catch (const Pothos::Exception &) { ok = false; }
        J("delete").num("w", W).num("h", hs[k]).boolean("ok", ok).log();
        insts.erase(insts.begin() + long(k)); hs.erase(hs.begin() + long(k));
    }
};

static void oneRun(uint64_t seed, const std::string &mode)
{
    Rng r(seed);
    vf::SchedOpts so;
    so.seed = seed;
    so.strategy = r.chance(1, 2) ? vf::RANDOM : vf::PCT;
    so.syncPeriod = 1u << r.below(6);
    so.plainPeriod = r.chance(1, 2) ? 0 : (50u << r.below(5));
    so.tickNs = 100;
    vf::schedBegin(so);
    g_live = 0;
    J("run").num("seed", (long long)(seed & 0x7fffffff)).log();
    if (mode == "callable") callables<3>(r, 60 + int(r.below(100)));
    else
    {
        const uint64_t s1 = r.next(), s2 = r.next();
        const bool two = r.chance(1, 2);
        const int n1 = 20 + int(r.below(60)), n2 = 10 + int(r.below(30));
        std::thread t;
        if (two) t = std::thread([&] { Classes<2>(s2).go(n2); });
        Classes<1>(s1).go(n1);
        if (t.joinable()) t.join();
    }
    J("end").num("live", g_live.load()).log();
    vf::schedEnd();
}

int main(int argc, char **argv)
{
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && personality(ADDR_NO_RANDOMIZE) != -1 && !getenv("VF_NOASLR"))
    {
        setenv("VF_NOASLR", "1", 1);
        execv("/proc/self/exe", argv);
    }
    vf::Args a(argc, argv);
    if (a.has("out")) vf::logOpen(a.get("out", "").c_str());
    Poco::Logger::get("").setLevel(0);
    const uint64_t s0 = uint64_t(a.num("seed", 1));
    const int n = int(a.num("n", 1));
    alarm(unsigned(a.num("limit", 300)));
    for (int k = 0; k < n; k++) oneRun(s0 * 1000003 + uint64_t(k), a.get("mode", "callable"));
    vf::logFlush();
    return 0;
}
