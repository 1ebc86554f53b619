// Conformance driver for archives: values are written, read back, cut short and spoiled.
#include "vf.hpp"
#include <Pothos/Archive.hpp>
#include <Pothos/Exception.hpp>
#include <Pothos/Framework/BufferChunk.hpp>
#include <Pothos/Framework/Connectable.hpp>
#include <Pothos/Framework/DType.hpp>
#include <Pothos/Framework/Label.hpp>
#include <Pothos/Framework/Packet.hpp>
#include <Pothos/Framework/ThreadPool.hpp>
#include <Pothos/Object.hpp>
#include <Pothos/Object/Containers.hpp>
#include <Pothos/Object/Serialize.hpp>
#include <Pothos/Proxy.hpp>
#include <complex>
#include <cstring>
#include <functional>
#include <sstream>
#include <unistd.h>

using Pothos::Object;
using vf::J;
using vf::Rng;

// the reproducible name hash of the format
static unsigned long long nameHash(const std::string &s)
{
    unsigned long long h = 0;
    for (unsigned char c : s) h = (h * 0xf4243) ^ c;
    return h;
}
static std::string bits(unsigned long long v, int n)
{
    std::string s = "[";
    for (int k = 0; k < n; k++) { if (k) s += ','; s += ((v >> k) & 1) ? '1' : '0'; }
    return s + "]";
}
static std::string bytes(const std::string &v)
{
    std::string s = "[";
    for (size_t k = 0; k < v.size(); k++) { if (k) s += ','; s += std::to_string(int((unsigned char)v[k])); }
    return s + "]";
}
static std::string node(const char *k, const char *f, const std::string &v) { return std::string("{\"k\":\"") + k + "\",\"" + f + "\":" + v + "}"; }
static std::string tup(const std::vector<std::string> &v, const char *k = "tup")
{
    std::string s = "[";
    for (size_t i = 0; i < v.size(); i++) { if (i) s += ','; s += v[i]; }
    return node(k, "v", s + "]");
}

// ---- trees of values; overloads by type
static std::string tree(const Object &o);
static std::string tree(bool v) { return node("byte", "b", bits(v, 8)); }
static std::string tree(char v) { return node("byte", "b", bits((unsigned char)v, 8)); }
static std::string tree(signed char v) { return node("byte", "b", bits((unsigned char)v, 8)); }
static std::string tree(unsigned char v) { return node("byte", "b", bits(v, 8)); }
static std::string tree(short v) { return node("two", "b", bits((unsigned short)v, 16)); }
static std::string tree(unsigned short v) { return node("two", "b", bits(v, 16)); }
static std::string tree(int v) { return node("sig", "b", bits((unsigned)v, 32)); }
static std::string tree(unsigned v) { return node("uns", "b", bits(v, 32)); }
static std::string tree(long v) { return node("sig", "b", bits((unsigned long)v, 64)); }
static std::string tree(unsigned long v) { return node("uns", "b", bits(v, 64)); }
static std::string tree(long long v) { return node("sig", "b", bits((unsigned long long)v, 64)); }
static std::string tree(unsigned long long v) { return node("uns", "b", bits(v, 64)); }
static std::string tree(float v) { unsigned u; std::memcpy(&u, &v, 4); return node("uns", "b", bits(u, 32)); }
static std::string tree(double v) { unsigned long long u; std::memcpy(&u, &v, 8); return node("uns", "b", bits(u, 64)); }
static std::string tree(const std::string &v) { return node("str", "s", bytes(v)); }
template <typename T> static std::string tree(const std::complex<T> &v) { return tup({tree(v.real()), tree(v.imag())}); }
template <typename T> static std::string tree(const std::vector<T> &v);
static std::string tree(const Pothos::ObjectSet &v);
static std::string tree(const Pothos::ObjectMap &v);
static std::string tree(const Pothos::ObjectKwargs &v);
static std::string tree(const Pothos::DType &d);
static std::string tree(const Pothos::BufferChunk &b);
static std::string tree(const Pothos::Label &l) { return tup({tree(l.id), tree(l.data), tree(l.index), tree(l.width)}); }
static std::string tree(const Pothos::Packet &p);
static std::string tree(const Pothos::PortInfo &p) { return tup({tree(p.name), tree(p.alias), tree(p.isSigSlot), tree(p.dtype)}); }
static std::string tree(const Pothos::ThreadPoolArgs &a) { return tup({tree(a.numThreads), tree(a.priority), tree(a.affinityMode), tree(a.affinity), tree(a.yieldMode)}); }
static std::string tree(const Pothos::Proxy &p);
struct Mine;
static std::string tree(const Mine &m);
template <typename T> static std::string tree(const std::vector<T> &v)
{
    std::vector<std::string> q;
    for (const auto &x : v) q.push_back(tree(T(x)));
    return tup(q, "seq");
}
static std::string tree(const Pothos::ObjectSet &v) { std::vector<std::string> q; for (const auto &x : v) q.push_back(tree(x)); return tup(q, "seq"); }
static std::string tree(const Pothos::ObjectMap &v) { std::vector<std::string> q; for (const auto &x : v) q.push_back(tup({tree(x.first), tree(x.second)})); return tup(q, "seq"); }
static std::string tree(const Pothos::ObjectKwargs &v) { std::vector<std::string> q; for (const auto &x : v) q.push_back(tup({tree(x.first), tree(x.second)})); return tup(q, "seq"); }
static std::string tree(const Pothos::DType &d)
{
    // element type code, element size, dimension: as the archive of the format has it
    std::stringstream ss; Pothos::Archive::OStreamArchiver ar(ss); ar << d;
    return "{\"k\":\"raw\",\"s\":" + bytes(ss.str().substr(1)) + ",\"d\":\"" + J::esc(d.name() + " " + std::to_string(d.elemSize()) + " " + std::to_string(d.dimension()) + " " + d.toMarkup()) + "\"}";
}
static std::string tree(const Pothos::BufferChunk &b)
{
    if (!b) return tup({tree(true)});
    return tup({tree(false), tree(unsigned(b.length)), node("raw", "s", bytes(std::string(b.as<const char *>(), b.length))), tree(b.dtype)});
}
static std::string tree(const Pothos::Packet &p) { return tup({tree(p.payload), tree(p.metadata), tree(p.labels)}); }

// a type of the driver's own, with a polymorphic pointer inside
struct Shape { virtual ~Shape() {} int a = 0; template <typename A> void serialize(A &ar, const unsigned int) { ar & a; } virtual std::string show() const { return tup({node("uns", "b", bits(nameHash("vf/Shape"), 64)), tree(a)}); } };
struct Ring : Shape { std::string n; std::vector<long> q; template <typename A> void serialize(A &ar, const unsigned int) { ar & a; ar & n; ar & q; } std::string show() const { return tup({node("uns", "b", bits(nameHash("vf/Ring"), 64)), tree(a), tree(n), tree(q)}); } };
struct Mine
{
    std::shared_ptr<Shape> sh;
    std::map<std::string, std::vector<short>> m;
    Object o;
    template <typename A> void save(A &ar, const unsigned int) { Shape *p = sh.get(); ar << p; ar << m; ar << o; }
    template <typename A> void load(A &ar, const unsigned int) { Shape *p = nullptr; ar >> p; sh.reset(p); ar >> m; ar >> o; }
    POTHOS_SERIALIZATION_SPLIT_MEMBER()
};
static std::string tree(const Mine &v)
{
    std::vector<std::string> q;
    for (const auto &x : v.m) q.push_back(tup({tree(x.first), tree(x.second)}));
    return tup({v.sh->show(), tup(q, "seq"), tree(v.o)});
}
POTHOS_CLASS_EXPORT_GUID(Shape, "vf/Shape")
POTHOS_CLASS_EXPORT_GUID(Ring, "vf/Ring")
POTHOS_OBJECT_SERIALIZE(Mine)
struct Unknown { int x = 0; };

// a proxy: its environment, then the bytes of the object in it
static std::string tree(const Pothos::Proxy &p)
{
    return tup({tree(p.getEnvironment()->getName()), node("sub", "v", tree(p.getEnvironment()->convertProxyToObject(p)))});
}

typedef std::function<std::string(const Object &)> Dump;
static std::map<std::string, std::pair<const std::type_info *, std::pair<std::string, Dump>>> &table()
{
    static std::map<std::string, std::pair<const std::type_info *, std::pair<std::string, Dump>>> t;
    if (t.empty())
    {
#define T1(X) t[typeid(X).name()] = {&typeid(X), {"Pothos::Object<" #X ">", [](const Object &o) { return tree(o.extract<X>()); }}};
#define T2(X) T1(X) T1(std::vector<X>)
        T2(bool) T2(char) T2(signed char) T2(unsigned char) T2(signed short) T2(unsigned short) T2(signed int) T2(unsigned int)
        T2(signed long) T2(unsigned long) T2(signed long long) T2(unsigned long long) T2(float) T2(double)
        T2(std::complex<float>) T2(std::complex<double>) T2(std::string)
        T1(Pothos::ObjectVector) T1(Pothos::ObjectSet) T1(Pothos::ObjectMap) T1(Pothos::ObjectKwargs)
        T1(Pothos::DType) T1(Pothos::BufferChunk) T1(Pothos::Label) T1(std::vector<Pothos::Label>) T1(Pothos::Packet)
        T1(Pothos::PortInfo) T1(std::vector<Pothos::PortInfo>) T1(Pothos::ThreadPoolArgs) T1(Pothos::Proxy) T1(Mine)
    }
    return t;
}
static std::string tree(const Object &o)
{
    if (!o) return "{\"k\":\"null\"}";
    auto it = table().find(o.type().name());
    if (it == table().end()) return node("bad", "t", "\"" + J::esc(o.type().name()) + "\"");
    return "{\"k\":\"obj\",\"h\":" + bits(nameHash(it->second.second.first), 64) + ",\"v\":" + it->second.second.second(o) + "}";
}

// ---- random values
struct Gen
{
    Rng &r;
    template <typename T> T num()
    {
        unsigned long long v = 0;
        switch (r.below(5))
        {
        case 0: v = r.below(4); break;
        case 1: v = r.next(); break;
        case 2: v = 1ull << r.below(64); break;
        case 3: v = (1ull << r.below(64)) - 1; break;
        case 4: v = r.next() >> r.below(64); break;
        }
        if (r.chance(1, 2)) v = 0 - v;
        if (r.chance(1, 8)) v = ~v;
        return T(v);
    }
    bool flag() { return r.chance(1, 2); }
    float f() { unsigned u = num<unsigned>(); float v; std::memcpy(&v, &u, 4); return v; }
    double d() { unsigned long long u = num<unsigned long long>(); double v; std::memcpy(&v, &u, 8); return v; }
    std::string str()
    {
        const unsigned n = r.chance(1, 12) ? 120 + r.below(20) : r.below(6);
        std::string s;
        for (unsigned k = 0; k < n; k++) s += r.chance(1, 6) ? char(r.below(256)) : char('a' + r.below(26));
        return s;
    }
    template <typename T, typename F> std::vector<T> vec(F f)
    {
        std::vector<T> v;
        for (unsigned n = r.below(4); n > 0; n--) v.push_back(f());
        return v;
    }
    Pothos::DType dtype()
    {
        static const char *names[] = {"int8", "uint16", "int32", "float32", "complex_float64", "complex_int16", "uint64"};
        const int k = r.below(5);
        if (k == 0) return Pothos::DType();
        if (k == 1) return Pothos::DType::fromDType(Pothos::DType("custom"), 1 + r.below(300));
        return Pothos::DType(names[r.below(7)], 1 + (r.chance(1, 3) ? r.below(200) : 0));
    }
    Pothos::BufferChunk chunk()
    {
        if (r.chance(1, 5)) return Pothos::BufferChunk();
        const auto d = dtype();
        Pothos::BufferChunk b(d.size() < 40 && d.size() ? d : Pothos::DType("uint8"), 1 + r.below(5));
        for (size_t k = 0; k < b.length; k++) b.as<unsigned char *>()[k] = (unsigned char)r.next();
        if (r.chance(1, 3)) { const size_t e = b.dtype.size(); if (b.length > e) { b.address += e; b.length -= e; } }
        return b;
    }
    Pothos::Label label(int d) { Pothos::Label l(str(), obj(d - 1), num<unsigned long long>(), num<size_t>()); return l; }
    Pothos::ObjectKwargs kwargs(int d) { Pothos::ObjectKwargs m; for (unsigned n = r.below(3); n > 0; n--) m[str()] = obj(d - 1); return m; }
    Pothos::PortInfo port() { Pothos::PortInfo p; p.name = str(); p.alias = str(); p.isSigSlot = flag(); p.dtype = dtype(); return p; }
    Object obj(int d)
    {
        const int nflat = 34, ntop = 45;
        switch (r.below(d > 0 ? ntop : nflat))
        {
        case 0: return Object(flag());
        case 1: return Object(num<char>());
        case 2: return Object(num<signed char>());
        case 3: return Object(num<unsigned char>());
        case 4: return Object(num<short>());
        case 5: return Object(num<unsigned short>());
        case 6: return Object(num<int>());
        case 7: return Object(num<unsigned>());
        case 8: return Object(num<long>());
        case 9: return Object(num<unsigned long>());
        case 10: return Object(num<long long>());
        case 11: return Object(num<unsigned long long>());
        case 12: return Object(f());
        case 13: return Object(d_());
        case 14: return Object(std::complex<float>(f(), f()));
        case 15: return Object(std::complex<double>(d_(), d_()));
        case 16: return Object(str());
        case 17: return Object(vec<bool>([&] { return flag(); }));
        case 18: return Object(vec<char>([&] { return num<char>(); }));
        case 19: return Object(vec<unsigned char>([&] { return num<unsigned char>(); }));
        case 20: return Object(vec<short>([&] { return num<short>(); }));
        case 21: return Object(vec<unsigned short>([&] { return num<unsigned short>(); }));
        case 22: return Object(vec<int>([&] { return num<int>(); }));
        case 23: return Object(vec<unsigned>([&] { return num<unsigned>(); }));
        case 24: return Object(vec<long>([&] { return num<long>(); }));
        case 25: return Object(vec<unsigned long>([&] { return num<unsigned long>(); }));
        case 26: return Object(vec<long long>([&] { return num<long long>(); }));
        case 27: return Object(vec<unsigned long long>([&] { return num<unsigned long long>(); }));
        case 28: return Object(vec<float>([&] { return f(); }));
        case 29: return Object(vec<double>([&] { return d_(); }));
        case 30: return Object(vec<std::complex<double>>([&] { return std::complex<double>(d_(), d_()); }));
        case 31: return Object(vec<std::string>([&] { return str(); }));
        case 32: return Object(dtype());
        case 33: return r.chance(1, 2) ? Object() : Object(vec<signed char>([&] { return num<signed char>(); }));
        case 34: return Object(vec<Object>([&] { return obj(d - 1); }));
        case 35: { Pothos::ObjectSet s; for (unsigned n = r.below(4); n > 0; n--) s.insert(Object(num<short>())); return Object(s); }
        case 36: { Pothos::ObjectMap s; for (unsigned n = r.below(4); n > 0; n--) s[Object(str())] = obj(d - 1); return Object(s); }
        case 37: return Object(kwargs(d));
        case 38: return Object(chunk());
        case 39: return Object(label(d));
        case 40: { Pothos::Packet p; p.payload = chunk(); p.metadata = kwargs(d); p.labels = vec<Pothos::Label>([&] { return label(d); }); return Object(p); }
        case 41:
            if (r.chance(1, 2)) return Object(vec<Pothos::PortInfo>([&] { return port(); }));
            else { Pothos::ThreadPoolArgs a; a.numThreads = num<size_t>(); a.priority = d_(); a.affinityMode = str(); a.affinity = vec<size_t>([&] { return num<size_t>(); }); a.yieldMode = str(); return Object(a); }
        case 42: return Object(vec<Pothos::Label>([&] { return label(d); }));
        case 43: return Object(Pothos::ProxyEnvironment::make("managed")->convertObjectToProxy(obj(d - 1)));
        default:
        {
            Mine m;
            if (r.chance(1, 2)) m.sh.reset(new Shape); else { auto *q = new Ring; q->n = str(); q->q = vec<long>([&] { return num<long>(); }); m.sh.reset(q); }
            m.sh->a = num<int>();
            for (unsigned n = r.below(3); n > 0; n--) m.m[str()] = vec<short>([&] { return num<short>(); });
            m.o = obj(d - 1);
            return Object(m);
        }
        }
    }
    double d_() { return d(); }
};

static void oneRun(uint64_t seed)
{
    Rng r(seed);
    J("run").num("seed", (long long)(seed & 0x7fffffff)).log();
    Gen g{r};
    for (int n = 0; n < 3; n++)
    {
        const Object o = g.obj(2);
        std::string s;
        bool ok = true;
        std::stringstream os;
        try { o.serialize(os); s = os.str(); } catch (const Pothos::Exception &) { ok = false; }
        J("save").raw("v", tree(o)).boolean("ok", ok).raw("s", bytes(s)).log();
        // read it, followed by something else
        {
            std::stringstream is(s + std::string(r.below(3), '\x85'));
            Object b;
            ok = true;
            try { b.deserialize(is); } catch (const Pothos::Exception &) { ok = false; }
            J("load").boolean("ok", ok).num("at", (long long)is.tellg()).raw("v", tree(b)).log();
        }
        for (int k = 0; k < 3; k++)
        {
            if (s.empty()) break;
            const unsigned cut = r.chance(1, 3) ? unsigned(s.size()) - 1 : r.below(unsigned(s.size()));
            std::stringstream is(s.substr(0, cut));
            Object b;
            ok = true;
            try { b.deserialize(is); } catch (const Pothos::Exception &) { ok = false; }
            J("cut").num("n", cut).boolean("ok", ok).log();
        }
        if (r.chance(1, 4))
        {
            // a type nobody knows
            std::string x("\x02\x00", 2);
            unsigned long long h = nameHash("vf/nobody") | (1ull << 62);
            do { x += char((h & 0x7f) | (h > 127 ? 0x80 : 0)); h >>= 7; } while (h);
            std::stringstream is(x + "abc");
            Object b;
            ok = true;
            try { b.deserialize(is); } catch (const Pothos::Exception &) { ok = false; }
            J("alien").boolean("ok", ok).log();
            std::stringstream q;
            ok = true;
            Unknown u;
            try { (r.chance(1, 2) ? Object(u) : Object(Pothos::ObjectVector{Object(1), Object(u)})).serialize(q); } catch (const Pothos::Exception &) { ok = false; }
            J("cannot").boolean("ok", ok).log();
        }
    }
}

int main(int argc, char **argv)
{
    vf::Args a(argc, argv);
    if (a.has("out")) vf::logOpen(a.get("out", "").c_str());
    const uint64_t s0 = uint64_t(a.num("seed", 1));
    const int n = int(a.num("n", 1));
    for (int k = 0; k < n; k++)
    {
        alarm(20);
        oneRun(s0 * 1000003 + uint64_t(k));
    }
    vf::logFlush();
    return 0;
}
