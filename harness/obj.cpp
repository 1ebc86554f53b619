// Conformance driver for Pothos::Object: --what 0 ownership, 1 conversion and comparison.
#include "vf.hpp"
#include <Pothos/Callable.hpp>
#include <Pothos/Exception.hpp>
#include <Pothos/Object.hpp>
#include <Pothos/Object/Containers.hpp>
#include <Pothos/Plugin.hpp>
#include <Pothos/Proxy.hpp>
#include <Poco/Logger.h>
#include <atomic>
#include <cmath>
#include <complex>
#include <limits>
#include <memory>
#include <set>
#include <sys/personality.h>
#include <thread>
#include <unistd.h>

using Pothos::Object;
using vf::J;
using vf::Rng;

static thread_local int t_id = 0;

// ------------------------------------------------------------------ ownership
struct Val
{
    int id, v;
    Val(int i, int x) : id(i), v(x) {}
    Val(const Val &) = delete;
    ~Val() { J("died").num("t", t_id).num("id", id).log(); id = -id; }
};
struct Box // a value that owns other objects
{
    int id, v = 0;
    std::vector<Object> in;
    explicit Box(int i) : id(i) {}
    Box(const Box &) = delete;
    ~Box() { J("died").num("t", t_id).num("id", id).log(); id = -id; }
};

static int idOf(const Object &o)
{
    if (!o) return 0;
    if (o.type() == typeid(Val)) return o.extract<Val>().id;
    if (o.type() == typeid(Box)) return o.extract<Box>().id;
    return -99;
}

struct Life
{
    std::atomic<int> next{0};
    // slots: t*10 + k
    void worker(int t, uint64_t seed, int steps, std::vector<Object> *s, bool lone)
    {
        t_id = t;
        Rng r(seed);
        auto S = [&](size_t k) { return t * 10 + int(k); };
        for (int n = 0; n < steps; n++)
        {
            const size_t a = r.below(unsigned(s->size())), b = r.below(unsigned(s->size()));
            switch (r.below(12))
            {
            case 0: case 1:
            {
                const int id = ++next;
                J("make").num("t", t).num("id", id).log();
                Object o = Object::emplace<Val>(id, id * 7);
                J("set").num("t", t).num("s", S(a)).num("o", -1).num("id", id).log();
                (*s)[a] = std::move(o);
                J("done").num("t", t).num("s", S(a)).num("o", -1).num("id", idOf((*s)[a])).boolean("null", !o).log();
                break;
            }
            case 2:
            {
                // a box takes copies of some slots
                const int id = ++next;
                J("make").num("t", t).num("id", id).log();
                Object o = Object::emplace<Box>(id);
                std::vector<int> in;
                for (unsigned k = 1 + r.below(2); k > 0; k--)
                {
                    const size_t w = r.below(unsigned(s->size()));
                    o.ref<Box>().in.push_back((*s)[w]);
                    in.push_back(S(w));
                }
                J("boxed").num("t", t).num("id", id).nums("in", in).log();
                J("set").num("t", t).num("s", S(a)).num("o", -1).num("id", id).log();
                (*s)[a] = std::move(o);
                J("done").num("t", t).num("s", S(a)).num("o", -1).num("id", idOf((*s)[a])).boolean("null", !o).log();
                break;
            }
            case 3: case 4:
                J("set").num("t", t).num("s", S(a)).num("o", S(b)).num("id", -1).log();
                (*s)[a] = (*s)[b];
                J("done").num("t", t).num("s", S(a)).num("o", S(b)).num("id", idOf((*s)[a])).boolean("null", false).log();
                break;
            case 5:
                J("mset").num("t", t).num("s", S(a)).num("o", S(b)).log();
                (*s)[a] = std::move((*s)[b]);
                J("mdone").num("t", t).num("s", S(a)).num("o", S(b)).num("id", idOf((*s)[a])).num("oid", idOf((*s)[b])).log();
                break;
            case 6:
                J("set").num("t", t).num("s", S(a)).num("o", -1).num("id", 0).log();
                if (r.chance(1, 2)) (*s)[a] = Object(); else { Object tmp(std::move((*s)[a])); (*s)[a] = Object(); }
                J("done").num("t", t).num("s", S(a)).num("o", -1).num("id", idOf((*s)[a])).boolean("null", true).log();
                break;
            case 7:
            {
                // assign from inside the value that is being released
                if ((*s)[a].type() != typeid(Box)) break;
                const auto &in = (*s)[a].extract<Box>().in;
                const size_t k = r.below(unsigned(in.size()));
                const bool mv = r.chance(1, 3) && (*s)[a].unique();
                J("inner").num("t", t).num("s", S(a)).num("k", (long long)k).boolean("mv", mv).log();
                if (mv) (*s)[a] = std::move((*s)[a].ref<Box>().in[k]); else (*s)[a] = in[k];
                J("done").num("t", t).num("s", S(a)).num("o", -1).num("id", idOf((*s)[a])).boolean("null", true).log();
                break;
            }
            case 8:
            {
                vf::NoYield ny;
                const bool u = (*s)[a].unique();
                J("unique").num("t", t).num("s", S(a)).boolean("u", u).log();
                break;
            }
            case 9:
            {
                vf::NoYield ny;
                bool ok = true;
                try { auto &v = (*s)[a].ref<Val>(); v.v++; }
                catch (const Pothos::ObjectConvertError &) { ok = false; }
                J("ref").num("t", t).num("s", S(a)).boolean("ok", ok).log();
                break;
            }
            case 10:
            {
                bool ok = true;
                int id = 0, v = 0;
                const bool box = r.chance(1, 3);
                try
                {
                    if (box) { const auto &x = (*s)[a].extract<Box>(); id = x.id; }
                    else { const auto &x = (*s)[a].extract<Val>(); id = x.id; v = x.v; }
                }
                catch (const Pothos::ObjectConvertError &) { ok = false; }
                J("extract").num("t", t).num("s", S(a)).boolean("box", box).boolean("ok", ok).num("id", id).num("v", v).log();
                break;
            }
            case 11:
            {
                // through by-value arguments, containers and a copy constructor
                std::vector<Object> tmp{(*s)[a], (*s)[b]};
                auto f = [](Object x, Object y) { return std::make_pair(x, y); };
                const auto p = f(tmp[0], tmp[1]);
                J("same").num("t", t).num("s", S(a)).num("o", S(b)).num("id", idOf(p.first)).num("oid", idOf(p.second)).log();
                break;
            }
            }
        }
        if (!lone)
            for (size_t k = 0; k < s->size(); k++)
            {
                J("set").num("t", t).num("s", S(k)).num("o", -1).num("id", 0).log();
                (*s)[k] = Object();
                J("done").num("t", t).num("s", S(k)).num("o", -1).num("id", 0).boolean("null", true).log();
            }
    }
    void go(Rng &r)
    {
        const int n = r.chance(1, 3) ? 0 : 1 + int(r.below(2));
        std::vector<Object> mine(4);
        worker(0, r.next(), 4 + int(r.below(12)), &mine, true);
        std::vector<std::unique_ptr<std::vector<Object>>> theirs;
        std::vector<std::thread> th;
        std::vector<int> ok;
        for (int k = 1; k <= n; k++)
        {
            theirs.emplace_back(new std::vector<Object>(3));
            for (size_t i = 0; i < 3; i++)
            {
                J("set").num("t", 0).num("s", k * 10 + int(i)).num("o", int(i)).num("id", -1).log();
                (*theirs.back())[i] = mine[i];
                J("done").num("t", 0).num("s", k * 10 + int(i)).num("o", int(i)).num("id", idOf(mine[i])).boolean("null", false).log();
            }
        }
        for (int k = 1; k <= n; k++)
        {
            auto *v = theirs[size_t(k - 1)].get();
            const uint64_t s = r.next();
            th.emplace_back([=] { worker(k, s, 6 + int(s % 10), v, false); });
        }
        worker(0, r.next(), 8 + int(r.below(20)), &mine, false);
        for (auto &t : th) t.join();
        J("end").log();
    }
};

// ------------------------------------------------------------------ numbers
struct Num
{
    bool neg = false, half = false;
    unsigned __int128 m = 0;
};
static std::string digits(unsigned __int128 m)
{
    std::string s;
    do { s.insert(s.begin(), char('0' + int(m % 10))); m /= 10; } while (m);
    return s;
}
static std::string enc(const Num &n)
{
    std::string s = std::string("{\"neg\":") + (n.neg ? "true" : "false") + ",\"half\":" + (n.half ? "true" : "false") + ",\"d\":[";
    const auto d = digits(n.m);
    for (size_t i = 0; i < d.size(); i++) { if (i) s += ','; s += d[i]; }
    return s + "]}";
}
struct Typ
{
    const char *name;
    bool integer, cplx;
    Num lo, hi;
    unsigned mant; // bits that are always exact
    Object (*make)(const Num &re, const Num &im);
    bool (*read)(const Object &, Num &re, Num &im); // false: wrong type
    const std::type_info *ti;
    Object (*conv)(const Object &);
    Object (*vec)(const std::vector<Num> &);
    bool (*unvec)(const Object &, std::vector<Num> &);
    const std::type_info *vti;
    Object (*vconv)(const Object &);
};
template <typename T> T toT(const Num &n)
{
    if (std::is_integral<T>::value) return n.neg ? T(-(__int128)n.m) : T(n.m);
    long double d = (long double)n.m + (n.half ? 0.5L : 0.0L);
    return T(n.neg ? -d : d);
}
template <typename T> bool fromT(const T &v, Num &n)
{
    if (std::is_integral<T>::value) { const __int128 x = (__int128)v; n.neg = x < 0; n.m = (unsigned __int128)(x < 0 ? -x : x); n.half = false; return true; }
    const long double x = (long double)v, ax = x < 0 ? -x : x;
    n.neg = x < 0; n.m = (unsigned __int128)ax; const long double f = ax - (long double)n.m; n.half = f == 0.5L;
    return f == 0.5L || f == 0.0L;
}
template <typename T> struct Sc
{
    typedef T E; static const bool c = false;
    static T mk(const Num &a, const Num &) { return toT<T>(a); }
    static bool rd(const T &v, Num &a, Num &b) { b = Num(); return fromT<T>(v, a); }
};
template <typename T> struct Cx
{
    typedef T E; static const bool c = true;
    static std::complex<T> mk(const Num &a, const Num &b) { return std::complex<T>(toT<T>(a), toT<T>(b)); }
    static bool rd(const std::complex<T> &v, Num &a, Num &b) { const bool x = fromT<T>(v.real(), a), y = fromT<T>(v.imag(), b); return x && y; }
};
template <typename T, typename H> Typ typ(const char *name)
{
    typedef typename H::E E;
    Typ t;
    t.name = name; t.integer = std::is_integral<E>::value; t.cplx = H::c;
    if (t.integer) { fromT<E>(std::numeric_limits<E>::lowest(), t.lo); fromT<E>(std::numeric_limits<E>::max(), t.hi); }
    t.mant = unsigned(std::numeric_limits<E>::digits);
    t.make = [](const Num &a, const Num &b) { return Object(T(H::mk(a, b))); };
    t.read = [](const Object &o, Num &a, Num &b) { return o.type() == typeid(T) && H::rd(o.extract<T>(), a, b); };
    t.ti = &typeid(T);
    t.conv = [](const Object &o) { return Object(o.convert<T>()); };
    t.vec = [](const std::vector<Num> &v) { std::vector<T> x; for (auto &n : v) x.push_back(T(H::mk(n, Num()))); return Object(x); };
    t.unvec = [](const Object &o, std::vector<Num> &v) {
        if (o.type() != typeid(std::vector<T>)) return false;
        for (const auto &x : o.extract<std::vector<T>>()) { Num a, b; if (!H::rd(x, a, b) || b.m) return false; v.push_back(a); }
        return true;
    };
    t.vti = &typeid(std::vector<T>);
    t.vconv = [](const Object &o) { return Object(o.convert<std::vector<T>>()); };
    return t;
}
static std::vector<Typ> types()
{
    return {typ<char, Sc<char>>("char"), typ<signed char, Sc<signed char>>("schar"), typ<unsigned char, Sc<unsigned char>>("uchar"),
            typ<short, Sc<short>>("short"), typ<unsigned short, Sc<unsigned short>>("ushort"), typ<int, Sc<int>>("int"), typ<unsigned, Sc<unsigned>>("uint"),
            typ<long, Sc<long>>("long"), typ<unsigned long, Sc<unsigned long>>("ulong"), typ<long long, Sc<long long>>("llong"), typ<unsigned long long, Sc<unsigned long long>>("ullong"),
            typ<float, Sc<float>>("float"), typ<double, Sc<double>>("double"), typ<std::complex<float>, Cx<float>>("cfloat"), typ<std::complex<double>, Cx<double>>("cdouble")};
}
static bool less(const Num &a, const Num &b) // of magnitudes with sign
{
    auto key = [](const Num &n) { const __int128 x = (__int128)n.m * 2 + (n.half ? 1 : 0); return n.neg ? -x : x; };
    return key(a) < key(b);
}
static unsigned bits(unsigned __int128 m) { unsigned k = 0; while (m) { k++; m >>= 1; } return k; }
static bool exact(const Num &n, unsigned mant) // fits in a mantissa
{
    unsigned __int128 x = n.m * 2 + (n.half ? 1 : 0);
    if (!x) return true;
    while (!(x & 1)) x >>= 1;
    return bits(x) <= mant;
}
static Num someNum(Rng &r, const std::vector<Typ> &ts, const Typ &src, bool zeroOk = true)
{
    for (int tries = 0; tries < 60; tries++)
    {
        Num n;
        if (r.chance(1, 2))
        {
            const Typ &o = ts[r.below(11)];
            n = r.chance(1, 2) ? o.hi : o.lo;
            const int d = r.range(-2, 2);
            __int128 x = (n.neg ? -(__int128)n.m : (__int128)n.m) + d;
            if (r.chance(1, 8)) x += r.chance(1, 2) ? 2048 : -2048;
            n.neg = x < 0; n.m = (unsigned __int128)(x < 0 ? -x : x);
        }
        else
        {
            const unsigned b = r.below(66);
            n.m = b ? ((((unsigned __int128)r.next() << 2) ^ r.next()) & ((((unsigned __int128)1) << b) - 1)) : 0;
            if (!src.integer && b && r.chance(1, 2)) n.m = ((unsigned __int128)1) << b;
            n.neg = r.chance(1, 2) && n.m;
        }
        if (!src.integer) n.half = r.chance(1, 3);
        if (n.m == 0 && !n.half) n.neg = false;
        if (src.integer && (less(n, src.lo) || less(src.hi, n))) continue;
        if (!src.integer && !exact(n, src.mant)) continue;
        if (!zeroOk && !n.m && !n.half) continue;
        return n;
    }
    return Num();
}

// types that only this driver knows, and converters between them
template <int N> struct Tag { std::vector<int> way; };
template <int A, int B> static Tag<B> hop(const Tag<A> &a) { Tag<B> b; b.way = a.way; b.way.push_back(B); return b; }
template <int A, int B> static Pothos::Callable hopCall() { return Pothos::Callable(&hop<A, B>); }
typedef Pothos::Callable (*HopFn)();
static const int NT = 4;
static HopFn hops[NT][NT] = {{nullptr, &hopCall<0, 1>, &hopCall<0, 2>, &hopCall<0, 3>}, {&hopCall<1, 0>, nullptr, &hopCall<1, 2>, &hopCall<1, 3>},
                             {&hopCall<2, 0>, &hopCall<2, 1>, nullptr, &hopCall<2, 3>}, {&hopCall<3, 0>, &hopCall<3, 1>, &hopCall<3, 2>, nullptr}};
static const std::type_info *tagType(int k) { static const std::type_info *t[NT] = {&typeid(Tag<0>), &typeid(Tag<1>), &typeid(Tag<2>), &typeid(Tag<3>)}; return t[k]; }
static Object mkTag(int k)
{
    switch (k) { case 0: return Object(Tag<0>{{0}}); case 1: return Object(Tag<1>{{1}}); case 2: return Object(Tag<2>{{2}}); default: return Object(Tag<3>{{3}}); }
}
static bool wayOf(const Object &o, int k, std::vector<int> &w)
{
    if (o.type() != *tagType(k)) return false;
    switch (k) { case 0: w = o.extract<Tag<0>>().way; break; case 1: w = o.extract<Tag<1>>().way; break; case 2: w = o.extract<Tag<2>>().way; break; default: w = o.extract<Tag<3>>().way; }
    return true;
}

static std::vector<int> codes(const std::string &s) { std::vector<int> v; for (unsigned char c : s) v.push_back(c); return v; }
static int sgn(int x) { return x < 0 ? -1 : x > 0 ? 1 : 0; }
static std::string someStr(Rng &r) { std::string s; for (unsigned n = r.below(5); n > 0; n--) s += "abAB019 \xff"[r.below(9)]; return s; }

static void convs(Rng &r)
{
    static const auto ts = types();
    static int serial = 0;
    serial++;
    bool have[NT][NT] = {};
    std::string path[NT][NT];
    std::atomic<bool> stop{false};
    std::thread noise;
    if (r.chance(1, 3))
        noise = std::thread([&] { // converters of other types come and go meanwhile
            typedef Tag<100> X; typedef Tag<101> Y;
            for (int k = 0; k < 30 && !stop; k++)
            {
                const std::string p = "/object/convert/vf/noise" + std::to_string(serial) + "-" + std::to_string(k);
                Pothos::PluginRegistry::add(p, Pothos::Callable(&hop<100, 101>));
                vf::point();
                Pothos::PluginRegistry::remove(p);
                vf::point();
            }
        });
    const int steps = 15 + int(r.below(40));
    for (int s = 0; s < steps; s++)
    {
        switch (r.below(13))
        {
        case 0: case 1: case 2: case 3: // numbers
        {
            const Typ &a = ts[r.below(15)], &b = ts[r.below(15)];
            const Num re = someNum(r, ts, a), im = a.cplx && r.chance(1, 3) ? someNum(r, ts, a) : Num();
            const Object o = a.make(re, im);
            bool ok = true, good = true;
            Num x, y;
            try { const Object z = r.chance(1, 2) ? b.conv(o) : o.convert(*b.ti); good = b.read(z, x, y); }
            catch (const Pothos::Exception &) { ok = false; }
            const bool ex = b.integer || (exact(re, b.mant) && exact(im, b.mant));
            J("conv").str("a", a.name).str("b", b.name).raw("re", enc(re)).raw("im", enc(im)).boolean("can", o.canConvert(*b.ti)).boolean("ok", ok).boolean("good", good).boolean("ex", ex).raw("xre", enc(x)).raw("xim", enc(y)).log();
            // the source is untouched
            Num p, q;
            a.read(o, p, q);
            J("kept").raw("a", enc(re)).raw("b", enc(p)).log();
            break;
        }
        case 4: // not a number into an integer
        {
            const Typ &a = ts[11 + r.below(2)], &b = ts[r.below(11)];
            const Object o = a.name[0] == 'f' ? Object(std::numeric_limits<float>::quiet_NaN()) : Object(std::numeric_limits<double>::quiet_NaN());
            bool ok = true;
            try { b.conv(o); } catch (const Pothos::Exception &) { ok = false; }
            J("nan").str("b", b.name).boolean("ok", ok).log();
            break;
        }
        case 5: // vectors
        {
            static const int src[] = {9, 10, 12};
            const Typ &a = ts[size_t(src[r.below(3)])], &b = ts[r.below(13)];
            if (b.name == a.name || (b.mant > a.mant && false)) break;
            // (this build has no SIMD kernels behind same-or-wider conversions)
            if (!b.integer && a.integer) break;
            std::vector<Num> v, w;
            const bool small = r.chance(1, 2);
            for (unsigned n = r.below(5); n > 0; n--) { Num x = someNum(r, ts, a); if (small) { x.m %= 100; if (!x.m && !x.half) x.neg = false; if (!b.integer) x.half = false; } v.push_back(x); }
            bool ex = true;
            if (!b.integer) for (auto &x : v) ex = ex && exact(x, b.mant);
            bool ok = true, good = true;
            const Object o = a.vec(v);
            try { const Object z = r.chance(1, 2) ? b.vconv(o) : o.convert(*b.vti); good = b.unvec(z, w); }
            catch (const Pothos::Exception &) { ok = false; }
            auto all = [](const std::vector<Num> &q) { std::string t = "["; for (auto &x : q) t += (t.size() > 1 ? "," : "") + enc(x); return t + "]"; };
            J("vconv").str("a", a.name).str("b", b.name).raw("v", all(v)).boolean("ok", ok).boolean("good", good).boolean("ex", ex).raw("x", all(w)).log();
            break;
        }
        case 6: // comparison of numbers
        {
            const Typ &a = ts[r.below(13)], &b = ts[r.below(13)];
            Num x = someNum(r, ts, a), y = r.chance(1, 3) ? x : someNum(r, ts, b);
            if (b.integer && (less(y, b.lo) || less(b.hi, y) || y.half)) break;
            if (!exact(x, 53) || !exact(y, 53) || (!b.integer && !exact(y, b.mant))) break;
            const Object p = a.make(x, Num()), q = b.make(y, Num());
            const int c = sgn(p.compareTo(q));
            J("cmp").raw("x", enc(x)).raw("y", enc(y)).num("c", c).boolean("eq", p.equals(q)).boolean("lt", p < q).boolean("gt", p > q).log();
            break;
        }
        case 7: // strings
        {
            const auto a = someStr(r), b = r.chance(1, 4) ? a : someStr(r);
            const Object p(a), q(b);
            J("scmp").nums("x", codes(a)).nums("y", codes(b)).num("c", sgn(p.compareTo(q))).boolean("eq", p.equals(q)).boolean("lt", p < q).boolean("gt", p > q).boolean("hash", p.hashCode() == q.hashCode()).log();
            const auto v = p.convert<std::vector<char>>();
            const auto back = Object(v).convert<std::string>();
            const auto u = Object(std::vector<unsigned char>(a.begin(), a.end())).convert<std::string>();
            J("bytes").nums("s", codes(a)).nums("v", codes(std::string(v.begin(), v.end()))).nums("back", codes(back)).nums("u", codes(u)).log();
            break;
        }
        case 8: // what cannot be converted
        {
            const Object o = r.chance(1, 3) ? Object() : r.chance(1, 2) ? Object(someStr(r)) : mkTag(0);
            const Typ &b = ts[r.below(15)];
            bool ok = true;
            try { b.conv(o); } catch (const Pothos::ObjectConvertError &) { ok = false; }
            bool thrown = false;
            try { (void)Object(someStr(r)).compareTo(Object(1)); } catch (const Pothos::ObjectCompareError &) { thrown = true; }
            J("cannot").boolean("can", o.canConvert(*b.ti)).boolean("ok", ok).boolean("cmpthrows", thrown).boolean("nulleq", Object() == Object()).boolean("nullneq", Object() == Object(5)).log();
            break;
        }
        case 9: // containers of objects
        {
            const Typ &b = ts[r.below(13)];
            std::vector<Num> v, w;
            Pothos::ObjectVector ov;
            for (unsigned n = r.below(4); n > 0; n--)
            {
                const Typ &a = ts[r.below(13)];
                Num x = someNum(r, ts, a);
                if (r.chance(2, 3)) { x.m %= 100; x.half = false; if (!x.m) x.neg = false; }
                if (!b.integer && !exact(x, b.mant)) { x = Num(); x.m = n; }
                v.push_back(x);
                ov.push_back(a.make(x, Num()));
            }
            bool ok = true, good = true, back = true;
            try
            {
                const Object z = b.vconv(Object(ov));
                good = b.unvec(z, w);
                const auto again = z.convert<Pothos::ObjectVector>();
                back = again.size() == w.size();
                for (size_t i = 0; back && i < w.size(); i++) { Num p, q; back = b.read(again[i], p, q) && p.m == w[i].m && p.neg == w[i].neg && p.half == w[i].half; }
            }
            catch (const Pothos::Exception &) { ok = false; }
            auto all = [](const std::vector<Num> &q) { std::string t = "["; for (auto &x : q) t += (t.size() > 1 ? "," : "") + enc(x); return t + "]"; };
            J("oconv").str("b", b.name).raw("v", all(v)).boolean("ok", ok).boolean("good", good).boolean("back", back).raw("x", all(w)).log();
            break;
        }
        case 10: // maps
        {
            Pothos::ObjectKwargs kw;
            std::map<std::string, int> want;
            for (unsigned n = r.below(4); n > 0; n--) { const auto k = someStr(r); const int v = int(r.below(1000)); kw[k] = Object(v); want[k] = v; }
            const auto om = Object(kw).convert<Pothos::ObjectMap>();
            const auto pm = Object(om).convert<Pothos::ProxyMap>();
            const auto back = Object(pm).convert<Pothos::ObjectKwargs>();
            std::vector<std::string> ks; std::vector<int> vs, ovs;
            bool names = om.size() == want.size() && back.size() == want.size();
            for (auto &x : want) { auto it = back.find(x.first); if (it == back.end()) { names = false; continue; } vs.push_back(x.second); ovs.push_back(it->second.extract<int>()); if (!om.count(Object(x.first))) names = false; }
            J("maps").boolean("names", names).nums("v", vs).nums("w", ovs).log();
            break;
        }
        case 11: // text
        {
            const Typ &a = ts[r.below(11)];
            const Num n = someNum(r, ts, a);
            const auto str = a.make(n, Num()).toString();
            J("text").raw("n", enc(n)).nums("s", codes(str)).boolean("hash", a.make(n, Num()).hashCode() == a.make(n, Num()).hashCode()).log();
            break;
        }
        case 12: // own converters
        {
            for (int k = 0; k < 4; k++)
            {
                const int a = int(r.below(NT)), b = int(r.below(NT));
                if (a != b && r.chance(1, 2))
                {
                    if (have[a][b]) Pothos::PluginRegistry::remove(path[a][b]);
                    else { path[a][b] = "/object/convert/vf/h" + std::to_string(serial) + "-" + std::to_string(s) + "-" + std::to_string(k); Pothos::PluginRegistry::add(path[a][b], hops[a][b]()); }
                    have[a][b] = !have[a][b];
                    J("hop").num("a", a).num("b", b).boolean("on", have[a][b]).log();
                    continue;
                }
                const Object o = mkTag(a);
                bool ok = true, good = true;
                std::vector<int> way;
                try { good = wayOf(o.convert(*tagType(b)), b, way); } catch (const Pothos::ObjectConvertError &) { ok = false; }
                J("went").num("a", a).num("b", b).boolean("can", o.canConvert(*tagType(b))).boolean("can2", Object::canConvert(*tagType(a), *tagType(b))).boolean("ok", ok).boolean("good", good).nums("way", way).log();
            }
            break;
        }
        }
    }
    stop = true;
    if (noise.joinable()) noise.join();
    for (int a = 0; a < NT; a++) for (int b = 0; b < NT; b++) if (have[a][b]) { Pothos::PluginRegistry::remove(path[a][b]); J("hop").num("a", a).num("b", b).boolean("on", false).log(); }
}

static void oneRun(uint64_t seed, int what)
{
    Rng r(seed);
    vf::SchedOpts so;
    so.seed = seed;
    so.strategy = r.chance(1, 2) ? vf::RANDOM : vf::PCT;
    so.syncPeriod = 1u << r.below(4);
    so.plainPeriod = r.chance(1, 3) ? 0 : (4u << r.below(7));
    so.tickNs = 100;
    t_id = 0;
    vf::schedBegin(so);
    J("run").num("seed", (long long)(seed & 0x7fffffff)).log();
    if (what == 0) Life().go(r); else convs(r);
    vf::schedEnd();
}

int main(int argc, char **argv)
{
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && personality(ADDR_NO_RANDOMIZE) != -1 && !getenv("VF_NOASLR"))
    {
        setenv("VF_NOASLR", "1", 1);
        execv("/proc/self/exe", argv);
    }
    vf::Args a(argc, argv);
    if (a.has("out")) vf::logOpen(a.get("out", "").c_str());
    const uint64_t s0 = uint64_t(a.num("seed", 1));
    const int n = int(a.num("n", 1));
    alarm(unsigned(a.num("limit", 300)));
    for (int k = 0; k < n; k++) oneRun(s0 * 1000003 + uint64_t(k), int(a.num("what", 0)));
    vf::logFlush();
    return 0;
}
