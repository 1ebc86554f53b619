// Conformance driver for expressions, data types described by text, and topologies described in JSON.
#include "vf.hpp"
#include <Pothos/Framework.hpp>
#include <Pothos/Object/Containers.hpp>
#include <Pothos/Object/Serialize.hpp>
#include <Pothos/Plugin.hpp>
#include <Pothos/Proxy.hpp>
#include <Pothos/Util/EvalEnvironment.hpp>
#include <Poco/Logger.h>
#include <algorithm>
#include <atomic>
#include <complex>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <sys/personality.h>
#include <unistd.h>

using Pothos::Object;
using Pothos::Proxy;
using vf::J;
using vf::Rng;

// ------------------------------------------------------------------ values: what came out
static std::string q(const std::string &s) { return "\"" + J::esc(s) + "\""; }
static std::string val(const char *t, const std::string &v) { return "{\"t\":\"" + std::string(t) + "\",\"v\":" + v + "}"; }
static std::string lst(const std::vector<std::string> &v)
{
    std::string s = "[";
    for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + v[i];
    return s + "]";
}
static std::string show(const Object &o)
{
    if (o.type() == typeid(bool)) return val("b", o.extract<bool>() ? "true" : "false");
    if (o.type() == typeid(std::string)) return val("s", q(o.extract<std::string>()));
    if (o.type() == typeid(std::complex<double>)) return val("?", q("complex"));
    if (o.type() == typeid(Pothos::ProxyVector))
    {
        std::vector<std::string> v;
        for (const auto &p : o.extract<Pothos::ProxyVector>()) v.push_back(show(p.toObject()));
        return val("l", lst(v));
    }
    if (o.type() == typeid(Pothos::ProxyMap))
    {
        std::vector<std::string> v;
        for (const auto &p : o.extract<Pothos::ProxyMap>()) v.push_back("[" + show(p.first.toObject()) + "," + show(p.second.toObject()) + "]");
        std::sort(v.begin(), v.end());
        return val("m", lst(v));
    }
    if (o.type() == typeid(double) || o.type() == typeid(float))
    {
        const double d = o.convert<double>();
        if (double((long long)(d)) == d) return val("n", std::to_string((long long)d));
        return val("?", q(std::to_string(d)));
    }
    try { return val("n", std::to_string(o.convert<long long>())); }
    catch (const Pothos::Exception &) { return val("?", q(o.getTypeString())); }
}

// ------------------------------------------------------------------ expressions: the tree, and its text
struct Ex { std::string ast, text; double mag = 0; };
enum Kind { NUM, BOOL, STR, VEC, LIST, MAP };
struct Gen
{
    Rng &r;
    // constants: name -> (kind, length of a vector)
    struct Name { Kind first; size_t second; double mag; };
    std::map<std::string, Name> names;
    explicit Gen(Rng &g) : r(g) {}
    std::string sp() { return r.chance(1, 6) ? " " : ""; }
    Ex node(const std::string &ast, const std::string &text) { Ex e; e.ast = ast; e.text = text; return e; }
    bool named(Kind k, size_t len, Ex &e)
    {
        std::vector<std::string> c;
        for (auto &n : names) if (n.second.first == k && (k != VEC || n.second.second == len)) c.push_back(n.first);
        if (c.empty() || !r.chance(1, 3)) return false;
        const std::string n = c[r.below(unsigned(c.size()))];
        e = node("{\"k\":\"name\",\"v\":" + q(n) + "}", n);
        e.mag = names[n].mag;
        return true;
    }
    Ex bin(const char *op, const Ex &a, const Ex &b)
    {
        // numbers stay within what the specification counts with
        const double m = *op == '*' ? a.mag * b.mag : *op == '+' || *op == '-' ? a.mag + b.mag : 0;
        if (m > 1e8) return a;
        Ex e = node("{\"k\":\"bin\",\"op\":\"" + std::string(op) + "\",\"a\":" + a.ast + ",\"b\":" + b.ast + "}", "(" + a.text + sp() + op + sp() + b.text + ")");
        e.mag = m;
        return e;
    }
    // the same without the parentheses, where precedence gives them
    Ex prec(int d)
    {
        Ex a = num(d - 1), b = num(d - 1), c = num(d - 1);
        const bool minus = r.chance(1, 2);
        if (a.mag + b.mag * c.mag > 1e8) return a;
        const std::string m = "{\"k\":\"bin\",\"op\":\"*\",\"a\":" + b.ast + ",\"b\":" + c.ast + "}";
        Ex e = node("{\"k\":\"bin\",\"op\":\"" + std::string(minus ? "-" : "+") + "\",\"a\":" + a.ast + ",\"b\":" + m + "}", "(" + a.text + (minus ? " - " : "+") + b.text + "*" + c.text + ")");
        e.mag = a.mag + b.mag * c.mag;
        return e;
    }
    Ex num(int d)
    {
        Ex e;
        if (named(NUM, 0, e)) return e;
        if (d <= 0 || r.chance(1, 3)) { const int v = int(r.below(12)); e = node("{\"k\":\"lit\",\"v\":" + val("n", std::to_string(v)) + "}", std::to_string(v)); e.mag = v; return e; }
        switch (r.below(7))
        {
        case 0: return bin("+", num(d - 1), num(d - 1));
        case 1: return bin("-", num(d - 1), num(d - 1));
        case 2: return bin("*", num(d - 1), num(d - 1));
        case 3: return prec(d);
        case 4: { // the product of two vectors of one element
            const Ex a = vec(d - 1, 1), b = vec(d - 1, 1); return a.mag * b.mag > 1e8 ? num(-1) : bin("*", a, b); }
        case 5: {
            std::vector<std::string> as, ts; const bool mx = r.chance(1, 2);
            for (unsigned k = 1 + r.below(3); k > 0; k--) { const Ex a = num(d - 1); as.push_back(a.ast); ts.push_back(a.text); e.mag = std::max(e.mag, a.mag); }
            const double m = e.mag;
            std::string t; for (size_t k = 0; k < ts.size(); k++) t += (k ? "," + sp() : "") + ts[k];
            e = node("{\"k\":\"call\",\"f\":\"" + std::string(mx ? "max" : "min") + "\",\"v\":" + lst(as) + "}", std::string(mx ? "max(" : "min(") + t + ")"); e.mag = m; return e; }
        default: { const Ex a = boolean(d - 1), b = num(d - 1), c = num(d - 1);
            e = node("{\"k\":\"if\",\"c\":" + a.ast + ",\"a\":" + b.ast + ",\"b\":" + c.ast + "}", "((" + a.text + ") ? (" + b.text + ") : (" + c.text + "))"); e.mag = std::max(b.mag, c.mag); return e; }
        }
    }
    Ex boolean(int d)
    {
        Ex e;
        if (named(BOOL, 0, e)) return e;
        if (d <= 0 || r.chance(1, 4)) { const bool v = r.chance(1, 2); static const char *t[] = {"false", "true", "False", "True"}; return node("{\"k\":\"lit\",\"v\":" + val("b", v ? "true" : "false") + "}", t[(v ? 1 : 0) + 2 * r.below(2)]); }
        switch (r.below(5))
        {
        case 0: return bin("<", num(d - 1), num(d - 1));
        case 1: return bin("==", num(d - 1), num(d - 1));
        case 2: return bin("==", str(d - 1), str(d - 1));
        case 3: return bin("&&", boolean(d - 1), boolean(d - 1));
        default: return bin("||", boolean(d - 1), boolean(d - 1));
        }
    }
    Ex str(int d)
    {
        Ex e;
        if (named(STR, 0, e)) return e;
        if (d > 0 && r.chance(1, 4)) return bin("//", str(d - 1), str(d - 1));
        static const char *bits[] = {"a", "b", " ", ",", ":", "[", "]", "{", "}", "(", ")", "\\", "\"", "1", "+", ";", "foo", "#"};
        std::string s, t = "\"";
        for (unsigned k = r.below(5); k > 0; k--) { const std::string c = bits[r.below(18)]; s += c; t += (c == "\\" || c == "\"") ? "\\" + c : c; }
        return node("{\"k\":\"lit\",\"v\":" + val("s", q(s)) + "}", t + "\"");
    }
    Ex listOf(const std::vector<Ex> &v, const char *k)
    {
        std::vector<std::string> as; std::string t = "["; double m = 0;
        for (size_t i = 0; i < v.size(); i++) { as.push_back(v[i].ast); m = std::max(m, v[i].mag); t += (i ? "," : "") + sp() + v[i].text + sp(); }
        Ex e = node("{\"k\":\"" + std::string(k) + "\",\"v\":" + lst(as) + "}", t + "]");
        e.mag = m;
        return e;
    }
    Ex vec(int d, size_t len)
    {
        Ex e;
        if (named(VEC, len, e)) return e;
        if (d > 0 && r.chance(1, 3)) switch (r.below(4))
        {
        case 0: return bin("+", vec(d - 1, len), vec(d - 1, len));
        case 1: return bin("-", vec(d - 1, len), vec(d - 1, len));
        case 2: { const Ex a = vec(d - 1, len), b = num(d - 1); return a.mag * b.mag > 1e8 ? a : bin("*", a, b); }
        default: { const Ex a = vec(d - 1, len), b = num(d - 1); return a.mag * b.mag > 1e8 ? a : bin("*", b, a); }
        }
        std::vector<Ex> v;
        for (size_t k = 0; k < len; k++) v.push_back(num(d - 1));
        return listOf(v, "list");
    }
    Ex list(int d)
    {
        Ex e;
        if (named(LIST, 0, e)) return e;
        std::vector<Ex> v;
        for (unsigned k = r.below(4); k > 0; k--) v.push_back(any(d - 1));
        return listOf(v, "list");
    }
    Ex map(int d)
    {
        Ex e;
        if (named(MAP, 0, e)) return e;
        std::vector<std::string> as; std::string t = "{";
        const unsigned n = r.below(4);
        for (unsigned k = 0; k < n; k++)
        {
            Ex key = r.chance(1, 2) ? num(-1) : str(0), v = any(d - 1);
            if (key.ast.find("\"name\"") != std::string::npos || r.chance(1, 2)) { key.text = std::to_string(100 + k); key.ast = "{\"k\":\"lit\",\"v\":" + val("n", key.text) + "}"; }
            bool again = false;
            for (auto &x : as) again = again || x.find("[" + key.ast) == 0;
            if (again) continue;
            t += (as.empty() ? "" : ",") + sp() + key.text + sp() + ":" + sp() + v.text;
            as.push_back("[" + key.ast + "," + v.ast + "]");
        }
        return node("{\"k\":\"map\",\"v\":" + lst(as) + "}", t + "}");
    }
    Ex make(Kind k, int d, size_t len)
    {
        switch (k) { case NUM: return num(d); case BOOL: return boolean(d); case STR: return str(d); case VEC: return vec(d, len); case LIST: return list(d); default: return map(d); }
    }
    Ex any(int d)
    {
        static const Kind kinds[] = {NUM, NUM, BOOL, STR, VEC, LIST, MAP};
        const Kind k = kinds[r.below(d > 0 ? 7 : 4)];
        return make(k, d, 1 + r.below(3));
    }
    // text which is not an expression
    std::string broken(int d)
    {
        static const char *junk[] = {"]", "}", ")", "[", "{", "(", "a]", "foo}", "1]2", "{1:2}}", "[1,2", "[1}", "{1}", "{1:2:3}", "[1,,\"", "nosuch", "nosuch(1)", "1 2", "1+", "*", "\"x", "[(1]", "{\"a\"}", "[1]]", "[[1]", "]]", "][", "}{", "[1] [2]", "", " ", "  ", "[nosuch]", "{1:nosuch}", "{nosuch:1}", "hello world", "1+nosuch", "max(1,nosuch)", "[1,2]+[1]", "\"a\"+1", "[1", "[{]}", "x y z"};
        std::string s = junk[r.below(sizeof junk / sizeof *junk)];
        if (r.chance(1, 4)) s = "[" + any(d).text + ", nosuch]";
        return s;
    }
};

static std::string failure() { return val("e", "\"\""); }

static void evals(Rng &r, int steps)
{
    Pothos::Util::EvalEnvironment env;
    Gen g(r);
    static const char *names[] = {"foo", "bar", "val_1", "x2", "Zed"};
    std::map<std::string, Object> last;
    for (int i = 0; i < steps; i++)
    {
        const std::string n = names[r.below(5)];
        const int d = int(r.below(5));
        const unsigned op = r.below(12);
        if (op < 3)
        {
            static const Kind kinds[] = {NUM, BOOL, STR, VEC, LIST, MAP};
            const Kind k = kinds[r.below(6)];
            const size_t len = 1 + r.below(3);
            const Ex e = g.make(k, d, len);
            J j("const"); j.str("name", n).raw("x", e.ast).str("text", e.text);
            try { env.registerConstantExpr(n, e.text); j.boolean("ok", true); g.names[n] = {k, len, e.mag}; }
            catch (const Pothos::Exception &ex) { j.boolean("ok", false).str("why", ex.displayText()); }
            j.log();
        }
        else if (op == 3)
        {
            Object o; Kind k = NUM; size_t len = 0;
            switch (r.below(8))
            {
            case 0: o = Object(int(r.below(50)) - 25); break;
            case 1: o = Object(double(int(r.below(50)))); break;
            case 2: o = Object((unsigned char)(r.below(200))); break;
            case 3: o = Object("s" + std::to_string(r.below(9))); k = STR; break;
            case 4: o = Object(r.chance(1, 2)); k = BOOL; break;
            case 5: { std::vector<int> v; for (len = 1 + r.below(3); v.size() < len;) v.push_back(int(r.below(9))); o = Object(v); k = VEC; break; }
            case 6: { std::vector<std::string> v; for (unsigned m = r.below(3); v.size() < m;) v.push_back("t" + std::to_string(r.below(9))); o = Object(v); k = LIST; break; }
            default: o = Object((long long)(r.below(1000)) - 500); break;
            }
            std::string shown = o.type() == typeid(std::vector<int>) || o.type() == typeid(std::vector<std::string>) ? show(o.convert(typeid(Pothos::ProxyVector))) : show(o);
            J j("object"); j.str("name", n).raw("v", shown);
            try { env.registerConstantObj(n, o); j.boolean("ok", true); g.names[n] = {k, len, 1000}; }
            catch (const Pothos::Exception &ex) { j.boolean("ok", false).str("why", ex.displayText()); }
            j.log();
        }
        else if (op == 4) { env.unregisterConstant(n); g.names.erase(n); J("forget").str("name", n).log(); }
        else if (op == 5)
        {
            const std::string t = g.broken(d);
            J j("broken"); j.str("text", t);
            if (r.chance(1, 3))
            {
                try { env.registerConstantExpr(n, t); j.boolean("ok", true).raw("v", failure()); }
                catch (const Pothos::Exception &) { j.boolean("ok", false).raw("v", failure()); }
            }
            else
            {
                try { const auto o = env.eval(t); j.boolean("ok", true).raw("v", show(o)); }
                catch (const Pothos::Exception &) { j.boolean("ok", false).raw("v", failure()); }
            }
            j.log();
        }
        else if (op == 6)
        {
            std::string t = n;
            J j("eval"); j.raw("x", "{\"k\":\"name\",\"v\":" + q(n) + "}").str("text", t);
            try { const auto o = env.eval(t); j.raw("v", show(o)).log(); }
            catch (const Pothos::Exception &ex) { j.raw("v", failure()).str("why", ex.displayText()).log(); }
        }
        else
        {
            const Ex e = g.any(d);
            J j("eval"); j.raw("x", e.ast).str("text", e.text);
            try { const auto o = env.eval(e.text); j.raw("v", show(o)).log(); }
            catch (const Pothos::Exception &ex) { j.raw("v", failure()).str("why", ex.displayText()).log(); }
        }
    }
}


// ------------------------------------------------------------------ data types by name
static const std::vector<std::pair<const std::type_info *, const char *>> &natives()
{
    static const std::vector<std::pair<const std::type_info *, const char *>> v = {
        {&typeid(char), "int8"}, {&typeid(signed char), "int8"}, {&typeid(unsigned char), "uint8"}, {&typeid(short), "int16"}, {&typeid(unsigned short), "uint16"},
        {&typeid(int), "int32"}, {&typeid(unsigned), "uint32"}, {&typeid(long), "int64"}, {&typeid(unsigned long), "uint64"}, {&typeid(long long), "int64"}, {&typeid(unsigned long long), "uint64"},
        {&typeid(float), "float32"}, {&typeid(double), "float64"}, {&typeid(std::complex<char>), "complex_int8"}, {&typeid(std::complex<unsigned char>), "complex_uint8"},
        {&typeid(std::complex<short>), "complex_int16"}, {&typeid(std::complex<unsigned short>), "complex_uint16"}, {&typeid(std::complex<int>), "complex_int32"}, {&typeid(std::complex<unsigned>), "complex_uint32"},
        {&typeid(std::complex<long>), "complex_int64"}, {&typeid(std::complex<unsigned long long>), "complex_uint64"}, {&typeid(std::complex<float>), "complex_float32"}, {&typeid(std::complex<double>), "complex_float64"},
        {&typeid(std::string), "nosuch"}, {&typeid(bool), "nosuch"}, {&typeid(void *), "nosuch"}};
    return v;
}
static void dtypes(Rng &r, int steps)
{
    static const char *words[] = {"int8", "sint8", "uint8", "char", "schar", "uchar", "byte", "octet", "int16", "sint16", "uint16", "short", "sshort", "ushort", "int32", "sint32", "uint32", "int", "sint", "uint",
        "int64", "sint64", "uint64", "long", "slong", "ulong", "long long", "slong long", "ulong long", "longlong", "ulonglong", "llong", "sllong", "ullong", "float", "float32", "double", "float64", "complex64", "complex128",
        "complex_int8", "complex_uint8", "complex_int16", "complex_sint16", "complex_uint16", "complex_int32", "complex_uint32", "complex_int64", "complex_uint64", "complex_float32", "complex_float64",
        "unsigned int", "unsigned char", "unsigned long", "signed char", "unsigned short", "custom", "unspecified", "", "int7", "nosuch", "complex_", "complex_custom", "int 32", "float16", "uint8x", "complex_byte", "string"};
    std::vector<Pothos::DType> S(4);
    auto mixed = [&](std::string w) { if (r.chance(1, 3)) for (auto &c : w) if (r.chance(1, 2)) c = char(toupper(c)); return w; };
    auto tell = [&](J &j, const Pothos::DType &d) {
        j.str("name", d.name()).num("esize", d.elemSize()).num("dimension", (long long)d.dimension()).num("size", (long long)d.size())
            .boolean("isf", d.isFloat()).boolean("isi", d.isInteger()).boolean("iss", d.isSigned()).boolean("isx", d.isComplex()).boolean("isu", d.isCustom()).boolean("some", bool(d)).str("text", d.toString());
    };
    for (int i = 0; i < steps; i++)
    {
        const size_t a = r.below(4), b = r.below(4);
        switch (r.below(6))
        {
        case 0: case 1:
        {
            const std::string w = words[r.below(sizeof words / sizeof *words)], text = mixed(w);
            const size_t dim = r.chance(1, 12) ? 0 : 1 + r.below(r.chance(1, 3) ? 1000 : 4);
            J j("dtype"); j.num("d", (long long)a).str("word", w);
            try
            {
                const unsigned how = r.below(4);
                if (how == 0) { j.num("dim", 1); S[a] = r.chance(1, 2) ? Pothos::DType(text) : Pothos::DType(text.c_str()); }
                else if (how == 1) { j.num("dim", (long long)dim); S[a] = Pothos::DType(text, dim); }
                else if (how == 2) { j.num("dim", (long long)dim); S[a] = Pothos::DType((r.chance(1, 2) ? " " : "") + text + (r.chance(1, 2) ? " " : "") + "," + (r.chance(1, 2) ? " " : "") + std::to_string(dim) + (r.chance(1, 3) ? " " : "")); }
                else { j.num("dim", (long long)dim); S[a] = Pothos::DType::fromDType(Pothos::DType(text, 7), dim); }
                j.boolean("ok", true);
                tell(j, S[a]);
            }
            catch (const Pothos::DTypeUnknownError &) { j.boolean("ok", false); }
            j.log();
            break;
        }
        case 2:
        {
            const auto &n = natives()[r.below(unsigned(natives().size()))];
            const size_t dim = 1 + r.below(5);
            J j("dtype"); j.num("d", (long long)a).str("word", n.second).num("dim", (long long)dim);
            try { S[a] = Pothos::DType(*n.first, dim); j.boolean("ok", true); tell(j, S[a]); }
            catch (const Pothos::DTypeUnknownError &) { j.boolean("ok", false); }
            j.log();
            break;
        }
        case 3: // through its text
        {
            S[a] = Pothos::DType(S[b].toMarkup());
            J j("again"); j.num("d", (long long)a).num("from", (long long)b); tell(j, S[a]); j.log();
            break;
        }
        case 4: // through an archive
        {
            std::stringstream io;
            Object(S[b]).serialize(io);
            Object o; o.deserialize(io);
            S[a] = o.extract<Pothos::DType>();
            J j("again"); j.num("d", (long long)a).num("from", (long long)b); tell(j, S[a]); j.log();
            break;
        }
        default: J("same").num("d", (long long)a).num("from", (long long)b).boolean("eq", S[a] == S[b]).boolean("ne", S[a] != S[b]).log();
        }
    }
}


// ------------------------------------------------------------------ topologies described in JSON
static std::atomic<int> g_serial(0), g_live(0);
static std::vector<std::string> objs(const std::vector<Object> &v) { std::vector<std::string> o; for (auto &x : v) o.push_back(show(x)); return o; }
class Blk : public Pothos::Block
{
public:
    const int serial;
    explicit Blk(const std::string &path, const std::vector<Object> &args) : serial(++g_serial)
    {
        g_live++;
        J("ctor").num("b", serial).str("path", path).raw("args", lst(objs(args))).log();
        registerCall(this, "set", &Blk::set);
        registerCall(this, "put", &Blk::put);
        registerCall(this, "go", &Blk::go);
        registerCall(this, "fire", &Blk::fire);
        registerSignal("0");
        registerSignal("1");
        registerCall(this, "0", &Blk::slot0);
        registerCall(this, "1", &Blk::slot1);
        all()[serial] = this;
    }
    ~Blk() { g_live--; all().erase(serial); }
    static std::map<int, Blk *> &all() { static std::map<int, Blk *> m; return m; }
    void did(const char *name, const std::vector<Object> &a) { J("did").num("b", serial).str("name", name).raw("args", lst(objs(a))).log(); }
    void set(const Object &a) { did("set", {a}); }
    void put(const Object &a, const Object &b) { did("put", {a, b}); }
    void go() { did("go", {}); }
    void fire(int k) { emitSignal(std::to_string(k), serial * 10 + k); }
    void slot0(int x) { got(0, x); }
    void slot1(int x) { got(1, x); }
    void got(int slot, int x) { J("got").num("b", serial).num("slot", slot).num("from", x / 10).num("sig", x % 10).log(); }
    static Block *make0() { return new Blk("/vf/zero", {}); }
    static Block *make1(const Object &a) { return new Blk("/vf/one", {a}); }
    static Block *make2(const Object &a, const Object &b) { return new Blk("/vf/two", {a, b}); }
};

static void jsons(Rng &r)
{
    static bool once = false;
    if (!once)
    {
        once = true;
        Pothos::BlockRegistry("/vf/zero", Pothos::Callable(&Blk::make0));
        Pothos::BlockRegistry("/vf/one", Pothos::Callable(&Blk::make1));
        Pothos::BlockRegistry("/vf/two", Pothos::Callable(&Blk::make2));
    }
    g_serial = 0;
    g_live = 0;
    // the description: as JSON, and as the specification reads it
    std::string desc; // {"globals":[...],"pools":[...],"blocks":[...],"conns":[...]}
    std::string json;
    static const char *names[] = {"foo", "bar", "val_1", "x2", "Zed"};
    static const char *plain[] = {"hello world", "a]", "]", "nosuch", "x, y", "{", "1 2", "http://a:1/b?c=[", "", " ", "\"", "a\"b", "[1,2", "C:\\dir\\"};
    bool bad = r.chance(1, 5); // something wrong somewhere
    auto spoil = [&](unsigned in) { if (bad && r.chance(1, in)) { bad = false; return true; } return false; };
    // one JSON value in the place of an argument: [how, ...]
    auto jtext = [&](const std::string &t) { return "\"" + J::esc(t) + "\""; };
    auto value = [&](Gen &g, Kind k, size_t len, bool any, std::string &js, std::string &as, double &mag) {
        const int d = int(r.below(3));
        if (any && r.chance(1, 6)) { const std::string t = plain[r.below(14)]; js = jtext(t); as = "{\"k\":\"lit\",\"v\":" + val("s", q(t)) + "}"; return; }
        if (any && r.chance(1, 4))
        {
            // JSON's own values
            switch (r.below(5))
            {
            case 0: { const int v = int(r.below(2000)) - 1000; js = std::to_string(v); as = "{\"k\":\"lit\",\"v\":" + val("n", js) + "}"; return; }
            case 1: { const bool v = r.chance(1, 2); js = v ? "true" : "false"; as = "{\"k\":\"lit\",\"v\":" + val("b", js) + "}"; return; }
            case 2: { js = "[1, \"foo\", [2, true], []]"; as = "{\"k\":\"lit\",\"v\":" + val("l", "[" + val("n", "1") + "," + val("s", "\"foo\"") + "," + val("l", "[" + val("n", "2") + "," + val("b", "true") + "]") + "," + val("l", "[]") + "]") + "}"; return; }
            case 3: { js = "{\"a]\": 1, \"b\": [\"x:y\", -3], \"c\\\\\": \"\\\"\"}"; as = "{\"k\":\"lit\",\"v\":" + val("m", "[[" + val("s", "\"a]\"") + "," + val("n", "1") + "],[" + val("s", "\"b\"") + "," + val("l", "[" + val("s", "\"x:y\"") + "," + val("n", "-3") + "]") + "],[" + val("s", "\"c\\\\\"") + "," + val("s", "\"\\\"\"") + "]]") + "}"; return; }
            default: js = "[]"; as = "{\"k\":\"lit\",\"v\":" + val("l", "[]") + "}"; return;
            }
        }
        const Ex e = any ? g.any(d) : g.make(k, d, len);
        mag = e.mag;
        js = jtext(e.text); as = e.ast;
    };
    auto vars = [&](Gen &g, unsigned max, std::string &js, std::string &as) {
        std::vector<std::string> js_, as_;
        const bool asMap = r.chance(1, 3);
        std::set<std::string> used;
        static const Kind kinds[] = {NUM, NUM, BOOL, STR, VEC, LIST, MAP};
        std::vector<std::string> order;
        for (unsigned k = r.below(max + 1); k > 0; k--) order.push_back(names[r.below(5)]);
        if (asMap) { std::set<std::string> o(order.begin(), order.end()); order.assign(o.begin(), o.end()); } // by key, each once
        for (auto &n : order)
        {
            const Kind k = kinds[r.below(7)]; const size_t len = 1 + r.below(3); double mag = 0;
            std::string j, a;
            value(g, k, len, false, j, a, mag);
            js_.push_back(asMap ? jtext(n) + ":" + j : "{\"name\":" + jtext(n) + ",\"value\":" + j + "}");
            as_.push_back("[" + q(n) + "," + a + "]");
            g.names[n] = {k, len, mag};
        }
        std::string t; for (auto &x : js_) t += (t.empty() ? "" : ",") + x;
        js = asMap ? "{" + t + "}" : "[" + t + "]"; as = lst(as_);
    };
    Gen globals(r);
    std::string gj, ga;
    vars(globals, 3, gj, ga);
    const bool pools = r.chance(1, 3);
    std::vector<std::string> bj, ba, ids;
    const unsigned nb = 1 + r.below(4);
    for (unsigned b = 0; b < nb; b++)
    {
        const std::string id = r.chance(1, 12) && !ids.empty() ? ids[r.below(unsigned(ids.size()))] : "blk" + std::to_string(b);
        ids.push_back(id);
        Gen g(r);
        g.names = globals.names;
        std::string lj, la;
        vars(g, 2, lj, la);
        unsigned nargs = r.below(3);
        static const char *paths[] = {"/vf/zero", "/vf/one", "/vf/two"};
        std::string path = paths[nargs];
        bool good = true;
        auto some = [&](unsigned n, std::string &js, std::string &as) {
            std::vector<std::string> js_, as_; double mag = 0;
            for (unsigned k = 0; k < n; k++) { std::string j, a; value(g, NUM, 1, true, j, a, mag); if (spoil(20)) { j = "null"; a = "{\"k\":\"name\",\"v\":\"no such name\"}"; } js_.push_back(j); as_.push_back(a); }
            js = ""; for (auto &x : js_) js += (js.empty() ? "" : ",") + x;
            as = lst(as_);
        };
        if (spoil(10)) { good = false; if (r.chance(1, 2)) path = "/vf/nosuch"; else nargs = nargs == 2 ? 0 : nargs + 1; }
        std::string aj, aa;
        some(nargs, aj, aa);
        std::vector<std::string> cj, ca;
        for (unsigned k = r.below(4); k > 0; k--)
        {
            static const char *calls[] = {"go", "set", "put"};
            const unsigned c = r.below(3); unsigned n = c; std::string name = calls[c]; bool ok = true;
            if (spoil(10)) { ok = false; if (r.chance(1, 2)) name = "nosuch"; else n = c == 0 ? 0 : c - 1; if (c == 0) name = "nosuch"; }
            std::string j, a; some(n, j, a);
            cj.push_back("[" + jtext(name) + (n ? "," : "") + j + "]");
            ca.push_back("{\"name\":" + q(name) + ",\"args\":" + a + ",\"good\":" + (ok ? "true" : "false") + "}");
        }
        std::string cs; for (auto &x : cj) cs += (cs.empty() ? "" : ",") + x;
        std::string pool = pools && r.chance(1, 2) ? "p1" : "";
        bool goodPool = true;
        if (spoil(12)) { pool = "nopool"; goodPool = false; }
        std::string o = "{\"id\":" + jtext(id) + ",\"path\":" + jtext(path);
        if (lj.size() > 2) o += ",\"locals\":" + lj;
        if (nargs || r.chance(1, 2)) o += ",\"args\":[" + aj + "]";
        if (!cj.empty() || r.chance(1, 2)) o += ",\"calls\":[" + cs + "]";
        if (!pool.empty()) o += ",\"threadPool\":" + jtext(pool);
        bool whole = true;
        if (spoil(15)) { whole = false; o = r.chance(1, 2) ? "{\"id\":" + jtext(id) + "}" : r.chance(1, 2) ? "7" : "{\"path\":\"/vf/zero\"}"; }
        else o += "}";
        bj.push_back(o);
        ba.push_back("{\"id\":" + q(id) + ",\"path\":" + q(path) + ",\"locals\":" + la + ",\"args\":" + aa + ",\"calls\":" + lst(ca) + ",\"good\":" + (good ? "true" : "false") + ",\"pool\":" + (goodPool ? "true" : "false") + ",\"whole\":" + (whole ? "true" : "false") + "}");
    }
    std::vector<std::string> nj, na;
    std::set<std::string> seen;
    for (unsigned k = r.below(8); k > 0; k--)
    {
        static const char *self[] = {"self", "this", ""};
        const bool fromSelf = r.chance(1, 5), toSelf = r.chance(1, 5);
        const std::string si = fromSelf ? "" : ids[r.below(unsigned(ids.size()))], di = toSelf ? "" : ids[r.below(unsigned(ids.size()))];
        const std::string sp = std::to_string(r.below(2)), dp = std::to_string(r.below(2));
        if (!seen.insert(si + "/" + sp + ">" + di + "/" + dp).second) continue;
        auto port = [&](const std::string &p) { return r.chance(1, 2) ? p : jtext(p); };
        std::string s = fromSelf ? self[r.below(3)] : si, d = toSelf ? self[r.below(3)] : di;
        bool good = true;
        std::string c;
        if (spoil(8)) { good = false; if (r.chance(1, 2)) s = "noid"; else d = "noid"; }
        c = "[" + jtext(s) + "," + port(sp) + "," + jtext(d) + "," + port(dp) + "]";
        if (good && spoil(15)) { good = false; c = r.chance(1, 2) ? "[" + jtext(s) + "," + port(sp) + "]" : "{}"; }
        nj.push_back(c);
        na.push_back("{\"src\":" + q(si) + ",\"sp\":" + sp + ",\"dst\":" + q(di) + ",\"dp\":" + dp + ",\"good\":" + (good ? "true" : "false") + "}");
    }
    auto join = [](const std::vector<std::string> &v) { std::string t; for (auto &x : v) t += (t.empty() ? "" : ",") + x; return t; };
    json = "{";
    if (gj.size() > 2 || r.chance(1, 2)) json += "\"globals\":" + gj + ",";
    if (pools) json += "\"threadPools\":{\"p1\":{}},";
    json += "\"blocks\":[" + join(bj) + "],\"connections\":[" + join(nj) + "]}";
    bool text = true;
    if (spoil(4)) { text = false; json = json.substr(0, 1 + r.below(unsigned(json.size() - 2))); }
    desc = "{\"text\":" + std::string(text ? "true" : "false") + ",\"globals\":" + ga + ",\"blocks\":" + lst(ba) + ",\"conns\":" + lst(na) + "}";
    J("make").raw("x", desc).str("json", json).log();
    {
        std::shared_ptr<Pothos::Topology> t;
        try { t = Pothos::Topology::make(json); J("built").boolean("ok", true).log(); }
        catch (const Pothos::Exception &ex) { J("built").boolean("ok", false).str("why", ex.displayText()).log(); }
        if (t)
        {
            // inside another one, with something at its ports
            auto env = Pothos::ProxyEnvironment::make("managed");
            std::shared_ptr<Pothos::Topology> outer = Pothos::Topology::make();
            std::vector<Proxy> ends;
            auto reg = env->findProxy("Pothos/BlockRegistry");
            const std::vector<std::string> ins = t->inputPortNames(), outs = t->outputPortNames();
            J("ports").strs("ins", ins).strs("outs", outs).log();
            for (int k = 0; k < 2; k++) ends.push_back(reg.call("/vf/zero"));
            if (ins.empty() && outs.empty()) outer = t; // nothing to connect it by: on its own
            for (auto &p : ins) outer->connect(ends[0], p, t, p);
            for (auto &p : outs) outer->connect(t, p, ends[1], p);
            outer->connect(ends[1], "0", ends[0], "0"); // so that there is something to commit
            outer->commit();
            for (auto &x : Blk::all()) J("block").num("b", x.first).str("name", x.second->getName()).str("uid", x.second->uid()).log();
            auto line = [](std::string s) { for (auto &c : s) if (c == '\n') c = ' '; return s; };
            J("dump").raw("rendered", line(outer->dumpJSON("{\"mode\":\"rendered\"}"))).raw("flat", line(outer->dumpJSON("{\"mode\":\"flat\"}"))).str("top", outer == t ? "" : t->getName() + "/").log();
            for (auto &x : Blk::all()) for (int k = 0; k < 2; k++)
            {
                J("fire").num("b", x.first).num("sig", k).log();
                x.second->call("fire", k);
                outer->waitInactive(0.01, 5.0);
                J("quiet").log();
            }
            outer->disconnectAll();
            outer->commit();
        }
    }
    J("left").num("live", g_live.load()).log();
}

static void oneRun(uint64_t seed, const std::string &mode)
{
    Rng r(seed);
    vf::SchedOpts so;
    so.seed = seed;
    so.strategy = r.chance(1, 2) ? vf::RANDOM : vf::PCT;
    so.syncPeriod = 1u << r.below(6);
    so.plainPeriod = 0;
    so.tickNs = 100;
    vf::schedBegin(so);
    J("run").num("seed", (long long)(seed & 0x7fffffff)).log();
    if (mode == "eval") evals(r, 20 + int(r.below(40)));
    else if (mode == "dtype") dtypes(r, 40 + int(r.below(60)));
    else jsons(r);
    J("end").log();
    vf::schedEnd();
}

int main(int argc, char **argv)
{
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && personality(ADDR_NO_RANDOMIZE) != -1 && !getenv("VF_NOASLR"))
    {
        setenv("VF_NOASLR", "1", 1);
        execv("/proc/self/exe", argv);
    }
    vf::Args a(argc, argv);
    if (a.has("out")) vf::logOpen(a.get("out", "").c_str());
    Poco::Logger::get("").setLevel(0);
    const uint64_t s0 = uint64_t(a.num("seed", 1));
    const int n = int(a.num("n", 1));
    alarm(unsigned(a.num("limit", 300)));
    for (int k = 0; k < n; k++) oneRun(s0 * 1000003 + uint64_t(k), a.get("mode", "eval"));
    vf::logFlush();
    return 0;
}
