// Conformance driver for the block runtime: random topologies of blocks whose
// work() makes random (seeded) use of the port API, executed by the real thread
// pools under the controlled scheduler. Every user-visible observation and
// every decision of a block is logged; the TLA+ trace specifications decide.
#include "vf.hpp"
#include <Pothos/Framework.hpp>
#include <Pothos/Proxy.hpp>
#include <Pothos/Callable.hpp>
#include <Pothos/Object/Containers.hpp>
#include <Poco/Logger.h>
#include <Poco/NullChannel.h>
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstring>
#include <deque>
#include <iostream>
#include <json.hpp>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <sys/personality.h>
#include <thread>
#include <tuple>
#include <unistd.h>

using vf::J;
using vf::Rng;

struct Feat
{
    bool streams = true, labels = false, msgs = false, calls = false, live = false, throws = false, actor = false, small = false, hold = true, stats = false;
};
static Feat F;

static std::string pid(int b, int p) { return "b" + std::to_string(b) + "." + std::to_string(p); }

static std::string arr(const std::vector<std::string> &v)
{
    std::string s = "[";
    for (size_t i = 0; i < v.size(); i++) { if (i) s += ','; s += v[i]; }
    return s + "]";
}

struct PortCfg { std::string dtype; size_t sz; };

struct Cfg
{
    int id = 0;
    std::vector<PortCfg> ins, outs;
    int role = 0;         // 0 general, 1 one-to-one copy (default label propagation), 2 read-before-write copy
    int budget = 0;       // elements to produce per output
    int bm = 0;           // 0 abdicate 1 small generic 2 circular 3 tiny generic
    int ibm = 0;          // same, input side
    int propMode = 0;     // 0 default (only role 1/2), 1 custom, 2 drop
    bool sig = false, slot = false;
    int msgBudget = 0, sigBudget = 0;
    unsigned seed = 1;
    bool burst = false;   // posts everything it may in one work call
    bool lazyMsg = false; // pops messages only after a while
    int throwActivate = 0;
};

static std::vector<int> bytesOf(const Pothos::BufferChunk &b)
{
    std::vector<int> v;
    auto p = (const unsigned char *)b.address;
    for (size_t i = 0; i < b.length; i++) v.push_back(p[i]);
    return v;
}

static std::atomic<int> g_msgId{0};
static std::atomic<int> g_labelId{0};
static std::atomic<int> g_callId{0};

static Pothos::BufferManager::Sptr makeMgr(int kind, Rng &r)
{
    Pothos::BufferManagerArgs a;
    if (kind == 1) { a.numBuffers = 2 + r.below(3); a.bufferSize = 6 * (2 + r.below(6)); return Pothos::BufferManager::make("generic", a); }
    if (kind == 2) { a.numBuffers = 2 + r.below(2) * 2; a.bufferSize = 4096; return Pothos::BufferManager::make("circular", a); }
    if (kind == 3) { a.numBuffers = 2; a.bufferSize = 6; return Pothos::BufferManager::make("generic", a); }
    return Pothos::BufferManager::Sptr();
}

// user callback bracket (exclusivity / life cycle trace)
struct Bracket
{
    int b; const char *k;
    Bracket(int b, const char *k) : b(b), k(k) { if (F.actor) J("in").str("b", "b" + std::to_string(b)).num("t", vf::self()).str("k", k).log(); vf::point(); }
    ~Bracket() { vf::point(); if (F.actor) J("out").str("b", "b" + std::to_string(b)).num("t", vf::self()).str("k", k).log(); }
};

class FB : public Pothos::Block
{
public:
    Cfg c;
    mutable Rng r;
    std::vector<int> made;            // elements produced so far per output
    std::vector<unsigned char> seq;   // next byte value per output
    struct Held { Pothos::BufferChunk buf; std::vector<int> was; int ttl; std::string p; };
    std::deque<Held> held;
    std::vector<int> lastConsumed;
    int workN = 0;
    int activeBudget = 0;

    FB(const Cfg &cfg) : c(cfg), r(cfg.seed * 101 + cfg.id)
    {
        setName("b" + std::to_string(c.id));
        for (size_t i = 0; i < c.ins.size(); i++) setupInput(i, c.ins[i].dtype);
        for (size_t i = 0; i < c.outs.size(); i++) setupOutput(i, c.outs[i].dtype);
        made.assign(c.outs.size(), 0);
        seq.assign(c.outs.size(), 0);
        lastConsumed.assign(c.ins.size(), 0);
        if (c.sig) registerSignal("sig");
        if (c.slot)
        {
            registerCallable("slot", Pothos::Callable(&FB::onSlot).bind(std::ref(*this), 0));
            registerCallable("poke", Pothos::Callable(&FB::onPoke).bind(std::ref(*this), 0));
            registerCallable("onVal", Pothos::Callable(&FB::onVal).bind(std::ref(*this), 0));
            registerCallable("val", Pothos::Callable(&FB::val).bind(std::ref(*this), 0));
            registerProbe("val");
        }
        registerCallable("over", Pothos::Callable(&FB::over1).bind(std::ref(*this), 0));
        registerCallable("over", Pothos::Callable(&FB::over2).bind(std::ref(*this), 0));
        registerCallable("over", Pothos::Callable(&FB::over3).bind(std::ref(*this), 0));
        registerCallable("over", Pothos::Callable(&FB::over4).bind(std::ref(*this), 0));
        registerCallable("nudge", Pothos::Callable(&FB::onNudge).bind(std::ref(*this), 0));
        resv.assign(c.ins.size(), 0);
        if (c.role == 2) output(0)->setReadBeforeWrite(input(0));
        if (c.ins.size() && c.role == 0 && F.calls && r.chance(1, 2)) setRes(int(r.below(30)));
        else if (c.ins.size() && r.chance(1, 4) && c.role == 0) setRes(int(r.below(5)));
        if (c.outs.size() && r.chance(1, 4)) output(0)->setReserve(r.below(3));
    }

    int onNudge(int x)
    {
        Bracket br(c.id, "call");
        if (F.streams && r.chance(1, 4)) changeRes();
        return x + 1;
    }
    // one name, four methods
    int over1(int x, int) { Bracket br(c.id, "call"); return x + 10000; }
    int over2(int x, const std::vector<std::string> &v) { Bracket br(c.id, "call"); return x + 20000 + int(v.size()) * 0; }
    int over3(int x) { Bracket br(c.id, "call"); return x + 30000; }
    int over4(int x, int, const std::string &) { Bracket br(c.id, "call"); return x + 40000; }
    // a reserve changed outside of work() has to be noticed
    void changeRes()
    {
        if (c.ins.empty() || c.role != 0) return;
        setRes(int(r.below(r.chance(1, 2) ? 3 : 20)));
        J("res").str("b", getName()).nums("res", reserves()).log();
    }
    int onPoke(int x)
    {
        Bracket br(c.id, "call");
        if (F.throws && r.chance(1, 4)) { J("cthrow").num("x", x).log(); throw Pothos::InvalidArgumentException("poke" + std::to_string(x)); }
        if (c.sig && F.calls && c.sigBudget > 0) doEmit();
        return x + 1000;
    }
    void onSlot(int x, const std::string &y)
    {
        Bracket br(c.id, "slot");
        if (F.calls) J("slot").str("i", "b" + std::to_string(c.id) + ".slot").num("x", x).str("y", y).log();
        if (F.streams && r.chance(1, 4)) changeRes();
        if (F.throws && r.chance(1, 4)) throw Pothos::Exception("slot");
        if (c.sig && F.calls && c.sigBudget > 0 && r.chance(1, 2)) doEmit();
    }
    void doEmit()
    {
        c.sigBudget--;
        int id = ++g_msgId;
        J("post").str("o", "b" + std::to_string(c.id) + ".sig").num("x", id).str("y", "s" + std::to_string(id)).num("tot", -1).log();
        emitSignal("sig", id, "s" + std::to_string(id));
        J("posted").num("x", id).log();
    }

    static std::pair<int, std::string> msgOf(const Pothos::Object &m)
    {
        if (!m) return {-1, "null"};
        if (m.type() == typeid(Pothos::ObjectVector))
        {
            const auto &v = m.extract<Pothos::ObjectVector>();
            if (v.size() == 2) return {v[0].convert<int>(), v[1].convert<std::string>()};
            return {-2, "badargs"};
        }
        return {m.convert<int>(), ""};
    }
    // registered as a probe: the trigger's arguments come in, the result goes out on the signal
    int val(int x, const std::string &y)
    {
        Bracket br(c.id, "slot");
        int id = ++g_msgId;
        if (F.calls) J("probed").str("i", "b" + std::to_string(c.id) + ".probeVal").num("x", x).str("y", y).str("o", "b" + std::to_string(c.id) + ".valTriggered").num("z", id).log();
        return id;
    }
    void onVal(int x)
    {
        Bracket br(c.id, "slot");
        if (F.calls) J("slot").str("i", "b" + std::to_string(c.id) + ".onVal").num("x", x).str("y", "").log();
    }

    // held buffers: contents must not change while referenced
    void releaseHeld(bool all)
    {
        for (auto it = held.begin(); it != held.end();)
        {
            if (all || --it->ttl <= 0)
            {
                J("held").str("p", it->p).nums("was", it->was).nums("now", bytesOf(it->buf)).log();
                it = held.erase(it);
            }
            else ++it;
        }
    }

    bool prepare()
    {
        Bracket br(c.id, "prepare");
        releaseHeld(false);
        if (!held.empty()) this->yield(); // never sit on buffers while others wait for them
        res0 = resv;
        if (F.msgs || F.calls) J("turn").str("b", getName()).log();
        if (r.chance(1, 30)) { this->yield(); return false; }
        return true;
    }
    void activate()
    {
        Bracket br(c.id, "activate");
        if (c.throwActivate > 0) { c.throwActivate--; if (F.actor) J("athrow").str("b", getName()).log(); throw Pothos::Exception("FAILS-" + getName() + "-"); }
        if (F.actor) J("activated").str("b", getName()).log();
        else if (c.sig && F.calls && c.sigBudget > 0 && r.chance(1, 3)) doEmit();
    }
    void deactivate()
    {
        Bracket br(c.id, "deactivate");
        releaseHeld(true);
        if (F.actor) J("deactivated").str("b", getName()).log();
        if (F.actor && F.throws && r.chance(1, 8)) { J("dthrow").str("b", getName()).log(); throw Pothos::Exception("FAILS-" + getName() + "-"); }
    }
    Pothos::BufferManager::Sptr getInputBufferManager(const std::string &, const std::string &)
    {
        Bracket br(c.id, "bufmgr");
        return makeMgr(c.ibm, r);
    }
    Pothos::BufferManager::Sptr getOutputBufferManager(const std::string &, const std::string &)
    {
        Bracket br(c.id, "bufmgr");
        return makeMgr(c.bm, r);
    }

    std::string labelJson(const Pothos::Label &l)
    {
        return "[" + std::to_string(l.index) + "," + std::to_string(l.data.convert<int>()) + "," + std::to_string(l.width) + "]";
    }
    std::string labelsJson(const Pothos::LabelIteratorRange &ls)
    {
        std::vector<std::string> v;
        for (const auto &l : ls) v.push_back(labelJson(l));
        return arr(v);
    }

    std::vector<int> prodNow; // elements produced in the current work, per output

    void propagateLabels(const Pothos::InputPort *in)
    {
        Bracket br(c.id, "propagate");
        if (c.propMode == 0)
        {
            if (F.labels) J("prop").str("b", getName()).str("i", pid(c.id, in->index())).num("mode", 0).raw("labs", labelsJson(in->labels())).raw("post", "[]").log();
            Pothos::Block::propagateLabels(in);
            return;
        }
        std::vector<std::string> posts;
        if (c.propMode == 1)
        {
            for (size_t o = 0; o < c.outs.size(); o++)
            {
                if (prodNow[o] <= 0) continue;
                std::vector<std::string> ls;
                for (const auto &l : in->labels())
                {
                    if (r.chance(1, 4)) continue;
                    Pothos::Label n(l.id, ++g_labelId, l.index % prodNow[o], 1 + r.below(2));
                    ls.push_back(labelJson(n));
                    output(o)->postLabel(n);
                }
                posts.push_back("{\"o\":\"" + pid(c.id, int(o)) + "\",\"labs\":" + arr(ls) + "}");
            }
        }
        if (F.labels) J("prop").str("b", getName()).str("i", pid(c.id, in->index())).num("mode", 1).raw("labs", labelsJson(in->labels())).raw("post", arr(posts)).log();
        if (F.throws && r.chance(1, 4)) throw Pothos::Exception("propagate");
    }

    void work()
    {
        Bracket br(c.id, "work");
        workN++;
        bool idleChoice = false;
        prodNow.assign(c.outs.size(), 0);

        // ---- what the block is shown
        if (F.streams)
        {
            std::vector<std::string> ins, outs;
            for (size_t i = 0; i < c.ins.size(); i++)
            {
                auto p = input(i);
                J j; j.str("p", pid(c.id, int(i))).num("sz", p->dtype().size()).nums("v", bytesOf(p->buffer())).num("n", p->elements()).num("tot", p->totalElements());
                j.boolean("msg", p->hasMessage());
                if (F.labels) j.raw("labs", labelsJson(p->labels())); else j.raw("labs", "[]");
                ins.push_back(j.done());
            }
            for (size_t o = 0; o < c.outs.size(); o++)
            {
                auto p = output(o);
                J j; j.str("p", pid(c.id, int(o))).num("n", p->elements()).num("cap", (long long)(p->buffer().length)).num("sz", p->dtype().size()).num("tot", p->totalElements());
                outs.push_back(j.done());
            }
            const auto &w = workInfo();
            auto clampBig = [](size_t x) { return (long long)(x > 1000000 ? 1000000 : x); };
            bool ptrs = w.inputPointers.size() == c.ins.size() && w.outputPointers.size() == c.outs.size();
            if (ptrs) for (size_t i = 0; i < c.ins.size(); i++) if (w.inputPointers[i] != (const void *)input(i)->buffer().address) ptrs = false;
            if (ptrs) for (size_t o = 0; o < c.outs.size(); o++) if (w.outputPointers[o] != (void *)output(o)->buffer().address) ptrs = false;
            J("wb").str("b", getName()).raw("ins", arr(ins)).raw("outs", arr(outs)).nums("res", reserves()).nums("res0", res0)
                .num("minIn", clampBig(w.minInElements)).num("minOut", clampBig(w.minOutElements)).num("minE", clampBig(w.minElements))
                .num("minAllIn", clampBig(w.minAllInElements)).num("minAllOut", clampBig(w.minAllOutElements)).num("minAllE", clampBig(w.minAllElements))
                .boolean("ptrs", ptrs).log();
        }
        vf::point();

        // ---- messages
        if (F.msgs || F.calls) J("wm").str("b", getName()).log();
        if (F.msgs)
        {
            for (size_t i = 0; i < c.ins.size(); i++)
            {
                auto p = input(i);
                if (c.lazyMsg && r.chance(7, 8)) { if (p->hasMessage()) idleChoice = true; continue; }
                while (p->hasMessage())
                {
                    if (r.chance(1, 6)) { idleChoice = true; break; }
                    if (r.chance(1, 4)) { auto m = msgOf(p->peekMessage()); J("peek").str("i", pid(c.id, int(i))).num("x", m.first).str("y", m.second).log(); }
                    auto m = msgOf(p->popMessage());
                    J("pop").str("i", pid(c.id, int(i))).num("x", m.first).str("y", m.second).num("tot", p->totalMessages()).log();
                }
            }
            for (size_t o = 0; o < c.outs.size(); o++)
                while (c.msgBudget > 0 && (c.burst || r.chance(1, 2)))
                {
                    c.msgBudget--;
                    int id = ++g_msgId;
                    J("post").str("o", pid(c.id, int(o))).num("x", id).str("y", "").num("tot", output(o)->totalMessages()).log();
                    if (r.chance(1, 3)) output(o)->emplaceMessage<int>(id); else output(o)->postMessage(id);
                    J("posted").num("x", id).log();
                    if (!c.burst && r.chance(1, 2)) break;
                }
            if (c.msgBudget > 0 && !c.outs.empty()) idleChoice = true;
        }
        if (F.calls && c.sig)
        {
            while (c.sigBudget > 0 && (c.burst || r.chance(1, 2))) doEmit();
            if (c.sigBudget > 0) idleChoice = true;
        }

        if (!held.empty()) idleChoice = true;

        // ---- streams
        if (F.streams)
        {
            std::vector<std::string> cons, prods, rms;
            std::vector<int> cN(c.ins.size(), 0);
            if (c.role == 0)
            {
                for (size_t i = 0; i < c.ins.size(); i++)
                {
                    auto p = input(i);
                    const int n = int(p->elements());
                    int k = r.chance(1, 5) ? 0 : (r.chance(1, 2) ? n : r.range(0, n));
                    if (k < n) idleChoice = true;
                    if (F.labels && k > 0 && r.chance(1, 5))
                    {
                        std::vector<Pothos::Label> ls;
                        for (const auto &l : p->labels()) ls.push_back(l);
                        if (!ls.empty())
                        {
                            auto l = ls[r.below(unsigned(ls.size()))];
                            p->removeLabel(l);
                            size_t left = 0; for (const auto &z : p->labels()) { (void)z; left++; }
                            rms.push_back(J().str("i", pid(c.id, int(i))).raw("lab", labelJson(l)).num("nbefore", (long long)ls.size()).num("nleft", (long long)left).done());
                        }
                    }
                    if (F.hold && k > 0 && held.size() < 2 && r.chance(1, 8))
                    {
                        Held h; h.buf = p->buffer(); h.buf.length = size_t(k) * p->dtype().size();
                        h.was = bytesOf(h.buf); h.ttl = 1 + r.below(4); h.p = pid(c.id, int(i));
                        held.push_back(h);
                        idleChoice = true;
                    }
                    cN[i] = k;
                }
                // forward a whole input buffer without copying
                bool fwd = false;
                if (c.ins.size() && c.outs.size() && cN[0] > 0 && made[0] < c.budget && input(0)->dtype().size() == output(0)->dtype().size() && r.chance(1, 8))
                {
                    cN[0] = int(input(0)->elements());
                    auto buf = input(0)->takeBuffer();
                    buf.length = cN[0] * input(0)->dtype().size();
                    buf.dtype = output(0)->dtype();
                    auto v = bytesOf(buf);
                    fwd = true;
                    int n = cN[0];
                    prodNow[0] = n; made[0] += n;
                    std::vector<std::string> ls = randLabels(0, n);
                    output(0)->postBuffer(std::move(buf));
                    prods.push_back(J().str("o", pid(c.id, 0)).nums("v", v).raw("labs", arr(ls)).done());
                }
                for (size_t o = 0; o < c.outs.size(); o++)
                {
                    if (o == 0 && fwd) continue;
                    produceSome(int(o), prods, idleChoice);
                }
                for (size_t i = 0; i < c.ins.size(); i++) if (cN[i]) input(i)->consume(size_t(cN[i]));
                if (r.chance(1, 25) && c.ins.size()) setRes(int(r.below(4)));
                if (r.chance(1, 25) && c.outs.size()) { output(0)->setReserve(r.below(3)); }
            }
            else
            {
                // element-wise copy, possibly in place
                auto in = input(0); auto out = output(0);
                const size_t sz = in->dtype().size();
                int k = int(std::min(in->elements(), out->elements()));
                if (k > 0 && r.chance(1, 4)) k = r.range(0, k);
                if (k < int(in->elements())) idleChoice = true;
                std::vector<unsigned char> tmp((const unsigned char *)in->buffer().address, (const unsigned char *)in->buffer().address + size_t(k) * sz);
                auto dst = (unsigned char *)out->buffer().address;
                std::vector<int> v;
                for (auto &x : tmp) { x = (unsigned char)(x ^ 0x5a); v.push_back(x); }
                if (!tmp.empty()) memcpy(dst, tmp.data(), tmp.size());
                if (k > 0)
                {
                    prodNow[0] = k;
                    std::vector<std::string> ls = randLabels(0, k);
                    if (r.chance(1, 3)) { in->consume(size_t(k)); out->produce(size_t(k)); }
                    else if (k > 1) { out->produce(1); in->consume(size_t(k) - 1); in->consume(1); out->produce(size_t(k) - 1); }
                    else { out->produce(size_t(k)); in->consume(size_t(k)); }
                    prods.push_back(J().str("o", pid(c.id, 0)).nums("v", v).raw("labs", arr(ls)).done());
                    made[0] += k;
                }
                cN[0] = k;
            }
            for (size_t i = 0; i < c.ins.size(); i++) if (cN[i]) cons.push_back("{\"i\":\"" + pid(c.id, int(i)) + "\",\"n\":" + std::to_string(cN[i]) + "}");
            J("we").str("b", getName()).raw("cons", arr(cons)).raw("prod", arr(prods)).raw("rm", arr(rms)).nums("res", reserves()).log();
        }
        if (idleChoice || r.chance(1, 40)) this->yield();
        if (F.throws && r.chance(1, 6)) throw Pothos::Exception("work");
        if (F.throws && r.chance(1, 12)) throw std::runtime_error("work");
    }

    void setReserves() { if (!c.ins.empty() && c.role == 0) setRes(1 + int(r.below(2))); }
    std::vector<int> res0;
    std::vector<int> reserves() { return resv; }
    void setRes(int n) { resv[0] = n; input(0)->setReserve(size_t(n)); }
    std::vector<int> resv;

    std::vector<std::string> randLabels(int o, int n)
    {
        std::vector<std::string> ls;
        if (!F.labels || n <= 0) return ls;
        while (r.chance(2, 5) && ls.size() < 4)
        {
            Pothos::Label l("L", ++g_labelId, r.below(unsigned(n)), 1 + r.below(3));
            ls.push_back(labelJson(l));
            output(o)->postLabel(l);
        }
        return ls;
    }

    void fill(void *p, size_t bytes, int o, std::vector<int> &v)
    {
        auto d = (unsigned char *)p;
        for (size_t i = 0; i < bytes; i++)
        {
            // values are tagged with the producing port so that merged streams can be told apart
            unsigned char x = (unsigned char)(((c.id * 2 + o) & 7) << 5 | (seq[o] & 31));
            seq[o]++;
            d[i] = x; v.push_back(x);
        }
    }

    void produceSome(int o, std::vector<std::string> &prods, bool &idleChoice)
    {
        auto p = output(o);
        const int left = c.budget - made[o];
        if (left <= 0) return;
        if (r.chance(1, 5)) { idleChoice = true; return; }
        const size_t sz = p->dtype().size();
        std::vector<int> v;
        int n = 0;
        const int how = r.below(8);
        if (how == 0)
        {
            // own buffer, possibly several
            int cnt = 1 + r.below(2);
            for (int k = 0; k < cnt && n < left; k++)
            {
                int m = std::min(left - n, 1 + int(r.below(4)));
                Pothos::BufferChunk b(p->dtype(), size_t(m));
                fill((void *)b.address, size_t(m) * sz, o, v);
                if (r.chance(1, 4)) b.dtype = Pothos::DType();
                p->postBuffer(b);
                n += m;
            }
        }
        else if (how == 1)
        {
            int m = std::min(left, 1 + int(r.below(6)));
            auto b = p->getBuffer(size_t(m));
            fill((void *)b.address, size_t(m) * sz, o, v);
            p->postBuffer(std::move(b));
            n = m;
        }
        else if (how == 2 && p->elements() > 0 && p->buffer().length > 0)
        {
            // take a slice of the front buffer and pop it explicitly
            int m = std::min({left, int(p->elements()), 1 + int(r.below(5))});
            auto b = p->buffer();
            b.length = size_t(m) * sz;
            fill((void *)b.address, b.length, o, v);
            p->popElements(size_t(m));
            p->postBuffer(b);
            n = m;
        }
        else
        {
            int m = std::min(left, int(p->elements()));
            if (m > 0) m = std::min(m, r.chance(1, 3) ? m : 1 + int(r.below(5)));
            if (m > 12) m = 12;
            if (m > 0)
            {
                fill((void *)p->buffer().address, size_t(m) * sz, o, v);
                p->produce(size_t(m));
                n = m;
            }
        }
        if (n > 0)
        {
            made[o] += n;
            prodNow[o] = n;
            std::vector<std::string> ls = randLabels(o, n);
            prods.push_back(J().str("o", pid(c.id, o)).nums("v", v).raw("labs", arr(ls)).done());
        }
        if (made[o] < c.budget) idleChoice = true;
    }
};

struct Edge
{
    int s, sp, d, dp;
    std::string sn, dn; // named (signal/slot) ends, or empty
    bool sig() const { return !sn.empty(); }
    std::string src() const { return sn.empty() ? std::to_string(sp) : sn; }
    std::string dst() const { return dn.empty() ? std::to_string(dp) : dn; }
    bool operator<(const Edge &e) const { return std::tie(s, sp, d, dp, sn, dn) < std::tie(e.s, e.sp, e.d, e.dp, e.sn, e.dn); }
};

static Pothos::ThreadPool randPool(Rng &r)
{
    Pothos::ThreadPoolArgs a;
    a.numThreads = r.chance(1, 3) ? 0 : 1 + r.below(3);
    a.yieldMode = r.chance(1, 6) ? "SPIN" : (r.chance(1, 3) ? "HYBRID" : (r.chance(1, 2) ? "CONDITION" : ""));
    return Pothos::ThreadPool(a);
}

static void logIdle(Pothos::Topology &t, std::vector<std::shared_ptr<FB>> &blocks, const char *ev)
{
    std::vector<std::string> ins, outs;
    auto stats = nlohmann::json::parse(t.queryJSONStats());
    for (auto it = stats.begin(); it != stats.end(); ++it)
    {
        const auto &s = it.value();
        if (!s.is_object() || !s.count("blockName")) continue;
        const std::string b = s["blockName"];
        if (s.count("inputStats"))
            for (auto &p : s["inputStats"])
            {
                J j; j.str("p", b + "." + p["portName"].get<std::string>()).num("tot", p["totalElements"].get<long long>()).num("enq", p["enqueuedBytes"].get<long long>())
                    .num("labs", p["totalLabels"].get<long long>()).num("enql", p["enqueuedLabels"].get<long long>())
                    .num("msgs", p["totalMessages"].get<long long>()).num("enqm", p["enqueuedMessages"].get<long long>())
                    .num("res", p["reserveElements"].get<long long>()).num("sz", p["dtypeSize"].get<long long>());
                ins.push_back(j.done());
            }
        if (s.count("outputStats"))
            for (auto &p : s["outputStats"])
            {
                J j; j.str("p", b + "." + p["portName"].get<std::string>()).num("tot", p["totalElements"].get<long long>()).num("labs", p["totalLabels"].get<long long>())
                    .num("msgs", p["totalMessages"].get<long long>()).num("sz", p["dtypeSize"].get<long long>());
                outs.push_back(j.done());
            }
    }
    J(ev).raw("ins", arr(ins)).raw("outs", arr(outs)).log();
}

static void logActive(std::vector<std::shared_ptr<FB>> &blocks)
{
    if (!F.actor) return;
    std::vector<std::string> v;
    for (auto &b : blocks) if (b->isActive()) v.push_back(b->getName());
    J("act").strs("on", v).log();
}

static void oneRun(uint64_t seed, int sched)
{
    Rng r(seed);
    g_msgId = 0; g_labelId = 0; g_callId = 0;
    vf::SchedOpts so;
    so.seed = seed;
    so.strategy = sched >= 0 ? sched : (r.chance(1, 2) ? vf::RANDOM : vf::PCT);
    so.syncPeriod = 1u << r.below(6);
    so.plainPeriod = r.chance(1, 2) ? 0 : (100u << r.below(4));
    so.pctDepth = 1 + r.below(4);
    so.tickNs = 100;
    vf::schedBegin(so);
    {
        const int nb = 2 + r.below(F.small ? 2 : 4);
        const int fam = r.below(4); // element type family of the run
        static const char *names[4] = {"uint8", "int16", "uint8, 3", "uint8"};
        static const size_t sizes[4] = {1, 2, 3, 1};
        auto mk = [&]() {
            PortCfg p; p.dtype = names[fam]; p.sz = sizes[fam];
            if (r.chance(1, 10)) { p.dtype = ""; p.sz = 1; }
            return p;
        };
        std::vector<Cfg> cfgs;
        for (int b = 0; b < nb; b++)
        {
            Cfg c; c.id = b; c.seed = unsigned(r.next());
            const int nin = b == 0 ? 0 : 1 + (r.chance(1, 3) ? 1 : 0);
            const int nout = b == nb - 1 ? (r.chance(1, 4) ? 1 : 0) : 1 + (r.chance(1, 3) ? 1 : 0);
            for (int i = 0; i < nin; i++) c.ins.push_back(mk());
            for (int i = 0; i < nout; i++) c.outs.push_back(mk());
            c.budget = b == 0 ? 4 + r.below(26) : r.below(16);
            if (b > 0 && nin == 1 && nout == 1 && r.chance(1, 2))
            {
                c.role = 1 + r.below(2);
                c.outs[0] = c.ins[0];
            }
            c.bm = r.chance(1, 2) ? 0 : r.below(4);
            c.ibm = r.chance(3, 4) ? 0 : r.below(4);
            c.propMode = c.role != 0 ? (r.chance(1, 4) ? 1 : 0) : 1 + (r.chance(1, 5) ? 1 : 0);
            if (F.msgs) { c.msgBudget = r.below(50); c.lazyMsg = r.chance(1, 4); }
            if (F.calls) { c.sig = r.chance(2, 3); c.slot = b > 0 || r.chance(1, 2); c.sigBudget = r.below(45); }
            if (F.small) { c.msgBudget = std::min(c.msgBudget, 6); c.sigBudget = std::min(c.sigBudget, int(r.below(5))); c.budget = std::min(c.budget, 1 + int(r.below(12))); }
            if (F.actor && F.throws && r.chance(1, 6)) c.throwActivate = 1;
            cfgs.push_back(c);
        }
        // edges: every input gets at least one source from an earlier block; extra fan-out/fan-in
        std::set<Edge> edges;
        auto addEdge = [&](int s, int sp, int d, int dp) { edges.insert(Edge{s, sp, d, dp, "", ""}); };
        for (int b = 1; b < nb; b++)
            for (int i = 0; i < int(cfgs[b].ins.size()); i++)
            {
                if (i > 0 && r.chance(1, 5)) continue;
                int s = r.below(unsigned(b));
                while (cfgs[s].outs.empty()) s = r.below(unsigned(b));
                addEdge(s, int(r.below(unsigned(cfgs[s].outs.size()))), b, i);
                if (r.chance(1, 5))
                {
                    int s2 = r.below(unsigned(b));
                    if (!cfgs[s2].outs.empty()) addEdge(s2, int(r.below(unsigned(cfgs[s2].outs.size()))), b, i);
                }
            }
        const bool cyclic = r.chance(1, 3); // signal loops only with budgets below the back-pressure limit
        if (F.calls)
        {
            if (cyclic) for (auto &c : cfgs) c.sigBudget = std::min(c.sigBudget, 10);
            for (auto &a : cfgs) for (auto &b : cfgs)
            {
                if (!cyclic && a.id >= b.id) continue;
                if (a.sig && b.slot && r.chance(1, 2)) edges.insert(Edge{a.id, 0, b.id, 0, "sig", "slot"});
                if (a.sig && b.slot && r.chance(1, 5)) edges.insert(Edge{a.id, 0, b.id, 0, "sig", "probeVal"});
                if (a.id < b.id && a.slot && b.slot && r.chance(1, 3)) edges.insert(Edge{a.id, 0, b.id, 0, "valTriggered", "onVal"});
                if (F.msgs && a.sig && !b.ins.empty() && r.chance(1, 4)) edges.insert(Edge{a.id, 0, b.id, 0, "sig", "0"});
            }
        }
        // one block posts a lot at once (below the capacity of a queue)
        if ((F.msgs || F.calls) && !F.streams && !(F.calls && cyclic) && r.chance(1, 10))
        {
            auto &c = cfgs[r.below(unsigned(cfgs.size()))];
            c.burst = true;
            if (F.msgs) c.msgBudget = 100 + r.below(500);
            if (F.calls && c.sig && (!F.msgs || r.chance(1, 2))) { c.sigBudget = 100 + r.below(300); }
            if (F.msgs && F.calls) c.msgBudget = std::min(c.msgBudget, 300);
        }
        // input side managers only where no copier block would be needed
        for (auto &c : cfgs)
            for (size_t i = 0; i < c.ins.size(); i++)
            {
                int cnt = 0;
                for (auto &e : edges) if (e.d == c.id && e.dst() == std::to_string(i)) { cnt++; if (!e.sig() && cfgs[e.s].bm) c.ibm = 0; }
                if (cnt > 1) c.ibm = 0;
            }
        std::vector<std::shared_ptr<FB>> blocks;
        // header
        std::vector<std::string> ins, outs, bs, slots, sigs; // ports for the specifications
        for (auto &c : cfgs)
        {
            bs.push_back("b" + std::to_string(c.id));
            for (size_t i = 0; i < c.ins.size(); i++) ins.push_back(pid(c.id, int(i)));
            for (size_t o = 0; o < c.outs.size(); o++) outs.push_back(pid(c.id, int(o)));
            const std::string bn = "b" + std::to_string(c.id);
            if (c.slot) { slots.push_back(bn + ".slot"); slots.push_back(bn + ".probeVal"); slots.push_back(bn + ".onVal"); sigs.push_back(bn + ".valTriggered"); }
            if (c.sig) sigs.push_back(bn + ".sig");
        }
        {
            std::string szi = "{", szo = "{";
            std::string roles = "{";
            for (auto &c : cfgs)
            {
                if (&c != &cfgs[0]) roles += ',';
                roles += "\"b" + std::to_string(c.id) + "\":" + std::to_string(c.role);
                for (size_t i = 0; i < c.ins.size(); i++) { (szi += (szi.size() > 1 ? ",\"" : "\"") + pid(c.id, int(i)) + "\":" + std::to_string(c.ins[i].sz)); }
                for (size_t o = 0; o < c.outs.size(); o++) { (szo += (szo.size() > 1 ? ",\"" : "\"") + pid(c.id, int(o)) + "\":" + std::to_string(c.outs[o].sz)); }
            }
            std::vector<std::string> bi;
            for (auto &c : cfgs)
            {
                std::vector<std::string> bi_in, bi_out;
                for (size_t i = 0; i < c.ins.size(); i++) bi_in.push_back(pid(c.id, int(i)));
                for (size_t o = 0; o < c.outs.size(); o++) bi_out.push_back(pid(c.id, int(o)));
                const std::string bn = "b" + std::to_string(c.id);
                std::vector<std::string> bi_sl, bi_sg;
                if (c.slot) { bi_sl = {bn + ".slot", bn + ".probeVal", bn + ".onVal"}; bi_sg.push_back(bn + ".valTriggered"); }
                if (c.sig) bi_sg.push_back(bn + ".sig");
                bi.push_back(J().str("b", bn).strs("ins", bi_in).strs("outs", bi_out).strs("slots", bi_sl).strs("sigs", bi_sg).done());
            }
            J("run").raw("bi", arr(bi)).num("seed", (long long)(seed & 0x7fffffff)).strs("blocks", bs).strs("ins", ins).strs("outs", outs).strs("slots", slots).strs("sigs", sigs)
                .raw("szi", szi + "}").raw("szo", szo + "}").raw("roles", roles + "}").log();
        }
        for (auto &c : cfgs)
        {
            blocks.push_back(std::make_shared<FB>(c));
            if (F.actor && r.chance(1, 6)) blocks.back()->setReserves();
            J("mk").str("b", blocks.back()->getName()).nums("res", blocks.back()->reserves()).log();
        }
        const int poolMode = r.below(3);
        Pothos::ThreadPool shared = randPool(r);
        if (poolMode == 1) for (auto &b : blocks) b->setThreadPool(shared);
        if (poolMode == 2) for (auto &b : blocks) if (r.chance(1, 2)) b->setThreadPool(randPool(r));
        shared = Pothos::ThreadPool();
        {
            Pothos::Topology t;
            auto nm = [](int b, const std::string &p) { return "b" + std::to_string(b) + "." + p; };
            auto logLink = [&](const char *ev, const Edge &e) {
                J((std::string(e.sig() ? "s" : "") + ev).c_str()).str("o", nm(e.s, e.src())).str("i", nm(e.d, e.dst())).str("ob", "b" + std::to_string(e.s)).str("ib", "b" + std::to_string(e.d)).log();
            };
            std::set<Edge> later;
            for (auto &e : edges)
            {
                if (F.live && r.chance(1, 4)) { later.insert(e); continue; }
                t.connect(blocks[e.s], e.src(), blocks[e.d], e.dst());
                logLink("link", e);
            }
            bool committed = true;
            std::atomic<bool> early{true};
            std::vector<std::thread> callers;
            auto startCallers = [&]() {
                const int nc = r.below(3);
                for (int k = 0; k < nc; k++)
                {
                    const unsigned cs = unsigned(r.next());
                    callers.emplace_back([&, cs] {
                        Rng q(cs);
                        for (int n = 0; n < 6; n++)
                        {
                            auto &b = blocks[q.below(unsigned(blocks.size()))];
                            const int x = ++g_callId;
                            const std::string m = b->c.slot && !early && q.chance(1, 2) ? "poke" : (q.chance(1, 2) ? "nudge" : "over" + std::to_string(1 + q.below(4)));
                            try
                            {
                                int y = 0;
                                if (m == "over1") y = b->call("over", x, 7);
                                else if (m == "over2") y = b->call("over", x, std::vector<std::string>(q.below(3), "s"));
                                else if (m == "over3") y = b->call("over", x);
                                else if (m == "over4") y = b->call("over", x, 1, "s");
                                else y = b->call(m, x);
                                J("ret").str("m", m).num("x", x).num("y", y).log();
                            }
                            catch (const Pothos::Exception &ex) { J("ccaught").num("x", x).boolean("same", ex.displayText().find("poke" + std::to_string(x)) != std::string::npos).log(); }
                            vf::point();
                        }
                    });
                }
            };
            const bool startEarly = r.chance(1, 2);
            if ((F.actor || F.calls) && startEarly) startCallers();
            auto tryCommit = [&]() {
                std::vector<std::string> named;
                try { t.commit(); J("commit").boolean("ok", true).strs("named", named).log(); return true; }
                catch (const Pothos::Exception &ex)
                {
                    for (auto &b : blocks) if (ex.displayText().find("FAILS-" + b->getName() + "-") != std::string::npos) named.push_back(b->getName());
                    J("commit").boolean("ok", false).strs("named", named).str("why", ex.displayText()).log();
                }
                return false;
            };
            committed = tryCommit();
            if (!committed && r.chance(1, 2)) tryCommit();
            early = false;
            // external callers compete with the worker threads
            if ((F.actor || F.calls) && !startEarly) startCallers();
            if (F.live)
            {
                const int rounds = 1 + r.below(3);
                for (int k = 0; k < rounds; k++)
                {
                    std::this_thread::sleep_for(std::chrono::microseconds(r.below(60)));
                    std::set<Edge> add, del;
                    for (auto &e : later) if (r.chance(1, 2)) add.insert(e);
                    for (auto &e : edges) if (!later.count(e) && r.chance(1, 4)) del.insert(e);
                    for (auto &e : add) { t.connect(blocks[e.s], e.src(), blocks[e.d], e.dst()); logLink("opening", e); later.erase(e); }
                    for (auto &e : del) { t.disconnect(blocks[e.s], e.src(), blocks[e.d], e.dst()); logLink("closing", e); later.insert(e); }
                    tryCommit();
                    for (auto &e : add) logLink("link", e);
                    for (auto &e : del) logLink("unlink", e);
                    logActive(blocks);
                }
            }
            for (auto &th : callers) th.join();
            const bool ok = t.waitInactive(0.02, 4.0);
            logActive(blocks);
            if (ok) logIdle(t, blocks, "idle");
            else J("neveridle").log();
        }
        J("down").log();
        // blocks may outlive the topology
        if (r.chance(1, 2)) std::this_thread::sleep_for(std::chrono::milliseconds(3));
        if (F.actor) logActive(blocks);
        for (auto &b : blocks) { const std::string n = b->getName(); b.reset(); J("freed").str("b", n).log(); }
        blocks.clear();
        J("gone").log();
    }
    vf::schedEnd();
}

int main(int argc, char **argv)
{
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && personality(ADDR_NO_RANDOMIZE) != -1 && !getenv("VF_NOASLR"))
    {
        setenv("VF_NOASLR", "1", 1);
        execv("/proc/self/exe", argv);
    }
    vf::Args a(argc, argv);
    const std::string f = a.get("feat", "s");
    F.streams = f.find('s') != std::string::npos;
    F.labels = f.find('l') != std::string::npos;
    F.msgs = f.find('m') != std::string::npos;
    F.calls = f.find('c') != std::string::npos;
    F.live = f.find('v') != std::string::npos;
    F.throws = f.find('t') != std::string::npos;
    F.actor = f.find('a') != std::string::npos;
    F.small = f.find('k') != std::string::npos;
    Poco::Logger::root().setChannel(new Poco::NullChannel());
    Poco::Logger::root().setLevel(0);
    if (a.has("out")) vf::logOpen(a.get("out", "").c_str());
    const uint64_t s0 = uint64_t(a.num("seed", 1));
    const int n = int(a.num("n", 1));
    alarm(unsigned(a.num("limit", 300)));
    for (int k = 0; k < n; k++) oneRun(s0 * 1000003 + uint64_t(k), int(a.num("sched", -1)));
    vf::logFlush();
    return 0;
}
