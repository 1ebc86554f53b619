// Runtime support for the conformance drivers: trace log, PRNG, and the
// controlled scheduler (vfsched.cpp) that serialises the real threads of the
// code under test and picks every context switch from a seed.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>

namespace vf {

// ---------------------------------------------------------------- trace log
void logOpen(const char *path);      // trace file, one JSON record per line
void logLine(const std::string &s);  // append one line (kept in memory, flushed at exit/crash)
void logFlush();
uint64_t logCount();

// ---------------------------------------------------------------- scheduler
enum Strategy { RANDOM = 0, PCT = 1, ROUND = 2 };
struct SchedOpts
{
    uint64_t seed = 1;
    int strategy = RANDOM;
    unsigned syncPeriod = 8;     // mean number of sync points between switches
    unsigned plainPeriod = 400;  // mean number of shared plain accesses between switches (0 = never)
    unsigned pctDepth = 3;
    uint64_t maxSteps = 60000000;
    unsigned tickNs = 20;        // virtual time per point
    unsigned spuriousPeriod = 0; // mean number of scheduling decisions per spurious condvar wakeup (0 = never)
};
void schedBegin(const SchedOpts &o);
void schedEnd();              // all other threads must have finished
bool schedActive();
void point();                 // explicit scheduling point
void noYield(bool on);        // suppress switches (drivers' own bookkeeping)
uint64_t nowNs();             // virtual clock
int self();                   // managed thread id (-1 when not managed)
uint64_t steps();
uint64_t switches();
uint64_t liveThreads();
struct NoYield { NoYield() { noYield(true); } ~NoYield() { noYield(false); } };
// called (with the baton) when nothing can run any more; default logs {"e":"deadlock"} and exits 3
extern void (*onStuck)(const char *why);

// ---------------------------------------------------------------- PRNG
struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
    uint64_t next()
    {
        s ^= s << 13; s ^= s >> 7; s ^= s << 17;
        return s * 0x2545F4914F6CDD1Dull;
    }
    // uniform in [0,n)
    unsigned below(unsigned n) { return n ? unsigned((next() >> 33) % n) : 0; }
    int range(int a, int b) { return a + int(below(unsigned(b - a + 1))); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
};

// ---------------------------------------------------------------- JSON records
struct J
{
    std::string s = "{";
    bool first = true;
    J() {}
    explicit J(const char *ev) { str("e", ev); }
    void key(const char *k) { if (!first) s += ','; first = false; s += '"'; s += k; s += "\":"; }
    static std::string esc(const std::string &v)
    {
        std::string o;
        for (char c : v)
        {
            if (c == '"' || c == '\\') { o += '\\'; o += c; }
            else if ((unsigned char)c < 0x20) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
            else o += c;
        }
        return o;
    }
    J &str(const char *k, const std::string &v) { key(k); s += '"' + esc(v) + '"'; return *this; }
    J &num(const char *k, long long v) { key(k); s += std::to_string(v); return *this; }
    J &boolean(const char *k, bool v) { key(k); s += v ? "true" : "false"; return *this; }
    J &raw(const char *k, const std::string &v) { key(k); s += v; return *this; }
    template <typename V> J &nums(const char *k, const V &v)
    {
        key(k); s += '['; bool f = true;
        for (const auto &x : v) { if (!f) s += ','; f = false; s += std::to_string((long long)x); }
        s += ']'; return *this;
    }
    template <typename V> J &strs(const char *k, const V &v)
    {
        key(k); s += '['; bool f = true;
        for (const auto &x : v) { if (!f) s += ','; f = false; s += '"' + esc(x) + '"'; }
        s += ']'; return *this;
    }
    std::string done() const { return s + "}"; }
    void log() const { logLine(done()); }
};

// ---------------------------------------------------------------- options
struct Args
{
    std::vector<std::string> v;
    Args(int argc, char **argv) : v(argv + 1, argv + argc) {}
    std::string get(const std::string &k, const std::string &d) const
    {
        for (size_t i = 0; i + 1 < v.size(); i++) if (v[i] == "--" + k) return v[i + 1];
        return d;
    }
    long long num(const std::string &k, long long d) const
    {
        auto s = get(k, ""); return s.empty() ? d : std::atoll(s.c_str());
    }
    bool has(const std::string &k) const { for (auto &x : v) if (x == "--" + k) return true; return false; }
};

} // namespace vf
