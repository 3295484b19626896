// Core of the deterministic simulator: PRNG, plans, event log, statistics, seams.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cfloat>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <functional>
#include <memory>
#include <algorithm>
#include <stdexcept>

// ------------------------------------------------------------------ PRNG
struct Rng {
    uint64_t s[4];
    static uint64_t mix(uint64_t &x) {
        uint64_t z = (x += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    explicit Rng(uint64_t seed = 0) { for (auto &v : s) v = mix(seed); }
    static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
    uint64_t u64() {
        const uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
        return r;
    }
    uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
    long range(long a, long b) { return a + (long)below((uint64_t)(b - a + 1)); }
    double uni() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
    double real(double a, double b) { return a + (b - a) * uni(); }
    double logu(double a, double b) { return a * std::exp(std::log(b / a) * uni()); }
    bool chance(double p) { return uni() < p; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

// ------------------------------------------------------------------ plans
struct Op {
    std::string k;
    std::vector<long> i;
    std::vector<double> x;
    Op() {}
    Op(std::string k, std::vector<long> i = {}, std::vector<double> x = {}) : k(k), i(i), x(x) {}
    long I(size_t n, long d = 0) const { return n < i.size() ? i[n] : d; }
    double X(size_t n, double d = 0) const { return n < x.size() ? x[n] : d; }
};

struct Plan {
    std::string prop;
    uint64_t seed = 0;
    std::vector<Op> ops;
    void add(const Op &o) { ops.push_back(o); }
    void add(std::string k, std::vector<long> i = {}, std::vector<double> x = {}) { ops.emplace_back(k, i, x); }
    std::string text() const;
    static Plan parse(const std::string &text);
    const Op *find(const std::string &k) const { for (auto &o : ops) if (o.k == k) return &o; return nullptr; }
};

// ------------------------------------------------------------------ verdicts
struct Violation {
    std::string kind, msg;
    int op;
};
[[noreturn]] void violate(const std::string &kind, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
extern int g_opIndex;           // operation being executed (for messages)

// Thrown by simulated user callbacks.
struct SimFault { int id; };

// ------------------------------------------------------------------ log + stats
struct Log {                    // event log of one run; only its hash is kept
    uint64_t h = 1469598103934665603ull;
    void u(uint64_t v) { for (int i = 0; i < 8; ++i) { h ^= (v >> (8 * i)) & 0xFF; h *= 1099511628211ull; } }
    void d(double v) { uint64_t b; memcpy(&b, &v, 8); u(b); }
    void s(const char *p) { while (*p) { h ^= (unsigned char)*p++; h *= 1099511628211ull; } }
};
extern Log g_log;               // event log of the current run
extern Log g_sig;               // structural signature of the current run (distinctness measure)
extern bool g_nontrivial;       // the run reached the property's deciding observation
struct Stats {
    std::map<std::string, uint64_t> c;
    std::map<std::string, double> f;
    void operator()(const char *k, uint64_t n = 1) { c[k] += n; }
    void max(const char *k, double v) { auto it = f.find(k); if (it == f.end() || it->second < v) f[k] = v; }
    void sum(const char *k, double v) { f[k] += v; }
};
extern Stats g_stats;

// ------------------------------------------------------------------ seams
namespace seam {
    // --- allocator
    enum Fill { F_ZERO, F_FF, F_RANDOM, F_FINITE, F_HUGE, F_ONES, F_COUNT };
    extern int fillMode;
    extern uint64_t fillSeed;
    extern long failAt;         // countdown: fail the allocation that brings it to 0; <0 off
    extern long failEvery;      // after failAt fires, also fail the next failEvery allocations
    extern uint64_t allocCount; // library allocations so far
    extern uint64_t allocFailed;
    extern thread_local int inLib;
    uint64_t liveLibBlocks();   // blocks allocated by library code and not yet released
    uint64_t liveLibBytes();
    extern uint64_t newMismatch;    // blocks released with the wrong form of delete
    void reset();               // between runs

    extern thread_local bool trace;
    // Entering the library (or, from one of its callbacks, simulated user code).
    struct LibScope { int old; bool ot; LibScope() : old(inLib), ot(trace) { inLib = 1; trace = true; } ~LibScope() { inLib = old; trace = ot; } };
    struct UserScope { int old; bool ot; UserScope() : old(inLib), ot(trace) { inLib = 0; trace = false; } ~UserScope() { inLib = old; trace = ot; } };

    // --- stack garbage
    void poisonStack();

    // --- clock
    extern int64_t nowNs;
    extern uint64_t clockReads;

    // --- basic blocks of the library
    extern uint64_t edges;      // executed while enabled
    extern uint64_t edgeTarget; // when `edges` reaches it, onEdge(pc) is called
    extern uint64_t edgeBudget; // a run that executes more basic blocks does not make progress
    extern void (*onEdge)(uintptr_t pc);
    extern void (*onEvery)(uintptr_t pc);   // called at every basic block while set
    void tick(uintptr_t pc);    // one basic block (or, in fine.cpp, one memory access) of library code
    uint64_t distinctEdges();
    void coverageBytes(std::vector<uint64_t> &out);
    std::string symbolOf(uintptr_t pc);

    // --- locks held by library code (no preemption while > 0)
    extern thread_local int lockDepth;
}
// The same without refreshing the garbage on the stack.
#define LQ(expr) do { seam::LibScope lib_; (void)0; expr; } while (0)
#define LIB(expr) do { seam::poisonStack(); seam::LibScope lib_; (void)0; expr; } while (0)

// ------------------------------------------------------------------ property registry
struct Property {
    const char *id;
    void (*generate)(Rng &rng, Plan &plan);
    void (*execute)(const Plan &plan);
};
void registerProperty(const Property &p);
struct Registrar { Registrar(const Property &p) { registerProperty(p); } };
#define PROPERTY(ID, GEN, EXEC) static Registrar reg_##ID({#ID, GEN, EXEC});

inline bool bitEq(double a, double b) { return memcmp(&a, &b, 8) == 0; }
