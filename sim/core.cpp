#include "core.h"
#include <cstdarg>
#include <chrono>
#include <ctime>
#include <new>
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sanitizer/asan_interface.h>

int g_opIndex = -1;
Log g_log, g_sig;
bool g_nontrivial = false;
Stats g_stats;

extern "C" const char *__asan_default_options() {
    return "detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=77:"
           "allocator_may_return_null=1:quarantine_size_mb=64:malloc_context_size=6:print_legend=0:print_full_thread_history=0";
}

// ------------------------------------------------------------------ plans
std::string Plan::text() const {
    std::string o = "plan " + prop + " " + std::to_string(seed) + "\n";
    char b[64];
    for (auto &p : ops) {
        o += p.k;
        for (long v : p.i) { snprintf(b, sizeof b, " %ld", v); o += b; }
        for (double v : p.x) { snprintf(b, sizeof b, " %a", v); o += b; }
        o += "\n";
    }
    return o;
}

Plan Plan::parse(const std::string &t) {
    Plan p;
    size_t pos = 0;
    bool first = true;
    while (pos < t.size()) {
        size_t e = t.find('\n', pos);
        if (e == std::string::npos) e = t.size();
        std::string line = t.substr(pos, e - pos);
        pos = e + 1;
        if (line.empty() || line[0] == '#') continue;
        std::vector<std::string> tok;
        size_t q = 0;
        while (q < line.size()) {
            while (q < line.size() && line[q] == ' ') ++q;
            size_t r = q;
            while (r < line.size() && line[r] != ' ') ++r;
            if (r > q) tok.push_back(line.substr(q, r - q));
            q = r;
        }
        if (tok.empty()) continue;
        if (first) { first = false; p.prop = tok.at(1); p.seed = strtoull(tok.at(2).c_str(), 0, 10); continue; }
        Op o(tok[0]);
        for (size_t i = 1; i < tok.size(); ++i) {
            const std::string &s = tok[i];
            if (s.find_first_of("xXpinf.") != std::string::npos) o.x.push_back(strtod(s.c_str(), 0));
            else o.i.push_back(strtol(s.c_str(), 0, 10));
        }
        p.ops.push_back(o);
    }
    return p;
}

void violate(const std::string &kind, const char *fmt, ...) {
    char b[1500];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    throw Violation{kind, b, g_opIndex};
}

// ------------------------------------------------------------------ allocator seam
namespace seam {
extern uint64_t poisonCount;
int fillMode = F_RANDOM; uint64_t fillSeed = 1;
long failAt = -1, failEvery = 0;
uint64_t allocCount = 0, allocFailed = 0;
thread_local int inLib = 0;

// open-addressing set of live blocks allocated by library code
static const size_t CAP = 1 << 17;
struct Ent { void *p; uint32_t n; uint32_t arr; };
uint64_t newMismatch = 0;
static Ent *tab = nullptr;
static uint64_t liveN = 0, liveB = 0, used = 0;
static inline size_t hashp(void *p) { uint64_t x = (uint64_t)p >> 4; x *= 0x9E3779B97F4A7C15ull; return (x >> 40) & (CAP - 1); }
static void *const TOMB = (void *)1;
static void rehash() {
    Ent *old = tab;
    tab = (Ent *)calloc(CAP, sizeof(Ent)); used = 0;
    for (size_t i = 0; i < CAP; ++i) if (old[i].p && old[i].p != TOMB) {
        size_t h = hashp(old[i].p); while (tab[h].p) h = (h + 1) & (CAP - 1);
        tab[h] = old[i]; ++used;
    }
    free(old);
}
static void note(void *p, size_t n, bool arr) {
    if (!tab) tab = (Ent *)calloc(CAP, sizeof(Ent));
    if (used > CAP * 3 / 4) rehash();
    size_t h = hashp(p); while (tab[h].p && tab[h].p != TOMB) h = (h + 1) & (CAP - 1);
    if (!tab[h].p) ++used;
    tab[h].p = p; tab[h].n = (uint32_t)n; tab[h].arr = arr; ++liveN; liveB += n;
}
static void forget(void *p, bool arr) {
    if (!tab) return;
    size_t h = hashp(p);
    while (tab[h].p) { if (tab[h].p == p) { if ((bool)tab[h].arr != arr) ++newMismatch; liveN--; liveB -= tab[h].n; tab[h].p = TOMB; return; } h = (h + 1) & (CAP - 1); }
}
uint64_t liveLibBlocks() { return liveN; }
uint64_t liveLibBytes() { return liveB; }

static void fill(void *p, size_t n) {
    switch (fillMode) {
        case F_ZERO: memset(p, 0, n); return;
        case F_FF: memset(p, 0xFF, n); return;
        case F_ONES: memset(p, 0x01, n); return;
        default: break;
    }
    uint64_t s = fillSeed ^ (allocCount * 0x9E3779B97F4A7C15ull);
    unsigned char *b = (unsigned char *)p;
    size_t i = 0;
    for (; i < n; i += 8) {
        uint64_t w = Rng::mix(s);
        if (fillMode == F_FINITE) { double d = ((double)(w >> 11) / 9007199254740992.0 - 0.5) * 2000; memcpy(&w, &d, 8); }
        else if (fillMode == F_HUGE) { double d = (w & 1) ? 1e300 : -1e300; memcpy(&w, &d, 8); }
        memcpy(b + i, &w, std::min<size_t>(8, n - i));
    }
}
static void *alloc(size_t n, bool nothrow, bool arr) {
    if (inLib) {
        ++allocCount;
        if (failAt > 0 && --failAt == 0) {
            ++allocFailed;
            if (failEvery > 0) { --failEvery; failAt = 1; } else failAt = -1;
            if (nothrow) return nullptr;
            throw std::bad_alloc();
        }
    }
    void *p = malloc(n ? n : 1);
    if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    if (inLib) { fill(p, n); note(p, n, arr); }
    return p;
}
void reset() {
    poisonCount = 0; fillMode = F_RANDOM; fillSeed = 1; failAt = -1; failEvery = 0; allocCount = 0; allocFailed = 0; inLib = 0; newMismatch = 0;
    nowNs = 1000000000; clockReads = 0; edges = 0; edgeBudget = 1500000000ull; edgeTarget = ~0ull; onEdge = nullptr; onEvery = nullptr; trace = false; lockDepth = 0;
    // A failed run may have left library blocks behind; forget them.
    if (tab && (liveN || used > CAP / 2)) { memset(tab, 0, CAP * sizeof(Ent)); liveN = liveB = used = 0; }
}

// ------------------------------------------------------------------ stack garbage
uint64_t poisonCount = 0;
__attribute__((noinline, no_sanitize("address"))) static void poisonImpl() {
    volatile unsigned char b[12288];
    if (fillMode == F_ZERO || fillMode == F_FF || fillMode == F_ONES) {
        unsigned char v = fillMode == F_ZERO ? 0 : fillMode == F_FF ? 0xFF : 1;
        for (size_t i = 0; i < sizeof b; i += 8) *(volatile uint64_t *)(b + i) = v * 0x0101010101010101ull;
    } else {
        uint64_t s = fillSeed * 77 + 5 + 1000003 * ++poisonCount;
        for (size_t i = 0; i < sizeof b; i += 8) {
            uint64_t w = Rng::mix(s);
            if (fillMode == F_FINITE) { double d = ((double)(w >> 11) / 9007199254740992.0 - 0.5) * 2000; memcpy(&w, &d, 8); }
            else if (fillMode == F_HUGE) { double d = (w & 1) ? 1e300 : -1e300; memcpy(&w, &d, 8); }
            *(volatile uint64_t *)(b + i) = w;
        }
    }
}
void poisonStack() { poisonImpl(); }

// ------------------------------------------------------------------ clock
int64_t nowNs = 1000000000;
uint64_t clockReads = 0;

// ------------------------------------------------------------------ edges
uint64_t edges = 0, edgeTarget = ~0ull;
uint64_t edgeBudget = 1500000000ull;
thread_local bool trace = false;
void (*onEdge)(uintptr_t) = nullptr, (*onEvery)(uintptr_t) = nullptr;
static uint8_t *cov = nullptr;      // one byte per 16-bit hash of pc
static std::vector<uintptr_t> covPcs;
uint64_t distinctEdges() { return covPcs.size(); }
void coverageBytes(std::vector<uint64_t> &o) { for (auto p : covPcs) o.push_back(p); }
std::string symbolOf(uintptr_t pc) {
    Dl_info i;
    if (dladdr((void *)pc, &i) && i.dli_sname) return i.dli_sname;
    return "";
}
thread_local int lockDepth = 0;
}

__attribute__((no_sanitize("address"))) void seam::tick(uintptr_t pc) {
    if (!seam::trace) return;
    if (++seam::edges > seam::edgeBudget) { seam::trace = false; fprintf(stderr, "DSIM-FATAL: no-progress: the library executed %lu basic blocks in one run\n", (unsigned long)seam::edges); _exit(78); }
    static const size_t N = 1 << 20;
    if (!seam::cov) seam::cov = (uint8_t *)calloc(N, 1);
    uint8_t &c = seam::cov[pc & (N - 1)];
    if (!c) { c = 1; seam::trace = false; int o = seam::inLib; seam::inLib = 0; seam::covPcs.push_back(pc); seam::inLib = o; seam::trace = true; }
    if (seam::onEvery) { seam::trace = false; const int o = seam::inLib; seam::inLib = 0; seam::onEvery(pc); seam::inLib = o; seam::trace = true; }
    if (seam::edges == seam::edgeTarget && seam::onEdge && !seam::lockDepth) {
        seam::trace = false; int o = seam::inLib; seam::inLib = 0;
        seam::onEdge(pc);
        seam::inLib = o; seam::trace = true;
    } else if (seam::edges == seam::edgeTarget) seam::edgeTarget++;   // postpone past the lock
}
extern "C" __attribute__((no_sanitize("address"))) void __sanitizer_cov_trace_pc() { seam::tick((uintptr_t)__builtin_return_address(0)); }

// replacement allocator
void *operator new(size_t n) { return seam::alloc(n, false, false); }
void *operator new[](size_t n) { return seam::alloc(n, false, true); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { try { return seam::alloc(n, true, false); } catch (...) { return nullptr; } }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { try { return seam::alloc(n, true, true); } catch (...) { return nullptr; } }
static void rel(void *p, bool arr) { if (!p) return; seam::forget(p, arr); free(p); }
void operator delete(void *p) noexcept { rel(p, false); }
void operator delete[](void *p) noexcept { rel(p, true); }
void operator delete(void *p, size_t) noexcept { rel(p, false); }
void operator delete[](void *p, size_t) noexcept { rel(p, true); }
void operator delete(void *p, const std::nothrow_t &) noexcept { rel(p, false); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { rel(p, true); }

// simulated clock
namespace std { namespace chrono { inline namespace _V2 {
    steady_clock::time_point steady_clock::now() noexcept {
        ++seam::clockReads;
        return time_point(duration(seam::nowNs));
    }
    system_clock::time_point system_clock::now() noexcept {
        ++seam::clockReads;
        return time_point(std::chrono::duration_cast<duration>(std::chrono::nanoseconds(seam::nowNs)));
    }
} } }
// Library code that reads the C clock sees the simulated one as well.
extern "C" int clock_gettime(clockid_t id, struct timespec *ts) noexcept {
    if (seam::inLib) { ++seam::clockReads; ts->tv_sec = seam::nowNs / 1000000000; ts->tv_nsec = seam::nowNs % 1000000000; return 0; }
    return (int)syscall(SYS_clock_gettime, id, ts);
}
// Locks taken by library code: never preempt while one is held, so that a
// parked thread can never hold a lock another one waits for.
extern "C" int pthread_mutex_lock(pthread_mutex_t *m) noexcept {
    static int (*real)(pthread_mutex_t *) = nullptr;
    if (!real) real = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_lock");
    int r = real(m);
    if (r == 0 && seam::inLib) ++seam::lockDepth;
    return r;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t *m) noexcept {
    static int (*real)(pthread_mutex_t *) = nullptr;
    if (!real) real = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    if (seam::inLib && seam::lockDepth > 0) --seam::lockDepth;
    return real(m);
}
// Function-local statics: same rule, with the same layout as the C++ ABI (first byte = initialised).
namespace __cxxabiv1 {
    extern "C" int __cxa_guard_acquire(uint64_t *g) {
        if (*(volatile char *)g) return 0;
        ++seam::lockDepth;
        return 1;
    }
    extern "C" void __cxa_guard_release(uint64_t *g) noexcept { *(volatile char *)g = 1; --seam::lockDepth; }
    extern "C" void __cxa_guard_abort(uint64_t *) noexcept { --seam::lockDepth; }
}

// ------------------------------------------------------------------ registry, runs, command line
static std::vector<Property> &props() { static std::vector<Property> v; return v; }
void registerProperty(const Property &p) { props().push_back(p); }
static const Property *lookup(const std::string &id) { for (auto &p : props()) if (id == p.id) return &p; return nullptr; }

static uint64_t runSeed(uint64_t base, const std::string &prop, uint64_t idx) {
    uint64_t x = base * 0x9E3779B97F4A7C15ull;
    for (char c : prop) x = (x ^ (unsigned char)c) * 1099511628211ull;
    x ^= idx * 0xD1B54A32D192ED03ull;
    return Rng::mix(x) >> 1;
}

struct Result { bool ok = true; Violation v; uint64_t hash = 0, sig = 0; bool nontrivial = false; };

static Result runPlan(const Property &p, const Plan &plan) {
    Result r;
    seam::reset();
    g_log = Log(); g_sig = Log(); g_opIndex = -1; g_nontrivial = false;
    try { p.execute(plan); }
    catch (const Violation &v) { r.ok = false; r.v = v; }
    catch (const std::bad_alloc &) { r.ok = false; r.v = {"unexpected-bad_alloc", "std::bad_alloc escaped outside an injected fault", g_opIndex}; }
    catch (const SimFault &) { r.ok = false; r.v = {"unexpected-simfault", "a simulated callback fault escaped outside its step", g_opIndex}; }
    catch (const std::exception &e) { r.ok = false; r.v = {"unexpected-exception", e.what(), g_opIndex}; }
    seam::inLib = 0; seam::trace = false; seam::failAt = -1;
    g_stats.max("library_basic_blocks_per_run", (double)seam::edges);
    r.hash = g_log.h; r.sig = g_sig.h; r.nontrivial = g_nontrivial;
    return r;
}

static std::string jesc(const std::string &s) {
    std::string o;
    for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) o += ' '; else o += c; }
    return o;
}

static std::string slurp(const char *f) {
    std::string s; FILE *h = fopen(f, "rb"); if (!h) { fprintf(stderr, "cannot read %s\n", f); exit(2); }
    char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n); fclose(h); return s;
}

static double realNow() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

int main(int argc, char **argv) {
    // Same addresses in every process: re-exec once without address randomisation.
    if (!getenv("DSIM_NOASLR")) {
        setenv("DSIM_NOASLR", "1", 1);
        int cur = personality(0xffffffff);
        if (cur != -1 && !(cur & ADDR_NO_RANDOMIZE) && personality(cur | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    const std::string cmd = argc > 1 ? argv[1] : "";
    if (cmd == "list") { for (auto &p : props()) printf("%s\n", p.id); return 0; }
    if (cmd == "gen" && argc >= 5) {            // gen PROP BASE IDX
        const Property *p = lookup(argv[2]); if (!p) return 2;
        Plan plan; plan.prop = p->id; plan.seed = runSeed(strtoull(argv[3], 0, 10), p->id, strtoull(argv[4], 0, 10));
        Rng rng(plan.seed); p->generate(rng, plan);
        fputs(plan.text().c_str(), stdout);
        return 0;
    }
    if (cmd == "exec" && argc >= 3) {           // exec FILE [times]
        // A file may hold several plans: the earlier ones are the history of the process.
        const std::string text = "\n" + slurp(argv[2]);
        std::vector<size_t> at;
        for (size_t q = text.find("\nplan "); q != std::string::npos; q = text.find("\nplan ", q + 1)) at.push_back(q + 1);
        if (at.empty()) return 2;
        int times = argc > 3 ? atoi(argv[3]) : 1;
        Result r;
        for (size_t k = 0; k < at.size(); ++k) {
            Plan plan = Plan::parse(text.substr(at[k], k + 1 < at.size() ? at[k + 1] - at[k] : std::string::npos));
            const Property *p = lookup(plan.prop); if (!p) return 2;
            for (int i = 0; i < times; ++i) r = runPlan(*p, plan);
        }
        if (r.ok) printf("{\"ok\":true,\"hash\":\"%016lx\"}\n", r.hash);
        else printf("{\"ok\":false,\"kind\":\"%s\",\"op\":%d,\"msg\":\"%s\",\"hash\":\"%016lx\"}\n", jesc(r.v.kind).c_str(), r.v.op, jesc(r.v.msg).c_str(), r.hash);
        return 0;
    }
    if (cmd == "batch" && argc >= 7) {          // batch PROP BASE START COUNT OUTPREFIX [maxseconds]
        const Property *p = lookup(argv[2]); if (!p) return 2;
        const uint64_t base = strtoull(argv[3], 0, 10), start = strtoull(argv[4], 0, 10), count = strtoull(argv[5], 0, 10);
        const std::string pre = argv[6];
        const double maxs = argc > 7 ? atof(argv[7]) : 1e9;
        int fd = open((pre + ".progress").c_str(), O_CREAT | O_RDWR | O_TRUNC, 0644);
        if (ftruncate(fd, 16)) return 2;
        volatile uint64_t *prog = (volatile uint64_t *)mmap(0, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        FILE *hf = fopen((pre + ".hash").c_str(), "wb");
        FILE *vf = fopen((pre + ".viol").c_str(), "w");
        double t0 = realNow();
        uint64_t done = 0, nontriv = 0, viol = 0;
        for (uint64_t i = start; i < start + count; ++i) {
            prog[0] = i; prog[1] = 1;
            Plan plan; plan.prop = p->id; plan.seed = runSeed(base, p->id, i);
            Rng rng(plan.seed); p->generate(rng, plan);
            Result r = runPlan(*p, plan);
            uint64_t rec[3] = {r.hash, r.sig, r.nontrivial};
            fwrite(rec, 8, 3, hf);
            ++done; nontriv += r.nontrivial;
            if (!r.ok) {
                fprintf(vf, "{\"idx\":%lu,\"kind\":\"%s\",\"op\":%d,\"msg\":\"%s\",\"hash\":\"%016lx\"}\n", i, jesc(r.v.kind).c_str(), r.v.op, jesc(r.v.msg).c_str(), r.hash);
                fflush(vf);
                if (++viol >= 3) break;
            }
            if (realNow() - t0 > maxs) break;
        }
        prog[1] = 0;
        fclose(hf); fclose(vf);
        FILE *sf = fopen((pre + ".stats").c_str(), "w");
        fprintf(sf, "{\"done\":%lu,\"nontrivial\":%lu,\"wall\":%.3f,\"c\":{", done, nontriv, realNow() - t0);
        bool first = true;
        for (auto &k : g_stats.c) { fprintf(sf, "%s\"%s\":%lu", first ? "" : ",", k.first.c_str(), k.second); first = false; }
        fprintf(sf, "},\"f\":{"); first = true;
        for (auto &k : g_stats.f) { fprintf(sf, "%s\"%s\":%.9g", first ? "" : ",", k.first.c_str(), std::isfinite(k.second) ? k.second : 1e300); first = false; }
        std::vector<uint64_t> pcs; seam::coverageBytes(pcs);
        fprintf(sf, "},\"pcs\":["); first = true;
        for (auto v : pcs) { fprintf(sf, "%s%lu", first ? "" : ",", v); first = false; }
        fprintf(sf, "]}\n");
        fclose(sf);
        return 0;
    }
    fprintf(stderr, "usage: dsim list | gen PROP BASE IDX | exec FILE | batch PROP BASE START COUNT PREFIX [MAXS]\n");
    return 2;
}
