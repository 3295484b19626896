// C06: several caller threads, each with its own objects, interleaved between memory accesses of the library.
// Real threads, of which exactly one holds the baton; the plan's PRE operations say after how many
// accesses and basic blocks of library code the baton moves, and to whom.
#include "record.h"
#include "execs.h"
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>

namespace {
struct Ctx {                    // what belongs to one simulated caller
    int op = -1; Log log, sig; bool nontrivial = false;
    int64_t now = 1000000000; uint64_t reads = 0; long failAt = -1, failEvery = 0; uint64_t allocs = 0, failed = 0;
    void save() { op = g_opIndex; log = g_log; sig = g_sig; nontrivial = g_nontrivial; now = seam::nowNs; reads = seam::clockReads; failAt = seam::failAt; failEvery = seam::failEvery; allocs = seam::allocCount; failed = seam::allocFailed; }
    void load() { g_opIndex = op; g_log = log; g_sig = sig; g_nontrivial = nontrivial; seam::nowNs = now; seam::clockReads = reads; seam::failAt = failAt; seam::failEvery = failEvery; seam::allocCount = allocs; seam::allocFailed = failed; }
};
struct Job {
    int mode = 0; Plan plan;
    std::vector<Item> rec; uint64_t hash = 0;
    bool failed = false; Violation v;
    void run() {
        rec.clear(); failed = false;
        try {
            if (mode == 0) {
                World w; Recorder r; w.obs = &r;
                w.onHook = [](HookKind k, int, int) { seam::nowNs += 1000 * (k + 3); };
                w.run(plan);
                w.obs = nullptr; rec = std::move(r.v);
                w.destroyAll();
            } else if (mode == 1) execContainers(plan, false);
            else if (mode == 2) execSolvers(plan, false);
            else execIntegrators(plan, false);
        } catch (const Violation &x) { failed = true; v = x; }
        catch (const std::exception &e) { failed = true; v = {"exception", e.what(), g_opIndex}; }
        hash = g_log.h;
    }
};
struct Th { Job *job; sem_t go; bool done = false; Ctx ctx; pthread_t tid; };
std::vector<std::unique_ptr<Th>> ths;
int cur;
std::vector<std::pair<long, long>> pre;
size_t prePos;
uint64_t switches;
Log sched;
sem_t allDone;

// Code met for the first time (lazily initialised tables, first allocations) is where unsynchronised threads
// hurt each other most: a plan with NOV {n, salt} also moves the baton at about every n-th block that is new in this run.
uint8_t seenPc[65536]; long nov, novSalt;
void onNovel(uintptr_t pc) {
    uint8_t &c = seenPc[pc & 65535];
    if (c) return;
    c = 1;
    uint64_t h = pc * 0x9E3779B97F4A7C15ull + (uint64_t)novSalt * 0xD1B54A32D192ED03ull; h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32;
    if (h % (uint64_t)nov == 0) seam::edgeTarget = seam::edges;
}

void waitFor(sem_t *s) {
    struct timespec t; clock_gettime(CLOCK_REALTIME, &t); t.tv_sec += 90;
    while (sem_timedwait(s, &t)) if (errno == ETIMEDOUT) { fprintf(stderr, "DSIM-FATAL: no-progress: a thread never gave the baton back\n"); _exit(78); }
}
void armNext() { if (pre.empty()) { seam::edgeTarget = ~0ull; return; } seam::edgeTarget = seam::edges + std::max(1L, pre[prePos % pre.size()].first) * (switches > 6000 ? 200 : 1); }
int pick() {
    std::vector<int> o; for (size_t i = 0; i < ths.size(); ++i) if (!ths[i]->done) o.push_back((int)i);
    if (o.empty()) return -1;
    long who = pre.empty() ? 0 : pre[prePos % pre.size()].second; ++prePos;
    return o[(size_t)(who < 0 ? -who : who) % o.size()];
}
void onEdge(uintptr_t) {
    const int me = cur, n = pick();
    if (n >= 0 && n != me) {
        ++switches; sched.u(seam::edges); sched.u(n);
        ths[me]->ctx.save(); cur = n; ths[n]->ctx.load(); armNext();
        sem_post(&ths[n]->go); waitFor(&ths[me]->go);
    } else armNext();
}
void *body(void *a) {
    Th *t = (Th *)a;
    waitFor(&t->go);
    t->job->run();
    seam::inLib = 0; seam::trace = false;
    t->ctx.save(); t->done = true;
    const int n = pick();
    if (n < 0) { sem_post(&allDone); return nullptr; }
    sched.u(n); cur = n; ths[n]->ctx.load(); armNext(); sem_post(&ths[n]->go);
    return nullptr;
}

void exec(const Plan &p) {
    std::vector<Job> jobs;
    pre.clear(); prePos = 0; switches = 0; sched = Log(); ths.clear(); nov = 0; memset(seenPc, 0, sizeof seenPc);
    for (auto &o : p.ops) {
        if (o.k == "PRE") { pre.push_back({o.I(0, 100), o.I(1)}); continue; }
        if (o.k == "NOV") { nov = std::max(0L, o.I(0)); novSalt = o.I(1); continue; }
        if (o.k == "THREAD") { jobs.emplace_back(); jobs.back().mode = (int)o.I(0) & 3; continue; }
        if (jobs.empty()) continue;
        jobs.back().plan.ops.push_back(o);
    }
    if (jobs.size() < 2) return;
    if (jobs.size() > 6) jobs.resize(6);
    sem_init(&allDone, 0, 0);
    std::vector<Job> together = jobs;
    for (auto &j : together) { ths.emplace_back(new Th); ths.back()->job = &j; sem_init(&ths.back()->go, 0, 0); }
    for (auto &t : ths) if (pthread_create(&t->tid, nullptr, body, t.get())) { fprintf(stderr, "cannot create a thread\n"); _exit(2); }
    Ctx mine; mine.save();
    cur = pick(); ths[cur]->ctx.load();
    seam::onEdge = onEdge; if (nov) seam::onEvery = onNovel; armNext();
    sem_post(&ths[cur]->go);
    waitFor(&allDone);
    seam::onEdge = nullptr; seam::onEvery = nullptr; seam::edgeTarget = ~0ull;
    for (auto &t : ths) { pthread_join(t->tid, nullptr); sem_destroy(&t->go); }
    sem_destroy(&allDone);
    ths.clear();
    const uint64_t sw = switches;
    // each thread's history again, alone
    for (size_t i = 0; i < jobs.size(); ++i) {
        Ctx c; c.load(); jobs[i].run(); c.save();
    }
    mine.load();
    g_log.u(sched.h); g_sig.u(sched.h);
    for (size_t i = 0; i < jobs.size(); ++i) {
        Job &a = jobs[i], &b = together[i];
        g_opIndex = (int)i; g_log.u(a.hash); g_log.u(b.hash);
        if (a.failed && b.failed) continue;
        if (b.failed) violate("interference", "thread %d alone completes its history; interleaved with the others: %s (its operation %d): %s", (int)i, b.v.kind.c_str(), b.v.op, b.v.msg.c_str());
        if (a.failed) violate("interference", "thread %d interleaved with others completes its history; alone afterwards: %s: %s", (int)i, a.v.kind.c_str(), a.v.msg.c_str());
        std::string d = diffRecords(a.rec, b.rec, "alone", "interleaved");
        if (!d.empty()) violate("interference", "thread %d: %s", (int)i, d.c_str());
        if (a.hash != b.hash) violate("interference", "thread %d (%s): its event log differs from the one it writes alone", (int)i, a.mode == 0 ? "a world" : a.mode == 1 ? "matrices" : a.mode == 2 ? "linear solvers" : "integrators");
    }
    g_stats("fault.preemptions_inside_library_code", sw); g_stats("threads.compared", jobs.size());
    if (sw >= 10) g_nontrivial = true;
}
void gen(Rng &r, Plan &p) {
    const int style = (int)r.below(4);
    for (int i = 0, n = (int)r.range(8, 60); i < n; ++i) {
        const double hi = style == 0 ? 40 : style == 1 ? 400 : style == 2 ? 4000 : 1500, lo = style == 3 ? 150 : 1;
        p.add("PRE", {(long)r.logu(lo, hi), (long)r.below(6)});
    }
    if (r.chance(0.6)) p.add("NOV", {(long)r.logu(1, 60), (long)r.below(1000000)});
    const int nt = r.chance(0.7) ? 2 : r.chance(0.7) ? 3 : 4;
    // threads doing the same kind of work meet in the same functions most often
    const bool same = r.chance(0.6); int m0 = r.chance(0.8) ? 0 : (int)r.range(1, 3);
    Knobs k; k.manyRows = false; k.nSteps = 3; k.pBulk = 0; k.pFault = r.chance(0.3) ? 0.15 : 0; k.pInit = 0.03; k.maxBodies = 5; k.maxCons = 5; k.pRecorder = 0.3; k.pEdit = 0.3;
    const int sysMask = r.chance(0.5) ? 3 : 1 << r.below(2), sleMask = r.chance(0.5) ? 7 : 1 << r.below(3), odeMask = r.chance(0.5) ? 7 : 1 << r.below(3);
    if (same) { k.sysMask = sysMask; k.sleMask = sleMask; k.odeMask = odeMask; }
    const uint64_t twin = r.u64();
    const bool twins = r.chance(0.15);          // identical histories, out of phase
    for (int t = 0; t < nt; ++t) {
        const int m = same ? m0 : r.chance(0.7) ? 0 : (int)r.range(1, 3);
        p.add("THREAD", {m});
        Plan q; Rng rr(twins ? twin : r.u64());
        if (m == 0) genWorld(rr, q, k); else if (m == 1) genContainers(rr, q); else if (m == 2) genSolvers(rr, q); else genIntegrators(rr, q);
        const size_t cap = 60;
        for (size_t i = 0; i < q.ops.size() && (m == 0 || i < cap); ++i) p.add(q.ops[i]);
    }
}
}
PROPERTY(C06, gen, exec)
