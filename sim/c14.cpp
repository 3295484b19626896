// C14: profiling reports the true time split and never affects the motion.
// Simulated time passes inside callbacks (force generators, constraints, the linear solver and the
// integrator's solve), at basic blocks of the library's own integrators' solve, and at basic blocks of matrix
// arithmetic (part of the linear solve if inside it, of constraint evaluation otherwise), so how much of a
// frame belongs to which phase is known exactly.
#include "twin.h"
#include <deque>

namespace {
enum { FORCE, EVAL, SOLVE, ODE, PHASES };
struct Clock {
    int64_t t = 1000000000, quant = 1;      // true time; what the library can read of it
    bool stalled = false, fine = false;     // fine: durations that are no whole microseconds
    long jumpIn = -1; int64_t jump = 0;
    uint64_t seed = 1, n = 0;
    int64_t read() const { return t - t % quant; }
    void publish() { seam::nowNs = read(); }
    int64_t pass() {                        // a callback takes its time; returns what the clock shows of it
        const int64_t a = read();
        uint64_t s = seed * 1000003 + n++; const uint64_t z = Rng::mix(s);
        int64_t d = stalled ? 0 : (int64_t)(1 + z % ((z >> 32) % 7 == 0 ? 4000 : 60)) * 1000;
        if (fine && !stalled) d += (int64_t)((z >> 20) % 1000);
        if (jumpIn >= 0 && jumpIn-- == 0) { d += jump; g_stats("fault.clock_jump_in_callback"); }
        t += d; publish();
        return read() - a;
    }
};
struct Frame { int64_t ns[PHASES] = {0}; int meas = 0; bool exact = true; };
struct Prof : Observer {
    Clock *c = nullptr;
    std::deque<Frame> win;
    Frame f; bool threw = false; bool checked = false;
    void check(World &w, bool fresh) {
        const double got[PHASES] = {w.sys->getForceEvalMicroseconds(), w.sys->getConstraintEvalMicroseconds(), w.sys->getConstraintSolveMicroseconds(), w.sys->getOdeSolveMicroseconds()};
        static const char *nm[] = {"force evaluation", "constraint evaluation", "constraint solution", "integration"};
        for (int p = 0; p < PHASES; ++p) {
            double sum = 0, slack = 0;
            for (auto &x : win) { sum += x.ns[p] / 1000.0; if (!x.exact) slack += x.meas; }
            const double want = win.empty() ? 0 : sum / win.size(), tol = win.empty() ? 0 : slack / win.size() + 1e-6 * want;
            if (!(std::fabs(got[p] - want) <= tol)) violate("profile", "%s time reported as %.9g us; the mean over the last %d frames is %.9g us (tolerance %.3g)%s", nm[p], got[p], (int)win.size(), want, tol, fresh ? ", before the first frame" : "");
        }
        g_stats(win.empty() ? "profiles.checked_before_first_frame" : win.size() == 600 ? "profiles.checked_full_window" : "profiles.checked");
    }
    void afterEdit(World &w, const Op &o) override { if (o.k == "RESTART") win.clear(); if (o.k == "RESTART" || o.k == "CFG") check(w, true); }
    void beforeStep(World &, StepObs &) override { f = Frame(); f.exact = true; }
    void afterStep(World &w, StepObs &o) override {
        threw = !o.completed;
        if (o.completed) {
            f.meas = o.steps * w.stageCount(); f.exact = !c->fine;
            win.push_back(f); if (win.size() > 600) win.pop_front();
            if (f.ns[FORCE] + f.ns[EVAL] + f.ns[SOLVE] > 0) g_nontrivial = true;
        }
        check(w, win.empty());
    }
};
// Which basic blocks take simulated time: 0 none, 1 an integrator's solve, 2 matrix arithmetic.
int blockClass(uintptr_t pc) {
    struct E { uintptr_t pc; int c; };
    static E tab[1 << 16];
    E &e = tab[(pc * 0x9E3779B97F4A7C15ull) >> 48];
    if (e.pc == pc) return e.c;
    const std::string s = seam::symbolOf(pc);
    auto has = [&](const char *x) { return s.find(x) != std::string::npos; };
    int c = 0;
    if (has("OdeSolver5solveE")) c = 1;
    else if (has("6Matrix") || has("12SparseMatrix")) for (const char *op : {"9leftScaleE", "10rightScaleE", "5scaleE", "3addE", "8subtractE", "6negateE", "8multiplyE", "17transposeMultiplyE", "23transposeMultiplyVectorE", "22leftScaleAndTransposeE"}) if (has(op)) c = 2;
    e = {pc, c};
    return c;
}
struct Blocks { Clock *c = nullptr; Prof *p = nullptr; World *w = nullptr; bool inSle = false; uint64_t n = 0; bool on = false; } g_blocks;
void atBlock(uintptr_t pc) {
    Blocks &b = g_blocks;
    if (!b.on || !b.w->cur) return;
    const int k = blockClass(pc);
    if (!k || ++b.n % 3) return;
    b.p->f.ns[k == 1 ? ODE : b.inSle ? SOLVE : EVAL] += b.c->pass();
}

void exec(const Plan &p) {
    World a, b; Prof pr; Clock c; pr.c = &c; a.obs = &pr; PreStep pb; b.obs = &pb;
    a.opt.noSnap = b.opt.noSnap = true;
    a.onHook = [&](HookKind k, int, int phase) {
        if (!a.cur) return;
        if (k == H_SLE) g_blocks.inSle = phase == 0;
        if (phase != 0) return;
        const int ph = k == H_FRC ? FORCE : k == H_CON ? EVAL : k == H_SLE ? SOLVE : k == H_ODE_SOLVE ? ODE : -1;
        if (ph < 0) return;
        pr.f.ns[ph] += c.pass();
    };
    bool mixed = false, blocks = false;
    g_blocks = Blocks(); g_blocks.c = &c; g_blocks.p = &pr; g_blocks.w = &a; seam::onEvery = atBlock;
    auto both = [&](const Op &o) {
        c.publish(); g_blocks.on = blocks; g_blocks.inSle = false; a.exec(o); g_blocks.on = false;
        const int64_t keep = seam::nowNs; seam::nowNs = 1000000000;       // the twin's clock stands still
        Op q = o; 
        b.exec(q);
        seam::nowNs = keep;
        if (o.k == "STEP" && pr.threw != (pb.last.threw != 0)) violate("diverged", "a step failed under one clock only");
    };
    for (size_t i = 0; i < p.ops.size(); ++i) {
        g_opIndex = (int)i;
        const Op &o = p.ops[i];
        if (o.k == "CLK") {                 // mode value
            switch (o.I(0)) {
                case 0: c.stalled = false; break;
                case 1: c.stalled = true; g_stats("fault.clock_stalled"); break;
                case 2: { const bool f = c.fine; c.quant = std::max(1L, o.I(1, 1)); c.publish(); if (c.quant > 1) g_stats("fault.clock_coarse"); c.fine = f; break; }
                case 3: c.jumpIn = o.I(1); c.jump = o.I(2) * 1000; break;
                case 4: c.t += std::max(0L, o.I(1)) * 1000; c.publish(); g_stats("fault.clock_jump_between_frames"); break;
                case 5: c.fine = o.I(1); break;
                case 6: blocks = o.I(1); if (blocks) g_stats("worlds.time_passes_in_blocks"); break;
            }
            if (c.quant % 1000 && c.quant > 1) mixed = true;
            c.seed = o.I(3, (long)c.seed);
            continue;
        }
        if (o.k == "FRAMES") { for (long k = 0; k < std::min(1400L, o.I(0)); ++k) both(Op("STEP", {1 + (k % 3 == 0)}, {o.X(0, 0.001)})); g_stats("frames.long_series"); }
        else both(o);
        if (o.k == "STEP" || o.k == "FRAMES") { std::string d = diffWorlds(a, b, "under the simulated clock", "with a clock that stands still"); if (!d.empty()) violate("clock-affects-motion", "%s", d.c_str()); }
    }
    (void)mixed;
    seam::onEvery = nullptr;
    g_opIndex = (int)p.ops.size();
}
void gen(Rng &r, Plan &p) {
    const bool longRun = r.chance(0.06);
    Knobs k; k.manyRows = false; k.regimes = !longRun; k.nSteps = longRun ? 3 : 14; k.pFault = r.chance(0.4) ? 0.15 : 0; k.pReset = 0; k.pInit = 0.03; k.pRestart = 0.05; k.pRecorder = 0.2; k.maxBodies = longRun ? 2 : 6; k.maxCons = longRun ? 2 : 6; k.maxFrcs = 4;
    Plan q; genWorld(r, q, k);
    const int style = (int)r.below(4);          // 0,1: whole microseconds; 2: nanoseconds; 3: coarse clock
    for (auto &o : q.ops) {
        if (o.k == "CFG") { p.add("CLK", {6, r.chance(longRun ? 0.2 : 0.6)}); p.add("CLK", {5, style == 2, 0, (long)r.below(1000000)}); if (style == 3) p.add("CLK", {2, r.pick(std::vector<long>{10000, 1000000, 15625000})}); }
        if (o.k == "STEP") {
            if (r.chance(0.1)) p.add("CLK", {r.range(0, 1)});
            if (r.chance(0.1)) p.add("CLK", {3, r.range(0, 12), r.pick(std::vector<long>{1000, 3600000000L, 86400000000L})});
            if (r.chance(0.15)) p.add("CLK", {4, (long)r.logu(1, 1e10)});
        }
        p.add(o);
        if (longRun && o.k == "STEP") p.add("FRAMES", {r.chance(0.5) ? r.range(590, 615) : r.range(100, 1300)}, {0.001});
    }
}
}
PROPERTY(C14, gen, exec)
