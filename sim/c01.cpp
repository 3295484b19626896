// C01 / C02: every completed step refines the reference model.
#include "world.h"

namespace {
struct Refine : Observer {
    int what;
    Refine(int w) : what(w) {}
    void afterStep(World &w, StepObs &o) override {
        if (!o.completed) return;
        double worst = 0;
        std::string e = checkRefinement(w, o, what, &worst);
        if (!e.empty()) violate("refinement", "%s", e.c_str());
        g_stats.max("worst_error_over_tolerance", worst);
        if (w.rowsInstalled() > 0) { g_nontrivial = true; g_stats("steps.checked_constrained"); }
        g_stats("steps.checked");
    }
};
void exec(const Plan &p) { Worlds w; Refine r(3); w.a.obs = w.b.obs = &r; w.run(p); }

void gen(Rng &r, Plan &p, int sysMask) {
    Knobs k; k.sysMask = sysMask;
    k.nSteps = 12; k.pFault = r.chance(0.5) ? 0.15 : 0; k.pInit = 0.03; k.pBulk = 0.03;
    if (r.chance(0.2)) { k.maxBodies = 14; k.maxCons = 14; k.pEdit = 0.7; }
    if (r.chance(0.15)) genShared(r, p, k); else genWorld(r, p, k);
}
void gen1(Rng &r, Plan &p) { gen(r, p, 1); }
void gen2(Rng &r, Plan &p) { gen(r, p, 2); }
}
PROPERTY(C01, gen1, exec)
PROPERTY(C02, gen2, exec)
