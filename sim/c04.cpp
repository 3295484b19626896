// C04: restart is invisible.   C07: a failed step changes nothing and can be retried.
#include "twin.h"

namespace {
// Executes the plan in world a (with restarts / faults) and in its undisturbed twin b.
void execTwin(const Plan &p, bool restart) {
    World a, b; PreStep pa, pb; a.obs = &pa; b.obs = &pb;
    b.opt.ignoreRestart = restart;
    bool disturbed = false;
    for (size_t i = 0; i < p.ops.size(); ++i) {
        g_opIndex = (int)i;
        const Op &o = p.ops[i];
        const bool iterative = a.cfg.sle != GE;
        if (o.k != "STEP") {
            a.exec(o); b.exec(o);
            if (restart && o.k == "RESTART") disturbed = true;
            continue;
        }
        pa.want = iterative; pa.last = StepObs();
        a.exec(o);
        const bool ran = pa.last.completed;
        if (pa.last.threw) {
            disturbed = disturbed || !restart || iterative;      // an iterative solver may have moved its starting point
            if (!restart) {
                std::string d = diffSnap(pa.last.pre, pa.last.post);
                if (!d.empty()) violate("failed-step-changed", "a step that failed (%s) changed something: %s", pa.last.threw == 1 ? "allocation" : "callback", d.c_str());
                g_stats("steps.failed_and_compared");
            }
        }
        else if (!restart && ran && pa.last.faultFired) violate("fault-swallowed", "an injected failure did not reach the caller of the step");
        if (!ran) { b.gate(o); continue; }
        Op plain = o; if (plain.i.size() > 1) plain.i[1] = 0;
        b.exec(plain);
        if (!disturbed) continue;
        if (!iterative) {
            std::string d = diffWorlds(a, b, restart ? "after restarts" : "after failed steps", restart ? "without" : "without");
            if (!d.empty()) violate("diverged", "%s", d.c_str());
            g_nontrivial = true; g_stats("steps.compared_bitwise");
        } else {
            if (pa.have) {
                std::string d = diffWorlds(a, b, restart ? "after restarts" : "after failed steps", "without", &pa);
                if (!d.empty()) violate("diverged", "%s", d.c_str());
                g_nontrivial = true; g_stats("steps.compared_to_solver_tolerance");
            }
        }
        if (iterative) syncBodies(a, b);
    }
    g_opIndex = (int)p.ops.size();
}
void exec04(const Plan &p) { execTwin(p, true); }
void exec07(const Plan &p) { execTwin(p, false); }

void gen04(Rng &r, Plan &p) {
    Knobs k; k.nSteps = 12; k.pRestart = r.chance(0.5) ? 0.35 : 0.12; k.pFault = r.chance(0.4) ? 0.2 : 0; k.pInit = 0.02; k.pReset = 0.04; k.pRecorder = 0.2; k.pBulk = 0.02;
    if (r.chance(0.5)) k.sleMask = 1;
    if (r.chance(0.6)) k.maxSub = 1;
    if (r.chance(0.06)) { k.nSteps = 36; k.maxBodies = 3; k.maxCons = 2; k.maxFrcs = 2; k.pBulk = 0; k.far = true; k.pRestart *= 0.4; }     // longer, with bodies that have turned far
    genWorld(r, p, k);
    for (size_t i = 0; i < p.ops.size(); ++i) if (p.ops[i].k == "STEP" && p.ops[i].I(1) && r.chance(0.6)) p.ops.insert(p.ops.begin() + ++i, Op("RESTART"));
}
void gen07(Rng &r, Plan &p) {
    Knobs k; k.nSteps = 12; k.pRestart = 0.03; k.pFault = 0.4; k.pInit = 0.04; k.pReset = 0.03; k.pRecorder = 0.2; k.pBulk = 0.04;
    if (r.chance(0.5)) k.sleMask = 1;
    if (r.chance(0.5)) k.maxSub = 1;
    genWorld(r, p, k);
}
}
PROPERTY(C04, gen04, exec04)
PROPERTY(C07, gen07, exec07)
