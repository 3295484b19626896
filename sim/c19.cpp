// C19: bodies outside the system are immovable anchors that are never touched.
#include "world.h"

namespace {
struct Anchors : Observer {
    std::map<int, std::vector<double>> vals;
    static std::vector<double> of(const atg_scs::RigidBody *b) { return {b->p_x, b->p_y, b->theta, b->v_x, b->v_y, b->v_theta, b->m, b->I}; }
    void remember(World &w) { vals.clear(); for (auto &k : w.bodies) vals[k.first] = of(k.second.o); }
    void compare(World &w, bool all, const char *what) {
        static const char *nm[] = {"p_x", "p_y", "theta", "v_x", "v_y", "v_theta", "m", "I"};
        for (auto &k : w.bodies) {
            if (!all && k.second.in) continue;
            auto i = vals.find(k.first); if (i == vals.end()) continue;
            auto v = of(k.second.o);
            for (int e = 0; e < 8; ++e) if (!bitEq(v[e], i->second[e])) violate("touched", "%s changed %s of body %d, which is %s the system, from %.17g to %.17g", what, nm[e], k.first, k.second.in ? "in" : "outside", i->second[e], v[e]);
        }
    }
    void afterEdit(World &w, const Op &o) override {
        static const std::set<std::string> writes = {"BODY", "BULK", "KICK", "MOVE", "MASS", "STEP"};
        if (!writes.count(o.k)) compare(w, true, o.k.c_str());
        remember(w);
    }
    void beforeStep(World &w, StepObs &) override { remember(w); }
    void afterStep(World &w, StepObs &o) override {
        compare(w, false, o.completed ? "a step" : "a failed step");
        remember(w);
        if (!o.completed) { g_stats("steps.failed_checked"); return; }
        int cons = 0, frcs = 0;
        auto out = [&](int id) { auto *b = w.body(id); return b && !b->in; };
        for (auto *c : w.sysCons()) for (int k = 0; k < c->d.nBodies(); ++k) if (out(c->b[k])) ++cons;
        for (auto *f : w.sysFrcs()) if (f->d.kind == SPRING) { if (out(f->b[0])) ++frcs; if (out(f->b[1])) ++frcs; } else if (f->d.kind == MOTOR) { if (out(f->b[0])) ++frcs; }
        if (!cons && !frcs) return;
        std::string e = checkRefinement(w, o, 3);
        if (!e.empty()) violate("anchor", "with %d constraints and %d springs or motors attached to bodies outside the system: %s", cons, frcs, e.c_str());
        g_stats("steps.checked"); if (cons) g_stats("steps.with_constraint_anchor"); if (frcs) g_stats("steps.with_force_anchor");
        g_nontrivial = true;
    }
};
void exec(const Plan &p) { World w; Anchors a; w.obs = &a; w.run(p); }
void gen(Rng &r, Plan &p) {
    Knobs k; k.nSteps = 12; k.pOutside = r.chance(0.5) ? 0.5 : 0.3; k.pRecorder = 0.9; k.minBodies = 2;
    k.conKinds = {LINK, ROLL, CLUTCH, GEAR, WELD, LIN}; if (r.chance(0.3)) k.conKinds = {LINK, ROLL, CLUTCH, GEAR, FIXPOS, LINE, FRIC};
    k.frcKinds = {SPRING, SPRING, MOTOR, MOTOR, GRAV, DRAG, STATIC, PAIR};
    k.pFault = r.chance(0.4) ? 0.12 : 0; k.pInit = 0.02; k.pReset = 0.04; k.pBulk = 0.01;
    Plan q; genWorld(r, q, k);
    // bodies keep moving in and out of the system, and anchors are moved about
    std::vector<int> ids; std::vector<int> cs;
    for (auto &o : q.ops) {
        if (o.k == "BODY") ids.push_back(o.I(0));
        if (o.k == "CON") cs.push_back(o.I(0));
        if (o.k == "STEP" && !ids.empty()) {
            if (r.chance(0.25)) p.add("REMB", {r.pick(ids)});
            if (r.chance(0.25)) p.add("ADDB", {r.pick(ids)});
            if (!cs.empty() && r.chance(0.3)) p.add("ADDC", {r.pick(cs)});
            if (r.chance(0.15)) p.add("MOVE", {r.pick(ids)}, {r.real(-0.05, 0.05), r.real(-0.05, 0.05), r.real(-0.05, 0.05)});
            if (r.chance(0.15)) p.add("KICK", {r.pick(ids)}, {r.real(-3, 3), r.real(-3, 3), r.real(-3, 3)});
        }
        p.add(o);
    }
}
}
PROPERTY(C19, gen, exec)
