// C10: closed systems conserve momentum.
#include "world.h"

namespace {
struct Mom { LD px = 0, py = 0, L = 0, sp = 0, sl = 0, M = 0; };
struct Momentum : Observer {
    static Mom of(World &w, const Snap &s, double) {
        Mom t;
        for (auto &k : w.bodies) if (k.second.in) {
            const BodyVals &b = s.bodies.at(k.first); const LD m = b.m;
            t.px += m * b.v[0]; t.py += m * b.v[1]; t.L += m * ((LD)b.q[0] * b.v[1] - (LD)b.q[1] * b.v[0]) + (LD)b.I * b.v[2];
            const LD v = fabsl((LD)b.v[0]) + fabsl((LD)b.v[1]), q = fabsl((LD)b.q[0]) + fabsl((LD)b.q[1]) + 1;
            t.sp += m * v; t.sl += m * v * q + (LD)b.I * fabsl((LD)b.v[2]); t.M += m;
        }
        return t;
    }
    void afterStep(World &w, StepObs &o) override {
        if (!o.completed) return;
        auto sb = w.sysBodies(); const int n = (int)sb.size();
        if (n < 1) return;
        // which laws hold for what is installed
        bool lin = true, ang = w.cfg.sys == OPT || w.cfg.ode == NSV;
        LD g = 0; bool inter = false;
        auto in = [&](int id) { auto *b = w.body(id); return b && b->in; };
        for (auto *c : w.sysCons()) {
            const int k = c->d.kind; bool both = true;
            for (int i = 0; i < c->d.nBodies(); ++i) both = both && in(c->b[i]);
            switch (k) {
                case LINK: case WELD: case ROLL: if (!both) lin = false; ang = false; inter = true; break;
                case CLUTCH: if (!both) ang = false; inter = true; break;
                case GEAR: case FIXROT: case CROT: case FRIC: ang = false; break;
                default: lin = ang = false;
            }
        }
        for (auto *f : w.sysFrcs()) {
            const bool both = in(f->b[0]) && in(f->b[1]);
            switch (f->d.kind) {
                case GRAV: g += f->d.p[0]; ang = false; break;
                case SPRING: if (!both) { lin = ang = false; } if (f->d.p[2] != 0) ang = false; inter = true; break;
                case MOTOR: if (!both) ang = false; inter = true; break;
                case PAIR: if (both) inter = true; break;
                case REC: break;
                default: lin = ang = false;
            }
        }
        if (!lin && !ang) return;
        const int nst = w.stageCount();
        // size of what was added up, for rounding
        LD sp = 0, sl = 0; const LD h = (LD)(o.dt / o.steps);
        if (o.stages.size() == (size_t)o.steps * nst) {
            for (auto &t : o.stages) {
                if (t.n != n) violate("record", "a force generator saw %d bodies, %d are installed", t.n, n);
                std::vector<LD> F, Fa; w.refForces(w.refState(t), F, Fa);
                for (int i = 0; i < n; ++i) {
                    const LD m = sb[i]->o->m, q = fabsl((LD)t.q[3*i]) + fabsl((LD)t.q[3*i+1]) + 1, v = fabsl((LD)t.v[3*i]) + fabsl((LD)t.v[3*i+1]);
                    sp += m * v + h * (Fa[3*i] + Fa[3*i+1]); sl += (m * v + h * (Fa[3*i] + Fa[3*i+1])) * q + (LD)sb[i]->o->I * fabsl((LD)t.v[3*i+2]) + h * Fa[3*i+2];
                }
            }
        } else if (o.steps * nst != 1) return;
        else {
            RState s = w.refState(); for (int i = 0; i < n; ++i) { const BodyVals &b = o.pre.bodies.at(sb[i]->id); for (int e = 0; e < 3; ++e) { s.q[3*i+e] = b.q[e]; s.v[3*i+e] = b.v[e]; } }
            std::vector<LD> F, Fa; w.refForces(s, F, Fa);
            for (int i = 0; i < n; ++i) { const LD q = fabsl(s.q[3*i]) + fabsl(s.q[3*i+1]) + 1; sp += h * (Fa[3*i] + Fa[3*i+1]); sl += h * ((Fa[3*i] + Fa[3*i+1]) * q + Fa[3*i+2]); }
        }
        Mom a = of(w, o.pre, 0), b = of(w, o.post, 0);
        if (lin) {
            const LD tol = 1000 * EPS * (a.sp + b.sp + sp + a.M * fabsl(g) * o.dt) + 1e-280L;
            const LD ex = b.px - a.px, ey = b.py - (a.py - a.M * g * (LD)o.dt);
            g_stats.max("worst_linear_error_over_tolerance", (double)std::max(fabsl(ex) / tol, fabsl(ey) / tol));
            if (!(fabsl(ex) <= tol)) violate("linear-momentum", "total momentum in x went from %.17Lg to %.17Lg in one step with internal interactions only (tolerance %.3Lg)", a.px, b.px, tol);
            if (!(fabsl(ey) <= tol)) violate("linear-momentum", "total momentum in y went from %.17Lg to %.17Lg in one step; total mass * g * dt is %.17Lg (tolerance %.3Lg)", a.py, b.py, a.M * g * (LD)o.dt, tol);
            g_stats("steps.linear_checked"); if (inter) g_nontrivial = true;
            if (g != 0) g_stats("steps.linear_checked_under_gravity");
        }
        if (ang) {
            const LD tol = 1000 * EPS * (a.sl + b.sl + sl) + 1e-280L;
            g_stats.max("worst_angular_error_over_tolerance", (double)(fabsl(b.L - a.L) / tol));
            if (!(fabsl(b.L - a.L) <= tol)) violate("angular-momentum", "total angular momentum went from %.17Lg to %.17Lg in one step with springs, motors and clutches between the system's own bodies only (tolerance %.3Lg)", a.L, b.L, tol);
            g_stats("steps.angular_checked"); if (inter) g_nontrivial = true;
        }
    }
};
void exec(const Plan &p) { World w; Momentum m; w.obs = &m; w.run(p); }
void gen(Rng &r, Plan &p) {
    Knobs k; k.nSteps = 14; k.pFault = r.chance(0.3) ? 0.15 : 0; k.pOutside = 0.02; k.pRecorder = 0.97; k.minBodies = 2; k.pRestart = 0.04; k.pInit = 0.02; k.pBulk = 0.01;
    if (r.chance(0.45)) { k.conKinds = {CLUTCH}; k.frcKinds = {SPRING, SPRING, MOTOR, PAIR}; k.maxFrcs = 7; k.maxCons = 4; k.odeMask = r.chance(0.6) ? 2 : 7; }
    else { k.conKinds = {LINK, LINK, WELD, ROLL, CLUTCH, GEAR}; if (r.chance(0.4)) { k.conKinds.push_back(FIXROT); k.conKinds.push_back(CROT); k.conKinds.push_back(FRIC); } k.frcKinds = {SPRING, MOTOR, PAIR}; if (r.chance(0.5)) k.frcKinds.push_back(GRAV); }
    if (r.chance(0.3)) k.tolGS = k.tolCG = 1e-4;
    genWorld(r, p, k);
    const bool undamped = r.chance(0.6);
    if (undamped) for (auto &o : p.ops) if ((o.k == "FRC" || o.k == "SETF") && o.I(1) == SPRING) o.x[2] = 0;
}
}
PROPERTY(C10, gen, exec)
