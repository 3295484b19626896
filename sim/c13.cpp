// C13: rotational couplings are passive, hold their speed relation and lock in time (velocity-bias system).
#include "world.h"

namespace {
struct Couplings : Observer {
    struct Track { double left; };                      // sub-steps until it must have locked
    std::map<int, Track> track;
    std::map<int, double> lastW;
    void afterEdit(World &, const Op &) override { track.clear(); }
    static double dev(World &w, const ConS &c, const Snap &s) {     // deviation from the speed the coupling aims at
        auto om = [&](int id) { return w.body(id)->in ? s.bodies.at(id).v[2] : 0.0; };
        switch (c.d.kind) {
            case CLUTCH: return om(c.b[1]) - om(c.b[0]);
            case GEAR: return om(c.b[0]) - c.d.p[0] * om(c.b[1]);
            case CROT: return om(c.b[0]) + c.d.p[0];
            default: return om(c.b[0]);
        }
    }
    void afterStep(World &w, StepObs &o) override {
        if (!o.completed) { track.clear(); return; }
        auto sc = w.sysCons();
        if (sc.empty()) return;
        for (auto &k : w.frcs) if (k.second.in && k.second.d.kind != REC) return;
        bool only = true, drive = false;
        double wmax = 0;
        for (auto *c : sc) { const int k = c->d.kind; if (k != CLUTCH && k != GEAR && k != FRIC && k != CROT) only = false; if (k == CROT) { drive = true; wmax = std::max(wmax, std::fabs(c->d.p[0])); } if (k == GEAR) wmax = std::max(wmax, 0.0); }
        if (!only) return;
        LD k0 = 0, k1 = 0;
        for (auto &k : w.bodies) if (k.second.in) {
            const BodyVals &a = o.pre.bodies.at(k.first), &b = o.post.bodies.at(k.first);
            k0 += (LD)a.m * ((LD)a.v[0] * a.v[0] + (LD)a.v[1] * a.v[1]) / 2 + (LD)a.I * a.v[2] * a.v[2] / 2;
            k1 += (LD)b.m * ((LD)b.v[0] * b.v[0] + (LD)b.v[1] * b.v[1]) / 2 + (LD)b.I * b.v[2] * b.v[2] / 2;
            wmax = std::max(wmax, std::max(std::fabs(a.v[2]), std::fabs(b.v[2])));
            auto l = lastW.find(k.first); if (l == lastW.end() || !bitEq(l->second, a.v[2])) track.clear();
        }
        if (!drive) {
            const LD tol = 1e-7L * (k0 + k1) + 1e-9L;
            g_stats.max("worst_energy_gain_over_tolerance", (double)((k1 - k0) / tol));
            if (k1 > k0 + tol || k1 != k1) violate("energy", "passive couplings raised the kinetic energy from %.17Lg to %.17Lg in one step", k0, k1);
            g_stats("steps.energy_checked"); g_nontrivial = true;
        }
        const double scale = 1e-6 * (1 + wmax);
        const double h = o.dt / o.steps;
        const bool limits = w.solverTakesLimits();
        for (auto *c : sc) {
            const ConDesc &d = c->d;
            const double before = dev(w, *c, o.pre), after = dev(w, *c, o.post);
            double lo = -INFLIM, hi = INFLIM;
            if (d.kind == CLUTCH || d.kind == FRIC) { lo = d.p[0]; hi = d.p[1]; } else if (d.kind == CROT) { lo = d.p[1]; hi = d.p[2]; }
            else if (d.p[1] != 0) { if (!limits) continue; lo = hi = 0; }
            const bool unlimited = lo == -INFLIM && hi == INFLIM;
            const double tol = scale * (d.kind == GEAR ? 1 + std::fabs(d.p[0]) : 1);
            if (unlimited) {
                if (!(std::fabs(after) <= tol)) violate("speed-relation", "constraint %d (kind %d) is not torque-limited and after the step its bodies miss the speed it prescribes by %.17g", c->id, d.kind, after);
                g_stats("relations.checked"); g_nontrivial = true;
                continue;
            }
            if (!limits || d.kind == GEAR) continue;
            // alone on its bodies?
            bool alone = true; double K = 0;
            for (int k = 0; k < d.nBodies(); ++k) {
                if (!w.body(c->b[k])->in) continue;
                K += 1 / o.pre.bodies.at(c->b[k]).I;
                for (auto *e : sc) if (e != c) for (int q = 0; q < e->d.nBodies(); ++q) if (e->b[q] == c->b[k]) alone = false;
            }
            if (!alone) { track.erase(c->id); continue; }
            const double torque = before > 0 ? -lo : hi, drop = torque * h * K;
            double want = std::fabs(before) - o.steps * std::min(drop, 1e300 / 64);
            // a drive also has to stop at its target from either side
            want = want > 0 ? (before > 0 ? want : -want) : 0;
            if (!(std::fabs(after - want) <= tol)) violate("torque-budget", "constraint %d (kind %d) acts alone; its speed error was %.17g, after %d sub-steps with torque limits [%g, %g] it must be %.17g and is %.17g", c->id, d.kind, before, o.steps, lo, hi, want, after);
            g_stats("budgets.checked"); g_nontrivial = true;
            if (!(drop > 0)) continue;          // may not turn this way at all
            auto t = track.find(c->id);
            if (t == track.end()) { track[c->id] = {std::ceil(std::fabs(before) / drop) + 1 - o.steps}; t = track.find(c->id); t->second.left *= h; }
            else t->second.left -= h * o.steps;
            if (t->second.left <= -h * 1e-6) {
                if (!(std::fabs(after) <= tol)) violate("lock", "constraint %d (kind %d) acts alone and undisturbed beyond its torque budget but has not locked: speed error %.17g", c->id, d.kind, after);
                g_stats("locks.checked");
            }
        }
        lastW.clear();
        for (auto &k : o.post.bodies) lastW[k.first] = k.second.v[2];
    }
};
void exec(const Plan &p) { World w; Couplings c; w.obs = &c; w.run(p); }
void gen(Rng &r, Plan &p) {
    Knobs k; k.sysMask = 1; k.nSteps = 16; k.conKinds = {CLUTCH, GEAR, FRIC}; if (r.chance(0.5)) k.conKinds = {CLUTCH, GEAR, FRIC, CROT};
    if (r.chance(0.6)) k.sleMask = 4;
    k.tolGS = 1e-11; k.tolCG = 1e-12; k.pLimits = r.chance(0.7) ? 0.6 : 0.2; k.pOutside = 0.1; k.minBodies = 1; k.maxBodies = 6;
    k.pFault = r.chance(0.3) ? 0.15 : 0; k.pRestart = 0.03; k.pInit = 0; k.pRecorder = 0.2; k.pReset = 0.02; k.pBulk = 0.01;
    const bool quiet = r.chance(0.5);
    if (quiet) { k.pEdit = 0.1; k.pKick = 0.1; k.nSteps = 40; k.maxCons = 3; k.maxBodies = 5; }
    k.maxFrcs = 0;
    Plan q; genWorld(r, q, k);
    for (auto &o : q.ops) { if (o.k == "FRC" && o.I(1) != REC) continue; p.add(o); }
}
}
PROPERTY(C13, gen, exec)
