// C11: limited constraints never exceed their configured limits and are exact inside them
// (velocity-bias system with the limit-aware solver).
#include "world.h"

namespace {
struct Limits : Observer {
    void afterStep(World &w, StepObs &o) override {
        if (!o.completed || !w.solverTakesLimits()) return;
        auto sb = w.sysBodies(); auto sc = w.sysCons();
        const int n = (int)sb.size();
        const LD h = (LD)(o.dt / o.steps);
        RState s;
        if (o.stages.size() == (size_t)o.steps) { if (o.stages.back().n != n) violate("record", "a force generator saw %d bodies, %d are installed", o.stages.back().n, n); s = w.refState(o.stages.back()); }
        else if (o.steps == 1) { s = w.refState(); for (int i = 0; i < n; ++i) { const BodyVals &b = o.pre.bodies.at(sb[i]->id); for (int e = 0; e < 3; ++e) { s.q[3*i+e] = b.q[e]; s.v[3*i+e] = b.v[e]; } } }
        else return;
        Problem p; w.refRows(s, p); buildProblem(s, p);
        if (!p.ok) return;
        const int m = p.m;
        std::vector<LD> lam(m, 0);          // impulse of each row, from the reported forces
        bool anyLimited = false;
        for (int r = 0; r < m; ++r) {
            const Rows &R = p.rows[p.at[r].first]; const int l = p.at[r].second; ConS *c = sc[p.at[r].first];
            const ConVals &v = o.post.cons.at(c->id);
            LD jj = 0, jf = 0, fa = 0;
            for (int a = 0; a < R.nb; ++a) if (R.body[a] >= 0) for (int e = 0; e < 3; ++e) { const LD J = R.J[l][3*a+e], f = v.F[l][a][e]; jj += J * J; jf += J * f; fa = std::max(fa, fabsl(f)); }
            if (!(jj > 0)) return;
            const LD f = jf / jj; lam[r] = f * h;
            const bool limited = R.lo[l] > -1e300L || R.hi[l] < 1e300L;
            const LD tol = 4 * EPS * (1 + 0.01L * R.Cscale / sqrtl(jj)) * (fabsl(f) + fa / sqrtl(jj));
            if (limited) {
                anyLimited = true; g_stats("rows.limited");
                if (f < R.lo[l] - tol || f > R.hi[l] + tol || f != f) violate("limit", "constraint %d (kind %d) row %d transmits %.17Lg; its limits are [%.17Lg, %.17Lg]", c->id, c->d.kind, l, f, R.lo[l], R.hi[l]);
                if (R.lo[l] == 0 && R.hi[l] == 0) {
                    g_stats("rows.in_neutral");
                    for (int a = 0; a < R.nb; ++a) for (int e = 0; e < 3; ++e) if (v.F[l][a][e] != 0) violate("neutral", "constraint %d (kind %d) row %d may transmit nothing and reports F_%c on body %d = %.17g", c->id, c->d.kind, l, "xyt"[e], a, v.F[l][a][e]);
                }
                if (c->d.kind == CLUTCH || c->d.kind == FRIC || c->d.kind == CROT) {        // torques, read directly
                    const double t = v.F[0][c->d.kind == CLUTCH ? 1 : 0][2]; const int b = c->d.kind == CLUTCH ? 1 : 0;
                    if (R.body[b] >= 0 && !(t >= R.lo[0] * (R.lo[0] < 0 ? 1 + 4 * EPS : 1 - 4 * EPS) && t <= R.hi[0] * (R.hi[0] > 0 ? 1 + 4 * EPS : 1 - 4 * EPS))) violate("limit", "constraint %d (kind %d) reports a torque of %.17g; its limits are [%.17Lg, %.17Lg]", c->id, c->d.kind, t, R.lo[0], R.hi[0]);
                }
            }
        }
        double worst = 0;
        for (int r = 0; r < m; ++r) {
            const Rows &R = p.rows[p.at[r].first]; const int l = p.at[r].second; ConS *c = sc[p.at[r].first];
            LD jv = 0, sc1 = 0, up = 0, ax = 0;
            for (int a = 0; a < 2; ++a) { const int b = p.body(r, a); if (b < 0) continue;
                for (int e = 0; e < 3; ++e) { const LD J = p.J(r, a, e), v1 = o.post.bodies.at(sb[b]->id).v[e]; jv += J * v1; sc1 += (fabsl(J) + 0.01L * R.Cscale) * (fabsl(v1) + fabsl(s.v[3*b+e])); } }
            for (int j = 0; j < m; ++j) { ax += sqrtl(p.A[r*m+r] * p.A[j*m+j]) * fabsl(lam[j]); if (j >= r) up += fabsl(p.A[r*m+j]) * std::max((LD)1e-3L, fabsl(lam[j])); }
            const LD bias = (LD)w.cfg.bias / h;
            const LD res = jv + R.vb[l] + bias * R.C[l];
            const LD tol = 3 * (LD)w.cfg.tolA * up + 8 * EPS * (sc1 + fabsl(R.vb[l]) + bias * (fabsl(R.C[l]) + 4 * R.Cscale) + ax * (1 + 0.01L * R.Cscale));
            const LD lo = R.lo[l] * h, hi = R.hi[l] * h, edge = 1e-9L * std::max(fabsl(lam[r]), (LD)1e-30L);
            const bool atLo = lam[r] <= lo + edge, atHi = lam[r] >= hi - edge;
            if (!(atLo || atHi)) {
                worst = std::max(worst, (double)(fabsl(res) / tol));
                if (!(fabsl(res) <= tol)) violate("target", "constraint %d (kind %d) row %d is inside its limits (%.6Lg in [%.6Lg, %.6Lg]) but misses its target velocity by %.6Lg (tolerance %.3Lg)", c->id, c->d.kind, l, lam[r] / h, R.lo[l], R.hi[l], res, tol);
                g_stats("rows.inside_limits"); if (anyLimited) g_nontrivial = true;
            } else {
                if (!atHi && res < -tol) violate("direction", "constraint %d (kind %d) row %d is held at its lower limit %.6Lg yet its velocity misses the target by %.6Lg on the side that more force would mend (tolerance %.3Lg)", c->id, c->d.kind, l, R.lo[l], res, tol);
                if (!atLo && res > tol) violate("direction", "constraint %d (kind %d) row %d is held at its upper limit %.6Lg yet its velocity misses the target by %.6Lg on the side that more force would mend (tolerance %.3Lg)", c->id, c->d.kind, l, R.hi[l], res, tol);
                g_stats(atLo && atHi ? "rows.pinned" : atLo ? "rows.at_lower_limit" : "rows.at_upper_limit"); g_nontrivial = true;
            }
        }
        g_stats.max("worst_residual_over_tolerance", worst);
        g_stats("steps.checked");
    }
};
void exec(const Plan &p) { Worlds w; Limits l; w.a.obs = w.b.obs = &l; w.run(p); }
void gen(Rng &r, Plan &p) {
    Knobs k; k.sysMask = 1; k.sleMask = 4; k.nSteps = 14; k.pFault = r.chance(0.3) ? 0.15 : 0; k.pRecorder = 0.9; k.pLimits = 0.85; k.pRestart = 0.05; k.pInit = 0.02; k.pOutside = 0.1; k.pBulk = 0.01;
    k.conKinds = {LINK, CLUTCH, CLUTCH, GEAR, CROT, FRIC, LIN}; if (r.chance(0.5)) { k.conKinds.push_back(LINK); k.conKinds.push_back(FIXPOS); k.conKinds.push_back(LINE); k.conKinds.push_back(ROLL); k.conKinds.push_back(WELD); }
    k.tolGS = r.chance(0.3) ? 1e-5 : r.chance(0.3) ? 1e-12 : 1e-9;
    k.pKick = 0.5; k.minBodies = 2; k.pOneSided = 0.06;
    if (r.chance(0.1)) genShared(r, p, k); else genWorld(r, p, k);
    // retune limits often; shift gears
    std::vector<Op> cs;
    for (size_t i = 0; i < p.ops.size(); ++i) {
        if (p.ops[i].k == "CON") cs.push_back(p.ops[i]);
        if (p.ops[i].k != "STEP" || cs.empty() || !r.chance(0.4)) continue;
        Op o = r.pick(cs); o.k = "SETC";
        if (r.chance(0.3)) o.x[7] = 0; else o.x[7] = r.chance(0.1) ? -1 : r.logu(0.02, 200);
        if (r.chance(0.3)) o.x[8] = 0; else o.x[8] = r.chance(0.1) ? -1 : r.logu(0.02, 200);
        if (o.I(1) == GEAR) { o.x[7] = r.logu(0.3, 3); o.x[8] = r.chance(0.5); }
        if (o.I(1) == LINE) o.x[7] = r.real(-3, 3);
        if (o.I(1) == ROLL || o.I(1) == LINE) o.x[8] = r.real(0.3, 2);
        p.ops.insert(p.ops.begin() + i++, o);
    }
}
}
PROPERTY(C11, gen, exec)
