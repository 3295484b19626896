// C09: reported constraint forces are the forces that were applied (momentum balance of the last sub-step).
#include "world.h"
using namespace atg_scs;

namespace {
struct Balance : Observer {
    // A four-stage integrator reports the weighted mean of what the stages found; where that mean is small next to what it was
    // taken of, its rounding error is not small next to it. Sum over the rows of |J lambda|, per evaluation.
    std::vector<std::vector<LD>> mags;
    void attach(World &w) {
        w.obs = this;
        w.onSolved = [this, &w](SparseMatrix<3> &J, Matrix &lam) {
            if (w.stageCount() != 4) return;
            const long at = seam::failAt; seam::failAt = -1;
            Matrix D; LQ(J.expand(&D));
            std::vector<LD> m(D.getWidth(), 0);
            for (int r = 0; r < D.getHeight(); ++r) { const LD l = fabsl((LD)lam.get(0, r)); for (int k = 0; k < D.getWidth(); ++k) m[k] += fabsl((LD)D.get(k, r)) * l; }
            LQ(D.destroy()); seam::failAt = at;
            mags.push_back(m);
        };
    }
    void beforeStep(World &, StepObs &) override { mags.clear(); }
    void afterStep(World &w, StepObs &o) override {
        if (!o.completed) return;
        auto sb = w.sysBodies(); auto sc = w.sysCons();
        const int n = (int)sb.size(), nst = w.stageCount();
        const LD h = (LD)(o.dt / o.steps);
        std::vector<RState> st;
        if (o.stages.size() == (size_t)o.steps * nst) {
            for (int g = 0; g < nst; ++g) { const Stage &t = o.stages[(o.steps - 1) * nst + g]; if (t.n != n) violate("record", "a force generator saw %d bodies, %d are installed", t.n, n); st.push_back(w.refState(t)); }
        } else if (o.steps == 1 && nst == 1) {
            RState s; s.n = n; s.q.resize(3*n); s.v.resize(3*n); s.a.assign(3*n, 0); s.m.resize(n); s.I.resize(n);
            for (int i = 0; i < n; ++i) { const BodyVals &b = o.pre.bodies.at(sb[i]->id); for (int e = 0; e < 3; ++e) { s.q[3*i+e] = b.q[e]; s.v[3*i+e] = b.v[e]; } s.m[i] = b.m; s.I[i] = b.I; }
            st.push_back(s);
        } else return;
        // reported forces, per body
        std::vector<LD> R(3 * n, 0), Ra(3 * n, 0);
        bool any = false;
        for (auto *c : sc) {
            const ConVals &v = o.post.cons.at(c->id);
            for (int k = 0; k < c->d.nBodies(); ++k) {
                BodyS *b = w.body(c->b[k]);
                for (int r = 0; r < c->d.nRows(); ++r) for (int e = 0; e < 3; ++e) {
                    const double f = v.F[r][k][e];
                    if (!std::isfinite(f)) violate("reported-force", "constraint %d reports F_%c[%d][%d] = %g", c->id, "xyt"[e], r, k, f);
                    if (!b->in) { if (f != 0) violate("outside-body", "constraint %d reports F_%c[%d][%d] = %.17g for a body that is not in the system", c->id, "xyt"[e], r, k, f); continue; }
                    R[3 * b->o->index + e] += f; Ra[3 * b->o->index + e] += fabsl((LD)f);
                    if (f != 0) any = true;
                }
            }
        }
        const LD c4[4] = {1, 2, 2, 1};
        std::vector<LD> F(3 * n, 0), Fa(3 * n, 0);
        for (int g = 0; g < nst; ++g) {
            std::vector<LD> f, fa; w.refForces(st[g], f, fa);
            const LD wt = nst == 4 ? c4[g] / 6 : 1;
            for (int k = 0; k < 3 * n; ++k) { F[k] += wt * f[k]; Fa[k] += wt * fa[k]; }
        }
        if (nst == 4 && mags.size() >= 4) for (int g = 0; g < 4; ++g) { const auto &m = mags[mags.size() - 4 + g]; for (int k = 0; k < 3 * n && k < (int)m.size(); ++k) Fa[k] += c4[g] / 6 * m[k]; }
        double worst = 0;
        for (int i = 0; i < n; ++i) {
            const BodyVals &b = o.post.bodies.at(sb[i]->id);
            for (int e = 0; e < 3; ++e) {
                const int k = 3 * i + e;
                const LD m = e == 2 ? b.I : b.m, v0 = st[0].v[k], v1 = b.v[e];
                const LD lhs = m * (v1 - v0) / h, rhs = F[k] + R[k];
                LD vs = fabsl(v0) + fabsl(v1); for (int g = 1; g < nst; ++g) vs += 4 * fabsl(st[g].v[k]);
                const LD tol = 2 * EPS * (Fa[k] + Ra[k] + m * vs / h) + 1e-300L;
                worst = std::max(worst, (double)(fabsl(lhs - rhs) / tol));
                if (!(fabsl(lhs - rhs) <= tol)) violate("balance", "body %d coordinate %d: mass * velocity change / time is %.17Lg over the last sub-step, applied external %.17Lg plus reported constraint forces %.17Lg (tolerance %.3Lg)", sb[i]->id, e, lhs, F[k], R[k], tol);
            }
        }
        g_stats.max("worst_error_over_tolerance", worst);
        // every row along its own Jacobian
        if (nst == 1) {
            Problem p; w.refRows(st[0], p);
            for (size_t c = 0; c < sc.size(); ++c) {
                const Rows &J = p.rows[c]; const ConVals &v = o.post.cons.at(sc[c]->id);
                for (int r = 0; r < J.n; ++r) {
                    LD jj = 0, jf = 0;
                    for (int a = 0; a < J.nb; ++a) if (J.body[a] >= 0) for (int e = 0; e < 3; ++e) { jj += J.J[r][3*a+e] * J.J[r][3*a+e]; jf += J.J[r][3*a+e] * (LD)v.F[r][a][e]; }
                    if (!(jj > 0)) continue;
                    const LD lam = jf / jj;
                    for (int a = 0; a < J.nb; ++a) if (J.body[a] >= 0) for (int e = 0; e < 3; ++e) {
                        const LD want = J.J[r][3*a+e] * lam, tol = 4 * EPS * (sqrtl(jj) + 0.01L * J.Cscale) * (fabsl(lam) + 1e-300L) * (1 + 0.01L * J.Cscale / sqrtl(jj));
                        if (!(fabsl(want - v.F[r][a][e]) <= tol)) violate("direction", "constraint %d (kind %d) row %d: reported force on body %d component %d is %.17g, along the row's Jacobian it would be %.17Lg (tolerance %.3Lg)", sc[c]->id, sc[c]->d.kind, r, a, e, v.F[r][a][e], want, tol);
                    }
                }
            }
        }
        g_stats("steps.checked");
        if (any) { g_nontrivial = true; g_stats("steps.checked_with_reactions"); if (nst == 4) g_stats("steps.checked_multi_stage"); }
    }
};
void exec(const Plan &p) { Worlds w; Balance b; b.attach(w.a); b.attach(w.b); w.run(p); }
void gen(Rng &r, Plan &p) {
    Knobs k; k.nSteps = 12; k.pFault = r.chance(0.4) ? 0.15 : 0; k.pRecorder = 1; k.pBulk = 0.02; k.pInit = 0.03; k.pRestart = 0.05; k.pOutside = r.chance(0.3) ? 0.4 : 0.12;
    if (r.chance(0.3)) k.tolGS = k.tolCG = 1e-4;            // the balance must hold however badly the solver converged
    if (r.chance(0.2)) { k.maxBodies = 14; k.maxCons = 14; }
    if (r.chance(0.1)) genShared(r, p, k); else genWorld(r, p, k);
}
}
PROPERTY(C09, gen, exec)
