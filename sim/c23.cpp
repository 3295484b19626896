// C23: what user code is shown inside a step is one coherent account of the system.
#include "world.h"
using namespace atg_scs;

namespace {
struct Coherence : Observer {
    World *w = nullptr;
    std::vector<BodyS *> sb; std::vector<ConS *> sc; std::vector<FrcS *> sf;
    std::vector<int> first; int rows = 0, nb = 0;
    long nf = 0, nc = 0, ns = 0;                // callbacks so far in this step
    std::vector<double> at, f;                  // state of the running force evaluation, forces so far
    std::vector<double> atc;                    // state of the running constraint evaluation
    std::vector<uint64_t> fw, cw;               // evaluations met, by contents
    struct Row { int b[2]; double J[6], Jd[6], C, vb, lo, hi, ks, kd; };
    std::vector<Row> R; double h = 0;

    static void grab(const SystemState *s, int n, std::vector<double> &o) {
        o.clear();
        for (const double *a : {s->p_x, s->p_y, s->theta, s->v_x, s->v_y, s->v_theta, s->m}) o.insert(o.end(), a, a + n);
    }
    static void grabF(const SystemState *s, int n, std::vector<double> &o) { o.clear(); for (const double *a : {s->f_x, s->f_y, s->t}) o.insert(o.end(), a, a + n); }
    static uint64_t sum(const std::vector<double> &v) { Log l; for (double x : v) l.d(x); return l.h; }
    int differs(const std::vector<double> &a, const std::vector<double> &b) { for (size_t i = 0; i < a.size(); ++i) if (!bitEq(a[i], b[i])) return (int)i; return -1; }
    static const char *field(int k) { static const char *n[] = {"x", "y", "angle", "x velocity", "y velocity", "angular velocity", "mass"}; return n[k]; }

    void attach(World &x) {
        w = &x; x.obs = this;
        x.onHook = [this](HookKind k, int id, int phase) { if (w->cur && (w->state || k == H_ODE_END)) hook(k, id, phase, w->state); };
        x.onOutput = [this](int id, const Constraint &c, const Constraint::Output &o) { if (w->cur) output(id, c, o); };
        x.onSolve = [this](SparseMatrix<3> &J, Matrix &W, Matrix &right, Matrix *lim) { if (w->cur) solve(J, W, right, lim); };
    }
    void beforeStep(World &, StepObs &o) override {
        sb = w->sysBodies(); sc = w->sysCons(); sf = w->sysFrcs(); nb = (int)sb.size(); h = o.dt / o.steps;
        first.clear(); rows = 0; for (auto *c : sc) { first.push_back(rows); rows += c->d.nRows(); }
        nf = nc = ns = starts = ends = 0; started = pending = false; fw.clear(); cw.clear(); R.assign(rows, Row()); f.assign(3 * nb, 0);
    }
    void check(const SystemState *s, const std::vector<double> &base, const char *who, int id) {
        std::vector<double> now; grab(s, nb, now);
        const int d = differs(now, base);
        if (d >= 0) violate("state", "%s %d is shown %s %.17g of body %d; others in the same evaluation were shown %.17g", who, id, field(d / nb), now[d], sb[d % nb]->id, base[d]);
    }
    void start(const SystemState *s, std::vector<double> &to, const char *who, int id, bool begins) {
        grab(s, nb, to);
        if (!begins) return;
        for (int i = 0; i < nb; ++i) {
            const RigidBody *b = sb[i]->o; const double want[7] = {b->p_x, b->p_y, b->theta, b->v_x, b->v_y, b->v_theta, b->m};
            for (int e = 0; e < 7; ++e) if (!bitEq(to[e * nb + i], want[e])) violate("state", "the step starts with %s %.17g of body %d, but %s %d is shown %.17g under its index %d", field(e), want[e], sb[i]->id, who, id, to[e * nb + i], i);
        }
    }
    void hook(HookKind k, int id, int phase, SystemState *s) {
        if (k >= H_ODE_START) { integrator(k, phase, s); return; }
        if (w->cfg.sys == GEN && !pending) violate("protocol", "a callback of the system runs while the integrator has not asked for an evaluation");
        const char *who = k == H_FRC ? "generator" : "constraint";
        if (phase == 0) {
            for (size_t i = 0; i < sc.size(); ++i) if (s->indexMap[sc[i]->o->m_index] != first[i]) violate("rows", "%s %d is shown that the rows of constraint %d start at %d, they start at %d", who, id, sc[i]->id, s->indexMap[sc[i]->o->m_index], first[i]);
            for (int i = 0; i < nb; ++i) if (s->m[i] != sb[i]->o->m) violate("state", "%s %d is shown mass %.17g of body %d, its mass is %.17g", who, id, s->m[i], sb[i]->id, sb[i]->o->m);
        }
        std::vector<double> now;
        if (k == H_FRC) {
            const bool fresh = nf % (long)std::max<size_t>(1, sf.size()) == 0;
            if (phase == 0) {
                if (fresh) { start(s, at, who, id, nf == 0); fw.push_back(sum(at)); f.assign(3 * nb, 0.0); } else check(s, at, who, id);
                grabF(s, nb, now);
                for (int i = 0; i < 3 * nb; ++i) if (now[i] != f[i]) violate("forces", "generator %d finds component %d of the force on body %d at %.17g; the generators before it left %.17g", id, i / nb, sb[i % nb]->id, now[i], f[i]);
            } else { check(s, at, "after its call, generator", id); grabF(s, nb, f); ++nf; }
            g_stats("shown.to_generators");
        } else {
            const bool fresh = nc % (long)std::max<size_t>(1, sc.size()) == 0;
            if (phase == 0) { if (fresh) { start(s, atc, who, id, nc == 0); cw.push_back(sum(atc)); } else check(s, atc, who, id); }
            else { check(s, atc, "after its call, constraint", id); ++nc; }
            g_stats("shown.to_constraints");
        }
    }
    // start (step evaluation solve)+ end, once per sub-step; solve finds the accelerations of this evaluation
    void integrator(HookKind k, int phase, SystemState *s) {
        if (phase) return;
        const char *bad = nullptr;
        switch (k) {
            case H_ODE_START: bad = started ? "is started twice" : nullptr; started = true; stages = 0; ++starts;
                break;
            case H_ODE_STEP: bad = !started ? "is asked to step before its start" : pending ? "is asked to step before it solved" : nullptr; pending = true; ++stages; mf = nf; mc = nc; break;
            case H_ODE_SOLVE: {
                bad = !pending ? "is asked to solve before it stepped" : nf != mf + (long)sf.size() || nc < mc + (long)sc.size() ? "is asked to solve before the evaluation is complete" : nullptr; pending = false;
                if (bad) break;
                for (int i = 0; i < nb; ++i) for (int e = 0; e < 3; ++e) {
                    LD want = sf.empty() ? 0 : f[e * nb + i], mag = fabsl(want);
                    for (int r = 0; r < rows; ++r) for (int j = 0; j < 2; ++j) if (R[r].b[j] == i) { const LD x = (e == 0 ? s->r_x : e == 1 ? s->r_y : s->r_t)[2 * r + j]; want += x; mag += fabsl(x); }
                    const LD M = e < 2 ? sb[i]->o->m : sb[i]->o->I; const double a = (e == 0 ? s->a_x : e == 1 ? s->a_y : s->a_theta)[i];
                    if (!(fabsl(a * M - want) <= 1e-14L * (rows + 4) * mag + 1e-290L)) violate("accelerations", "the integrator is handed acceleration %.17g of component %d of body %d; forces and reactions give %.17g", a, e, sb[i]->id, (double)(want / M));
                }
                break; }
            case H_ODE_END: bad = !started || pending || stages != w->stageCount() ? "is ended before it finished" : nullptr; started = false; ++ends; break;
            default: break;
        }
        if (bad) violate("protocol", "the integrator %s", bad);
        g_stats("shown.to_integrators");
    }
    bool started = false, pending = false; int stages = 0; long starts = 0, ends = 0, mf = 0, mc = 0;
    void output(int id, const Constraint &c, const Constraint::Output &o) {
        int at = -1; for (size_t i = 0; i < sc.size(); ++i) if (sc[i]->id == id) at = (int)i;
        if (at < 0) return;
        for (int k = 0; k < sc[at]->d.nRows(); ++k) {
            Row &r = R[first[at] + k];
            r.b[0] = r.b[1] = -1; for (int e = 0; e < 6; ++e) r.J[e] = r.Jd[e] = 0;
            for (int j = 0; j < c.m_bodyCount; ++j) { r.b[j] = c.m_bodies[j]->index; if (r.b[j] >= 0) for (int e = 0; e < 3; ++e) { r.J[3 * j + e] = o.J[k][3 * j + e]; r.Jd[3 * j + e] = w->cfg.sys == GEN ? o.J_dot[k][3 * j + e] : 0; } }
            r.C = o.C[k]; r.vb = w->cfg.sys == OPT ? o.v_bias[k] : 0; r.lo = o.limits[k][0]; r.hi = o.limits[k][1];
            r.ks = w->cfg.sys == GEN ? o.ks[k] : 0; r.kd = w->cfg.sys == GEN ? o.kd[k] : 0;
        }
    }
    void solve(SparseMatrix<3> &J, Matrix &W, Matrix &right, Matrix *lim) {
        ++ns;
        if (J.getHeight() != rows || J.getWidth() != 3 * nb || right.getHeight() != rows || W.getHeight() != 3 * nb || (lim && (lim->getHeight() != rows || lim->getWidth() != 2)))
            violate("solver-sizes", "%d rows on %d bodies: the solver is handed a %dx%d Jacobian, %d inverse masses and %d right sides", rows, nb, J.getWidth(), J.getHeight(), W.getHeight(), right.getHeight());
        if (w->cfg.sys == OPT && (w->cfg.sle == GS) != (lim != nullptr)) violate("solver-limits", "a solver that %s limits is %s them", w->cfg.sle == GS ? "takes" : "does not take", lim ? "given" : "not given");
        for (int i = 0; i < nb; ++i) for (int e = 0; e < 3; ++e) {
            const LD want = 1 / (LD)(e < 2 ? sb[i]->o->m : sb[i]->o->I);
            if (!(fabsl(W.get(0, 3 * i + e) - want) <= 4e-16L * fabsl(want))) violate("solver-masses", "the solver is handed %.17g as the inverse %s of body %d, it is %.17g", W.get(0, 3 * i + e), e < 2 ? "mass" : "inertia", sb[i]->id, (double)want);
        }
        if ((long)rows * nb <= 3000) {
            Matrix D; const long at = seam::failAt; seam::failAt = -1;
            LQ(J.expand(&D));
            std::vector<double> want(3 * nb);
            for (int r = 0; r < rows; ++r) {
                std::fill(want.begin(), want.end(), 0.0);
                for (int j = 0; j < 2; ++j) if (R[r].b[j] >= 0) for (int e = 0; e < 3; ++e) want[3 * R[r].b[j] + e] += R[r].J[3 * j + e];
                for (int k = 0; k < 3 * nb; ++k) if (D.get(k, r) != want[k]) violate("solver-jacobian", "row %d of the Jacobian handed to the solver has %.17g in column %d; the constraint reported %.17g for it", r, D.get(k, r), k, want[k]);
            }
            LQ(D.destroy()); seam::failAt = at;
        }
        // the right side: what the rows ask for, from the state the constraints were shown and the sum of all forces
        const bool haveF = sf.empty() || nf % (long)sf.size() == 0;
        for (int r = 0; r < rows; ++r) {
            const Row &q = R[r]; LD want = 0, mag = 0;
            auto add = [&](LD x) { want += x; mag += fabsl(x); };
            for (int j = 0; j < 2; ++j) if (q.b[j] >= 0) for (int e = 0; e < 3; ++e) {
                const int b = q.b[j]; const LD v = atc[(3 + e) * nb + b], F = sf.empty() ? 0 : f[e * nb + b], wi = W.get(0, 3 * b + e), y = (LD)q.J[3 * j + e] * wi * F;
                if (w->cfg.sys == OPT) { add(-(LD)q.J[3 * j + e] * v); add(-y * h); }
                else { add(-y); add(-(LD)q.Jd[3 * j + e] * v); add(-(LD)q.kd * q.J[3 * j + e] * v); }
            }
            if (w->cfg.sys == OPT) { add(-(LD)q.vb); add(-(LD)w->cfg.bias / h * q.C); } else add(-(LD)q.ks * q.C);
            if (haveF && !(fabsl(right.get(0, r) - want) <= 1e-13L * mag + 1e-290L)) violate("solver-right", "row %d of the right side handed to the solver is %.17g; the constraints and forces reported in this evaluation ask for %.17g", r, right.get(0, r), (double)want);
            if (lim) for (int k = 0; k < 2; ++k) {
                const LD l = (LD)(k ? q.hi : q.lo) * h; const double g = lim->get(k, r);
                if (fabsl(l) > 1e290L ? !(k ? g > 1e250 : g < -1e250) : !(fabsl(g - l) <= 1e-15L * fabsl(l) + 1e-320L)) violate("solver-limits", "row %d: the solver is handed the %s %.17g, the constraint's is %.17g times %.17g", r, k ? "maximum" : "minimum", g, k ? q.hi : q.lo, h);
            }
        }
        g_stats("shown.to_solvers");
    }
    void afterStep(World &, StepObs &o) override {
        if (!o.completed) { g_stats("steps.failed_and_seen"); return; }
        const size_t K = (size_t)o.steps * w->stageCount();
        if (!sf.empty() && !sc.empty() && nf == (long)(K * sf.size()) && nc == (long)(K * sc.size()))
            for (size_t i = 0; i < K; ++i) if (fw[i] != cw[i]) violate("state", "in evaluation %d of the step generators and constraints were shown different states", (int)i);
        if (rows && ns != (long)K) violate("solver-calls", "%d rows, %d evaluations, but the solver was called %d times", rows, (int)K, (int)ns);
        if (w->cfg.sys == GEN && (starts != o.steps || ends != o.steps || started)) violate("protocol", "%d sub-steps, but the integrator was started %d times and ended %d times", o.steps, (int)starts, (int)ends);
        const SystemState *s = w->sys->state();
        for (int i = 0; i < nb; ++i) {
            const RigidBody *b = sb[i]->o; const double want[6] = {b->p_x, b->p_y, b->theta, b->v_x, b->v_y, b->v_theta}, have[6] = {s->p_x[i], s->p_y[i], s->theta[i], s->v_x[i], s->v_y[i], s->v_theta[i]};
            for (int e = 0; e < 6; ++e) if (!bitEq(want[e], have[e])) violate("published", "after the step the system's state has %s %.17g of body %d, the body has %.17g", field(e), have[e], sb[i]->id, want[e]);
        }
        for (int i = 0; i < (int)sc.size(); ++i) for (int k = 0; k < sc[i]->d.nRows(); ++k) for (int j = 0; j < sc[i]->d.nBodies(); ++j) {
            // a multi-stage integrator averages what the stages found; the published rows are then those averages
            const int z = 2 * (first[i] + k) + j; const double have[3] = {s->r_x[z], s->r_y[z], s->r_t[z]}, want[3] = {sc[i]->o->F_x[k][j], sc[i]->o->F_y[k][j], sc[i]->o->F_t[k][j]};
            for (int e = 0; e < 3; ++e) if (!bitEq(want[e], have[e])) violate("published", "after the step the system's state has reaction %.17g in row %d of constraint %d, the constraint reports %.17g", have[e], k, sc[i]->id, want[e]);
        }
        if (!sf.empty() || !sc.empty()) { g_nontrivial = true; g_stats("steps.checked"); }
    }
};
void exec(const Plan &p) { World w; Coherence c; c.attach(w); w.run(p); w.obs = nullptr; w.onHook = nullptr; w.onOutput = nullptr; w.onSolve = nullptr; }
void gen(Rng &r, Plan &p) {
    Knobs k; k.nSteps = 9; k.pEdit = 0.7; k.pFault = r.chance(0.4) ? 0.2 : 0; k.pInit = 0.04; k.pReset = 0.05; k.pRestart = 0.05; k.pBulk = 0.02; k.pRecorder = 0.2;
    k.pOutside = r.chance(0.5) ? 0.15 : 0.4; k.maxBodies = r.chance(0.2) ? 14 : 6;
    genWorld(r, p, k);
}
}
PROPERTY(C23, gen, exec)
