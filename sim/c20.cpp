// C20, C21, C22: what objects answer about themselves is true of the current state, at every point of every history.
#include "world.h"
using namespace atg_scs;

namespace {
// Questions asked between and during the steps. rate: how many of the points during a step are used.
struct Asker : Observer {
    World *w = nullptr;
    Rng r{1};
    double rate = 0.3;
    virtual void still(const char *when) = 0;               // bodies between and during the steps
    virtual void running(SystemState *, const char *) {}    // the state handed to a callback
    void attach(World &x) {
        w = &x; x.obs = this;
        x.onHook = [this](HookKind k, int, int phase) {
            if (!r.chance(rate)) return;
            const long at = seam::failAt; seam::failAt = -1;
            still("during a step");
            if (w->state) running(w->state, k == H_FRC ? phase ? "after a force" : "before a force" : k == H_CON ? phase ? "after a constraint" : "before a constraint" : "in the integrator");
            seam::failAt = at;
        };
    }
    void afterEdit(World &, const Op &o) override { if (o.k != "STEP") still(o.k.c_str()); }
    void afterStep(World &, StepObs &o) override {
        still(o.completed ? "after a step" : "after a failed step");
        g_stats(o.completed ? "asked.after_step" : "asked.after_failed_step");
        if (o.completed) g_nontrivial = true;
    }
    bool near(double got, LD want, LD scale, LD tol) { return fabsl(got - want) <= tol * scale + 1e-300L; }
};
void gather(Rng &r, Plan &p, Knobs &k) {
    k.nSteps = 8; k.pFault = r.chance(0.5) ? 0.25 : 0; k.pInit = 0.04; k.pReset = 0.05; k.pRestart = 0.06; k.pKick = 0.5; k.pBulk = 0.005; k.pRecorder = 0.1; k.pOutside = r.chance(0.5) ? 0.15 : 0.4;
    p.add("ASK", {(long)r.below(1000000)}, {r.chance(0.2) ? 1.0 : r.uni() * 0.5});
    genWorld(r, p, k);
}
template <class A> void run(const Plan &p) {
    Plan q = p; A a;
    if (!q.ops.empty() && q.ops[0].k == "ASK") { a.r = Rng((uint64_t)q.ops[0].I(0)); a.rate = q.ops[0].X(0, 0.3); q.ops.erase(q.ops.begin()); }
    World w; a.attach(w); w.run(q); w.obs = nullptr; w.onHook = nullptr; w.onOutput = nullptr;
}

// ------------------------------------------------------------------ C20 coordinate transforms
struct Transforms : Asker {
    void point(LD s, double &x, double &y) { s = r.chance(0.3) ? 1 : s; const double z = r.chance(0.1) ? 1000 : r.chance(0.1) ? 1e-6 : 2; x = r.chance(0.1) ? 0 : z * r.real(-1, 1); y = r.chance(0.1) ? 0 : z * r.real(-1, 1); }
    void still(const char *when) override {
        for (auto &k : w->bodies) {
            if (k.first >= 1000 && !r.chance(0.02)) continue;
            RigidBody *b = k.second.o; double x, y; point(1, x, y);
            double wx = -7, wy = -7, lx = -7, ly = -7, qx = -7, qy = -7, gx, gy;
            const double px = r.chance(0.5) ? r.real(-5, 5) : b->p_x, py = r.chance(0.5) ? r.real(-5, 5) : b->p_y;
            { seam::LibScope l; b->localToWorld(x, y, &wx, &wy); b->worldToLocal(wx, wy, &lx, &ly); b->worldToLocal(px, py, &qx, &qy); b->localToWorld(qx, qy, &gx, &gy); }
            const LD c = cosl(b->theta), s = sinl(b->theta), sc = fabsl(b->p_x) + fabsl(b->p_y) + fabsl(x) + fabsl(y), sp = sc + fabsl(px) + fabsl(py);
            const char *in = k.second.in ? "in" : "outside";
            if (!near(wx, b->p_x + c * x - s * y, sc, 1e-13L) || !near(wy, b->p_y + s * x + c * y, sc, 1e-13L)) violate("local-to-world", "%s: point (%.17g, %.17g) of body %d (%s the system, at (%.17g, %.17g) turned by %.17g) is reported at (%.17g, %.17g), it is at (%.17g, %.17g)", when, x, y, k.first, in, b->p_x, b->p_y, b->theta, wx, wy, (double)(b->p_x + c * x - s * y), (double)(b->p_y + s * x + c * y));
            if (!near(lx, x, sc, 1e-13L) || !near(ly, y, sc, 1e-13L)) violate("inverse", "%s: point (%.17g, %.17g) of body %d (%s the system, at (%.17g, %.17g) turned by %.17g) comes back from the world as (%.17g, %.17g)", when, x, y, k.first, in, b->p_x, b->p_y, b->theta, lx, ly);
            if (!near(gx, px, sp, 1e-13L) || !near(gy, py, sp, 1e-13L)) violate("inverse", "%s: world point (%.17g, %.17g) comes back from body %d (%s the system, at (%.17g, %.17g) turned by %.17g) as (%.17g, %.17g)", when, px, py, k.first, in, b->p_x, b->p_y, b->theta, gx, gy);
            g_log.d(wx); g_log.d(lx); g_stats("asked.bodies");
        }
    }
    void running(SystemState *st, const char *when) override {
        const int n = st->n; if (n <= 0) return;
        for (int t = 0; t < 3; ++t) {
            const int i = (int)r.below(n); double x, y; point(1, x, y); const double fx = r.chance(0.1) ? 0 : r.real(-20, 20), fy = r.chance(0.1) ? 0 : r.real(-20, 20);
            double wx = -7, wy = -7, vx = -7, vy = -7;
            const double f0[3] = {st->f_x[i], st->f_y[i], st->t[i]};
            st->f_x[i] = st->f_y[i] = st->t[i] = 0; if (t == 1) { st->f_x[i] = 1; st->f_y[i] = 2; st->t[i] = 3; }
            { seam::LibScope l; st->localToWorld(x, y, &wx, &wy, i); st->velocityAtPoint(x, y, &vx, &vy, i); st->applyForce(x, y, fx, fy, i); }
            const double f1[3] = {st->f_x[i] - (t == 1), st->f_y[i] - 2 * (t == 1), st->t[i] - 3 * (t == 1)};
            st->f_x[i] = f0[0]; st->f_y[i] = f0[1]; st->t[i] = f0[2];
            const LD c = cosl(st->theta[i]), s = sinl(st->theta[i]), X = c * x - s * y, Y = s * x + c * y, om = st->v_theta[i];
            const LD sc = fabsl(st->p_x[i]) + fabsl(st->p_y[i]) + fabsl(x) + fabsl(y), sv = fabsl(st->v_x[i]) + fabsl(st->v_y[i]) + fabsl(om) * sc, sf = (fabsl(fx) + fabsl(fy)) + 4;
            if (!near(wx, st->p_x[i] + X, sc, 1e-13L) || !near(wy, st->p_y[i] + Y, sc, 1e-13L)) violate("state-local-to-world", "%s: point (%.17g, %.17g) of the body with index %d (at (%.17g, %.17g) turned by %.17g) is reported at (%.17g, %.17g), it is at (%.17g, %.17g)", when, x, y, i, st->p_x[i], st->p_y[i], st->theta[i], wx, wy, (double)(st->p_x[i] + X), (double)(st->p_y[i] + Y));
            if (!near(vx, st->v_x[i] - om * Y, sv, 1e-13L) || !near(vy, st->v_y[i] + om * X, sv, 1e-13L)) violate("velocity", "%s: point (%.17g, %.17g) of the body with index %d is reported to move at (%.17g, %.17g), it moves at (%.17g, %.17g)", when, x, y, i, vx, vy, (double)(st->v_x[i] - om * Y), (double)(st->v_y[i] + om * X));
            if (!near(f1[0], fx, sf, 1e-13L) || !near(f1[1], fy, sf, 1e-13L) || !near(f1[2], X * fy - Y * fx, sf * (1 + sc), 1e-13L)) violate("apply-force", "%s: a force (%.17g, %.17g) at point (%.17g, %.17g) of the body with index %d was added as (%.17g, %.17g) with torque %.17g, its moment is %.17g", when, fx, fy, x, y, i, f1[0], f1[1], f1[2], (double)(X * fy - Y * fx));
            g_log.d(wx); g_log.d(vx); g_stats("asked.states");
        }
    }
};
void exec20(const Plan &p) { run<Transforms>(p); }
void gen20(Rng &r, Plan &p) { Knobs k; gather(r, p, k); }

// ------------------------------------------------------------------ C22 energies
struct Energies : Asker {
    void still(const char *when) override {
        for (auto &k : w->bodies) {
            if (k.first >= 1000 && !r.chance(0.02)) continue;
            const RigidBody *b = k.second.o; double e; { seam::LibScope l; e = b->energy(); }
            const LD want = 0.5L * b->m * ((LD)b->v_x * b->v_x + (LD)b->v_y * b->v_y) + 0.5L * b->I * b->v_theta * b->v_theta;
            if (!near(e, want, fabsl(want), 1e-13L)) violate("body-energy", "%s: body %d (%s the system, mass %.17g, inertia %.17g, velocity (%.17g, %.17g), turning at %.17g) reports the energy %.17g, it has %.17g", when, k.first, k.second.in ? "in" : "outside", b->m, b->I, b->v_x, b->v_y, b->v_theta, e, (double)want);
            g_log.d(e); g_stats("asked.bodies");
        }
        for (auto &k : w->frcs) {
            if (k.second.d.kind != SPRING) continue;
            Spring *s = static_cast<Spring *>(k.second.o);
            double e, x[4] = {-7, -7, -7, -7}; { seam::LibScope l; e = s->energy(); s->getEnds(x, x + 1, x + 2, x + 3); }
            if (!s->m_body1 || !s->m_body2) { if (e != 0) violate("spring-energy", "%s: spring %d, with an end attached to nothing, reports the energy %.17g", when, k.first, e); continue; }
            LD q[4], sc = 0;
            const RigidBody *b[2] = {s->m_body1, s->m_body2}; const double l[4] = {s->m_p1_x, s->m_p1_y, s->m_p2_x, s->m_p2_y};
            for (int i = 0; i < 2; ++i) {
                const LD c = cosl(b[i]->theta), sn = sinl(b[i]->theta); q[2 * i] = b[i]->p_x + c * l[2 * i] - sn * l[2 * i + 1]; q[2 * i + 1] = b[i]->p_y + sn * l[2 * i] + c * l[2 * i + 1];
                sc += fabsl(b[i]->p_x) + fabsl(b[i]->p_y) + fabsl(l[2 * i]) + fabsl(l[2 * i + 1]);
            }
            for (int i = 0; i < 4; ++i) if (!near(x[i], q[i], sc, 1e-13L)) violate("spring-ends", "%s: coordinate %d of the ends of spring %d is reported as %.17g, it is %.17g", when, i, k.first, x[i], (double)q[i]);
            const LD d = sqrtl((q[2] - q[0]) * (q[2] - q[0]) + (q[3] - q[1]) * (q[3] - q[1])) - s->m_restLength, want = 0.5L * s->m_ks * d * d, er = 1e-13L * (sc + fabsl(s->m_restLength));
            if (!(fabsl(e - want) <= fabsl((LD)s->m_ks) * er * (fabsl(d) + er) + 1e-13L * fabsl(want) + 1e-300L)) violate("spring-energy", "%s: spring %d (stiffness %.17g, rest length %.17g, extended by %.17g) reports the energy %.17g, it stores %.17g", when, k.first, s->m_ks, s->m_restLength, (double)d, e, (double)want);
            g_log.d(e); g_stats("asked.springs");
        }
    }
};
void exec22(const Plan &p) { run<Energies>(p); }
void gen22(Rng &r, Plan &p) { Knobs k; k.frcKinds = {SPRING, SPRING, SPRING, GRAV, STATIC, MOTOR}; gather(r, p, k); }

// ------------------------------------------------------------------ C21 derivatives reported by constraints
struct Derivatives : Asker {
    void still(const char *) override {}
    struct Out { double C[3], J[3][6], Jd[3][6]; };
    void ask(Constraint &c, SystemState *s, Out &o) {
        Constraint::Output u; memset(&u, 0x3f, sizeof u);
        { seam::LibScope l; c.calculate(&u, s); }
        for (int k = 0; k < c.getConstraintCount(); ++k) { o.C[k] = u.C[k]; for (int e = 0; e < 3 * c.m_bodyCount; ++e) { o.J[k][e] = u.J[k][e]; o.Jd[k][e] = u.J_dot[k][e]; } }
    }
    void output(int id, const Constraint &cc, const Constraint::Output &o) {
        if (!r.chance(rate)) return;
        ConS &c = w->cons.at(id); Constraint &q = const_cast<Constraint &>(cc); SystemState *s = w->state;
        if (c.d.kind == LIN || c.d.kind == WELD || !s) return;      // user code
        const int n = q.getConstraintCount(), nb = q.m_bodyCount;
        const long at = seam::failAt; seam::failAt = -1; w->asking = true;
        double *P[6], V[6], keep[6]; bool in[2];
        LD S = 1, len = 1;
        for (int b = 0; b < nb; ++b) {
            const RigidBody *rb = q.m_bodies[b]; const int i = rb->index; in[b] = i >= 0;
            if (in[b]) {
                P[3 * b] = &s->p_x[i]; P[3 * b + 1] = &s->p_y[i]; P[3 * b + 2] = &s->theta[i];
                V[3 * b] = s->v_x[i]; V[3 * b + 1] = s->v_y[i]; V[3 * b + 2] = s->v_theta[i];
                for (int e = 0; e < 3; ++e) keep[3 * b + e] = *P[3 * b + e];
                S = std::max(S, std::max(fabsl(keep[3 * b]), fabsl(keep[3 * b + 1])));
            } else S = std::max(S, std::max(fabsl(rb->p_x), fabsl(rb->p_y)));
        }
        for (double x : c.d.p) if (c.d.kind <= ROLL && fabs(x) < 1e6) len = std::max(len, fabsl((LD)x));
        if (c.d.kind == LINE || c.d.kind == ROLL) S *= len;
        S += len; if (c.d.kind == ROLL) S *= 2;
        LD turn = 0; for (int b = 0; b < nb; ++b) if (in[b]) turn = std::max(turn, fabsl(keep[3 * b + 2]));
        auto set = [&](int e, double x) { if (in[e / 3]) *P[e] = x; };
        auto back = [&] { for (int e = 0; e < 3 * nb; ++e) if (in[e / 3]) *P[e] = keep[e]; };
        const bool rate4 = c.d.kind >= CLUTCH && c.d.kind <= FRIC;
        char msg[400] = "";
        const double rel = 2e-8;
        // J = dC/dq, by a fourth-order difference
        if (!rate4) for (int e = 0; e < 3 * nb; ++e) {
            if (!in[e / 3]) continue;
            const double h = e % 3 == 2 ? 2e-3 : 2e-3 * std::max(1.0, (double)(S * 1e-3)); Out m2, m1, p1, p2;
            double x[4]; int z = 0; for (double f : {-2.0, -1.0, 1.0, 2.0}) x[z++] = keep[e] + f * h;
            set(e, x[0]); ask(q, s, m2); set(e, x[1]); ask(q, s, m1); set(e, x[2]); ask(q, s, p1); set(e, x[3]); ask(q, s, p2); back();
            for (int k = 0; k < n; ++k) {
                const LD d = (8 * ((LD)p1.C[k] - m1.C[k]) - ((LD)p2.C[k] - m2.C[k])) / (6 * ((LD)x[2] - x[1])), tol = rel * S + 1e-12L * (1 + turn) * S / h;
                if (!(fabsl(o.J[k][e] - d) <= tol)) snprintf(msg, sizeof msg, "the Jacobian entry of %s of its body %d is %.17g in row %d, the derivative of the reported position error is %.17g (constraint %d)", e % 3 == 0 ? "x" : e % 3 == 1 ? "y" : "the angle", e / 3 + 1, o.J[k][e], k, (double)d, id);
            }
        }
        // J_dot = dJ/dt along the velocities
        LD om = 0, sp = 0; for (int e = 0; e < 3 * nb; ++e) if (in[e / 3]) { if (e % 3 == 2) om = std::max(om, fabsl(V[e])); else sp = std::max(sp, fabsl(V[e])); }
        const LD rateS = om * S + sp * len;
        const double h = (double)(2e-3L / std::max((LD)1e-3L, std::max(om, sp / S)));
        if (!msg[0] && n) {
            Out m2, m1, p1, p2; LD dt[4]; int z = 0;
            for (Out *u : {&m2, &m1, &p1, &p2}) { const double f[] = {-2, -1, 1, 2}; for (int e = 0; e < 3 * nb; ++e) if (in[e / 3]) set(e, keep[e] + f[z] * h * V[e]); ask(q, s, *u); dt[z] = f[z] * h; ++z; back(); }
            for (int k = 0; k < n; ++k) for (int e = 0; e < 3 * nb; ++e) {
                if (!in[e / 3]) continue;
                const LD d = (8 * ((LD)p1.J[k][e] - m1.J[k][e]) - ((LD)p2.J[k][e] - m2.J[k][e])) / (12 * (LD)h), tol = rel * rateS + 1e-12L * (1 + turn) * S / h;
                if (!(fabsl(o.J_dot[k][e] - d) <= tol)) snprintf(msg, sizeof msg, "the Jacobian rate of %s of its body %d is %.17g in row %d, the Jacobian changes at %.17g (constraint %d)", e % 3 == 0 ? "x" : e % 3 == 1 ? "y" : "the angle", e / 3 + 1, o.J_dot[k][e], k, (double)d, id);
            }
        }
        // rotational couplings: the Jacobian of the speed relation they impose
        if (!msg[0] && rate4) {
            Rows R; int bi[2] = {0, 1}; LD zero[6] = {0}; evalCon(c.d, bi, zero, zero, R);
            for (int sg : {1, -1}) { bool ok = true; for (int e = 0; e < 3 * nb; ++e) if (in[e / 3] && !(fabsl(o.J[0][e] - sg * R.J[0][e]) <= 1e-13L * fabsl(R.J[0][e]))) ok = false; if (ok) break; if (sg < 0) snprintf(msg, sizeof msg, "its Jacobian (%.17g, %.17g) is not that of the speed relation it imposes (constraint %d)", o.J[0][2], nb > 1 ? o.J[0][5] : 0.0, id); }
        }
        w->asking = false; seam::failAt = at;
        for (int k = 0; k < n; ++k) for (int e = 0; e < 3 * nb; ++e) if (in[e / 3]) { g_log.d(o.J[k][e]); g_log.d(o.J_dot[k][e]); }
        if (msg[0]) violate("derivative", "a %s constraint: %s", conName(c.d.kind), msg);
        g_stats((std::string("asked.") + conName(c.d.kind)).c_str()); g_nontrivial = true;
    }
    static const char *conName(int k) { static const char *n[] = {"link", "fixed_position", "fixed_rotation", "line", "rolling", "clutch", "gear", "rotation_drive", "friction"}; return k >= 0 && k < 9 ? n[k] : "user"; }
};
void exec21(const Plan &p) {
    Plan q = p; Derivatives a;
    if (!q.ops.empty() && q.ops[0].k == "ASK") { a.r = Rng((uint64_t)q.ops[0].I(0)); a.rate = q.ops[0].X(0, 0.3); q.ops.erase(q.ops.begin()); }
    World w; a.attach(w); w.onHook = nullptr;
    w.onOutput = [&](int id, const Constraint &c, const Constraint::Output &o) { a.output(id, c, o); };
    w.run(q); w.obs = nullptr; w.onOutput = nullptr;
}
void gen21(Rng &r, Plan &p) { Knobs k; k.conKinds = {LINK, FIXPOS, FIXROT, LINE, ROLL, CLUTCH, GEAR, CROT, FRIC}; gather(r, p, k); p.ops[0].x[0] = r.chance(0.3) ? 1 : 0.4; }
}
PROPERTY(C20, gen20, exec20)
PROPERTY(C21, gen21, exec21)
PROPERTY(C22, gen22, exec22)
