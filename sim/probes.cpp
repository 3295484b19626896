#include "world.h"
using namespace atg_scs;

// ------------------------------------------------------------------ probes: real objects with observable, failable calls
namespace {
struct StateScope { World *w; StateScope(World *w, SystemState *s) : w(w) { w->state = s; } ~StateScope() { w->state = nullptr; } };
template <class B> struct PCon : B {
    World *w; int id;
    PCon(World *w, int id) : w(w), id(id) {}
    template <class A> PCon(World *w, int id, const A &a) : B(a), w(w), id(id) {}
    void calculate(Constraint::Output *o, SystemState *s) override {
        if (w->asking) { B::calculate(o, s); return; }
        { seam::UserScope u; StateScope c(w, s); w->hook(H_CON, id, 0); }
        { seam::LibScope l; B::calculate(o, s); }
        { seam::UserScope u; StateScope c(w, s); if (w->onOutput) w->onOutput(id, *this, *o); w->hook(H_CON, id, 1); }
    }
};
template <class B> struct PFrc : B {
    World *w; int id;
    PFrc(World *w, int id) : w(w), id(id) {}
    template <class A> PFrc(World *w, int id, const A &a) : B(a), w(w), id(id) {}
    void apply(SystemState *s) override {
        { seam::UserScope u; StateScope c(w, s); w->hook(H_FRC, id, 0); }
        { seam::LibScope l; B::apply(s); }
        { seam::UserScope u; StateScope c(w, s); w->hook(H_FRC, id, 1); }
    }
};
template <class B> struct PSle : B {
    World *w;
    PSle(World *w) : w(w) {}
    bool solve(SparseMatrix<3> &J, Matrix &W, Matrix &r, Matrix *a, Matrix *b) override {
        { seam::UserScope u; if (w->onSolve) w->onSolve(J, W, r, nullptr); w->hook(H_SLE, 0, 0); }
        bool k; { seam::LibScope l; k = B::solve(J, W, r, a, b); }
        { seam::UserScope u; if (w->onSolved) w->onSolved(J, *a); w->hook(H_SLE, 0, 1); }
        return k;
    }
    bool solveWithLimits(SparseMatrix<3> &J, Matrix &W, Matrix &r, Matrix &lim, Matrix *a, Matrix *b) override {
        { seam::UserScope u; if (w->onSolve) w->onSolve(J, W, r, &lim); w->hook(H_SLE, 0, 0); }
        bool k; { seam::LibScope l; k = B::solveWithLimits(J, W, r, lim, a, b); }
        { seam::UserScope u; if (w->onSolved) w->onSolved(J, *a); w->hook(H_SLE, 0, 1); }
        return k;
    }
};
template <class B> struct POde : B {
    World *w;
    POde(World *w) : w(w) {}
    void start(SystemState *s, double dt) override { { seam::UserScope u; StateScope c(w, s); w->hook(H_ODE_START, 0, 0); } { seam::LibScope l; B::start(s, dt); } { seam::UserScope u; StateScope c(w, s); w->hook(H_ODE_START, 0, 1); } }
    bool step(SystemState *s) override { { seam::UserScope u; StateScope c(w, s); w->hook(H_ODE_STEP, 0, 0); } bool k; { seam::LibScope l; k = B::step(s); } { seam::UserScope u; StateScope c(w, s); w->hook(H_ODE_STEP, 0, 1); } return k; }
    void solve(SystemState *s) override { { seam::UserScope u; StateScope c(w, s); w->hook(H_ODE_SOLVE, 0, 0); } { seam::LibScope l; B::solve(s); } { seam::UserScope u; StateScope c(w, s); w->hook(H_ODE_SOLVE, 0, 1); } }
    void end() override { { seam::UserScope u; w->hook(H_ODE_END, 0, 0); } { seam::LibScope l; B::end(); } { seam::UserScope u; w->hook(H_ODE_END, 0, 1); } }
};

// User-defined constraints and force generators (simulated user code).
struct CArg { World *w; int id, rows, nb; };
struct UserCon : Constraint {
    World *uw; int uid;
    UserCon(const CArg &a) : Constraint(a.rows, a.nb), uw(a.w), uid(a.id) {}
    void calculate(Output *o, SystemState *s) override {
        seam::UserScope u;
        ConS &c = uw->cons.at(uid);
        LD q[6] = {0}, v[6] = {0}; int b[2] = {-1, -1};
        for (int k = 0; k < m_bodyCount; ++k) {
            RigidBody *r = m_bodies[k]; const int i = b[k] = r->index;
            if (i >= 0) { q[3*k] = s->p_x[i]; q[3*k+1] = s->p_y[i]; q[3*k+2] = s->theta[i]; v[3*k] = s->v_x[i]; v[3*k+1] = s->v_y[i]; v[3*k+2] = s->v_theta[i]; }
            else { q[3*k] = r->p_x; q[3*k+1] = r->p_y; q[3*k+2] = r->theta; }
        }
        Rows R; evalCon(c.d, b, q, v, R);
        // J-dot as a matrix is only needed through its product with the velocity: spread it over
        // the block entries so that the product is exactly Jdv.
        for (int r = 0; r < R.n; ++r) {
            LD vv = 0; for (int k = 0; k < 3 * R.nb; ++k) if (b[k / 3] >= 0) vv += v[k] * v[k];
            for (int k = 0; k < 3 * R.nb; ++k) { o->J[r][k] = (double)R.J[r][k]; o->J_dot[r][k] = vv > 0 ? (double)(R.Jdv[r] * v[k] / vv) : 0; }
            o->C[r] = (double)R.C[r]; o->v_bias[r] = (double)R.vb[r];
            o->limits[r][0] = (double)R.lo[r]; o->limits[r][1] = (double)R.hi[r];
            o->ks[r] = (double)R.ks[r]; o->kd[r] = (double)R.kd[r];
        }
    }
};
struct UserFrc : ForceGenerator {
    World *uw; int uid;
    UserFrc(const CArg &a) : uw(a.w), uid(a.id) {}
    void apply(SystemState *s) override {
        seam::UserScope u;
        FrcS &f = uw->frcs.at(uid);
        auto idx = [&](int b) { auto *x = uw->body(b); return x ? x->o->index : -1; };
        switch (f.d.kind) {
            case DRAG:
                for (auto &kv : uw->bodies) if (kv.second.in) { int i = kv.second.o->index;
                    s->f_x[i] += -f.d.p[0] * s->v_x[i]; s->f_y[i] += -f.d.p[0] * s->v_y[i]; s->t[i] += -f.d.p[1] * s->v_theta[i]; }
                break;
            case FIELD: { int i = idx(f.b[0]); if (i < 0) break; double k = f.d.p[3];
                s->f_x[i] += f.d.p[0] * std::sin(k * s->p_y[i]); s->f_y[i] += f.d.p[1] * std::cos(k * s->p_x[i]); s->t[i] += f.d.p[2] * std::sin(s->theta[i]); break; }
            case PAIR: { int a = idx(f.b[0]), b = idx(f.b[1]); if (a < 0 || b < 0) break;
                double fx = f.d.p[0] * (s->p_x[b] - s->p_x[a]), fy = f.d.p[0] * (s->p_y[b] - s->p_y[a]);
                s->f_x[a] += fx; s->f_y[a] += fy; s->f_x[b] -= fx; s->f_y[b] -= fy; break; }
            case REC: if (uw->cur) {
                Stage st; const int n = st.n = uw->sys->getRigidBodyCount(); st.dt = s->dt;
                st.q.resize(3*n); st.v.resize(3*n); st.a.resize(3*n); st.m.resize(n); st.f.resize(3*n);
                for (int i = 0; i < n; ++i) {
                    st.q[3*i] = s->p_x[i]; st.q[3*i+1] = s->p_y[i]; st.q[3*i+2] = s->theta[i];
                    st.v[3*i] = s->v_x[i]; st.v[3*i+1] = s->v_y[i]; st.v[3*i+2] = s->v_theta[i];
                    st.a[3*i] = s->a_x[i]; st.a[3*i+1] = s->a_y[i]; st.a[3*i+2] = s->a_theta[i]; st.m[i] = s->m[i];
                }
                uw->cur->stages.push_back(std::move(st));
                break; } break;
        }
    }
};
}

Constraint *makeCon(World *w, int id, const ConDesc &d) {
    Constraint *o = nullptr;
    switch (d.kind) {
        case LINK: LIB(o = new PCon<LinkConstraint>(w, id)); break;
        case FIXPOS: LIB(o = new PCon<FixedPositionConstraint>(w, id)); break;
        case FIXROT: LIB(o = new PCon<FixedRotationConstraint>(w, id)); break;
        case LINE: LIB(o = new PCon<LineConstraint>(w, id)); break;
        case ROLL: LIB(o = new PCon<RollingConstraint>(w, id)); break;
        case CLUTCH: LIB(o = new PCon<ClutchConstraint>(w, id)); break;
        case GEAR: LIB(o = new PCon<SimpleGearConstraint>(w, id)); break;
        case CROT: LIB(o = new PCon<ConstantRotationConstraint>(w, id)); break;
        case FRIC: LIB(o = new PCon<RotationFrictionConstraint>(w, id)); break;
        default: { CArg a{w, id, d.nRows(), d.nBodies()}; LIB(o = new PCon<UserCon>(w, id, a)); break; }
    }
    return o;
}
ForceGenerator *makeFrc(World *w, int id, const FrcDesc &d) {
    ForceGenerator *o = nullptr;
    switch (d.kind) {
        case GRAV: LIB(o = new PFrc<GravityForceGenerator>(w, id)); break;
        case STATIC: LIB(o = new PFrc<StaticForceGenerator>(w, id)); break;
        case SPRING: LIB(o = new PFrc<Spring>(w, id)); break;
        case MOTOR: LIB(o = new PFrc<ConstantSpeedMotor>(w, id)); break;
        default: { CArg a{w, id, 0, 0}; LIB(o = new PFrc<UserFrc>(w, id, a)); break; }
    }
    return o;
}

void initSle(World &w) {
    if (w.cfg.sle == GE) { LIB(w.sle = new PSle<GaussianEliminationSleSolver>(&w)); }
    else if (w.cfg.sle == CG) {
        PSle<ConjugateGradientSleSolver> *s; LIB(s = new PSle<ConjugateGradientSleSolver>(&w));
        s->setMaxIterations(w.cfg.maxIter); s->setMaxError(w.cfg.tolA); s->setMinError(w.cfg.tolB); w.sle = s;
    } else {
        PSle<GaussSeidelSleSolver> *s; LIB(s = new PSle<GaussSeidelSleSolver>(&w));
        s->m_maxIterations = w.cfg.maxIter; s->m_minDelta = w.cfg.tolA; w.sle = s;
    }
}
OdeSolver *makeOde(World *w, int kind) {
    OdeSolver *o = nullptr;
    if (kind == EULER) { LIB(o = new POde<EulerOdeSolver>(w)); }
    else if (kind == NSV) { LIB(o = new POde<NsvOdeSolver>(w)); }
    else { LIB(o = new POde<Rk4OdeSolver>(w)); }
    return o;
}
