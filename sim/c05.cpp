// C05: the same plan with different contents of fresh heap and stack memory.
#include "record.h"
#include "execs.h"
using namespace atg_scs;

namespace {
// Public fields of freshly built objects, on the heap and on the (garbage-filled) stack.
struct Dump {
    std::vector<Item> v;
    const char *cls = "";
    int n = 0;
    void d(double x) { uint64_t b; memcpy(&b, &x, 8); v.push_back({0, cls, n, 0, b}); ++n; }
    void l(long x) { v.push_back({0, cls, n, 1, (uint64_t)x}); ++n; }
    void p(const void *x) { l(x != nullptr); }
};
void con(Dump &d, const char *c, Constraint &o) {
    d.cls = c; d.n = 0;
    d.l(o.m_index); d.l(o.m_bodyCount); for (int i = 0; i < o.m_bodyCount; ++i) d.p(o.m_bodies[i]);
    d.l(o.getConstraintCount());
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 2; ++j) { d.d(o.F_x[i][j]); d.d(o.F_y[i][j]); d.d(o.F_t[i][j]); }
}
#define BOTH(T, CODE) { { T *h; LIB(h = new T); T &o = *h; CODE; LIB(delete h); } { seam::poisonStack(); [&]() __attribute__((noinline)) { seam::LibScope l; T o; CODE; }(); } }
void dumpFresh(Dump &d) {
    BOTH(LinkConstraint, { con(d, "LinkConstraint", o); d.d(o.m_ks); d.d(o.m_kd); d.d(o.m_maxForce); });
    BOTH(FixedPositionConstraint, { con(d, "FixedPositionConstraint", o); d.d(o.m_ks); d.d(o.m_kd); });
    BOTH(FixedRotationConstraint, { con(d, "FixedRotationConstraint", o); d.d(o.m_ks); d.d(o.m_kd); d.d(o.m_rotation); });
    BOTH(LineConstraint, { con(d, "LineConstraint", o); d.d(o.m_ks); d.d(o.m_kd); d.d(o.m_local_x); d.d(o.m_local_y); d.d(o.m_p0_x); d.d(o.m_p0_y); d.d(o.m_dx); d.d(o.m_dy); });
    BOTH(RollingConstraint, { con(d, "RollingConstraint", o); d.d(o.m_ks); d.d(o.m_kd); d.d(o.m_local_x); d.d(o.m_local_y); d.d(o.m_dx); d.d(o.m_dy); d.d(o.m_radius); });
    BOTH(ClutchConstraint, { con(d, "ClutchConstraint", o); d.d(o.m_ks); d.d(o.m_kd); d.d(o.m_minTorque); d.d(o.m_maxTorque); });
    BOTH(SimpleGearConstraint, { con(d, "SimpleGearConstraint", o); d.d(o.m_ks); d.d(o.m_kd); d.d(o.m_ratio); d.l(o.m_neutral); });
    BOTH(ConstantRotationConstraint, { con(d, "ConstantRotationConstraint", o); d.d(o.m_ks); d.d(o.m_kd); d.d(o.m_rotationSpeed); d.d(o.m_minTorque); d.d(o.m_maxTorque); });
    BOTH(RotationFrictionConstraint, { con(d, "RotationFrictionConstraint", o); d.d(o.m_ks); d.d(o.m_kd); d.d(o.m_minTorque); d.d(o.m_maxTorque); });
    BOTH(RigidBody, { d.cls = "RigidBody"; d.n = 0; for (double x : {o.p_x, o.p_y, o.v_x, o.v_y, o.theta, o.v_theta, o.m, o.I}) d.d(x); d.l(o.index); });
    BOTH(GravityForceGenerator, { d.cls = "GravityForceGenerator"; d.n = 0; d.l(o.m_index); d.d(o.m_g); });
    BOTH(StaticForceGenerator, { d.cls = "StaticForceGenerator"; d.n = 0; d.l(o.m_index); d.p(o.m_body); });
    BOTH(Spring, { d.cls = "Spring"; d.n = 0; d.l(o.m_index); for (double x : {o.m_restLength, o.m_ks, o.m_kd, o.m_p1_x, o.m_p1_y, o.m_p2_x, o.m_p2_y}) d.d(x); d.p(o.m_body1); d.p(o.m_body2); });
    BOTH(ConstantSpeedMotor, { d.cls = "ConstantSpeedMotor"; d.n = 0; d.l(o.m_index); for (double x : {o.m_ks, o.m_kd, o.m_maxTorque, o.m_speed}) d.d(x); d.p(o.m_body0); d.p(o.m_body1); });
    BOTH(GaussSeidelSleSolver, { d.cls = "GaussSeidelSleSolver"; d.n = 0; d.l(o.m_maxIterations); d.d(o.m_minDelta); d.l(o.supportsLimits()); });
    BOTH(ConjugateGradientSleSolver, { d.cls = "ConjugateGradientSleSolver"; d.n = 0; d.l(o.supportsLimits()); d.l(o.getMaxIterations()); d.d(o.getMaxError()); d.d(o.getMinError()); });
    BOTH(GaussianEliminationSleSolver, { d.cls = "GaussianEliminationSleSolver"; d.n = 0; d.l(o.supportsLimits()); });
    BOTH(SystemState, { d.cls = "SystemState"; d.n = 0; d.l(o.n); d.l(o.n_c); d.d(o.dt); for (const void *x : {(void *)o.indexMap, (void *)o.a_x, (void *)o.a_y, (void *)o.v_x, (void *)o.v_y, (void *)o.p_x, (void *)o.p_y, (void *)o.f_x, (void *)o.f_y, (void *)o.r_x, (void *)o.r_y, (void *)o.r_t, (void *)o.a_theta, (void *)o.v_theta, (void *)o.theta, (void *)o.t, (void *)o.m}) d.p(x); });
    BOTH(Matrix, { d.cls = "Matrix"; d.n = 0; d.l(o.getWidth()); d.l(o.getHeight()); });
    BOTH(SparseMatrix<3>, { d.cls = "SparseMatrix"; d.n = 0; d.l(o.getWidth()); d.l(o.getHeight()); });
    auto sys = [&](const char *c, RigidBodySystem &o) {
        d.cls = c; d.n = 0; d.l(o.getRigidBodyCount()); d.l(o.getConstraintCount()); d.l(o.getForceGeneratorCount()); d.l(o.getFullConstraintCount());
        d.d(o.getOdeSolveMicroseconds()); d.d(o.getConstraintSolveMicroseconds()); d.d(o.getForceEvalMicroseconds()); d.d(o.getConstraintEvalMicroseconds()); };
    BOTH(OptimizedNsvRigidBodySystem, { sys("OptimizedNsvRigidBodySystem", o); d.d(o.m_biasFactor); d.d(o.timeElapsed()); });
    BOTH(GenericRigidBodySystem, { sys("GenericRigidBodySystem", o); });
}

void setFill(const Op &o, int which) { seam::fillMode = (int)o.I(2 * which, which ? 2 : 0) % seam::F_COUNT; seam::fillSeed = (uint64_t)o.I(2 * which + 1, 1); }
const char *fillName(int m) { static const char *n[] = {"zeros", "ones bits", "random bits", "finite numbers", "huge numbers", "0x01 bytes"}; return n[m]; }

struct WorldRun { std::vector<Item> v; };
void exec(const Plan &p) {
    Plan q = p; Op mode("MODE", {0, 0, 1, 2, 2});
    if (!q.ops.empty() && q.ops[0].k == "MODE") { mode = q.ops[0]; q.ops.erase(q.ops.begin()); }
    const int m = (int)mode.I(0);
    Op fills("F"); fills.i.assign(mode.i.begin() + std::min<size_t>(1, mode.i.size()), mode.i.end());
    std::vector<Item> rec[2]; uint64_t hash[2];
    Dump d[2];
    for (int w = 0; w < 2; ++w) {
        setFill(fills, w);
        g_stats((std::string("fault.fresh_memory_holds_") + fillName(seam::fillMode)).c_str());
        seam::nowNs = 1000000000;
        if (m == 0) {
            dumpFresh(d[w]);
            World wd; Recorder r; wd.obs = &r;
            wd.onHook = [](HookKind k, int, int) { seam::nowNs += 137 * (k + 1); };
            wd.onOutput = [&](int id, const Constraint &c, const Constraint::Output &o) {
                for (int i = 0; i < c.getConstraintCount(); ++i) {
                    int k = 100 * i; r.put("constraint output", id, k++, o.C[i]);
                    for (int e = 0; e < 3 * c.m_bodyCount; ++e) { r.put("constraint output", id, k++, o.J[i][e]); r.put("constraint output", id, k++, o.J_dot[i][e]); }
                    for (double x : {o.v_bias[i], o.limits[i][0], o.limits[i][1], o.ks[i], o.kd[i]}) r.put("constraint output", id, k++, x);
                }
            };
            wd.run(q);
            wd.obs = nullptr;
            rec[w] = std::move(r.v);
        } else {
            const uint64_t keep = g_log.h; g_log = Log();
            if (m == 1) execContainers(q, false); else if (m == 2) execSolvers(q, false); else execIntegrators(q, false);
            hash[w] = g_log.h; g_log.h ^= keep;
        }
    }
    char a[60], b[60];
    snprintf(a, sizeof a, "with fresh memory holding %s", fillName(fills.I(0) % seam::F_COUNT));
    snprintf(b, sizeof b, "with %s", fillName(fills.I(2, 2) % seam::F_COUNT));
    if (m == 0) {
        std::string e;
        for (size_t i = 0; i < d[0].v.size() && i < d[1].v.size(); ++i) if (d[0].v[i].bits != d[1].v[i].bits) {
            double x, y; memcpy(&x, &d[0].v[i].bits, 8); memcpy(&y, &d[1].v[i].bits, 8);
            violate("fresh-object", "field %d of a new %s is %.17g (%ld) %s and %.17g (%ld) %s", d[0].v[i].id, d[0].v[i].what, x, (long)d[0].v[i].bits, a, y, (long)d[1].v[i].bits, b);
        }
        e = diffRecords(rec[0], rec[1], a, b);
        if (!e.empty()) violate("memory-dependent", "%s", e.c_str());
        g_stats("observations.compared", rec[0].size() + d[0].v.size());
        if (rec[0].size() > 50) g_nontrivial = true;
    } else {
        if (hash[0] != hash[1]) violate("memory-dependent", "the results of the %s differ between fresh memory holding %s and %s", m == 1 ? "matrices" : m == 2 ? "linear solvers" : "integrators", fillName(fills.I(0) % seam::F_COUNT), fillName(fills.I(2, 2) % seam::F_COUNT));
        g_stats(m == 1 ? "histories.matrices" : m == 2 ? "histories.solvers" : "histories.integrators"); g_nontrivial = true;
    }
}
void gen(Rng &r, Plan &p) {
    const int m = r.chance(0.7) ? 0 : (int)r.range(1, 3);
    long f0 = r.range(0, seam::F_COUNT - 1), f1 = r.range(0, seam::F_COUNT - 1);
    if (r.chance(0.5)) f0 = seam::F_ZERO;
    if (f0 == f1 && f0 != seam::F_RANDOM && f0 != seam::F_FINITE) f1 = f0 == seam::F_ZERO ? seam::F_RANDOM : seam::F_ZERO;
    p.add("MODE", {m, f0, (long)r.below(1000000), f1, (long)r.below(1000000) + 1000000});
    if (m == 0) {
        Knobs k; k.nSteps = 8; k.pFault = r.chance(0.4) ? 0.25 : 0; k.pInit = 0.05; k.pReset = 0.04; k.pBulk = 0.03; k.pRestart = 0.06;
        k.pRecorder = 0.4;
        if (r.chance(0.1)) k.minBodies = k.maxBodies = 1;
        if (r.chance(0.25)) { k.sysMask = 1; k.sleMask = 4; k.pLimits = 0.9; k.pNoLimit = 0.4; k.limitMax = 5; if (r.chance(0.5)) { k.minBodies = 3; k.maxBodies = 5; k.maxCons = 4; k.pBulk = 0; p.ops[0].i[3] = r.chance(0.5) ? seam::F_RANDOM : seam::F_HUGE; p.ops[0].i[1] = seam::F_ZERO; k.conKinds = {r.pick(std::vector<int>{CLUTCH, GEAR, CROT, FRIC, LIN})}; } }
        genWorld(r, p, k);
    } else { Plan q; if (m == 1) genContainers(r, q); else if (m == 2) genSolvers(r, q); else genIntegrators(r, q); for (auto &o : q.ops) p.add(o); }
}
}
PROPERTY(C05, gen, exec)
