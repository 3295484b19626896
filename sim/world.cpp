#include "world.h"
#include "execs.h"
using namespace atg_scs;

void World::hook(HookKind k, int id, int phase) {
    if (cur && phase == 0) {
        if (k == H_FRC) cur->frcCalls[id]++;
        else if (k == H_CON) cur->conCalls[id]++;
        else if (k == H_SLE) cur->sleCalls++;
        else cur->odeCalls[k - H_ODE_START]++;
    }
    if (cur) { g_log.u((uint64_t)k * 1000003 + id * 2 + phase); }
    if (onHook) onHook(k, id, phase);
    if (faultHook > 0 && --faultHook == 0) {
        faultHook = -1; if (cur) cur->faultFired = true;
        g_stats("fault.callback_throw");
        throw SimFault{(int)k};
    }
}

// A new object keeps the initial parameters the reference expects of it where these are what is wanted.
static void put(bool fresh, double &field, double v, double initial) { if (!fresh || v != initial) field = v; }

// ------------------------------------------------------------------ life cycle
void World::configure(const Op &o) {
    cfg.sys = o.I(0); cfg.ode = o.I(1); cfg.sle = o.I(2);
    cfg.bias = o.X(0, 0.5); cfg.tolA = o.X(1, 1e-9); cfg.tolB = o.X(2, 1e-11);
    if (o.i.size() > 3) cfg.maxIter = o.I(3);
    makeSystem();
    g_stats(cfg.sys == OPT ? "world.velocity_bias_system" : "world.generic_system");
    g_stats(cfg.sle == GE ? "world.gaussian_elimination" : cfg.sle == CG ? "world.conjugate_gradient" : "world.gauss_seidel");
    if (cfg.sys == GEN) g_stats(cfg.ode == EULER ? "world.euler" : cfg.ode == NSV ? "world.nsv" : "world.rk4");
}

static void initSys(World &w) {
    if (w.cfg.sys == OPT) static_cast<OptimizedNsvRigidBodySystem *>(w.sys)->initialize(w.sle);
    else static_cast<GenericRigidBodySystem *>(w.sys)->initialize(w.sle, w.ode);
}

void World::makeSystem() {
    if (ownSle || !sle) initSle(*this);
    if (cfg.sys == OPT) { OptimizedNsvRigidBodySystem *s; LIB(s = new OptimizedNsvRigidBodySystem); put(true, s->m_biasFactor, cfg.bias, 1); sys = s; }
    else {
        LIB(sys = new GenericRigidBodySystem);
        if (ownOde || !ode) ode = makeOde(this, cfg.ode);
    }
    LIB(initSys(*this));
}

void World::dropSystem() {
    if (sys) { LIB(delete sys); sys = nullptr; }
    if (ode && ownOde) { LIB(delete ode); ode = nullptr; }
    if (sle && ownSle) { LIB(delete sle); sle = nullptr; }
}

void World::restart() {
    auto bs = sysBodies(); auto cs = sysCons(); auto fs = sysFrcs();
    dropSystem();
    makeSystem();
    for (auto *b : bs) { LIB(sys->addRigidBody(b->o)); }
    for (auto *c : cs) { LIB(sys->addConstraint(c->o)); }
    for (auto *f : fs) { LIB(sys->addForceGenerator(f->o)); }
}

// order: a system owns nothing, so its members and tools may go first; bits 1 members before the system,
// 2 tools before the system too, 4 the system is reset in between, 8 and used once more, 16/32/64 the order among the members
void World::destroyAll(int order) {
    if (!alive) return;
    alive = false;
    if (!(order & 1)) dropSystem();
    auto drop = [&](int what) {
        if (what == 0) for (auto &k : cons) { LIB(delete k.second.o); }
        if (what == 1) for (auto &k : frcs) { LIB(delete k.second.o); }
        if (what == 2) for (auto &k : bodies) { LIB(delete k.second.o); }
    };
    int which[3] = {0, 1, 2};
    if (order & 16) std::swap(which[0], which[2]);
    if (order & 32) std::swap(which[0], which[1]);
    if (order & 64) std::swap(which[1], which[2]);
    for (int w : which) drop(w);
    if ((order & 5) == 5 && sys) {
        LIB(sys->reset());
        if (order & 8) {
            RigidBody *b; LIB(b = new RigidBody; b->reset(); b->m = 2; b->I = 3; b->v_x = 1);
            withAllocFailure(-1, 0, [&] { sys->addRigidBody(b); if (cfg.sys == OPT || ode) sys->process(0.01, 1); });
            LIB(delete b);
        }
        g_stats("teardown.reset_after_members");
    }
    if ((order & 3) == 3) { if (ode && ownOde) { LIB(delete ode); ode = nullptr; } if (sle && ownSle) { LIB(delete sle); sle = nullptr; } }
    if (order & 1) { dropSystem(); g_stats("teardown.members_first"); }
    cons.clear(); frcs.clear(); bodies.clear();
}
World::~World() { if (!std::uncaught_exceptions()) destroyAll(); }

double World::elapsed() const { return cfg.sys == OPT ? static_cast<OptimizedNsvRigidBodySystem *>(sys)->timeElapsed() : 0; }

// ------------------------------------------------------------------ membership
std::vector<BodyS *> World::sysBodies() {
    std::vector<BodyS *> v;
    for (auto &k : bodies) if (k.second.in) v.push_back(&k.second);
    std::sort(v.begin(), v.end(), [](BodyS *a, BodyS *b) { return a->o->index < b->o->index; });
    return v;
}
std::vector<ConS *> World::sysCons() {
    std::vector<ConS *> v;
    for (auto &k : cons) if (k.second.in) v.push_back(&k.second);
    std::sort(v.begin(), v.end(), [](ConS *a, ConS *b) { return a->o->m_index < b->o->m_index; });
    return v;
}
std::vector<FrcS *> World::sysFrcs() {
    std::vector<FrcS *> v;
    for (auto &k : frcs) if (k.second.in) v.push_back(&k.second);
    std::sort(v.begin(), v.end(), [](FrcS *a, FrcS *b) { return a->o->m_index < b->o->m_index; });
    return v;
}
int World::rowsInstalled() const { int n = 0; for (auto &k : cons) if (k.second.in) n += k.second.d.nRows(); return n; }

// An addition that runs out of memory is repeated.
template <class F> static void addFailing(World &w, F f) {
    if (w.editFailAt > 0) {
        const uint64_t before = seam::allocFailed;
        seam::failAt = w.editFailAt; seam::failEvery = w.editFailBurst; w.editFailAt = -1;
        bool ok = true;
        try { LIB(f()); } catch (const std::bad_alloc &) { ok = false; }
        seam::failAt = -1; seam::failEvery = 0;
        if (seam::allocFailed != before) g_stats("fault.alloc_fail", seam::allocFailed - before);
        if (ok) return;
        g_stats("op.failed_addition");
    }
    LIB(f());
}
void World::addBody(BodyS &b) { if (b.in) return; addFailing(*this, [&] { sys->addRigidBody(b.o); }); b.in = true; }
void World::remBody(BodyS &b) {
    if (!b.in) return;
    b.in = false;
    std::vector<ConS *> dc; std::vector<FrcS *> df;
    for (auto &k : cons) if (k.second.in && !conAllowed(k.second)) dc.push_back(&k.second);
    for (auto &k : frcs) if (k.second.in && !frcAllowed(k.second)) df.push_back(&k.second);
    b.in = true;
    for (auto *c : dc) remCon(*c);
    for (auto *f : df) remFrc(*f);
    LIB(sys->removeRigidBody(b.o));
    b.in = false;
}
bool World::conAllowed(const ConS &c) {
    int in = 0;
    for (int k = 0; k < c.d.nBodies(); ++k) { auto *b = body(c.b[k]); if (!b) return false; if (b->in) ++in; else if (c.d.nBodies() == 1) return false; }
    if (c.d.nBodies() == 2 && c.b[0] == c.b[1]) return false;
    return in > 0;
}
bool World::frcAllowed(const FrcS &f) {
    auto in = [&](int id) { auto *b = body(id); return b && b->in; };
    auto ex = [&](int id) { return body(id) != nullptr; };
    switch (f.d.kind) {
        case STATIC: return in(f.b[0]);
        case SPRING: return (f.b[0] < 0 || ex(f.b[0])) && (f.b[1] < 0 || ex(f.b[1]));     // an end that is attached to nothing is allowed
        case MOTOR: return ex(f.b[0]) && in(f.b[1]) && f.b[0] != f.b[1];
        case FIELD: return ex(f.b[0]);
        case PAIR: return ex(f.b[0]) && ex(f.b[1]) && f.b[0] != f.b[1];
        default: return true;
    }
}
void World::addCon(ConS &c) { if (c.in || !conAllowed(c)) return; addFailing(*this, [&] { sys->addConstraint(c.o); }); c.in = true; conOrder.push_back(c.id); }
void World::remCon(ConS &c) {
    if (!c.in) return;
    LIB(sys->removeConstraint(c.o)); c.in = false;
    conOrder.erase(std::remove(conOrder.begin(), conOrder.end(), c.id), conOrder.end());
}
void World::addFrc(FrcS &f) { if (f.in || !frcAllowed(f)) return; addFailing(*this, [&] { sys->addForceGenerator(f.o); }); f.in = true; if (f.d.kind == REC) recorderOn = true; }
void World::remFrc(FrcS &f) { if (!f.in) return; LIB(sys->removeForceGenerator(f.o)); f.in = false; if (f.d.kind == REC) recorderOn = false; }

// ------------------------------------------------------------------ parameters
// Geometry is snapped to the bodies' current poses so that joints start (nearly) satisfied.
void World::applyCon(ConS &c, const Op &o, bool fresh) {
    ConDesc &d = c.d;
    auto *B0 = body(c.b[0]), *B1 = d.nBodies() > 1 ? body(c.b[1]) : nullptr;
    RigidBody *a = B0 ? B0->o : nullptr, *b = B1 ? B1->o : nullptr;
    if (!a || (d.nBodies() > 1 && !b)) return;
    auto W = [](RigidBody *r, double x, double y, double &wx, double &wy) { double cs = std::cos(r->theta), sn = std::sin(r->theta); wx = r->p_x + cs * x - sn * y; wy = r->p_y + sn * x + cs * y; };
    auto L = [](RigidBody *r, double x, double y, double &lx, double &ly) { double cs = std::cos(r->theta), sn = std::sin(r->theta); double dx = x - r->p_x, dy = y - r->p_y; lx = cs * dx + sn * dy; ly = -sn * dx + cs * dy; };
    // Limits from A, B: 0 none, positive the usual side, -1 zero, below that a bound on the other side of zero.
    auto limits = [](double A, double B, double &lo, double &hi) {
        lo = A > 0 ? -A : A == 0 ? -INFLIM : -A - 1;
        hi = B > 0 ? B : B == 0 ? INFLIM : B + 1;
        if (hi < lo) hi = lo;
    };
    // x: 0 lx 1 ly 2 noise1 3 noise2 4 noise3 5 ks 6 kd 7 A 8 B
    const double lx = o.X(0), ly = o.X(1), n1 = o.X(2), n2 = o.X(3), n3 = o.X(4), A = o.X(7), Bv = o.X(8);
    d.ks = o.X(5, 10); d.kd = o.X(6, 1);
    double wx, wy;
    switch (d.kind) {
        case LINK:
            W(a, lx, ly, wx, wy); d.p[0] = lx; d.p[1] = ly; L(b, wx + n1, wy + n2, d.p[2], d.p[3]);
            d.p[4] = A > 0 ? A : A < 0 ? 0 : INFLIM; break;
        case WELD:
            W(a, lx, ly, wx, wy); d.p[0] = lx; d.p[1] = ly; L(b, wx + n1, wy + n2, d.p[2], d.p[3]);
            d.p[4] = b->theta - a->theta + n3; break;
        case FIXPOS: W(a, lx, ly, wx, wy); d.p[0] = lx; d.p[1] = ly; d.p[2] = wx + n1; d.p[3] = wy + n2; break;
        case FIXROT: d.p[0] = a->theta + n1; break;
        case LINE: {
            W(a, lx, ly, wx, wy); const double len = Bv > 0 ? Bv : 1, far = std::hypot(wx, wy);
            const bool origin = n2 == 0 && n3 == 0 && std::fabs(A) > 1.6 && far > 0.1;          // a line through the origin
            const double ang = origin ? std::atan2(wy, wx) + n1 / far : A, dx = std::cos(ang), dy = std::sin(ang);
            d.p[0] = lx; d.p[1] = ly; d.p[2] = origin ? 0 : wx - 0.37 * dx + n1 * dy; d.p[3] = origin ? 0 : wy - 0.37 * dy - n1 * dx; d.p[4] = dx * len; d.p[5] = dy * len; break; }
        case ROLL: {
            const double r = Bv != 0 ? Bv : 0.5, ang = A;
            const double wd = ang + a->theta, dx = std::cos(wd), dy = std::sin(wd);
            const double s = -r * (b->theta - a->theta) + n1;
            // origin such that delta.dir = s and delta.perp = r + n2
            const double ox = b->p_x - dx * s + dy * (r + n2), oy = b->p_y - dy * s - dx * (r + n2);
            L(a, ox, oy, d.p[0], d.p[1]); d.p[2] = std::cos(ang); d.p[3] = std::sin(ang); d.p[4] = r; break; }
        case CLUTCH: case FRIC: limits(A, Bv, d.p[0], d.p[1]); break;
        case GEAR: d.p[0] = A; d.p[1] = Bv; break;
        case CROT: d.p[0] = n1 * 100; limits(A, Bv, d.p[1], d.p[2]); break;
        case LIN: {
            Rng r((uint64_t)o.I(5) * 77 + 3);
            for (int k = 0; k < d.rows; ++k) {
                double c0 = 0;
                for (int e = 0; e < 3 * d.nb; ++e) {
                    d.Jl[k][e] = r.chance(0.15) ? 0 : r.real(-1.5, 1.5);
                    RigidBody *rb = e < 3 ? a : b; double q = e % 3 == 0 ? rb->p_x : e % 3 == 1 ? rb->p_y : rb->theta;
                    c0 += d.Jl[k][e] * q;
                }
                if (d.Jl[k][0] == 0 && d.Jl[k][1] == 0) d.Jl[k][k % 3] += 1, c0 += k % 3 == 0 ? a->p_x : k % 3 == 1 ? a->p_y : a->theta;
                d.c0[k] = c0 + n1 * (k + 1); d.vb[k] = n2 * 20 * (k - 0.5);
                limits(A, Bv, d.lo[k], d.hi[k]);
            }
            break; }
    }
    pushConParams(c, fresh);
}

void World::pushConParams(ConS &c, bool fresh) {
    ConDesc &d = c.d;
    Constraint *o = c.o;
    auto *B0 = body(c.b[0]), *B1 = d.nBodies() > 1 ? body(c.b[1]) : nullptr;
    RigidBody *a = B0 ? B0->o : nullptr, *b = B1 ? B1->o : nullptr;
    const double *p = d.p;
    auto spring = [&](auto *x) { put(fresh, x->m_ks, d.ks, 10); put(fresh, x->m_kd, d.kd, 1); };
    auto torque = [&](auto *x, double lo, double hi) { put(fresh, x->m_minTorque, lo, -INFLIM); put(fresh, x->m_maxTorque, hi, INFLIM); };
    auto at = [&](double x, double y) { return !fresh || x != 0 || y != 0; };
    switch (d.kind) {
        case LINK: { auto *x = static_cast<LinkConstraint *>(o); x->setBody1(a); x->setBody2(b); if (at(p[0], p[1])) x->setLocalPosition1(p[0], p[1]); if (at(p[2], p[3])) x->setLocalPosition2(p[2], p[3]); put(fresh, x->m_maxForce, p[4], INFLIM); spring(x); break; }
        case FIXPOS: { auto *x = static_cast<FixedPositionConstraint *>(o); x->setBody(a); if (at(p[0], p[1])) x->setLocalPosition(p[0], p[1]); if (at(p[2], p[3])) x->setWorldPosition(p[2], p[3]); spring(x); break; }
        case FIXROT: { auto *x = static_cast<FixedRotationConstraint *>(o); x->setBody(a); put(fresh, x->m_rotation, p[0], 0); spring(x); break; }
        case LINE: { auto *x = static_cast<LineConstraint *>(o); x->setBody(a); double *f[] = {&x->m_local_x, &x->m_local_y, &x->m_p0_x, &x->m_p0_y, &x->m_dx, &x->m_dy}; for (int k = 0; k < 6; ++k) put(fresh, *f[k], p[k], 0); spring(x); break; }
        case ROLL: { auto *x = static_cast<RollingConstraint *>(o); x->setBaseBody(a); x->setRollingBody(b); double *f[] = {&x->m_local_x, &x->m_local_y, &x->m_dx, &x->m_dy, &x->m_radius}; for (int k = 0; k < 5; ++k) put(fresh, *f[k], p[k], 0); spring(x); break; }
        case CLUTCH: { auto *x = static_cast<ClutchConstraint *>(o); x->setBody1(a); x->setBody2(b); torque(x, p[0], p[1]); spring(x); break; }
        case GEAR: { auto *x = static_cast<SimpleGearConstraint *>(o); x->setBody1(a); x->setBody2(b); put(fresh, x->m_ratio, p[0], 1); if (!fresh || p[1] != 0) x->m_neutral = p[1] != 0; spring(x); break; }
        case CROT: { auto *x = static_cast<ConstantRotationConstraint *>(o); x->setBody(a); put(fresh, x->m_rotationSpeed, p[0], 0); torque(x, p[1], p[2]); spring(x); break; }
        case FRIC: { auto *x = static_cast<RotationFrictionConstraint *>(o); x->setBody(a); torque(x, p[0], p[1]); spring(x); break; }
        default: o->m_bodies[0] = a; if (d.nBodies() > 1) o->m_bodies[1] = b; break;
    }
}

void World::applyFrc(FrcS &f, const Op &o, bool fresh) {
    for (size_t k = 0; k < 10 && k < o.x.size(); ++k) f.d.p[k] = o.x[k];
    if (f.d.kind == SPRING && f.d.p[0] < 0) {       // negative rest length: natural length at the current poses
        auto *a = body(f.b[0]), *b = body(f.b[1]);
        if (a && b) {
            double x1, y1, x2, y2; LIB(a->o->localToWorld(f.d.p[3], f.d.p[4], &x1, &y1)); LIB(b->o->localToWorld(f.d.p[5], f.d.p[6], &x2, &y2));
            f.d.p[0] = std::hypot(x2 - x1, y2 - y1) * -f.d.p[0];
        } else f.d.p[0] = 1;
    }
    pushFrcParams(f, fresh);
}
void World::pushFrcParams(FrcS &f, bool fresh) {
    auto *B0 = body(f.b[0]), *B1 = body(f.b[1]);
    RigidBody *a = B0 ? B0->o : nullptr, *b = B1 ? B1->o : nullptr;
    const double *p = f.d.p;
    auto end = [&](RigidBody *&e, RigidBody *to) { if (!fresh || to) e = to; };
    switch (f.d.kind) {
        case GRAV: put(fresh, static_cast<GravityForceGenerator *>(f.o)->m_g, p[0], 9.81); break;
        case STATIC: { auto *x = static_cast<StaticForceGenerator *>(f.o); if (!fresh || p[0] != 0 || p[1] != 0) x->setForce(p[0], p[1]); if (!fresh || p[2] != 0 || p[3] != 0) x->setPosition(p[2], p[3]); x->m_body = a; break; }
        case SPRING: { auto *x = static_cast<Spring *>(f.o); double *g[] = {&x->m_restLength, &x->m_ks, &x->m_kd, &x->m_p1_x, &x->m_p1_y, &x->m_p2_x, &x->m_p2_y}; for (int k = 0; k < 7; ++k) put(fresh, *g[k], p[k], k ? 0 : 1); end(x->m_body1, a); end(x->m_body2, b); break; }
        case MOTOR: { auto *x = static_cast<ConstantSpeedMotor *>(f.o); put(fresh, x->m_ks, p[0], 1); put(fresh, x->m_kd, p[1], 1); put(fresh, x->m_maxTorque, p[2], 500); put(fresh, x->m_speed, p[3], 1); x->m_body0 = a; x->m_body1 = b; break; }
        default: break;
    }
}

// ------------------------------------------------------------------ operations
void World::exec(const Op &o) {
    const std::string &k = o.k;
    if (k == "CFG") { if (!sys) configure(o); return; }
    if (!sys) return;
    if (k == "STEP") { step(o); return; }
    bool edit = true;
    if (k == "BODY") {
        if (bodies.count(o.I(0))) return;
        BodyS b; b.id = o.I(0); b.in = false; LIB(b.o = new RigidBody);
        double *f[] = {&b.o->p_x, &b.o->p_y, &b.o->theta, &b.o->v_x, &b.o->v_y, &b.o->v_theta, &b.o->m, &b.o->I};
        for (int i = 0; i < 8; ++i) put(true, *f[i], o.X(i, i < 6 ? 0 : 1), 0);
        BodyS &r = bodies[b.id] = b;
        if (o.I(1, 1)) addBody(r);
    } else if (k == "BULK") {           // many free bodies: id0 count | m
        for (int i = 0; i < o.I(1); ++i) {
            int id = o.I(0) + i; if (bodies.count(id)) continue;
            BodyS b; b.id = id; b.in = false; LIB(b.o = new RigidBody);
            b.o->p_x = 2 + i % 20; b.o->p_y = i / 20; b.o->theta = 0.01 * i; b.o->v_x = 0.1 * (i % 7); b.o->v_y = -0.1 * (i % 5); b.o->v_theta = 0.05 * (i % 3); b.o->m = o.X(0, 1) + 0.01 * i; b.o->I = 1 + 0.02 * i;
            BodyS &r = bodies[id] = b; addBody(r);
        }
        g_stats("op.bulk_bodies");
    } else if (k == "ADDB") { if (auto *b = body(o.I(0))) addBody(*b); }
    else if (k == "REMB") { if (auto *b = body(o.I(0))) { if (b->in) g_stats("op.remove_body"); remBody(*b); } }
    else if (k == "DELB") {
        if (auto *b = body(o.I(0))) {
            remBody(*b);
            std::vector<int> dc, df;
            for (auto &c : cons) if (c.second.b[0] == b->id || (c.second.d.nBodies() > 1 && c.second.b[1] == b->id)) dc.push_back(c.first);
            for (auto &f : frcs) if (f.second.b[0] == b->id || f.second.b[1] == b->id) df.push_back(f.first);
            for (int i : dc) { remCon(cons[i]); LIB(delete cons[i].o); cons.erase(i); }
            for (int i : df) { remFrc(frcs[i]); LIB(delete frcs[i].o); frcs.erase(i); }
            LIB(delete b->o); bodies.erase(o.I(0));
            g_stats("op.delete_body");
        }
    } else if (k == "CON") {            // id kind in b0 b1 seed rows nb | ...
        if (cons.count(o.I(0))) return;
        ConS c; c.id = o.I(0); c.d.kind = o.I(1); c.d.rows = std::max(1L, std::min(3L, o.I(6, 1))); c.d.nb = std::max(1L, std::min(2L, o.I(7, 1)));
        c.b[0] = o.I(3); c.b[1] = o.I(4); c.in = false; c.o = nullptr;
        if (!body(c.b[0]) || (c.d.nBodies() > 1 && (!body(c.b[1]) || c.b[0] == c.b[1]))) return;
        c.o = makeCon(this, c.id, c.d);
        ConS &r = cons[c.id] = c;
        applyCon(r, o, true);
        if (o.I(2, 1)) addCon(r);
    } else if (k == "ADDC") { auto i = cons.find(o.I(0)); if (i != cons.end()) addCon(i->second); }
    else if (k == "REMC") { auto i = cons.find(o.I(0)); if (i != cons.end()) { remCon(i->second); g_stats("op.remove_constraint"); } }
    else if (k == "DELC") { auto i = cons.find(o.I(0)); if (i != cons.end()) { remCon(i->second); LIB(delete i->second.o); cons.erase(i); } }
    else if (k == "SETC") {             // like CON, in place (bodies may be re-bound)
        auto i = cons.find(o.I(0));
        if (i != cons.end()) {
            ConS &c = i->second; int ob[2] = {c.b[0], c.b[1]};
            c.b[0] = o.I(3, ob[0]); c.b[1] = o.I(4, ob[1]);
            if (!conAllowed(c)) { c.b[0] = ob[0]; c.b[1] = ob[1]; }
            if (body(c.b[0]) && (c.d.nBodies() < 2 || body(c.b[1]))) { applyCon(c, o, false); g_stats("op.edit_constraint"); }
        }
    } else if (k == "FRC") {            // id kind in b0 b1 | ...
        if (frcs.count(o.I(0))) return;
        FrcS f; f.id = o.I(0); f.d.kind = o.I(1); f.b[0] = o.I(3, -1); f.b[1] = o.I(4, -1); f.in = false; f.o = nullptr;
        if (!frcAllowed(f) && f.d.kind != MOTOR && f.d.kind != STATIC) return;
        if ((f.d.kind == MOTOR || f.d.kind == STATIC) && !body(f.b[0])) return;
        if (f.d.kind == MOTOR && (!body(f.b[1]) || f.b[0] == f.b[1])) return;
        f.o = makeFrc(this, f.id, f.d);
        FrcS &r = frcs[f.id] = f;
        applyFrc(r, o, true);
        if (o.I(2, 1)) addFrc(r);
    } else if (k == "ADDF") { auto i = frcs.find(o.I(0)); if (i != frcs.end()) addFrc(i->second); }
    else if (k == "REMF") { auto i = frcs.find(o.I(0)); if (i != frcs.end()) { remFrc(i->second); g_stats("op.remove_force"); } }
    else if (k == "DELF") { auto i = frcs.find(o.I(0)); if (i != frcs.end()) { remFrc(i->second); LIB(delete i->second.o); frcs.erase(i); } }
    else if (k == "SETF") {             // like FRC, in place (ends may be re-bound)
        auto i = frcs.find(o.I(0));
        if (i != frcs.end()) {
            FrcS &f = i->second; int ob[2] = {f.b[0], f.b[1]};
            f.b[0] = o.I(3, ob[0]); f.b[1] = o.I(4, ob[1]);
            auto there = [&](int id) { return body(id) != nullptr; };
            if (!frcAllowed(f) || (f.d.kind == MOTOR || f.d.kind == STATIC) && !there(f.b[0])) { f.b[0] = ob[0]; f.b[1] = ob[1]; }
            applyFrc(f, o, false); g_stats("op.edit_force");
        }
    }
    else if (k == "KICK") { if (auto *b = body(o.I(0))) { b->o->v_x += o.X(0); b->o->v_y += o.X(1); b->o->v_theta += o.X(2); g_stats("op.kick"); } }
    else if (k == "MOVE") { if (auto *b = body(o.I(0))) { b->o->p_x += o.X(0); b->o->p_y += o.X(1); b->o->theta += o.X(2); g_stats("op.teleport"); } }
    else if (k == "MASS") { if (auto *b = body(o.I(0))) { b->o->m = o.X(0, 1); b->o->I = o.X(1, 1); g_stats("op.mass_change"); } }
    else if (k == "BIAS") { cfg.bias = o.X(0, 0.5); if (cfg.sys == OPT) static_cast<OptimizedNsvRigidBodySystem *>(sys)->m_biasFactor = cfg.bias; }
    else if (k == "ROWS") { opt.maxCon = (int)std::max(1L, std::min(400L, o.I(0, 24))); return; }
    else if (k == "GAP") { opt.maxGap = std::max(0.0, std::min(1e3, o.X(0, 3))); return; }
    else if (k == "AFAIL") { editFailAt = o.I(0, 1); editFailBurst = o.I(1); return; }
    else if (k == "RESTART") { if (!opt.ignoreRestart) { restart(); g_stats("fault.restart"); } }
    else if (k == "INIT") {             // re-initialise with a new solver (and integrator) of the given kind
        if (ownSle && ownOde) {
            SleSolver *old = sle; OdeSolver *oldOde = ode; cfg.sle = o.I(0);
            cfg.tolA = o.X(0, cfg.tolA); cfg.tolB = o.X(1, cfg.tolB);
            initSle(*this);
            if (cfg.sys == GEN) {
                cfg.ode = o.I(1, cfg.ode);
                ode = makeOde(this, cfg.ode);
            }
            LIB(initSys(*this));
            LIB(delete old); if (cfg.sys == GEN) { LIB(delete oldOde); }
            g_stats("op.reinitialize");
        }
    } else if (k == "RESET") {          // reset() and re-install in the given rotation
        auto bs = sysBodies(); auto cs = sysCons(); auto fs = sysFrcs();
        LIB(sys->reset());
        auto rot = [&](auto &v) { if (!v.empty()) std::rotate(v.begin(), v.begin() + o.I(0) % v.size(), v.end()); };
        rot(bs); rot(cs); rot(fs);
        for (auto *b : bs) { LIB(sys->addRigidBody(b->o)); }
        for (auto *c : cs) { LIB(sys->addConstraint(c->o)); }
        for (auto *f : fs) { LIB(sys->addForceGenerator(f->o)); }
        g_stats("op.reset");
    } else edit = false;
    if (edit && obs) obs->afterEdit(*this, o);
}

// ------------------------------------------------------------------ stepping
// Keeps the run inside the region where the library promises something: independent,
// reasonably conditioned constraints and moderate velocities. Deterministic given the state.
bool World::heal(double dt, int steps) {
    auto sb = sysBodies();
    for (size_t i = 0; i < sb.size(); ++i) if (sb[i]->o->index != (int)i) violate("index", "body %d is installed with index %d; %d bodies are installed", sb[i]->id, sb[i]->o->index, (int)sb.size());
    for (auto &k : cons) if (k.second.in && !conAllowed(k.second)) remCon(k.second);
    double vm = 0, wm = 0, pm = 0;
    for (auto &k : bodies) if (k.second.in) {
        RigidBody *b = k.second.o;
        for (double v : {b->v_x, b->v_y}) vm = std::max(vm, std::fabs(v));
        wm = std::max(wm, std::fabs(b->v_theta));
        for (double v : {b->p_x, b->p_y, b->theta}) pm = std::max(pm, std::fabs(v));
    }
    if (pm > 2000) {
        for (auto &k : bodies) if (k.second.in) {
            RigidBody *b = k.second.o; const double f = 100 / pm;
            b->p_x *= f; b->p_y *= f; b->theta *= f; b->v_x = b->v_y = b->v_theta = 0;
        }
        g_stats("heal.position"); vm = wm = 0;
    }
    const double lim = std::min(opt.vmax, 2.0 / dt), wl = std::min(opt.vmax, 0.6 / dt);
    const double f = std::min(vm > lim ? lim / vm : 1.0, wm > wl ? wl / wm : 1.0);
    if (f < 1) { for (auto &k : bodies) if (k.second.in) { k.second.o->v_x *= f; k.second.o->v_y *= f; k.second.o->v_theta *= f; } g_stats("heal.velocity"); }
    while (!conOrder.empty()) {
        if (rowsInstalled() <= opt.maxCon) {
            Problem p; RState s = refState(); refRows(s, p);
            bool big = false;
            const double rot = std::max(3.0, std::min(12.0, 400 * dt / steps));        // angles may be off by whole turns
            int ci = 0; const auto scs = sysCons();
            for (auto &r : p.rows) { const int kd = scs[ci++]->d.kind; for (int k = 0; k < r.n; ++k) if (fabsl(r.C[k]) > (kd == FIXROT || (kd == ROLL && k == 0) || (kd == WELD && k == 2) ? rot : opt.maxGap)) big = true; }
            if (!big) { buildProblem(s, p); if (p.ok && p.cond < opt.condLimit[cfg.sle]) break; }
        }
        g_stats("heal.constraint");
        remCon(cons.at(conOrder.back()));
    }
    if (steps * stageCount() > 1 && !dryRun(dt, steps)) {
        for (auto &k : bodies) if (k.second.in) k.second.o->v_x = k.second.o->v_y = k.second.o->v_theta = 0;
        g_stats("heal.stop");
        if (!dryRun(dt, steps)) { g_stats("heal.skip"); return false; }
    }
    return true;
}

// The frame as the reference sees it; false if it leaves the well-behaved region on the way.
bool World::dryRun(double dt, int steps) { RState s = refState(); return refFrame(s, (LD)(dt / steps), steps); }
bool World::refFrame(RState &s, LD h, int steps) {
    const int n3 = 3 * s.n, nst = stageCount();
    auto fine = [&](const RefEval &e) {
        if (!e.ok || e.p.cond > 4 * opt.condLimit[cfg.sle]) return false;
        for (int k = 0; k < n3; ++k) if (!(fabsl(e.vNew[k]) < 2000) || !(fabsl(e.a[k]) * h < 500)) return false;
        for (auto &x : e.lam) if (!(fabsl(x) < 1e8)) return false;
        return true;
    };
    for (int i = 0; i < steps; ++i) {
        const RState b = s; std::vector<LD> av(n3, 0), aq(n3, 0);
        const LD f[4] = {h / 2, h / 2, h, 0}, c[4] = {1, 2, 2, 1};
        for (int g = 0; g < nst; ++g) {
            RefEval e; refEval(*this, s, (double)h, e);
            if (!fine(e)) return false;
            if (cfg.sys == OPT) { for (int k = 0; k < n3; ++k) { s.a[k] = (e.vNew[k] - s.v[k]) / h; s.v[k] = e.vNew[k]; s.q[k] += h * s.v[k]; } }
            else {
                s.a = e.a;
                if (cfg.ode == EULER) for (int k = 0; k < n3; ++k) { s.q[k] += h * s.v[k]; s.v[k] += h * e.a[k]; }
                else if (cfg.ode == NSV) for (int k = 0; k < n3; ++k) { s.v[k] += h * e.a[k]; s.q[k] += h * s.v[k]; }
                else {
                    for (int k = 0; k < n3; ++k) { aq[k] += c[g] * s.v[k]; av[k] += c[g] * e.a[k]; }
                    for (int k = 0; k < n3; ++k) {
                        const LD v = s.v[k];
                        s.q[k] = g < 3 ? b.q[k] + f[g] * v : b.q[k] + h / 6 * aq[k];
                        s.v[k] = g < 3 ? b.v[k] + f[g] * e.a[k] : b.v[k] + h / 6 * av[k];
                    }
                }
            }
            for (int k = 0; k < n3; ++k) if (!(fabsl(s.v[k]) < 2000)) return false;
        }
    }
    return true;
}

// Whatever step() does to the world before it really steps; false: the step is skipped.
bool World::gate(const Op &o) {
    const int steps = std::max(1L, std::min(400L, o.I(0, 1)));
    const double dt = o.X(0, 0.01);
    if (!sys || !(dt > 0) || !(dt < 10)) return false;
    return !opt.heal || heal(dt, steps);
}

void World::step(const Op &o) {
    // STEP steps faultKind faultAt burst | dt
    const int steps = std::max(1L, std::min(400L, o.I(0, 1)));
    const double dt = o.X(0, 0.01);
    const int fk = o.I(1);
    if (!gate(o)) { if (obs) obs->afterEdit(*this, o); return; }     // skipped; bodies may have been slowed down
    StepObs ob; ob.dt = dt; ob.steps = steps;
    if (!opt.noSnap) ob.pre = snap();
    if (obs) obs->beforeStep(*this, ob);
    cur = &ob;
    const uint64_t failedBefore = seam::allocFailed;
    seam::failAt = -1; faultHook = -1;
    if (fk == FT_ALLOC || fk == FT_ALLOC_BURST) { seam::failAt = std::max(1L, o.I(2)); seam::failEvery = fk == FT_ALLOC_BURST ? o.I(3, 3) : 0; }
    if (fk == FT_HOOK) faultHook = std::max(1L, o.I(2));
    seam::edgeBudget = seam::edges + 6000000000ull;
    try { LIB(sys->process(dt, steps)); ob.completed = true; }
    catch (const std::bad_alloc &) { ob.threw = 1; }
    catch (const SimFault &) { ob.threw = 2; }
    seam::failAt = -1; seam::failEvery = 0; faultHook = -1;
    if (seam::allocFailed != failedBefore) { ob.faultFired = true; g_stats("fault.alloc_fail", seam::allocFailed - failedBefore); }
    cur = nullptr;
    if (!opt.noSnap) ob.post = snap();
    if (ob.completed) {
        ++stepsDone; simTime += dt; g_stats("steps.completed"); g_stats.sum("sim_seconds", dt);
        for (auto &k : bodies) { RigidBody *b = k.second.o; for (double v : {b->p_x, b->p_y, b->theta, b->v_x, b->v_y, b->v_theta}) g_log.d(v); }
    } else g_stats("steps.failed");
    g_sig.u(steps * 131 + fk * 7 + ob.threw); g_sig.u(rowsInstalled() * 64 + sys->getRigidBodyCount());
    for (auto *c : sysCons()) g_sig.u(c->d.kind * 100 + c->o->m_index);
    if (!ob.completed && !ob.faultFired) violate("exception", "a step without an injected fault threw");
    if (ob.completed && ob.faultFired && fk) g_stats("fault.swallowed");
    if (obs) obs->afterStep(*this, ob);
    if (ob.completed) startLam = 0;
    for (auto *c : sysCons()) for (int r = 0; r < c->d.nRows(); ++r) {
        LD f = 0; for (int j = 0; j < c->d.nBodies(); ++j) for (double x : {c->o->F_x[r][j], c->o->F_y[r][j], c->o->F_t[r][j]}) f = std::max(f, fabsl((LD)x));
        f *= cfg.sys == OPT ? dt / steps : 1;
        if (f < 1e12L) startLam = std::max(startLam, 2 * f);
    }
}


// ------------------------------------------------------------------ two worlds, one solver
void Worlds::exec(const Op &o) {
    if (o.k == "WORLD") { at = o.I(0) & 1; if (at) shared = true; return; }
    World &w = at ? b : a;
    if (o.k == "CFG" && shared && !w.sys) {
        Op c = o;
        World &other = at ? a : b;
        if (other.sys) {            // second to be configured: take over the first one's tools
            c.i[2] = other.cfg.sle; if (c.x.size() > 2 && other.cfg.sle != GE) { c.x[1] = other.cfg.tolA; c.x[2] = other.cfg.tolB; }
            w.sle = other.sle; w.ownSle = false; sle = other.sle; other.ownSle = false;
            if (other.cfg.sys == GEN && c.I(0) == GEN) { c.i[1] = other.cfg.ode; w.ode = ode = other.ode; w.ownOde = false; other.ownOde = false; }
            g_stats("world.shared_solver");
        }
        w.exec(c);
        return;
    }
    w.exec(o);
}
void Worlds::run(const Plan &p) {
    for (auto &o : p.ops) if (o.k == "WORLD" && o.I(0)) shared = true;
    for (size_t i = 0; i < p.ops.size(); ++i) { g_opIndex = (int)i; exec(p.ops[i]); }
    g_opIndex = (int)p.ops.size();
    if (a.obs && a.sys) a.obs->atEnd(a);
    if (b.obs && b.sys) b.obs->atEnd(b);
}
void Worlds::destroyAll(int order) {
    a.destroyAll(order); b.destroyAll(order / 128);
    if (sle) { LIB(delete sle); sle = nullptr; }
    if (ode) { LIB(delete ode); ode = nullptr; }
}
