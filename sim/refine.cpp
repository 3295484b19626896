#include "world.h"
#include <numeric>
using namespace atg_scs;

// ------------------------------------------------------------------ reference views
RState World::refState() {
    RState s; auto v = sysBodies(); s.n = (int)v.size();
    s.q.resize(3 * s.n); s.v.resize(3 * s.n); s.a.assign(3 * s.n, 0); s.m.resize(s.n); s.I.resize(s.n);
    for (int i = 0; i < s.n; ++i) {
        RigidBody *b = v[i]->o;
        s.q[3*i] = b->p_x; s.q[3*i+1] = b->p_y; s.q[3*i+2] = b->theta; s.v[3*i] = b->v_x; s.v[3*i+1] = b->v_y; s.v[3*i+2] = b->v_theta; s.m[i] = b->m; s.I[i] = b->I;
    }
    return s;
}
RState World::refState(const Stage &t) {
    RState s; s.n = t.n; auto v = sysBodies();
    s.q.assign(t.q.begin(), t.q.end()); s.v.assign(t.v.begin(), t.v.end()); s.a.assign(t.a.begin(), t.a.end()); s.m.resize(s.n); s.I.resize(s.n);
    for (int i = 0; i < s.n; ++i) { s.m[i] = v[i]->o->m; s.I[i] = v[i]->o->I; }
    return s;
}
void World::refRows(const RState &s, Problem &p) {
    p.rows.clear();
    for (auto *c : sysCons()) {
        Rows r; LD q[6] = {0}, v[6] = {0}; int b[2] = {-1, -1};
        for (int k = 0; k < c->d.nBodies(); ++k) {
            BodyS *bd = body(c->b[k]);
            if (bd->in) { const int i = b[k] = bd->o->index; for (int e = 0; e < 3; ++e) { q[3*k+e] = s.q[3*i+e]; v[3*k+e] = s.v[3*i+e]; } }
            else { q[3*k] = bd->o->p_x; q[3*k+1] = bd->o->p_y; q[3*k+2] = bd->o->theta; }
        }
        evalCon(c->d, b, q, v, r);
        p.rows.push_back(r);
    }
}
void World::refForces(const RState &s, std::vector<LD> &F, std::vector<LD> &Fa) {
    F.assign(3 * s.n, 0); Fa.assign(3 * s.n, 0);
    for (auto *f : sysFrcs()) {
        int b[2]; Pose ps[2] = {{0,0,0},{0,0,0}};
        for (int k = 0; k < 2; ++k) { BodyS *bd = body(f->b[k]); b[k] = bd && bd->in ? bd->o->index : bd ? -1 : -2; if (bd) ps[k] = {bd->o->p_x, bd->o->p_y, bd->o->theta}; }
        evalFrc(f->d, s, b, ps, F, Fa);
    }
}

void refEval(World &w, const RState &s, double h, RefEval &e) {
    w.refRows(s, e.p);
    w.refForces(s, e.F, e.Fa);
    buildProblem(s, e.p);
    const int m = e.p.m, n3 = 3 * s.n;
    const bool opt = w.cfg.sys == OPT;
    std::vector<LD> lo(m), hi(m), res(m, 0), y(n3), ya(n3);
    e.rhs.assign(m, 0); e.dlam.assign(m, 0); e.dv.assign(n3, 0); e.vNew.assign(n3, 0); e.a.assign(n3, 0); e.ok = e.p.ok;
    if (!e.ok) return;
    for (int k = 0; k < n3; ++k) {
        const LD mi = s.minv(k);
        if (opt) { y[k] = s.v[k] + h * mi * e.F[k]; ya[k] = fabsl(s.v[k]) + h * mi * e.Fa[k]; }
        else { y[k] = mi * e.F[k]; ya[k] = mi * e.Fa[k]; }
    }
    for (int r = 0; r < m; ++r) {
        const Rows &R = e.p.rows[e.p.at[r].first]; const int l = e.p.at[r].second;
        LD jy = 0, jv = 0, sc = 0, sv = 0;
        for (int a = 0; a < 2; ++a) { int b = e.p.body(r, a); if (b < 0) continue;
            for (int k = 0; k < 3; ++k) {
                const LD J = e.p.J(r, a, k), Ja = fabsl(J) + 0.01L * R.Cscale;
                jy += J * y[3*b+k]; sc += Ja * ya[3*b+k]; jv += J * s.v[3*b+k]; sv += Ja * fabsl(s.v[3*b+k]);
            } }
        if (opt) {
            e.rhs[r] = -(jy + R.vb[l] + (LD)w.cfg.bias / h * R.C[l]);
            res[r] = EPS * (sc + fabsl(R.vb[l]) + fabsl((LD)w.cfg.bias / h) * (fabsl(R.C[l]) + R.Cscale * 4));
            lo[r] = R.lo[l] * h; hi[r] = R.hi[l] * h;
        } else {
            e.rhs[r] = -jy - R.Jdv[l] - R.ks[l] * R.C[l] - R.kd[l] * jv;
            LD w2 = 0; for (int a = 0; a < 2; ++a) { int b = e.p.body(r, a); if (b >= 0) w2 = std::max(w2, std::max(fabsl(s.v[3*b+2]), std::max(fabsl(s.v[3*b]), fabsl(s.v[3*b+1])))); }
            res[r] = EPS * (sc + fabsl(R.Jdv[l]) + 8 * w2 * w2 * R.Cscale + fabsl(R.ks[l]) * (fabsl(R.C[l]) + R.Cscale * 4) + fabsl(R.kd[l]) * sv);
            lo[r] = -INFLIM; hi[r] = INFLIM;
        }
        if (!w.solverTakesLimits()) { lo[r] = -INFLIM; hi[r] = INFLIM; }
    }
    if (!boxSolve(e.p, e.rhs, lo, hi, e.lam, e.clamped)) { e.ok = false; return; }
    // error of the solver's answer
    bool anyCl = false;
    for (int r = 0; r < m; ++r) if (e.clamped[r]) anyCl = true;
    // Conjugate gradient judges a residual it carries along: every update leaves an error there relative to the
    // largest coefficient times the largest multiplier on the way, whatever the row's own scale is
    LD scaledRes = 0, drift = 0;
    if (w.cfg.sle == CG) {
        LD maxA = 0, maxL = w.startLam;
        for (int r = 0; r < m; ++r) { for (int j = 0; j < m; ++j) maxA = std::max(maxA, fabsl(e.p.A[r*m+j])); maxL = std::max(maxL, fabsl(e.lam[r])); }
        drift = EPS * maxA * maxL * std::max(1, m);
    }
    // Elimination with row exchanges: the error in a row is relative to |L||U||x| (Higham, Accuracy and Stability, 9.3),
    // which exchanging a small row for a large one makes far bigger than the row's own terms
    std::vector<LD> lux(m, 0);
    if (w.cfg.sle == GE) {
        std::vector<LD> T(e.p.A.begin(), e.p.A.begin() + m * m); std::vector<int> pi(m); std::iota(pi.begin(), pi.end(), 0);
        for (int h = 0; h < m; ++h) {
            int best = h; for (int i = h + 1; i < m; ++i) if (fabsl(T[i*m+h]) > fabsl(T[best*m+h])) best = i;
            if (best != h) { std::swap(pi[h], pi[best]); for (int j = 0; j < m; ++j) std::swap(T[h*m+j], T[best*m+j]); }
            if (T[h*m+h] == 0) continue;
            for (int i = h + 1; i < m; ++i) { const LD f = T[i*m+h] /= T[h*m+h]; if (f != 0) for (int j = h + 1; j < m; ++j) T[i*m+j] -= f * T[h*m+j]; }
        }
        std::vector<LD> u(m, 0);
        for (int i = 0; i < m; ++i) for (int j = i; j < m; ++j) u[i] += fabsl(T[i*m+j]) * fabsl(e.lam[j]);
        for (int i = 0; i < m; ++i) { LD x = u[i]; for (int j = 0; j < i; ++j) x += fabsl(T[i*m+j]) * u[j]; lux[pi[i]] = x; }
    }
    for (int r = 0; r < m; ++r) {
        LD ax = 0, up = 0;
        for (int j = 0; j < m; ++j) {
            ax += sqrtl(e.p.A[r*m+r] * e.p.A[j*m+j]) * fabsl(e.lam[j]);        // an entry's own error is relative to its terms, not to their sum
            if (j >= r) up += fabsl(e.p.A[r*m+j]) * std::max((LD)1e-3L, fabsl(e.lam[j]));
        }
        res[r] += EPS * (ax + fabsl(e.rhs[r])) * (1 + m * 0.1L);
        // Jacobian entries carry an error proportional to the coordinates
        res[r] += EPS * 0.01L * ax * e.p.rows[e.p.at[r].first].Cscale;
        res[r] += EPS * lux[r];
        if (w.cfg.sle == GS) res[r] += 1.5L * (LD)w.cfg.tolA * up;
        if (w.cfg.sle == CG) res[r] += 1.05L * std::max((LD)w.cfg.tolA * fabsl(e.rhs[r]), (LD)w.cfg.tolB) + drift;
        scaledRes = std::max(scaledRes, res[r] / sqrtl(e.p.A[r*m+r]));
    }
    for (int r = 0; r < m; ++r) {
        LD d = 0;
        for (int j = 0; j < m; ++j) d += fabsl(e.p.Ainv[r*m+j]) * res[j];
        if (anyCl) d = std::max(d, e.p.cond * 2 * scaledRes * (LD)std::max(1, m) / sqrtl(e.p.A[r*m+r]));
        e.dlam[r] = 40 * d;
    }
    // velocity (or acceleration) and its error
    std::vector<LD> im(n3, 0), ime(n3, 0);
    for (int r = 0; r < m; ++r) for (int a = 0; a < 2; ++a) { int b = e.p.body(r, a); if (b < 0) continue;
        for (int k = 0; k < 3; ++k) {
            const LD J = e.p.J(r, a, k);
            im[3*b+k] += J * e.lam[r]; ime[3*b+k] += fabsl(J) * e.dlam[r] + 4 * EPS * (fabsl(J) + 0.01L * e.p.rows[e.p.at[r].first].Cscale) * fabsl(e.lam[r]);
        } }
    for (int k = 0; k < n3; ++k) {
        const LD mi = s.minv(k);
        if (opt) { e.vNew[k] = y[k] + mi * im[k]; e.dv[k] = mi * ime[k] + 4 * EPS * (ya[k] + fabsl(mi * im[k])); }
        else { e.a[k] = y[k] + mi * im[k]; e.dv[k] = mi * ime[k] + 4 * EPS * (ya[k] + fabsl(mi * im[k])); }
    }
}

// ------------------------------------------------------------------ refinement of one completed step
std::string checkRefinement(World &w, const StepObs &o, int what, double *worst) {
    char buf[400];
    const int steps = o.steps, K = steps * w.stageCount();
    const LD h = (LD)(o.dt / steps);
    std::vector<Stage> st = o.stages;
    auto sb = w.sysBodies();
    const int n = (int)sb.size(), n3 = 3 * n;
    auto bodyStage = [&](const Snap &sn) {
        Stage t; t.n = n; t.dt = 0; t.q.resize(n3); t.v.resize(n3); t.a.assign(n3, 0); t.m.resize(n);
        for (int i = 0; i < n; ++i) { const BodyVals &b = sn.bodies.at(sb[i]->id); for (int k = 0; k < 3; ++k) { t.q[3*i+k] = b.q[k]; t.v[3*i+k] = b.v[k]; } t.m[i] = b.m; }
        return t;
    };
    const Stage first = bodyStage(o.pre), last = bodyStage(o.post);
    if (st.empty()) { if (K != 1) return ""; st.push_back(first); }
    else {
        if ((int)st.size() != K) { snprintf(buf, sizeof buf, "forces were evaluated %d times, the integrator needs %d", (int)st.size(), K); return buf; }
        for (int k = 0; k < n3; ++k) if (!bitEq(st[0].q[k], first.q[k]) || !bitEq(st[0].v[k], first.v[k])) { snprintf(buf, sizeof buf, "first evaluation at state %g,%g of body %d coordinate %d, the body is at %g,%g", st[0].q[k], st[0].v[k], sb[k/3]->id, k%3, first.q[k], first.v[k]); return buf; }
        for (auto &t : st) for (int i = 0; i < n; ++i) if (!bitEq(t.m[i], first.m[i])) { snprintf(buf, sizeof buf, "evaluation saw mass %g for body %d of mass %g", t.m[i], sb[i]->id, first.m[i]); return buf; }
    }
    st.push_back(last);
    for (int k = 0; k < n3; ++k) if (!std::isfinite(last.q[k]) || !std::isfinite(last.v[k])) { snprintf(buf, sizeof buf, "body %d coordinate %d not finite after the step", sb[k/3]->id, k%3); return buf; }
    auto bad = [&](const char *qn, int sub, int k, LD got, LD want, LD tol) {
        snprintf(buf, sizeof buf, "sub-step %d body %d (index %d) %s[%d] = %.17g, reference %.17g, tolerance %.3g", sub, sb[k/3]->id, k/3, qn, k%3, (double)got, (double)want, (double)tol);
        return std::string(buf);
    };
    std::vector<LD> repF;       // expected reported force multipliers of the last sub-step
    auto cmp = [&](const char *qn, int sub, int k, LD got, LD want, LD tol, std::string &err) {
        if (worst && tol > 1e-250L) *worst = std::max(*worst, (double)(fabsl(got - want) / tol));
        if (!(fabsl(got - want) <= tol + 1e-250L)) { err = bad(qn, sub, k, got, want, tol); return false; }
        return true;
    };
    std::string err;
    std::vector<RefEval> evs;
    for (int s = 0; s < steps; ++s) {
        evs.clear();
        const int nst = w.stageCount();
        for (int g = 0; g < nst; ++g) {
            RefEval e; refEval(w, w.refState(st[s * nst + g]), (double)h, e);
            if (!e.ok) return "";       // ill-posed mid-frame: nothing is promised
            for (auto &x : e.lam) w.startLam = std::max(w.startLam, fabsl(x));
            evs.push_back(std::move(e));
        }
        const Stage &b = st[s * nst], &e = st[s * nst + nst];
        if (what & 1) for (int k = 0; k < n3; ++k) {
            LD vq, ve, qq, qe;
            const LD ulpq = 8 * EPS * (fabsl(b.q[k]) + fabsl(e.q[k])), ulpv = 8 * EPS * (fabsl(b.v[k]) + fabsl(e.v[k]));
            if (w.cfg.sys == OPT) { vq = evs[0].vNew[k]; ve = evs[0].dv[k]; qq = b.q[k] + h * vq; qe = h * ve + 8 * EPS * h * fabsl(vq); }
            else if (w.cfg.ode == EULER) { vq = b.v[k] + h * evs[0].a[k]; ve = h * evs[0].dv[k] + EPS * h * fabsl(evs[0].a[k]); qq = b.q[k] + h * (LD)b.v[k]; qe = EPS * h * fabsl((LD)b.v[k]); }
            else if (w.cfg.ode == NSV) { vq = b.v[k] + h * evs[0].a[k]; ve = h * evs[0].dv[k] + EPS * h * fabsl(evs[0].a[k]); qq = b.q[k] + h * vq; qe = h * ve + EPS * h * fabsl(vq); }
            else {
                const LD c[4] = {1, 2, 2, 1};
                vq = b.v[k]; qq = b.q[k]; ve = qe = 0;
                for (int g = 0; g < 4; ++g) { vq += h / 6 * c[g] * evs[g].a[k]; ve += h / 6 * c[g] * (evs[g].dv[k] + 8 * EPS * fabsl(evs[g].a[k])); qq += h / 6 * c[g] * (LD)st[s*4+g].v[k]; qe += 8 * EPS * h / 6 * c[g] * fabsl((LD)st[s*4+g].v[k]); }
                // inner stages
                const LD f[3] = {h / 2, h / 2, h};
                for (int g = 1; g < 4; ++g) {
                    const Stage &p = st[s*4+g-1], &t = st[s*4+g];
                    if (!cmp("stage position", s, k, t.q[k], b.q[k] + f[g-1] * (LD)p.v[k], ulpq + 8 * EPS * (fabsl(t.q[k]) + f[g-1] * fabsl((LD)p.v[k])), err)) return err;
                    if (!cmp("stage velocity", s, k, t.v[k], b.v[k] + f[g-1] * evs[g-1].a[k], f[g-1] * evs[g-1].dv[k] + ulpv + 8 * EPS * (fabsl(t.v[k]) + f[g-1] * fabsl(evs[g-1].a[k])), err)) return err;
                }
            }
            if (!cmp("velocity", s, k, e.v[k], vq, ve + ulpv, err)) return err;
            if (!cmp("position", s, k, e.q[k], qq, qe + ulpq, err)) return err;
        }
    }
    if (what & 2) {
        auto sc = w.sysCons();
        const LD c4[4] = {1, 2, 2, 1};
        int r = 0;
        for (size_t c = 0; c < sc.size(); ++c) {
            const ConVals &cv = o.post.cons.at(sc[c]->id);
            for (int l = 0; l < sc[c]->d.nRows(); ++l, ++r) for (int a = 0; a < sc[c]->d.nBodies(); ++a) {
                const bool inside = w.body(sc[c]->b[a])->in;
                for (int k = 0; k < 3; ++k) {
                    LD want = 0, tol = 0;
                    for (size_t g = 0; g < evs.size(); ++g) {
                        const RefEval &e = evs[g]; const LD wt = evs.size() == 4 ? c4[g] / 6 : 1, sc1 = w.cfg.sys == OPT ? 1 / h : 1;
                        const LD J = inside ? e.p.J(r, a, k) : 0, Js = inside ? 0.01L * e.p.rows[c].Cscale : 0;
                        want += wt * sc1 * J * e.lam[r];
                        tol += wt * sc1 * (fabsl(J) * e.dlam[r] + 8 * EPS * (fabsl(J) + Js) * (fabsl(e.lam[r])));
                    }
                    const LD got = cv.F[l][a][k];
                    if (worst && tol > 1e-250L) *worst = std::max(*worst, (double)(fabsl(got - want) / tol));
                    if (!(fabsl(got - want) <= tol + 1e-250L)) {
                        snprintf(buf, sizeof buf, "constraint %d (kind %d, index %d) reports F_%c[row %d][body %d] = %.17g, reference %.17g, tolerance %.3g", sc[c]->id, sc[c]->d.kind, (int)c, "xyt"[k], l, a, (double)got, (double)want, (double)tol);
                        return buf;
                    }
                }
            }
        }
    }
    return "";
}

// ------------------------------------------------------------------ snapshots
Snap World::snap() {
    Snap s;
    for (auto &k : bodies) { RigidBody *b = k.second.o; s.bodies[k.first] = {{b->p_x, b->p_y, b->theta}, {b->v_x, b->v_y, b->v_theta}, b->m, b->I, b->index}; }
    for (auto &k : cons) {
        ConVals v; Constraint *c = k.second.o; v.index = c->m_index; v.b[0] = c->m_bodies[0]; v.b[1] = k.second.d.nBodies() > 1 ? c->m_bodies[1] : nullptr;
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 2; ++j) { v.F[i][j][0] = c->F_x[i][j]; v.F[i][j][1] = c->F_y[i][j]; v.F[i][j][2] = c->F_t[i][j]; }
        s.cons[k.first] = v;
    }
    for (auto &k : frcs) s.frcs[k.first] = k.second.o->m_index;
    s.nb = sys->getRigidBodyCount(); s.nc = sys->getConstraintCount(); s.nf = sys->getForceGeneratorCount(); s.full = sys->getFullConstraintCount();
    for (int i = 0; i < s.nb; ++i) s.sysBodies.push_back(sys->getRigidBody(i));
    s.t = elapsed();
    return s;
}
std::string diffSnap(const Snap &a, const Snap &b, bool withTime) {
    char buf[300];
    if (a.nb != b.nb || a.nc != b.nc || a.nf != b.nf || a.full != b.full) { snprintf(buf, sizeof buf, "counts (%d bodies %d constraints %d generators %d rows) became (%d %d %d %d)", a.nb, a.nc, a.nf, a.full, b.nb, b.nc, b.nf, b.full); return buf; }
    if (a.sysBodies != b.sysBodies) return "the enumeration of the bodies changed";
    if (withTime && !bitEq(a.t, b.t)) { snprintf(buf, sizeof buf, "elapsed time %.17g became %.17g", a.t, b.t); return buf; }
    for (auto &k : a.bodies) {
        auto i = b.bodies.find(k.first); if (i == b.bodies.end()) continue;
        for (int e = 0; e < 3; ++e) {
            if (!bitEq(k.second.q[e], i->second.q[e])) { snprintf(buf, sizeof buf, "body %d position[%d] %.17g became %.17g", k.first, e, k.second.q[e], i->second.q[e]); return buf; }
            if (!bitEq(k.second.v[e], i->second.v[e])) { snprintf(buf, sizeof buf, "body %d velocity[%d] %.17g became %.17g", k.first, e, k.second.v[e], i->second.v[e]); return buf; }
        }
        if (!bitEq(k.second.m, i->second.m) || !bitEq(k.second.I, i->second.I)) { snprintf(buf, sizeof buf, "body %d mass or inertia changed", k.first); return buf; }
        if (k.second.index != i->second.index) { snprintf(buf, sizeof buf, "body %d index %d became %d", k.first, k.second.index, i->second.index); return buf; }
    }
    for (auto &k : a.cons) {
        auto i = b.cons.find(k.first); if (i == b.cons.end()) continue;
        if (k.second.index != i->second.index) { snprintf(buf, sizeof buf, "constraint %d index %d became %d", k.first, k.second.index, i->second.index); return buf; }
        if (k.second.b[0] != i->second.b[0] || k.second.b[1] != i->second.b[1]) { snprintf(buf, sizeof buf, "constraint %d bodies changed", k.first); return buf; }
        for (int r = 0; r < 3; ++r) for (int j = 0; j < 2; ++j) for (int e = 0; e < 3; ++e) if (!bitEq(k.second.F[r][j][e], i->second.F[r][j][e])) {
            snprintf(buf, sizeof buf, "constraint %d F_%c[%d][%d] %.17g became %.17g", k.first, "xyt"[e], r, j, k.second.F[r][j][e], i->second.F[r][j][e]); return buf; }
    }
    for (auto &k : a.frcs) { auto i = b.frcs.find(k.first); if (i != b.frcs.end() && k.second != i->second) { snprintf(buf, sizeof buf, "generator %d index %d became %d", k.first, k.second, i->second); return buf; } }
    return "";
}

