// Two executions of the same history that must agree: one of them lives through restarts,
// failed steps or another slicing.
#pragma once
#include "world.h"

// Captures what is needed to bound the difference of two iterative solutions of the same step.
struct PreStep : Observer {
    RefEval e; bool have = false; double h = 0;
    StepObs last;
    bool want = false;
    void beforeStep(World &w, StepObs &o) override {
        have = false;
        if (want && o.steps * w.stageCount() == 1) { h = o.dt; refEval(w, w.refState(), h, e); have = e.ok; }
    }
    void afterStep(World &, StepObs &o) override { last = o; }
};

// "" or how the two worlds differ. With pre: differences within the solver's tolerance are allowed.
inline std::string diffWorlds(World &a, World &b, const char *na, const char *nb, const PreStep *pre = nullptr, bool forces = true, bool membership = true) {
    char buf[400];
    Snap A = a.snap(), B = b.snap();
    if (membership && (A.nb != B.nb || A.nc != B.nc || A.nf != B.nf || A.full != B.full)) { snprintf(buf, sizeof buf, "%s has %d bodies %d constraints %d generators, %s has %d %d %d", na, A.nb, A.nc, A.nf, nb, B.nb, B.nc, B.nf); return buf; }
    for (auto &k : A.bodies) {
        auto i = B.bodies.find(k.first); if (i == B.bodies.end()) { snprintf(buf, sizeof buf, "body %d exists only in %s", k.first, na); return buf; }
        const bool in = a.body(k.first)->in; const int ix = k.second.index;
        for (int e = 0; e < 3; ++e) {
            const double qa = k.second.q[e], qb = i->second.q[e], va = k.second.v[e], vb = i->second.v[e];
            LD tv = 0, tq = 0;
            if (pre && in) {
                const LD d = pre->e.dv[3 * ix + e];
                tv = 2 * (a.cfg.sys == OPT ? d : d * pre->h) + 1e-14L * fabsl((LD)va); tq = tv * pre->h + 1e-14L * (1 + fabsl((LD)qa));
            }
            if (pre ? !(fabsl((LD)va - vb) <= tv) : !bitEq(va, vb)) { snprintf(buf, sizeof buf, "body %d velocity[%d] is %.17g %s and %.17g %s (allowed difference %.3g)", k.first, e, va, na, vb, nb, (double)tv); return buf; }
            if (pre ? !(fabsl((LD)qa - qb) <= tq) : !bitEq(qa, qb)) { snprintf(buf, sizeof buf, "body %d position[%d] is %.17g %s and %.17g %s (allowed difference %.3g)", k.first, e, qa, na, qb, nb, (double)tq); return buf; }
        }
    }
    if (forces) for (auto &k : A.cons) {
        auto i = B.cons.find(k.first); if (i == B.cons.end()) { snprintf(buf, sizeof buf, "constraint %d exists only in %s", k.first, na); return buf; }
        const ConS &c = a.cons.at(k.first);
        if (!c.in) continue;
        for (int r = 0; r < c.d.nRows(); ++r) for (int j = 0; j < c.d.nBodies(); ++j) for (int e = 0; e < 3; ++e) {
            const double x = k.second.F[r][j][e], y = i->second.F[r][j][e];
            LD t = 0;
            if (pre) {
                int row = 0; while (row < pre->e.p.m && !(pre->e.p.at[row].first == c.o->m_index && pre->e.p.at[row].second == r)) ++row;
                if (row == pre->e.p.m) continue;
                const LD J = fabsl(pre->e.p.J(row, j, e)), sc = a.cfg.sys == OPT ? 1 / (LD)pre->h : 1;
                t = 2 * J * pre->e.dlam[row] * sc + 1e-13L * (J + 0.01L * pre->e.p.rows[pre->e.p.at[row].first].Cscale) * fabsl(pre->e.lam[row]) * sc + 1e-250L;
            }
            if (pre ? !(fabsl((LD)x - y) <= t) : !bitEq(x, y)) { snprintf(buf, sizeof buf, "constraint %d (kind %d) reports F_%c[%d][%d] = %.17g %s and %.17g %s (allowed difference %.3g)", k.first, c.d.kind, "xyt"[e], r, j, x, na, y, nb, (double)t); return buf; }
        }
    }
    return "";
}
inline void syncBodies(World &from, World &to) {
    for (auto &k : from.bodies) { auto *b = to.body(k.first); if (!b) continue; auto *s = k.second.o, *d = b->o; d->p_x = s->p_x; d->p_y = s->p_y; d->theta = s->theta; d->v_x = s->v_x; d->v_y = s->v_y; d->v_theta = s->v_theta; }
}
