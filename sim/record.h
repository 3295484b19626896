// Everything a caller can observe of a world, as a flat list of values: two executions that must
// agree to the last bit are compared through it.
#pragma once
#include "world.h"

struct Item { int op; const char *what; int id, k; uint64_t bits; };
struct Recorder : Observer {
    std::vector<Item> v;
    bool states = true;                         // also the system's own state arrays
    void put(const char *w, int id, int k, double x) { uint64_t b; memcpy(&b, &x, 8); v.push_back({g_opIndex, w, id, k, b}); }
    void num(const char *w, int id, int k, long x) { v.push_back({g_opIndex, w, id, k, (uint64_t)x}); }
    void world(World &w) {
        Snap s = w.snap();
        std::map<const void *, int> ids; for (auto &k : w.bodies) ids[k.second.o] = k.first;
        auto idOf = [&](const void *p) { if (!p) return -1; auto i = ids.find(p); return i == ids.end() ? -2 : i->second; };
        num("bodies", 0, 0, s.nb); num("constraints", 0, 0, s.nc); num("generators", 0, 0, s.nf); num("rows", 0, 0, s.full); put("elapsed time", 0, 0, s.t);
        for (size_t i = 0; i < s.sysBodies.size(); ++i) num("enumeration", (int)i, 0, idOf(s.sysBodies[i]));
        for (auto &k : s.bodies) {
            for (int e = 0; e < 3; ++e) { put("body position", k.first, e, k.second.q[e]); put("body velocity", k.first, e, k.second.v[e]); }
            atg_scs::RigidBody *o = w.bodies.at(k.first).o; double t[5];
            { seam::LibScope l; t[0] = o->energy(); o->localToWorld(0.75, -1.25, &t[1], &t[2]); o->worldToLocal(3.5, 2.25, &t[3], &t[4]); }
            for (int e = 0; e < 5; ++e) put("body energy and transforms", k.first, e, t[e]);
            put("body mass", k.first, 0, k.second.m); put("body inertia", k.first, 0, k.second.I); num("body index", k.first, 0, k.second.index);
        }
        for (auto &k : s.cons) {
            const ConS &c = w.cons.at(k.first);
            num("constraint index", k.first, 0, k.second.index);
            for (int j = 0; j < c.d.nBodies(); ++j) num("constraint body", k.first, j, idOf(k.second.b[j]));
            for (int r = 0; r < 3; ++r) for (int j = 0; j < 2; ++j) for (int e = 0; e < 3; ++e) put("reported force", k.first, r * 6 + j * 3 + e, k.second.F[r][j][e]);
        }
        for (auto &k : s.frcs) {
            num("generator index", k.first, 0, k.second);
            const FrcS &f = w.frcs.at(k.first);
            if (f.d.kind != SPRING) continue;
            auto *sp = static_cast<atg_scs::Spring *>(f.o); double t[5] = {0, 0, 0, 0, 0};
            { seam::LibScope l; t[0] = sp->energy(); sp->getEnds(&t[1], &t[2], &t[3], &t[4]); }
            for (int e = 0; e < 5; ++e) put("spring energy and ends", k.first, e, t[e]);
        }
    }
    void afterEdit(World &w, const Op &) override { world(w); }
    void afterStep(World &w, StepObs &o) override {
        num("step outcome", 0, 0, o.threw); world(w);
        for (auto &k : o.frcCalls) num("generator calls", k.first, 0, k.second);
        for (auto &k : o.conCalls) num("constraint calls", k.first, 0, k.second);
        for (auto &t : o.stages) { put("announced dt", 0, 0, t.dt); for (size_t k = 0; k < t.q.size(); ++k) { put("stage position", (int)k, 0, t.q[k]); put("stage velocity", (int)k, 0, t.v[k]); } }
        if (o.completed && states) {
            const atg_scs::SystemState *s = w.sys->state();
            for (int i = 0; i < w.sys->getRigidBodyCount(); ++i) {
                const double x[13] = {s->p_x[i], s->p_y[i], s->theta[i], s->v_x[i], s->v_y[i], s->v_theta[i], s->a_x[i], s->a_y[i], s->a_theta[i], s->f_x[i], s->f_y[i], s->t[i], s->m[i]};
                for (int k = 0; k < 13; ++k) put("system state of body", i, k, x[k]);
            }
            for (int i = 0; i < 2 * w.rowsInstalled(); ++i) { put("system state reaction", i, 0, s->r_x[i]); put("system state reaction", i, 1, s->r_y[i]); put("system state reaction", i, 2, s->r_t[i]); }
            int at = 0; for (auto *c : w.sysCons()) num("system state row map", c->id, 0, s->indexMap[at++]);
        }
        put("timing", 0, 0, w.sys->getOdeSolveMicroseconds()); put("timing", 0, 1, w.sys->getConstraintSolveMicroseconds()); put("timing", 0, 2, w.sys->getForceEvalMicroseconds()); put("timing", 0, 3, w.sys->getConstraintEvalMicroseconds());
    }
};
inline std::string diffRecords(const std::vector<Item> &a, const std::vector<Item> &b, const char *na, const char *nb) {
    char buf[400];
    for (size_t i = 0; i < a.size() && i < b.size(); ++i) {
        if (a[i].bits == b[i].bits && a[i].id == b[i].id && a[i].k == b[i].k && a[i].op == b[i].op) continue;
        double x, y; memcpy(&x, &a[i].bits, 8); memcpy(&y, &b[i].bits, 8);
        if (a[i].op != b[i].op || a[i].id != b[i].id || strcmp(a[i].what, b[i].what)) snprintf(buf, sizeof buf, "at operation %d the two executions observe different things (%s of %d %s, %s of %d %s)", a[i].op, a[i].what, a[i].id, na, b[i].what, b[i].id, nb);
        else snprintf(buf, sizeof buf, "after operation %d, %s %d [%d] is %.17g (%ld) %s and %.17g (%ld) %s", a[i].op, a[i].what, a[i].id, a[i].k, x, (long)a[i].bits, na, y, (long)b[i].bits, nb);
        return buf;
    }
    if (a.size() != b.size()) { snprintf(buf, sizeof buf, "%zu observations %s, %zu %s", a.size(), na, b.size(), nb); return buf; }
    return "";
}
