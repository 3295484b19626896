// C03: exactly the installed objects take part, each exactly once.
#include "world.h"

namespace {
struct Members : Observer {
    long every = 1, edits = 0;          // looking is itself a call: after every edit, or only now and then
    void sets(World &w) {
        std::set<atg_scs::RigidBody *> want; std::vector<int> ci, fi; int rows = 0;
        for (auto &k : w.bodies) {
            if (k.second.in) want.insert(k.second.o);
            else if (k.second.o->index != -1) violate("outside-index", "body %d is outside the system but reports index %d", k.first, k.second.o->index);
        }
        for (auto &k : w.cons) if (k.second.in) { ci.push_back(k.second.o->m_index); rows += k.second.d.nRows(); }
        for (auto &k : w.frcs) if (k.second.in) fi.push_back(k.second.o->m_index);
        int nb, nc, nf, nr;
        LIB(nb = w.sys->getRigidBodyCount()); LIB(nc = w.sys->getConstraintCount()); LIB(nf = w.sys->getForceGeneratorCount()); LIB(nr = w.sys->getFullConstraintCount());
        if (nb != (int)want.size() || nc != (int)ci.size() || nf != (int)fi.size() || nr != rows)
            violate("counts", "the system counts %d bodies %d constraints %d generators %d rows; installed are %d %d %d %d", nb, nc, nf, nr, (int)want.size(), (int)ci.size(), (int)fi.size(), rows);
        std::set<atg_scs::RigidBody *> seen;
        for (int i = 0; i < nb; ++i) {
            atg_scs::RigidBody *b; LIB(b = w.sys->getRigidBody(i));
            if (!want.count(b)) violate("enumeration", "entry %d of the enumeration is not an installed body", i);
            if (!seen.insert(b).second) violate("enumeration", "entry %d of the enumeration repeats a body", i);
            if (b->index != i) violate("enumeration", "the body enumerated at %d has index %d", i, b->index);
        }
        auto perm = [](std::vector<int> &v, const char *what) {
            std::sort(v.begin(), v.end());
            for (size_t i = 0; i < v.size(); ++i) if (v[i] != (int)i) violate("indices", "the indices of the %d installed %s are not 0..%d (found %d)", (int)v.size(), what, (int)v.size() - 1, v[i]);
        };
        perm(ci, "constraints"); perm(fi, "generators");
        g_sig.u(nb * 10007 + nc * 101 + nf);
    }
    void afterEdit(World &w, const Op &) override { if (++edits % every) return; sets(w); g_stats("membership.checks"); }
    void beforeStep(World &w, StepObs &) override { sets(w); }
    void afterStep(World &w, StepObs &o) override {
        sets(w);
        const int K = o.steps * w.stageCount();
        for (auto &k : o.frcCalls) { auto f = w.frcs.find(k.first); if (f == w.frcs.end() || !f->second.in) violate("foreign-call", "generator %d is not installed but was applied", k.first); }
        for (auto &k : o.conCalls) { auto c = w.cons.find(k.first); if (c == w.cons.end() || !c->second.in) violate("foreign-call", "constraint %d is not installed but was evaluated", k.first); }
        if (o.completed) {
            for (auto &k : w.frcs) if (k.second.in && o.frcCalls[k.first] != K) violate("calls", "generator %d was applied %d times in %d force evaluations", k.first, o.frcCalls[k.first], K);
            for (auto &k : w.cons) if (k.second.in && o.conCalls[k.first] < K) violate("calls", "constraint %d was evaluated %d times in %d evaluations", k.first, o.conCalls[k.first], K);
            if (!w.cons.empty() || !w.frcs.empty()) g_nontrivial = true;
        }
        for (auto &k : o.pre.bodies) {
            auto b = w.bodies.find(k.first); if (b == w.bodies.end() || b->second.in) continue;
            const BodyVals &p = k.second, &q = o.post.bodies.at(k.first);
            for (int e = 0; e < 3; ++e) if (!bitEq(p.q[e], q.q[e]) || !bitEq(p.v[e], q.v[e])) violate("foreign-write", "body %d is not installed but was moved", k.first);
            if (!bitEq(p.m, q.m) || !bitEq(p.I, q.I)) violate("foreign-write", "body %d is not installed but was modified", k.first);
        }
        for (auto &k : o.pre.cons) {
            auto c = w.cons.find(k.first); if (c == w.cons.end() || c->second.in) continue;
            const ConVals &p = k.second, &q = o.post.cons.at(k.first);
            for (int r = 0; r < 3; ++r) for (int j = 0; j < 2; ++j) for (int e = 0; e < 3; ++e) if (!bitEq(p.F[r][j][e], q.F[r][j][e])) violate("foreign-write", "constraint %d is not installed but its reported force changed", k.first);
        }
        g_stats("steps.checked");
    }
};
void exec(const Plan &p) { World w; Members m; w.obs = &m; for (auto &o : p.ops) if (o.k == "LOOK") m.every = std::max(1L, o.I(0, 1)); w.run(p); }

void gen(Rng &r, Plan &p) {
    Knobs k; k.nSteps = 14; k.pEdit = r.chance(0.5) ? 0.88 : 0.7; k.pFault = r.chance(0.4) ? 0.15 : 0; k.pBulk = 0.06; k.pRestart = 0.02; k.pReset = 0.05;
    k.maxBodies = r.chance(0.3) ? 14 : 6; k.maxCons = r.chance(0.3) ? 14 : 6; k.maxFrcs = r.chance(0.3) ? 10 : 4; k.pRecorder = 0.3;
    genWorld(r, p, k);
    if (r.chance(0.4)) p.add("LOOK", {r.chance(0.5) ? 1000000 : r.range(2, 6)});
    if (r.chance(0.3)) for (size_t i = 1; i < p.ops.size(); ++i) if ((p.ops[i].k == "BODY" || p.ops[i].k == "CON" || p.ops[i].k == "FRC" || p.ops[i].k == "ADDB" || p.ops[i].k == "ADDC" || p.ops[i].k == "ADDF") && r.chance(0.2)) p.ops.insert(p.ops.begin() + i++, Op("AFAIL", {1, 0}));
    // Sometimes empty the whole system, step it empty, and go on.
    if (r.chance(0.3)) {
        size_t at = p.ops.size() / 2; std::vector<Op> mid;
        std::vector<int> ids; for (size_t i = 0; i < at; ++i) if (p.ops[i].k == "BODY") ids.push_back(p.ops[i].I(0));
        for (size_t i = ids.size(); i > 1; --i) std::swap(ids[i - 1], ids[r.below(i)]);
        for (int id : ids) mid.emplace_back(r.chance(0.3) ? "DELB" : "REMB", std::vector<long>{id});
        mid.emplace_back("STEP", std::vector<long>{r.range(1, 3)}, std::vector<double>{0.01});
        for (int id : ids) if (r.chance(0.8)) mid.emplace_back("ADDB", std::vector<long>{id});
        for (int c = 0; c < 12; ++c) mid.emplace_back("ADDC", std::vector<long>{c});
        for (int c = 0; c < 8; ++c) mid.emplace_back("ADDF", std::vector<long>{c});
        p.ops.insert(p.ops.begin() + at, mid.begin(), mid.end());
    }
}
}
PROPERTY(C03, gen, exec)
