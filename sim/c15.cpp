// C15: how a duration is sliced into frames does not change the simulation.
// The plan's STEP carries the number of sub-steps k and the sub-step duration h (exactly
// representable, so that k*h and (k*h)/k are exact); world a takes it as one call, world b as
// the calls listed in the SLICE operation in front of it.
#include "twin.h"

namespace {
struct Keep : Observer {
    std::vector<Stage> st; double expected = 0; bool threw = false;
    std::map<int, int> conCalls;
    void afterStep(World &, StepObs &o) override {
        threw = !o.completed;
        if (!o.completed) return;
        expected += o.dt;
        st.insert(st.end(), o.stages.begin(), o.stages.end());
        for (auto &k : o.conCalls) conCalls[k.first] += k.second;
    }
};
void exec(const Plan &p) {
    World a, b; Keep ka, kb; a.obs = &ka; b.obs = &kb;
    // What each constraint sees, in order: hash of the state handed to it.
    std::vector<std::pair<int, uint64_t>> seen[2];
    World *ws[2] = {&a, &b};
    for (int i = 0; i < 2; ++i) ws[i]->onHook = [&, i](HookKind k, int id, int phase) { if (k == H_CON && phase == 0) seen[i].push_back({id, (uint64_t)0}); };
    std::vector<long> slice;
    double total = 0;
    for (size_t i = 0; i < p.ops.size(); ++i) {
        g_opIndex = (int)i;
        const Op &o = p.ops[i];
        if (o.k == "SLICE") { slice = o.i; continue; }
        if (o.k != "STEP") { a.exec(o); b.exec(o); continue; }
        const long k = std::max(1L, std::min(400L, o.I(0, 1))); double h = o.X(0);
        h = std::ldexp((double)(long)std::ldexp(h, 48), -48);            // few enough bits for k * h to be exact
        if (!(h > 0) || !(h < 1)) continue;
        const int fk = o.I(1);
        if (!a.gate(Op("STEP", {k}, {h * k}))) { b.gate(Op("STEP", {k}, {h * k})); continue; }
        if (!b.gate(Op("STEP", {k}, {h * k}))) violate("diverged", "the two slicings were not at the same state");
        a.opt.heal = b.opt.heal = false;
        if (fk) {                       // a failed call before the real one, in both worlds
            Op f("STEP", {k, FT_HOOK, 1}, {h * k}); a.exec(f);
            Op g("STEP", {1, FT_HOOK, 1}, {h}); b.exec(g);
            if (ka.threw != kb.threw) violate("failure", "a failing callback failed one slicing only");
            if (!ka.threw) { a.opt.heal = b.opt.heal = true; return; }  // nothing to fail: both advanced differently
        }
        ka.st.clear(); kb.st.clear(); seen[0].clear(); seen[1].clear(); ka.conCalls.clear(); kb.conCalls.clear();
        a.exec(Op("STEP", {k}, {h * k}));
        long left = k; size_t si = 0;
        while (left > 0) {
            long part = slice.empty() ? 1 : slice[si++ % slice.size()];
            part = std::max(1L, std::min(left, part)); left -= part;
            b.exec(Op("STEP", {part}, {h * part}));
        }
        slice.clear();
        a.opt.heal = b.opt.heal = true;
        total += h * k;
        std::string d = diffWorlds(a, b, "as one call", "sliced");
        if (!d.empty()) violate("slicing", "%ld sub-steps: %s", k, d.c_str());
        if (ka.st.size() != kb.st.size()) violate("slicing", "force generators were applied %d times as one call and %d times sliced", (int)ka.st.size(), (int)kb.st.size());
        const int nst = a.stageCount();
        const double c4[4] = {0, 0.5, 0.5, 1};
        for (size_t s = 0; s < ka.st.size(); ++s) {
            const Stage &x = ka.st[s], &y = kb.st[s];
            for (size_t e = 0; e < x.q.size(); ++e) if (!bitEq(x.q[e], y.q[e]) || !bitEq(x.v[e], y.v[e])) violate("slicing", "evaluation %d saw coordinate %d at %.17g,%.17g as one call and %.17g,%.17g sliced", (int)s, (int)e, x.q[e], x.v[e], y.q[e], y.v[e]);
            const double want = nst == 4 ? h * c4[s % 4] : h;
            if (!bitEq(x.dt, want) || !bitEq(y.dt, want)) violate("announced-dt", "evaluation %d was told dt = %.17g (one call) and %.17g (sliced); the sub-step is %.17g", (int)s, x.dt, y.dt, want);
        }
        if (ka.conCalls != kb.conCalls) violate("slicing", "constraints were evaluated a different number of times");
        if (seen[0] != seen[1]) violate("slicing", "constraints were evaluated in a different order");
        if (a.cfg.sys == OPT) for (World *w : ws) {
            const Keep &kk = w == &a ? ka : kb;
            if (!(std::fabs(w->elapsed() - kk.expected) <= 1e-12 * (1 + kk.expected)) ) violate("elapsed", "elapsed time is %.17g, the completed calls add up to %.17g", w->elapsed(), kk.expected);
        }
        if (k > 1) { g_nontrivial = true; g_stats("frames.compared"); g_stats("substeps.compared", k); }
    }
    g_opIndex = (int)p.ops.size();
}
void gen(Rng &r, Plan &p) {
    Knobs k; k.manyRows = false; k.nSteps = 7; k.pFault = r.chance(0.4) ? 0.15 : 0; k.pRestart = 0; k.pInit = 0.02; k.pReset = 0.02; k.motorDamping = false; k.maxSub = 1; k.pRecorder = 0.9;
    k.maxCons = 6;
    genWorld(r, p, k);
    const int maxk = r.chance(0.04) ? (r.chance(0.25) ? 400 : 64) : r.chance(0.3) ? 16 : 6;
    for (size_t i = 0; i < p.ops.size(); ++i) if (p.ops[i].k == "STEP") {
        Op &o = p.ops[i]; o.i.resize(2); o.i[0] = r.range(1, maxk);
        o.x[0] = std::min(o.x[0], 0.02);
        Op s("SLICE"); const int m = (int)r.below(3);
        if (m == 0) s.i = {1}; else if (maxk > 16 && m == 1) for (int j = 0, n = (int)r.range(1, 5); j < n; ++j) s.i.push_back(r.range(1, maxk / 2)); else for (int j = 0, n = (int)r.range(1, 5); j < n; ++j) s.i.push_back(r.range(1, 5));
        p.ops.insert(p.ops.begin() + i++, s);
    }
}
}
PROPERTY(C15, gen, exec)
