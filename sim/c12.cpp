// C12: joints recover once perturbations stop. The error of each joint row must stay under a bound that
// shrinks by the feedback's own factor and grows only by what a correct step adds through discretisation.
#include "world.h"

namespace {
struct Mat { LD a = 1, b = 0, c = 0, d = 1; };
Mat mul(const Mat &x, const Mat &y) { return {x.a*y.a + x.b*y.c, x.a*y.b + x.b*y.d, x.c*y.a + x.d*y.c, x.c*y.b + x.d*y.d}; }

struct Row { LD C, D; };
struct Recover : Observer {
    struct T { LD e0, C0, D0; int n = 0; std::vector<LD> d1, d2; LD last; };
    std::map<std::pair<int, int>, T> tr;
    Snap lastPost; bool have = false; double lastDt = 0; int lastSteps = 0; std::string mem;
    std::map<std::pair<int, int>, Row> pre, expect;
    std::map<std::pair<int, int>, Mat> M;
    bool ready = false;

    void clear() { tr.clear(); have = false; }
    void afterEdit(World &, const Op &o) override { if (o.k != "RESTART") clear(); }
    static bool joint(World &w, const ConDesc &d, int row) {
        if (d.kind > ROLL) return false;
        if (d.kind == LINK && d.p[4] < INFLIM && w.solverTakesLimits()) return false;
        if (d.kind == ROLL && row == 0 && w.cfg.sys == GEN) return false;   // not stabilised there, by design
        return true;
    }
    static std::map<std::pair<int, int>, Row> rows(World &w, const RState &s) {
        std::map<std::pair<int, int>, Row> out; Problem p; w.refRows(s, p);
        auto sc = w.sysCons();
        for (size_t c = 0; c < sc.size(); ++c) for (int r = 0; r < p.rows[c].n; ++r) if (joint(w, sc[c]->d, r)) {
            Row x{p.rows[c].C[r], 0};
            for (int a = 0; a < p.rows[c].nb; ++a) { const int b = p.rows[c].body[a]; if (b >= 0) for (int k = 0; k < 3; ++k) x.D += p.rows[c].J[r][3*a+k] * s.v[3*b+k]; }
            out[{sc[c]->id, r}] = x;
        }
        return out;
    }
    void beforeStep(World &w, StepObs &o) override {
        std::string m; for (auto *c : w.sysCons()) m += std::to_string(c->id) + ",";
        m += ";"; for (auto *b : w.sysBodies()) m += std::to_string(b->id) + ",";
        bool same = have && m == mem && lastDt == o.dt && lastSteps == o.steps;
        if (same) for (auto &k : lastPost.bodies) { auto &b = o.pre.bodies.at(k.first); for (int e = 0; e < 3; ++e) if (!bitEq(b.q[e], k.second.q[e]) || !bitEq(b.v[e], k.second.v[e])) same = false; }
        if (!same) clear();
        mem = m; lastDt = o.dt; lastSteps = o.steps;
        ready = false; M.clear();
        if (o.steps > 8) return;            // the reference runs free within a frame: over many sub-steps it may part company
        const LD h = (LD)(o.dt / o.steps);
        RState s = w.refState();
        pre = rows(w, s);
        if (pre.empty() || !refAdvance(w, s, h, o.steps)) return;
        expect = rows(w, s);
        for (auto *c : w.sysCons()) for (int r = 0; r < c->d.nRows(); ++r) if (joint(w, c->d, r)) {
            const LD ks = c->d.ks, kd = c->d.kd, b = w.cfg.bias;
            Mat one, all;
            if (w.cfg.sys == OPT) one = {1 - b, 0, -b / h, 0};     // the speed along the row is set, not kept
            else if (w.cfg.ode == EULER) one = {1, h, -h * ks, 1 - h * kd};
            else if (w.cfg.ode == NSV) one = {1 - h * h * ks, h - h * h * kd, -h * ks, 1 - h * kd};
            else {      // fourth-order Taylor polynomial of the exponential
                const Mat A = {0, h, -h * ks, -h * kd}; Mat pw, sum; LD f = 1;
                for (int i = 1; i <= 4; ++i) { pw = mul(pw, A); f /= i; sum.a += f * pw.a; sum.b += f * pw.b; sum.c += f * pw.c; sum.d += f * pw.d; }
                one = sum;
            }
            for (int i = 0; i < o.steps; ++i) all = mul(one, all);
            M[{c->id, r}] = all;
        }
        ready = true;
    }
    void afterStep(World &w, StepObs &o) override {
        if (!o.completed || !ready) { clear(); return; }
        RState s = w.refState();
        auto post = rows(w, s);
        const LD h = (LD)(o.dt / o.steps);
        LD scale = 1; for (int k = 0; k < 3 * s.n; ++k) scale = std::max(scale, std::max(fabsl(s.q[k]), h * fabsl(s.v[k])));
        const LD tol = 1e-7L * scale;
        for (auto &k : post) {
            auto t = tr.find(k.first);
            const Row a = pre.at(k.first), e = expect.at(k.first); const Mat &m = M.at(k.first);
            if (t == tr.end()) { T n; n.e0 = fabsl(a.C); n.C0 = a.C; n.D0 = a.D; tr[k.first] = n; t = tr.find(k.first); }
            T &x = t->second;
            // what one correct frame from here adds beyond the linear feedback law
            x.d1.push_back(1.5L * fabsl(e.C - (m.a * a.C + m.b * a.D)) + tol);
            x.d2.push_back(1.5L * fabsl(e.D - (m.c * a.C + m.d * a.D)) + tol / h * (w.cfg.sys == OPT ? 1 : 0.01L));
            ++x.n;
            Mat P; LD bound = 0;
            for (int i = x.n - 1; i >= 0; --i) { bound += fabsl(P.a) * x.d1[i] + fabsl(P.b) * x.d2[i]; P = mul(m, P); }
            const LD start = fabsl(P.a * x.C0 + P.b * x.D0);
            bound += start;
            const ConDesc &d = w.cons.at(k.first.first).d;
            if (!(fabsl(k.second.C) <= bound)) violate("recovery", "joint %d (kind %d) row %d: position error %.9g when perturbations stopped, %.9g after %d undisturbed frames, where the feedback allows at most %.9g", k.first.first, d.kind, k.first.second, (double)x.C0, (double)k.second.C, x.n, (double)bound);
            g_stats("rows.checked");
            if (bound < 0.1L * x.e0 && x.e0 > 1e-3L) { g_stats("rows.recovered_tenfold"); g_nontrivial = true; }
            if (bound < 1e-3L && x.n >= 10) g_stats("rows.held_below_1e-3");
            g_stats.max("worst_error_over_bound", (double)(fabsl(k.second.C) / bound));
        }
        lastPost = o.post; have = true;
    }
    // the reference's own frame; false where it leaves the well-posed region
    static bool refAdvance(World &w, RState &s, LD h, int steps) { return w.refFrame(s, h, steps); }
};
void exec(const Plan &p) { World w; Recover c; w.obs = &c; w.run(p); }

void gen(Rng &r, Plan &p) {
    Knobs k; k.manyRows = false; k.nSteps = 5; k.conKinds = {LINK, LINK, FIXPOS, FIXROT, LINE, ROLL}; if (r.chance(0.3)) k.conKinds = {LINK, FIXPOS, LINE, ROLL, CLUTCH, FRIC, WELD};
    k.noise = r.pick(std::vector<double>{0.02, 0.1, 0.3}); k.pFault = 0.2; k.pRestart = 0.05; k.pLimits = 0.1; k.pOutside = 0.1;
    k.dtHi = 0.02; k.maxCons = 5; k.maxBodies = 5; k.maxSub = 3; k.biasLo = 0.1; k.pRecorder = 0.3; k.pInit = 0.03; k.tolGS = 1e-10;
    const bool wideOpen = r.chance(0.12); k.pGap = wideOpen ? 1 : 0;
    Plan q; genWorld(r, q, k);
    for (auto &o : q.ops) {
        if (o.k == "CON" || o.k == "SETC") { const double ks = r.logu(60, 400); o.x[5] = ks; o.x[6] = 2 * std::sqrt(ks) * r.real(0.8, 1.4); }
        if ((o.k == "FRC" || o.k == "SETF") && o.I(1) == SPRING) o.x[2] += 0.5;
        p.add(o);
    }
    const double dt = r.logu(2e-3, 0.02); const long sub = wideOpen || r.chance(0.6) ? 1 : r.range(2, 4); const int n = (int)r.range(15, 60);
    if (r.chance(0.7)) { for (auto &o : q.ops) if (o.k == "BODY" && r.chance(0.5)) p.add("MOVE", {o.I(0)}, {r.real(-0.2, 0.2), r.real(-0.2, 0.2), r.real(-0.2, 0.2)}); }
    for (int i = 0; i < n; ++i) { p.add("STEP", {sub}, {dt * sub}); if (r.chance(0.02)) p.add("RESTART"); }
}
}
PROPERTY(C12, gen, exec)
