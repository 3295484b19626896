// C16: a linear solver that reports success returned a solution; reuse never matters.
#include "execs.h"
#include "ref.h"
#include "scs.h"
#include <cstdarg>
using namespace atg_scs;

namespace {
enum { K_GE, K_CG, K_GS };
struct Inst { int kind = 0; double tolA = -1, tolB = -1; int maxIter = -1; SleSolver *s = nullptr; };
SleSolver *make(const Inst &i) {
    SleSolver *s = nullptr;
    if (i.kind == K_GE) { LIB(s = new GaussianEliminationSleSolver); }
    else if (i.kind == K_CG) { ConjugateGradientSleSolver *x; LIB(x = new ConjugateGradientSleSolver); if (i.tolA >= 0) { x->setMaxIterations(i.maxIter); x->setMaxError(i.tolA); x->setMinError(i.tolB); } s = x; }
    else { GaussSeidelSleSolver *x; LIB(x = new GaussSeidelSleSolver); if (i.tolA >= 0) { x->m_maxIterations = i.maxIter; x->m_minDelta = i.tolA; } s = x; }
    return s;
}
double effA(const Inst &i) { return i.kind == K_CG ? static_cast<ConjugateGradientSleSolver *>(i.s)->getMaxError() : i.kind == K_GS ? static_cast<GaussSeidelSleSolver *>(i.s)->m_minDelta : 0; }
double effB(const Inst &i) { return i.kind == K_CG ? static_cast<ConjugateGradientSleSolver *>(i.s)->getMinError() : 0; }

struct Work {
    bool check;
    std::map<int, Inst> inst;
    SparseMatrix<3> J; Matrix W, right, limits, lambda, other;
    int nb = 0, m = 0;
    std::vector<int> blk; std::vector<double> Jv, Wv, bv, lo, hi;
    std::vector<LD> A; LD cond = INFINITY, invNorm = INFINITY; bool regular = false;
    uint64_t seed = 0;

    void problem(const Op &o) {             // nb m seed style fail | scale
        nb = (int)std::max(0L, std::min(400L, o.I(0))); m = (int)std::max(0L, std::min(160L, o.I(1)));
        const int style = (int)o.I(3); seed = (uint64_t)o.I(2); Rng r(seed);
        if (!nb) m = 0;
        blk.assign(2 * m, -1); Jv.assign(6 * m, 0); Wv.assign(3 * nb, 0); bv.assign(m, 0); lo.assign(m, -DBL_MAX); hi.assign(m, DBL_MAX);
        const double js = o.X(1, 1), ws = o.X(2, 1);        // other units of length and mass
        for (auto &w : Wv) w = (style & 8) && r.chance(0.2) ? 0 : ws / r.logu(0.2, (style & 16) ? 60 : 6);
        for (int i = 0; i < m; ++i) {
            int a = (int)r.below(nb), b = (int)r.below(nb); if (r.chance(0.3) || a == b) b = -1; if (r.chance(0.1)) std::swap(a, b);
            blk[2*i] = a; blk[2*i+1] = b;
            for (int k = 0; k < 6; ++k) if (blk[2*i + k/3] >= 0) Jv[6*i+k] = r.chance(0.2) ? 0 : js * r.real(-1.5, 1.5);
            if ((style & 1) && i && r.chance(0.3)) { int s = (int)r.below(i); blk[2*i] = blk[2*s]; blk[2*i+1] = blk[2*s+1]; for (int k = 0; k < 6; ++k) Jv[6*i+k] = Jv[6*s+k]; bv[i] = 0; }
            if ((style & 2) && r.chance(0.2)) { for (int k = 0; k < 6; ++k) Jv[6*i+k] = 0; if (r.chance(0.5)) blk[2*i] = blk[2*i+1] = -1; }
            bv[i] = r.chance(0.1) ? 0 : r.real(-1, 1) * o.X(0, 1);
            if (style & 4) {
                if (r.chance(0.7)) { lo[i] = -r.logu(0.01, 10) * o.X(0, 1); hi[i] = r.logu(0.01, 10) * o.X(0, 1); }
                if (r.chance(0.1)) hi[i] = 0; if (r.chance(0.1)) lo[i] = 0; if (r.chance(0.05)) lo[i] = hi[i] = 0; if (r.chance(0.1)) { lo[i] = std::fabs(bv[i]) * 0.1; hi[i] = lo[i] + r.uni(); } }
        }
        auto build = [&] {
            J.initialize(3 * nb, m); W.initialize(1, 3 * nb); right.initialize(1, m); limits.initialize(2, m);
        };
        if (!withAllocFailure(o.I(4), 0, build)) withAllocFailure(-1, 0, build);
        hand();
    }
    // one detail of the problem at hand changes: its size, and all else a solver might recognise it by, stay
    void tweak(const Op &o) {               // what where seed
        if (!m || !nb) return;
        Rng r((uint64_t)o.I(2) + 5);
        const int i = (int)(o.I(1) % m);
        int fresh = 0;
        switch (o.I(0) % 8) {
            case 0: { const int e = (int)r.below(2); for (int k = 0; k < 3; ++k) Jv[6*i+3*e+k] = -Jv[6*i+3*e+k]; break; }   // the diagonal stays
            case 1: { const int k = (int)r.below(6); if (blk[2*i+k/3] >= 0) Jv[6*i+k] = -Jv[6*i+k]; break; }
            case 2: bv[i] = -bv[i]; break;
            case 3: Wv[r.below(Wv.size())] *= r.chance(0.5) ? 2 : r.logu(0.3, 3); break;
            case 4: if (lo[i] > -DBL_MAX) lo[i] *= 0.5; else lo[i] = -std::fabs(bv[i]) - 0.1; if (hi[i] < DBL_MAX) hi[i] = std::max(lo[i], hi[i] * 0.5); else hi[i] = std::max(lo[i], std::fabs(bv[i]) * 0.1); break;
            case 5: { const int e = (int)r.below(2), b = (int)r.below(nb); if (blk[2*i+e] >= 0 && blk[2*i+1-e] != b) { blk[2*i+e] = b; fresh = 1; } break; }       // the same numbers about another body
            case 6: { const int j = (int)r.below(m); for (int k = 0; k < 6; ++k) std::swap(Jv[6*i+k], Jv[6*j+k]); std::swap(blk[2*i], blk[2*j]); std::swap(blk[2*i+1], blk[2*j+1]); fresh = 1; break; }     // rows change places, their right sides do not
            case 7: bv[i] += r.real(-1, 1) * (std::fabs(bv[i]) + 0.1); break;
        }
        if (fresh) { auto again = [&] { J.initialize(3 * nb, m); }; withAllocFailure(-1, 0, again); }
        hand();
        g_stats("problems.changed_in_one_detail");
    }
    // fill the solver's operands from the problem, and judge how hard it is
    void hand() {
        for (int i = 0; i < m; ++i) {
            for (int e = 0; e < 2; ++e) if (blk[2*i+e] >= 0) { J.setBlock(i, e, blk[2*i+e]); for (int k = 0; k < 3; ++k) J.set(i, e, k, Jv[6*i+3*e+k]); }
            right.set(0, i, bv[i]); limits.set(0, i, lo[i]); limits.set(1, i, hi[i]);
        }
        for (int k = 0; k < 3 * nb; ++k) W.set(0, k, Wv[k]);
        A.assign(m * m, 0);
        for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) for (int e = 0; e < 2; ++e) for (int f = 0; f < 2; ++f)
            if (blk[2*i+e] >= 0 && blk[2*i+e] == blk[2*j+f]) for (int k = 0; k < 3; ++k) A[i*m+j] += (LD)Jv[6*i+3*e+k] * Wv[3*blk[2*i+e]+k] * Jv[6*j+3*f+k];
        // condition through the same routine the reference model uses
        Problem p; RState s; s.n = nb; s.m.assign(nb, 1); s.I.assign(nb, 1);
        invNorm = INFINITY; regular = true; for (auto w : Wv) if (!(w > 0)) regular = false;
        cond = INFINITY;
        if (regular && m) {
            // x-y weights differ here, so fold them into the rows
            p.rows.resize(m);
            for (int i = 0; i < m; ++i) { Rows &R = p.rows[i]; R.n = 1; R.nb = 2; R.body[0] = blk[2*i]; R.body[1] = blk[2*i+1]; for (int k = 0; k < 6; ++k) R.J[0][k] = blk[2*i+k/3] >= 0 ? (LD)Jv[6*i+k] * sqrtl((LD)Wv[3*blk[2*i+k/3] + k%3]) : 0; }
            buildProblem(s, p); regular = p.ok; cond = p.cond;
            if (p.ok) { invNorm = 0; for (int i = 0; i < m; ++i) { LD q = 0; for (int j = 0; j < m; ++j) q += fabsl(p.Ainv[i*m+j]); invNorm = std::max(invNorm, q); } }
        } else if (!m) cond = 1;
        g_stats(regular ? "problems.regular" : "problems.degenerate");
    }
    [[gnu::format(printf, 3, 4)]] void fail(const char *kind, const char *f, ...) {
        if (!check) return;
        char b[500]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); violate(kind, "%s", b);
    }
    bool call(SleSolver *s, bool lim, Matrix *prev, Matrix *res) { return lim ? s->solveWithLimits(J, W, right, limits, res, prev) : s->solve(J, W, right, prev, res); }

    void solve(const Op &o) {               // inst warm useLimits fail burst resultMode seed
        auto it = inst.find((int)o.I(0)); if (it == inst.end()) return;
        Inst &in = it->second;
        const bool lim = o.I(2) && in.s->supportsLimits();
        static const char *names[] = {"Gaussian elimination", "conjugate gradient", "Gauss-Seidel"};
        const char *nm = names[in.kind];
        Rng r((uint64_t)o.I(6) + 17);
        Matrix &res = (o.I(5) & 1) ? other : lambda;
        if (o.I(5) & 2) { LIB(res.destroy()); }
        if (o.I(5) & 4) { LIB(res.initialize(1, m ? m + (int)r.range(1, 9) : 1, r.chance(0.5) ? NAN : 1e300)); }      // left by a larger problem
        Matrix warm; Matrix *prev = nullptr;
        double x0 = 0;
        // an approximation given apart from the result is the only one that counts, whatever the result object still holds
        const bool given = o.I(1) % 5 == 2 || o.I(1) % 5 == 4;
        if (given && (o.I(5) & 8) && m) { LIB(res.resize(1, m)); for (int i = 0; i < m; ++i) res.set(0, i, r.chance(0.3) ? NAN : r.chance(0.3) ? INFINITY : r.real(-1, 1) * r.logu(1e-3, 1e300)); }
        // otherwise what the caller holds in a result object of the right size is an input of an iterative solver: keep it finite
        const bool fits = !given && res.getHeight() == m;
        if (fits) for (int i = 0; i < m; ++i) if (!(std::fabs(res.get(0, i)) < 1e6)) res.set(0, i, 0);
        switch (o.I(1) % 5) {
            case 1: prev = &res; break;                                                  // as the systems do
            case 2: LIB(warm.initialize(1, m)); for (int i = 0; i < m; ++i) warm.set(0, i, r.real(-1, 1) * r.logu(0.01, 100)); prev = &warm; break;
            case 3: LIB(warm.initialize(1, (int)r.range(0, 50), 0.5)); prev = &warm; break;  // of another problem
            case 4: LIB(warm.initialize(1, m, 0.0)); prev = &warm; break;
        }
        if (prev && prev->getHeight() == m) for (int i = 0; i < m; ++i) x0 = std::max(x0, std::fabs(prev->get(0, i)));
        if (fits) for (int i = 0; i < m; ++i) x0 = std::max(x0, std::fabs(res.get(0, i)));
        // the same call on a fresh solver and fresh vectors
        Inst fi = in; fi.s = make(in);
        // hopeless problems get fewer iterations, they would take for ever
        if (!(regular && cond < 1e4) && in.maxIter > 0) for (SleSolver *s : {in.s, fi.s}) {
            if (in.kind == K_CG) static_cast<ConjugateGradientSleSolver *>(s)->setMaxIterations(std::min(in.maxIter, 300));
            if (in.kind == K_GS) static_cast<GaussSeidelSleSolver *>(s)->m_maxIterations = std::min(in.maxIter, 300);
        } else if (in.maxIter > 0) {
            if (in.kind == K_CG) static_cast<ConjugateGradientSleSolver *>(in.s)->setMaxIterations(in.maxIter);
            if (in.kind == K_GS) static_cast<GaussSeidelSleSolver *>(in.s)->m_maxIterations = in.maxIter;
        }
        Matrix fres, fwarm; Matrix *fprev = nullptr;
        auto clone = [&](Matrix &a, Matrix &b) { if (a.getWidth() || a.getHeight()) { LIB(b.resize(a.getWidth(), a.getHeight())); for (int i = 0; i < a.getHeight(); ++i) for (int j = 0; j < a.getWidth(); ++j) b.set(j, i, a.get(j, i)); } };
        if (fits) clone(res, fres);         // anything else held before is irrelevant
        if (prev == &warm) { clone(warm, fwarm); fprev = &fwarm; } else if (prev) fprev = &fres;
        bool ok = false, threw = false;
        if (!withAllocFailure(o.I(3), o.I(4), [&] { ok = call(in.s, lim, prev, &res); })) {
            threw = true; g_stats("solves.failed_allocation");
            // retried once memory is back: the caller's vectors may have been resized, so offer nothing
            clone(fres, res);
            if (fres.getHeight() == 0) { LIB(res.destroy()); }
            withAllocFailure(-1, 0, [&] { ok = call(in.s, lim, prev, &res); });
        }
        bool fok = false;
        withAllocFailure(-1, 0, [&] { fok = call(fi.s, lim, fprev, &fres); });
        g_log.u(ok); g_sig.u(in.kind * 1000 + m * 8 + ok * 4 + lim * 2 + threw); g_sig.u(o.I(1));
        if (ok != fok) fail("history", "%s %s this %d-row problem, a fresh solver %s it", nm, ok ? "solves" : "does not solve", m, fok ? "solves" : "does not solve");
        std::vector<double> x(m);
        if (ok) {
            if (res.getHeight() != m || (m && res.getWidth() != 1)) { fail("size", "%s reports success for %d rows but its result is %dx%d", nm, m, res.getWidth(), res.getHeight()); }
            else for (int i = 0; i < m; ++i) {
                x[i] = res.get(0, i); g_log.d(x[i]);
                if (!std::isfinite(x[i])) fail("not-finite", "%s reports success with x[%d] = %g", nm, i, x[i]);
                if (fok && fres.getHeight() == m && !bitEq(x[i], fres.get(0, i))) fail("history", "%s: x[%d] = %.17g, a fresh solver returns %.17g for the same problem", nm, i, x[i], fres.get(0, i));
            }
            verify(in, nm, lim, x, x0);
            g_stats("solves.succeeded"); g_nontrivial = true;
        } else {
            g_stats("solves.rejected");
            static const double limit[3] = {1e5, 2e3, 300};
            const bool deep = in.kind == K_GE || (in.tolA >= 0 && in.maxIter >= 10000);
            if (regular && cond < limit[in.kind] && deep && x0 < 1e4 && attainable(in, x0))
                fail("unsolved", "%s does not solve a well-conditioned problem of %d rows (condition %.3g)", nm, m, (double)cond);
        }
        for (auto *k : {&fres, &fwarm, &warm}) { LIB(k->destroy()); }
        LIB(delete fi.s);
        // operands are inputs only
        for (int i = 0; i < m; ++i) if (!bitEq(right.get(0, i), bv[i])) fail("operand", "%s changed the right side", nm);
        for (int k = 0; k < 3 * nb; ++k) if (!bitEq(W.get(0, k), Wv[k])) fail("operand", "%s changed the weights", nm);
    }
    // whether rounding allows conjugate gradient to reach the residual it was asked for
    bool attainable(const Inst &in, double x0) {
        if (in.kind != K_CG || !m) return true;
        LD maxA = 0, maxB = 0, want = INFINITY;
        for (int i = 0; i < m; ++i) { LD s = 0; for (int j = 0; j < m; ++j) s += fabsl(A[i*m+j]); maxA = std::max(maxA, s); maxB = std::max(maxB, fabsl((LD)bv[i])); want = std::min(want, std::max(fabsl((LD)effA(in) * bv[i]), fabsl((LD)effB(in)))); }
        return want > 1e-12L * (maxA * (invNorm * maxB + x0) + maxB);
    }
    void verify(const Inst &in, const char *nm, bool lim, const std::vector<double> &x, double x0) {
        if (!check) return;
        LD maxA = 0, maxX = 0, maxB = 0;
        for (int i = 0; i < m; ++i) { LD s = 0; for (int j = 0; j < m; ++j) s += fabsl(A[i*m+j]); maxA = std::max(maxA, s); maxX = std::max(maxX, fabsl((LD)x[i])); maxB = std::max(maxB, fabsl((LD)bv[i])); }
        for (int i = 0; i < m; ++i) {
            LD r = bv[i], mag = fabsl((LD)bv[i]), up = 0;
            for (int j = 0; j < m; ++j) { r -= A[i*m+j] * x[j]; mag += fabsl(A[i*m+j] * x[j]); if (j != i) up += fabsl(A[i*m+j]) * std::max((LD)1e-3L, fabsl((LD)x[j])); }
            LD tol = 1e-12L * mag;
            if (in.kind == K_GE) tol += 1e-11L * maxA * maxX;
            if (in.kind == K_CG) tol += 1.05L * std::max(fabsl((LD)effA(in) * bv[i]), (LD)effB(in)) + 1e-11L * (maxA * (maxX + x0) + maxB);
            if (in.kind == K_GS) tol += 1.5L * effA(in) * up / (1 - std::min(0.5, effA(in))) + 1e-12L * fabsl(A[i*m+i]) * fabsl((LD)x[i]);
            if (lim) {
                if (!(x[i] >= lo[i] && x[i] <= hi[i])) fail("limits", "%s: x[%d] = %.17g outside its limits %.17g .. %.17g", nm, i, x[i], lo[i], hi[i]);
                const bool atLo = x[i] == lo[i], atHi = x[i] == hi[i];
                if (atLo && atHi) continue;
                if (atHi && !(r >= -tol)) fail("complementarity", "%s: x[%d] is held at its maximum %.17g although the row asks for less (residual %.3g, tolerance %.3g)", nm, i, hi[i], (double)r, (double)tol);
                if (atLo && !(r <= tol)) fail("complementarity", "%s: x[%d] is held at its minimum %.17g although the row asks for more (residual %.3g, tolerance %.3g)", nm, i, lo[i], (double)r, (double)tol);
                if (atLo || atHi) continue;
            }
            g_stats.max("worst_residual_to_tolerance", tol > 0 ? (double)(fabsl(r) / tol) : 0);
            if (!(fabsl(r) <= tol + 1e-280L)) fail("residual", "%s reports success but row %d of %d misses its right side by %.3g (tolerance %.3g)", nm, i, m, (double)r, (double)tol);
        }
    }
    void close() {
        for (auto &k : inst) { LIB(delete k.second.s); }
        inst.clear();
        LIB(J.destroy()); for (auto *k : {&W, &right, &limits, &lambda, &other}) { LIB(k->destroy()); }
    }
};
void exec(const Plan &p) { execSolvers(p, true); }
}

void execSolvers(const Plan &p, bool check) {
    Work *w = new Work; w->check = check;
    for (size_t i = 0; i < p.ops.size(); ++i) {
        g_opIndex = (int)i; const Op &o = p.ops[i];
        if (o.k == "INST") { Inst n; n.kind = (int)(o.I(1) % 3); n.tolA = o.X(0, -1); n.tolB = o.X(1, -1); n.maxIter = (int)o.I(2, -1); if (!w->inst.count((int)o.I(0))) { n.s = make(n); w->inst[(int)o.I(0)] = n; } }
        else if (o.k == "DROP") { auto it = w->inst.find((int)o.I(0)); if (it != w->inst.end()) { LIB(delete it->second.s); w->inst.erase(it); } }
        else if (o.k == "PROB") w->problem(o);
        else if (o.k == "TWEAK") w->tweak(o);
        else if (o.k == "SOLVE") { seam::edgeBudget = seam::edges + 8000000000ull; w->solve(o); }
    }
    w->close();
    delete w;
}
void genSolvers(Rng &r, Plan &p) {
    const int n = (int)r.range(2, 4);
    std::vector<int> kinds; 
    for (int i = 0; i < n; ++i) {
        const int kind = (int)r.below(3); kinds.push_back(kind);
        if (r.chance(0.3)) p.add("INST", {i, kind});
        else if (kind == K_GS) p.add("INST", {i, kind, r.chance(0.8) ? 10000 : r.range(1, 300)}, {r.chance(0.7) ? 1e-9 : r.logu(1e-10, 0.3), 0});
        else p.add("INST", {i, kind, r.chance(0.8) ? 10000 : r.range(1, 300)}, {r.logu(1e-12, 1e-3), r.logu(1e-12, 1e-6)});
    }
    const double pf = r.chance(0.4) ? 0.2 : 0;
    const int np = (int)r.range(4, 14), maxm = r.chance(0.7) ? 8 : 24;
    for (int i = 0; i < np; ++i) {
        int style = 0;
        if (r.chance(0.5)) style |= 4; if (r.chance(0.12)) style |= 1; if (r.chance(0.12)) style |= 2; if (r.chance(0.08)) style |= 8; if (r.chance(0.15)) style |= 16;
        if (r.chance(0.01)) { const long b = r.range(50, 330); p.add("PROB", {b, r.range(1, std::min(150L, r.chance(0.7) ? b / 2 : b)), (long)r.below(100000000), style & 20, 0}, {r.logu(0.1, 1000), 1.0, 1.0}); }
        else {
        const long nb = r.range(1, maxm + 2), m = r.chance(0.07) ? 0 : (style & 3) ? r.range(1, 10) : r.range(1, std::min<long>(maxm, r.chance(0.9) ? nb * 2 : nb * 3 + 2));
        p.add("PROB", {nb, m, (long)r.below(100000000), style, r.chance(pf) ? r.range(1, 6) : 0}, {r.chance(0.1) ? r.logu(1e-6, 1e6) : r.logu(0.1, 1000), r.chance(0.12) ? r.logu(1e-7, 1e7) : 1.0, r.chance(0.12) ? r.logu(1e-9, 1e9) : 1.0});
        }
        for (int s = (int)r.range(1, 3); s > 0; --s) {
            if (r.chance(0.25)) p.add("TWEAK", {(long)r.below(8), (long)r.below(24), (long)r.below(100000)});
            const bool f = r.chance(pf);
            p.add("SOLVE", {(long)r.below(n), (long)r.below(5), (long)r.chance(0.7), f ? r.range(1, 12) : 0, f && r.chance(0.3) ? r.range(1, 4) : 0, r.chance(0.6) ? 0 : (long)r.below(12), (long)r.below(100000)});
        }
    }
}
PROPERTY(C16, genSolvers, exec)
