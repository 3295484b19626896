// C08: memory safety (AddressSanitizer, the library's own assertions) and nothing kept after destruction.
#include "world.h"
#include "execs.h"

namespace {
void ledger(const char *what) {
    if (seam::newMismatch) violate("mismatched-delete", "%lu blocks of %s were released with the wrong form of delete", (unsigned long)seam::newMismatch, what);
    if (seam::liveLibBlocks()) violate("leak", "%lu blocks (%lu bytes) allocated by the library are still there after every object of %s has been destroyed", (unsigned long)seam::liveLibBlocks(), (unsigned long)seam::liveLibBytes(), what);
}
void exec(const Plan &p) {
    Plan q = p; long m = 0, order = 0;
    if (!q.ops.empty() && q.ops[0].k == "MODE") { m = q.ops[0].I(0); order = q.ops[0].I(3); seam::fillMode = (int)q.ops[0].I(1, 2) % seam::F_COUNT; seam::fillSeed = q.ops[0].I(2, 1); q.ops.erase(q.ops.begin()); }
    ledger("an earlier run");
    if (m <= 1) {
        Worlds w;
        w.run(q);
        if (w.a.stepsDone + w.b.stepsDone > 0) g_nontrivial = true;
        w.destroyAll((int)order);
        g_stats(m ? "histories.shared_worlds" : "histories.worlds");
        ledger("a world");
    } else {
        if (m == 2) execContainers(q, false); else if (m == 3) execSolvers(q, false); else execIntegrators(q, false);
        g_stats(m == 2 ? "histories.matrices" : m == 3 ? "histories.solvers" : "histories.integrators"); g_nontrivial = true;
        ledger(m == 2 ? "a matrix history" : m == 3 ? "a solver history" : "an integrator history");
    }
}
void gen(Rng &r, Plan &p) {
    const long m = r.chance(0.55) ? 0 : r.chance(0.35) ? 1 : r.range(2, 4);
    p.add("MODE", {m, r.range(0, seam::F_COUNT - 1), (long)r.below(1000000), r.chance(0.5) ? 0 : (long)r.below(128 * 128)});
    if (m <= 1) {
        Knobs k; k.nSteps = 9; k.pFault = r.chance(0.6) ? 0.35 : 0; k.pInit = 0.06; k.pReset = 0.06; k.pRestart = 0.08; k.pBulk = 0.06; k.pEdit = r.chance(0.5) ? 0.75 : 0.4; k.pRecorder = 0.2;
        k.maxCons = 10;
        if (r.chance(0.1)) k.nSteps = r.range(0, 1);
        Plan q; if (m) genShared(r, q, k); else genWorld(r, q, k);
        const double pa = r.chance(0.5) ? 0.25 : 0;
        for (auto &o : q.ops) {
            if (pa && (o.k == "BODY" || o.k == "CON" || o.k == "FRC" || o.k[0] == 'A' && o.k != "AFAIL" || o.k == "BULK") && r.chance(pa)) p.add("AFAIL", {1, r.chance(0.2)});
            p.add(o);
            // remove everything now and then
            if (o.k == "STEP" && r.chance(0.06)) {
                const int hi = (int)q.ops.size();
                for (int i = 0; i < std::min(hi, 12); ++i) { if (r.chance(0.8)) p.add("REMC", {i}); }
                for (int i = 0; i < 12; ++i) { if (r.chance(0.9)) p.add("REMB", {i}); }
                if (r.chance(0.5)) for (int i = 0; i < 8; ++i) p.add("REMF", {i});
                p.add("STEP", {1, r.chance(0.2) ? FT_ALLOC : 0, 1, 0}, {0.01});
                for (int i = 0; i < 12; ++i) if (r.chance(0.5)) p.add("ADDB", {i});
            }
        }
    } else { Plan q; if (m == 2) genContainers(r, q); else if (m == 3) genSolvers(r, q); else genIntegrators(r, q); for (auto &o : q.ops) p.add(o); }
}
}
PROPERTY(C08, gen, exec)
