// Simulated callers of the matrix containers, linear solvers and integrators. With check = false
// only the run itself happens (and is logged): memory safety and independence checks use that.
#pragma once
#include "core.h"
void execContainers(const Plan &p, bool check);
void genContainers(Rng &r, Plan &p);
void execSolvers(const Plan &p, bool check);
void genSolvers(Rng &r, Plan &p);
void execIntegrators(const Plan &p, bool check);
void genIntegrators(Rng &r, Plan &p);

// Runs library code with its n-th allocation failing (n <= 0: none); false if it threw bad_alloc.
template <class F> bool withAllocFailure(long n, long burst, F f) {
    const uint64_t before = seam::allocFailed;
    seam::failAt = n > 0 ? n : -1; seam::failEvery = n > 0 ? burst : 0;
    bool ok = true;
    try { seam::poisonStack(); seam::LibScope l; f(); }
    catch (const std::bad_alloc &) { ok = false; }
    seam::failAt = -1; seam::failEvery = 0;
    if (seam::allocFailed != before) g_stats("fault.alloc_fail", seam::allocFailed - before);
    return ok;
}
