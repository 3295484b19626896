#include "world.h"

// ------------------------------------------------------------------ plan generation
void genWorld(Rng &r, Plan &p, const Knobs &k0) {
    Knobs k = k0;
    double unit = 1, angle = 3.5, turn = 0.05; bool rows = false; double pace = 1, wide = 1, len = 1, gap = 0; int still = 0;
    if (k.regimes) {
        if (r.chance(0.06)) { k.dtLo = 2e-5; k.dtHi = 1e-3; k.noise = std::min(k.noise, 30 * r.logu(k.dtLo, k.dtHi)); }
        else if (r.chance(0.03)) { k.dtLo = k.dtHi; k.dtHi *= r.chance(0.3) ? 40 : 5; }
        if (r.chance(0.08)) unit = r.logu(1e-3, 1e4);
        if (k.far || r.chance(0.12)) { angle = !k.far && r.chance(0.6) ? 60 : r.logu(60, 600); turn = 6; }
        if (r.chance(0.06)) still = (int)r.range(1, 3);     // starts without linear (1), angular (2) or any speed
        if (r.chance(0.06)) wide = r.logu(2, 40);           // speeds, forces and torques
        if (r.chance(0.06)) len = r.logu(0.05, 20);         // distances
        if (r.chance(0.03)) { k.maxSub = std::min(64, k.maxSub * 16); if (k.maxSub > 1 && r.chance(0.15)) { k.maxSub = 300; k.nSteps = std::min(k.nSteps, 4); } }
        if (r.chance(0.03)) k.maxFrcs *= 8;
        if (r.chance(k.pGap)) { gap = r.logu(10, 1000); k.noise = gap * r.logu(0.03, 1); }
        // now and then few kinds at a time, so that each also meets every situation on its own
        auto few = [&](std::vector<int> &v) { std::vector<int> w; for (int n = (int)r.range(1, 2); n > 0 && !v.empty(); --n) w.push_back(r.pick(v)); if (!w.empty()) v = w; };
        if (r.chance(0.25)) { few(k.conKinds); if (r.chance(0.5)) k.pLimits = 0.9; }
        if (r.chance(0.15)) few(k.frcKinds);
        if (r.chance(0.004)) { k.nSteps *= k.pEdit > 0.6 ? 15 : 40; k.maxBodies = std::min(3, k.maxBodies); k.minBodies = std::min(k.minBodies, k.maxBodies); k.maxCons = std::min(3.0, k.maxCons); k.maxFrcs = std::min(3.0, k.maxFrcs); k.pBulk = 0; }
        else if (r.chance(0.008)) { pace = r.logu(1e-8, 2e-3); k.nSteps = r.chance(0.15) ? 260 : 90; for (double *q : {&k.pEdit, &k.pFault}) *q = std::min(*q, 0.01); for (double *q : {&k.pKick, &k.pInit, &k.pReset, &k.pRestart}) *q = std::min(*q, 0.002); k.maxBodies = std::min(3, k.maxBodies); k.minBodies = std::min(k.minBodies, k.maxBodies); k.maxCons = std::min(1.0, k.maxCons); k.maxFrcs = std::min(1.0, k.maxFrcs); k.noise *= pace; k.maxSub = std::min(2, k.maxSub); k.pBulk = 0; }   // (almost) at rest for long
        else if (k.manyRows && r.chance(0.0015)) { rows = true; k.nSteps = 3; k.maxSub = 2; k.pEdit *= 0.3; k.pBulk = 0; }
    }
    auto pickBit = [&](int mask, int n) { std::vector<int> v; for (int i = 0; i < n; ++i) if (mask >> i & 1) v.push_back(i); return r.pick(v); };
    const int sys = pickBit(k.sysMask, 2), ode = pickBit(k.odeMask, 3), sle = pickBit(k.sleMask, 3);
    const double tolA = sle == GS ? k.tolGS : k.tolCG;
    p.add("CFG", {sys, ode, sle}, {r.chance(0.3) ? k.biasHi : r.real(k.biasLo, k.biasHi), tolA, 1e-11});
    if (gap > 0) p.add("GAP", {}, {gap});
    int nextB = 0, nextC = 0, nextF = 0;
    struct GB { int id; bool in; }; struct GC { int id, kind; };
    std::vector<GB> bs; std::vector<GC> cs; std::vector<int> fs, fkind;
    const bool heavy = r.chance(0.15), extreme = k.regimes && r.chance(0.03);      // wider mass ratios
    auto mass = [&]() { return unit * (extreme ? r.logu(3e-4, 3e4) : heavy ? r.logu(0.02, 50) : r.logu(k.massLo, k.massHi)); };
    auto body = [&](bool in) {
        double x = len * r.real(-3, 3), y = len * r.real(-3, 3);
        if (r.chance(0.05)) { x += 200; y -= 150; }
        p.add("BODY", {nextB, in}, {x, y, r.chance(0.2) ? 0.0 : r.real(-angle, angle), (still & 1 ? 0 : len) * pace * r.real(-2, 2), (still & 1 ? 0 : len) * pace * r.real(-2, 2), (still & 2 ? 0 : wide) * pace * r.real(-2, 2), mass(), len * len * mass()});
        bs.push_back({nextB++, in});
    };
    auto anyBody = [&](bool in) -> int { for (int t = 0; t < 20; ++t) { auto &b = bs[r.below(bs.size())]; if (b.in == in) return b.id; } return bs[r.below(bs.size())].id; };
    auto conParams = [&](int kind) {
        std::vector<double> x(9, 0.0);
        x[0] = r.chance(0.15) ? 0 : len * r.real(-1.5, 1.5); x[1] = r.chance(0.15) ? 0 : len * r.real(-1.5, 1.5);
        for (int i = 2; i < 5; ++i) x[i] = r.chance(0.3) ? 0 : r.real(-k.noise, k.noise);
        x[5] = r.chance(0.1) ? 0 : r.real(0, k.ksMax); x[6] = r.chance(0.1) ? 0 : r.real(0, k.kdMax);
        if (r.chance(0.08)) { x[5] = 10; x[6] = 1; }           // what a new constraint starts with
        if (r.chance(0.06)) x[0] = x[1] = 0;
        const bool lim = r.chance(k.pLimits);
        auto limit = [&](double lo, double hi) { return r.chance(k.pZeroLimit) ? -1.0 : r.chance(k.pOneSided) ? -1 - unit * r.logu(lo, lo * 30) : unit * wide * r.logu(lo, hi); };
        switch (kind) {
            case LINK: x[7] = !lim ? 0 : r.chance(k.pZeroLimit) ? -1 : unit * wide * r.logu(0.05, 500); break;
            case LINE: x[7] = r.real(-3.2, 3.2); x[8] = r.chance(0.6) ? 1 : r.real(0.3, 3); break;
            case ROLL: x[7] = r.real(-3.2, 3.2); x[8] = len * r.real(0.2, 2); break;
            case GEAR: x[7] = r.chance(0.05) ? 0 : r.chance(0.2) ? 1 : (r.chance(0.4) ? -1 : 1) * (r.chance(0.1) ? r.logu(0.02, 50) : r.logu(0.2, 5)); x[8] = r.chance(0.25); break;
            case CROT: x[2] = r.chance(0.05) ? 0 : r.chance(0.15) ? (r.chance(0.5) ? 1 : -1) * r.logu(0.05, 0.6) : wide * r.real(-0.05, 0.05); x[7] = lim && !r.chance(k.pNoLimit) ? limit(0.02, k.limitMax) : 0; x[8] = lim && !r.chance(k.pNoLimit) ? limit(0.02, k.limitMax) : 0; break;
            case CLUTCH: case FRIC: case LIN: x[7] = lim && !r.chance(k.pNoLimit) ? limit(0.02, k.limitMax) : 0; x[8] = lim && !r.chance(k.pNoLimit) ? limit(0.02, k.limitMax) : 0; break;
        }
        return x;
    };
    auto con = [&](bool set = false, int which = 0) {
        int id, kind;
        if (set) { id = cs[which].id; kind = cs[which].kind; } else { id = nextC++; kind = r.pick(k.conKinds); cs.push_back({id, kind}); }
        const bool out0 = r.chance(k.pOutside), out1 = r.chance(k.pOutside);
        int b0 = anyBody(!out0), b1 = anyBody(!out1);
        for (int t = 0; t < 10 && b1 == b0; ++t) b1 = anyBody(!out1);
        p.add(set ? "SETC" : "CON", {id, kind, 1, b0, b1, (long)r.below(100000), r.range(1, 3), r.range(1, 2)}, conParams(kind));
    };
    auto frc = [&](bool set = false, int which = 0) {
        const int kind = set ? fkind[which] : r.pick(k.frcKinds);
        int b0 = anyBody(!r.chance(k.pOutside)), b1 = anyBody(!r.chance(k.pOutside));
        if (kind == STATIC) b0 = anyBody(true);
        if (kind == MOTOR) b1 = anyBody(true);
        const bool loose = kind == SPRING && r.chance(0.03);
        for (int t = 0; t < 10 && b1 == b0; ++t) b1 = anyBody(true);
        std::vector<double> x;
        switch (kind) {
            case GRAV: x = {len * (r.chance(0.4) ? 9.81 : r.real(-15, 15))}; break;
            case STATIC: x = {wide * r.real(-20, 20), wide * r.real(-20, 20), len * r.real(-1, 1), len * r.real(-1, 1)}; break;
            case SPRING: x = {r.chance(0.5) ? -r.real(0.5, 1.5) : len * r.real(0, 4), r.real(0, 60), r.chance(0.5) ? 0 : r.real(0, 4), len * r.real(-1, 1), len * r.real(-1, 1), len * r.real(-1, 1), len * r.real(-1, 1)}; break;
            case MOTOR: x = {r.real(0, 20), k.motorDamping && r.chance(0.4) ? r.real(0, 0.2) : 0.0, r.chance(0.5) ? r.real(0.1, 10) : 500, wide * r.real(-5, 5)}; break;
            case DRAG: x = {r.real(0, 2), r.real(0, 2)}; break;
            case FIELD: x = {r.real(-5, 5), r.real(-5, 5), r.real(-3, 3), r.real(0.2, 2)}; break;
            case PAIR: x = {r.real(-5, 5)}; break;
        }
        if (r.chance(0.1)) switch (kind) {             // (mostly) what a new one starts with
            case GRAV: x = {9.81}; break;
            case STATIC: x[2] = x[3] = 0; if (r.chance(0.1)) x[0] = x[1] = 0; break;
            case SPRING: x[0] = 1; if (r.chance(0.5)) x[2] = 0; if (r.chance(0.3)) x[1] = 0; if (r.chance(0.7)) x[3] = x[4] = 0; if (r.chance(0.7)) x[5] = x[6] = 0; break;
            case MOTOR: if (r.chance(0.8)) x[0] = 1; if (k.motorDamping && r.chance(0.3)) x[1] = 1; if (r.chance(0.8)) x[2] = 500; if (r.chance(0.8)) x[3] = 1; break;
        }
        if (unit != 1) {
            const int units[][4] = {{}, {0, 1}, {1, 2}, {0, 1, 2}, {0, 1}, {0, 1, 2}, {0}};
            const int many[] = {0, 2, 2, 3, 2, 3, 1};
            if (kind <= PAIR && kind >= 0) for (int i = 0; i < many[kind]; ++i) x[units[kind][i]] *= unit;
        }
        if (kind == SPRING && !loose && r.chance(0.06)) {       // ends (nearly) in the same place
            auto pose = [&](int id) -> const Op * { for (auto &o : p.ops) if (o.k == "BODY" && o.I(0) == id) return &o; return nullptr; };
            const Op *a = pose(b0), *b = pose(b1); const double gap = r.chance(0.2) ? 0 : r.logu(1e-5, 0.05), dir = r.real(-3.2, 3.2);
            if (a && b) {
                const double wx = a->X(0) + std::cos(a->X(2)) * x[3] - std::sin(a->X(2)) * x[4] + gap * std::cos(dir) - b->X(0), wy = a->X(1) + std::sin(a->X(2)) * x[3] + std::cos(a->X(2)) * x[4] + gap * std::sin(dir) - b->X(1);
                x[5] = std::cos(b->X(2)) * wx + std::sin(b->X(2)) * wy; x[6] = -std::sin(b->X(2)) * wx + std::cos(b->X(2)) * wy;
                if (r.chance(0.5)) x[0] = r.chance(0.5) ? 0 : r.real(0, 0.05);
            }
        }
        if (loose) (r.chance(0.5) ? b0 : b1) = -1;
        p.add(set ? "SETF" : "FRC", {set ? fs[which] : nextF, kind, 1, b0, b1}, x);
        if (!set) { fs.push_back(nextF++); fkind.push_back(kind); }
    };
    const double baseDt = r.logu(k.dtLo, k.dtHi);
    auto step = [&]() {
        double dt = r.chance(0.7) ? baseDt : r.logu(k.dtLo, k.dtHi);
        long steps = r.chance(0.5) ? 1 : r.range(1, k.maxSub), fkd = 0, at = 0, burst = 0;
        if (r.chance(k.pFault)) {
            fkd = r.chance(0.5) ? FT_HOOK : r.chance(0.3) ? FT_ALLOC_BURST : FT_ALLOC;
            at = r.chance(0.5) ? r.range(1, 8) : r.range(1, 60); burst = r.range(1, 20);
        }
        p.add("STEP", {steps, fkd, at, burst}, {dt * steps});
        return fkd != 0;
    };
    const int nb = (int)r.range(k.minBodies, k.maxBodies);
    for (int i = 0; i < nb; ++i) body(i == 0 || !r.chance(k.pOutside));
    if (r.chance(k.pBulk)) { p.add("BULK", {1000, r.chance(0.15) ? r.range(330, 900) : r.range(80, 330)}, {r.real(0.5, 2)}); if (r.chance(0.7)) { body(true); body(true); body(true); } }
    if (rows) {         // many constraints at once
        const long n = r.range(40, 110); p.add("ROWS", {r.range(60, 260)}); p.add("BULK", {2000, n}, {unit * r.real(0.5, 2)});
        std::vector<int> two, one; for (int q : k.conKinds) (q == FIXPOS || q == FIXROT || q == LINE || q == CROT || q == FRIC ? one : two).push_back(q);
        if (!one.empty() || !two.empty()) for (long i = 0; i < n; ++i) {
            const bool pairOnly = one.empty();
            if (pairOnly && (i & 1)) continue;
            const int kind = pairOnly ? r.pick(two) : r.pick(one);
            if (pairOnly && i + 1 >= n) break;
            p.add("CON", {5000 + i, kind, 1, 2000 + i, pairOnly ? 2001 + i : 2000 + (i + 1) % n, (long)r.below(100000), r.range(1, 3), 2}, conParams(kind));
        }
    }
    if (r.chance(k.pRecorder)) { p.add("FRC", {9000, REC, 1, -1, -1}); }
    const int nc = (int)r.range(0, (long)k.maxCons), nf = (int)r.range(0, (long)k.maxFrcs);
    for (int i = 0; i < nc; ++i) con();
    for (int i = 0; i < nf; ++i) frc();
    for (int s = 0; s < k.nSteps; ++s) {
        while (r.chance(k.pEdit)) {
            const int which = (int)r.below(17);
            switch (which) {
                case 0: body(r.chance(0.8)); break;
                case 1: { auto &b = bs[r.below(bs.size())]; p.add(r.chance(0.7) ? "REMB" : "ADDB", {b.id}); b.in = p.ops.back().k == "ADDB"; break; }
                case 2: { auto &b = bs[r.below(bs.size())]; p.add("ADDB", {b.id}); b.in = true; break; }
                case 3: if (r.chance(0.4) && bs.size() > 1) { size_t i = r.below(bs.size()); p.add("DELB", {bs[i].id}); bs.erase(bs.begin() + i); } break;
                case 4: case 5: case 6: con(); break;
                case 7: if (!cs.empty()) p.add("REMC", {cs[r.below(cs.size())].id}); break;
                case 8: if (!cs.empty()) p.add("ADDC", {cs[r.below(cs.size())].id}); break;
                case 9: if (!cs.empty()) { size_t i = r.below(cs.size()); p.add("DELC", {cs[i].id}); cs.erase(cs.begin() + i); } break;
                case 10: if (!cs.empty()) con(true, (int)r.below(cs.size())); break;
                case 11: if (fs.empty() || r.chance(0.5)) frc(); else frc(true, (int)r.below(fs.size())); break;
                case 12: if (!fs.empty()) p.add(r.chance(0.5) ? "REMF" : "ADDF", {fs[r.below(fs.size())]}); break;
                case 13: if (!fs.empty()) { size_t i = r.below(fs.size()); p.add("DELF", {fs[i]}); fs.erase(fs.begin() + i); fkind.erase(fkind.begin() + i); } break;
                case 14: p.add("MASS", {anyBody(true)}, {mass(), mass()}); break;
                case 15: p.add("BIAS", {}, {r.real(k.biasLo, k.biasHi)}); break;
                case 16: if (r.chance(0.2)) p.add(r.chance(0.5) ? "REMF" : "ADDF", {9000}); break;
            }
        }
        if (r.chance(k.pKick)) p.add("KICK", {anyBody(true)}, {(still & 1 ? 0 : len) * pace * r.real(-3, 3), (still & 1 ? 0 : len) * pace * r.real(-3, 3), (still & 2 ? 0 : wide) * pace * r.real(-3, 3)});
        if (r.chance(k.pKick * 0.5)) p.add("MOVE", {anyBody(!r.chance(0.1))}, {pace * r.real(-0.05, 0.05), pace * r.real(-0.05, 0.05), pace * r.real(-turn, turn)});
        if (r.chance(k.pRestart)) p.add("RESTART");
        if (r.chance(k.pInit)) p.add("INIT", {pickBit(k.sleMask, 3), pickBit(k.odeMask, 3)}, {tolA < 1e-10 ? 1e-10 : tolA, 1e-11});
        if (r.chance(k.pReset)) p.add("RESET", {(long)r.below(7)});
        if (step()) { const Op o = p.ops.back(); if (r.chance(0.8)) p.add("STEP", {o.I(0)}, {o.X(0)}); }
    }
}

// Two worlds over one solver, taking turns. RESTART and INIT of a world would delete shared tools: left to
// World, which keeps tools it does not own.
void genShared(Rng &r, Plan &p, const Knobs &k0) {
    Knobs k = k0; k.nSteps = std::max(2, k.nSteps * 2 / 3); k.pInit = 0;
    if (r.chance(0.6)) { k.sysMask = 1 << r.below(2); if (!(k.sysMask & k0.sysMask)) k.sysMask = k0.sysMask; }
    k.odeMask = 1 << r.below(3);
    Plan q[2]; 
    for (int i = 0; i < 2; ++i) { Knobs c = k; if (i) { c.maxBodies = std::max(1, (int)r.range(1, k.maxBodies)); c.maxCons = r.range(0, (long)k.maxCons); } genWorld(r, q[i], c); }
    size_t at[2] = {0, 0}; int w = 0;
    p.add("WORLD", {0}); p.add(q[0].ops[0]); p.add("WORLD", {1}); p.add(q[1].ops[0]); at[0] = at[1] = 1;
    while (at[0] < q[0].ops.size() || at[1] < q[1].ops.size()) {
        if (at[w] >= q[w].ops.size()) w = 1 - w;
        p.add("WORLD", {w});
        while (at[w] < q[w].ops.size()) { p.add(q[w].ops[at[w]++]); if (p.ops.back().k == "STEP" && r.chance(0.7)) break; }
        w = 1 - w;
    }
}
