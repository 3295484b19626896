// C18: integrators and states survive reuse, size changes and abandoned steps.
#include "execs.h"
#include "scs.h"
#include <cstdarg>
using namespace atg_scs;
typedef long double LD;

namespace {
enum { O_EULER, O_NSV, O_RK4 };
const int NF = 13;                              // per-body fields
double **field(SystemState &s, int f) {
    switch (f) {
        case 0: return &s.p_x; case 1: return &s.p_y; case 2: return &s.theta; case 3: return &s.v_x; case 4: return &s.v_y; case 5: return &s.v_theta;
        case 6: return &s.a_x; case 7: return &s.a_y; case 8: return &s.a_theta; case 9: return &s.f_x; case 10: return &s.f_y; case 11: return &s.t; default: return &s.m;
    }
}
const char *fname(int f) { static const char *n[] = {"p_x", "p_y", "theta", "v_x", "v_y", "v_theta", "a_x", "a_y", "a_theta", "f_x", "f_y", "t", "m"}; return n[f]; }
double **rfield(SystemState &s, int f) { return f == 0 ? &s.r_x : f == 1 ? &s.r_y : &s.r_t; }

struct St {                                     // a state and the array model of its specified part
    SystemState s; int n = 0, nc = 0;
    std::vector<double> v[NF], r[3]; std::vector<int> map;
};
// The derivative the simulated caller supplies: couples every coordinate with the next body's.
template <class T> T accel(int k, int n3, const T *q, const T *v) {
    using std::sin;
    const int o = (k + 3) % n3;
    return T(-3) * q[k] + T(2) * sin(q[o]) - T(0.3) * v[k] + T(0.2) * v[o] + T(0.1) * T(k % 5);
}
struct Work {
    bool check;
    St st[3];
    struct Ode { int kind; OdeSolver *o; } od[4];
    [[gnu::format(printf, 3, 4)]] void fail(const char *kind, const char *f, ...) {
        if (!check) return;
        char b[500]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); violate(kind, "%s", b);
    }
    void init() {
        const int kinds[4] = {O_EULER, O_NSV, O_RK4, O_RK4};
        for (int i = 0; i < 4; ++i) { od[i].kind = kinds[i]; LIB(od[i].o = kinds[i] == O_EULER ? (OdeSolver *)new EulerOdeSolver : kinds[i] == O_NSV ? (OdeSolver *)new NsvOdeSolver : new Rk4OdeSolver); }
    }
    void close() { for (auto &k : st) { LIB(k.s.destroy()); } for (auto &k : od) { LIB(delete k.o); } }
    void fill(St &x, int n, int nc, uint64_t seed) {
        Rng r(seed); x.n = n; x.nc = nc;
        for (int f = 0; f < NF; ++f) { x.v[f].resize(n); for (int i = 0; i < n; ++i) { x.v[f][i] = f == 12 ? r.real(0.5, 3) : r.real(-2, 2); (*field(x.s, f))[i] = x.v[f][i]; } }
        for (int f = 0; f < 3; ++f) { x.r[f].resize(2 * nc); for (int i = 0; i < 2 * nc; ++i) { x.r[f][i] = r.real(-5, 5); (*rfield(x.s, f))[i] = x.r[f][i]; } }
        x.map.resize(nc); for (int i = 0; i < nc; ++i) x.s.indexMap[i] = x.map[i] = (int)r.below(1000);
    }
    void same(St &x, const char *what) {
        if (x.s.n < x.n || x.s.n_c < x.nc) { fail("size", "%s: the state holds %d bodies and %d rows, %d and %d were asked for", what, x.s.n, x.s.n_c, x.n, x.nc); return; }
        for (int f = 0; f < NF; ++f) for (int i = 0; i < x.n; ++i) { const double v = (*field(x.s, f))[i]; g_log.d(v); if (!bitEq(v, x.v[f][i])) fail("contents", "%s: %s[%d] is %.17g, it should be %.17g", what, fname(f), i, v, x.v[f][i]); }
        for (int f = 0; f < 3; ++f) for (int i = 0; i < 2 * x.nc; ++i) { const double v = (*rfield(x.s, f))[i]; g_log.d(v); if (!bitEq(v, x.r[f][i])) fail("contents", "%s: r_%c[%d] is %.17g, it should be %.17g", what, "xyt"[f], i, v, x.r[f][i]); }
        for (int i = 0; i < x.nc; ++i) { g_log.u(x.s.indexMap[i]); if (x.s.indexMap[i] != x.map[i]) fail("contents", "%s: indexMap[%d] is %d, it should be %d", what, i, x.s.indexMap[i], x.map[i]); }
    }
    void afterFailure(St &x, const char *what) {
        g_stats("ops.failed");
        if (x.s.n >= x.n && x.s.n_c >= x.nc && x.s.n > 0) same(x, what);            // unchanged
        else { x.n = x.nc = 0; if (x.s.n != 0 || x.s.n_c != 0) fail("failed-size", "%s: after a failed allocation the state claims %d bodies and %d rows", what, x.s.n, x.s.n_c); }
    }
    void run(const Op &o) {                     // ode slot steps abandonAt endIt fail seed | dt
        Ode &d = od[o.I(0) % 4]; St &x = st[o.I(1) % 3];
        if (!x.n) return;
        const double h = o.X(0, 0.01); const int n = x.n, n3 = 3 * n, steps = (int)std::max(1L, std::min(5L, o.I(2)));
        const long abandon = o.I(3);
        long calls = 0;
        auto quit = [&] { return abandon > 0 && ++calls > abandon; };
        // entries the caller does not use stay harmless
        for (int f = 0; f < 12; ++f) for (int i = n; i < x.s.n; ++i) (*field(x.s, f))[i] = 0;
        for (int f = 0; f < 3; ++f) for (int i = 2 * x.nc; i < 2 * x.s.n_c; ++i) (*rfield(x.s, f))[i] = 0;
        std::vector<LD> q(n3), v(n3), a(n3), q0, v0, qs, vs, aq, av;
        for (int k = 0; k < n3; ++k) { q[k] = x.v[k % 3][k / 3]; v[k] = x.v[3 + k % 3][k / 3]; }
        bool done = false;
        for (int s = 0; s < steps && !done; ++s) {
            if (quit()) { done = true; break; }
            auto start = [&] { d.o->start(&x.s, h); };
            if (!withAllocFailure(s == 0 ? o.I(5) : 0, 0, start)) { same(x, "a failed start"); g_stats("ops.failed"); if (!withAllocFailure(-1, 0, start)) return; }
            LD scale = 1; for (int k = 0; k < n3; ++k) scale = std::max(scale, std::max(fabsl(q[k]), fabsl(v[k])));
            q0 = q; v0 = v; qs = q; vs = v; aq.assign(n3, 0); av.assign(n3, 0);
            const int stages = d.kind == O_RK4 ? 4 : 1; bool fin = false;
            const LD tol = 1e-12L * scale * (1 + s) * (1 + powl(5 * fabsl((LD)h), 4));
            for (int g = 0; !fin; ++g) {
                if (quit()) { done = true; break; }
                LIB(fin = d.o->step(&x.s));
                if (fin != (g == stages - 1)) { fail("stages", "stage %d of %d reports %s", g + 1, stages, fin ? "the last stage" : "more to come"); if (g > 6) return; }
                if (g >= stages) return;
                // what the caller sees at this stage
                if (d.kind == O_RK4 && g) { const LD f[4] = {0, 0.5L, 0.5L, 1}; for (int k = 0; k < n3; ++k) { qs[k] = q0[k] + f[g] * h * vs[k]; } std::vector<LD> pv = vs; for (int k = 0; k < n3; ++k) vs[k] = v0[k] + f[g] * h * a[k]; }
                std::vector<double> dq(n3), dv(n3);
                for (int k = 0; k < n3; ++k) {
                    dq[k] = (*field(x.s, k % 3))[k / 3]; dv[k] = (*field(x.s, 3 + k % 3))[k / 3];
                    if (!(fabsl(dq[k] - qs[k]) <= tol) || !(fabsl(dv[k] - vs[k]) <= tol)) fail("stage-state", "step %d stage %d offers coordinate %d as %.17g, %.17g; it should be %.17g, %.17g", s, g + 1, k, dq[k], dv[k], (double)qs[k], (double)vs[k]);
                }
                for (int k = 0; k < n3; ++k) { const double ac = accel<double>(k, n3, dq.data(), dv.data()); (*field(x.s, 6 + k % 3))[k / 3] = ac; a[k] = accel<LD>(k, n3, qs.data(), vs.data()); }
                const LD c[4] = {1, 2, 2, 1};
                if (d.kind == O_RK4) for (int k = 0; k < n3; ++k) { aq[k] += c[g] * vs[k]; av[k] += c[g] * a[k]; }
                if (quit()) { done = true; break; }
                LIB(d.o->solve(&x.s));
            }
            if (done) break;
            if (d.kind == O_EULER) for (int k = 0; k < n3; ++k) { q[k] += h * v[k]; v[k] += h * a[k]; }
            else if (d.kind == O_NSV) for (int k = 0; k < n3; ++k) { v[k] += h * a[k]; q[k] += h * v[k]; }
            else for (int k = 0; k < n3; ++k) { q[k] = q0[k] + h / 6 * aq[k]; v[k] = v0[k] + h / 6 * av[k]; }
            for (int k = 0; k < n3; ++k) {
                const double dq = (*field(x.s, k % 3))[k / 3], dv = (*field(x.s, 3 + k % 3))[k / 3];
                static const char *nm[] = {"explicit Euler", "semi-implicit Euler", "fourth-order Runge-Kutta"};
                if (!(fabsl(dq - q[k]) <= tol) || !(fabsl(dv - v[k]) <= tol)) fail("result", "%s step %d with dt = %g over %d bodies: coordinate %d becomes %.17g, %.17g; the method gives %.17g, %.17g", nm[d.kind], s, h, n, k, dq, dv, (double)q[k], (double)v[k]);
                g_log.d(dq); g_log.d(dv);
                q[k] = dq; v[k] = dv;
            }
            for (int i = 0; i < n; ++i) if (!bitEq(x.s.m[i], x.v[12][i])) fail("mass", "the integrator changed a mass");
            if (o.I(4) || s + 1 < steps) { LIB(d.o->end()); }
            g_nontrivial = true; g_stats("ode.steps_compared");
        }
        if (done) { g_stats("fault.abandoned_step"); if (o.I(4)) { LIB(d.o->end()); } }
        for (int f = 0; f < NF; ++f) for (int i = 0; i < n; ++i) x.v[f][i] = (*field(x.s, f))[i];
        for (int f = 0; f < 3; ++f) for (int i = 0; i < 2 * x.nc; ++i) x.r[f][i] = (*rfield(x.s, f))[i];
        if (done) { Rng r(o.I(6)); fill(x, x.n, x.nc, (uint64_t)o.I(6)); }           // what a caller does after giving up: start over
    }
    void op(const Op &o) {
        if (o.k == "SR") {                      // slot n nc fail seed
            St &x = st[o.I(0) % 3]; const int n = (int)std::max(1L, std::min(400L, o.I(1))), nc = (int)std::max(0L, std::min(400L, o.I(2)));
            auto f = [&] { x.s.resize(n, nc); };
            if (!withAllocFailure(o.I(3), 0, f)) { afterFailure(x, "resize"); if (!withAllocFailure(-1, 0, f)) return; }
            if (x.s.n < n || x.s.n_c < nc) { fail("size", "resized to %d bodies and %d rows, the state holds %d and %d", n, nc, x.s.n, x.s.n_c); return; }
            fill(x, n, nc, (uint64_t)o.I(4)); same(x, "resize");
        } else if (o.k == "SK") {               // shrink request
            St &x = st[o.I(0) % 3]; if (x.n < 2) return; const int n = (int)(1 + o.I(1) % x.n), nc = x.nc ? (int)(o.I(2) % x.nc) : 0;
            LIB(x.s.resize(n, nc)); fill(x, n, nc, (uint64_t)o.I(1)); same(x, "resize to a smaller size");
        } else if (o.k == "SC") {               // dst src fail
            St &d = st[o.I(0) % 3], &s = st[o.I(1) % 3]; if (&d == &s || !s.n) return;
            for (int f = 0; f < NF; ++f) for (int i = s.n; i < s.s.n; ++i) (*field(s.s, f))[i] = 0;
            for (int f = 0; f < 3; ++f) for (int i = 2 * s.nc; i < 2 * s.s.n_c; ++i) (*rfield(s.s, f))[i] = 0;
            for (int i = s.nc; i < s.s.n_c; ++i) s.s.indexMap[i] = 0;
            auto f = [&] { d.s.copy(&s.s); };
            if (!withAllocFailure(o.I(2), 0, f)) { afterFailure(d, "copy"); same(s, "source of a failed copy"); if (!withAllocFailure(-1, 0, f)) return; }
            d.n = s.n; d.nc = s.nc; for (int q = 0; q < NF; ++q) d.v[q] = s.v[q]; for (int q = 0; q < 3; ++q) d.r[q] = s.r[q]; d.map = s.map;
            same(d, "copy"); same(s, "source of a copy");
            // small changes to the source, copied again each time
            Rng r((uint64_t)o.I(3));
            for (int t = 0; t < o.I(4); ++t) {
                const int f = (int)r.below(NF + 4);
                if (f < NF) { const int i = (int)r.below(s.n); (*field(s.s, f))[i] = s.v[f][i] = f == 12 ? r.real(0.5, 3) : r.real(-2, 2); }
                else if (s.nc && f < NF + 3) { const int i = (int)r.below(2 * s.nc); (*rfield(s.s, f - NF))[i] = s.r[f - NF][i] = r.real(-5, 5); }
                else if (s.nc) { const int i = (int)r.below(s.nc); s.s.indexMap[i] = s.map[i] = (int)r.below(1000); }
                LIB(d.s.copy(&s.s));
                for (int q = 0; q < NF; ++q) d.v[q] = s.v[q]; for (int q = 0; q < 3; ++q) d.r[q] = s.r[q]; d.map = s.map;
                same(d, "a second copy after a small change"); g_stats("states.recopied");
            } g_stats("states.copied"); g_nontrivial = true;
        } else if (o.k == "SD") { St &x = st[o.I(0) % 3]; LIB(x.s.destroy()); x.n = x.nc = 0; if (x.s.n || x.s.n_c) fail("size", "a destroyed state claims %d bodies and %d rows", x.s.n, x.s.n_c); }
        else if (o.k == "RUN") run(o);
        g_sig.s(o.k.c_str()); for (long v : o.i) g_sig.u(v % 53);
    }
};
void exec(const Plan &p) { execIntegrators(p, true); }
}
void execIntegrators(const Plan &p, bool check) {
    Work *w = new Work; w->check = check; w->init();
    for (size_t i = 0; i < p.ops.size(); ++i) { g_opIndex = (int)i; w->op(p.ops[i]); }
    w->close(); delete w;
}
void genIntegrators(Rng &r, Plan &p) {
    const int n = (int)r.range(10, 40); const double pf = r.chance(0.4) ? 0.2 : 0;
    const int maxn = r.chance(0.7) ? 6 : r.chance(0.7) ? 40 : 300;
    for (int i = 0; i < 3; ++i) p.add("SR", {i, r.range(1, maxn), r.range(0, maxn), 0, (long)r.below(100000)});
    double last = 0;
    for (int i = 0; i < n; ++i) switch (r.below(8)) {
        case 0: case 1: p.add("SR", {(long)r.below(3), r.range(1, maxn), r.range(0, maxn), r.chance(pf) ? r.range(1, 18) : 0, (long)r.below(100000)}); break;
        case 2: p.add("SC", {(long)r.below(3), (long)r.below(3), r.chance(pf) ? r.range(1, 18) : 0, (long)r.below(100000), r.chance(0.5) ? r.range(1, 4) : 0}); break;
        case 3: if (r.chance(0.5)) p.add("SK", {(long)r.below(3), (long)r.below(50), (long)r.below(50)}); else if (r.chance(0.4)) p.add("SD", {(long)r.below(3)}); break;
        default: last = last > 0 && r.chance(0.12) ? last * (1 + (r.chance(0.5) ? 1 : -1) * r.logu(1e-9, 1e-3)) : r.chance(0.1) ? 0.0 : (r.chance(0.05) ? -1 : 1) * (r.chance(0.1) ? r.logu(0.2, 3) : r.chance(0.1) ? r.logu(1e-9, 1e-3) : r.logu(1e-3, 0.2));
            p.add("RUN", {(long)r.below(4), (long)r.below(3), r.range(1, 3), r.chance(0.3) ? r.range(1, 14) : 0, (long)r.chance(0.7), r.chance(pf) ? r.range(1, 36) : 0, (long)r.below(100000)}, {last}); break;
    }
}
PROPERTY(C18, genIntegrators, exec)
