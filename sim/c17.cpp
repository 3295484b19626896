// C17: matrix containers behave as values whatever their storage history.
#include "execs.h"
#include "scs.h"
#include <cstdarg>
using atg_scs::Matrix;

namespace {
struct MM {                                 // array model of a dense matrix
    int w = 0, h = 0; std::vector<double> v;
    double &at(int c, int r) { return v[(size_t)r * w + c]; }
    void shape(int W, int H) { w = W; h = H; v.assign((size_t)W * H, 0.0); }
};
template <int S, int E> struct SM {         // array model of a block-sparse matrix
    int w = 0, h = 0;
    struct Ent { int block = -1; double x[S]; };
    std::vector<Ent> e;
    Ent &at(int r, int k) { return e[(size_t)r * E + k]; }
    void shape(int W, int H) { w = W; h = H; e.assign((size_t)H * E, Ent()); }
    double dense(int c, int r) { for (int k = 0; k < E; ++k) { Ent &t = at(r, k); if (t.block >= 0 && c / S == t.block) return t.x[c % S]; } return 0; }
};

struct Ctx {
    bool check;
    void fail(const char *what, const char *fmt, ...) __attribute__((format(printf, 3, 4))) {
        if (!check) return;
        char b[400]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
        violate(what, "%s", b);
    }
};
double value(Rng &r) { return r.chance(0.1) ? (r.chance(0.3) ? -0.0 : 0.0) : r.chance(0.1) ? (double)r.range(-3, 3) : r.real(-2, 2) * (r.chance(0.1) ? 1e6 : r.chance(0.07) ? std::ldexp(1.0, (int)r.range(-130, 130)) : r.chance(0.01) ? 1e-310 : 1); }
// Beyond this nothing is said about rounding.
bool huge(long double want, long double mag) { return !(mag < 1e290L) || !(want > -1e290L && want < 1e290L); }

// A freshly built matrix with the model's contents.
struct Fresh {
    Matrix m;
    explicit Fresh(MM &x) { LQ(m.resize(x.w, x.h)); for (int i = 0; i < x.h; ++i) for (int j = 0; j < x.w; ++j) { const double v = x.at(j, i); LQ(m.set(j, i, v)); } }
    Fresh() {}
    ~Fresh() { LQ(m.destroy()); }
};
template <int S, int E> struct FreshS {
    atg_scs::SparseMatrix<S, E> m;
    explicit FreshS(SM<S, E> &x) {
        LQ(m.initialize(x.w, x.h));
        for (int i = 0; i < x.h; ++i) for (int k = 0; k < E; ++k) { auto &t = x.at(i, k); if (t.block < 0) continue; LQ(m.setBlock(i, k, t.block)); for (int s = 0; s < S; ++s) { LQ(m.set(i, k, s, t.x[s])); } }
    }
    FreshS() {}
    ~FreshS() { LQ(m.destroy()); }
};

struct Dense { Matrix m; MM x; };
template <int S, int E> struct Sparse { atg_scs::SparseMatrix<S, E> m; SM<S, E> x; };

struct Pool {
    Ctx c;
    std::vector<std::unique_ptr<Dense>> d;
    std::vector<std::unique_ptr<Sparse<3, 2>>> s;
    std::vector<std::unique_ptr<Sparse<2, 4>>> s2;
    explicit Pool(bool check) { c.check = check; for (int i = 0; i < 5; ++i) d.emplace_back(new Dense); for (int i = 0; i < 4; ++i) s.emplace_back(new Sparse<3, 2>); for (int i = 0; i < 2; ++i) s2.emplace_back(new Sparse<2, 4>); }
    void close() { for (auto &k : d) { LQ(k->m.destroy()); } for (auto &k : s) { LQ(k->m.destroy()); } for (auto &k : s2) { LQ(k->m.destroy()); } }

    void same(Dense &a, const char *what) {         // container == model, to the last bit
        if (a.m.getWidth() != a.x.w || a.m.getHeight() != a.x.h) c.fail("size", "%s: the matrix reports %dx%d, it is %dx%d", what, a.m.getWidth(), a.m.getHeight(), a.x.w, a.x.h);
        if (a.m.getWidth() != a.x.w || a.m.getHeight() != a.x.h) return;
        for (int i = 0; i < a.x.h; ++i) for (int j = 0; j < a.x.w; ++j) {
            double v; { seam::LibScope l; v = a.m.get(j, i); }
            g_log.d(v);
            if (!bitEq(v, a.x.at(j, i))) c.fail("contents", "%s: element column %d row %d of a %dx%d matrix reads %.17g, it was set to %.17g", what, j, i, a.x.w, a.x.h, v, a.x.at(j, i));
        }
    }
    template <int S, int E> void same(Sparse<S, E> &a, const char *what) {
        if (a.m.getWidth() != a.x.w || a.m.getHeight() != a.x.h) { c.fail("size", "%s: the sparse matrix reports %dx%d, it is %dx%d", what, a.m.getWidth(), a.m.getHeight(), a.x.w, a.x.h); return; }
        for (int i = 0; i < a.x.h; ++i) for (int k = 0; k < E; ++k) {
            auto &t = a.x.at(i, k); bool e; { seam::LibScope l; e = a.m.isEmpty(i, k); }
            if (e != (t.block < 0)) c.fail("contents", "%s: entry %d of row %d is %s", what, k, i, e ? "empty, it was set" : "not empty, it was never set");
            if (t.block >= 0) for (int q = 0; q < S; ++q) { double v; { seam::LibScope l; v = a.m.get(i, k, q); } g_log.d(v); if (!bitEq(v, t.x[q])) c.fail("contents", "%s: entry %d slice %d of row %d reads %.17g, it was set to %.17g", what, k, q, i, v, t.x[q]); }
        }
    }
    // The target of an operation that failed: unchanged, or empty and usable.
    void afterFailure(Dense &t, const char *what) {
        const int w = t.m.getWidth(), h = t.m.getHeight();
        if (w == t.x.w && h == t.x.h) same(t, what);
        else { if (w != 0 || h != 0) c.fail("failed-size", "%s: after a failed allocation the matrix claims to be %dx%d (it was %dx%d)", what, w, h, t.x.w, t.x.h); t.x.shape(0, 0); if (w || h) { LQ(t.m.destroy()); } }
    }
    template <int S, int E> void afterFailure(Sparse<S, E> &t, const char *what) {
        const int w = t.m.getWidth(), h = t.m.getHeight();
        if (w == t.x.w && h == t.x.h) same(t, what);
        else { if (w != 0 || h != 0) c.fail("failed-size", "%s: after a failed allocation the sparse matrix claims to be %dx%d (it was %dx%d)", what, w, h, t.x.w, t.x.h); t.x.shape(0, 0); if (w || h) { LQ(t.m.destroy()); } }
    }
    void fill(Dense &a, int w, int h, uint64_t seed, int mode) {    // resize and set every element
        LQ(a.m.resize(w, h)); a.x.shape(w, h);
        Rng r(seed); for (auto &v : a.x.v) v = value(r);
        if (mode) { for (int i = 0; i < h; ++i) for (int j = 0; j < w; ++j) { LQ(a.m.set(j, i, a.x.at(j, i))); } }
        else { std::vector<double> z(a.x.v); z.push_back(0); LQ(a.m.set(z.data())); }
    }
    template <int S, int E> void fillS(Sparse<S, E> &a, int w, int h, uint64_t seed, bool viaResize, double density) {
        w -= w % S;
        if (viaResize) {                            // resize and define every entry
            LQ(a.m.resize(w, h)); a.x.shape(w, h);
            for (int i = 0; i < h; ++i) for (int k = 0; k < E; ++k) { LQ(a.m.setEmpty(i, k)); }
        } else { LQ(a.m.initialize(w, h)); a.x.shape(w, h); }
        Rng r(seed); const int nb = w / S;
        for (int i = 0; i < h; ++i) {
            std::set<int> used;
            for (int k = 0; k < E; ++k) {
                if (!nb || !r.chance(density)) continue;
                int b = (int)r.below(nb); if (r.chance(0.1)) b = nb - 1;
                if (!used.insert(b).second) continue;
                put(a, i, k, b, r);
            }
        }
    }
    template <int S, int E> void put(Sparse<S, E> &a, int i, int k, int b, Rng &r) {
        LQ(a.m.setBlock(i, k, b)); a.x.at(i, k).block = b;
        for (int q = 0; q < S; ++q) { const double v = value(r); a.x.at(i, k).x[q] = v; LQ(a.m.set(i, k, q, v)); }
    }
    void reshape(Dense &a, int w, int h, uint64_t seed) { if (a.x.w != w || a.x.h != h) fill(a, w, h, seed, seed & 1); }

    // Runs f(target) on the history-laden objects and g(target) on fresh ones; compares with the model.
    template <class F, class G, class M> void denseOp(Dense &t, const char *name, long failAt, int w, int h, F f, G g, M model) {
        if (!withAllocFailure(failAt, 0, [&] { f(t.m); })) { afterFailure(t, name); g_stats("ops.failed"); if (!withAllocFailure(-1, 0, [&] { f(t.m); })) return; }
        Fresh fr; { seam::poisonStack(); seam::LibScope l; g(fr.m); }
        t.x.shape(w, h);
        if (t.m.getWidth() != w || t.m.getHeight() != h) { c.fail("size", "%s produced a %dx%d matrix instead of %dx%d", name, t.m.getWidth(), t.m.getHeight(), w, h); fill(t, w, h, 1, 1); return; }
        for (int i = 0; i < h; ++i) for (int j = 0; j < w; ++j) {
            double v, u; { seam::LibScope l; v = t.m.get(j, i); u = fr.m.get(j, i); }
            LD mag = 0; const LD want = model(j, i, mag);
            g_log.d(v);
            if (!bitEq(v, u)) c.fail("history", "%s: element column %d row %d is %.17g, on freshly built matrices with the same contents it is %.17g", name, j, i, v, u);
            if (!huge(want, mag) && !(fabsl(v - want) <= 1e-12L * mag + 1e-280L)) c.fail("value", "%s: element column %d row %d is %.17g, the definition gives %.17g", name, j, i, v, (double)want);
            t.x.at(j, i) = v;
        }
        g_stats("ops.compared"); g_nontrivial = true;
    }
    typedef long double LD;
    double work = 0;                                // per run, so that a run of large operations ends
    bool small(double a, double b, double k = 1) { a = std::max(a, 1.0); b = std::max(b, 1.0); k = std::max(k, 1.0); if (a * b * k > 4e6 || work > 4e7) return false; work += a * b * k; return true; }

    template <int S, int E> void sparseOps(std::vector<std::unique_ptr<Sparse<S, E>>> &P, const Op &o) {
        auto &A = *P[o.I(2) % P.size()]; Dense &t = *d[o.I(1) % d.size()], &B = *d[o.I(3) % d.size()];
        if (&t == &B) return;
        const long fa = o.I(4); const uint64_t seed = o.I(5);
        typedef SM<S, E> X; X &a = A.x;
        if ((double)a.w * a.h > 3e6) return;
        FreshS<S, E> fa_(a);
        switch (o.I(0) % 5) {
            case 0: if (!small(a.w, a.h)) return; denseOp(t, "expand", fa, a.w, a.h, [&](Matrix &m) { A.m.expand(&m); }, [&](Matrix &m) { fa_.m.expand(&m); }, [&](int j, int i, LD &) { return (LD)a.dense(j, i); }); break;
            case 1: if (!small(a.w, a.h)) return; denseOp(t, "expandTransposed", fa, a.h, a.w, [&](Matrix &m) { A.m.expandTransposed(&m); }, [&](Matrix &m) { fa_.m.expandTransposed(&m); }, [&](int j, int i, LD &) { return (LD)a.dense(i, j); }); break;
            case 2: {
                auto &C = *P[o.I(3) % P.size()]; if (C.x.w != a.w) fillS(C, a.w, C.x.h, seed, seed & 1, 0.6);
                X b = C.x; FreshS<S, E> fb(b); FreshS<S, E> f2(a);
                if (!small(b.h, a.h, S * E * 4)) return;
                denseOp(t, "multiplyTranspose", fa, b.h, a.h, [&](Matrix &m) { A.m.multiplyTranspose(C.m, &m); }, [&](Matrix &m) { f2.m.multiplyTranspose(fb.m, &m); },
                        [&](int j, int i, LD &g) { LD s = 0; for (int k = 0; k < E; ++k) { auto &e = a.at(i, k); if (e.block >= 0) for (int q = 0; q < S; ++q) { LD z = (LD)e.x[q] * b.dense(e.block * S + q, j); s += z; g += fabsl(z); } } return s; });
                break; }
            case 3: {
                reshape(B, 1, a.h, seed); MM b = B.x; Fresh fb(b); if (!small(a.w, 1)) return;
                std::vector<LD> s(a.w, 0), g(a.w, 0);
                for (int i = 0; i < a.h; ++i) for (int k = 0; k < E; ++k) { auto &e = a.at(i, k); if (e.block >= 0) for (int q = 0; q < S; ++q) { LD z = (LD)e.x[q] * b.v[i]; s[e.block * S + q] += z; g[e.block * S + q] += fabsl(z); } }
                denseOp(t, "transposeMultiplyVector", fa, 1, a.w, [&](Matrix &m) { A.m.transposeMultiplyVector(B.m, &m); }, [&](Matrix &m) { fa_.m.transposeMultiplyVector(fb.m, &m); }, [&](int, int i, LD &mg) { mg = g[i]; return s[i]; });
                break; }
            case 4: {
                const int bw = std::max(1, B.x.w); if (!small(bw, a.w) || !small(bw, a.h, 8)) return;
                reshape(B, bw, a.w, seed); MM b = B.x; Fresh fb(b);
                denseOp(t, "sparse multiply", fa, bw, a.h, [&](Matrix &m) { A.m.multiply(B.m, &m); }, [&](Matrix &m) { fa_.m.multiply(fb.m, &m); },
                        [&](int j, int i, LD &g) { LD s = 0; for (int k = 0; k < E; ++k) { auto &e = a.at(i, k); if (e.block >= 0) for (int q = 0; q < S; ++q) { LD z = (LD)e.x[q] * b.at(j, e.block * S + q); s += z; g += fabsl(z); } } return s; });
                break; }
        }
        same(A, "operand of a sparse operation");
    }
    template <int S, int E> void sparseEdit(std::vector<std::unique_ptr<Sparse<S, E>>> &P, const Op &o) {
        // kind slot w h fail seed
        auto &A = *P[o.I(1) % P.size()];
        int w = std::min((int)o.I(2), S * 65535), h = (int)o.I(3); w = std::max(0, w - w % S); h = std::max(0, h);
        Rng r((uint64_t)o.I(5));
        switch (o.I(0) % 4) {
            case 0: case 1:
                if (!small(h, E * S, 4)) return;
                if (!withAllocFailure(o.I(4), 0, [&] { if (o.I(0) & 1) A.m.resize(w, h); else A.m.initialize(w, h); })) { afterFailure(A, "sparse resize"); g_stats("ops.failed"); }
                fillS(A, w, h, (uint64_t)o.I(5), o.I(0) & 1, o.X(0, 0.6)); break;
            case 2: if (A.x.h && A.x.w) for (int n = 0; n < 4; ++n) {
                int i = (int)r.below(A.x.h), k = (int)r.below(E);
                if (r.chance(0.3)) { LQ(A.m.setEmpty(i, k)); A.x.at(i, k).block = -1; }
                else { int b = (int)r.below(A.x.w / S); bool dup = false; for (int z = 0; z < E; ++z) if (z != k && A.x.at(i, z).block == b) dup = true; if (!dup) put(A, i, k, b, r); }
            } break;
            case 3: LQ(A.m.destroy()); A.x.shape(0, 0); break;
        }
        same(A, "sparse edit");
    }

    void op(const Op &o) {
        const std::string &k = o.k;
        if (k == "MI" || k == "MR") {               // slot w h fail seed mode
            Dense &a = *d[o.I(0) % d.size()]; const int w = std::max(0L, o.I(1)), h = std::max(0L, o.I(2));
            if (!small(w, h)) return;
            const bool val = o.I(5) & 2;
            auto f = [&] { if (k == "MR") a.m.resize(w, h); else if (val) a.m.initialize(w, h, o.X(0, 0)); else a.m.initialize(w, h); };
            if (!withAllocFailure(o.I(3), 0, f)) { afterFailure(a, "matrix resize"); g_stats("ops.failed"); if (!withAllocFailure(-1, 0, f)) return; }
            if (k == "MI") { a.x.shape(w, h); if (val) for (auto &v : a.x.v) v = o.X(0, 0); }
            else if (a.x.w == w && a.x.h == h && (o.I(4) & 4)) ;                 // a matrix resized to its own size keeps its contents
            else fill(a, w, h, (uint64_t)o.I(4), (int)o.I(5) & 1);
            same(a, "matrix resize");
        } else if (k == "MC") {                     // slot w h fail | value: a matrix constructed in memory that held something else
            Dense &a = *d[o.I(0) % d.size()]; const int w = std::max(0L, o.I(1)), h = std::max(0L, o.I(2));
            if (!small(w, h)) return;
            LQ(a.m.destroy()); a.m.~Matrix(); memset((void *)&a.m, 0x5a, sizeof a.m);
            const bool dflt = o.X(0, 0) == 0;       // the value defaults to 0
            if (!withAllocFailure(o.I(3), 0, [&] { if (dflt) new (&a.m) Matrix(w, h); else new (&a.m) Matrix(w, h, o.X(0, 0)); })) { new (&a.m) Matrix; a.x.shape(0, 0); g_stats("ops.failed"); }
            else { a.x.shape(w, h); for (auto &v : a.x.v) v = o.X(0, 0); }
            same(a, "construction");
        } else if (k == "MS") {
            Dense &a = *d[o.I(0) % d.size()]; Rng r((uint64_t)o.I(1));
            if (a.x.w && a.x.h) for (int n = 0; n < 5; ++n) { int i = (int)r.below(a.x.h), j = (int)r.below(a.x.w); double v = value(r); if (r.chance(0.3)) { LQ(a.m.add(j, i, v)); a.x.at(j, i) += v; } else { LQ(a.m.set(j, i, v)); a.x.at(j, i) = v; } }
            if (o.I(1) % 3 == 0) { std::vector<double> z(a.x.v.size() + 1); for (auto &v : z) v = value(r); LQ(a.m.set(z.data())); std::copy(z.begin(), z.end() - 1, a.x.v.begin()); }
            same(a, "element writes");
        } else if (k == "MX") {
            Dense &a = *d[o.I(0) % d.size()]; if (a.x.h < 2) return;
            const int i = (int)(o.I(1) % a.x.h), j = (int)(o.I(2) % a.x.h);
            LQ(a.m.fastRowSwap(i, j)); for (int q = 0; q < a.x.w; ++q) std::swap(a.x.at(q, i), a.x.at(q, j));
            same(a, "row swap");
        } else if (k == "MD") { Dense &a = *d[o.I(0) % d.size()]; LQ(a.m.destroy()); a.x.shape(0, 0); same(a, "destroy"); }
        else if (k == "MO") dense(o);
        else if (k == "SE") sparseEdit(s, o);
        else if (k == "SO") sparseOps(s, o);
        else if (k == "UE") sparseEdit(s2, o);
        else if (k == "UO") sparseOps(s2, o);
        else if (k == "SC") {                       // scale: right? target a vector fail seed
            auto &A = *s[o.I(2) % s.size()], &T = *s[o.I(1) % s.size()]; Dense &B = *d[o.I(3) % d.size()];
            if (&A == &T) return; const bool right = o.I(0) & 1;
            if (!small(A.x.w, 1)) return;
            reshape(B, 1, right ? A.x.w : A.x.h, (uint64_t)o.I(5));
            auto f = [&] { if (right) A.m.rightScale(B.m, &T.m); else A.m.leftScale(B.m, &T.m); };
            if (!withAllocFailure(o.I(4), 0, f)) { afterFailure(T, "sparse scale"); g_stats("ops.failed"); if (!withAllocFailure(-1, 0, f)) return; }
            T.x = A.x;
            for (int i = 0; i < A.x.h; ++i) for (int e = 0; e < 2; ++e) { auto &t = T.x.at(i, e); if (t.block >= 0) for (int q = 0; q < 3; ++q) t.x[q] = (right ? B.x.v[t.block * 3 + q] : B.x.v[i]) * t.x[q]; }
            same(T, right ? "rightScale" : "leftScale"); same(A, "operand of a scale"); g_stats("ops.compared");
        }
        g_sig.s(k.c_str()); for (long v : o.i) g_sig.u(v % 97);
    }
    void dense(const Op &o) {                       // op target a b fail seed | s
        Dense &t = *d[o.I(1) % d.size()], &A = *d[o.I(2) % d.size()], &B = *d[o.I(3) % d.size()];
        const int q = (int)(o.I(0) % 15); const long fa = o.I(4); const uint64_t seed = (uint64_t)o.I(5); const double sc = o.X(0, 1.5);
        MM &a = A.x; MM b;
        const bool inPlace = q == 10 || q == 11, single = q == 5 || q == 8 || q == 9 || q == 12 || q == 13, twoOnly = q == 14;
        if (!inPlace && (&t == &A || &t == &B)) return;
        if (inPlace && &A == &B) return;
        if (single && q >= 12 && a.w != 1) { if (!small(1, a.h)) return; fill(A, 1, a.h, seed, seed & 1); }
        switch (q) {                                // make the second operand fit
            case 0: if (!small(std::max(1, B.x.w), a.w, 1) || !small(B.x.w, a.h, a.w)) return; if (&A == &B && a.w != a.h) return; reshape(B, B.x.w, a.w, seed); break;
            case 1: case 6: case 7: case 10: case 11: case 14: reshape(B, a.w, a.h, q == 14 && (seed & 2) ? seed | 1 : seed); break;
            case 2: if (!small(std::max(1, B.x.w), a.h, 1) || !small(B.x.w, a.w, a.h)) return; reshape(B, B.x.w, a.h, seed); break;
            case 3: if (&A == &B) return; reshape(B, 1, a.h, seed); break;
            case 4: if (&A == &B) return; reshape(B, 1, a.w, seed); break;
            case 13: if (&A != &B) reshape(B, 1, a.h, seed); break;
        }
        (void)twoOnly;
        b = B.x; Fresh fA(a), fB_(b); Fresh &fB = fB_;
        auto prod = [](LD x, LD y, LD &g) { g += fabsl(x * y); return x * y; };
        switch (q) {
            case 0: denseOp(t, "multiply", fa, b.w, a.h, [&](Matrix &m) { A.m.multiply(B.m, &m); }, [&](Matrix &m) { fA.m.multiply(fB.m, &m); }, [&](int j, int i, LD &g) { LD s = 0; for (int z = 0; z < a.w; ++z) s += prod(a.at(z, i), b.at(j, z), g); return s; }); break;
            case 1: denseOp(t, "componentMultiply", fa, a.w, a.h, [&](Matrix &m) { A.m.componentMultiply(B.m, &m); }, [&](Matrix &m) { fA.m.componentMultiply(fB.m, &m); }, [&](int j, int i, LD &g) { return prod(a.at(j, i), b.at(j, i), g); }); break;
            case 2: denseOp(t, "transposeMultiply", fa, b.w, a.w, [&](Matrix &m) { A.m.transposeMultiply(B.m, &m); }, [&](Matrix &m) { fA.m.transposeMultiply(fB.m, &m); }, [&](int j, int i, LD &g) { LD s = 0; for (int z = 0; z < a.h; ++z) s += prod(a.at(i, z), b.at(j, z), g); return s; }); break;
            case 3: denseOp(t, "leftScale", fa, a.w, a.h, [&](Matrix &m) { A.m.leftScale(B.m, &m); }, [&](Matrix &m) { fA.m.leftScale(fB.m, &m); }, [&](int j, int i, LD &g) { return prod(b.v[i], a.at(j, i), g); }); break;
            case 4: denseOp(t, "rightScale", fa, a.w, a.h, [&](Matrix &m) { A.m.rightScale(B.m, &m); }, [&](Matrix &m) { fA.m.rightScale(fB.m, &m); }, [&](int j, int i, LD &g) { return prod(b.v[j], a.at(j, i), g); }); break;
            case 5: denseOp(t, "scale", fa, a.w, a.h, [&](Matrix &m) { A.m.scale(sc, &m); }, [&](Matrix &m) { fA.m.scale(sc, &m); }, [&](int j, int i, LD &g) { return prod(sc, a.at(j, i), g); }); break;
            case 6: denseOp(t, "subtract", fa, a.w, a.h, [&](Matrix &m) { A.m.subtract(B.m, &m); }, [&](Matrix &m) { fA.m.subtract(fB.m, &m); }, [&](int j, int i, LD &g) { g = fabs(a.at(j, i)) + fabs(b.at(j, i)); return (LD)a.at(j, i) - b.at(j, i); }); break;
            case 7: denseOp(t, "add", fa, a.w, a.h, [&](Matrix &m) { A.m.add(B.m, &m); }, [&](Matrix &m) { fA.m.add(fB.m, &m); }, [&](int j, int i, LD &g) { g = fabs(a.at(j, i)) + fabs(b.at(j, i)); return (LD)a.at(j, i) + b.at(j, i); }); break;
            case 8: denseOp(t, "negate", fa, a.w, a.h, [&](Matrix &m) { A.m.negate(&m); }, [&](Matrix &m) { fA.m.negate(&m); }, [&](int j, int i, LD &) { return -(LD)a.at(j, i); }); break;
            case 9: denseOp(t, "transpose", fa, a.h, a.w, [&](Matrix &m) { A.m.transpose(&m); }, [&](Matrix &m) { fA.m.transpose(&m); }, [&](int j, int i, LD &) { return (LD)a.at(i, j); }); break;
            case 10: case 11: {
                MM old = a; const char *nm = q == 10 ? "madd" : "pmadd";
                { seam::LibScope l; if (q == 10) { A.m.madd(B.m, sc); fA.m.madd(fB.m, sc); } else { A.m.pmadd(B.m, sc); fA.m.pmadd(fB.m, sc); } }
                for (int i = 0; i < a.h; ++i) for (int j = 0; j < a.w; ++j) {
                    double v, u; { seam::LibScope l; v = A.m.get(j, i); u = fA.m.get(j, i); }
                    const LD want = q == 10 ? (LD)old.at(j, i) + (LD)b.at(j, i) * sc : (LD)sc * old.at(j, i) + b.at(j, i), mag = fabsl((LD)sc * (q == 10 ? b : old).at(j, i)) + fabsl((q == 10 ? old : b).at(j, i));
                    if (!bitEq(v, u)) c.fail("history", "%s: element column %d row %d is %.17g, on freshly built matrices it is %.17g", nm, j, i, v, u);
                    if (!huge(want, mag) && !(fabsl(v - want) <= 1e-12L * mag + 1e-280L)) c.fail("value", "%s: element column %d row %d is %.17g, the definition gives %.17g", nm, j, i, v, (double)want);
                    a.at(j, i) = v; g_log.d(v);
                }
                g_stats("ops.compared"); break; }
            case 12: case 13: {
                double v, u; const char *nm = q == 12 ? "vectorMagnitudeSquared" : "dot";
                { seam::LibScope l; if (q == 12) { v = A.m.vectorMagnitudeSquared(); u = fA.m.vectorMagnitudeSquared(); } else { v = A.m.dot(B.m); u = fA.m.dot(fB.m); } }
                LD s = 0, g = 0; for (int i = 0; i < a.h; ++i) s += prod(a.v[i], (q == 12 ? a : b).v[i], g);
                if (!bitEq(v, u)) c.fail("history", "%s is %.17g, on freshly built matrices it is %.17g", nm, v, u);
                if (!huge(s, g) && !(fabsl(v - s) <= 1e-12L * g + 1e-280L)) c.fail("value", "%s is %.17g, the definition gives %.17g", nm, v, (double)s);
                g_log.d(v); g_stats("ops.compared"); break; }
            case 14: {
                bool v; { seam::LibScope l; v = sc > 0 ? A.m.equals(B.m, sc) : A.m.equals(B.m); }
                bool want = true; const double e = sc > 0 ? sc : 1e-6; for (size_t z = 0; z < a.v.size(); ++z) if (std::abs(a.v[z] - b.v[z]) > e) want = false;
                if (v != want) c.fail("value", "equals says %d for %dx%d matrices that are%s within %g", v, a.w, a.h, want ? "" : " not", e);
                {   // as far apart as they are, and not an ulp less
                    double far = 0; bool ok = true; for (size_t z = 0; z < a.v.size(); ++z) { far = std::max(far, std::abs(a.v[z] - b.v[z])); if (!std::isfinite(a.v[z] - b.v[z])) ok = false; }
                    bool y, z; { seam::LibScope l; y = A.m.equals(B.m, far); z = far > 0 && A.m.equals(B.m, std::nextafter(far, 0)); }
                    if (ok && (!y || z)) c.fail("value", "equals says %d within exactly the largest difference %.17g, %d within less", y, far, z);
                }
                { Fresh w; const int bw = a.w + (seed & 1 ? 1 : 0), bh = a.h + (seed & 1 ? 0 : 1); LQ(w.m.initialize(bw, bh)); bool z; { seam::LibScope l; z = A.m.equals(w.m, 1e300); } if (z) c.fail("value", "equals says a %dx%d matrix equals a %dx%d one", a.w, a.h, bw, bh); }
                if (&A != &B && (seed & 4)) { Dense &D = B; LQ(D.m.set(&A.m)); D.x = a; same(D, "assignment"); bool z; { seam::LibScope l; z = A.m.equals(D.m); } if (!z) c.fail("value", "a matrix does not equal its copy"); }
                break; }
        }
        same(A, "operand"); if (&B != &t && (!inPlace || &B != &A)) same(B, "operand");
    }
};
void exec(const Plan &p) { execContainers(p, true); }
}

void execContainers(const Plan &p, bool check) {
    Pool *pool = new Pool(check);       // abandoned when a violation is thrown
    for (size_t i = 0; i < p.ops.size(); ++i) { g_opIndex = (int)i; pool->op(p.ops[i]); }
    pool->close();
    delete pool;
}
void genContainers(Rng &r, Plan &p) {
    const int n = (int)r.range(20, 70);
    const int maxd = r.chance(0.6) ? 6 : r.chance(0.7) ? 25 : 90;
    const double pf = r.chance(0.4) ? 0.15 : 0;
    auto dim = [&]() -> long { return r.chance(0.07) ? 0 : r.chance(0.1) ? 1 : r.range(1, maxd); };
    auto fail = [&]() -> long { return r.chance(pf) ? r.range(1, 3) : 0; };
    const bool wide = r.chance(0.1);
    for (int i = 0; i < n; ++i) {
        const long seed = (long)r.below(1000000);
        switch (r.below(14)) {
            case 0: if (r.chance(0.3)) p.add("MC", {(long)r.below(5), dim(), dim(), fail()}, {r.chance(0.3) ? 0.0 : r.real(-2, 2)}); else p.add("MI", {(long)r.below(5), dim(), dim(), fail(), seed, (long)r.below(4)}, {r.real(-2, 2)}); break;
            case 1: case 2: p.add("MR", {(long)r.below(5), dim(), dim(), fail(), seed, (long)r.below(4)}); break;
            case 3: p.add("MS", {(long)r.below(5), seed}); break;
            case 4: p.add("MX", {(long)r.below(5), (long)r.below(100), (long)r.below(100)}); break;
            case 5: if (r.chance(0.4)) p.add("MD", {(long)r.below(5)}); break;
            case 6: case 7: case 8: p.add("MO", {(long)r.below(15), (long)r.below(5), (long)r.below(5), (long)r.below(5), fail(), seed}, {r.chance(0.3) ? 0.0 : r.chance(0.1) ? value(r) : r.real(-2, 2)}); break;
            case 9: case 10: {
                const long w = wide && r.chance(0.6) ? 3 * r.range(200, 60000) : 3 * dim();
                p.add(r.chance(0.75) ? "SE" : "UE", {r.chance(0.15) ? 3 : (long)r.below(3), (long)r.below(4), w, wide ? r.range(0, 8) : dim(), fail(), seed}, {r.chance(0.2) ? 1.0 : r.uni()}); break; }
            case 11: case 12: p.add(r.chance(0.75) ? "SO" : "UO", {(long)r.below(5), (long)r.below(5), (long)r.below(4), (long)r.below(5), fail(), seed}); break;
            case 13: p.add("SC", {(long)r.below(2), (long)r.below(4), (long)r.below(4), (long)r.below(5), fail(), seed}); break;
        }
    }
}
PROPERTY(C17, genContainers, exec)
