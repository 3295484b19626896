// Reference model: an independent, extended-precision statement of what one step means.
// Nothing in here uses library code except the plain data fields of RigidBody.
#pragma once
#include "core.h"

typedef long double LD;
static const LD EPS = 64 * 2.220446049250313e-16L;      // per-operation relative error budget

// ------------------------------------------------------------------ automatic differentiation
struct Jet {                        // value and 6 partial derivatives
    LD v; LD d[6];
    Jet(LD x = 0) : v(x) { for (LD &e : d) e = 0; }
};
inline Jet operator+(Jet a, const Jet &b) { a.v += b.v; for (int i = 0; i < 6; ++i) a.d[i] += b.d[i]; return a; }
inline Jet operator-(Jet a, const Jet &b) { a.v -= b.v; for (int i = 0; i < 6; ++i) a.d[i] -= b.d[i]; return a; }
inline Jet operator*(const Jet &a, const Jet &b) { Jet r(a.v * b.v); for (int i = 0; i < 6; ++i) r.d[i] = a.d[i] * b.v + a.v * b.d[i]; return r; }
inline Jet Sin(const Jet &a) { Jet r(sinl(a.v)); LD c = cosl(a.v); for (int i = 0; i < 6; ++i) r.d[i] = c * a.d[i]; return r; }
inline Jet Cos(const Jet &a) { Jet r(cosl(a.v)); LD s = -sinl(a.v); for (int i = 0; i < 6; ++i) r.d[i] = s * a.d[i]; return r; }
struct Tay {                        // second order Taylor expansion along a direction
    LD c0, c1, c2;
    Tay(LD a = 0, LD b = 0, LD c = 0) : c0(a), c1(b), c2(c) {}
};
inline Tay operator+(const Tay &a, const Tay &b) { return Tay(a.c0 + b.c0, a.c1 + b.c1, a.c2 + b.c2); }
inline Tay operator-(const Tay &a, const Tay &b) { return Tay(a.c0 - b.c0, a.c1 - b.c1, a.c2 - b.c2); }
inline Tay operator*(const Tay &a, const Tay &b) { return Tay(a.c0 * b.c0, a.c0 * b.c1 + a.c1 * b.c0, a.c0 * b.c2 + a.c1 * b.c1 + a.c2 * b.c0); }
inline Tay Sin(const Tay &a) { LD s = sinl(a.c0), c = cosl(a.c0); return Tay(s, c * a.c1, c * a.c2 - s * a.c1 * a.c1 / 2); }
inline Tay Cos(const Tay &a) { LD s = sinl(a.c0), c = cosl(a.c0); return Tay(c, -s * a.c1, -s * a.c2 - c * a.c1 * a.c1 / 2); }
inline LD Sin(LD a) { return sinl(a); }
inline LD Cos(LD a) { return cosl(a); }

// ------------------------------------------------------------------ descriptions
enum ConKind { LINK, FIXPOS, FIXROT, LINE, ROLL, CLUTCH, GEAR, CROT, FRIC, WELD, LIN, CONKINDS };
enum FrcKind { GRAV, STATIC, SPRING, MOTOR, DRAG, FIELD, PAIR, REC, FRCKINDS };
const double INFLIM = DBL_MAX;

struct ConDesc {
    int kind = LINK;
    double p[12] = {0};             // meaning depends on kind, see conErr / conRest
    // LIN only
    int rows = 1, nb = 1;
    double Jl[3][6] = {{0}}, c0[3] = {0}, vb[3] = {0}, lo[3] = {0}, hi[3] = {0};
    double ks = 10, kd = 1;
    int nRows() const {
        switch (kind) { case LINK: case FIXPOS: case ROLL: return 2; case WELD: return 3; case LIN: return rows; default: return 1; }
    }
    int nBodies() const {
        switch (kind) { case FIXPOS: case FIXROT: case LINE: case CROT: case FRIC: return 1; case LIN: return nb; default: return 2; }
    }
    bool positional() const { return kind <= ROLL || kind == WELD; }
};
// Position error of a joint as a function of both bodies' coordinates.
// LINK p: l1x l1y l2x l2y max     FIXPOS p: lx ly wx wy    FIXROT p: rot
// LINE p: lx ly p0x p0y dx dy     ROLL p: lx ly dx dy r    WELD p: l1x l1y l2x l2y angle
template <class T> void conErr(const ConDesc &c, const T *q, T *C) {
    auto px = [&](int b, double lx, double ly) { return q[3 * b] + Cos(q[3 * b + 2]) * T(lx) - Sin(q[3 * b + 2]) * T(ly); };
    auto py = [&](int b, double lx, double ly) { return q[3 * b + 1] + Sin(q[3 * b + 2]) * T(lx) + Cos(q[3 * b + 2]) * T(ly); };
    switch (c.kind) {
        case LINK:
            C[0] = px(0, c.p[0], c.p[1]) - px(1, c.p[2], c.p[3]);
            C[1] = py(0, c.p[0], c.p[1]) - py(1, c.p[2], c.p[3]);
            break;
        case WELD:
            C[0] = px(1, c.p[2], c.p[3]) - px(0, c.p[0], c.p[1]);
            C[1] = py(1, c.p[2], c.p[3]) - py(0, c.p[0], c.p[1]);
            C[2] = q[5] - q[2] - T(c.p[4]);
            break;
        case FIXPOS:
            C[0] = px(0, c.p[0], c.p[1]) - T(c.p[2]);
            C[1] = py(0, c.p[0], c.p[1]) - T(c.p[3]);
            break;
        case FIXROT: C[0] = q[2] - T(c.p[0]); break;
        case LINE:      // signed distance from the line through p0 with direction d (scaled by |d|)
            C[0] = (py(0, c.p[0], c.p[1]) - T(c.p[3])) * T(c.p[4]) - (px(0, c.p[0], c.p[1]) - T(c.p[2])) * T(c.p[5]);
            break;
        case ROLL: {    // body 1 rolls with radius r along the line through l with direction d fixed in body 0
            T ox = px(0, c.p[0], c.p[1]), oy = py(0, c.p[0], c.p[1]);
            T cs = Cos(q[2]), sn = Sin(q[2]);
            T dx = cs * T(c.p[2]) - sn * T(c.p[3]), dy = sn * T(c.p[2]) + cs * T(c.p[3]);
            T ex = q[3] - ox, ey = q[4] - oy;
            C[0] = T(0) - T(c.p[4]) * (q[5] - q[2]) - (ex * dx + ey * dy);
            C[1] = T(c.p[4]) - (dx * ey - dy * ex);
            break;
        }
        case LIN:
            for (int r = 0; r < c.rows; ++r) {
                C[r] = T(0) - T(c.c0[r]);
                for (int k = 0; k < 3 * c.nb; ++k) C[r] = C[r] + T(c.Jl[r][k]) * q[k];
            }
            break;
        default: C[0] = T(0); break;
    }
}

struct Rows {                       // one constraint evaluated at one state
    int n, nb, body[2];             // body: system index, -1 outside
    LD C[3], J[3][6], Jdv[3], vb[3], lo[3], hi[3], ks[3], kd[3];
    LD Cscale;
};

struct RState {                     // reference state, by system index
    int n = 0;
    std::vector<LD> q, v, a;        // 3n each
    std::vector<LD> m, I;
    LD minv(int k) const { return 1 / (k % 3 == 2 ? I[k / 3] : m[k / 3]); }
};
struct Pose { double x, y, th; };

// q,v of the two bodies (v = 0 for a body outside the system)
inline void evalCon(const ConDesc &c, const int body[2], const LD q[6], const LD v[6], Rows &o) {
    o.n = c.nRows(); o.nb = c.nBodies(); o.body[0] = body[0]; o.body[1] = o.nb > 1 ? body[1] : -1;
    Jet jq[6], jc[3]; Tay tq[6], tc[3];
    o.Cscale = 1;
    for (int k = 0; k < 3 * o.nb; ++k) {
        jq[k] = Jet(q[k]); jq[k].d[k] = 1;
        tq[k] = Tay(q[k], v[k], 0);
        o.Cscale = std::max(o.Cscale, fabsl(q[k]));
    }
    conErr(c, jq, jc); conErr(c, tq, tc);
    if (c.kind <= ROLL || c.kind == WELD) for (int k = 0; k < (c.kind == LINK || c.kind == WELD ? 4 : 2); ++k) o.Cscale = std::max(o.Cscale, fabsl((LD)c.p[k]));
    for (int r = 0; r < o.n; ++r) {
        o.C[r] = jc[r].v; o.Jdv[r] = 2 * tc[r].c2;
        for (int k = 0; k < 6; ++k) o.J[r][k] = jc[r].d[k];
        o.vb[r] = 0; o.lo[r] = -INFLIM; o.hi[r] = INFLIM; o.ks[r] = c.ks; o.kd[r] = c.kd;
    }
    switch (c.kind) {
        case LINK: for (int r = 0; r < 2; ++r) { o.lo[r] = -c.p[4]; o.hi[r] = c.p[4]; } break;
        case ROLL: o.ks[0] = o.kd[0] = 0; break;            // the turn is not stabilised in the generic system
        case CLUTCH: o.J[0][2] = -1; o.J[0][5] = 1; o.lo[0] = c.p[0]; o.hi[0] = c.p[1]; break;
        case GEAR: o.J[0][2] = 1; o.J[0][5] = -c.p[0]; if (c.p[1] != 0) o.lo[0] = o.hi[0] = 0; break;
        case CROT: o.J[0][2] = 1; o.vb[0] = c.p[0]; o.lo[0] = c.p[1]; o.hi[0] = c.p[2]; break;
        case FRIC: o.J[0][2] = 1; o.lo[0] = c.p[0]; o.hi[0] = c.p[1]; break;
        case LIN: for (int r = 0; r < c.rows; ++r) { o.vb[r] = c.vb[r]; o.lo[r] = c.lo[r]; o.hi[r] = c.hi[r]; } break;
        default: break;
    }
}

struct FrcDesc {
    int kind = GRAV;
    double p[10] = {0};
    // GRAV g | STATIC fx fy px py | SPRING rest ks kd p1x p1y p2x p2y | MOTOR ks kd maxT speed
    // DRAG cl ca | FIELD A B C k | PAIR A
};
// Adds the force law to F (3n) and the magnitudes of its terms to Fa.
// body[]: system index or -1; pose[]: own pose of a body outside the system
inline void evalFrc(const FrcDesc &f, const RState &s, const int body[2], const Pose pose[2], std::vector<LD> &F, std::vector<LD> &Fa) {
    auto add = [&](int k, LD x) { F[k] += x; Fa[k] += fabsl(x); };
    auto addAt = [&](int b, LD lx, LD ly, LD fx, LD fy, LD mag) {
        LD c = cosl(s.q[3 * b + 2]), sn = sinl(s.q[3 * b + 2]);
        LD rx = c * lx - sn * ly, ry = sn * lx + c * ly;
        F[3 * b] += fx; Fa[3 * b] += mag; F[3 * b + 1] += fy; Fa[3 * b + 1] += mag;
        F[3 * b + 2] += rx * fy - ry * fx;
        // r is recovered by subtracting world coordinates: its error scales with the coordinates
        Fa[3 * b + 2] += mag * (fabsl(lx) + fabsl(ly) + 1e-1L * (fabsl(s.q[3 * b]) + fabsl(s.q[3 * b + 1])));
    };
    switch (f.kind) {
        case GRAV: for (int i = 0; i < s.n; ++i) add(3 * i + 1, -s.m[i] * (LD)f.p[0]); break;
        case STATIC: addAt(body[0], f.p[2], f.p[3], f.p[0], f.p[1], fabsl((LD)f.p[0]) + fabsl((LD)f.p[1])); break;
        case SPRING: {
            if (body[0] == -2 || body[1] == -2) break;      // an end that is not attached to anything
            LD x[2], y[2], vx[2] = {0, 0}, vy[2] = {0, 0}, pos = 1, vel = 0;
            for (int e = 0; e < 2; ++e) {
                LD lx = f.p[3 + 2 * e], ly = f.p[4 + 2 * e], qx, qy, qt;
                if (body[e] >= 0) { qx = s.q[3 * body[e]]; qy = s.q[3 * body[e] + 1]; qt = s.q[3 * body[e] + 2]; }
                else { qx = pose[e].x; qy = pose[e].y; qt = pose[e].th; }
                LD c = cosl(qt), sn = sinl(qt), rx = c * lx - sn * ly, ry = sn * lx + c * ly;
                x[e] = qx + rx; y[e] = qy + ry;
                pos = std::max(pos, std::max(fabsl(qx), fabsl(qy)));
                if (body[e] >= 0) {
                    LD w = s.v[3 * body[e] + 2];
                    vx[e] = s.v[3 * body[e]] - w * ry; vy[e] = s.v[3 * body[e] + 1] + w * rx;
                    vel += fabsl(s.v[3 * body[e]]) + fabsl(s.v[3 * body[e] + 1]) + fabsl(w) * (fabsl(lx) + fabsl(ly) + pos);
                }
            }
            LD dx = x[1] - x[0], dy = y[1] - y[0], l = sqrtl(dx * dx + dy * dy);
            if (l >= 1e-2L) { dx /= l; dy /= l; } else dx = dy = 0;
            LD mag = (fabsl(l - (LD)f.p[0]) + pos * (1 + fabsl(l - (LD)f.p[0]) / std::max(l, (LD)1e-2L))) * fabsl((LD)f.p[1]) + vel * fabsl((LD)f.p[2]);
            LD fx = dx * (l - (LD)f.p[0]) * (LD)f.p[1] + (vx[1] - vx[0]) * (LD)f.p[2];
            LD fy = dy * (l - (LD)f.p[0]) * (LD)f.p[1] + (vy[1] - vy[0]) * (LD)f.p[2];
            if (body[0] >= 0) addAt(body[0], f.p[3], f.p[4], fx, fy, mag);
            if (body[1] >= 0) addAt(body[1], f.p[5], f.p[6], -fx, -fy, mag);
            break;
        }
        case MOTOR: {
            LD v0 = 0, a0 = 0;
            if (body[0] >= 0) { v0 = s.v[3 * body[0] + 2]; a0 = s.a[3 * body[0] + 2]; }
            LD rv = s.v[3 * body[1] + 2] - v0, ra = s.a[3 * body[1] + 2] - a0;
            LD t = ((LD)f.p[3] - rv) * (LD)f.p[0] - ra * (LD)f.p[1];
            LD mag = fabsl((LD)f.p[3]) * f.p[0] + fabsl(rv) * f.p[0] + fabsl(ra) * fabsl((LD)f.p[1]);
            t = std::min((LD)f.p[2], std::max(-(LD)f.p[2], t));
            if (body[0] >= 0) { F[3 * body[0] + 2] -= t; Fa[3 * body[0] + 2] += mag; }
            F[3 * body[1] + 2] += t; Fa[3 * body[1] + 2] += mag;
            break;
        }
        case DRAG: for (int i = 0; i < s.n; ++i) { add(3 * i, -(LD)f.p[0] * s.v[3 * i]); add(3 * i + 1, -(LD)f.p[0] * s.v[3 * i + 1]); add(3 * i + 2, -(LD)f.p[1] * s.v[3 * i + 2]); } break;
        case FIELD: if (body[0] >= 0) {
            int b = 3 * body[0]; LD k = f.p[3];
            LD e = 1 + fabsl(k) * (fabsl(s.q[b]) + fabsl(s.q[b + 1]) + fabsl(s.q[b + 2]));
            F[b] += f.p[0] * sinl(k * s.q[b + 1]); Fa[b] += fabsl((LD)f.p[0]) * e;
            F[b + 1] += f.p[1] * cosl(k * s.q[b]); Fa[b + 1] += fabsl((LD)f.p[1]) * e;
            F[b + 2] += f.p[2] * sinl(s.q[b + 2]); Fa[b + 2] += fabsl((LD)f.p[2]) * e;
            break; } break;
        case PAIR: if (body[0] >= 0 && body[1] >= 0) {      // linear attraction of the two centres
            int a = 3 * body[0], b = 3 * body[1];
            for (int k = 0; k < 2; ++k) {
                LD fx = f.p[0] * (s.q[b + k] - s.q[a + k]), mg = fabsl((LD)f.p[0]) * (fabsl(s.q[b + k]) + fabsl(s.q[a + k]));
                F[a + k] += fx; Fa[a + k] += mg; F[b + k] -= fx; Fa[b + k] += mg;
            } } break;
        default: break;
    }
}

// ------------------------------------------------------------------ dense symmetric problems
struct Problem {                    // rows of all installed constraints, in system order
    int m = 0;
    std::vector<Rows> rows;         // per constraint
    std::vector<std::pair<int, int>> at;    // row -> (constraint, local row)
    std::vector<LD> A;              // m*m
    std::vector<LD> Ainv;           // m*m, inverse
    bool ok = false;
    LD cond = 1;                    // of the diagonally scaled matrix
    LD J(int r, int slot, int k) const { return rows[at[r].first].J[at[r].second][slot * 3 + k]; }
    int body(int r, int slot) const { return rows[at[r].first].body[slot]; }
};
void buildProblem(const RState &s, Problem &p);       // fills A, Ainv, cond from rows
// Solution of A x = b with lo <= x <= hi (complementarity); clamped[r] = -1/0/+1. false: no convergence.
bool boxSolve(const Problem &p, const std::vector<LD> &b, const std::vector<LD> &lo, const std::vector<LD> &hi, std::vector<LD> &x, std::vector<int> &clamped);
