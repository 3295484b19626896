#include "ref.h"

static bool cholInv(const std::vector<LD> &A, int m, std::vector<LD> &inv) {
    std::vector<LD> L(m * m, 0);
    for (int i = 0; i < m; ++i) for (int j = 0; j <= i; ++j) {
        LD s = A[i * m + j];
        for (int k = 0; k < j; ++k) s -= L[i * m + k] * L[j * m + k];
        if (i == j) { if (!(s > 0)) return false; L[i * m + i] = sqrtl(s); }
        else L[i * m + j] = s / L[j * m + j];
    }
    inv.assign(m * m, 0);
    std::vector<LD> y(m);
    for (int c = 0; c < m; ++c) {
        for (int i = 0; i < m; ++i) {
            LD s = i == c;
            for (int k = c; k < i; ++k) s -= L[i * m + k] * y[k];
            y[i] = i < c ? 0 : s / L[i * m + i];
        }
        for (int i = m - 1; i >= 0; --i) {
            LD s = y[i];
            for (int k = i + 1; k < m; ++k) s -= L[k * m + i] * inv[k * m + c];
            inv[i * m + c] = s / L[i * m + i];
        }
    }
    return true;
}

void buildProblem(const RState &s, Problem &p) {
    p.at.clear();
    for (size_t c = 0; c < p.rows.size(); ++c) for (int r = 0; r < p.rows[c].n; ++r) p.at.push_back({(int)c, r});
    const int m = p.m = (int)p.at.size();
    p.A.assign(m * m, 0); p.cond = 1; p.ok = true;
    for (int i = 0; i < m; ++i) for (int j = 0; j <= i; ++j) {
        LD x = 0;
        for (int a = 0; a < 2; ++a) { int ba = p.body(i, a); if (ba < 0) continue;
            for (int b = 0; b < 2; ++b) if (p.body(j, b) == ba)
                for (int k = 0; k < 3; ++k) x += p.J(i, a, k) * s.minv(3 * ba + k) * p.J(j, b, k);
        }
        p.A[i * m + j] = p.A[j * m + i] = x;
    }
    if (!m) return;
    std::vector<LD> S(m * m), d(m), Si;
    for (int i = 0; i < m; ++i) { if (!(p.A[i * m + i] > 0)) { p.ok = false; p.cond = INFINITY; return; } d[i] = sqrtl(p.A[i * m + i]); }
    for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) S[i * m + j] = p.A[i * m + j] / (d[i] * d[j]);
    if (!cholInv(S, m, Si)) { p.ok = false; p.cond = INFINITY; return; }
    LD n1 = 0, n2 = 0;
    for (int i = 0; i < m; ++i) { LD a = 0, b = 0; for (int j = 0; j < m; ++j) { a += fabsl(S[i * m + j]); b += fabsl(Si[i * m + j]); } n1 = std::max(n1, a); n2 = std::max(n2, b); }
    p.cond = n1 * n2;
    p.Ainv.resize(m * m);
    for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) p.Ainv[i * m + j] = Si[i * m + j] / (d[i] * d[j]);
}

bool boxSolve(const Problem &p, const std::vector<LD> &b, const std::vector<LD> &lo, const std::vector<LD> &hi, std::vector<LD> &x, std::vector<int> &cl) {
    const int m = p.m;
    x.assign(m, 0); cl.assign(m, 0);
    bool any = false;
    for (int i = 0; i < m; ++i) { for (int j = 0; j < m; ++j) x[i] += p.Ainv[i * m + j] * b[j]; if (x[i] < lo[i] || x[i] > hi[i]) any = true; }
    if (!any) return true;
    for (int i = 0; i < m; ++i) x[i] = std::max(lo[i], std::min(hi[i], x[i]));
    for (int round = 0; round < 60; ++round) {
        // projected Gauss-Seidel to find the active set
        for (int it = 0; it < 400; ++it) {
            LD ch = 0;
            for (int i = 0; i < m; ++i) {
                LD s = b[i]; for (int j = 0; j < m; ++j) if (j != i) s -= p.A[i * m + j] * x[j];
                LD y = std::max(lo[i], std::min(hi[i], s / p.A[i * m + i]));
                ch = std::max(ch, fabsl(y - x[i]) / (fabsl(y) + 1e-12L)); x[i] = y;
            }
            if (ch < 1e-17L) break;
        }
        std::vector<int> fr;
        for (int i = 0; i < m; ++i) {
            LD r = b[i]; for (int j = 0; j < m; ++j) r -= p.A[i * m + j] * x[j];     // wants to move by r
            cl[i] = (x[i] >= hi[i] && r >= 0) ? 1 : (x[i] <= lo[i] && r <= 0) ? -1 : 0;
            if (!cl[i]) fr.push_back(i);
        }
        const int f = (int)fr.size();
        std::vector<LD> Af(f * f), inv, y(x);
        for (int i = 0; i < f; ++i) for (int j = 0; j < f; ++j) Af[i * f + j] = p.A[fr[i] * m + fr[j]];
        if (f && !cholInv(Af, f, inv)) return false;
        for (int i = 0; i < m; ++i) if (cl[i]) y[i] = cl[i] > 0 ? hi[i] : lo[i];
        for (int i = 0; i < f; ++i) {
            LD s = 0;
            for (int j = 0; j < f; ++j) { LD r = b[fr[j]]; for (int k = 0; k < m; ++k) if (cl[k]) r -= p.A[fr[j] * m + k] * y[k]; s += inv[i * f + j] * r; }
            y[fr[i]] = s;
        }
        bool good = true;
        for (int i = 0; i < m && good; ++i) {
            LD r = b[i], sc = fabsl(b[i]); for (int j = 0; j < m; ++j) { r -= p.A[i * m + j] * y[j]; sc += fabsl(p.A[i * m + j] * y[j]); }
            const LD e = 1e-15L * sc, ex = 1e-15L * (fabsl(y[i]) + sc / p.A[i * m + i]);
            if (cl[i] > 0 && r < -e) good = false;
            if (cl[i] < 0 && r > e) good = false;
            if (!cl[i] && (y[i] > hi[i] + ex || y[i] < lo[i] - ex)) good = false;
        }
        if (good) { x = y; return true; }
    }
    return false;
}
