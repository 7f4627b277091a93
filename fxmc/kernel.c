/* Exhaustive enumeration of the admissible words of a mixed 0/1 linear system.
 *
 * A word assigns a grid value to every choice variable.  All words are visited by depth first search; a prefix is
 * cut off only if bound propagation proves that no completion exists.  For a complete word all remaining binary
 * variables are enumerated; the remaining continuous variables (auxiliary sums, slacks) are eliminated exactly
 * (propagation of the equalities, then a small dense simplex for what is left).
 */
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <stdio.h>

#define INF HUGE_VAL
#define FIXTOL 1e-9

typedef struct {
    int n, m;
    double *lb, *ub;            /* current bounds */
    const unsigned char *isint;
    const int *rp, *ci; const double *cv;   /* rows */
    const double *rlo, *rhi;
    int *cp, *cr; double *cw;               /* columns: rows of a variable */
    int nch; const int *chv; const int *gp; const double *gv;
    int nobs; const int *obs; const unsigned char *obsdir;
    double tol;
    /* trail */
    int *tv; double *tl, *tu; int tn, tcap;
    /* queue */
    int *q; unsigned char *inq; int qh, qt, qn;
    /* results */
    int *words; double *olo, *ohi; int *ncomp; double *sols; long nw, cap, maxw; int wantsol;
    int *cur; int curopen;
    long nodes, leaves, lps, cuts, propagations;
    int overflow;
    long maxnodes;
    int *intlist; int nint;
    int anycomp;   /* stop after first completion */
} P;

static void settrail(P *p, int v) {
    if (p->tn == p->tcap) {
        p->tcap = p->tcap ? p->tcap * 2 : 1024;
        p->tv = realloc(p->tv, sizeof(int) * p->tcap);
        p->tl = realloc(p->tl, sizeof(double) * p->tcap);
        p->tu = realloc(p->tu, sizeof(double) * p->tcap);
    }
    p->tv[p->tn] = v; p->tl[p->tn] = p->lb[v]; p->tu[p->tn] = p->ub[v]; p->tn++;
}
static void undo(P *p, int mark) {
    while (p->tn > mark) { p->tn--; p->lb[p->tv[p->tn]] = p->tl[p->tn]; p->ub[p->tv[p->tn]] = p->tu[p->tn]; }
}
static void pushrow(P *p, int r) {
    if (p->inq[r]) return;
    p->inq[r] = 1; p->q[p->qt] = r; p->qt = (p->qt + 1) % (p->m + 1); p->qn++;
}
static void pushvar(P *p, int v) { for (int k = p->cp[v]; k < p->cp[v + 1]; k++) pushrow(p, p->cr[k]); }
static void clearq(P *p) { while (p->qn) { p->inq[p->q[p->qh]] = 0; p->qh = (p->qh + 1) % (p->m + 1); p->qn--; } }
static int fixd(double l, double u) { return l > -INF && u < INF && u - l <= FIXTOL * (1 + fabs(l)); }
static int isfixed(P *p, int v) { return fixd(p->lb[v], p->ub[v]); }

/* returns 0 on conflict */
static int tighten(P *p, int v, double nl, double nu) {
    double l = p->lb[v], u = p->ub[v];
    if (p->isint[v]) {
        if (nl > -INF) nl = ceil(nl - 1e-6);
        if (nu < INF) nu = floor(nu + 1e-6);
    }
    double w = u - l;
    int chg = 0;
    double L = l, U = u;
    if (nl > l) {
        if (nl > u) {
            if (nl > u + p->tol * (1 + 1e-6 * fabs(u))) return 0;
            nl = u;
        }
        if (l == -INF || nl - l > 1e-3 * w || (u < INF && u - nl <= FIXTOL * (1 + fabs(u)))) { L = nl; chg = 1; }
    }
    if (nu < u) {
        if (nu < L) {
            if (nu < L - p->tol * (1 + 1e-6 * fabs(L))) return 0;
            nu = L;
        }
        if (u == INF || u - nu > 1e-3 * w || (L > -INF && nu - L <= FIXTOL * (1 + fabs(L)))) { U = nu; chg = 1; }
    }
    if (chg && (L > l || U < u)) {
        if (fixd(l, u)) return 1; /* already fixed */
        settrail(p, v);
        p->lb[v] = L; p->ub[v] = U;
        pushvar(p, v);
    }
    return 1;
}

static int proprow(P *p, int r) {
    double mn = 0, mx = 0, big = 0; int imn = 0, imx = 0;
    int s = p->rp[r], e = p->rp[r + 1];
    p->propagations++;
    for (int k = s; k < e; k++) {
        double a = p->cv[k]; int v = p->ci[k];
        double x = a > 0 ? p->lb[v] : p->ub[v], y = a > 0 ? p->ub[v] : p->lb[v];
        if (isinf(x)) imn++; else { mn += a * x; if (fabs(a * x) > big) big = fabs(a * x); }
        if (isinf(y)) imx++; else { mx += a * y; if (fabs(a * y) > big) big = fabs(a * y); }
    }
    double t = p->tol + 1e-12 * big;
    if (!imn && mn > p->rhi[r] + t) return 0;
    if (!imx && mx < p->rlo[r] - t) return 0;
    int needhi = p->rhi[r] < INF && imn <= 1, needlo = p->rlo[r] > -INF && imx <= 1;
    if (!needhi && !needlo) return 1;
    for (int k = s; k < e; k++) {
        double a = p->cv[k]; int v = p->ci[k];
        if (a == 0) continue;
        double l0 = p->lb[v], u0 = p->ub[v];
        if (fixd(l0, u0)) continue;
        double x = a > 0 ? l0 : u0, y = a > 0 ? u0 : l0;
        double nl = -INF, nu = INF;
        if (needhi) {
            int inf_others = imn - (isinf(x) ? 1 : 0);
            if (!inf_others) {
                double rest = mn - (isinf(x) ? 0 : a * x);
                double b = (p->rhi[r] - rest) / a;
                if (a > 0) nu = b; else nl = b;
            }
        }
        if (needlo) {
            int inf_others = imx - (isinf(y) ? 1 : 0);
            if (!inf_others) {
                double rest = mx - (isinf(y) ? 0 : a * y);
                double b = (p->rlo[r] - rest) / a;
                if (a > 0) { if (b > nl) nl = b; } else { if (b < nu) nu = b; }
            }
        }
        if (nl > nu) { double z = 0.5 * (nl + nu); if (nl - nu > p->tol * (1 + fabs(nl))) { if (!tighten(p, v, nl, INF) || !tighten(p, v, -INF, nu)) return 0; continue; } nl = nu = z; }
        if (nl > -INF || nu < INF) {
            double lo = p->lb[v], up = p->ub[v];
            if (!tighten(p, v, nl, nu)) return 0;
            if (p->lb[v] != lo || p->ub[v] != up) {
                /* keep activity bounds valid (they only get looser without update, so recompute lazily) */
            }
        }
    }
    return 1;
}

static int propagate(P *p) {
    long lim = 60L * p->m + 1000, c = 0;
    while (p->qn) {
        int r = p->q[p->qh]; p->qh = (p->qh + 1) % (p->m + 1); p->qn--; p->inq[r] = 0;
        if (!proprow(p, r)) { clearq(p); return 0; }
        if (++c > lim) { clearq(p); return 1; }
    }
    return 1;
}

/* ---------- dense two-phase simplex (Bland) : min c x, rows lo<=Ax<=hi, l<=x<=u ; returns 0 infeasible,1 ok,2 unbounded */
static int simplex(int n, int m, const double *A, const double *lo, const double *hi, const double *l, const double *u,
                   const double *c, double *obj, double *xout) {
    /* columns: for each var either z=x-l (l finite), z=u-x, or split */
    int *map = malloc(sizeof(int) * n), *kind = malloc(sizeof(int) * n);
    int nc = 0, nr = 0;
    for (int j = 0; j < n; j++) {
        map[j] = nc;
        if (l[j] > -INF) { kind[j] = 0; nc++; if (u[j] < INF) nr++; }
        else if (u[j] < INF) { kind[j] = 1; nc++; }
        else { kind[j] = 2; nc += 2; }
    }
    for (int i = 0; i < m; i++) {
        if (lo[i] == hi[i]) nr++;
        else { if (lo[i] > -INF) nr++; if (hi[i] < INF) nr++; }
    }
    int maxc = nc + 2 * nr + 1;     /* slack + artificial + rhs */
    double *T = calloc((size_t)(nr + 1) * maxc, sizeof(double));
    int *bas = malloc(sizeof(int) * (nr + 1));
    int ns = nc, row = 0;
    double base = 0;
    for (int j = 0; j < n; j++) { if (kind[j] == 0) base += c[j] * l[j]; else if (kind[j] == 1) base += c[j] * u[j]; }
#define TT(i, j) T[(size_t)(i) * maxc + (j)]
    int RHS = maxc - 1;
    int *need = calloc(nr + 1, sizeof(int));
    for (int i = 0; i < m; i++) {
        for (int side = 0; side < 2; side++) {
            int eq = lo[i] == hi[i];
            if (side == 0 && hi[i] == INF) continue;
            if (side == 1 && (eq || lo[i] == -INF)) continue;
            double rhs = side == 0 ? hi[i] : lo[i];
            for (int j = 0; j < n; j++) {
                double a = A[(size_t)i * n + j];
                if (a == 0) continue;
                if (kind[j] == 0) { TT(row, map[j]) += a; rhs -= a * l[j]; }
                else if (kind[j] == 1) { TT(row, map[j]) -= a; rhs -= a * u[j]; }
                else { TT(row, map[j]) += a; TT(row, map[j] + 1) -= a; }
            }
            double sg = side == 0 ? 1 : -1;
            int sc = -1;
            if (!eq) { sc = ns++; TT(row, sc) = sg; }
            if (rhs < 0) { for (int k = 0; k < maxc - 1; k++) TT(row, k) = -TT(row, k); rhs = -rhs; sg = -sg; }
            TT(row, RHS) = rhs;
            if (sc >= 0 && sg > 0) bas[row] = sc; else { bas[row] = -1; need[row] = 1; }
            row++;
        }
    }
    for (int j = 0; j < n; j++) if (kind[j] == 0 && u[j] < INF) {
        TT(row, map[j]) = 1; int sc = ns++; TT(row, sc) = 1; TT(row, RHS) = u[j] - l[j]; bas[row] = sc; row++;
    }
    nr = row;
    int na = ns;
    for (int i = 0; i < nr; i++) if (need[i]) { TT(i, na) = 1; bas[i] = na; na++; }
    double *z = calloc(maxc, sizeof(double));
    int res = 1;
    for (int phase = 1; phase <= 2 && res == 1; phase++) {
        memset(z, 0, sizeof(double) * maxc);
        int ncols = phase == 1 ? na : ns;
        if (phase == 1) {
            for (int i = 0; i < nr; i++) if (bas[i] >= ns) { for (int k = 0; k < ns; k++) z[k] -= TT(i, k); z[RHS] -= TT(i, RHS); }
        } else {
            double *cc = calloc(maxc, sizeof(double));
            for (int j = 0; j < n; j++) {
                if (kind[j] == 0) cc[map[j]] = c[j];
                else if (kind[j] == 1) cc[map[j]] = -c[j];
                else { cc[map[j]] = c[j]; cc[map[j] + 1] = -c[j]; }
            }
            for (int k = 0; k < maxc; k++) z[k] = cc[k];
            for (int i = 0; i < nr; i++) { double w = bas[i] < maxc - 1 ? cc[bas[i]] : 0; if (w != 0) { for (int k = 0; k < ns; k++) z[k] -= w * TT(i, k); z[RHS] -= w * TT(i, RHS); } }
            free(cc);
        }
        for (int it = 0; it < 5000; it++) {
            int e = -1;
            for (int k = 0; k < (phase == 1 ? ns : ncols); k++) if (z[k] < -1e-9) { e = k; break; }
            if (e < 0) break;
            int r = -1; double best = 0;
            for (int i = 0; i < nr; i++) if (TT(i, e) > 1e-9) {
                double q = TT(i, RHS) / TT(i, e);
                if (r < 0 || q < best - 1e-12 || (q <= best + 1e-12 && bas[i] < bas[r])) { r = i; best = q; }
            }
            if (r < 0) { if (phase == 2) res = 2; else res = 0; break; }
            double pv = TT(r, e);
            for (int k = 0; k < maxc; k++) TT(r, k) /= pv;
            for (int i = 0; i < nr; i++) if (i != r) { double f = TT(i, e); if (f != 0) for (int k = 0; k < maxc; k++) TT(i, k) -= f * TT(r, k); }
            double f = z[e]; for (int k = 0; k < maxc; k++) z[k] -= f * TT(r, k);
            bas[r] = e;
        }
        if (phase == 1 && res == 1) {
            double inf = 0; for (int i = 0; i < nr; i++) if (bas[i] >= ns) inf += fabs(TT(i, RHS));
            if (inf > 1e-6) res = 0;
            else for (int i = 0; i < nr; i++) if (bas[i] >= ns) { /* drive artificial out */
                int e = -1; for (int k = 0; k < ns; k++) if (fabs(TT(i, k)) > 1e-9) { e = k; break; }
                if (e < 0) { for (int k = 0; k < maxc; k++) TT(i, k) = 0; continue; }
                double pv = TT(i, e);
                for (int k = 0; k < maxc; k++) TT(i, k) /= pv;
                for (int q = 0; q < nr; q++) if (q != i) { double f = TT(q, e); if (f != 0) for (int k = 0; k < maxc; k++) TT(q, k) -= f * TT(i, k); }
                bas[i] = e;
            }
        }
    }
    if (res == 1) {
        *obj = base - z[RHS];
        if (xout) {
            double *val = calloc(maxc, sizeof(double));
            for (int i = 0; i < nr; i++) if (bas[i] < maxc - 1) val[bas[i]] = TT(i, RHS);
            for (int j = 0; j < n; j++) {
                if (kind[j] == 0) xout[j] = l[j] + val[map[j]];
                else if (kind[j] == 1) xout[j] = u[j] - val[map[j]];
                else xout[j] = val[map[j]] - val[map[j] + 1];
            }
            free(val);
        }
    }
    free(map); free(kind); free(T); free(bas); free(need); free(z);
    return res;
}

static void record(P *p, const double *x, const double *lo, const double *hi) {
    if (!p->curopen) {
        if (p->nw == p->cap) {
            if (p->nw >= p->maxw) { p->overflow = 1; return; }
            p->cap = p->cap ? p->cap * 2 : 256;
            p->words = realloc(p->words, sizeof(int) * p->cap * (p->nch ? p->nch : 1));
            p->olo = realloc(p->olo, sizeof(double) * p->cap * (p->nobs ? p->nobs : 1));
            p->ohi = realloc(p->ohi, sizeof(double) * p->cap * (p->nobs ? p->nobs : 1));
            p->ncomp = realloc(p->ncomp, sizeof(int) * p->cap);
            if (p->wantsol) p->sols = realloc(p->sols, sizeof(double) * p->cap * p->n);
        }
        memcpy(p->words + p->nw * p->nch, p->cur, sizeof(int) * p->nch);
        for (int i = 0; i < p->nobs; i++) { p->olo[p->nw * p->nobs + i] = INF; p->ohi[p->nw * p->nobs + i] = -INF; }
        if (p->wantsol) memcpy(p->sols + p->nw * p->n, x, sizeof(double) * p->n);
        p->ncomp[p->nw] = 0;
        p->nw++; p->curopen = 1;
    }
    long w = p->nw - 1;
    p->ncomp[w]++;
    for (int i = 0; i < p->nobs; i++) {
        if (lo[i] < p->olo[w * p->nobs + i]) p->olo[w * p->nobs + i] = lo[i];
        if (hi[i] > p->ohi[w * p->nobs + i]) p->ohi[w * p->nobs + i] = hi[i];
    }
}

static void leaf(P *p) {
    p->leaves++;
    int n = p->n;
    double *x = malloc(sizeof(double) * n);
    int *idx = malloc(sizeof(int) * n); int nf = 0;
    for (int v = 0; v < n; v++) {
        idx[v] = -1;
        if (isfixed(p, v)) x[v] = p->isint[v] ? rint(p->lb[v]) : (p->lb[v] + p->ub[v]) / 2;
        else if (p->cp[v] == p->cp[v + 1]) x[v] = p->lb[v] > -INF ? p->lb[v] : (p->ub[v] < INF ? p->ub[v] : 0); /* in no row */
        else idx[v] = nf++;
    }
    double *olo = malloc(sizeof(double) * (p->nobs + 1)), *ohi = malloc(sizeof(double) * (p->nobs + 1));
    int ok = 1;
    int *rows = malloc(sizeof(int) * p->m); int nrow = 0;
    double *rl = malloc(sizeof(double) * p->m), *rh = malloc(sizeof(double) * p->m);
    for (int r = 0; r < p->m && ok; r++) {
        double s = 0, big = 0; int un = 0;
        for (int k = p->rp[r]; k < p->rp[r + 1]; k++) {
            if (idx[p->ci[k]] >= 0) { un++; continue; }
            double y = p->cv[k] * x[p->ci[k]]; s += y; if (fabs(y) > big) big = fabs(y);
        }
        double t = p->tol + 1e-12 * big;
        if (!un) { if (s > p->rhi[r] + t || s < p->rlo[r] - t) ok = 0; }
        else { rl[nrow] = p->rlo[r] - s; rh[nrow] = p->rhi[r] - s; rows[nrow++] = r; }
    }
    if (ok && nf) {
        /* split the residual system into connected components */
        int *comp = malloc(sizeof(int) * nf); for (int j = 0; j < nf; j++) comp[j] = j;
        for (int i = 0; i < nrow; i++) {
            int first = -1;
            for (int k = p->rp[rows[i]]; k < p->rp[rows[i] + 1]; k++) {
                int j = idx[p->ci[k]]; if (j < 0) continue;
                while (comp[j] != j) j = comp[j];
                if (first < 0) first = j; else if (j != first) { comp[j] = first; }
            }
        }
        for (int j = 0; j < nf; j++) { int q = j; while (comp[q] != q) q = comp[q]; comp[j] = q; }
        int *inv = malloc(sizeof(int) * nf);
        for (int v = 0; v < n; v++) if (idx[v] >= 0) inv[idx[v]] = v;
        for (int i = 0; i < p->nobs; i++) { olo[i] = INF; ohi[i] = -INF; }
        for (int root = 0; root < nf && ok; root++) {
            if (comp[root] != root) continue;
            int *loc = malloc(sizeof(int) * nf), *vars = malloc(sizeof(int) * nf); int ln = 0;
            for (int j = 0; j < nf; j++) { loc[j] = -1; if (comp[j] == root) { loc[j] = ln; vars[ln++] = inv[j]; } }
            int lm = 0; int *lr = malloc(sizeof(int) * nrow + 4);
            for (int i = 0; i < nrow; i++) {
                int has = 0;
                for (int k = p->rp[rows[i]]; k < p->rp[rows[i] + 1]; k++) { int j = idx[p->ci[k]]; if (j >= 0 && comp[j] == root) has = 1; }
                if (has) lr[lm++] = i;
            }
            double *A = calloc((size_t)(lm + 1) * ln, sizeof(double)), *alo = malloc(sizeof(double) * (lm + 1)), *ahi = malloc(sizeof(double) * (lm + 1));
            double *l = malloc(sizeof(double) * ln), *u = malloc(sizeof(double) * ln), *c = calloc(ln, sizeof(double)), *xo = malloc(sizeof(double) * ln);
            for (int i = 0; i < lm; i++) {
                alo[i] = rl[lr[i]]; ahi[i] = rh[lr[i]];
                if (alo[i] != ahi[i]) { alo[i] -= 1e-9; ahi[i] += 1e-9; }
                for (int k = p->rp[rows[lr[i]]]; k < p->rp[rows[lr[i]] + 1]; k++) { int j = idx[p->ci[k]]; if (j >= 0) A[(size_t)i * ln + loc[j]] += p->cv[k]; }
            }
            for (int j = 0; j < ln; j++) { l[j] = p->lb[vars[j]]; u[j] = p->ub[vars[j]]; }
            double ob;
            p->lps++;
            int rs = simplex(ln, lm, A, alo, ahi, l, u, c, &ob, xo);
            if (rs == 0) ok = 0;
            else {
                for (int j = 0; j < ln; j++) x[vars[j]] = xo[j];
                for (int i = 0; i < p->nobs; i++) {
                    int v = p->obs[i]; if (v < 0 || idx[v] < 0 || comp[idx[v]] != root) continue;
                    int j = loc[idx[v]];
                    olo[i] = -INF; ohi[i] = INF;
                    if (p->obsdir[i] & 1) { c[j] = 1; p->lps++; rs = simplex(ln, lm, A, alo, ahi, l, u, c, &ob, xo); if (rs == 1) olo[i] = ob; }
                    if (p->obsdir[i] & 2) { c[j] = -1; p->lps++; rs = simplex(ln, lm, A, alo, ahi, l, u, c, &ob, xo); if (rs == 1) ohi[i] = -ob; }
                    c[j] = 0;
                }
            }
            free(loc); free(vars); free(lr); free(A); free(alo); free(ahi); free(l); free(u); free(c); free(xo);
        }
        free(comp); free(inv);
    }
    if (ok) {
        for (int i = 0; i < p->nobs; i++) {
            int v = p->obs[i];
            if (v < 0) { olo[i] = ohi[i] = 0; continue; }
            if (idx[v] < 0) {
                if (isfixed(p, v)) olo[i] = ohi[i] = x[v];
                else { olo[i] = p->lb[v]; ohi[i] = p->ub[v]; }
            }
        }
        record(p, x, olo, ohi);
    }
    free(x); free(idx); free(olo); free(ohi); free(rows); free(rl); free(rh);
}

static int assign(P *p, int v, double val) {
    if (val < p->lb[v] - p->tol || val > p->ub[v] + p->tol) return 0;
    if (p->isint[v] && fabs(val - rint(val)) > 1e-6) return 0;
    if (p->lb[v] != val || p->ub[v] != val) {
        settrail(p, v);
        p->lb[v] = p->ub[v] = val;
        pushvar(p, v);
    }
    return propagate(p);
}

static void branch(P *p) {
    if (p->overflow) return;
    if (p->anycomp && p->curopen) return;
    p->nodes++;
    if (p->nodes > p->maxnodes) { p->overflow = 2; return; }
    int b = -1;
    for (int i = 0; i < p->nint; i++) { int v = p->intlist[i]; if (!isfixed(p, v)) { b = v; break; } }
    if (b < 0) { leaf(p); return; }
    double lo = p->lb[b], hi = p->ub[b];
    if (isinf(lo) || isinf(hi) || hi - lo > 64) { p->overflow = 3; return; }
    for (double val = ceil(lo - 1e-6) + 0.0; val <= hi + 1e-6; val += 1) {
        int mark = p->tn;
        if (assign(p, b, val)) branch(p); else p->cuts++;
        undo(p, mark);
    }
}

static void dfs(P *p, int k) {
    if (p->overflow) return;
    p->nodes++;
    if (p->nodes > p->maxnodes) { p->overflow = 2; return; }
    if (k == p->nch) { p->curopen = 0; branch(p); p->curopen = 0; return; }
    int v = p->chv[k];
    for (int g = p->gp[k]; g < p->gp[k + 1]; g++) {
        int mark = p->tn;
        p->cur[k] = g - p->gp[k];
        if (assign(p, v, p->gv[g])) dfs(p, k + 1); else p->cuts++;
        undo(p, mark);
    }
}

/* returns a handle */
void *fx_run(int n, int m, const double *lb, const double *ub, const unsigned char *isint,
             const int *rp, const int *ci, const double *cv, const double *rlo, const double *rhi,
             int nch, const int *chv, const int *gp, const double *gv,
             int nobs, const int *obs, const unsigned char *obsdir,
             double tol, long maxw, long maxnodes, int wantsol, int anycomp) {
    P *p = calloc(1, sizeof(P));
    p->n = n; p->m = m;
    p->lb = malloc(sizeof(double) * n); p->ub = malloc(sizeof(double) * n);
    memcpy(p->lb, lb, sizeof(double) * n); memcpy(p->ub, ub, sizeof(double) * n);
    p->isint = isint; p->rp = rp; p->ci = ci; p->cv = cv; p->rlo = rlo; p->rhi = rhi;
    p->nch = nch; p->chv = chv; p->gp = gp; p->gv = gv; p->nobs = nobs; p->obs = obs; p->obsdir = obsdir;
    p->tol = tol; p->maxw = maxw; p->maxnodes = maxnodes; p->wantsol = wantsol; p->anycomp = anycomp;
    int nz = rp[m];
    p->cp = calloc(n + 2, sizeof(int)); p->cr = malloc(sizeof(int) * (nz + 1));
    for (int k = 0; k < nz; k++) p->cp[ci[k] + 1]++;
    for (int v = 0; v < n; v++) p->cp[v + 1] += p->cp[v];
    int *pos = malloc(sizeof(int) * (n + 1)); memcpy(pos, p->cp, sizeof(int) * n);
    for (int r = 0; r < m; r++) for (int k = rp[r]; k < rp[r + 1]; k++) p->cr[pos[ci[k]]++] = r;
    free(pos);
    p->q = malloc(sizeof(int) * (m + 2)); p->inq = calloc(m + 1, 1);
    p->cur = calloc(nch + 1, sizeof(int));
    p->intlist = malloc(sizeof(int) * (n + 1));
    for (int v = 0; v < n; v++) if (isint[v]) p->intlist[p->nint++] = v;
    int ok = 1;
    for (int v = 0; v < n && ok; v++) if (p->lb[v] > p->ub[v]) { if (p->lb[v] > p->ub[v] + tol) ok = 0; else p->ub[v] = p->lb[v]; }
    for (int r = 0; r < m; r++) { if (rlo[r] > rhi[r] + tol) ok = 0; pushrow(p, r); }
    if (ok && propagate(p)) dfs(p, 0);
    return p;
}
void fx_stats(void *h, long *out) {
    P *p = h; out[0] = p->nw; out[1] = p->nodes; out[2] = p->leaves; out[3] = p->lps; out[4] = p->cuts; out[5] = p->overflow; out[6] = p->propagations;
}
void fx_get(void *h, int *words, double *olo, double *ohi, int *ncomp, double *sols) {
    P *p = h;
    memcpy(words, p->words, sizeof(int) * p->nw * p->nch);
    memcpy(olo, p->olo, sizeof(double) * p->nw * p->nobs);
    memcpy(ohi, p->ohi, sizeof(double) * p->nw * p->nobs);
    memcpy(ncomp, p->ncomp, sizeof(int) * p->nw);
    if (p->wantsol && sols) memcpy(sols, p->sols, sizeof(double) * p->nw * p->n);
}
void fx_free(void *h) {
    P *p = h;
    free(p->lb); free(p->ub); free(p->cp); free(p->cr); free(p->q); free(p->inq); free(p->cur); free(p->intlist);
    free(p->tv); free(p->tl); free(p->tu); free(p->words); free(p->olo); free(p->ohi); free(p->ncomp); free(p->sols); free(p);
}
