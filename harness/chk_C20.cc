// C20: sparse kernels, the LDL' factorisation and the KKT solves against dense references.
#include "common.h"
extern "C" {
#include "cone.h"
#include "kkt.h"
#include "ldl.h"
void spla_cumsum(idxint* p, idxint* w, idxint m);
}
typedef vector<ld> lvec;
static const double U = 1.2e-16;
// exact-size copy on the heap
template <class T> struct Buf { T* p; size_t n; Buf(const vector<T>& v) : n(v.size()) { p = (T*)malloc(sizeof(T) * std::max<size_t>(n, 1)); if (n) memcpy(p, v.data(), sizeof(T) * n); vf_unpoison(p, sizeof(T) * std::max<size_t>(n, 1)); } Buf(size_t n_, T v) : Buf(vector<T>(n_, v)) {} ~Buf() { free(p); } Buf(const Buf&) = delete; operator T*() { return p; } template <class I> T& operator[](I i) { return p[i]; } vector<T> v() const { return vector<T>(p, p + n); } bool same(const vector<T>& o) const { return o.size() == n && (!n || !memcmp(p, o.data(), sizeof(T) * n)); } };
struct RM { idxint m, n; ivec jc, ir; dvec pr; };
// random sparse matrix, columns stored in any order, no duplicates; whole numbers make every product exact
static RM randMat(Rng& r, idxint m, idxint n, bool whole) { RM M{m, n, ivec(n + 1, 0), {}, {}}; int kind = (int)r.i(0, 5); double dens = kind == 0 ? 0 : kind == 1 ? 1 : r.u(0, 1); ivec rowdead(m, 0); if (r.p(0.4)) for (auto& v : rowdead) v = r.p(0.3); for (idxint j = 0; j < n; j++) { if (!(r.p(0.2) && kind > 1)) { vector<long> o = r.perm(m); if (r.p(0.6)) std::sort(o.begin(), o.end()); for (long i : o) if (r.p(dens) && !rowdead[i]) { M.ir.push_back((idxint)i); double v = whole ? (double)r.i(-9, 9) : r.n() * pow(10, r.u(-3, 3)); if (r.p(0.05)) v = 0; M.pr.push_back(v); } } M.jc[j + 1] = (idxint)M.ir.size(); } return M; }
static dvec randVec(Rng& r, idxint n, bool whole) { dvec v(n); for (auto& x : v) x = r.p(0.1) ? 0 : whole ? (double)r.i(-99, 99) : r.n() * pow(10, r.u(-3, 3)); return v; }
static void kernels(Ctx& c) {
  Rng& r = c.rng; bool whole = r.p(0.6); idxint m = r.p(0.08) ? 0 : r.i(1, 9), n = r.p(0.08) ? 0 : r.i(1, 9); RM M = randMat(r, m, n, whole); idxint nz = M.jc[n]; string D = fmt("%ld x %ld, %ld entries%s", (long)m, (long)n, (long)nz, whole ? ", whole" : ""); c.sample(D);
  Buf<idxint> jc(M.jc), ir(M.ir); Buf<double> pr(M.pr); spmat A; memset(&A, 0, sizeof A); A.m = m; A.n = n; A.nnz = nz; A.jc = jc; A.ir = ir; A.pr = pr; c.seen(hmix(hash64(M.pr.data(), 8 * nz), hmix(hash64(M.ir.data(), sizeof(idxint) * nz), m * 100 + n)));
  auto kept = [&](const char* f) { if (!jc.same(M.jc) || !ir.same(M.ir) || !pr.same(M.pr) || A.m != m || A.n != n || A.nnz != nz) c.viol(string("k/input/") + f, "%s: %s changes its input", D.c_str(), f); };
  auto cmp = [&](const char* key, const char* what, const double* got, const lvec& ref, const lvec& abs) { for (size_t i = 0; i < ref.size(); i++) { ld t = whole ? 0 : 4 * U * (m + n + 2) * abs[i]; if (!(fabsl(got[i] - ref[i]) <= t)) { c.viol(key, "%s: %s: entry %zu is %.17g, should be %.17Lg", D.c_str(), what, i, got[i], ref[i]); return; } } };
  // y = +-A x, y +-= A x
  { dvec x0 = randVec(r, n, whole); Buf<double> x(x0); for (int nw = 0; nw < 2; nw++) for (int s = 0; s < 2; s++) { dvec y0 = nw ? dvec(m, NAN) : randVec(r, m, whole); Buf<double> y(y0); idxint a = s ? r.i(1, 3) : -r.i(1, 3); sparseMV(&A, x, y, a, nw ? r.i(1, 2) : 0); lvec ref(m, 0), ab(m, 0); if (!nw) for (idxint i = 0; i < m; i++) { ref[i] = y0[i]; ab[i] = fabs(y0[i]); } for (idxint j = 0; j < n; j++) for (idxint k = M.jc[j]; k < M.jc[j + 1]; k++) { ld t = (ld)M.pr[k] * x0[j]; ref[M.ir[k]] += s ? t : -t; ab[M.ir[k]] += fabsl(t); } cmp("k/mv", fmt("product (a=%ld, new=%d)", (long)a, nw).c_str(), y, ref, ab); c.stat("products"); } kept("sparseMV"); if (!x.same(x0)) c.viol("k/input/sparseMV", "%s: the product changes its vector", D.c_str()); }
  { dvec x0 = randVec(r, m, whole); Buf<double> x(x0); for (int nw = 0; nw < 2; nw++) for (int sd = 0; sd < 2; sd++) { dvec y0 = nw ? dvec(n, NAN) : randVec(r, n, whole); Buf<double> y(y0); sparseMtVm(&A, x, y, nw, sd); lvec ref(n, 0), ab(n, 0); if (!nw) for (idxint i = 0; i < n; i++) { ref[i] = y0[i]; ab[i] = fabs(y0[i]); } for (idxint j = 0; j < n; j++) for (idxint k = M.jc[j]; k < M.jc[j + 1]; k++) { if (sd && M.ir[k] == j) continue; ld t = (ld)M.pr[k] * x0[M.ir[k]]; ref[j] -= t; ab[j] += fabsl(t); } cmp("k/mtv", fmt("transposed product (new=%d, skip=%d)", nw, sd).c_str(), y, ref, ab); c.stat("products"); } kept("sparseMtVm"); if (!x.same(x0)) c.viol("k/input/sparseMtVm", "%s: the product changes its vector", D.c_str()); }
  // vectors
  { idxint k = r.p(0.1) ? 0 : r.i(1, 40); dvec x0 = randVec(r, k, whole), y0 = randVec(r, k, whole); double a = whole ? (double)r.i(-9, 9) : r.n(); Buf<double> x(x0), y(y0); vadd(k, x, y); lvec ref(k), ab(k); for (idxint i = 0; i < k; i++) { ref[i] = (ld)x0[i] + y0[i]; ab[i] = fabs(x0[i]) + fabs(y0[i]); } cmp("k/vadd", "sum", y, ref, ab); Buf<double> y2(y0); vsubscale(k, a, x, y2); for (idxint i = 0; i < k; i++) { ref[i] = (ld)y0[i] - (ld)a * x0[i]; ab[i] = fabs(a * x0[i]) + fabs(y0[i]); } cmp("k/vsubscale", "scaled difference", y2, ref, ab); if (!x.same(x0)) c.viol("k/input/vectors", "a vector operation changes its input");
    ld dot = 0, ad = 0, sq = 0, mx = 0; for (idxint i = 0; i < k; i++) { dot += (ld)x0[i] * y0[i]; ad += fabsl((ld)x0[i] * y0[i]); sq += (ld)x0[i] * x0[i]; mx = std::max(mx, fabsl((ld)x0[i])); } double d = eddot(k, x, y2); (void)d; Buf<double> y3(y0); d = eddot(k, x, y3); if (!(fabsl(d - dot) <= (whole ? 0 : 2 * U * (k + 1) * ad))) c.viol("k/dot", "inner product of %ld entries is %.17g, should be %.17Lg", (long)k, d, dot); double n2 = norm2(x, k), ni = norminf(x, k); if (!(fabsl(n2 - sqrtl(sq)) <= 2 * U * (k + 2) * sqrtl(sq))) c.viol("k/norm2", "norm of %ld entries is %.17g, should be %.17Lg", (long)k, n2, sqrtl(sq)); if (ni != (double)mx) c.viol("k/norminf", "largest of %ld entries is %.17g, should be %.17Lg", (long)k, ni, mx); c.stat("vector operations"); }
  // transpose
  { Buf<idxint> map(ivec(nz, -7)); spmat* T = transposeSparseMatrix(&A, map); kept("transpose"); string why; if (T->m != n || T->n != m || T->nnz != nz || T->jc[0] != 0 || T->jc[m] != nz) why = "dimensions"; ivec used(nz, 0); for (idxint j = 0; j < m && why.empty(); j++) if (T->jc[j] > T->jc[j + 1]) why = "column pointers"; for (idxint j = 0; j < n && why.empty(); j++) for (idxint k = M.jc[j]; k < M.jc[j + 1]; k++) { idxint q = map[k]; if (q < 0 || q >= nz || used[q]++) { why = "the map of the entries is not a permutation"; break; } idxint col = M.ir[k]; if (T->ir[q] != j || memcmp(&T->pr[q], &M.pr[k], 8) || q < T->jc[col] || q >= T->jc[col + 1]) { why = fmt("entry %ld", (long)k); break; } }
    for (idxint j = 0; j < m && why.empty(); j++) for (idxint q = T->jc[j] + 1; q < T->jc[j + 1]; q++) if (T->ir[q] <= T->ir[q - 1]) { why = "rows not sorted"; break; } if (why.size()) c.viol("k/transpose", "%s: transpose: %s", D.c_str(), why.c_str()); freeSparseMatrix(T); c.stat("transposes"); if (!nz) c.stat("transposes of empty matrices"); }
  // copies
  { spmat* B = copySparseMatrix(&A); kept("copy"); if (B->m != m || B->n != n || B->nnz != nz || memcmp(B->jc, M.jc.data(), sizeof(idxint) * (n + 1)) || (nz && (memcmp(B->ir, M.ir.data(), sizeof(idxint) * nz) || memcmp(B->pr, M.pr.data(), 8 * nz))) || B->jc == A.jc || B->pr == A.pr) c.viol("k/copy", "%s: the copy differs", D.c_str()); freeSparseMatrix(B); spmat* W = ecoscreateSparseMatrix(m, n, nz, jc, ir, pr); if (W->m != m || W->n != n || W->nnz != nz || W->jc != jc.p || W->ir != ir.p || W->pr != pr.p) c.viol("k/create", "%s: the created matrix does not hold the arrays", D.c_str()); kept("create"); free(W); }
  // inverse permutations, cumulative sums
  { idxint k = r.p(0.1) ? 0 : r.i(1, 30); vector<long> p = r.perm(k); Buf<idxint> a(ivec(p.begin(), p.end())), b(ivec(k, -5)); pinv(k, a, b); for (idxint i = 0; i < k; i++) if (b[p[i]] != i) { c.viol("k/pinv", "the inverse of a permutation of %ld is wrong", (long)k); break; } ivec w0(k); for (auto& v : w0) v = r.i(0, 5); Buf<idxint> w(w0), q(ivec(k, -5)); spla_cumsum(q, w, k); idxint s = 0; for (idxint i = 0; i < k; i++) { if (q[i] != s || w[i] != s) { c.viol("k/cumsum", "cumulative sum %ld of %ld", (long)i, (long)k); break; } s += w0[i]; } }
  // symmetric permutation; entries below the diagonal are ignored
  { idxint k = r.p(0.05) ? 0 : r.i(1, 12); bool low = r.p(0.3); RM S = randMat(r, k, k, true); RM K{k, k, ivec(k + 1, 0), {}, {}}; for (idxint j = 0; j < k; j++) { for (idxint q = S.jc[j]; q < S.jc[j + 1]; q++) if (low || S.ir[q] <= j) { K.ir.push_back(S.ir[q]); K.pr.push_back(S.pr[q] * 100 + q % 100 * 0.25); } K.jc[j + 1] = (idxint)K.ir.size(); } idxint kz = K.jc[k], up = 0; for (idxint j = 0; j < k; j++) for (idxint q = K.jc[j]; q < K.jc[j + 1]; q++) up += K.ir[q] <= j; vector<long> p = r.perm(k); ivec pi(k); for (idxint i = 0; i < k; i++) pi[p[i]] = i;
    Buf<idxint> kj(K.jc), ki(K.ir), P(pi); Buf<double> kp(K.pr); spmat B; memset(&B, 0, sizeof B); B.m = B.n = k; B.nnz = kz; B.jc = kj; B.ir = ki; B.pr = kp; spmat* C = newSparseMatrix(k, k, up); Buf<idxint> PK(ivec(kz, -9)); bool withPK = r.p(0.7); permuteSparseSymmetricMatrix(&B, P, C, withPK ? PK.p : nullptr); string why; if (C->jc[k] != up || (k && C->jc[0] != 0)) why = "number of entries"; ivec used(up, 0);
    for (idxint j = 0; j < k && why.empty(); j++) { if (C->jc[j] > C->jc[j + 1]) why = "column pointers"; for (idxint q = C->jc[j]; q < C->jc[j + 1] && why.empty(); q++) if (C->ir[q] > j || C->ir[q] < 0) why = "entry below the diagonal"; }
    if (why.empty()) { std::map<std::pair<idxint, idxint>, double> E, F; for (idxint j = 0; j < k; j++) for (idxint q = K.jc[j]; q < K.jc[j + 1]; q++) if (K.ir[q] <= j) { idxint a = pi[K.ir[q]], b = pi[j]; E[{std::min(a, b), std::max(a, b)}] = K.pr[q]; if (withPK) { idxint t = PK[q]; if (t < 0 || t >= up || used[t]++) { why = "the map of the entries is not a permutation"; break; } if (C->ir[t] != std::min(a, b) || C->pr[t] != K.pr[q]) { why = fmt("the map of entry %ld", (long)q); break; } } } for (idxint j = 0; j < k; j++) for (idxint q = C->jc[j]; q < C->jc[j + 1]; q++) F[{C->ir[q], j}] = C->pr[q]; if (why.empty() && E != F) why = "entries differ"; }
    if (why.size()) c.viol("k/permute", "symmetric permutation of a %ld x %ld matrix with %ld entries (%ld below the diagonal): %s", (long)k, (long)k, (long)kz, (long)(kz - up), why.c_str()); if (!kj.same(K.jc) || !ki.same(K.ir) || !kp.same(K.pr) || !P.same(pi)) c.viol("k/input/permute", "the symmetric permutation changes its input"); freeSparseMatrix(C); c.stat("symmetric permutations"); }
}
static Reg r1("C20", kernels);
// factorisation and triangular solves
static void factor(Ctx& c) {
  Rng& r = c.rng; idxint n = r.p(0.03) ? 0 : r.p(0.1) ? r.i(20, 60) : r.i(1, 18); int kind = (int)r.i(0, 5); vector<lvec> A(n, lvec(n, 0)); vector<vector<char>> pat(n, vector<char>(n, 0)); ivec sg(n); double dens = r.p(0.1) ? 1 : r.u(0, 0.6);
  // quasi-definite: [P A'; A -Q] with signs, in random order; some pivots are made too small or of the wrong sign
  double big = pow(10, r.u(-2, 4)); for (idxint i = 0; i < n; i++) sg[i] = kind == 0 ? 1 : kind == 1 ? -1 : r.p(0.5) ? 1 : -1; bool whole = kind == 5;
  for (idxint i = 0; i < n; i++) for (idxint j = 0; j < i; j++) if (r.p(dens)) { bool same = sg[i] == sg[j]; if (same && r.p(0.5)) continue; double v = whole ? (double)r.i(-5, 5) : r.n() * pow(10, r.u(-1, 1)); A[i][j] = A[j][i] = v; pat[i][j] = pat[j][i] = 1; }
  int bad = (int)r.i(0, 3); for (idxint i = 0; i < n; i++) { ld s = 0; for (idxint j = 0; j < n; j++) if (sg[i] == sg[j]) s += fabsl(A[i][j]); double d = (double)s * r.u(0.5, 2) + (whole ? (double)r.i(1, 9) : r.u(0.1, 1) * (r.p(0.2) ? big : 1)); if (whole) d = (double)(long)(d + 1); A[i][i] = sg[i] * d; pat[i][i] = 1; if (bad >= 2 && r.p(0.15)) { int w = (int)r.i(0, 4); A[i][i] = w == 0 ? 0 : w == 1 ? -A[i][i] : w == 2 ? (double)sg[i] * 1e-14 : w == 3 ? (ld)(sg[i] * 1e-9) : A[i][i] * 1e-3; if (w == 0 && r.p(0.3)) pat[i][i] = 0; } }
  ivec jc(n + 1, 0), ir; dvec pr; for (idxint j = 0; j < n; j++) { vector<long> o = r.perm(j + 1); if (r.p(0.7)) std::sort(o.begin(), o.end()); for (long i : o) if (pat[i][j]) { ir.push_back((idxint)i); double v = (double)A[i][j]; A[i][j] = A[j][i] = v; pr.push_back(v); } jc[j + 1] = (idxint)ir.size(); }
  for (idxint i = 0; i < n; i++) if (!pat[i][i]) A[i][i] = 0; string D = fmt("order %ld, %zu entries, kind %d, pivots %d", (long)n, ir.size(), kind, bad); c.sample(D); c.seen(hmix(hash64(pr.data(), 8 * pr.size()), hash64(ir.data(), sizeof(idxint) * ir.size())));
  Buf<idxint> Ap(jc), Ai(ir), Lp(ivec(n + 1, -3)), Pa(ivec(n, -3)), Lnz(ivec(n, -3)), Fl(ivec(n, -3)), Pt(ivec(n, -3)), Sg(sg); Buf<double> Ax(pr); LDL_symbolic2(n, Ap, Ai, Lp, Pa, Lnz, Fl); c.stat("symbolic factorisations");
  // reference: elimination
  vector<vector<char>> F = pat; vector<idxint> cnt(n, 0), par(n, -1); for (idxint k = 0; k < n; k++) { for (idxint i = k + 1; i < n; i++) if (F[i][k]) { cnt[k]++; if (par[k] < 0) par[k] = i; for (idxint j = k + 1; j < n; j++) if (F[j][k] && j != i) F[i][j] = F[j][i] = 1; } }
  { idxint s = 0; for (idxint k = 0; k < n; k++) { if (Pa[k] != par[k]) { c.viol("ldl/tree", "%s: parent of %ld is %ld, should be %ld", D.c_str(), (long)k, (long)Pa[k], (long)par[k]); return; } if (Lp[k] != s) { c.viol("ldl/counts", "%s: column %ld starts at %ld, should at %ld", D.c_str(), (long)k, (long)Lp[k], (long)s); return; } s += cnt[k]; } if (Lp[n] != s) { c.viol("ldl/counts", "%s: %ld entries, should be %ld", D.c_str(), (long)Lp[n], (long)s); return; } }
  idxint lnz = Lp[n]; double eps = r.p(0.5) ? 1e-13 : pow(10, r.u(-14, -2)), delta = r.p(0.5) ? 2e-7 : pow(10, r.u(-10, 0)); if (r.p(0.1)) eps = 0; ivec lp0 = Lp.v(); Buf<idxint> Li(ivec(lnz, -3)), Lz(ivec(n, -3)); Buf<double> Lx(dvec(lnz, NAN)), Dd(dvec(n, NAN)), Y(dvec(n, NAN));
  auto num = [&]() { return LDL_numeric2(n, Ap, Ai, Ax, Lp, Pa, Sg, eps, delta, Lz, Li, Lx, Dd, Y, Pt, Fl); }; idxint rc = num(); c.stat("factorisations"); if (rc != n) c.viol("ldl/status", "%s: returns %ld", D.c_str(), (long)rc);
  if (!Ap.same(jc) || !Ai.same(ir) || !Ax.same(pr) || !Lp.same(lp0) || !Sg.same(sg)) c.viol("ldl/input", "%s: the factorisation changes its input", D.c_str());
  for (idxint k = 0; k < n; k++) { if (Lz[k] != cnt[k]) { c.viol("ldl/pattern", "%s: column %ld has %ld entries, should have %ld", D.c_str(), (long)k, (long)Lz[k], (long)cnt[k]); return; } vector<char> s(n, 0); for (idxint q = Lp[k]; q < Lp[k + 1]; q++) { if (Li[q] <= k || Li[q] >= n || !F[Li[q]][k] || s[Li[q]]++) { c.viol("ldl/pattern", "%s: column %ld holds row %ld", D.c_str(), (long)k, (long)Li[q]); return; } } }
  // the factors reproduce the matrix, but for the pivots that are too small or have the wrong sign
  vector<lvec> L(n, lvec(n, 0)); for (idxint k = 0; k < n; k++) { L[k][k] = 1; for (idxint q = Lp[k]; q < Lp[k + 1]; q++) L[Li[q]][k] = Lx[q]; } ld worst = 0; long reg = 0; double lmax = 1; for (idxint q = 0; q < lnz; q++) lmax = std::max(lmax, fabs(Lx[q])); if (!(lmax < 1e100)) { c.stat("factors overflow"); return; }
  for (idxint i = 0; i < n; i++) for (idxint j = 0; j <= i; j++) { ld s = 0, ab = 0; for (idxint k = 0; k <= j; k++) { ld t = L[i][k] * Dd[k] * L[j][k]; if (i == j && k == i) { if (!(sg[i] * Dd[i] > 0)) c.viol("ldl/sign", "%s: pivot %ld is %g, its sign should be %ld", D.c_str(), (long)i, Dd[i], (long)sg[i]); } s += t; ab += fabsl(t); } ab += fabsl(A[i][j]); ld e = s - A[i][j], tol = 4 * U * (n + 3) * ab + 1e-300L;
      if (i != j) { worst = std::max(worst, fabsl(e) / tol); if (!(fabsl(e) <= tol)) { c.viol("ldl/product", "%s: entry (%ld,%ld) of the product is off by %Lg (size %Lg)", D.c_str(), (long)i, (long)j, e, ab); return; } } else { ld raw = Dd[i] - e; // the pivot before the regularisation
        if (fabsl(e) <= tol && sg[i] * Dd[i] > eps) { if (sg[i] * raw <= eps - tol) c.viol("ldl/not-regularised", "%s: pivot %ld is %Lg, limit %g", D.c_str(), (long)i, raw, eps); } else if (Dd[i] == sg[i] * delta && sg[i] * raw <= eps + tol) reg++; else { c.viol("ldl/pivot", "%s: pivot %ld is %.17g, should be %.17Lg (sign %ld, limit %g, regularisation %g)", D.c_str(), (long)i, Dd[i], raw, (long)sg[i], eps, delta); return; } } }
  c.maxi("error of the product / bound", (double)worst); c.stat("regularised pivots", (double)reg); c.stat("pivots", (double)n); if (!reg) c.stat("factorisations without regularisation"); if (reg && bad < 2 && eps < 1e-3 && 0) c.viol("ldl/needless", "%s", D.c_str());
  { dvec l0 = Lx.v(), d0 = Dd.v(); ivec i0 = Li.v(); if (r.p(0.5)) { for (idxint i = 0; i < n; i++) { Fl[i] = r.i(0, 1000); Pt[i] = -1; Y[i] = NAN; } } num(); if (!Lx.same(l0) || !Dd.same(d0) || !Li.same(i0)) c.viol("ldl/repeat", "%s: factoring again gives other factors", D.c_str()); c.stat("factored again"); }
  // solves
  dvec b0 = randVec(r, n, false); Buf<double> b(b0), x(dvec(n, NAN)), y(b0); LDL_lsolve2(n, b, Lp, Li, Lx, x); if (!b.same(b0)) c.viol("ldl/input", "%s: the forward solve changes its right-hand side", D.c_str()); LDL_lsolve(n, y, Lp, Li, Lx);
  auto back = [&](const char* key, const dvec& x, const dvec& rhs, int t) { for (idxint i = 0; i < n; i++) { ld s = 0, ab = fabsl((ld)rhs[i]); for (idxint k = 0; k < n; k++) { ld a = t == 1 ? L[k][i] : t == 2 ? (k == i ? (ld)Dd[i] : 0) : L[i][k]; s += a * x[k]; ab += fabsl(a * x[k]); } if (!(fabsl(s - rhs[i]) <= 4 * U * (n + 2) * ab + 1e-300L) && std::isfinite((double)ab)) { c.viol(key, "%s: equation %ld is off by %Lg (size %Lg)", D.c_str(), (long)i, s - rhs[i], ab); return; } } };
  back("ldl/forward", x.v(), b0, 0); back("ldl/forward-inplace", y.v(), b0, 0); dvec x1 = x.v(); LDL_dsolve(n, x, Dd); back("ldl/diagonal", x.v(), x1, 2); dvec x2 = x.v(); LDL_ltsolve(n, x, Lp, Li, Lx); back("ldl/backward", x.v(), x2, 1); c.stat("triangular solves", 4);
  if (!reg && n) { // the matrix itself, when the factors did not grow
    dvec xx = x.v(); ld worstr = 0, nx = 0; for (double v : xx) nx = std::max(nx, fabsl((ld)v)); ld g = 0; for (idxint i = 0; i < n; i++) { ld s = 0; for (idxint k = 0; k < n; k++) s += A[i][k] * xx[k]; worstr = std::max(worstr, fabsl(s - b0[i])); ld a = 0; for (idxint k = 0; k < n; k++) for (idxint t = 0; t < n; t++) a += fabsl(L[i][k] * Dd[k] * L[t][k]) * fabsl((ld)xx[t]); g = std::max(g, a); } c.stat("systems solved"); if (!(worstr <= 12 * U * (n + 3) * g + 1e-300L)) c.viol("ldl/solution", "%s: the residual of the solution is %Lg (size %Lg)", D.c_str(), worstr, g); }
}
static Reg r2("C20ldl", factor);
// KKT systems of real solves with random right-hand sides
static void mulv(const spmat* A, const dvec& x, lvec& o) { if (A) for (idxint j = 0; j < A->n; j++) for (idxint q = A->jc[j]; q < A->jc[j + 1]; q++) o[A->ir[q]] -= (ld)A->pr[q] * x[j]; }
static void mult(const spmat* A, const dvec& y, lvec& o) { if (A) for (idxint j = 0; j < A->n; j++) for (idxint q = A->jc[j]; q < A->jc[j + 1]; q++) o[j] -= (ld)A->pr[q] * y[A->ir[q]]; }
static void kktSystems(Ctx& c) {
  Rng& r = c.rng; Prob P; Shape sh; sh.nmax = 12; sh.mmax = 24; int u = (int)r.i(0, 3); string cls; if (u < 2) { P = genStrict(r, sh); cls = "strict"; } else if (u == 2) { P = genPlanted(r, sh); cls = "planted"; } else { P = genReal(r, (int)r.i(0, NREAL - 1), 0); cls = "application"; } cls += P.nex ? "/exp" : P.q.size() ? "/soc" : "/lp"; string D = P.describe(); c.sample(D); c.seen(P.sig()); UData Ud(P); pwork* w = setupProb(P, Ud); if (!w) return; if (r.p(0.3)) w->stgs->nitref = r.i(0, 12); dvec ps, pz; ld pmu = 0; long pit = -1;
  g_iter_hook = [&](pwork* w) {
    kkt* K = w->KKT; cone* C = w->C; idxint n = w->n, p = w->p, m = w->m, nK = K->PKPt->n; long k = w->info->iter; bool init = k == 0, use = init ? !C->nexc : pit == k - 1;
    if (use && r.p(0.3)) { // squared scaling by the library's own product, judged against references in C22 and C23
      idxint mt = m + 2 * C->nsoc; bool good = true; ld wmax = 1, wmin = 1; if (!init) { for (idxint i = 0; i < C->lpc->p; i++) { ld v = (ld)ps[i] / pz[i]; wmax = std::max(wmax, v); wmin = std::min(wmin, v); } for (idxint l = 0; l < C->nsoc; l++) { ld a = C->soc[l].a + sqrt(C->soc[l].w); a *= a; wmax = std::max(wmax, a * C->soc[l].eta_square); wmin = std::min(wmin, C->soc[l].eta_square / a); } for (idxint e = 0; e < C->nexc; e++) { double t = C->expc[e].v[0] + C->expc[e].v[2] + C->expc[e].v[5], d; const double* v = C->expc[e].v; d = v[0] * (v[2] * v[5] - v[4] * v[4]) - v[1] * (v[1] * v[5] - v[4] * v[3]) + v[3] * (v[1] * v[4] - v[2] * v[3]); wmax = std::max(wmax, (ld)t); wmin = std::min(wmin, (ld)(d / (t * t))); } } ld cw = wmin > 0 ? wmax / wmin : INFINITY; int b = cw < 1e4 ? 0 : cw < 1e8 ? 1 : 2; if (b == 2) good = false;
      if (good) { dvec bx = randVec(r, n, false), by = randVec(r, p, false), bz = randVec(r, m, false); if (r.p(0.2)) for (auto& v : bx) v = 0; if (r.p(0.2)) for (auto& v : bz) v = 0; double sc = pow(10, r.u(-3, 3)); for (auto& v : bz) v *= sc; Buf<double> rhs(dvec(nK, 0)), dx(dvec(n, NAN)), dy(dvec(p, NAN)), dz(dvec(m, NAN)); idxint q = 0, z = 0; for (double v : bx) rhs[K->Pinv[q++]] = v; for (double v : by) rhs[K->Pinv[q++]] = v; for (idxint i = 0; i < C->lpc->p; i++) rhs[K->Pinv[q++]] = bz[z++]; for (idxint l = 0; l < C->nsoc; l++) { for (idxint i = 0; i < C->soc[l].p; i++) rhs[K->Pinv[q++]] = bz[z++]; q += 2; } while (z < m) rhs[K->Pinv[q++]] = bz[z++]; dvec r0 = rhs.v();
        idxint it = kkt_solve(K, w->A, w->G, rhs, dx, dy, dz, n, p, m, C, init, w->stgs->nitref); c.stat(fmt("systems/%s/%d", cls.c_str(), b)); if (init) c.stat("initial systems"); if (!rhs.same(r0)) c.viol("kkt/input", "%s: the solve changes its right-hand side", D.c_str()); if (it < 0 || it > w->stgs->nitref) c.viol("kkt/refinements", "%s: %ld refinements, limit %ld", D.c_str(), (long)it, (long)w->stgs->nitref);
        dvec vx = dx.v(), vy = dy.v(), vz = dz.v(), X(mt, 0), Y(mt, 0); lvec V(m); if (init) for (idxint i = 0; i < m; i++) V[i] = vz[i]; else { // W^2 dz: the two extra unknowns of every cone are eliminated
          idxint o = 0, s = 0; for (idxint i = 0; i < C->lpc->p; i++) X[s++] = vz[o++]; for (idxint l = 0; l < C->nsoc; l++) { for (idxint i = 0; i < C->soc[l].p; i++) X[s++] = vz[o++]; s += 2; } while (o < m) X[s++] = vz[o++]; scale2add(X.data(), Y.data(), C); s = C->lpc->p; for (idxint l = 0; l < C->nsoc; l++) { s += C->soc[l].p; double e2 = C->soc[l].eta_square; X[s] = -Y[s] / e2; X[s + 1] = Y[s + 1] / e2; s += 2; } Y.assign(mt, 0); scale2add(X.data(), Y.data(), C); o = s = 0; for (idxint i = 0; i < C->lpc->p; i++) V[o++] = Y[s++]; for (idxint l = 0; l < C->nsoc; l++) { for (idxint i = 0; i < C->soc[l].p; i++) V[o++] = Y[s++]; s += 2; } while (o < m) V[o++] = Y[s++]; }
        lvec e1(bx.begin(), bx.end()), e2(by.begin(), by.end()), e3(m); mult(w->A, vy, e1); mult(w->G, vz, e1); mulv(w->A, vx, e2); for (idxint i = 0; i < m; i++) e3[i] = bz[i] + V[i]; mulv(w->G, vx, e3); const ld dl = DELTASTAT; ld e0 = 0, eR = 0, eQ = 0, bn = 1; auto up = [](ld& m, ld v) { if (!(fabsl(v) <= m)) m = fabsl(v); }; for (double v : r0) bn = std::max(bn, fabsl((ld)v)); vector<char> last(m, 0); { idxint o = C->lpc->p; for (idxint l = 0; l < C->nsoc; l++) { o += C->soc[l].p; last[o - 1] = 1; } }
        for (idxint i = 0; i < n; i++) { up(e0, e1[i]); up(eR, e1[i] - dl * vx[i]); up(eQ, e1[i] - dl * vx[i]); } for (idxint i = 0; i < p; i++) { up(e0, e2[i]); up(eR, e2[i] + dl * vy[i]); up(eQ, e2[i] + dl * vy[i]); } for (idxint i = 0; i < m; i++) { up(e0, e3[i]); up(eR, e3[i] + dl * vz[i]); up(eQ, e3[i] + (last[i] ? -dl : dl) * vz[i]); } ld res = std::min(e0, std::min(eR, eQ)) / bn; if (w->stgs->nitref < 3) { c.stat("systems without refinement"); return; }
        string bn_ = fmt("%s/%d", cls.c_str(), b); c.maxi("residual/" + bn_, (double)res); if (!(res <= 1e-10L)) c.stat("residual beyond 1e-10/" + bn_); if (!(res <= 1e-8L)) c.stat("residual beyond 1e-8/" + bn_); if (!(res <= (b ? 1e-2L : 1e-7L)) && !(b && P.fam == "planted")) c.viol("kkt/residual", "%s: iteration %ld: the residual is %Lg (condition of the scaling %Lg, %ld refinements)", D.c_str(), k, res, cw, (long)it); } }
    ps.assign(w->s, w->s + m); pz.assign(w->z, w->z + m); pmu = w->info->mu; pit = k; (void)pmu; };
  ECOS_solve(w); g_iter_hook = nullptr; ECOS_cleanup(w, 0); c.stat("solves");
}
static Reg r3("C20kkt", kktSystems);
