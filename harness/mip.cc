// Mixed-integer problems, exhaustive enumeration, and the point checker.
#include "common.h"
namespace {
typedef vector<std::pair<long, double>> Row;
struct B {
  long n; vector<Row> lp, soc, ex, eq; dvec hl, hs, he, be, c; ivec q;
  explicit B(long n_) : n(n_), c(n_, 0) {}
  void le(Row r, double b) { lp.push_back(r); hl.push_back(b); }
  void ge(Row r, double b) { for (auto& e : r) e.second = -e.second; le(r, -b); }
  void eqq(Row r, double b) { eq.push_back(r); be.push_back(b); }
  void soc_(const vector<Row>& rows, const dvec& k) { for (size_t i = 0; i < rows.size(); i++) { Row t = rows[i]; for (auto& e : t) e.second = -e.second; soc.push_back(t); hs.push_back(k[i]); } q.push_back((idxint)rows.size()); }
  void exp_(const vector<Row>& rows, const dvec& k) { for (int i = 0; i < 3; i++) { Row t = rows[i]; for (auto& e : t) e.second = -e.second; ex.push_back(t); he.push_back(k[i]); } }
  Prob done(const string& f) {
    Prob P; P.fam = f; P.n = n; P.l = (idxint)lp.size(); P.q = q; P.nex = (idxint)ex.size() / 3; P.m = (idxint)(lp.size() + soc.size() + ex.size()); P.p = (idxint)eq.size();
    vector<Trip> g, a; idxint k = 0; for (auto* b : {&lp, &soc, &ex}) for (auto& r : *b) { for (auto& e : r) if (e.second != 0) g.push_back({k, (idxint)e.first, e.second}); k++; }
    for (size_t i = 0; i < eq.size(); i++) for (auto& e : eq[i]) if (e.second != 0) a.push_back({(idxint)i, (idxint)e.first, e.second});
    P.G = fromTrip(P.m, n, g); P.A = fromTrip(P.p, n, a); P.c = c; P.b = be; P.h = hl; P.h.insert(P.h.end(), hs.begin(), hs.end()); P.h.insert(P.h.end(), he.begin(), he.end()); P.passA = P.p > 0; return P;
  }
};
}
MIP permuteMip(Rng& r, const MIP& M, vector<long>* perm) {
  MIP N = M; auto pm = r.perm(M.P.n); // variable j -> pm[j]
  auto mv = [&](const Mat& A) { auto t = toTrip(A); for (auto& e : t) e.c = pm[e.c]; return fromTrip(A.m, A.n, t); };
  N.P.G = mv(M.P.G); N.P.A = mv(M.P.A); for (idxint j = 0; j < M.P.n; j++) N.P.c[pm[j]] = M.P.c[j];
  auto pb = r.perm((long)M.bidx.size()), pi = r.perm((long)M.iidx.size());
  for (size_t k = 0; k < M.bidx.size(); k++) { N.bidx[k] = pm[M.bidx[pb[k]]]; N.lo[k] = M.lo[pb[k]]; N.hi[k] = M.hi[pb[k]]; }
  size_t nb = M.bidx.size(); for (size_t k = 0; k < M.iidx.size(); k++) { N.iidx[k] = pm[M.iidx[pi[k]]]; N.lo[nb + k] = M.lo[nb + pi[k]]; N.hi[nb + k] = M.hi[nb + pi[k]]; }
  if (perm) *perm = pm; return N;
}
// marks variables 0..nb-1 boolean, nb..nb+ni-1 integer in [lo,hi] (adds the box rows for the integers)
static MIP finish(B& m, long nb, long ni, const dvec& lo, const dvec& hi, const string& fam) {
  MIP M; for (long i = 0; i < nb; i++) { M.bidx.push_back(i); M.lo.push_back(0); M.hi.push_back(1); }
  for (long i = 0; i < ni; i++) { M.iidx.push_back(nb + i); M.lo.push_back(lo[i]); M.hi.push_back(hi[i]); m.le({{nb + i, 1}}, hi[i]); m.ge({{nb + i, 1}}, lo[i]); }
  M.P = m.done(fam); M.fam = fam; return M;
}
MIP genMip(Rng& r, int which, int size) {
  long k = 2 + size; dvec lo, hi; auto box = [&](long ni, long w) { for (long i = 0; i < ni; i++) { long a = r.i(-w, 1); lo.push_back(a); hi.push_back(a + r.i(1, w)); } };
  auto mixsplit = [&](long tot, long& nb, long& ni) { int u = (int)r.i(0, 2); nb = u == 0 ? tot : u == 1 ? 0 : r.i(1, tot); ni = tot - nb; };
  long nb, ni; MIP M;
  switch (which) {
  case 0: { long n = k + 2 + size; B m(n); Row w; double t = 0; for (long j = 0; j < n; j++) { double a = r.i(1, 20); t += a; w.push_back({j, a}); m.c[j] = -r.u(1, 20); } m.le(w, floor(t * r.u(0.3, 0.7)) + 0.5); M = finish(m, n, 0, lo, hi, "knapsack"); break; }
  case 1: { mixsplit(k, nb, ni); box(ni, 3); B m(k); for (long i = 0; i < k; i++) { Row a; for (long j = 0; j < k; j++) if (r.p(0.7)) a.push_back({j, (double)r.i(-5, 5)}); m.le(a, r.i(0, 10) + 0.5); } for (auto& v : m.c) v = r.u(-5, 5); M = finish(m, nb, ni, lo, hi, "ilp"); break; }
  case 2: { mixsplit(k, nb, ni); box(ni, 3); B m(k + 1); vector<Row> rows(1, Row{{k, 1}}); dvec kk(1, 0); for (long i = 0; i < k + 1; i++) { Row a; for (long j = 0; j < k; j++) a.push_back({j, r.n()}); rows.push_back(a); kk.push_back(2 * r.n()); } m.soc_(rows, kk); m.c[k] = 1; M = finish(m, nb, ni, lo, hi, "ils"); break; }
  case 3: { long n = k + 3; B m(n); for (long i = 0; i < k; i++) { Row a; for (long j = 0; j < n; j++) if (r.p(0.45) || j == i) a.push_back({j, 1}); m.eqq(a, 1); } for (auto& v : m.c) v = r.u(0.5, 5); M = finish(m, n, 0, lo, hi, "partition"); break; }
  case 4: { mixsplit(k, nb, ni); box(ni, 2); long T = k; B m(2 * k); for (long i = 0; i < T; i++) { Row a; for (long j = 0; j < k; j++) a.push_back({j, 0.6 * r.n()}); m.exp_({a, {{k + i, 1}}, {}}, {0.5 * r.n(), 0, 1}); m.c[k + i] = r.u(0.3, 2); } for (long j = 0; j < k; j++) m.c[j] = 0.3 * r.n(); M = finish(m, nb, ni, lo, hi, "expcost"); break; }
  case 5: { long F = std::min(k, 4L), C = std::min(k, 3L); B m(F + F * C); for (long j = 0; j < F; j++) m.c[j] = r.u(2, 8); // open facilities, continuous flows
    for (long c = 0; c < C; c++) { Row a; for (long f = 0; f < F; f++) { a.push_back({F + f * C + c, 1}); m.c[F + f * C + c] = r.u(0.5, 5); m.ge({{F + f * C + c, 1}}, 0); m.le({{F + f * C + c, 1}, {f, -1}}, 0); } m.eqq(a, 1); }
    M = finish(m, F, 0, lo, hi, "facility"); break; }
  case 6: { mixsplit(k, nb, ni); box(ni, 3); B m(k); Row a; for (long j = 0; j < k; j++) { a.push_back({j, 2.0 * r.i(1, 3)}); m.c[j] = r.u(-3, 3); } double odd = 2 * r.i(0, 3) + 1; if (r.p(0.5)) m.eqq(a, odd); else { m.le(a, odd + 0.5); m.ge(a, odd - 0.5); } M = finish(m, nb, ni, lo, hi, "parity"); break; }  // integer-infeasible
  case 7: { mixsplit(std::min(k, 4L), nb, ni); long I = nb + ni, n = I + r.i(1, 4); box(ni, 2); B m(n); for (long i = 0; i < n + 1; i++) { Row a; for (long j = 0; j < n; j++) if (r.p(0.6)) a.push_back({j, r.n()}); m.le(a, r.u(0.3, 3)); } for (long j = I; j < n; j++) { m.le({{j, 1}}, 2); m.ge({{j, 1}}, -2); } for (auto& v : m.c) v = r.n(); M = finish(m, nb, ni, lo, hi, "milp"); break; }
  case 8: { mixsplit(std::min(k, 4L), nb, ni); long I = nb + ni, nc = r.i(1, 3), n = I + nc + 2; box(ni, 2); B m(n); // mixed SOC + exp + LP
    vector<Row> rows(1, Row{{n - 1, 1}}); dvec kk(1, 0); for (long i = 0; i < I + nc; i++) { Row a; for (long j = 0; j < I + nc; j++) if (r.p(0.8)) a.push_back({j, r.n()}); rows.push_back(a); kk.push_back(r.n()); } m.soc_(rows, kk); m.c[n - 1] = 1;
    Row a; for (long j = 0; j < I + nc; j++) a.push_back({j, 0.4 * r.n()}); m.exp_({a, {{n - 2, 1}}, {}}, {0, 0, 1}); m.c[n - 2] = r.u(0.2, 1);
    for (long j = I; j < I + nc; j++) { m.le({{j, 1}}, 3); m.ge({{j, 1}}, -3); } M = finish(m, nb, ni, lo, hi, "misocp"); break; }
  case 9: { mixsplit(k, nb, ni); box(ni, 2); B m(k); Row a; for (long j = 0; j < k; j++) { a.push_back({j, 1}); m.c[j] = r.u(-2, 2); } double f = r.i(0, 1) + r.u(0.3, 0.4); m.le(a, f + 0.3); m.ge(a, f); M = finish(m, nb, ni, lo, hi, "gap-infeasible"); break; }  // LP feasible, no integer sum in [f, f+.3]
  case 10: { mixsplit(std::min(k, 3L), nb, ni); box(ni, 2); long I = nb + ni; B m(I + 1); m.ge({{I, 1}}, 0); m.c[I] = -1; for (long j = 0; j < I; j++) m.c[j] = r.n(); if (r.p(0.5)) m.le({{0, 1}, {I, -1}}, 3); M = finish(m, nb, ni, lo, hi, "unbounded"); M.expect = 2; break; }
  case 11: { // equalities linking integers and continuous: cost is a piecewise function of the integers
    long I = std::min(k, 4L); mixsplit(I, nb, ni); box(ni, 3); B m(2 * I + 1); for (long j = 0; j < I; j++) { double t = r.u(-2, 2); m.ge({{I + j, 1}, {j, -1}}, -t); m.ge({{I + j, 1}, {j, 1}}, t); m.c[I + j] = r.u(0.5, 2); } Row a; for (long j = 0; j < I; j++) a.push_back({j, r.u(0.5, 2)}); a.push_back({2 * I, -1}); m.eqq(a, r.u(-1, 1)); m.c[2 * I] = 0.3 * r.n(); m.le({{2 * I, 1}}, 5); m.ge({{2 * I, 1}}, -5); M = finish(m, nb, ni, lo, hi, "absfit"); break; }
  default: { // infeasible relaxation, or trivial (relaxation integral), or a single variable
    int u = (int)r.i(0, 3); if (u == 0) { B m(2); m.le({{0, 1}, {1, 1}}, -1.5); m.c[0] = 1; M = finish(m, 2, 0, lo, hi, "relax-infeasible"); }
    else if (u == 1) { B m(1); m.c[0] = r.p(0.5) ? 1 : -1; m.le({{0, 1}}, r.u(0.2, 1.5)); M = finish(m, 1, 0, lo, hi, "one-bool"); }
    else if (u == 2) { lo = {-3}; hi = {4}; B m(1); m.c[0] = r.p(0.5) ? 1 : -1; m.le({{0, 1}}, r.u(-2.5, 3)); M = finish(m, 0, 1, lo, hi, "one-int"); }
    else { lo = {-2, 0}; hi = {2, 3}; B m(3); m.c = {r.n(), r.n(), r.n()}; M = finish(m, 1, 2, lo, hi, "box-only"); } break; }
  }
  if (r.p(0.15)) { double s = pow(10, -r.u(1.5, 4)); for (idxint k = 0; k < M.nint(); k++) { double& v = M.P.c[M.var(k)]; v = round(v) + s * r.n(); } } // assignments of nearly equal cost
  return M;
}
double mipEval(const MIP& M, const dvec& v, dvec* xout) {
  const Prob& P = M.P; vector<char> isint(P.n, 0); dvec x(P.n, 0); for (idxint k = 0; k < M.nint(); k++) { isint[M.var(k)] = 1; x[M.var(k)] = v[k]; }
  vector<idxint> cont; for (idxint j = 0; j < P.n; j++) if (!isint[j]) cont.push_back(j);
  dvec h = P.h, b = P.b; double c0 = 0;
  for (idxint j = 0; j < P.n; j++) if (isint[j]) { c0 += P.c[j] * x[j]; for (idxint k = P.G.jc[j]; k < P.G.jc[j + 1]; k++) h[P.G.ir[k]] -= P.G.pr[k] * x[j]; for (idxint k = P.A.jc[j]; k < P.A.jc[j + 1]; k++) b[P.A.ir[k]] -= P.A.pr[k] * x[j]; }
  auto pureFeas = [&](const dvec& s, const dvec& e) -> int { // 1 feasible, 0 infeasible, -1 too close
    double w = 1e9; for (idxint i = 0; i < P.l; i++) w = std::min(w, s[i]); idxint k = P.l;
    for (auto d : P.q) { double nn = 0; for (idxint i = 1; i < d; i++) nn += s[k + i] * s[k + i]; w = std::min(w, s[k] - sqrt(nn)); k += d; }
    if (P.nex) return -1;
    double en = 0; for (double t : e) en = std::max(en, fabs(t));
    if (w < -1e-3 || en > 1e-3) return 0; if (w >= -1e-10 && en < 1e-10) return 1; return -1; };
  if (cont.empty()) { int f = pureFeas(h, b); if (f == 0) return INFINITY; if (f > 0) { if (xout) *xout = x; return c0; } }
  // presolve rows without continuous variables: decides most infeasible assignments exactly
  Prob S; S.fam = "sub"; S.n = (idxint)cont.size(); vector<idxint> pos(P.n, -1); for (size_t i = 0; i < cont.size(); i++) pos[cont[i]] = (idxint)i;
  vector<char> lrow(P.m, 0), arow(P.p, 0); for (idxint j : cont) { for (idxint k = P.G.jc[j]; k < P.G.jc[j + 1]; k++) lrow[P.G.ir[k]] = 1; for (idxint k = P.A.jc[j]; k < P.A.jc[j + 1]; k++) arow[P.A.ir[k]] = 1; }
  vector<idxint> map(P.m, -1), amap(P.p, -1); idxint l = 0;
  for (idxint i = 0; i < P.l; i++) { if (!lrow[i]) { if (h[i] < -1e-3) return INFINITY; if (h[i] < -1e-10) return NAN; } else map[i] = l++; }
  idxint m = l; for (idxint i = P.l; i < P.m; i++) map[i] = m++;
  idxint p = 0; for (idxint i = 0; i < P.p; i++) { if (!arow[i]) { if (fabs(b[i]) > 1e-3) return INFINITY; if (fabs(b[i]) > 1e-10) return NAN; } else amap[i] = p++; }
  if (cont.empty()) return NAN;
  vector<Trip> g, a; for (auto& e : toTrip(P.G)) if (pos[e.c] >= 0) g.push_back({map[e.r], pos[e.c], e.v}); for (auto& e : toTrip(P.A)) if (pos[e.c] >= 0) a.push_back({amap[e.r], pos[e.c], e.v});
  S.m = m; S.p = p; S.l = l; S.q = P.q; S.nex = P.nex; S.G = fromTrip(m, S.n, g); S.A = fromTrip(p, S.n, a); S.passA = p > 0; S.h.resize(m); for (idxint i = 0; i < P.m; i++) if (map[i] >= 0) S.h[map[i]] = h[i]; S.b.resize(p); for (idxint i = 0; i < P.p; i++) if (amap[i] >= 0) S.b[amap[i]] = b[i];
  for (idxint j : cont) S.c.push_back(P.c[j]);
  Res R = solveFresh(S);
  if (R.code == 0) { for (size_t i = 0; i < cont.size(); i++) x[cont[i]] = R.x[i]; if (xout) *xout = x; ld v2 = c0; for (size_t i = 0; i < cont.size(); i++) v2 += (ld)S.c[i] * R.x[i]; return (double)v2; }
  if (R.code == 1) return INFINITY; return NAN;
}
Brute bruteForce(const MIP& M, long cap) {
  Brute r; idxint k = M.nint(); double tot = 1; for (idxint i = 0; i < k; i++) tot *= M.hi[i] - M.lo[i] + 1; if (tot > cap) { r.sure = false; return r; }
  dvec v = M.lo; while (true) { r.n++; dvec x; double f = mipEval(M, v, &x); if (std::isnan(f)) r.sure = false; else if (f < r.best) { r.best = f; r.arg = x; } if (!std::isnan(f) && !std::isinf(f)) r.nfeas++;
    idxint i = 0; for (; i < k; i++) { if (v[i] + 1 <= M.hi[i]) { v[i] += 1; break; } v[i] = M.lo[i]; } if (i == k) break; }
  return r;
}
BBData::BBData(const MIP& M, const BBOpt& o) : U(M.P) {
  bi = (idxint*)malloc(sizeof(idxint) * (M.bidx.size() + 1)); ii = (idxint*)malloc(sizeof(idxint) * (M.iidx.size() + 1));
  for (size_t i = 0; i < M.bidx.size(); i++) bi[i] = M.bidx[i]; for (size_t i = 0; i < M.iidx.size(); i++) ii[i] = M.iidx[i];
  vf_unpoison(bi, sizeof(idxint) * M.bidx.size()); vf_unpoison(ii, sizeof(idxint) * M.iidx.size());
  memset(&st, 0, sizeof st); st.maxit = o.maxit; st.verbose = 0; st.abs_tol_gap = o.abs_tol; st.rel_tol_gap = o.rel_tol; st.integer_tol = o.int_tol; st.branching_strategy = (enum BRANCHING_STRATEGY)o.strat; st.reliable_eta = o.eta; st.node_selection_method = (enum NODE_SELECTION_METHOD)o.sel;
  vf_unpoison(&st, sizeof st);
}
BBData::~BBData() { free(bi); free(ii); }
ecos_bb_pwork* setupBB(const MIP& M, BBData& D, const BBOpt& o) {
  const Prob& P = M.P; UData& U = D.U;
  ecos_bb_pwork* w = ECOS_BB_setup(P.n, P.m, P.p, P.l, (idxint)P.q.size(), U.q, P.nex, U.Gpr, U.Gjc, U.Gir, U.Apr, U.Ajc, U.Air, U.c, U.h, U.b, (idxint)M.bidx.size(), M.bidx.empty() ? NULL : D.bi, (idxint)M.iidx.size(), M.iidx.empty() ? NULL : D.ii, o.defaults ? NULL : &D.st);
  if (w && o.defaults) w->stgs->verbose = 0; return w;
}
BBRes grabBB(ecos_bb_pwork* w, idxint code) {
  BBRes R; R.setup = true; R.code = code; pwork* e = w->ecos_prob; R.x.assign(w->x, w->x + e->n); R.y.assign(w->y, w->y + e->p); R.z.assign(w->z, w->z + e->m); R.s.assign(w->s, w->s + e->m); R.info = *w->info; R.ex.assign(e->x, e->x + e->n); R.einfo = *e->info; R.U = w->global_U; R.L = w->global_L; R.iter = w->iter; return R;
}
BBRes runBB(ecos_bb_pwork* w) { vector<idxint> sub; g_subcodes = &sub; idxint c = ECOS_BB_solve(w); g_subcodes = nullptr; BBRes R = grabBB(w, c); R.nsub = (long)sub.size(); for (auto k : sub) if (k != 0 && k != 1 && k != 2) R.ninacc++; return R; }
BBRes solveBB(const MIP& M, const BBOpt& o) { BBData D(M, o); ecos_bb_pwork* w = setupBB(M, D, o); BBRes R; if (!w) return R; R = runBB(w); ECOS_BB_cleanup(w, 0); return R; }
bool inaccurateRelaxation(const MIP& M, const BBRes& R, const BBOpt& o, double best) {
  if (!(R.U > best)) return false; if (R.info.pcost - R.info.dcost >= 0.5 * (R.U - best)) return true; if (!M.P.nex || !R.ninacc) return false;
  double gap = R.U - R.L; return gap > o.abs_tol && !(fabs(R.U / R.L - 1) <= o.rel_tol) && R.L <= best; }
thread_local vector<idxint>* g_subcodes = nullptr; // verdicts of the relaxations; optimal ones whose primal and dual costs differ count as inaccurate
#ifndef VF_MSAN
extern "C" idxint __real_ECOS_solve(pwork*);
extern "C" idxint __wrap_ECOS_solve(pwork* w) { idxint c = __real_ECOS_solve(w); if (g_subcodes) g_subcodes->push_back(c == 0 && fabs(w->info->pcost - w->info->dcost) > 1e-5 * (1 + fabs(w->info->pcost)) ? 10 : c); return c; }
#endif
string checkBBPoint(const MIP& M, const BBRes& R, const BBOpt& o, string* key, double tolf) {
  const Prob& P = M.P; auto bad = [&](const char* k, const string& m) { if (key) *key = k; return m; };
  for (double v : R.x) if (!std::isfinite(v)) return bad("point-nan", "x is not finite");
  for (idxint k = 0; k < M.nint(); k++) { double v = R.x[M.var(k)]; if (fabs(v - floor(v + 0.5)) > o.int_tol * 1.001 + 1e-9) return bad("not-integral", fmt("integer variable %ld (position %ld) is %.12g", (long)M.var(k), (long)k, v));
    if (k < (idxint)M.bidx.size() && (v < -o.int_tol * 1.001 - 1e-9 || v > 1 + o.int_tol * 1.001 + 1e-9)) return bad("not-boolean", fmt("boolean variable %ld is %.12g", (long)M.var(k), v)); }
  vector<ld> g(P.m, 0), a(P.p, 0); ld cx = 0, nx = 0; for (idxint j = 0; j < P.n; j++) { cx += (ld)P.c[j] * R.x[j]; nx += (ld)R.x[j] * R.x[j]; for (idxint k = P.G.jc[j]; k < P.G.jc[j + 1]; k++) g[P.G.ir[k]] += (ld)P.G.pr[k] * R.x[j]; for (idxint k = P.A.jc[j]; k < P.A.jc[j + 1]; k++) a[P.A.ir[k]] += (ld)P.A.pr[k] * R.x[j]; }
  nx = sqrtl(nx); dvec s(P.m); ld hn = 0; for (idxint i = 0; i < P.m; i++) { s[i] = (double)(P.h[i] - g[i]); hn += (ld)P.h[i] * P.h[i]; } ld tol = tolf * 1e-5L * (1 + nx + sqrtl(hn));   // OPTIMAL nodes satisfy 1e-8 relative, 'inaccurate' ones 1e-4
  ld eq = 0; for (idxint i = 0; i < P.p; i++) eq = std::max(eq, fabsl(a[i] - P.b[i])); if (eq > tol) return bad("infeasible-eq", fmt("equality residual %.3Lg", eq));
  ld w = 1e9; for (idxint i = 0; i < P.l; i++) w = std::min(w, (ld)s[i]); idxint k = P.l; for (auto d : P.q) { ld nn = 0; for (idxint i = 1; i < d; i++) nn += (ld)s[k + i] * s[k + i]; w = std::min(w, (ld)s[k] - sqrtl(nn)); k += d; }
  for (idxint e = 0; e < P.nex; e++, k += 3) { ld zz = s[k + 2], yy = s[k + 1]; ld v = zz > 0 ? yy - zz * expl((ld)s[k] / zz) : std::min(zz, yy); w = std::min(w, v); }
  if (w < -tol) return bad("infeasible-cone", fmt("worst cone violation %.3Lg (tolerance %.3Lg)", -w, tol));
  if (fabsl((ld)R.info.pcost - cx) > 1e-9L * (1 + nx * 10 + fabsl(cx))) return bad("cost", fmt("reported cost %.12g, cost of x %.12Lg", R.info.pcost, cx));
  return "";
}
