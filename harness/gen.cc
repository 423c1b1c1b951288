// Problem generators.
#include "common.h"
Mat fromTrip(idxint m, idxint n, vector<Trip> t) {
  std::sort(t.begin(), t.end(), [](const Trip& a, const Trip& b) { return a.c != b.c ? a.c < b.c : a.r < b.r; });
  Mat M(m, n); vector<Trip> u;
  for (auto& e : t) { if (!u.empty() && u.back().c == e.c && u.back().r == e.r) u.back().v += e.v; else u.push_back(e); }
  for (auto& e : u) { M.jc[e.c + 1]++; M.ir.push_back(e.r); M.pr.push_back(e.v); }
  for (idxint j = 0; j < n; j++) M.jc[j + 1] += M.jc[j];
  return M;
}
vector<Trip> toTrip(const Mat& a) { vector<Trip> t; for (idxint j = 0; j < a.n; j++) for (idxint k = a.jc[j]; k < a.jc[j + 1]; k++) t.push_back({a.ir[k], j, a.pr[k]}); return t; }
vector<dvec> dense(const Mat& a) { vector<dvec> d(a.m, dvec(a.n, 0)); for (auto& e : toTrip(a)) d[e.r][e.c] += e.v; return d; }
Mat fromDense(const vector<dvec>& d, idxint m, idxint n) { vector<Trip> t; for (idxint i = 0; i < m; i++) for (idxint j = 0; j < n; j++) if (d[i][j] != 0) t.push_back({i, j, d[i][j]}); return fromTrip(m, n, t); }
double matMaxAbs(const Mat& a) { double r = 0; for (double v : a.pr) r = std::max(r, fabs(v)); return r; }
uint64_t Prob::sig() const {
  int64_t dims[5] = {n, m, p, l, nex}; uint64_t h = hash64(dims, sizeof dims);
  for (auto v : q) h = hmix(h, (uint64_t)v);
  for (const Mat* M : {&G, &A}) { for (auto v : M->ir) h = hmix(h, (uint64_t)v); h = hash64(M->pr.data(), M->pr.size() * 8, h); }
  h = hash64(c.data(), c.size() * 8, h); h = hash64(this->h.data(), this->h.size() * 8, h); return hash64(b.data(), b.size() * 8, h);
}
string Prob::mix() const { string s; if (p) s += "A"; if (l) s += "L"; if (q.size()) s += "Q"; if (nex) s += "E"; return s.empty() ? "0" : s; }
string Prob::describe() const {
  string s = fmt("fam=%s n=%ld m=%ld p=%ld l=%ld nex=%ld q=[", fam.c_str(), (long)n, (long)m, (long)p, (long)l, (long)nex);
  for (size_t i = 0; i < q.size() && i < 12; i++) s += fmt("%ld ", (long)q[i]);
  return s + fmt("] nnzG=%ld nnzA=%ld expect=%d", (long)G.nnz(), (long)A.nnz(), expect);
}
static string jv(const dvec& v) { string s = "["; for (size_t i = 0; i < v.size(); i++) s += fmt("%s%.17g", i ? "," : "", v[i]); return s + "]"; }
static string ji(const ivec& v) { string s = "["; for (size_t i = 0; i < v.size(); i++) s += fmt("%s%ld", i ? "," : "", (long)v[i]); return s + "]"; }
string probJson(const Prob& P) {
  return fmt("{\"fam\":\"%s\",\"n\":%ld,\"m\":%ld,\"p\":%ld,\"l\":%ld,\"nex\":%ld,", P.fam.c_str(), (long)P.n, (long)P.m, (long)P.p, (long)P.l, (long)P.nex) + "\"q\":" + ji(P.q) +
    ",\"Gpr\":" + jv(P.G.pr) + ",\"Gjc\":" + ji(P.G.jc) + ",\"Gir\":" + ji(P.G.ir) + ",\"Apr\":" + jv(P.A.pr) + ",\"Ajc\":" + ji(P.A.jc) + ",\"Air\":" + ji(P.A.ir) + ",\"c\":" + jv(P.c) + ",\"h\":" + jv(P.h) + ",\"b\":" + jv(P.b) + "}";
}
// ---------------------------------------------------------------- cone points
void randomCones(Rng& r, Prob& P, const Shape& sh) {
  long budget = r.i(1, sh.mmax); P.l = 0; P.q.clear(); P.nex = 0;
  vector<int> kinds; if (sh.lp) kinds.push_back(0); if (sh.soc) kinds.push_back(1); if (sh.ex) kinds.push_back(2);
  // pick a subset of kinds so that pure problems are frequent
  vector<int> use; for (int k : kinds) if (r.p(0.6)) use.push_back(k);
  if (use.empty()) use.push_back(r.pick(kinds));
  while (budget > 0) {
    int k = r.pick(use);
    if (k == 0) { long t = r.i(1, std::min(budget, 8L)); P.l += t; budget -= t; }
    else if (k == 1) { long lo = sh.soc1 ? (r.p(0.15) ? 1 : 2) : 2; long t = std::max(lo, r.i(lo, std::max(lo, std::min(budget, r.p(0.1) ? 20L : 6L)))); P.q.push_back(t); budget -= t; }
    else { P.nex++; budget -= 3; }
  }
  if (r.p(sh.large)) switch (kinds[r.i(0, kinds.size() - 1)]) { // beyond the usual sizes: many rows, many cones, large cones
    case 0: P.l += r.i(30, 200); break;
    case 1: if (r.p(0.5)) P.q.insert(P.q.begin() + r.i(0, P.q.size()), r.p(0.5) ? r.i(21, 60) : r.i(61, 200)); else for (long k = r.i(15, 70); k > 0; k--) P.q.push_back(r.i(sh.soc1 ? 1 : 2, 5)); break;
    default: P.nex += r.i(10, 50); }
  P.m = P.l + 3 * P.nex; for (auto v : P.q) P.m += v;
}
// strictly interior points, margin m (relative)
static void intLP(Rng& r, double* s) { *s = exp(r.u(-1.5, 1.5)); }
static void intSOC(Rng& r, double* s, long d) { double nn = 0; for (long i = 1; i < d; i++) { s[i] = r.n(); nn += s[i] * s[i]; } s[0] = sqrt(nn) * r.u(1.0, 1.3) + exp(r.u(-1.5, 1.0)); }
static void intExpP(Rng& r, double* s) { s[2] = exp(r.u(-1, 1)); double t = r.u(-1.5, 1.5); s[0] = s[2] * t; s[1] = s[2] * exp(t) * r.u(1.05, 1.5) + r.u(0.1, 1.0); }
static void intExpD(Rng& r, double* z) { z[0] = -exp(r.u(-1, 1)); double t = r.u(-1.5, 1.5); z[2] = z[0] * t; z[1] = -z[0] * exp(t - 1) * r.u(1.05, 1.5) + r.u(0.1, 1.0); }
dvec intPoint(Rng& r, const Prob& P, bool dual) {
  dvec s(P.m); idxint k = 0;
  for (; k < P.l; k++) intLP(r, &s[k]);
  for (auto d : P.q) { intSOC(r, &s[k], d); k += d; }
  for (idxint e = 0; e < P.nex; e++, k += 3) dual ? intExpD(r, &s[k]) : intExpP(r, &s[k]);
  return s;
}
static void mulG(const Mat& M, const dvec& x, dvec& y) { for (idxint j = 0; j < M.n; j++) for (idxint k = M.jc[j]; k < M.jc[j + 1]; k++) y[M.ir[k]] += M.pr[k] * x[j]; }
static void mulT(const Mat& M, const dvec& y, dvec& x, double a) { for (idxint j = 0; j < M.n; j++) for (idxint k = M.jc[j]; k < M.jc[j + 1]; k++) x[j] += a * M.pr[k] * y[M.ir[k]]; }
static double val(Rng& r) { double v = r.n(); if (fabs(v) < 0.05) v = v < 0 ? v - 0.1 : v + 0.1; return v; }
// random G, A of generic full rank
static void randomMats(Rng& r, Prob& P, double density) {
  idxint n = P.n, m = P.m, p = P.p; if (density < 0) density = r.p(0.3) ? 1.0 : r.u(0.1, 0.6);
  vector<Trip> g, a; auto pc = r.perm(n), pr = r.perm(m);
  // A: row i has its own column; remaining columns have their own row of G
  for (idxint i = 0; i < p; i++) a.push_back({i, pc[i], (r.p(0.5) ? 1 : -1) * r.u(0.8, 2)});
  for (idxint j = p; j < n && j - p < m; j++) g.push_back({pr[j - p], pc[j], (r.p(0.5) ? 1 : -1) * r.u(0.8, 2)});
  std::set<std::pair<idxint, idxint>> have; for (auto& e : g) have.insert({e.r, e.c});
  for (idxint i = 0; i < m; i++) for (idxint j = 0; j < n; j++) if (r.p(density) && !have.count({i, j})) g.push_back({i, j, val(r)});
  have.clear(); for (auto& e : a) have.insert({e.r, e.c});
  for (idxint i = 0; i < p; i++) for (idxint j = 0; j < n; j++) if (r.p(density) && !have.count({i, j})) a.push_back({i, j, val(r)});
  P.G = fromTrip(m, n, g); P.A = fromTrip(p, n, a); P.passA = p > 0 || r.p(0.15);
}
static void dims(Rng& r, Prob& P, const Shape& sh) {
  randomCones(r, P, sh);
  P.p = r.p(0.5) ? 0 : r.i(1, std::max(1L, sh.nmax / 3));
  long hi = std::min(P.m > sh.mmax + 8 && r.p(0.3) ? 5 * sh.nmax : sh.nmax, (long)(P.m + P.p)); P.n = r.i(std::max(1L, (long)P.p), std::max((long)P.p, hi));
  if (P.n < 1) P.n = 1;
}
Prob genStrict(Rng& r, const Shape& sh) {
  Prob P; P.fam = "strict"; dims(r, P, sh); randomMats(r, P, sh.density);
  dvec s0 = intPoint(r, P, false), z0 = intPoint(r, P, true), x0(P.n), y0(P.p);
  for (auto& v : x0) v = r.n(); for (auto& v : y0) v = r.n();
  P.h = s0; mulG(P.G, x0, P.h); P.b.assign(P.p, 0); mulG(P.A, x0, P.b);
  P.c.assign(P.n, 0); mulT(P.G, z0, P.c, -1); mulT(P.A, y0, P.c, -1);
  P.expect = 0; P.primalfeas = P.dualfeas = true; return P;
}
Prob genPlanted(Rng& r, const Shape& sh) {
  Prob P; P.fam = "planted"; dims(r, P, sh); randomMats(r, P, sh.density);
  dvec s(P.m, 0), z(P.m, 0), x0(P.n), y0(P.p); for (auto& v : x0) v = r.n(); for (auto& v : y0) v = r.n();
  idxint k = 0; double sc = exp(r.u(-1, 1));
  for (; k < P.l; k++) { if (r.p(0.5)) intLP(r, &s[k]); else intLP(r, &z[k]); }
  for (auto d : P.q) {
    int w = (int)r.i(0, 2); if (d == 1 && w == 2) w = (int)r.i(0, 1);
    if (w == 0) intSOC(r, &s[k], d); else if (w == 1) intSOC(r, &z[k], d);
    else { double nn = 0; for (long i = 1; i < d; i++) { s[k + i] = r.n(); nn += s[k + i] * s[k + i]; } nn = sqrt(nn); s[k] = nn; double la = exp(r.u(-1, 1)); z[k] = la * nn; for (long i = 1; i < d; i++) z[k + i] = -la * s[k + i]; }
    k += d;
  }
  for (idxint e = 0; e < P.nex; e++, k += 3) {
    int w = (int)r.i(0, 3);
    if (w == 0) intExpP(r, &s[k]); else if (w == 1) intExpD(r, &z[k]);
    else { double zz = exp(r.u(-1, 1)), t = r.u(-1.5, 1.5), la = exp(r.u(-1, 1)); s[k] = zz * t; s[k + 1] = zz * exp(t); s[k + 2] = zz; z[k] = -la * exp(t); z[k + 1] = la; z[k + 2] = -la * exp(t) * (1 - t); }
  }
  for (auto& v : z) v *= sc;
  P.h = s; mulG(P.G, x0, P.h); P.b.assign(P.p, 0); mulG(P.A, x0, P.b);
  P.c.assign(P.n, 0); mulT(P.G, z, P.c, -1); mulT(P.A, y0, P.c, -1);
  P.haveopt = true; ld o = 0; for (idxint j = 0; j < P.n; j++) o += (ld)P.c[j] * x0[j]; P.opt = (double)o;
  P.primalfeas = P.dualfeas = true; return P;  // strict feasibility not guaranteed
}
Prob genInfeasible(Rng& r, const Shape& sh) {
  Prob P; P.fam = "pinf"; dims(r, P, sh); randomMats(r, P, sh.density);
  dvec z = intPoint(r, P, true), y(P.p); for (auto& v : y) v = r.n();
  if (P.nex || P.q.size() || P.l) {
    // one designated row per column absorbs the column sum
    auto t = toTrip(P.G); vector<ld> sum(P.n, 0); for (auto& e : t) sum[e.c] += (ld)e.v * z[e.r]; for (auto& e : toTrip(P.A)) sum[e.c] += (ld)e.v * y[e.r];
    vector<idxint> good; for (idxint i = 0; i < P.m; i++) if (fabs(z[i]) > 0.3) good.push_back(i);
    if (good.empty()) for (idxint i = 0; i < P.m; i++) if (fabs(z[i]) > 0.05) good.push_back(i);
    if (good.empty()) good.push_back(0);
    for (idxint j = 0; j < P.n; j++) { idxint rr = r.pick(good); t.push_back({rr, j, (double)(-sum[j] / z[rr])}); }
    P.G = fromTrip(P.m, P.n, t);
  }
  P.h.assign(P.m, 0); for (auto& v : P.h) v = r.n(); P.b.assign(P.p, 0); for (auto& v : P.b) v = r.n();
  ld zz = 0, hz = 0; for (idxint i = 0; i < P.m; i++) { zz += (ld)z[i] * z[i]; hz += (ld)P.h[i] * z[i]; } for (idxint i = 0; i < P.p; i++) hz += (ld)P.b[i] * y[i];
  double d = r.u(0.5, 2) * sqrt((double)zz); for (idxint i = 0; i < P.m; i++) P.h[i] -= (double)(z[i] * (hz + d) / zz);
  dvec z1 = intPoint(r, P, true), y1(P.p); for (auto& v : y1) v = r.n();
  P.c.assign(P.n, 0); mulT(P.G, z1, P.c, -1); mulT(P.A, y1, P.c, -1);
  P.expect = 1; P.dualfeas = true; return P;
}
Prob genUnbounded(Rng& r, const Shape& sh) {
  Prob P; P.fam = "dinf"; dims(r, P, sh); randomMats(r, P, sh.density);
  dvec s = intPoint(r, P, false), x(P.n); for (auto& v : x) { v = r.n(); if (fabs(v) < 0.4) v = v < 0 ? v - 0.5 : v + 0.5; }
  auto g = toTrip(P.G), a = toTrip(P.A); vector<ld> gx(P.m, 0), ax(P.p, 0);
  for (auto& e : g) gx[e.r] += (ld)e.v * x[e.c]; for (auto& e : a) ax[e.r] += (ld)e.v * x[e.c];
  for (idxint i = 0; i < P.m; i++) { idxint j = r.i(0, P.n - 1); g.push_back({i, j, (double)(-(gx[i] + s[i]) / x[j])}); }
  bool bad = false;
  for (idxint i = 0; i < P.p; i++) { idxint j = r.i(0, P.n - 1); a.push_back({i, j, (double)(-ax[i] / x[j])}); }
  P.G = fromTrip(P.m, P.n, g); P.A = fromTrip(P.p, P.n, a);
  if (P.n <= P.p) bad = true;   // A then has full column rank generically: the ray would force singularity
  if (bad) { P.p = 0; P.A = Mat(0, P.n); P.b.clear(); P.passA = false; }
  dvec s0 = intPoint(r, P, false), x0(P.n); for (auto& v : x0) v = r.n();
  P.h = s0; mulG(P.G, x0, P.h); P.b.assign(P.p, 0); mulG(P.A, x0, P.b);
  P.c.assign(P.n, 0); for (auto& v : P.c) v = r.n();
  ld cx = 0, xx = 0; for (idxint j = 0; j < P.n; j++) { cx += (ld)P.c[j] * x[j]; xx += (ld)x[j] * x[j]; }
  double d = r.u(0.5, 2) * sqrt((double)xx); for (idxint j = 0; j < P.n; j++) P.c[j] -= (double)(x[j] * (cx + d) / xx);
  P.expect = 2; P.primalfeas = true; return P;
}
// ---------------------------------------------------------------- application families
struct B {  // builder: rows appended per cone kind, assembled at the end
  long n = 0; vector<vector<std::pair<long, double>>> lp, soc, ex, eq; dvec hl, hs, he, be, c; ivec q;
  explicit B(long n_) : n(n_), c(n_, 0) {}
  typedef vector<std::pair<long, double>> Row;
  void le(Row r, double rhs) { lp.push_back(r); hl.push_back(rhs); }                      // r x <= rhs
  void ge(Row r, double rhs) { for (auto& e : r) e.second = -e.second; le(r, -rhs); }
  void eqq(Row r, double rhs) { eq.push_back(r); be.push_back(rhs); }
  // affine expressions e_i = const_i + row_i x in the cone  =>  G=-row, h=const
  void inSOC(const vector<Row>& rows, const dvec& k) { for (size_t i = 0; i < rows.size(); i++) { Row t = rows[i]; for (auto& e : t) e.second = -e.second; soc.push_back(t); hs.push_back(k[i]); } q.push_back((idxint)rows.size()); }
  void inEXP(const vector<Row>& rows, const dvec& k) { for (size_t i = 0; i < 3; i++) { Row t = rows[i]; for (auto& e : t) e.second = -e.second; ex.push_back(t); he.push_back(k[i]); } }
  Prob done(const string& fam) {
    Prob P; P.fam = fam; P.n = n; P.l = (idxint)lp.size(); P.q = q; P.nex = (idxint)(ex.size() / 3); P.m = (idxint)(lp.size() + soc.size() + ex.size()); P.p = (idxint)eq.size();
    vector<Trip> g, a; idxint k = 0; for (auto* blk : {&lp, &soc, &ex}) for (auto& r : *blk) { for (auto& e : r) if (e.second != 0) g.push_back({k, (idxint)e.first, e.second}); k++; }
    for (size_t i = 0; i < eq.size(); i++) for (auto& e : eq[i]) if (e.second != 0) a.push_back({(idxint)i, (idxint)e.first, e.second});
    P.G = fromTrip(P.m, n, g); P.A = fromTrip(P.p, n, a); P.c = c; P.b = be; P.h = hl; P.h.insert(P.h.end(), hs.begin(), hs.end()); P.h.insert(P.h.end(), he.begin(), he.end());
    P.passA = P.p > 0; P.expect = 0; return P;
  }
};
const int NREAL = 16;
Prob genReal(Rng& r, int which, int size) {
  long k = 2 + size; typedef B::Row Row;
  switch (which) {
  case 0: { long a = k, b = k + r.i(0, 2); B M(a * b); dvec sup(a), dem(b); double t = 0; for (auto& v : dem) { v = r.u(1, 5); t += v; } for (auto& v : sup) v = t / a * r.u(1.05, 1.5);
    for (long i = 0; i < a; i++) { Row w; for (long j = 0; j < b; j++) w.push_back({i * b + j, 1}); M.le(w, sup[i]); }
    for (long j = 0; j < b; j++) { Row w; for (long i = 0; i < a; i++) w.push_back({i * b + j, 1}); if (r.p(0.5)) M.ge(w, dem[j]); else M.eqq(w, dem[j]); }
    for (long v = 0; v < a * b; v++) { M.ge({{v, 1}}, 0); M.c[v] = r.u(1, 10); } return M.done("transport"); }
  case 1: { long n = k, m = 3 * k; B M(n + 1); for (long i = 0; i < m; i++) { Row w; double nn = 0; for (long j = 0; j < n; j++) { double v = r.n(); w.push_back({j, v}); nn += v * v; } w.push_back({n, sqrt(nn)}); M.le(w, r.u(0.5, 2)); }
    for (long j = 0; j < n; j++) { M.le({{j, 1}}, 10); M.ge({{j, 1}}, -10); } M.c[n] = -1; return M.done("chebyshev"); }
  case 2: { long n = k, m = 2 * k; B M(2 * n + 1); vector<Row> rows(1, Row{{2 * n, 1}}); dvec kk(1, 0); for (long i = 0; i < m; i++) { Row w; for (long j = 0; j < n; j++) w.push_back({j, r.n()}); rows.push_back(w); kk.push_back(r.n()); } M.inSOC(rows, kk);
    for (long j = 0; j < n; j++) { M.le({{j, 1}, {n + j, -1}}, 0); M.le({{j, -1}, {n + j, -1}}, 0); M.c[n + j] = r.u(0.05, 0.5); } M.c[2 * n] = 1; return M.done("lasso"); }
  case 3: { long n = k + 1, f = std::max(1L, k / 2); B M(n + 1); Row one; for (long j = 0; j < n; j++) { one.push_back({j, 1}); M.ge({{j, 1}}, 0); M.c[j] = -r.u(0, 0.2); } M.eqq(one, 1);
    vector<Row> rows(1, Row{{n, 1}}); dvec kk(1, 0); for (long i = 0; i < f; i++) { Row w; for (long j = 0; j < n; j++) w.push_back({j, 0.3 * r.n()}); rows.push_back(w); kk.push_back(0); } for (long j = 0; j < n; j++) { rows.push_back({{j, r.u(0.05, 0.3)}}); kk.push_back(0); } M.inSOC(rows, kk); M.c[n] = r.u(0.2, 2); return M.done("portfolio"); }
  case 4: { long nx = 2, N = k, nu = 1; long per = nx + nu; B M(per * N + 1); double A11 = 1, A12 = 0.5, A21 = -r.u(0, 0.3), A22 = r.u(0.7, 1); double x0[2] = {r.n(), r.n()};
    auto X = [&](long t, long i) { return t * per + i; }; auto U = [&](long t) { return t * per + nx; };
    for (long t = 0; t < N; t++) { if (t == 0) { M.eqq({{X(0, 0), 1}}, x0[0]); M.eqq({{X(0, 1), 1}}, x0[1]); } else { M.eqq({{X(t, 0), -1}, {X(t - 1, 0), A11}, {X(t - 1, 1), A12}}, 0); M.eqq({{X(t, 1), -1}, {X(t - 1, 0), A21}, {X(t - 1, 1), A22}, {U(t - 1), 1}}, 0); } M.le({{U(t), 1}}, 1); M.ge({{U(t), 1}}, -1); }
    vector<Row> rows(1, Row{{per * N, 1}}); dvec kk(1, 0); for (long t = 0; t < N; t++) { rows.push_back({{X(t, 0), 1}}); rows.push_back({{X(t, 1), 1}}); rows.push_back({{U(t), 0.3}}); kk.insert(kk.end(), 3, 0.0); } M.inSOC(rows, kk); M.c[per * N] = 1; return M.done("mpc"); }
  case 5: { long n = k, m = 2 * k; B M(n); for (long i = 0; i < m; i++) { vector<Row> rows(1); dvec kk(1, r.u(1, 3)); for (long j = 0; j < n; j++) rows[0].push_back({j, -r.n()}); for (long j = 0; j < n; j++) { rows.push_back({{j, r.u(0.1, 0.3)}}); kk.push_back(0); } M.inSOC(rows, kk); }
    for (long j = 0; j < n; j++) { M.c[j] = r.n(); M.le({{j, 1}}, 5); M.ge({{j, 1}}, -5); } return M.done("robustlp"); }
  case 6: { long n = k + 1; B M(2 * n); Row one; for (long j = 0; j < n; j++) { one.push_back({j, 1}); M.inEXP({{{n + j, 1}}, {}, {{j, 1}}}, {0, 1, 0}); M.c[n + j] = -1; } M.eqq(one, 1);  // t <= -x log x
    for (long i = 0; i < k / 2; i++) { Row w; for (long j = 0; j < n; j++) w.push_back({j, r.n()}); double s = 0; for (auto& e : w) s += e.second / n; M.le(w, s + r.u(0.05, 0.5)); } return M.done("entropy"); }
  case 7: { long n = std::max(1L, k / 2), m = k + 1; B M(n + m + 2 * m + 1); long T = n, U = n + m; for (long i = 0; i < m; i++) { Row a; for (long j = 0; j < n; j++) a.push_back({j, r.n()}); Row e1 = a; e1.push_back({T + i, -1});  // exp(a x - t)+exp(-t) <= 1
      M.inEXP({e1, {{U + 2 * i, 1}}, {}}, {0, 0, 1}); M.inEXP({{{T + i, -1}}, {{U + 2 * i + 1, 1}}, {}}, {0, 0, 1}); M.le({{U + 2 * i, 1}, {U + 2 * i + 1, 1}}, 1); M.c[T + i] = 1; }
    long R = n + 3 * m; vector<Row> rows(1, Row{{R, 1}}); dvec kk(1, 0); for (long j = 0; j < n; j++) { rows.push_back({{j, 1}}); kk.push_back(0); } M.inSOC(rows, kk); M.c[R] = r.u(0.1, 1); return M.done("logistic"); }
  case 8: { long n = std::max(1L, k / 2), K = k; B M(n + 1 + K); // GP in log form: min t : sum exp(a x + b - t) <= 1, -2<=x<=2
    Row s; for (long i = 0; i < K; i++) { Row a; for (long j = 0; j < n; j++) a.push_back({j, r.n()}); a.push_back({n, -1}); M.inEXP({a, {{n + 1 + i, 1}}, {}}, {r.n(), 0, 1}); s.push_back({n + 1 + i, 1}); } M.le(s, 1);
    for (long j = 0; j < n; j++) { M.le({{j, 1}}, 2); M.ge({{j, 1}}, -2); } M.c[n] = 1; return M.done("gp"); }
  case 9: { long n = k, m = 2 * k + 1; B M(n + m); for (long i = 0; i < m; i++) { Row a, b2; double rhs = r.n(); for (long j = 0; j < n; j++) { double v = r.n(); a.push_back({j, v}); b2.push_back({j, -v}); } a.push_back({n + i, -1}); b2.push_back({n + i, -1}); M.le(a, rhs); M.le(b2, -rhs); M.c[n + i] = 1; } return M.done("l1fit"); }
  case 10: { long d = 2, m = k + 1; B M(d + m); for (long i = 0; i < m; i++) { vector<Row> rows(1, Row{{d + i, 1}}); dvec kk(1, 0); for (long j = 0; j < d; j++) { rows.push_back({{j, 1}}); kk.push_back(r.n()); } M.inSOC(rows, kk); M.c[d + i] = r.u(0.5, 2); } return M.done("facility"); }
  case 11: { long n = k; B M(2 * n); Row one; for (long j = 0; j < n; j++) { one.push_back({j, 1}); double qj = r.u(0.2, 2); M.inEXP({{{n + j, -1}}, {}, {{j, 1}}}, {0, qj, 0}); M.c[n + j] = 1; M.c[j] = 0.3 * r.n(); } M.eqq(one, r.u(0.5, 3)); return M.done("relentropy"); }
  case 12: { long n = 2 * k; B M(n); Row w; double tot = 0; for (long j = 0; j < n; j++) { double a = r.u(1, 9); tot += a; w.push_back({j, a}); M.le({{j, 1}}, 1); M.ge({{j, 1}}, 0); M.c[j] = -r.u(1, 9); } M.le(w, tot / 2); return M.done("knapsack"); }
  case 13: { long n = k; B M(n + 1); // maximise sqrt(x0*x1)-ish subject to a budget: (x0+x1, x0-x1, 2t) in SOC
    M.inSOC({{{0, 1}, {1, 1}}, {{0, 1}, {1, -1}}, {{n, 2}}}, {0, 0, 0}); Row w; for (long j = 0; j < n; j++) { w.push_back({j, r.u(0.5, 2)}); M.ge({{j, 1}}, j < 2 ? 0 : -0.5); if (j >= 2) M.c[j] = 0.1 * r.n(); } M.le(w, r.u(2, 6)); for (long j = 2; j < n; j++) M.le({{j, 1}}, 2); M.c[n] = -1; return M.done("geomean"); }
  case 14: { long n = k; B M(n + 2); // QP: (1+t, 1-t, 2Lx) with equality
    vector<Row> rows = {{{n, 1}}, {{n, -1}}}; dvec kk = {1, 1}; for (long i = 0; i < n; i++) { Row w; for (long j = i; j < n; j++) w.push_back({j, 2 * (j == i ? r.u(0.5, 2) : 0.3 * r.n())}); rows.push_back(w); kk.push_back(0); } M.inSOC(rows, kk);
    Row e; for (long j = 0; j < n; j++) { M.c[j] = r.n(); e.push_back({j, r.n()}); } e.push_back({n + 1, 1}); M.eqq(e, r.n()); M.le({{n + 1, 1}}, 0.5); M.ge({{n + 1, 1}}, -0.5); M.c[n] = 1; return M.done("qp"); }
  default: { long n = k; B M(n + 1); // exp + soc + lp: min e^{a'x} + ||x-x0|| s.t. box
    Row a; for (long j = 0; j < n; j++) a.push_back({j, r.n()}); M.n = n + 2; M.c.assign(n + 2, 0); M.inEXP({a, {{n, 1}}, {}}, {0, 0, 1});
    vector<Row> rows(1, Row{{n + 1, 1}}); dvec kk(1, 0); for (long j = 0; j < n; j++) { rows.push_back({{j, 1}}); kk.push_back(r.n()); M.le({{j, 1}}, 1); M.ge({{j, 1}}, -1); } M.inSOC(rows, kk); M.c[n] = 1; M.c[n + 1] = r.u(0.3, 2); return M.done("mixed"); }
  }
}
// ---------------------------------------------------------------- degenerate, pathological, badly scaled
void rescaleRandom(Rng& r, Prob& P, double dec) {  // equivalent problem, scaled rows, columns and cones
  dvec cs(P.n), rs(P.m), as(P.p); for (auto& v : cs) v = pow(10, r.u(-dec, dec)); for (auto& v : as) v = pow(10, r.u(-dec, dec));
  idxint k = 0; for (; k < P.l; k++) rs[k] = pow(10, r.u(-dec, dec));
  for (auto d : P.q) { double v = pow(10, r.u(-dec, dec)); for (idxint i = 0; i < d; i++) rs[k++] = v; }
  for (idxint e = 0; e < P.nex; e++) { double v = pow(10, r.u(-dec / 2, dec / 2)); for (int i = 0; i < 3; i++) rs[k++] = v; }
  for (idxint j = 0; j < P.n; j++) { for (idxint t = P.G.jc[j]; t < P.G.jc[j + 1]; t++) P.G.pr[t] *= cs[j] * rs[P.G.ir[t]]; for (idxint t = P.A.jc[j]; t < P.A.jc[j + 1]; t++) P.A.pr[t] *= cs[j] * as[P.A.ir[t]]; P.c[j] *= cs[j]; }
  for (idxint i = 0; i < P.m; i++) P.h[i] *= rs[i]; for (idxint i = 0; i < P.p; i++) P.b[i] *= as[i];
  P.wellscaled = false; P.fam += "+scaled";
}
const int NNASTY = 18;
Prob genNasty(Rng& r, int w) {
  Shape sh; sh.nmax = 8; sh.mmax = 20; typedef B::Row Row; Prob P;
  switch (w) {
  case 0: P = genStrict(r, sh); rescaleRandom(r, P, r.u(1, 4)); break;
  case 1: P = genPlanted(r, sh); rescaleRandom(r, P, r.u(1, 3)); break;
  case 2: { P = genStrict(r, sh); if (P.l > 0) { auto t = toTrip(P.G); vector<Trip> u; long dup = r.i(1, 3); // duplicated LP rows
      for (auto& e : t) { u.push_back({e.r < P.l ? e.r : e.r + dup, e.c, e.v}); if (e.r == 0) for (long k = 0; k < dup; k++) u.push_back({P.l + k, e.c, e.v}); } dvec h(P.h.begin(), P.h.begin() + P.l); for (long k = 0; k < dup; k++) h.push_back(P.h[0]); h.insert(h.end(), P.h.begin() + P.l, P.h.end()); P.h = h; P.l += dup; P.m += dup; P.G = fromTrip(P.m, P.n, u); } P.fam = "duprows"; P.expect = -1; break; }
  case 3: { P = genStrict(r, sh); if (P.p > 0) { auto t = toTrip(P.A); vector<Trip> u = t; for (auto& e : t) if (e.r == 0) u.push_back({P.p, e.c, 2 * e.v}); P.b.push_back(2 * P.b[0]); P.p++; P.A = fromTrip(P.p, P.n, u); } P.fam = "redundant-eq"; P.expect = -1; break; }
  case 4: { B M(2); M.inSOC({{{0, 1}, {1, 1}}, {{0, 1}, {1, -1}}, {}}, {0, 0, 2}); M.c[0] = 1; M.ge({{1, 1}}, 0); P = M.done("unattained"); P.expect = -1; break; }   // x*y>=1, inf x = 0 not attained
  case 5: { B M(3); M.inSOC({{{0, 1}}, {{1, 1}}, {{2, 1}}}, {0, 0, 0}); M.eqq({{0, 1}, {1, -1}}, 0); M.c[2] = r.p(0.5) ? 1 : -1; M.c[0] = r.u(-0.1, 1); P = M.done("noslater"); P.expect = -1; break; }
  case 6: { P = genStrict(r, sh); std::fill(P.c.begin(), P.c.end(), 0.0); P.fam = "zero-cost"; P.expect = -1; break; }
  case 7: { P = genStrict(r, sh); std::fill(P.h.begin(), P.h.end(), 0.0); std::fill(P.b.begin(), P.b.end(), 0.0); P.fam = "zero-rhs"; P.expect = -1; break; }
  case 8: { double e = pow(10, r.u(-9, -4)); B M(2); M.le({{0, 1}}, 0); M.ge({{0, 1}}, r.p(0.5) ? e : -e); M.le({{1, 1}}, 1); M.ge({{1, 1}}, -1); M.c[1] = 1; M.c[0] = r.n(); P = M.done("thin"); P.expect = -1; break; }
  case 9: { double e = pow(10, r.u(-9, -4)); B M(2); M.ge({{0, 1}}, 0); M.ge({{1, 1}}, 0); M.le({{0, -1}, {1, 1}}, 1); M.c[0] = r.p(0.5) ? -e : e; M.c[1] = -e * r.u(0, 0.5); P = M.done("near-unbounded"); P.expect = -1; break; }
  case 10: { P = genStrict(r, sh); double f = pow(10, r.u(3, 8)); for (auto& v : P.h) v *= f; for (auto& v : P.b) v *= f; if (P.nex) {} P.fam = "hugerhs"; P.expect = -1; P.wellscaled = false; break; }
  case 11: { P = genStrict(r, sh); double f = pow(10, r.u(3, 8) * (r.p(0.5) ? 1 : -1)); for (auto& v : P.c) v *= f; P.fam = "scaledcost"; P.expect = -1; P.wellscaled = false; break; }
  case 12: { P = genStrict(r, sh); auto t = toTrip(P.G); vector<Trip> u; idxint z = r.i(0, P.n - 1); for (auto& e : t) if (e.c != z) u.push_back(e); P.G = fromTrip(P.m, P.n, u); if (r.p(0.7)) P.c[z] = 0; P.fam = "zerocol"; P.expect = -1; break; }
  case 13: { P = genStrict(r, sh); auto t = toTrip(P.G); vector<Trip> u; idxint z = r.i(0, P.m - 1); for (auto& e : t) if (e.r != z) u.push_back(e); P.G = fromTrip(P.m, P.n, u); P.fam = "zerorow"; P.expect = -1; break; }
  case 14: { P = genInfeasible(r, sh); rescaleRandom(r, P, r.u(0.5, 3)); break; }
  case 15: { P = genUnbounded(r, sh); rescaleRandom(r, P, r.u(0.5, 3)); break; }
  case 16: { B M(3); // both primal and dual infeasible
    M.le({{0, 1}}, -1); M.ge({{0, 1}}, 1); M.ge({{1, 1}}, 0); M.c[1] = -1; M.le({{2, 1}}, 1); M.ge({{2, 1}}, -1); P = M.done("both-infeasible"); P.expect = -1; break; }
  default: { B M(3); // exponential cone boundary behaviour: min x s.t. e^{x/z}*z <= y, with tiny or large y
    double y = pow(10, r.u(-6, 6)); M.inEXP({{{0, 1}}, {{1, 1}}, {{2, 1}}}, {0, 0, 0}); M.le({{1, 1}}, y); M.le({{2, 1}}, r.u(0.1, 5)); M.ge({{0, 1}}, -20); M.c[0] = r.p(0.5) ? -1 : 1; M.c[2] = 0.1 * r.n(); P = M.done("expedge"); P.expect = -1; break; }
  }
  if (P.fam.find("+scaled") != string::npos) P.expect = -1;
  else P.primalfeas = P.dualfeas = false;   // the modification can destroy it
  return P;
}
const int NEDGE = 20;
Prob genEdge(Rng& r, int w) {
  B M(1); Prob P; typedef B::Row Row;
  auto coneOnly = [&](int kind, bool withA) { // single cone, single variable
    B N(1); N.c[0] = 1; if (kind == 0) N.ge({{0, 1}}, r.u(-1, 1)); else if (kind == 1) N.inSOC({{{0, 1}}}, {r.u(-1, 1)}); else if (kind == 2) N.inSOC({{{0, 1}}, {}}, {0, r.u(0.5, 2)}); else N.inEXP({{}, {{0, 1}}, {}}, {r.u(-1, 1), 0, 1});
    Prob Q = N.done(fmt("edge-cone%d%s", kind, withA ? "A" : "")); if (withA) { Q.passA = true; } return Q; };
  switch (w) {
  case 0: case 1: case 2: case 3: return coneOnly(w, false);
  case 4: case 5: case 6: case 7: return coneOnly(w - 4, true);
  case 8: { B N(3); N.c = {1, 1, 1}; for (int i = 0; i < 3; i++) N.inSOC({{{i, 1}}}, {r.u(-1, 1)}); return N.done("edge-soc1s"); }
  case 9: { B N(2); N.c = {1, 0}; N.ge({{0, 1}}, 0); N.le({{0, 1}}, 1); N.eqq({{1, 1}}, 2); N.eqq({}, 0); P = N.done("edge-zero-eqrow"); P.expect = -1; return P; }
  case 10: { B N(2); N.c = {1, 1}; N.eqq({{0, 1}}, 2); N.eqq({{1, 1}}, 3); N.ge({{0, 1}}, 0); return N.done("edge-square-eq"); }
  case 11: { B N(2); N.c = {0, 0}; N.le({}, 1); N.le({}, 2); P = N.done("edge-G-empty"); P.expect = -1; return P; }               // nnz(G)=0
  case 12: { B N(1); N.c = {1}; N.inSOC({{{0, 1}}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}, {}}, dvec(20, 0.1)); return N.done("edge-longsoc"); }
  case 13: { long n = 30; B N(n); for (long j = 0; j < n; j++) { N.ge({{j, 1}}, r.u(-1, 1)); N.c[j] = 1; } return N.done("edge-diag"); }
  case 14: { long n = 20; B N(n); Row a; for (long j = 0; j < n; j++) { N.ge({{j, 1}}, 0); N.c[j] = r.u(0.5, 1); a.push_back({j, 1}); } N.eqq(a, 1); return N.done("edge-arrow"); }
  case 15: { long k = 6; B N(k); for (long j = 0; j < k; j++) { N.inEXP({{}, {{j, 1}}, {}}, {r.u(-1, 1), 0, 1}); N.c[j] = 1; } return N.done("edge-exps"); }
  case 16: { Shape sh; sh.nmax = 6; sh.mmax = 15; P = genStrict(r, sh); if (P.nex == 0) P.expect = 0; auto t = toTrip(P.G); Mat G2(P.m, P.n); // unsorted row indices within columns
    for (idxint j = 0; j < P.n; j++) { vector<std::pair<idxint, double>> v; for (auto& e : t) if (e.c == j) v.push_back({e.r, e.v}); auto pm = r.perm((long)v.size()); for (auto q : pm) { G2.ir.push_back(v[q].first); G2.pr.push_back(v[q].second); } G2.jc[j + 1] = (idxint)G2.ir.size(); } P.G = G2; P.fam = "edge-unsorted"; return P; }
  case 17: { Shape sh; sh.nmax = 6; sh.mmax = 15; P = genStrict(r, sh); auto d = dense(P.G); vector<Trip> t; for (idxint i = 0; i < P.m; i++) for (idxint j = 0; j < P.n; j++) t.push_back({i, j, d[i][j]}); P.G = fromTrip(P.m, P.n, t); P.fam = "edge-explicit-zeros"; return P; }
  case 18: { B N(1); N.c = {0}; N.ge({{0, 1}}, -1); N.le({{0, 1}}, 1); P = N.done("edge-feas"); return P; }
  default: { long n = 12; B N(n); for (long j = 0; j < n; j++) { N.c[j] = r.n(); N.le({{j, 1}}, 1); N.ge({{j, 1}}, -1); if (j) N.inSOC({{}, {{j, 1}, {j - 1, -1}}}, {r.u(0.3, 1), 0}); } return N.done("edge-chain"); }
  }
}
Prob genAny(Rng& r) {
  Shape sh; double u = r.u();
  if (r.p(0.25)) { sh.nmax = 30; sh.mmax = 80; } else if (r.p(0.3)) { sh.nmax = 4; sh.mmax = 8; }
  if (u < 0.22) return genStrict(r, sh);
  if (u < 0.34) return genPlanted(r, sh);
  if (u < 0.43) return genInfeasible(r, sh);
  if (u < 0.52) return genUnbounded(r, sh);
  if (u < 0.74) return genReal(r, (int)r.i(0, NREAL - 1), (int)r.i(1, 8));
  if (u < 0.92) return genNasty(r, (int)r.i(0, NNASTY - 1));
  return genEdge(r, (int)r.i(0, NEDGE - 1));
}
// ---------------------------------------------------------------- the repository's own test problems
struct Cap { long n, m, p, l, nc, nex; vector<long> q, Gjc, Gir, Ajc, Air; vector<double> Gpr, Apr, c, h, b; bool hasA; string name; };
extern "C" int corpus_count(void); extern "C" const char* corpus_get(int k, idxint* dims, idxint** q, double** Gpr, idxint** Gjc, idxint** Gir, double** Apr, idxint** Ajc, idxint** Air, double** c, double** h, double** b);
const int NCORPUS = 23;
Prob corpus(int k) {
  idxint d[6], *q, *Gjc, *Gir, *Ajc, *Air; double *Gpr, *Apr, *c, *h, *b; k = k % corpus_count();
  const char* nm = corpus_get(k, d, &q, &Gpr, &Gjc, &Gir, &Apr, &Ajc, &Air, &c, &h, &b);
  Prob P; P.fam = string("corpus-") + nm; P.n = d[0]; P.m = d[1]; P.p = d[2]; P.l = d[3]; P.nex = d[5]; for (idxint i = 0; i < d[4]; i++) P.q.push_back(q[i]);
  P.G = Mat(P.m, P.n); if (Gjc) { P.G.jc.assign(Gjc, Gjc + P.n + 1); P.G.ir.assign(Gir, Gir + Gjc[P.n]); P.G.pr.assign(Gpr, Gpr + Gjc[P.n]); }
  P.A = Mat(P.p, P.n); if (Apr && Ajc) { P.A.jc.assign(Ajc, Ajc + P.n + 1); P.A.ir.assign(Air, Air + Ajc[P.n]); P.A.pr.assign(Apr, Apr + Ajc[P.n]); P.passA = true; }
  P.c.assign(c, c + P.n); if (h) P.h.assign(h, h + P.m); if (b) P.b.assign(b, b + P.p); P.wellscaled = false; return P;
}
