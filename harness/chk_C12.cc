// C12: equivalent formulations of one problem get equivalent answers.
#include "common.h"
namespace {
const char* NAMES[] = {"variables permuted", "equalities permuted", "LP rows permuted", "second-order cones permuted", "cone tails permuted", "exponential cones permuted", "column entries shuffled", "explicit zeros", "LP rows scaled", "equalities scaled", "cones scaled", "variables scaled", "cost scaled", "variables shifted", "equalities as inequalities", "LP rows as one-dimensional cones", "pairs of LP rows as cones", "cone tails rotated", "redundant rows", "slack variables", "cost as a variable", "variables negated", "one-dimensional cones as LP rows"};
const int NT = sizeof NAMES / sizeof *NAMES;
struct F { // a formulation; x_original[j] = sc[j]*x[col[j]] + sh[j], value_original = va*value + vb
  Prob P; vector<idxint> col; dvec sc, sh; double va = 1, vb = 0; bool degenerate = false; };
struct Rows { vector<Trip> g, a; };
Prob rebuild(const Prob& P, idxint m, idxint p, idxint n, vector<Trip> g, vector<Trip> a) { Prob Q = P; Q.m = m; Q.p = p; Q.n = n; Q.G = fromTrip(m, n, std::move(g)); Q.A = fromTrip(p, n, std::move(a)); Q.passA = p > 0 || P.passA; return Q; }
// permutes the rows of G: row i -> pm[i]
void permRows(Prob& P, const vector<long>& pm) { auto t = toTrip(P.G); for (auto& e : t) e.r = pm[e.r]; P.G = fromTrip(P.m, P.n, t); dvec h = P.h; for (idxint i = 0; i < P.m; i++) P.h[pm[i]] = h[i]; }
vector<long> ident(long n) { vector<long> v(n); for (long i = 0; i < n; i++) v[i] = i; return v; }
void scaleRow(Prob& P, const dvec& d) { for (idxint k = 0; k < P.G.nnz(); k++) P.G.pr[k] *= d[P.G.ir[k]]; for (idxint i = 0; i < P.m; i++) P.h[i] *= d[i]; }
bool apply(Rng& r, F& f, int t) {
  Prob& P = f.P; auto sc = [&](double dec) { return pow(10, r.u(-dec, dec)); };
  switch (t) {
  case 0: { auto pm = r.perm(P.n); auto mv = [&](Mat& M) { auto tt = toTrip(M); for (auto& e : tt) e.c = pm[e.c]; M = fromTrip(M.m, M.n, tt); }; mv(P.G); mv(P.A); dvec c = P.c; for (idxint j = 0; j < P.n; j++) P.c[pm[j]] = c[j]; for (auto& v : f.col) v = pm[v]; return P.n > 1; }
  case 1: { if (P.p < 2) return false; auto pm = r.perm(P.p); auto tt = toTrip(P.A); for (auto& e : tt) e.r = pm[e.r]; P.A = fromTrip(P.p, P.n, tt); dvec b = P.b; for (idxint i = 0; i < P.p; i++) P.b[pm[i]] = b[i]; return true; }
  case 2: { if (P.l < 2) return false; auto pm = ident(P.m), q = r.perm(P.l); for (idxint i = 0; i < P.l; i++) pm[i] = q[i]; permRows(P, pm); return true; }
  case 3: { if (P.q.size() < 2) return false; auto o = r.perm((long)P.q.size()); ivec nq(P.q.size()), st(P.q.size()), ns(P.q.size()); idxint k = P.l; for (size_t i = 0; i < P.q.size(); i++) { st[i] = k; k += P.q[i]; } for (size_t i = 0; i < o.size(); i++) nq[o[i]] = P.q[i]; k = P.l; for (size_t i = 0; i < nq.size(); i++) { ns[i] = k; k += nq[i]; } auto pm = ident(P.m); for (size_t i = 0; i < P.q.size(); i++) for (idxint d = 0; d < P.q[i]; d++) pm[st[i] + d] = ns[o[i]] + d; permRows(P, pm); P.q = nq; return true; }
  case 4: { if (P.q.empty()) return false; auto pm = ident(P.m); idxint k = P.l; for (auto d : P.q) { auto q = r.perm(d - 1); for (idxint i = 1; i < d; i++) pm[k + i] = k + 1 + q[i - 1]; k += d; } permRows(P, pm); return true; }
  case 5: { if (P.nex < 2) return false; auto o = r.perm(P.nex); auto pm = ident(P.m); idxint k = P.m - 3 * P.nex; for (idxint e = 0; e < P.nex; e++) for (int i = 0; i < 3; i++) pm[k + 3 * e + i] = k + 3 * o[e] + i; permRows(P, pm); return true; }
  case 6: return true;   // at the end
  case 7: { auto g = toTrip(P.G), a = toTrip(P.A); int k = (int)r.i(1, 6); for (int i = 0; i < k; i++) { if (P.m && P.n) g.push_back({r.i(0, P.m - 1), r.i(0, P.n - 1), 0.0}); if (P.p) a.push_back({r.i(0, P.p - 1), r.i(0, P.n - 1), 0.0}); } P = rebuild(P, P.m, P.p, P.n, g, a); return true; }
  case 8: { if (!P.l) return false; dvec d(P.m, 1); for (idxint i = 0; i < P.l; i++) d[i] = sc(0.7); scaleRow(P, d); return true; }
  case 9: { if (!P.p) return false; dvec d(P.p); for (auto& v : d) v = sc(0.7) * (r.p(0.5) ? -1 : 1); for (idxint k = 0; k < P.A.nnz(); k++) P.A.pr[k] *= d[P.A.ir[k]]; for (idxint i = 0; i < P.p; i++) P.b[i] *= d[i]; return true; }
  case 10: { if (P.m == P.l) return false; dvec d(P.m, 1); idxint k = P.l; auto blk = [&](idxint len) { double v = sc(0.7); for (idxint i = 0; i < len; i++) d[k + i] = v; k += len; }; for (auto q : P.q) blk(q); for (idxint e = 0; e < P.nex; e++) blk(3); scaleRow(P, d); return true; }
  case 11: case 21: { dvec d(P.n); for (auto& v : d) v = t == 11 ? sc(0.7) : r.p(0.5) ? -1 : 1; for (Mat* M : {&P.G, &P.A}) for (idxint j = 0; j < P.n; j++) for (idxint k = M->jc[j]; k < M->jc[j + 1]; k++) M->pr[k] *= d[j]; for (idxint j = 0; j < P.n; j++) P.c[j] *= d[j]; for (size_t j = 0; j < f.col.size(); j++) f.sc[j] *= d[f.col[j]]; return true; }
  case 12: { double v = sc(1); for (auto& e : P.c) e *= v; f.va /= v; return true; }
  case 13: { dvec x0(P.n); for (auto& v : x0) v = r.n(); for (auto& e : toTrip(P.G)) P.h[e.r] -= e.v * x0[e.c]; for (auto& e : toTrip(P.A)) P.b[e.r] -= e.v * x0[e.c]; double cx = 0; for (idxint j = 0; j < P.n; j++) cx += P.c[j] * x0[j]; f.vb += f.va * cx; for (size_t j = 0; j < f.col.size(); j++) f.sh[j] += f.sc[j] * x0[f.col[j]]; return true; }
  case 14: { if (!P.p) return false; f.degenerate = true; auto g = toTrip(P.G); idxint p = P.p; for (auto& e : g) e.r += 2 * p; for (auto& e : toTrip(P.A)) { g.push_back({2 * e.r, e.c, e.v}); g.push_back({2 * e.r + 1, e.c, -e.v}); } dvec h; for (idxint i = 0; i < p; i++) { h.push_back(P.b[i]); h.push_back(-P.b[i]); } h.insert(h.end(), P.h.begin(), P.h.end()); P.h = h; P.b.clear(); P.l += 2 * p; P.passA = false; P = rebuild(P, P.m + 2 * p, 0, P.n, g, {}); return true; }
  case 15: { if (!P.l) return false; idxint k = r.i(1, P.l); ivec q(k, 1); q.insert(q.end(), P.q.begin(), P.q.end()); P.q = q; P.l -= k; return true; }
  case 22: { idxint k = 0; while (k < (idxint)P.q.size() && P.q[k] == 1) k++; if (!k) return false; P.q.erase(P.q.begin(), P.q.begin() + k); P.l += k; return true; }
  case 16: { if (P.l < 2) return false; idxint i0 = P.l - 2; auto tt = toTrip(P.G); vector<Trip> o; for (auto& e : tt) { if (e.r < i0 || e.r > i0 + 1) o.push_back(e); else { o.push_back({i0, e.c, e.v}); o.push_back({i0 + 1, e.c, e.r == i0 ? e.v : -e.v}); } } double a = P.h[i0], b = P.h[i0 + 1]; P.h[i0] = a + b; P.h[i0 + 1] = a - b; P.l -= 2; ivec q(1, 2); q.insert(q.end(), P.q.begin(), P.q.end()); P.q = q; P = rebuild(P, P.m, P.p, P.n, o, toTrip(P.A)); return true; }
  case 17: { if (P.q.empty()) return false; auto d = dense(P.G); idxint k = P.l; bool any = false; for (auto q : P.q) { if (q >= 3) { idxint i = k + r.i(1, q - 1), j = k + r.i(1, q - 1); if (i != j) { any = true; double th = r.u(0, 6.28), cs = cos(th), sn = sin(th); for (idxint c = 0; c < P.n; c++) { double u = d[i][c], v = d[j][c]; d[i][c] = cs * u - sn * v; d[j][c] = sn * u + cs * v; } double u = P.h[i], v = P.h[j]; P.h[i] = cs * u - sn * v; P.h[j] = sn * u + cs * v; } } k += q; } P.G = fromDense(d, P.m, P.n); return any; }
  case 18: { // rows implied by others, with room to spare
    if (!P.l) return false; idxint k = r.i(0, P.l - 1); auto tt = toTrip(P.G); vector<Trip> o; for (auto& e : tt) { o.push_back({e.r < P.l ? e.r : e.r + 1, e.c, e.v}); if (e.r == k) o.push_back({P.l, e.c, e.v}); } P.h.insert(P.h.begin() + P.l, P.h[k] + (r.p(0.5) ? 1.0 : 0.1)); P.l++; P = rebuild(P, P.m + 1, P.p, P.n, o, toTrip(P.A)); return true; }
  case 19: { // a row as an equality with a new variable
    if (!P.l) return false; idxint k = r.i(0, P.l - 1); vector<Trip> o, a = toTrip(P.A); for (auto& e : toTrip(P.G)) { if (e.r == k) a.push_back({P.p, e.c, e.v}); else o.push_back(e); } a.push_back({P.p, P.n, 1}); o.push_back({k, P.n, -1}); P.b.push_back(P.h[k]); P.h[k] = 0; P.c.push_back(0); P = rebuild(P, P.m, P.p + 1, P.n + 1, o, a); return true; }
  case 20: { // minimise t subject to t = c'x
    vector<Trip> a = toTrip(P.A); for (idxint j = 0; j < P.n; j++) if (P.c[j] != 0) a.push_back({P.p, j, P.c[j]}); a.push_back({P.p, P.n, -1}); P.b.push_back(0); for (auto& v : P.c) v = 0; P.c.push_back(1); P = rebuild(P, P.m, P.p + 1, P.n + 1, toTrip(P.G), a); return true; }
  }
  return false;
}
void shuffleEntries(Rng& r, Mat& M) { for (idxint j = 0; j < M.n; j++) { idxint k = M.jc[j], len = M.jc[j + 1] - k; auto pm = r.perm(len); ivec ir(len); dvec pr(len); for (idxint i = 0; i < len; i++) { ir[i] = M.ir[k + pm[i]]; pr[i] = M.pr[k + pm[i]]; } for (idxint i = 0; i < len; i++) { M.ir[k + i] = ir[i]; M.pr[k + i] = pr[i]; } } }
int cls(idxint c) { return c < 0 ? -1 : (int)(c % 10); }
void equiv(Ctx& c) {
  Rng& r = c.rng; Shape sh; if (r.p(0.3)) { sh.nmax = 5; sh.mmax = 12; } Prob P; double u = r.u(); P = u < 0.35 ? genStrict(r, sh) : u < 0.45 ? genPlanted(r, sh) : u < 0.65 ? genReal(r, (int)r.i(0, NREAL - 1), (int)r.i(1, 6)) : u < 0.83 ? genInfeasible(r, sh) : genUnbounded(r, sh);
  string D = P.describe(); Res R0 = solveFresh(P); string fam = P.expect == 1 ? "infeasible" : P.expect == 2 ? "unbounded" : P.fam == "strict" || P.fam == "planted" ? P.fam : "application"; string kind = P.nex ? "exp" : P.q.size() ? "soc" : "lp"; c.stat("base/" + fam + "/" + codeName(R0.code)); uint64_t sg = P.sig();
  int rounds = c.thorough ? 4 : 2; for (int q = 0; q < rounds; q++) {
    F f; f.P = P; f.col.resize(P.n); f.sc.assign(P.n, 1); f.sh.assign(P.n, 0); for (idxint j = 0; j < P.n; j++) f.col[j] = j; string what; int cnt = r.p(0.5) ? 1 : (int)r.i(2, 4); bool shuffle = false; int first = q == 0 ? (int)(c.idx % NT) : -1; vector<int> used;
    for (int i = 0; i < cnt; i++) { int t = i == 0 && first >= 0 ? first : (int)r.i(0, NT - 1); if (apply(r, f, t)) { used.push_back(t); what += (what.size() ? ", " : "") + string(NAMES[t]); if (t == 6) shuffle = true; } }
    if (used.empty()) { shuffle = true; used.push_back(6); what = NAMES[6]; } f.P.haveopt = false; if (shuffle) { shuffleEntries(r, f.P.G); shuffleEntries(r, f.P.A); }
    Res R = solveFresh(f.P); if (R.code == -99) { c.viol("eqv/setup", "%s: setup fails after [%s]", D.c_str(), what.c_str()); continue; }
    sg = hmix(sg, hash64(what.data(), what.size())); for (int t : used) c.stat(string("transformation: ") + NAMES[t]); string g = f.degenerate ? "no interior" : fam + "/" + kind; c.stat("compared/" + g);
    int k0 = cls(R0.code), k1 = cls(R.code);
    if (k0 >= 0 && k1 >= 0 && k0 != k1 && f.degenerate) c.stat("verdict differs without interior"); /* arbitrarily close to infeasible problems */
    else if (k0 >= 0 && k1 >= 0 && k0 != k1) c.viol("eqv/verdict", "%s: %s, but %s after [%s]", D.c_str(), codeName(R0.code).c_str(), codeName(R.code).c_str(), what.c_str());
    else if ((k0 < 0) != (k1 < 0)) { c.stat("decided in one formulation only/" + g); c.stat(string("decided in one formulation only/with ") + NAMES[used[0]]); }
    else if (k0 == 0) { double v = f.va * R.info.pcost + f.vb, tol = (R0.code == 0 && R.code == 0 ? (f.degenerate ? 1e-3 : 3e-6) : 2e-2) * (1 + fabs(R0.info.pcost) + fabs(f.vb)) * (f.va > 1 ? f.va : 1) + 5e-8 * std::max(sensitivity(P, R0), f.va * sensitivity(f.P, R)); double e = fabs(v - R0.info.pcost); c.maxi(string("objective difference relative to tolerance/") + (f.degenerate ? "no interior, " : "") + (R0.code == 0 && R.code == 0 ? "full" : "reduced"), e / tol);
      c.stat("values compared"); if (!(e <= tol)) c.viol("eqv/value", "%s: optimal value %.10g, but %.10g after [%s]", D.c_str(), R0.info.pcost, v, what.c_str());
      if (R.code == 0 && R0.code == 0) { // the solution of the reformulation solves the original
        Res S = R0; S.code = 0; for (idxint j = 0; j < P.n; j++) S.x[j] = f.sc[j] * R.x[f.col[j]] + f.sh[j]; dvec s(P.h), a(P.p, 0); ld nx = 0, nh = 0, cx = 0; for (idxint j = 0; j < P.n; j++) { cx += (ld)P.c[j] * S.x[j]; nx += (ld)S.x[j] * S.x[j]; for (idxint k = P.G.jc[j]; k < P.G.jc[j + 1]; k++) s[P.G.ir[k]] -= P.G.pr[k] * S.x[j]; for (idxint k = P.A.jc[j]; k < P.A.jc[j + 1]; k++) a[P.A.ir[k]] += P.A.pr[k] * S.x[j]; } for (double t : P.h) nh += (ld)t * t;
        ld res = 0; for (idxint i = 0; i < P.p; i++) res = std::max(res, fabsl((ld)a[i] - P.b[i])); ld m = coneMarginPrimal(P, s); ld sn = 0; for (double t : s) sn += (ld)t * t; (void)sn; ld lim = 2e-6L * (1 + sqrtl(nx) + sqrtl(nh)); c.maxi("residual of mapped solutions relative to tolerance", (double)(res / lim));
        if (res > lim) c.viol("eqv/mapped-equality", "%s: the solution after [%s] violates an equality of the original by %.3Lg", D.c_str(), what.c_str(), res); c.stat("solutions mapped back"); (void)m;
        double e2 = fabs((double)cx - R0.info.pcost); if (!(e2 <= tol * 2)) c.viol("eqv/mapped-value", "%s: the solution after [%s] costs %.10Lg in the original, whose value is %.10g", D.c_str(), what.c_str(), cx, R0.info.pcost); }
      c.stat("iterations/" + g, (double)R.info.iter); c.stat("original iterations/" + g, (double)R0.info.iter); if (c.idx % NT == used[0]) { c.stat(string("iterations with ") + NAMES[used[0]], (double)R.info.iter); c.stat(string("original iterations with ") + NAMES[used[0]], (double)R0.info.iter); } c.maxi("iteration difference", fabs((double)(R.info.iter - R0.info.iter))); }
  }
  c.seen(sg); c.sample(D + " -> " + codeName(R0.code));
}
Reg r1("C12", equiv);
}
