#include "common.h"
#include "oracle.h"
static string grp(const Prob& P) { return P.nex ? "exp" : P.q.size() ? "soc" : "lp"; }
static void wp(Ctx& c) {
  Rng& r = c.rng; Shape sh; double u = r.u(); if (r.p(0.25)) { sh.nmax = 4; sh.mmax = 9; } else if (r.p(0.2)) { sh.nmax = 30; sh.mmax = 80; } else if (r.p(c.thorough ? 0.03 : 0.01)) { sh.nmax = 120; sh.mmax = 300; sh.density = r.u(0.02, 0.15); }
  sh.large = 0; bool large = r.p(0.03); if (large) { sh.large = 1; if (sh.mmax > 30) { sh.mmax = 30; sh.nmax = 12; } }
  Prob P; if (u < 0.45) P = genStrict(r, sh); else if (u < 0.6) P = genPlanted(r, sh); else if (u < 0.7 && !large) P = genReal(r, (int)r.i(0, NREAL - 1), (int)r.i(1, 8)); else if (u < 0.85) P = genInfeasible(r, sh); else P = genUnbounded(r, sh);
  Res R = solveFresh(P); string g = grp(P) + (large ? "-large" : ""), kind = P.expect == 1 ? "infeasible" : P.expect == 2 ? "unbounded" : P.fam == "strict" ? "strict" : P.fam == "planted" ? "planted" : "application"; string D = P.describe();
  c.stat("n/" + kind + "/" + g); c.stat("it/" + kind + "/" + g, (double)R.info.iter); c.maxi("iterations/" + kind + "/" + g, (double)R.info.iter); c.seen(P.sig()); c.sample(D + " -> " + codeName(R.code));
  c.stat("verdict/" + kind + "/" + g + "/" + codeName(R.code));
  bool full = false, acc = false;
  if (kind == "infeasible") { full = R.code == 1; acc = R.code == 11; } else if (kind == "unbounded") { full = R.code == 2; acc = R.code == 12; } else { full = R.code == 0; acc = R.code == 10; }
  if (acc) c.stat("reduced/" + kind + "/" + g);
  if (!full && !acc) {
    c.stat("missed/" + kind + "/" + g);
    if (R.code == 0 || R.code == 1 || R.code == 2) c.viol("wp/wrong/" + kind + "/" + codeName(R.code), "%s: %s problem reported %s after %ld iterations", D.c_str(), kind.c_str(), codeName(R.code).c_str(), (long)R.info.iter);
    else if (R.code <= -3) c.viol("wp/exit/" + kind + "/" + codeName(R.code), "%s: %s problem ends with %s", D.c_str(), kind.c_str(), codeName(R.code).c_str());
  }
  long lim = g == "exp" ? (kind == "planted" ? 1000 : 95) : 60;   // measured over millions of cases: at most 28 without exponential cones, 64 with them
  if (full && R.info.iter > lim) c.viol("wp/iterations/" + kind, "%s: %s only after %ld iterations", D.c_str(), codeName(R.code).c_str(), (long)R.info.iter);
  if (full && kind == "planted") { double e = fabs(R.info.pcost - P.opt) / (1 + fabs(P.opt)); c.maxi("objective error planted/" + g, e); if (!(e <= 1e-5 + 5e-8 * sensitivity(P, R) / (1 + fabs(P.opt)))) c.viol("wp/objective", "%s: optimal with cost %.12g, the optimum is %.12g", D.c_str(), R.info.pcost, P.opt); }
  if (full && (kind == "strict" || kind == "application")) { Met M = metrics(P, R); double e = (double)(fabsl(M.upc - M.udc) / (1 + fabsl(M.upc))); c.maxi("primal-dual difference " + kind + "/" + g, e); if (!(e <= (kind == "strict" ? 1e-4 : 1e-3) + 5e-8 * sensitivity(P, R) / (double)(1 + fabsl(M.upc)))) c.viol("wp/objective-gap/" + kind, "%s: optimal with primal cost %.12Lg and dual cost %.12Lg", D.c_str(), M.upc, M.udc); }
}
static Reg r1("C03", wp);
// every arrangement of few small cones, one at a time: no shape may be special
static void shapes(Ctx& c) {
  Rng& r = c.rng; long k = c.idx; Prob P; // mixed radix: LP 0..2, number of SOCs 0..3 of size 1..4, exponential cones 0..2, equalities 0..2
  P.l = k % 3; k /= 3; long ns = k % 4; k /= 4; for (long i = 0; i < ns; i++) { P.q.push_back(1 + k % 4); k /= 4; } P.nex = k % 3; k /= 3; long eq = k % 3;
  P.m = P.l + 3 * P.nex; for (auto v : P.q) P.m += v; if (P.m == 0) { P.l = 1; P.m = 1; }
  P.n = std::min((long)P.m, 1 + r.i(0, 3)) + eq; P.p = eq; if (P.n > P.m + P.p) P.n = P.m + P.p; P.fam = "shapes";
  { vector<Trip> g, a; for (idxint i = 0; i < P.m; i++) for (idxint j = 0; j < P.n; j++) g.push_back({i, j, r.n()}); for (idxint i = 0; i < P.p; i++) for (idxint j = 0; j < P.n; j++) a.push_back({i, j, r.n()}); P.G = fromTrip(P.m, P.n, g); P.A = fromTrip(P.p, P.n, a); P.passA = P.p > 0; }
  extern dvec intPoint(Rng & r, const Prob& P, bool dual);
  dvec s0 = intPoint(r, P, false), z0 = intPoint(r, P, true), x0(P.n), y0(P.p); for (auto& v : x0) v = r.n(); for (auto& v : y0) v = r.n();
  P.h = s0; P.b.assign(P.p, 0); P.c.assign(P.n, 0);
  for (auto& e : toTrip(P.G)) { P.h[e.r] += e.v * x0[e.c]; P.c[e.c] -= e.v * z0[e.r]; } for (auto& e : toTrip(P.A)) { P.b[e.r] += e.v * x0[e.c]; P.c[e.c] -= e.v * y0[e.r]; }
  P.primalfeas = P.dualfeas = true; P.expect = 0;
  Res R = solveFresh(P); string g = grp(P); c.stat("n/shapes/" + g); c.stat("it/shapes/" + g, (double)R.info.iter); c.maxi("iterations/shapes/" + g, (double)R.info.iter); c.seen(P.sig()); c.sample(P.describe() + " -> " + codeName(R.code)); c.stat("verdict/shapes/" + g + "/" + codeName(R.code));
  if (R.code == 10) c.stat("reduced/shapes/" + g); else if (R.code != 0) { c.stat("missed/shapes/" + g); if (R.code == 1 || R.code == 2 || R.code <= -3) c.viol("wp/wrong/shapes/" + codeName(R.code), "%s: strictly feasible problem reported %s", P.describe().c_str(), codeName(R.code).c_str()); }
}
static Reg r2("C03shapes", shapes);
struct Exp { int code; double val; };
// verdicts and optimal values of the repository's own problems (values agree with the published NETLIB optima where they exist)
static const Exp EXPECT[] = {{0, -464.753143}, {0, 225494.963}, {0, -30.8121498}, {0, 0.16}, {0, 0}, {0, -0.679909356}, {2, 0}, {0, -139.332088}, {1, 0}, {2, 0}, {0, 0}, {1, 0}, {1, 0}, {2, 0}, {-99, 0}, {0, -36.2505166},
  {0, -158.628018}, {0, 33592.4858}, {0, -35991767.3}, {0, -20239252.4}, {0, 10312115.9}, {0, 1977.62946}, {0, 5501.84589}};
static void corp(Ctx& c) {
  Prob P = corpus((int)c.idx); Res R = solveFresh(P); c.stat("corpus " + codeName(R.code)); c.seen(P.sig()); c.sample(P.describe() + " -> " + codeName(R.code)); c.res(codeName(R.code) + fmt(" %.9g", R.info.pcost));
  if (c.idx >= (long)(sizeof EXPECT / sizeof *EXPECT)) return; const Exp& e = EXPECT[c.idx]; if (e.code == -99) return; int k = (int)R.code >= 10 ? (int)R.code - 10 : (int)R.code;
  if (k != e.code) { if (R.code == -1 || R.code == -2 || R.code == -3) c.stat("corpus problems not solved"); else c.viol("wp/corpus-verdict", "%s: %s, expected %s", P.describe().c_str(), codeName(R.code).c_str(), codeName(e.code).c_str()); if (R.code < 0) c.viol("wp/corpus-missed", "%s: %s, expected %s", P.describe().c_str(), codeName(R.code).c_str(), codeName(e.code).c_str()); return; }
  if (e.code == 0) { double d = fabs(R.info.pcost - e.val) / (1 + fabs(e.val)); c.maxi("corpus objective error", d); if (!(d <= (R.code == 0 ? 1e-6 : 1e-3))) c.viol("wp/corpus-objective", "%s: %s with cost %.10g, expected %.10g", P.describe().c_str(), codeName(R.code).c_str(), R.info.pcost, e.val); }
}
static Reg r3("C03corpus", corp);
