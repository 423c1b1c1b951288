// C13: a mixed-integer optimum equals exhaustive enumeration.
#include "common.h"
static BBOpt randomOpt(Rng& r) {
  BBOpt o; o.strat = (int)r.i(0, 4); o.sel = (int)r.i(0, 2); o.eta = r.i(0, 8); o.maxit = 3000; double u = r.u();
  if (u < 0.3) { o.abs_tol = o.rel_tol = 1e-6; } else if (u < 0.5) o.defaults = true; else { o.abs_tol = pow(10, r.u(-8, -2)); o.rel_tol = pow(10, r.u(-8, -2)); if (r.p(0.3)) o.int_tol = pow(10, r.u(-6, -3)); if (r.p(0.4)) { (r.p(0.5) ? o.abs_tol : o.rel_tol) = 1e-8; double& t = o.abs_tol > 1e-8 ? o.abs_tol : o.rel_tol; t = pow(10, r.u(-3, &t == &o.abs_tol ? 0.5 : -0.5)); } }
  if (o.defaults) { o.abs_tol = 1e-6; o.rel_tol = 1e-3; o.int_tol = 1e-4; o.strat = 3; o.sel = 0; } return o; }
static void judge(Ctx& c, const MIP& M, const BBOpt& o, const Brute& B, const string& cls) {
  string D = M.P.describe() + fmt(" booleans %zu integers %zu, strategy %d selection %d reliability %ld tolerances %.1e %.1e", M.bidx.size(), M.iidx.size(), o.strat, o.sel, o.eta, o.abs_tol, o.rel_tol); BBRes R = solveBB(M, o); if (!R.setup) { c.viol("bf/setup", "%s: setup failed", D.c_str()); return; }
  c.stat("code " + codeName(R.code)); c.stat("solves"); c.stat("nodes", (double)R.iter + 1); c.stat(fmt("strategy %d selection %d", o.strat, o.sel)); 
  bool feas = std::isfinite(B.best);
  if (M.expect == 2) { if (R.code != 2) c.viol("bf/unbounded", "%s: %s, the relaxation is unbounded", D.c_str(), codeName(R.code).c_str()); return; }
  if (!B.sure) { c.stat("enumeration inconclusive"); return; } c.stat(feas ? "compared with the best assignment" : "compared with an exhausted enumeration");
  if (R.code == 0) {
    if (!feas) { c.viol("bf/infeasible-called-optimal" + cls, "%s: optimal with value %.9g, but none of the %ld assignments is feasible", D.c_str(), R.U, B.n); return; }
    double t = std::max(o.abs_tol, o.rel_tol * std::max(fabs(R.U), fabs(R.L))) + 2e-6 + 2e-6 * fabs(B.best);   // the gap tolerances, the accuracy of the relaxations,
    for (idxint k = 0; k < M.nint(); k++) t += 2 * fabs(M.P.c[M.var(k)]) * o.int_tol; t += 0.1 * o.int_tol;      // and the tolerance of integrality
    if (M.P.nex) c.stat("optima with exponential cones");
    double e = R.U - B.best; c.maxi("excess over the gap tolerance, relative to it", e / t); 
    if (e > t) { if (inaccurateRelaxation(M, R, o, B.best)) { if (M.P.nex) c.stat("wrong optima from inaccurate relaxations, exponential cones"); else c.stat("wrong optima from inaccurate relaxations, no exponential cones"); c.viol("bf/not-optimal/inaccurate-relaxation" + cls, "%s: optimal with value %.9g, enumeration finds %.9g; %ld of %ld relaxations were solved to reduced accuracy only (bound %.9g, costs %.9g and %.9g)", D.c_str(), R.U, B.best, R.ninacc, R.nsub, R.L, R.info.pcost, R.info.dcost); } else c.viol("bf/not-optimal" + cls, "%s: optimal with value %.9g (bound %.9g, costs %.9g %.9g), enumeration of %ld assignments finds %.9g", D.c_str(), R.U, R.L, R.info.pcost, R.info.dcost, B.n, B.best); }
    else if (e < -t - 1e-4 * (1 + fabs(B.best))) c.viol("bf/better-than-optimal" + cls, "%s: optimal with value %.9g, enumeration of %ld assignments finds only %.9g", D.c_str(), R.U, B.n, B.best);
  } else if (R.code == 1) { if (feas) c.viol("bf/feasible-called-infeasible" + cls, "%s: infeasible, but an assignment with value %.9g exists", D.c_str(), B.best); }
  else if (R.code == 2) c.viol("bf/bounded-called-unbounded", "%s: unbounded", D.c_str());
  else if (R.code == 10 || R.code == 11) { c.stat("not decided"); if (feas && R.code == 10 && R.U < B.best - 1e-4 * (1 + fabs(B.best))) c.viol("bf/better-than-optimal", "%s: value %.9g, enumeration finds only %.9g", D.c_str(), R.U, B.best); }
  else c.viol("bf/verdict", "%s: ends with %s", D.c_str(), codeName(R.code).c_str());
}
static void bf(Ctx& c) {
  Rng& r = c.rng; int which = (int)(c.idx % NMIP); MIP M = genMip(r, which, (int)r.i(0, c.thorough ? 3 : 2)); if (r.p(0.7)) M = permuteMip(r, M); Brute B; if (M.expect != 2) B = bruteForce(M, 1200); if (M.expect != 2 && B.n == 0) { c.stat("too many assignments"); return; } c.stat("assignments enumerated", (double)B.n); c.stat("feasible assignments", (double)B.nfeas); c.stat("family " + M.fam);
  int k = 1 + (int)r.i(0, 2); for (int i = 0; i < k; i++) judge(c, M, randomOpt(r), B, ""); c.seen(M.P.sig()); c.sample(M.P.describe() + fmt(" best %.9g of %ld", B.best, B.n));
}
static Reg r1("C13", bf);
