// C14: verdicts, returned points and bounds of the mixed-integer solver, in particular when the search is cut short.
#include "common.h"
static void sound(Ctx& c) {
  Rng& r = c.rng; MIP M = genMip(r, (int)(c.idx % NMIP), (int)r.i(0, 2)); if (r.p(0.7)) M = permuteMip(r, M); const Prob& P = M.P; Brute B; if (M.expect != 2) B = bruteForce(M, 800);
  int k = (int)r.i(1, 3); string ops;
  for (int i = 0; i < k; i++) {
    BBOpt o; o.strat = (int)r.i(0, 4); o.sel = (int)r.i(0, 2); o.eta = r.i(0, 8); double u = r.u(); o.maxit = u < 0.1 ? r.i(0, 1) : u < 0.55 ? r.i(2, 12) : u < 0.75 ? r.i(10, 60) : 3000; if (r.p(0.5)) { o.abs_tol = pow(10, r.u(-8, -1)); o.rel_tol = pow(10, r.u(-8, -1)); if (r.p(0.4)) (r.p(0.5) ? o.abs_tol : o.rel_tol) = 1e-8; } if (r.p(0.3)) o.int_tol = pow(10, r.u(-6, -2));
    string D = P.describe() + fmt(" booleans %zu integers %zu, strategy %d selection %d reliability %ld node limit %ld tolerances %.1e %.1e %.1e", M.bidx.size(), M.iidx.size(), o.strat, o.sel, o.eta, o.maxit, o.abs_tol, o.rel_tol, o.int_tol);
    BBData Dt(M, o); ecos_bb_pwork* w = setupBB(M, Dt, o); if (!w) { c.viol("bb/setup", "%s: setup failed", D.c_str()); return; } long emax = 100; if (r.p(0.08)) { emax = r.i(1, 12); w->ecos_prob->stgs->maxit = emax; c.stat("relaxations limited to few iterations"); }
    BBRes R = runBB(w); string rep = codeName(R.code); c.stat("code " + rep); c.stat("solves"); ops += rep + " "; c.stat("relaxations solved", (double)R.nsub); c.maxi("nodes", (double)R.iter + 1);
    bool feas = std::isfinite(B.best), known = M.expect != 2 && B.n > 0 && B.sure; double tolv = 1e-4 * (1 + fabs(B.best)) + 1e-9, cs = 0; for (double v : P.c) cs += fabs(v); tolv += (o.int_tol > 1e-4 ? 10 : 3) * o.int_tol * (1 + cs);
    if (R.iter + 1 > std::max(o.maxit, 1L)) c.viol("bb/node-limit", "%s: %ld nodes", D.c_str(), (long)R.iter + 1);
    if (R.iter < 0) c.viol("bb/node-count", "%s: %ld nodes", D.c_str(), (long)R.iter + 1);
    if ((R.code == 10 || R.code == 11 || R.code == 12) && R.iter + 1 < o.maxit) { if (emax == 100) c.stat("given up before the node limit, relaxations not limited"); c.stat("given up before the node limit"); if (R.ninacc == 0) c.viol("bb/gave-up", "%s: %s after %ld nodes although all %ld relaxations were solved", D.c_str(), rep.c_str(), (long)R.iter + 1, R.nsub); }
    if (R.code == 0 || R.code == 10) { // a solution
      c.stat("solutions checked"); if (!std::isfinite(R.U)) c.viol("bb/value", "%s: %s with upper bound %g", D.c_str(), rep.c_str(), R.U);
      else { string key; string e = checkBBPoint(M, R, o, &key, R.ninacc ? 30 : 1); if (e.size()) c.viol("bb/point/" + key, "%s: %s, but %s", D.c_str(), rep.c_str(), e.c_str());
        if (fabs(R.U - R.info.pcost) > 1e-9 * (1 + fabs(R.U))) c.viol("bb/upper-bound", "%s: %s with upper bound %.10g, the solution costs %.10g", D.c_str(), rep.c_str(), R.U, R.info.pcost);
        for (idxint j = 0; j < P.n; j++) if (R.ex[j] != R.x[j]) { c.viol("bb/loaded", "%s: %s: x[%ld] of the inner workspace is %.10g, of the outer one %.10g", D.c_str(), rep.c_str(), (long)j, R.ex[j], R.x[j]); break; }
        if (R.einfo.pcost != R.info.pcost) c.viol("bb/loaded-info", "%s: %s: the inner workspace reports cost %.10g, the outer one %.10g", D.c_str(), rep.c_str(), R.einfo.pcost, R.info.pcost);
        idxint off = 2 * M.nint(); double nx = 0; for (double v : R.x) nx += fabs(v); double hn = 0; for (double v : P.h) hn += fabs(v); if ((idxint)R.s.size() == P.m + off && (idxint)R.z.size() == P.m + off) { vector<ld> g(P.m, 0); for (idxint j = 0; j < P.n; j++) for (idxint q = P.G.jc[j]; q < P.G.jc[j + 1]; q++) g[P.G.ir[q]] += (ld)P.G.pr[q] * R.x[j]; for (idxint q = 0; q < P.m; q++) if (fabsl(P.h[q] - g[q] - R.s[off + q]) > (R.ninacc ? 1e-3L : 3e-5L) * (1 + nx + hn)) { c.viol("bb/slack", "%s: %s: s of row %ld is %.8g, h-Gx is %.8Lg", D.c_str(), rep.c_str(), (long)q, R.s[off + q], P.h[q] - g[q]); break; } c.stat("slacks compared"); }
        if (known && !feas) c.viol("bb/solution-of-infeasible", "%s: %s with value %.8g, but enumeration of %ld assignments finds none feasible", D.c_str(), rep.c_str(), R.U, B.n);
        else if (known && R.U < B.best - tolv) c.viol("bb/below-optimum", "%s: %s with value %.9g below the optimum %.9g", D.c_str(), rep.c_str(), R.U, B.best);
        if (M.expect == 2) c.viol("bb/bounded", "%s: %s, but the relaxation is unbounded", D.c_str(), rep.c_str()); }
      if (known && feas && R.L > B.best + tolv + std::max(o.abs_tol, o.rel_tol * fabs(R.U))) { c.stat("lower bounds above the optimum"); if (R.ninacc && P.nex) c.stat("lower bounds above the optimum/inaccurate"); else c.viol("bb/lower-bound", "%s: %s with lower bound %.9g above the optimum %.9g", D.c_str(), rep.c_str(), R.L, B.best); }
      if (R.L > R.U + tolv + 1e-4 * (1 + fabs(R.U))) c.viol("bb/bounds-cross", "%s: %s with lower bound %.9g above the upper bound %.9g", D.c_str(), rep.c_str(), R.L, R.U);
      if (R.code == 0 && known && feas && o.maxit >= 3000) { double gap = std::max(o.abs_tol, o.rel_tol * std::max(fabs(R.U), fabs(R.L))); if (R.U > B.best + gap + tolv && !inaccurateRelaxation(M, R, o, B.best)) c.viol("bb/not-optimal", "%s: optimal with value %.9g, the optimum is %.9g", D.c_str(), R.U, B.best); }
      c.stat("optima confirmed"); }
    else if (R.code == 1 || R.code == 11) { // no solution
      c.stat("'no solution' checked"); if (std::isfinite(R.U)) c.viol("bb/no-solution-with-bound", "%s: %s although a solution of value %.8g was found", D.c_str(), rep.c_str(), R.U); if (M.expect == 2) { if (R.code == 1) c.viol("bb/unbounded-called-infeasible", "%s: infeasible, but the relaxation is unbounded", D.c_str()); }
      if (R.code == 1 && known && feas) c.viol("bb/feasible-called-infeasible", "%s: infeasible, but an assignment of value %.8g exists", D.c_str(), B.best);
      if (R.code == 11 && known && feas && R.L > B.best + tolv && std::isfinite(R.L)) { if (R.ninacc && P.nex) c.stat("lower bounds above the optimum/inaccurate"); else c.viol("bb/lower-bound", "%s: %s with lower bound %.9g above the optimum %.9g", D.c_str(), rep.c_str(), R.L, B.best); } }
    else if (R.code == 2 || R.code == 12) { c.stat("'unbounded' checked"); if (M.expect != 2) c.viol("bb/bounded-called-unbounded", "%s: %s, but all variables are bounded or the cost is", D.c_str(), rep.c_str());
      // the point is an improving ray of the relaxation
      vector<ld> g(P.m, 0); ld cx = 0, nx = 0; for (idxint j = 0; j < P.n; j++) { cx += (ld)P.c[j] * R.x[j]; nx += fabsl(R.x[j]); for (idxint q = P.G.jc[j]; q < P.G.jc[j + 1]; q++) g[P.G.ir[q]] += (ld)P.G.pr[q] * R.x[j]; } if (M.expect == 2) { if (!(cx < 0)) c.viol("bb/ray", "%s: %s, but c'x = %.4Lg", D.c_str(), rep.c_str(), cx); for (idxint q = 0; q < P.l; q++) if (g[q] > (R.ninacc ? 5e-3L : 2e-4L) * nx) { c.viol("bb/ray", "%s: %s, but the ray violates row %ld by %.4Lg (length %.4Lg)", D.c_str(), rep.c_str(), (long)q, g[q], nx); break; } } }
    else c.viol("bb/verdict", "%s: ends with %s", D.c_str(), rep.c_str());
    if (M.expect == 2 && o.maxit > 2 && R.code != 2 && emax == 100) c.viol("bb/unbounded-missed", "%s: %s, but the relaxation is unbounded", D.c_str(), rep.c_str());
    ECOS_BB_cleanup(w, 0); }
  c.seen(hmix(P.sig(), hash64(ops.data(), ops.size()))); c.sample(P.describe() + " " + ops);
}
static Reg r1("C14", sound);
