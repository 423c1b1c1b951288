#include "common.h"
#include "oracle.h"
static void cert(Ctx& c) {
  Rng& r = c.rng; double u = r.u(); Shape sh; if (r.p(0.3)) { sh.nmax = 4; sh.mmax = 9; } else if (r.p(0.2)) { sh.nmax = 30; sh.mmax = 80; }
  Prob P; if (u < 0.27) P = genInfeasible(r, sh); else if (u < 0.54) P = genUnbounded(r, sh); else if (u < 0.6) P = genNasty(r, 14); else if (u < 0.66) P = genNasty(r, 15); else if (u < 0.75) P = genStrict(r, sh); else P = genAny(r);
  Tol T = randomTol(r); if (r.p(0.4)) T = Tol(); long maxit = r.p(0.1) ? r.i(1, 25) : 100;
  UData U(P); pwork* w = setupProb(P, U); if (!w) { c.viol("cert/setup", "%s: setup failed", P.describe().c_str()); return; } applyTol(w, T); w->stgs->maxit = maxit;
  Res R = solveW(w); c.stat("code " + codeName(R.code)); c.stat("family " + P.fam + " " + codeName(R.code));
  string tag = fmt("feastol %g abstol %g reltol %g maxit %ld iter %ld tau %g kap %g", T.feas, T.abs, T.rel, maxit, (long)R.info.iter, R.tau, R.kap);
  oracleCert(c, P, R, T, tag);
  // a verdict of optimality of a problem with a robust certificate is as wrong as a bogus certificate
  if (P.wellscaled && (P.expect == 1 || P.expect == 2) && (R.code == 0) && T.feas <= 1e-6 && T.abs <= 1e-6 && T.rel <= 1e-6) c.viol("cert/optimal-instead", "%s: reported optimal (%s)", P.describe().c_str(), tag.c_str());
  if (R.code == 1 || R.code == 2 || R.code == 11 || R.code == 12) { c.seen(hmix(P.sig(), (uint64_t)(T.feas * 1e18))); c.stat(string("cones of certified problems ") + P.mix()); c.sample(P.describe() + " -> " + codeName(R.code) + " " + tag); }
  ECOS_cleanup(w, 0);
}
static Reg r1("C02", cert);
