#include "common.h"
#include "oracle.h"
static Prob pickBig(Rng& r, bool thorough) { Shape sh; sh.nmax = thorough ? 150 : 60; sh.mmax = thorough ? 400 : 150; sh.density = r.u(0.02, 0.2); return r.p(0.5) ? genStrict(r, sh) : genPlanted(r, sh); }
static Prob pick(Ctx& c) {
  Rng& r = c.rng; double u = r.u(); Shape sh; if (r.p(0.3)) { sh.nmax = 4; sh.mmax = 9; } else if (r.p(0.2)) { sh.nmax = 30; sh.mmax = 80; }
  if (u < 0.25) return genStrict(r, sh); if (u < 0.5) return genPlanted(r, sh); if (u < 0.55) return pickBig(r, c.thorough); return genAny(r);
}
static void opt(Ctx& c) {
  Prob P = pick(c); Tol T = randomTol(c.rng); if (c.rng.p(0.4)) T = Tol(); long maxit = c.rng.p(0.1) ? c.rng.i(1, 25) : 100;
  UData U(P); pwork* w = setupProb(P, U); if (!w) { c.stat("setup rejected"); c.viol("opt/setup", "%s: setup failed", P.describe().c_str()); return; } applyTol(w, T); w->stgs->maxit = maxit;
  Res R = solveW(w); c.stat("code " + codeName(R.code)); c.stat("family " + P.fam);
  string tag = fmt("feastol %g abstol %g reltol %g maxit %ld iter %ld tau %g", T.feas, T.abs, T.rel, maxit, (long)R.info.iter, R.tau);
  oracleOptimal(c, P, R, T, tag); if (R.code == 0 || R.code == 10) { c.seen(hmix(P.sig(), (uint64_t)(T.feas * 1e18))); c.stat("cones of optimal problems " + P.mix()); c.sample(P.describe() + " -> " + codeName(R.code) + " " + tag); }
  ECOS_cleanup(w, 0);
}
static Reg r1("C01", opt);
// minimise x subject to x*y >= 1: the infimum 0 is not attained
static Prob inverse(double scale) {
  Prob P; P.fam = "dir:one-over-x"; P.n = 2; P.m = 4; P.l = 1; P.q = {3}; vector<Trip> t = {{0, 1, -1}, {1, 0, -1}, {1, 1, -1}, {2, 0, -1}, {2, 1, 1}}; P.G = fromTrip(4, 2, t); P.A = Mat(0, 2); P.c = {1 * scale, 0}; P.h = {0, 0, 0, 2}; return P;
}
static void dir(Ctx& c) {
  Prob P = inverse(pow(2.0, (double)c.idx)); Res R = solveFresh(P); c.stat("code " + codeName(R.code)); c.seen(P.sig()); oracleOptimal(c, P, R, Tol(), "defaults"); c.sample(P.describe() + " " + codeName(R.code));
}
static Reg r2("C01dir", dir);
static void corp(Ctx& c) { Prob P = corpus((int)c.idx); Res R = solveFresh(P); c.stat("code " + codeName(R.code)); oracleOptimal(c, P, R, Tol(), "defaults"); if (R.code == 0 || R.code == 10) c.seen(P.sig()); c.sample(P.describe() + " -> " + codeName(R.code)); }
static Reg r3("C01corpus", corp);
