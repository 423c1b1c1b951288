#include "common.h"
#include "oracle.h"
// the times are differences of what the clock showed; the library reads it at the beginning and at the end (if it reads it more often, only bounds are known)
static void times(Ctx& c, const Prob& P, const Res& R, double t0, long n0) {
#if PROFILING > 0
  auto chk = [&](const char* what, double t, double span, long n) { if (n < 2) return; c.stat(string("times compared: ") + what); if (!(t >= 0 && t <= span + 1e-8) || (n == 2 && !(t >= span - 1e-8))) c.viol(string("stats/time/") + what, "%s: %s time %.9g while the clock moved on by %.9g", P.describe().c_str(), what, t, span); };
  chk("setup", R.info.tsetup, t0, n0); chk("solve", R.info.tsolve, t_clock.span(), t_clock.n);
#endif
}
static void st(Ctx& c) {
  Rng& r = c.rng; Prob P = genAny(r); if (r.p(0.15)) P = genNasty(r, r.p(0.5) ? 10 : 11); if (r.p(0.003)) P = corpus((int)r.i(0, 15));
  Tol T = randomTol(r); bool dflt = r.p(0.5); if (dflt) T = Tol(); long maxit = 100; if (r.p(0.25)) maxit = r.i(0, 30); if (r.p(0.1)) { T.feas = T.abs = T.rel = 1e-15; } // unreachable: every failing exit
  bool fake = r.p(0.3); double t0 = 0; long n0 = 0; if (fake) t_clock.start(r.next()); // times are judged with a clock of the harness
  UData U(P), *U2 = nullptr; pwork* w = setupProb(P, U); if (fake) { t0 = t_clock.span(); n0 = t_clock.n; t_clock.on = false; } if (!w) { c.viol("stats/setup", "%s: setup failed", P.describe().c_str()); return; } applyTol(w, T); w->stgs->maxit = maxit;
  bool intr = r.p(0.08); long at = r.i(0, 20); if (intr) g_iter_hook = [at](pwork* q) { if (q->info->iter == at) raise(SIGINT); };
  int rounds = r.p(0.2) ? 2 : 1; for (int k = 0; k < rounds; k++) {
    if (k && r.p(0.5)) { for (auto* v : {&P.G.pr, &P.A.pr, &P.h, &P.b, &P.c}) for (auto& e : *v) e *= 1 + 0.2 * r.n(); U2 = new UData(P); ECOS_updateData(w, U2->Gpr, U2->Apr, U2->c, U2->h, U2->b); c.stat("solves of updated data"); }
    if (fake) t_clock.start(r.next()); Res R = solveW(w); t_clock.on = false; if (fake) times(c, P, R, t0, n0); string tag = fmt("feastol %g maxit %ld iter %ld round %d%s", T.feas, maxit, (long)R.info.iter, k, intr ? " interrupted" : "");
    oracleStats(c, P, R, tag, maxit); c.stat("code " + codeName(R.code)); c.seen(hmix(P.sig(), (uint64_t)(maxit * 2 + k))); c.sample(P.describe() + " -> " + codeName(R.code) + " " + tag); }
  g_iter_hook = nullptr; ECOS_cleanup(w, 0); delete U2;
}
static Reg r1("C04", st);
