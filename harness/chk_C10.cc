// C10: SIGINT during a solve.  Interrupts are raised at chosen iterations (hook) and at arbitrary instructions (timer signal that raises SIGINT).
#include "common.h"
#include "cmp.h"
#include "oracle.h"
#include <sys/time.h>
static volatile sig_atomic_t g_caller = 0, g_fired = 0; static volatile long g_calls = 0, g_callsAtFire = -1, g_iterAtFire = -1, g_iterNow = -1;
static void callerHandler(int) { g_caller = g_caller + 1; }
static void callerInfo(int, siginfo_t*, void*) { g_caller = g_caller + 1; }
static volatile int g_more = 0;   // further interrupts right after the first
static void interrupt() { for (int k = g_more; k >= 0; k--) raise(SIGINT); }
static void onAlarm(int) { g_fired = 1; g_callsAtFire = g_calls; g_iterAtFire = g_iterNow; interrupt(); }
struct Disp { struct sigaction sa; int kind; };
static Disp install(Rng& r, int kind) {
  Disp d; memset(&d, 0, sizeof d); d.kind = kind; sigemptyset(&d.sa.sa_mask); if (r.p(0.5)) sigaddset(&d.sa.sa_mask, SIGUSR1); if (r.p(0.3)) sigaddset(&d.sa.sa_mask, SIGTERM); d.sa.sa_flags = r.p(0.5) ? SA_RESTART : 0; if (r.p(0.2)) d.sa.sa_flags |= SA_NODEFER;
  if (kind == 0) d.sa.sa_handler = SIG_DFL; else if (kind == 1) d.sa.sa_handler = SIG_IGN; else if (kind == 2) d.sa.sa_handler = callerHandler; else { d.sa.sa_sigaction = callerInfo; d.sa.sa_flags |= SA_SIGINFO; }
  sigaction(SIGINT, &d.sa, nullptr); return d;
}
static string restored(const Disp& d) {
  struct sigaction n; sigaction(SIGINT, nullptr, &n); const int mask = SA_RESTART | SA_NODEFER | SA_SIGINFO | SA_RESETHAND | SA_ONSTACK;
  bool same = d.kind == 3 ? n.sa_sigaction == d.sa.sa_sigaction : n.sa_handler == d.sa.sa_handler; if (!same) return "its handler is another one"; if ((n.sa_flags & mask) != (d.sa.sa_flags & mask)) return fmt("its flags are %x instead of %x", n.sa_flags & mask, d.sa.sa_flags & mask);
  for (int s = 1; s < 32; s++) if (sigismember(&n.sa_mask, s) != sigismember(&d.sa.sa_mask, s)) return "its mask changed"; 
  sigset_t cur; sigprocmask(SIG_BLOCK, nullptr, &cur); if (sigismember(&cur, SIGINT)) return "SIGINT is blocked"; return ""; }
static void reset() { g_more = 0; signal(SIGINT, SIG_DFL); g_iter_hook = nullptr; }
static void dispCheck(Ctx& c, const Disp& d, const string& what) {
  string s = restored(d); c.stat("dispositions compared"); if (s.size()) c.viol("int/disposition", "%s: the caller's disposition of SIGINT is not in force again, %s", what.c_str(), s.c_str());
  if (d.kind >= 2) { sig_atomic_t b = g_caller; raise(SIGINT); if (g_caller != b + 1) c.viol("int/caller-handler", "%s: an interrupt after the return does not reach the caller's handler", what.c_str()); else c.stat("interrupts after the return that reached the caller"); }
}
static bool inter(idxint k) { return k == ECOS_SIGINT; }
static void verdictTrue(Ctx& c, const Prob& P, const Res& R, const string& what) {
  Tol T; oracleOptimal(c, P, R, T, what); oracleCert(c, P, R, T, what); if (!inter(R.code)) return;
  Met M = metrics(P, R); if (!M.finite) { c.viol("int/notfinite", "%s: %s: interrupted with a point that is not finite", P.describe().c_str(), what.c_str()); return; }
  oracleStats(c, P, R, what, -1);
  if (M.smargin < -1e-9L || M.zmargin < -1e-9L) c.viol("int/cone", "%s: %s: interrupted outside the cones (margins %.3Lg, %.3Lg)", P.describe().c_str(), what.c_str(), M.smargin, M.zmargin);
  ld t2 = std::max((ld)1, (ld)R.tau * R.tau); bool gapok = M.gap * t2 <= 0.5L * T.absI || (M.relgapdef && M.relgap * t2 <= 0.5L * T.relI); if (M.pres < 0.5L * T.feasI && M.dres < 0.5L * T.feasI && gapok && (M.pcost < 0 || M.dcost >= 0)) c.viol("int/inaccurate-optimum-not-reported", "%s: %s: interrupted, although the point returned is optimal to the reduced accuracy (residuals %.3Lg %.3Lg gap %.3Lg)", P.describe().c_str(), what.c_str(), M.pres, M.dres, M.gap);
}
static Prob pick(Rng& r, bool big) { double u = r.u(); if (big) return u < 0.5 ? genReal(r, (int)r.i(0, NREAL - 1), 3) : u < 0.6 ? corpus((int)r.i(0, 15)) : genAny(r); if (u < 0.3) { Shape sh; return genStrict(r, sh); } return genAny(r); }
static void common(Ctx& c, bool async) {
  Rng& r = c.rng; g_tau2_elsewhere = true; Prob P = pick(r, async); string D = P.describe(); reset(); g_caller = 0; idxint mi = r.p(0.25) ? r.i(0, 8) : -1; // limits on the number of iterations, down to none
  Res R0; long calls0 = 0; double T = 0; { UData U(P); pwork* w = setupProb(P, U); if (!w) { c.viol("int/setup", "%s: setup failed", D.c_str()); return; } if (mi >= 0) w->stgs->maxit = mi; g_iter_hook = [&](pwork*) { calls0++; }; struct timespec a, b; clock_gettime(CLOCK_MONOTONIC, &a); R0 = solveW(w); clock_gettime(CLOCK_MONOTONIC, &b); T = (b.tv_sec - a.tv_sec) * 1e6 + (b.tv_nsec - a.tv_nsec) * 1e-3; g_iter_hook = nullptr; ECOS_cleanup(w, 0); }
  int rounds = async ? 6 : 3; string ops;
  UData U(P); Disp d = install(r, async ? (int)r.i(2, 3) : (int)r.i(0, 3)); pwork* w = setupProb(P, U); dispCheck(c, d, D + ": setup"); if (w && mi >= 0) { w->stgs->maxit = mi; D += fmt(" maxit %ld", (long)mi); c.stat("with a limit of at most 8 iterations"); }
  for (int k = 0; k < rounds; k++) {
    string what = "interrupt"; bool before = r.p(0.2) && d.kind >= 2; g_fired = 0; g_calls = 0; g_callsAtFire = -1; g_iterAtFire = -1; g_iterNow = -1; g_caller = 0; if (before) { raise(SIGINT); if (g_caller != 1) c.viol("int/caller-handler", "%s: an interrupt before the solve does not reach the caller", D.c_str()); } sig_atomic_t cb = g_caller; w->stgs->verbose = 0;
    g_more = r.p(0.25) ? (int)r.i(1, 3) : 0; if (g_more) c.stat("bursts of interrupts"); long at = -1; bool repeat = false; struct itimerval it; memset(&it, 0, sizeof it);
    if (async) { double us = r.u(0, 1.25) * std::max(T, 5.0); it.it_value.tv_usec = std::max(1L, (long)us % 900000); signal(SIGALRM, onAlarm); g_iter_hook = [&](pwork* q) { g_iterNow = q->info->iter; g_calls = g_calls + 1; }; setitimer(ITIMER_REAL, &it, nullptr); what = fmt("interrupt after %ld us", (long)us); }
    else { at = r.i(0, std::max(1L, calls0)); repeat = r.p(0.2); what = fmt("interrupt in iteration %ld%s", at, repeat ? " and all later ones" : ""); g_iter_hook = [&](pwork*) { long n = g_calls; if (n == at) { g_fired = 1; g_callsAtFire = n + 1; interrupt(); } else if (repeat && n > at) raise(SIGINT); g_calls = n + 1; }; }
#if !(CTRLC > 0)
    if (d.kind == 0) { g_iter_hook = nullptr; }
#endif
    idxint code = ECOS_solve(w); if (async) { memset(&it, 0, sizeof it); setitimer(ITIMER_REAL, &it, nullptr); } g_iter_hook = nullptr; Res R = grab(w, code); sig_atomic_t toCaller = g_caller - cb; what += " -> " + codeName(code); ops += codeName(code) + " ";
    dispCheck(c, d, D + ": " + what); string df = U.diff(P, 1e-11, true); if (df.empty()) df = U.diffIdx(P); if (df.size()) c.viol("int/data", "%s: %s: %s", D.c_str(), what.c_str(), df.c_str());
    c.stat("code " + codeName(code));
#if CTRLC > 0
    if (g_fired && !toCaller) { // taken by the solver
      c.stat(async ? "interrupts taken by the solver at an arbitrary instruction" : "interrupts taken by the solver in a chosen iteration"); if (async && g_iterAtFire < 0) c.stat("interrupts during the initialisation");
      long more = g_calls - g_callsAtFire; c.maxi("iterations begun after the interrupt", (double)more); if (more > 2) c.viol("int/ignored", "%s: %s: %ld more iterations were begun after the interrupt", D.c_str(), what.c_str(), more);
      if (inter(code)) c.stat("interrupted"); 
      if (inter(code) || code >= 10) verdictTrue(c, P, R, what); else if (code != R0.code && code >= 0) verdictTrue(c, P, R, what);
      if (!inter(code) && code < 0 && code != R0.code) c.viol("int/other-failure", "%s: %s, without the interrupt %s", D.c_str(), what.c_str(), codeName(R0.code).c_str());
      if (code >= 0 && R0.code >= 0 && code % 10 != R0.code % 10 && P.wellscaled && P.expect >= 0 && code < 10) c.viol("int/verdict", "%s: %s, without the interrupt %s", D.c_str(), what.c_str(), codeName(R0.code).c_str());
      if (inter(code) && R.info.iter > g_calls) c.viol("int/iter", "%s: %s: %ld iterations reported, %ld begun", D.c_str(), what.c_str(), (long)R.info.iter, (long)g_calls);
    } else
#endif
    { // not interrupted (the signal went to the caller, or never came)
      c.stat(g_fired ? "interrupts that reached the caller" : "solves without interrupt"); if (inter(code)) c.viol("int/spurious", "%s: %s: interrupted, although no interrupt was sent to the solver", D.c_str(), what.c_str());
      if (k == 0) { string s = same(R0, R); if (s.size()) c.viol("int/undisturbed-differs", "%s: %s: %s", D.c_str(), what.c_str(), s.c_str()); } }
    g_iter_hook = nullptr; Res R2 = solveW(w); dispCheck(c, d, D + ": solve after an interrupt"); string s = same(R0, R2); if (inter(R2.code)) c.viol("int/next-solve", "%s: %s: the next solve is interrupted too", D.c_str(), what.c_str()); else if (s.size()) { c.stat("next solve not bit-identical"); compare(c, P, R0, R2, "disturbed", 1, "after " + what, "int"); } else c.stat("next solve bit-identical to a fresh one"); }
  ECOS_cleanup(w, 0); dispCheck(c, d, D + ": cleanup"); string df = U.diff(P, 1e-11); if (df.size()) c.viol("int/data", "%s: after cleanup %s", D.c_str(), df.c_str());
  reset(); c.seen(hmix(P.sig(), hash64(ops.data(), ops.size()))); c.sample(D + " " + ops); g_tau2_elsewhere = false;
}
static void chosen(Ctx& c) { common(c, false); }
static void anytime(Ctx& c) { common(c, true); }
// the worse of the two has an incumbent from a relaxation solved to reduced accuracy (known finding of C13)
static bool inaccurate(const MIP& M, const BBOpt& o, const BBRes& a, const BBRes& b) { return a.U > b.U ? inaccurateRelaxation(M, a, o, b.U) : inaccurateRelaxation(M, b, o, a.U); }
static void bb(Ctx& c) {
  Rng& r = c.rng; MIP M = genMip(r, (int)r.i(0, NMIP - 1), (int)r.i(0, 1)); if (r.p(0.5)) M = permuteMip(r, M); BBOpt o; o.strat = (int)r.i(0, 4); o.sel = (int)r.i(0, 2); o.eta = r.i(0, 6); o.maxit = r.p(0.1) ? r.i(1, 6) : 400; string D = M.P.describe() + fmt(" strategy %d", o.strat); reset(); bool async = r.p(0.5);
  BBRes R0; long calls0 = 0; double T = 0; { g_iter_hook = [&](pwork*) { calls0++; }; struct timespec a, b; clock_gettime(CLOCK_MONOTONIC, &a); R0 = solveBB(M, o); clock_gettime(CLOCK_MONOTONIC, &b); T = (b.tv_sec - a.tv_sec) * 1e6 + (b.tv_nsec - a.tv_nsec) * 1e-3; g_iter_hook = nullptr; } if (!R0.setup) { c.viol("int/setup", "%s: setup failed", D.c_str()); return; }
  double big = 1 + fabs(R0.U); Disp d = install(r, (int)r.i(2, 3)); string ops; { BBData B(M, o); ecos_bb_pwork* w = setupBB(M, B, o); dispCheck(c, d, D + ": setup");
    for (int k = 0; k < 3; k++) { g_more = r.p(0.25) ? (int)r.i(1, 3) : 0; g_fired = 0; g_calls = 0; g_callsAtFire = -1; g_caller = 0; g_iterNow = -1; long at = r.i(0, std::max(1L, calls0 - 1)); struct itimerval it; memset(&it, 0, sizeof it); double us = r.u(0, 1.1) * std::max(T, 5.0); string what = async ? fmt("interrupt after %ld us", (long)us) : fmt("interrupt in iteration %ld of %ld", at, calls0);
      if (async) { it.it_value.tv_usec = std::max(1L, (long)us % 900000); signal(SIGALRM, onAlarm); g_iter_hook = [&](pwork*) { g_calls = g_calls + 1; }; setitimer(ITIMER_REAL, &it, nullptr); }
      else g_iter_hook = [&](pwork*) { long n = g_calls; if (n == at) { g_fired = 1; g_callsAtFire = n + 1; interrupt(); } g_calls = n + 1; };
      BBRes R = runBB(w); idxint code = R.code; if (async) { memset(&it, 0, sizeof it); setitimer(ITIMER_REAL, &it, nullptr); } g_iter_hook = nullptr; bool taken = g_fired && !g_caller; what += " -> " + codeName(code); ops += codeName(code) + " "; dispCheck(c, d, D + ": " + what);
      c.stat("mixed-integer code " + codeName(code));
      if (taken) { c.stat(async ? "mixed-integer interrupts taken at an arbitrary instruction" : "mixed-integer interrupts taken in a chosen iteration"); long more = g_calls - g_callsAtFire; c.maxi("mixed-integer iterations begun after the interrupt", (double)more); if (more > 2) c.viol("int/bb-ignored", "%s: %s: %ld more iterations were begun after the interrupt", D.c_str(), what.c_str(), more); }
      else { if (inter(code)) c.viol("int/bb-spurious", "%s: %s: interrupted, although no interrupt reached the solver", D.c_str(), what.c_str()); c.stat("mixed-integer solves without interrupt"); }
      if (!inter(code) && code >= 0 && code < 10 && R0.code >= 0 && R0.code < 10) { // a definite verdict in spite of the interrupt must be the true one
        if (code != R0.code) c.viol("int/bb-verdict", "%s: %s, without the interrupt %s", D.c_str(), what.c_str(), codeName(R0.code).c_str()); else if (code == 0 && inaccurate(M, o, R, R0)) c.stat("differences explained by inaccurate relaxations"); else if (code == 0 && fabs(R.U - R0.U) > 1e-3 * big) c.viol("int/bb-value", "%s: %s with value %.9g, without the interrupt %.9g", D.c_str(), what.c_str(), R.U, R0.U); }
      if (inter(code) && std::isfinite(R.U)) { string key; string e = checkBBPoint(M, R, o, &key, 50); c.stat("incumbents of interrupted solves"); if (e.size() && !std::isinf(R.U)) c.viol("int/bb-incumbent/" + key, "%s: %s: the incumbent returned is wrong, %s", D.c_str(), what.c_str(), e.c_str()); }
      if (inter(code) && R0.code == 0 && std::isfinite(R0.U) && !inaccurate(M, o, R, R0)) { if (R.U < R0.U - 1e-3 * big) c.viol("int/bb-bounds", "%s: %s with upper bound %.9g below the optimum %.9g", D.c_str(), what.c_str(), R.U, R0.U); if (R.L > R0.U + 1e-3 * big) c.viol("int/bb-bounds", "%s: %s with lower bound %.9g above the optimum %.9g", D.c_str(), what.c_str(), R.L, R0.U); }
      BBRes R2 = runBB(w); idxint c2 = R2.code; dispCheck(c, d, D + ": mixed-integer solve after an interrupt"); c.stat("mixed-integer solves after an interrupt"); if (inter(c2)) c.viol("int/bb-next", "%s: %s: the next solve is interrupted too", D.c_str(), what.c_str());
      else if (c2 != R0.code && (c2 < 10 && R0.code < 10)) c.viol("int/bb-next-verdict", "%s: %s: the next solve ends with %s instead of %s", D.c_str(), what.c_str(), codeName(c2).c_str(), codeName(R0.code).c_str()); else if (c2 != R0.code) c.stat("next mixed-integer verdict differs in certainty"); else if (c2 == 0 && inaccurate(M, o, R2, R0)) c.stat("differences explained by inaccurate relaxations"); else if (c2 == 0 && fabs(R2.U - R0.U) > 1e-3 * big) c.viol("int/bb-next-value", "%s: %s: the next solve has value %.9g instead of %.9g", D.c_str(), what.c_str(), R2.U, R0.U); }
    ECOS_BB_cleanup(w, 0); dispCheck(c, d, D + ": cleanup"); string df = B.U.diff(M.P, 1e-11); if (df.size()) c.viol("int/data", "%s: after cleanup %s", D.c_str(), df.c_str()); }
  reset(); c.seen(hmix(M.P.sig(), hash64(ops.data(), ops.size()))); c.sample(D + " " + ops);
}
static Reg r1("C10", chosen), r2("C10any", anytime), r3("C10bb", bb);
