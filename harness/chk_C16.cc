// C16: a mixed-integer workspace can be solved again, its cost and right-hand side updated and its settings changed; every solve answers like a freshly set up problem.
#include "common.h"
#include <signal.h>
// an answer that exists only because integers may be off by the integrality tolerance: the integers of the point, rounded, do not have (nearly) its value
static bool illposed(const MIP& N, const BBRes& b, double t) { dvec v; for (idxint k = 0; k < N.nint(); k++) v.push_back(floor(b.x[N.var(k)] + 0.5)); double f = mipEval(N, v); return !(f <= b.U + t); }
static void hist(Ctx& c) {
  Rng& r = c.rng; int which = (int)(c.idx % NMIP); MIP M = genMip(r, which, (int)r.i(0, c.thorough ? 3 : 2)); if (r.p(0.5)) M = permuteMip(r, M); string D = M.P.describe() + fmt(" booleans %zu integers %zu", M.bidx.size(), M.iidx.size());
  auto opts = [&](BBOpt& o) { o.strat = (int)r.i(0, 4); o.sel = (int)r.i(0, 2); o.eta = r.i(0, 8); o.maxit = 3000; o.abs_tol = o.rel_tol = r.p(0.7) ? 1e-6 : pow(10, r.u(-8, -2)); o.int_tol = r.p(0.85) ? 1e-4 : pow(10, r.u(-6, -3)); };
  BBOpt o; opts(o); MIP N = M; /* the problem as updated */ { BBData B(M, o); ecos_bb_pwork* w = setupBB(M, B, o); if (!w) { c.viol("hist/setup", "%s: setup failed", D.c_str()); return; }
    idxint im0 = w->ecos_prob->stgs->maxit; string ops = fmt("strategy %d selection %d", o.strat, o.sel); int steps = (int)r.i(2, 6); bool dirty = false, upd = false;
    for (int k = 0; k < steps; k++) {
      if (k) { int u = (int)r.i(0, 9); double sc = pow(10, r.u(-2, 0.5));
        if (u < 5) { string s; bool cc = r.p(0.75), hh = !cc || r.p(0.6);
          if (cc) { bool all = r.p(0.3); int nc = 0; for (idxint j = 0; j < M.P.n; j++) if (all || r.p(0.4)) { double v = r.p(0.2) ? M.P.c[j] : r.p(0.1) ? 0 : N.P.c[j] + sc * r.n() * (fabs(N.P.c[j]) + 0.1); updateDataEntry_c(w, j, v); N.P.c[j] = v; nc++; c.stat("cost entries updated"); } s += fmt("; %d costs updated", nc); }
          if (hh) { int nh = 0; for (idxint j = 0; j < M.P.m; j++) if (r.p(0.25)) { double v = r.p(0.2) ? M.P.h[j] : N.P.h[j] + (r.p(0.8) ? 1 : -1) * (0.05 + fabs(r.n()) * 0.5 * sc * (fabs(N.P.h[j]) + 0.1)); if (r.p(0.1)) v = r.i(-3, 6) + (r.p(0.5) ? 0.5 : 0); updateDataEntry_h(w, j, v); N.P.h[j] = v; nh++; c.stat("right-hand side entries updated"); } s += fmt("; %d entries of h updated", nh); }
          ops += s; upd = true; c.stat("updates"); }
        else if (u < 7) { opts(o); w->stgs->abs_tol_gap = o.abs_tol; w->stgs->rel_tol_gap = o.rel_tol; w->stgs->integer_tol = o.int_tol; w->stgs->branching_strategy = (enum BRANCHING_STRATEGY)o.strat; w->stgs->node_selection_method = (enum NODE_SELECTION_METHOD)o.sel; w->stgs->reliable_eta = o.eta; ops += fmt("; settings: strategy %d selection %d reliability %ld tolerances %.3g %.3g", o.strat, o.sel, (long)o.eta, o.abs_tol, o.int_tol); c.stat("settings changed"); }
        else ops += "; again"; }
      // a disturbed solve first: few nodes, few inner iterations, an interrupt
      if (r.p(0.35)) { int u = (int)r.i(0, 2); BBOpt oo = o; if (u == 0) { oo.maxit = r.i(1, 8); w->stgs->maxit = oo.maxit; BBRes R = runBB(w); w->stgs->maxit = o.maxit; ops += fmt(" [limit of %ld nodes: %s]", oo.maxit, codeName(R.code).c_str()); c.stat("solves with few nodes"); if (R.iter > oo.maxit) c.viol("hist/limit", "%s: %s: %ld nodes", D.c_str(), ops.c_str(), (long)R.iter); if (R.code >= 10) c.stat("solves stopped by the limit"); }
        else if (u == 1) { w->ecos_prob->stgs->maxit = r.i(1, 9); runBB(w); ops += fmt(" [%ld inner iterations]", (long)w->ecos_prob->stgs->maxit); w->ecos_prob->stgs->maxit = im0; c.stat("solves with few inner iterations"); }
        else { long at = r.i(1, 120), n = 0; bool fired = false; struct sigaction sa, old; memset(&sa, 0, sizeof sa); sa.sa_handler = SIG_IGN; sigaction(SIGINT, &sa, &old); g_iter_hook = [&](pwork*) { if (++n == at) { fired = true; raise(SIGINT); } }; BBRes R = runBB(w); g_iter_hook = nullptr; sigaction(SIGINT, &old, nullptr); ops += fmt(" [interrupt%s: %s]", fired ? "" : " not reached", codeName(R.code).c_str()); if (fired) c.stat("solves interrupted"); }
        dirty = true; }
      srand((unsigned)r.i(1, 1000)); BBRes R = runBB(w); BBRes F = solveBB(N, o); string W = D + ": " + ops; c.stat("solves"); if (dirty) c.stat("solves after disturbed ones"); if (upd) c.stat("solves after updates"); if (!F.setup) { c.viol("hist/setup", "%s: setup of the updated problem failed", W.c_str()); break; }
      ops += " -> " + codeName(R.code); c.stat("code " + codeName(R.code)); bool lim = false;
      for (auto* q : {&R, &F}) { if (q->code >= 10 && q->code <= 12) lim = true; else if (q->code != 0 && q->code != 1 && q->code != 2) c.viol("hist/code", "%s: %s %s", W.c_str(), codeName(q->code).c_str(), q == &F ? "in a fresh workspace" : ""); }
      if (lim) { c.stat("not decided"); continue; }
      if (R.code != F.code) { if ((R.code == 0 && F.code == 1 && illposed(N, R, 1e-3)) || (F.code == 0 && R.code == 1 && illposed(N, F, 1e-3))) { c.stat("answers that depend on the integrality tolerance"); continue; } if (N.P.nex) { c.stat("verdicts differ, exponential cones"); if (F.ninacc || R.ninacc) { c.stat("verdicts differ, inaccurate relaxations"); continue; } } c.viol(upd ? "hist/verdict-updated" : "hist/verdict", "%s: %s, a fresh workspace %s", W.c_str(), codeName(R.code).c_str(), codeName(F.code).c_str()); continue; }
      c.stat("verdicts compared"); if (R.code) continue;
      double best = std::min(R.U, F.U), t = 2e-6 + 2e-6 * fabs(best); c.stat("values compared"); if (N.P.nex) c.stat("values compared/exponential cones"); const BBRes& X = R.U > F.U ? R : F; t += std::max(o.abs_tol, o.rel_tol * std::max(fabs(X.U), fabs(X.L))); for (idxint i = 0; i < N.nint(); i++) t += 2 * fabs(N.P.c[N.var(i)]) * o.int_tol; t += 0.1 * o.int_tol;
      if (fabs(R.U - F.U) > t) { if (inaccurateRelaxation(N, X, o, best)) { c.stat("values that differ because of inaccurate relaxations"); if (!N.P.nex) c.stat("values that differ because of inaccurate relaxations/no exponential cones"); } else if (illposed(N, R.U > F.U ? F : R, t / 2)) c.stat("answers that depend on the integrality tolerance"); else c.viol(upd ? "hist/value-updated" : "hist/value", "%s: optimal value %.9g (bound %.9g), in a fresh workspace %.9g (bound %.9g)", W.c_str(), R.U, R.L, F.U, F.L); } else c.maxi("difference relative to tolerance", fabs(R.U - F.U) / t);
      string key, e = checkBBPoint(N, R, o, &key, 50); if (e.size()) c.viol("hist/point/" + key, "%s: %s", W.c_str(), e.c_str()); else c.stat("points checked");
      c.seen(N.P.sig()); }
    ECOS_BB_cleanup(w, 0); MIP K = M; K.P.c = N.P.c; string df = B.U.diff(K.P, 1e-11); if (df.size()) c.viol("hist/data", "%s: %s: after cleanup %s", D.c_str(), ops.c_str(), df.c_str()); df = B.U.diffIdx(M.P); if (df.size()) c.viol("hist/data-index", "%s: %s: after cleanup %s", D.c_str(), ops.c_str(), df.c_str()); c.sample(D + " " + ops); }
}
static Reg r1("C16", hist);
