#include "common.h"
#include "cmp.h"
static void other(Ctx& c, Rng& r) { // unrelated work in between
  double u = r.u(); c.stat("unrelated problems in between");
  if (u < 0.7) { Shape sh; sh.nmax = 6; sh.mmax = 14; Prob Q = r.p(0.5) ? genStrict(r, sh) : genAny(r); long mi = r.p(0.3) ? r.i(0, 5) : 100; solveFresh(Q, [mi](pwork* w) { w->stgs->maxit = mi; }); }
  else { MIP M = genMip(r, (int)r.i(0, NMIP - 1), 0); BBOpt o; o.strat = (int)r.i(0, 4); o.sel = (int)r.i(0, 2); o.maxit = r.i(1, 60); solveBB(M, o); }
}
static void indep(Ctx& c) {
  Rng& r = c.rng; Prob P = genAny(r); if (r.p(0.003)) P = corpus((int)r.i(0, 15)); string D = P.describe(); Tol T; double tf = 1; if (r.p(0.2)) tf = pow(10, r.u(0, 4));
  auto defaults = [&](pwork* w) { w->stgs->feastol = w->stgs->abstol = w->stgs->reltol = 1e-8 * tf; w->stgs->feastol_inacc = 1e-4; w->stgs->abstol_inacc = w->stgs->reltol_inacc = 5e-5; w->stgs->maxit = 100; w->stgs->gamma = 0.99; w->stgs->nitref = 9; };
  auto setTol = [&](pwork* w) { defaults(w); };
  Res R0 = solveFresh(P, setTol); if (R0.code == -99) { c.viol("hist/setup", "%s: setup failed", D.c_str()); return; }
  // two live workspaces of the same problem, driven alternately
  UData U1(P), U2(P); pwork *w1 = setupProb(P, U1), *w2 = setupProb(P, U2); if (!w1 || !w2) { c.viol("hist/setup", "%s: setup failed", D.c_str()); return; } setTol(w1); setTol(w2);
  if (r.p(0.4)) other(c, r);
  Res R1 = solveW(w1); string s = same(R0, R1); if (s.size()) c.viol("hist/fresh-workspaces-differ", "%s: a second fresh workspace of the same problem gives %s", D.c_str(), s.c_str());
  // disturb w2
  string what; int k = (int)r.i(0, 3); UData* U3 = nullptr; Prob Q = P; vector<UData*> extra;
  for (int i = 0; i < k; i++) { int t = (int)r.i(0, 8); what += fmt("%d ", t); c.stat(fmt("disturbance %d", t));
    switch (t) {
    case 0: ECOS_solve(w2); break;
    case 1: w2->stgs->maxit = r.i(0, 12); ECOS_solve(w2); break;
    case 2: { long at = r.i(0, 12); g_iter_hook = [at](pwork* q) { if (q->info->iter == at) raise(SIGINT); }; ECOS_solve(w2); g_iter_hook = nullptr; break; }
    case 3: w2->stgs->feastol = w2->stgs->abstol = w2->stgs->reltol = pow(10, r.u(-16, -1)); w2->stgs->feastol_inacc = w2->stgs->abstol_inacc = w2->stgs->reltol_inacc = pow(10, r.u(-6, 1)); ECOS_solve(w2); break;
    case 4: if (P.m) { idxint j = r.i(0, P.m - 1); ecos_updateDataEntry_h(w2, j, P.h[j] + 10 * r.n()); if (r.p(0.7)) ECOS_solve(w2); ecos_updateDataEntry_h(w2, j, P.h[j]); } break;
    case 5: if (P.n) { idxint j = r.i(0, P.n - 1); ecos_updateDataEntry_c(w2, j, P.c[j] + 10 * r.n()); if (r.p(0.7)) ECOS_solve(w2); ecos_updateDataEntry_c(w2, j, P.c[j]); } break;
    case 6: { // other data, then the original data again, in new arrays
      Q = P; double sc = pow(10, r.u(-3, 3)); for (auto* v : {&Q.G.pr, &Q.A.pr}) for (auto& e : *v) e *= sc * (1 + 0.3 * r.n()); for (auto& e : Q.c) e = r.n(); for (auto& e : Q.h) e *= sc;
      UData* V = new UData(Q); extra.push_back(V); ECOS_updateData(w2, V->Gpr, V->Apr, V->c, V->h, V->b); if (r.p(0.8)) ECOS_solve(w2); UData* V2 = new UData(P); extra.push_back(V2); ECOS_updateData(w2, V2->Gpr, V2->Apr, V2->c, V2->h, V2->b); break; }
    case 7: other(c, r); break;
    case 8: w2->stgs->gamma = 0.9; w2->stgs->nitref = r.i(0, 3); ECOS_solve(w2); break; }
    defaults(w2); }
  setTol(w2); if (r.p(0.3)) { ECOS_cleanup(w1, 0); w1 = nullptr; }
  Res R2 = solveW(w2); c.stat("code " + codeName(R2.code)); c.seen(hmix(P.sig(), hash64(what.data(), what.size()))); c.sample(D + " disturbances " + what + "-> " + codeName(R2.code));
  auto flags = [&](const Res& R, const char* what) { if (R.code == R0.code && (R.info.pinf != R0.info.pinf || R.info.dinf != R0.info.dinf)) c.viol("hist/flags", "%s: %s with flags infeasible=%ld unbounded=%ld %s, %ld and %ld in a fresh workspace", D.c_str(), codeName(R.code).c_str(), (long)R.info.pinf, (long)R.info.dinf, what, (long)R0.info.pinf, (long)R0.info.dinf); }; flags(R2, "after other solves");
  s = same(R0, R2); if (s.empty()) c.stat("bit-identical after disturbances"); else {
    c.stat("rounded differently"); compare(c, P, R0, R2, "disturbed", tf, "after [" + what + "]", "hist"); }
  if (c.idx % 4 == 0) { // how far rounding alone carries: the same problem with every number of c moved by a rounding error
    Prob Q2 = P; for (auto& v : Q2.c) v *= 1 + (r.p(0.5) ? 1 : -1) * 2.3e-16; for (auto& v : Q2.h) v *= 1 + (r.p(0.5) ? 1 : -1) * 2.3e-16; compare(c, P, R0, solveFresh(Q2, setTol), "perturbed", tf, "perturbed", "hist"); }
  if (w1) { Res R3 = solveW(w1); flags(R3, "when solved again"); if (same(R1, R3).size()) compare(c, P, R1, R3, "disturbed", tf, "solved again", "hist"); else c.stat("bit-identical when solved again"); ECOS_cleanup(w1, 0); }
  ECOS_cleanup(w2, 0); for (auto* v : extra) delete v; (void)U3;
}
static Reg r1("C06", indep);
