#include "common.h"
extern "C" { extern void* (*amd_malloc)(size_t); }
static void* noMem(size_t) { return NULL; }
static const double RT = 1e-11;   // a scaling and its inverse per solve: a few rounding errors
static bool bitSame(const UData& U, const Prob& P) { return U.diff(P, 0).empty(); }
static void cont(Ctx& c) {
  Rng& r = c.rng; Prob P = genAny(r); if (r.p(0.1)) rescaleRandom(r, P, r.u(1, 6)); if (r.p(0.002)) P = corpus((int)r.i(0, 15)); string D = P.describe();
  UData U(P);
  if (r.p(0.12)) { // rejected setups leave everything bit for bit as it was
    int how = (int)r.i(0, 4); idxint l = P.l, nex = P.nex, nc = (idxint)P.q.size(), m = P.m; pwork* w;
    if (how == 0) l += r.i(1, 3); else if (how == 1) nex += 1; else if (how == 2) { if (nc) nc -= 1; else l += 1; } else if (how == 3) { if (l) l -= 1; else nex += 1; }
    if (how == 4) { auto keep = amd_malloc; amd_malloc = noMem; w = ECOS_setup(P.n, m, P.p, l, nc, U.q, nex, U.Gpr, U.Gjc, U.Gir, U.Apr, U.Ajc, U.Air, U.c, U.h, U.b); amd_malloc = keep; }
    else w = ECOS_setup(P.n, m, P.p, l, nc, U.q, nex, U.Gpr, U.Gjc, U.Gir, U.Apr, U.Ajc, U.Air, U.c, U.h, U.b);
    if (w) { c.stat("inconsistent setups accepted"); if (how < 4) { c.viol("data/accepted", "%s: a setup with inconsistent dimensions was accepted (variation %d)", D.c_str(), how); } ECOS_cleanup(w, 0); }
    else c.stat("rejected setups/" + std::to_string(how));
    string d = how == 4 ? U.diff(P, RT) : (bitSame(U, P) ? "" : U.diff(P, 0)); if (d.empty()) d = U.diffIdx(P); if (d.size()) c.viol("data/rejected-setup", "%s: after a rejected setup %s (variation %d)", D.c_str(), d.c_str(), how);
    c.seen(hmix(P.sig(), 1000 + how)); return;
  }
  pwork* w = setupProb(P, U); if (!w) { c.viol("data/setup", "%s: setup failed", D.c_str()); return; }
  string d = U.diffIdx(P); if (d.size()) c.viol("data/index", "%s: after setup %s", D.c_str(), d.c_str());
  int rounds = (int)r.i(0, 3); string codes; Res R; bool nan = false;
  for (int k = 0; k < rounds; k++) {
    double u = r.u(); w->stgs->maxit = 100; g_iter_hook = nullptr; if (u < 0.25) w->stgs->maxit = r.i(0, 20); else if (u < 0.4) { long at = r.i(0, 15); g_iter_hook = [at](pwork* q) { if (q->info->iter == at) raise(SIGINT); }; } else if (u < 0.5) w->stgs->feastol = w->stgs->abstol = w->stgs->reltol = 1e-15; else w->stgs->feastol = w->stgs->abstol = w->stgs->reltol = 1e-8;
    if (r.p(0.2) && P.n) { idxint i = r.i(0, P.n - 1); double v = r.n(); ecos_updateDataEntry_c(w, i, v); P.c[i] = v; c.stat("entry updates of c"); }
    if (r.p(0.2) && P.m) { idxint i = r.i(0, P.m - 1); double v = r.n(); ecos_updateDataEntry_h(w, i, v); P.h[i] = v; c.stat("entry updates of h"); }
    R = solveW(w); codes += codeName(R.code) + " "; c.stat("code " + codeName(R.code)); g_iter_hook = nullptr;
    string e = U.diff(P, RT, true); if (e.size()) c.viol("data/cost-after-solve/" + codeName(R.code), "%s: after solve %d (%s) %s", D.c_str(), k, codes.c_str(), e.c_str());
    e = U.diffIdx(P); if (e.size()) c.viol("data/index", "%s: after a solve %s", D.c_str(), e.c_str());
  }
  long keep = r.p(0.5) ? 0 : r.i(1, 5); double *x = w->x, *y = w->y, *z = w->z, *s = w->s; ECOS_cleanup(w, keep);
  d = U.diff(P, RT); if (d.size()) c.viol("data/after-cleanup", "%s: after %s and cleanup %s", D.c_str(), codes.c_str(), d.c_str());
  d = U.diffIdx(P); if (d.size()) c.viol("data/index", "%s: after cleanup %s", D.c_str(), d.c_str());
  c.stat(fmt("cleanups keeping %ld vectors", keep)); (void)nan;
  if (rounds) { auto same = [&](const double* a, const dvec& b, const char* nm) { for (size_t i = 0; i < b.size(); i++) if (memcmp(&a[i], &b[i], 8) && !(std::isnan(a[i]) && std::isnan(b[i]))) { c.viol("data/kept", "%s: kept vector %s[%zu] is %g after cleanup, it was %g", D.c_str(), nm, i, a[i], b[i]); return; } };
    if (keep >= 1) same(x, R.x, "x"); if (keep >= 2) same(y, R.y, "y"); if (keep >= 3) same(s, R.s, "s"); if (keep >= 4) same(z, R.z, "z"); }
  if (keep >= 1) free(x); if (keep >= 2) free(y); if (keep >= 3) free(s); if (keep >= 4) free(z);
  c.seen(hmix(P.sig(), (uint64_t)(rounds * 10 + keep))); c.sample(D + " solves: " + codes + fmt("keep %ld", keep));
}
static Reg r1("C05", cont);
static void bb(Ctx& c) {
  Rng& r = c.rng; MIP M = genMip(r, (int)r.i(0, NMIP - 1), (int)r.i(0, 2)); if (r.p(0.5)) M = permuteMip(r, M); BBOpt o; o.strat = (int)r.i(0, 4); o.sel = (int)r.i(0, 2); o.maxit = r.p(0.4) ? r.i(1, 10) : 500; o.defaults = r.p(0.2);
  Prob P = M.P; string D = P.describe(); BBData B(M, o);
  if (r.p(0.1)) { MIP M2 = M; M2.P.l += 1; ecos_bb_pwork* w = ECOS_BB_setup(P.n, P.m, P.p, P.l + 1, (idxint)P.q.size(), B.U.q, P.nex, B.U.Gpr, B.U.Gjc, B.U.Gir, B.U.Apr, B.U.Ajc, B.U.Air, B.U.c, B.U.h, B.U.b, (idxint)M.bidx.size(), M.bidx.empty() ? NULL : B.bi, (idxint)M.iidx.size(), M.iidx.empty() ? NULL : B.ii, &B.st);
    if (w) { c.viol("data/bb-accepted", "%s: a mixed-integer setup with inconsistent dimensions was accepted", D.c_str()); ECOS_BB_cleanup(w, 0); } else c.stat("rejected mixed-integer setups");
    string d = B.U.diff(P, 0); if (d.empty()) d = B.U.diffIdx(P); if (d.size()) c.viol("data/bb-rejected-setup", "%s: after a rejected mixed-integer setup %s", D.c_str(), d.c_str()); c.seen(hmix(P.sig(), 7)); return; }
  ecos_bb_pwork* w = setupBB(M, B, o); if (!w) { c.viol("data/bb-setup", "%s: mixed-integer setup failed", D.c_str()); return; }
  int rounds = (int)r.i(0, 2); string codes;
  for (int k = 0; k < rounds; k++) { long cnt = 0, at = r.i(0, 60); if (r.p(0.3)) g_iter_hook = [&](pwork*) { if (cnt++ == at) raise(SIGINT); };
    idxint code = ECOS_BB_solve(w); g_iter_hook = nullptr; codes += codeName(code) + " "; c.stat("mixed-integer code " + codeName(code));
    string e = B.U.diff(P, RT, true); if (e.size()) c.viol("data/bb-cost-after-solve", "%s: after mixed-integer solve %d (%s) %s", D.c_str(), k, codes.c_str(), e.c_str()); }
  double *x = w->x, *y = w->y, *z = w->z, *s = w->s; long keep = r.p(0.5) ? 0 : r.i(1, 5); BBRes R; if (rounds) R = grabBB(w, 0); ECOS_BB_cleanup(w, keep);
  if (rounds) { auto same = [&](const double* a, const dvec& b, const char* nm) { for (size_t i = 0; i < b.size(); i++) if (memcmp(&a[i], &b[i], 8) && !(std::isnan(a[i]) && std::isnan(b[i]))) { c.viol("data/bb-kept", "%s: kept vector %s[%zu] is %g after mixed-integer cleanup, it was %g", D.c_str(), nm, i, a[i], b[i]); return; } };
    if (keep >= 1) same(x, R.x, "x"); if (keep >= 2) same(y, R.y, "y"); if (keep >= 3) same(s, R.s, "s"); if (keep >= 4) same(z, R.z, "z"); }
  if (keep >= 1) free(x); if (keep >= 2) free(y); if (keep >= 3) free(s); if (keep >= 4) free(z);
  string d = B.U.diff(P, RT); if (d.empty()) d = B.U.diffIdx(P); if (d.size()) c.viol("data/bb-after-cleanup", "%s: after %s and mixed-integer cleanup %s", D.c_str(), codes.c_str(), d.c_str());
  for (size_t i = 0; i < M.bidx.size(); i++) if (B.bi[i] != M.bidx[i]) c.viol("data/bb-index", "%s: the boolean index array was written", D.c_str());
  for (size_t i = 0; i < M.iidx.size(); i++) if (B.ii[i] != M.iidx[i]) c.viol("data/bb-index", "%s: the integer index array was written", D.c_str());
  c.seen(hmix(P.sig(), (uint64_t)rounds)); c.sample(D + " mixed-integer solves: " + codes);
}
static Reg r2("C05bb", bb);
