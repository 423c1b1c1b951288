#include "common.h"
#include <time.h>
static void dbg(Ctx& c) {
  const char* fam = getenv("FAM"); const char* code = getenv("CODE");
  Prob P = genAny(c.rng); if (fam && P.fam != fam) return; Res R = solveFresh(P); if (code && codeName(R.code) != code) return;
  if (getenv("EXP") && P.expect != atoi(getenv("EXP"))) return;
  printf("==== idx %ld %s -> %s\n", c.idx, P.describe().c_str(), codeName(R.code).c_str());
  if (getenv("JSON")) puts(probJson(P).c_str());
  solveFresh(P, [](pwork* w) { w->stgs->verbose = 1; }); Met M = metrics(P, R);
  printf("tau %g kap %g certD res %Lg val %Lg certP res %Lg val %Lg sm %Lg zm %Lg info pinfres %g dinfres %g\n", R.tau, R.kap, M.cert_dinf_res, M.cert_dinf_val, M.cert_pinf_res, M.cert_pinf_val, M.smargin, M.zmargin, R.info.pinfres, R.info.dinfres);
}
static Reg r1("dbg", dbg);
static void mdbg(Ctx& c) {
  int f = (int)c.rng.i(0, NMIP - 1), sz = (int)c.rng.i(0, 3); MIP M = genMip(c.rng, f, sz); if (c.rng.p(0.7)) M = permuteMip(c.rng, M);
  BBOpt o; o.strat = (int)c.rng.i(0, 4); o.sel = (int)c.rng.i(0, 2); clock_t t0 = clock(); BBRes R = solveBB(M, o); clock_t t1 = clock(); Brute b = bruteForce(M, 3000); clock_t t2 = clock();
  if (getenv("MFAM") && M.fam != getenv("MFAM")) return;
  string key, why; if (R.code == 0 || R.code == 10) why = checkBBPoint(M, R, o, &key);
  double d = R.U - b.best; bool bad = !why.empty() || (b.sure && (R.code == 0 ? !(fabs(d) < 1e-5 * (1 + fabs(b.best))) : R.code == 1 ? !std::isinf(b.best) : R.code == 2 ? M.expect != 2 : true));
  c.stat("bad", bad); c.stat(M.fam + "/" + codeName(R.code) + (b.sure ? "" : "/unsure")); c.stat("time bb", (double)(t1 - t0) / CLOCKS_PER_SEC); c.stat("time brute", (double)(t2 - t1) / CLOCKS_PER_SEC);
  if (bad || getenv("ALL")) printf("idx %ld %s nb %zu ni %zu strat %d sel %d code %s U %.9g L %.9g iter %ld brute %.9g sure %d n %ld feas %ld  %s\n", c.idx, M.P.describe().c_str(), M.bidx.size(), M.iidx.size(), o.strat, o.sel, codeName(R.code).c_str(), R.U, R.L, (long)R.iter, b.best, b.sure, b.n, b.nfeas, why.c_str());
}
static Reg r2("mdbg", mdbg);
static void mroot(Ctx& c) {
  int f = (int)c.rng.i(0, NMIP - 1), sz = (int)c.rng.i(0, 3); MIP M = genMip(c.rng, f, sz); if (c.rng.p(0.7)) M = permuteMip(c.rng, M); if (getenv("MFAM") && M.fam != getenv("MFAM")) return;
  BBOpt o; BBData D(M, o); ecos_bb_pwork* w = setupBB(M, D, o); w->ecos_prob->stgs->verbose = getenv("V") != 0; idxint k = ECOS_solve(w->ecos_prob); stats& i = *w->ecos_prob->info;
  Res R0 = solveFresh(M.P);
  printf("idx %ld %s nb %zu ni %zu root %s pcost %.8g dcost %.8g gap %g pres %g dres %g it %ld | plain %s %.8g\n", c.idx, M.fam.c_str(), M.bidx.size(), M.iidx.size(), codeName(k).c_str(), i.pcost, i.dcost, i.gap, i.pres, i.dres, (long)i.iter, codeName(R0.code).c_str(), R0.info.pcost);
  c.stat(fmt("ints%d ", M.iidx.size() > 0) + M.fam + "/" + codeName(k)); ECOS_BB_cleanup(w, 0);
}
static Reg r3("mroot", mroot);
