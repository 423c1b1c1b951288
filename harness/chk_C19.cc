// C19: the same problems solved by libraries built with different options; the runner compares the results.
#include "common.h"
#include "cmp.h"
static string bits(double v) { uint64_t u; memcpy(&u, &v, 8); return fmt("%016llx", (unsigned long long)u); }
static uint64_t dataSig(const Prob& P) { int64_t d[5] = {(int64_t)P.n, (int64_t)P.m, (int64_t)P.p, (int64_t)P.l, (int64_t)P.nex}; uint64_t h = hash64(d, sizeof d); for (const dvec* v : {&P.G.pr, &P.A.pr, &P.c, &P.h, &P.b}) h = hash64(v->data(), v->size() * 8, h); return h; }
static uint64_t resSig(const Res& R) { uint64_t h = 1; for (const dvec* v : {&R.x, &R.y, &R.z, &R.s}) h = hash64(v->data(), v->size() * 8, h); return h; }
static void solves(Ctx& c) {
  Rng& r = c.rng; Prob P = c.idx < NCORPUS ? corpus((int)c.idx) : genAny(r); string f = c.idx < NCORPUS ? "corpus" : famOf(P); Res R; UData U(P), *U2 = nullptr, *U3 = nullptr; pwork* w = setupProb(P, U); if (w) { // sometimes after other solves and updates
    if (r.p(0.3)) { w->stgs->maxit = r.i(1, 100); if (r.p(0.5)) ECOS_solve(w); if (r.p(0.5)) { Prob Q = P; for (auto* v : {&Q.G.pr, &Q.A.pr, &Q.h, &Q.b, &Q.c}) for (auto& e : *v) e *= 1 + 0.1 * r.n(); U2 = new UData(Q); ECOS_updateData(w, U2->Gpr, U2->Apr, U2->c, U2->h, U2->b); if (r.p(0.5)) ECOS_solve(w); U3 = new UData(P); ECOS_updateData(w, U3->Gpr, U3->Apr, U3->c, U3->h, U3->b); } if (P.m && r.p(0.5)) { idxint q = r.i(0, P.m - 1); ecos_updateDataEntry_h(w, q, P.h[q] + 1); if (r.p(0.3)) ECOS_solve(w); ecos_updateDataEntry_h(w, q, P.h[q]); } w->stgs->maxit = 100; c.stat("solves after others"); }
    if (r.p(0.25)) { w->stgs->feastol = w->stgs->abstol = w->stgs->reltol = r.p(0.7) ? 1e-17 : 1e-12; if (r.p(0.3)) w->stgs->feastol_inacc = w->stgs->abstol_inacc = w->stgs->reltol_inacc = 1e-16; f = "stalling"; }
    R = solveW(w); ECOS_cleanup(w, 0); } delete U2; delete U3; c.seen(dataSig(P)); c.stat("solves"); c.stat("code " + codeName(R.code)); if (R.code == -99) c.stat("rejected"); c.sample(P.describe() + " -> " + codeName(R.code));
  if (R.code == 0 && f != "stalling" && 5e-8 * sensitivity(P, R) > 5e-6 * (1 + fabs(R.info.pcost))) { f = "sensitive"; c.stat("sensitive to the accuracy of the residuals"); }
  string xs; if ((f == "planted" && !P.nex) || f == "stalling") for (double v : R.x) xs += fmt("%.9g,", v);
  c.res(fmt("%016llx %s %ld %.17g %.17g %ld %016llx %s %s", (unsigned long long)dataSig(P), f.c_str(), (long)R.code, R.info.pcost, R.info.dcost, (long)R.info.iter, (unsigned long long)resSig(R), P.nex ? "exp" : P.q.size() ? "soc" : "lp", xs.size() ? xs.c_str() : "-"));
}
static Reg r1("C19", solves);
static void mips(Ctx& c) {
  Rng& r = c.rng; MIP M = genMip(r, (int)r.i(0, NMIP - 1), (int)r.i(0, 1)); BBOpt o; o.strat = (int)r.i(0, 2); o.maxit = 400; BBRes R = solveBB(M, o); uint64_t sg = dataSig(M.P); c.seen(sg); c.stat("mixed-integer solves"); c.stat(fmt("mixed-integer code %ld", (long)R.code)); uint64_t h = R.setup ? hash64(R.x.data(), 8 * R.x.size()) : 0;
  c.res(fmt("%016llx %s %ld %.17g %.17g %ld %016llx %s -", (unsigned long long)sg, R.ninacc ? "mipinacc" : "mip", (long)R.code, R.U, R.L, (long)R.iter, (unsigned long long)h, M.P.nex ? "exp" : M.P.q.size() ? "soc" : "lp"));
}
static Reg r2("C19bb", mips);
