#include "common.h"
#include "cmp.h"
extern dvec intPoint(Rng& r, const Prob& P, bool dual);
// new numbers for the same sparsity pattern
static void refill(Rng& r, Prob& P) {
  double sg = r.p(0.5) ? 1 : pow(10, r.u(-4, 4)), sa = r.p(0.5) ? 1 : pow(10, r.u(-4, 4)); bool keepM = r.p(0.25);
  if (!keepM) { for (auto& v : P.G.pr) v = r.p(0.02) ? 0 : sg * r.n(); double pz = r.p(0.5) ? 0.1 : 0; for (auto& v : P.A.pr) v = pz > 0 && r.p(pz) ? 0 : sa * r.n(); if (r.p(0.3)) { auto perm = r.perm(P.n); for (idxint j = 0; j < P.n; j++) { double f = pow(10, r.u(-2, 2)); for (idxint k = P.G.jc[j]; k < P.G.jc[j + 1]; k++) P.G.pr[k] *= f; } } }
  double u = r.u(); P.expect = -1; P.haveopt = false; P.wellscaled = sg == 1 && sa == 1 && !keepM; P.fam = "refilled"; P.primalfeas = P.dualfeas = false;
  if (u < 0.6) { dvec s0 = intPoint(r, P, false), z0 = intPoint(r, P, true), x0(P.n), y0(P.p); for (auto& v : x0) v = r.n(); for (auto& v : y0) v = r.n(); P.h = s0; P.b.assign(P.p, 0); P.c.assign(P.n, 0);
    for (auto& e : toTrip(P.G)) { P.h[e.r] += e.v * x0[e.c]; P.c[e.c] -= e.v * z0[e.r]; } for (auto& e : toTrip(P.A)) { P.b[e.r] += e.v * x0[e.c]; P.c[e.c] -= e.v * y0[e.r]; } P.expect = 0; P.primalfeas = P.dualfeas = true; }
  else if (u < 0.8) { for (auto& v : P.h) v = 3 * r.n(); for (auto& v : P.b) v = r.n(); for (auto& v : P.c) v = r.n(); } else for (auto& v : P.c) v = r.n();
}
static void upd(Ctx& c) {
  Rng& r = c.rng; Prob P = genAny(r); if (r.p(0.002)) P = corpus((int)r.i(0, 15)); string D0 = P.describe();
  vector<UData*> data; vector<Prob> owner; // every set of arrays ever passed and what it must contain once replaced
  data.push_back(new UData(P)); UData* cur = data[0]; vector<std::pair<UData*, Prob>> replaced;
  pwork* w = setupProb(P, *cur); if (!w) { c.viol("upd/setup", "%s: setup failed", D0.c_str()); delete cur; return; }
  string what; int k = (int)r.i(1, 5); UData *gG = cur, *gA = cur, *gc = cur, *gh = cur, *gb = cur; // which arrays are in use
  for (int i = 0; i < k; i++) {
    double u = r.u();
    if (u < 0.3 && P.m) { idxint j = r.i(0, P.m - 1); double v = r.p(0.7) ? P.h[j] + r.n() : r.n() * pow(10, r.u(-3, 3)); ecos_updateDataEntry_h(w, j, v); P.h[j] = v; what += "h"; P.expect = -1; c.stat("entry updates of h"); }
    else if (u < 0.6 && P.n) { idxint j = r.i(0, P.n - 1); double v = r.p(0.7) ? P.c[j] + r.n() : r.n() * pow(10, r.u(-3, 3)); ecos_updateDataEntry_c(w, j, v); P.c[j] = v; what += "c"; P.expect = -1; c.stat("entry updates of c"); }
    else { Prob old = P; refill(r, P); int mode = (int)r.i(0, 3); // 0 all new arrays, 1 all in place, 2 and 3 each array on its own
      UData* nw = nullptr; if (mode != 1) { nw = new UData(P); data.push_back(nw); }
      auto pick = [&](UData*& g, double* UData::*f, const dvec& v, const dvec& ov, const char* nm) -> double* {
        bool fresh = mode == 0 || (mode >= 2 && r.p(0.5)); double* a = g->*f;
        if (!fresh) { for (size_t q = 0; q < v.size(); q++) a[q] = v[q]; return a; }
        g = nw; (void)ov; (void)nm; return nw->*f; };
      UData *oG = gG, *oA = gA, *oc = gc, *oh = gh, *ob = gb;
      double* Gp = pick(gG, &UData::Gpr, P.G.pr, old.G.pr, "G"); double* Ap = P.passA ? pick(gA, &UData::Apr, P.A.pr, old.A.pr, "A") : NULL; double* cp = pick(gc, &UData::c, P.c, old.c, "c"); double* hp = pick(gh, &UData::h, P.h, old.h, "h"); double* bp = P.passA ? pick(gb, &UData::b, P.b, old.b, "b") : NULL;
      ECOS_updateData(w, Gp, Ap, cp, hp, bp); what += fmt("U%d", mode); c.stat(fmt("updates of all data, mode %d", mode));
      auto chk = [&](UData* o, UData* n, double* UData::*f, const dvec& v, const char* nm) { if (o == n) return; for (size_t q = 0; q < v.size(); q++) if (!(fabs((o->*f)[q] - v[q]) <= 1e-11 * fabs(v[q]))) { c.viol("upd/replaced-array", "%s: after [%s] the replaced array %s[%zu] holds %.17g, the user passed %.17g", D0.c_str(), what.c_str(), nm, q, (o->*f)[q], v[q]); return; } c.stat("replaced arrays compared"); };
      chk(oG, gG, &UData::Gpr, old.G.pr, "Gpr"); if (P.passA) { chk(oA, gA, &UData::Apr, old.A.pr, "Apr"); chk(ob, gb, &UData::b, old.b, "b"); } chk(oc, gc, &UData::c, old.c, "c"); chk(oh, gh, &UData::h, old.h, "h"); }
    if (r.p(0.5) || i == k - 1) { // solve and compare
      bool final_ = i == k - 1 || r.p(0.6);
      if (!final_) { w->stgs->maxit = r.i(0, 10); bool in = r.p(0.3); if (in) { long at = r.i(0, 6); g_iter_hook = [at](pwork* q) { if (q->info->iter == at) raise(SIGINT); }; } ECOS_solve(w); g_iter_hook = nullptr; w->stgs->maxit = 100; what += "s"; continue; }
      Res R = solveW(w), F = solveFresh(P); what += "S"; c.stat("code " + codeName(R.code)); string s = same(F, R);
      if (s.empty()) c.stat("bit-identical to a fresh workspace"); else { c.stat("differs from a fresh workspace"); compare(c, P, F, R, "disturbed", 1, "after [" + what + "]: " + s, "upd");
        if (F.code >= 0 && R.code < 0) c.stat("fails after an update only"); }
      if (c.idx % 4 == 0) { Prob Q = P; for (auto* V : {&Q.c, &Q.h, &Q.b}) for (auto& v : *V) v *= 1 + (r.p(0.5) ? 1 : -1) * 2.3e-16; compare(c, P, F, solveFresh(Q), "perturbed", 1, "perturbed", "upd"); }
    } }
  ECOS_cleanup(w, 0);
  auto fin = [&](UData* g, double* UData::*f, const dvec& v, const char* nm) { for (size_t q = 0; q < v.size(); q++) if (!(fabs((g->*f)[q] - v[q]) <= 1e-11 * fabs(v[q]))) { c.viol("upd/after-cleanup", "%s: after [%s] and cleanup %s[%zu] holds %.17g, the user passed %.17g", D0.c_str(), what.c_str(), nm, q, (g->*f)[q], v[q]); return; } };
  fin(gG, &UData::Gpr, P.G.pr, "Gpr"); if (P.passA) { fin(gA, &UData::Apr, P.A.pr, "Apr"); fin(gb, &UData::b, P.b, "b"); } fin(gc, &UData::c, P.c, "c"); fin(gh, &UData::h, P.h, "h");
  c.seen(hmix(P.sig(), hash64(what.data(), what.size()))); c.sample(D0 + " updates and solves: " + what); for (auto* d : data) delete d;
}
static Reg r1("C07", upd);
