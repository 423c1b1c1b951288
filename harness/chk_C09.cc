// C09: results never depend on memory that was not written.
// plain: the same call sequence is executed with different contents of fresh heap blocks; all observable results must be bit-identical.
// msan: the same sequences under MemorySanitizer; reports on branches and addresses, and the reported results must be initialised.
#include "common.h"
struct Obs { vector<uint64_t> v; vector<string> name; string undef;
  void num(const string& n, double d) { if (!vf_initialised(&d, 0)) {} uint64_t u; if (std::isnan(d)) u = 0x7ff8000000000000ULL; else memcpy(&u, &d, 8); v.push_back(u); name.push_back(n); }
  void in(const string& n, long d) { v.push_back((uint64_t)d); name.push_back(n); }
  void chk(const string& n, const void* p, size_t k) { if (undef.empty() && !vf_initialised(p, k)) undef = n; }
  void arr(const string& n, const double* p, long k) { for (long i = 0; i < k; i++) { chk(n, p + i, 8); num(n, p[i]); } } };
static void info(Obs& o, const stats* s, const string& pre) {
#define F(x) o.chk(pre + "info." #x, &s->x, sizeof s->x); o.num(pre + "info." #x, (double)s->x);
  F(pcost) F(dcost) F(pres) F(dres) F(pinf) F(dinf) F(pinfres) F(dinfres) F(gap) F(relgap) F(mu) F(kapovert) F(iter)
  F(sigma) F(step) F(step_aff) F(nitref1) F(nitref2) F(nitref3)
#undef F
}
static void obsW(Obs& o, pwork* w, idxint code) {
  o.chk("the exit code", &code, sizeof code); o.in("the exit code", code); o.arr("x", w->x, w->n); o.arr("y", w->y, w->p); o.arr("z", w->z, w->m); o.arr("s", w->s, w->m);
  o.chk("tau", &w->tau, 8); o.num("tau", w->tau); o.chk("kap", &w->kap, 8); o.num("kap", w->kap); info(o, w->info, "");
}
static void obsBB(Obs& o, ecos_bb_pwork* w, idxint code) {
  o.in("the exit code", code); pwork* e = w->ecos_prob; o.arr("x", w->x, e->n); o.arr("y", w->y, e->p); o.arr("z", w->z, e->m); o.arr("s", w->s, e->m); o.arr("x of the relaxation", e->x, e->n); o.arr("s of the relaxation", e->s, e->m); o.arr("y of the relaxation", e->y, e->p); o.arr("z of the relaxation", e->z, e->m);
  info(o, w->info, "mixed-integer "); info(o, e->info, "relaxation "); o.num("global_U", w->global_U); o.chk("global_U", &w->global_U, 8); o.num("global_L", w->global_L); o.chk("global_L", &w->global_L, 8); o.in("iter", w->iter); o.chk("iter", &w->iter, sizeof w->iter);
}
static void contSeq(Rng r, Obs& o, Prob& P, string& ops) {
  UData U(P); vector<UData*> more; pwork* w = setupProb(P, U); o.in("setup", w != nullptr); if (!w) return; int n = (int)r.i(1, 4);
  for (int k = 0; k < n; k++) { double u = r.u(); w->stgs->maxit = 100; w->stgs->feastol = w->stgs->abstol = w->stgs->reltol = 1e-8; bool in = false; long at = r.i(0, 10); char op = 's';
    if (u < 0.15) { w->stgs->maxit = r.i(0, 12); op = 'm'; } else if (u < 0.25) { in = true; op = 'i'; } else if (u < 0.35) { w->stgs->feastol = w->stgs->abstol = w->stgs->reltol = pow(10, r.u(-17, -2)); op = 't'; }
    else if (u < 0.45 && k) { Prob Q = P; for (auto* v : {&Q.G.pr, &Q.A.pr, &Q.c, &Q.h}) for (auto& e : *v) e *= 1 + 0.2 * r.n(); UData* V = new UData(Q); more.push_back(V); ECOS_updateData(w, V->Gpr, V->Apr, V->c, V->h, V->b); op = 'U'; }
    else if (u < 0.52 && P.m) { ecos_updateDataEntry_h(w, r.i(0, P.m - 1), r.n()); op = 'h'; } else if (u < 0.6 && P.n) { ecos_updateDataEntry_c(w, r.i(0, P.n - 1), r.n()); op = 'c'; }
    ops += op; if (in) g_iter_hook = [at](pwork* q) { if (q->info->iter == at) raise(SIGINT); };
    idxint code = ECOS_solve(w); g_iter_hook = nullptr; obsW(o, w, code); ops += codeName(code) + " "; }
  ECOS_cleanup(w, 0); for (auto* v : more) delete v;
}
static void bbSeq(Rng r, Obs& o, const MIP& M, string& ops) {
  srand(1); BBOpt q; q.maxit = r.p(0.4) ? r.i(0, 8) : r.i(8, 60); q.strat = (int)r.i(0, 4); q.sel = (int)r.i(0, 2); q.eta = r.i(0, 8); q.defaults = r.p(0.15);
  BBData B(M, q); ecos_bb_pwork* w = setupBB(M, B, q); o.in("setup", w != nullptr); if (!w) return; if (q.defaults) w->stgs->maxit = 60; int n = (int)r.i(1, 3); ops += fmt("strategy %d selection %d limit %ld ", q.strat, q.sel, q.maxit);
  for (int k = 0; k < n; k++) { double u = r.u(); long cnt = 0, at = r.i(0, 30); bool in = r.p(0.15); if (k && u < 0.3 && M.P.m) updateDataEntry_h(w, r.i(0, M.P.m - 1), r.n()); else if (k && u < 0.6) updateDataEntry_c(w, r.i(0, M.P.n - 1), r.n()); else if (k && u < 0.75) w->stgs->maxit = r.i(0, 80); w->ecos_prob->stgs->maxit = r.p(0.1) ? r.i(0, 8) : 100;
    if (in) g_iter_hook = [&](pwork*) { if (cnt++ == at) raise(SIGINT); }; idxint code = ECOS_BB_solve(w); g_iter_hook = nullptr; obsBB(o, w, code); ops += codeName(code) + " "; }
  ECOS_BB_cleanup(w, 0);
}
static void compareObs(Ctx& c, const Obs& a, const Obs& b, const string& what, const string& D) {
  if (a.v.size() != b.v.size()) { c.viol("uninit/differs", "%s: %zu observations instead of %zu with %s", D.c_str(), b.v.size(), a.v.size(), what.c_str()); return; }
  for (size_t i = 0; i < a.v.size(); i++) if (a.v[i] != b.v[i]) { double x, y; memcpy(&x, &a.v[i], 8); memcpy(&y, &b.v[i], 8); c.viol("uninit/differs", "%s: %s is %.17g, and %.17g with %s", D.c_str(), a.name[i].c_str(), x, y, what.c_str()); return; }
}
static const char* FN[] = {"unchanged heap", "fresh memory filled with zeros", "fresh memory filled with NaN", "fresh memory filled at random", "fresh memory filled with 1.2345", "fresh memory filled with the integer 1", "fresh memory filled with -3e300"};
static void run(Ctx& c, std::function<void(Rng, Obs&, string&)> seq, const string& D, uint64_t sig) {
#ifdef VF_MSAN
  Obs o; string ops; seq(c.rng, o, ops); if (o.undef.size()) c.viol("uninit/result", "%s: %s contains memory that was never written", D.c_str(), o.undef.c_str()); c.stat("values observed", (double)o.v.size()); (void)compareObs; (void)FN;
#else
  Obs ref; string ops; vf_fill(1); seq(c.rng, ref, ops); vf_fill(0);
  int a = c.thorough ? 2 : 2; vector<int> modes = {2, (int)(3 + c.idx % 4)}; (void)a; if (c.idx % 5 == 0) modes.push_back(0);
  for (int m : modes) { Obs o; string t; vf_fill(m, (unsigned)c.idx * 7919u + 1); seq(c.rng, o, t); vf_fill(0); c.stat(string("runs with ") + FN[m]); compareObs(c, ref, o, FN[m], D + " [" + ops + "]"); }
  c.stat("values compared", (double)ref.v.size() * modes.size());
#endif
  c.seen(hmix(sig, hash64(ops.data(), ops.size()))); c.sample(D + " [" + ops + "]");
}
static void cont(Ctx& c) { Rng g = Rng(c.seed, 9, (uint64_t)c.idx); double u = g.u(); Prob P = u < 0.2 ? genEdge(g, (int)g.i(0, NEDGE - 1)) : u < 0.4 ? genNasty(g, (int)g.i(0, NNASTY - 1)) : genAny(g); c.stat("continuous with cones " + P.mix()); run(c, [&](Rng r, Obs& o, string& s) { contSeq(r, o, P, s); }, P.describe(), P.sig()); }
static void bb(Ctx& c) { Rng g = Rng(c.seed, 10, (uint64_t)c.idx); MIP M = genMip(g, (int)g.i(0, NMIP - 1), (int)g.i(0, 1)); if (g.p(0.5)) M = permuteMip(g, M); c.stat("mixed-integer " + M.fam); run(c, [&](Rng r, Obs& o, string& s) { bbSeq(r, o, M, s); }, M.P.describe(), M.P.sig()); }
static Reg r1("C09", cont), r2("C09bb", bb);
static void corp(Ctx& c) { Prob P = corpus((int)c.idx); c.stat("corpus problems"); run(c, [&](Rng, Obs& o, string& s) { UData U(P); pwork* w = setupProb(P, U); if (!w) return; idxint code = ECOS_solve(w); obsW(o, w, code); s += codeName(code); ECOS_cleanup(w, 0); }, P.describe(), P.sig()); }
static Reg r3("C09corpus", corp);
