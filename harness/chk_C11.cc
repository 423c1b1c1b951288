// C11: iteration limits, tolerances and verbosity are honoured; every solve ends with a documented verdict.
#include "common.h"
#include "oracle.h"
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
namespace {
struct It { stats i; double tau, kap, pv, dv; /* values of the certificates */ dvec x, y, z, s; };
struct Run { Res R; vector<It> t; bool ok = false; };
typedef std::function<void(pwork*)> Tweak;
Run traced(const Prob& P, const Tweak& tw) {
  Run q; UData U(P); pwork* w = setupProb(P, U); if (!w) return q; tw(w); q.ok = true;
  g_iter_hook = [&](pwork* v) { It e; e.i = *v->info; e.tau = v->tau; e.kap = v->kap; e.x.assign(v->x, v->x + v->n); e.y.assign(v->y, v->y + v->p); e.z.assign(v->z, v->z + v->m); e.s.assign(v->s, v->s + v->m);
    { auto N = [](const dvec& a) { double t = 0; for (double u : a) t += u * u; return sqrt(t); }; e.dv = e.i.pcost * e.tau / N(e.x); e.pv = -e.i.dcost * e.tau / (N(e.y) + N(e.z)); }
#if defined EQUILIBRATE && EQUILIBRATE > 0
    for (idxint j = 0; j < v->n; j++) e.x[j] /= v->xequil[j] * v->tau; for (idxint j = 0; j < v->p; j++) e.y[j] /= v->Aequil[j] * v->tau; for (idxint j = 0; j < v->m; j++) { e.z[j] /= v->Gequil[j] * v->tau; e.s[j] *= v->Gequil[j] / v->tau; }
#endif
    q.t.push_back(std::move(e)); };
  q.R = solveW(w); g_iter_hook = nullptr; ECOS_cleanup(w, 0); return q;
}
bool eq(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
bool eqn(double a, double b) { return a == b || std::isnan(a) || std::isnan(b); }   // whether they are defined depends on reltol
bool sameInfo(const stats& a, const stats& b) { return eq(a.pcost, b.pcost) && eq(a.dcost, b.dcost) && eq(a.pres, b.pres) && eq(a.dres, b.dres) && eq(a.gap, b.gap) && eq(a.relgap, b.relgap) && eq(a.mu, b.mu) && eq(a.kapovert, b.kapovert) && eqn(a.pinfres, b.pinfres) && eqn(a.dinfres, b.dinfres); }
bool better(const stats& a, const stats& b) { return a.gap > 0 && b.gap > 0 && a.gap < b.gap && a.pres > 0 && a.pres < b.pres && a.dres > 0 && a.dres < b.dres && a.kapovert > 0 && a.kapovert < b.kapovert && a.mu > 0 && a.mu < b.mu; }
// documented criteria evaluated on the solver's own measures; -1 none
int criteria(const stats& i, double tau, double kap, double f, double a, double r, double ffull, bool* amb) {
  double cx = i.pcost * tau, bh = -i.dcost * tau;
  if (i.pres < f && i.dres < f && (i.gap < a || i.relgap < r)) { if (cx < 0 || bh <= a) { if (cx > -1e-300 && fabs(bh - a) <= 1e-12 * fabs(bh)) *amb = true; return 0; } if (cx < 1e-300 || fabs(bh - a) <= 1e-12 * fabs(bh)) *amb = true; }
  if (i.dinfres < f && tau < kap) return 2;
  if ((i.pinfres < f && tau < kap) || (tau < ffull && kap < ffull && i.pinfres < ffull)) return 1;
  return -1;
}
string exitMsg(idxint code) { switch (code) { case 0: return "\nOPTIMAL (within"; case 1: return "\nPRIMAL INFEASIBLE (within"; case 2: return "\nUNBOUNDED (within"; case 10: return "\nClose to OPTIMAL (within"; case 11: return "\nClose to PRIMAL INFEASIBLE (within"; case 12: return "\nClose to UNBOUNDED (within"; case -1: return "\nRAN OUT OF ITERATIONS"; case -2: return "\nNUMERICAL PROBLEMS"; case -3: return "\nNUMERICAL PROBLEMS"; } return ""; }
bool documented(idxint c) { return c == 0 || c == 1 || c == 2 || c == 10 || c == 11 || c == 12 || c == -1 || c == -2 || c == -3 || c == -4 || c == -7; }
// the point and the statistics returned are those of one iterate, and not one that the solver saw to be worse
void checkBest(Ctx& c, const string& D, const Run& q, long limit, const string& tag) {
  const Res& R = q.R; if (q.t.empty()) { if (R.code != -7) c.viol("lim/no-iterate", "%s: %s without an iterate (%s)", D.c_str(), codeName(R.code).c_str(), tag.c_str()); return; } if (R.code == -7) return;
  auto near = [](const dvec& a, const dvec& b) { for (size_t k = 0; k < a.size(); k++) { double d = fabs(a[k] - b[k]); if (d > 1e-11 * std::max(fabs(a[k]), fabs(b[k])) && d == d) return false; if (std::isnan(a[k]) != std::isnan(b[k])) return false; } return true; };
  int K = (int)q.t.size() - 1, j = K; while (j >= 0 && !(sameInfo(R.info, q.t[j].i) && near(R.x, q.t[j].x) && near(R.y, q.t[j].y) && near(R.z, q.t[j].z) && near(R.s, q.t[j].s) && eq(R.tau, q.t[j].tau) && eq(R.kap, q.t[j].kap))) j--;
  c.stat("points traced to an iterate"); if (j < 0) { int k = K; while (k >= 0 && !near(R.x, q.t[k].x)) k--; int k2 = K; while (k2 >= 0 && !sameInfo(R.info, q.t[k2].i)) k2--; c.viol("lim/not-an-iterate", "%s: %s returns neither the last nor an earlier iterate: x is that of iteration %d, the statistics those of %d of %d (%s)", D.c_str(), codeName(R.code).c_str(), k, k2, K, tag.c_str()); return; }
  if (j < K) c.stat("earlier iterates recovered");
  if (R.code == 0 || R.code == 1 || R.code == 2) return;   // the first iterate that meets the tolerances
  { auto prefer = [](const stats& a, const stats& b, bool own) { bool g = a.gap > 0 && b.gap > 0 && a.gap < b.gap && a.mu > 0 && a.mu < b.mu; // smaller gap, complementarity and residuals; towards a certificate (kappa>tau) the residual of the certificate counts
      if (a.kapovert > 1) return g && a.pinfres > 0 && a.pinfres < (own ? b.pinfres : b.pres); return g && a.pres > 0 && a.pres < b.pres && a.dres > 0 && a.dres < b.dres && a.kapovert > 0 && a.kapovert < b.kapovert; };
    auto best = [&](int upto, bool own) { int b = 0; for (int i = 1; i <= upto; i++) if (prefer(q.t[i].i, q.t[b].i, own)) b = i; return b; }; bool limited = R.code == -1 || (R.info.iter == limit && K == limit && !(K > 0 && (q.t[K].i.step < 1e-5 || q.t[K].i.gap < 0 || !(q.t[K].i.pres <= 400 * q.t[K - 1].i.pres) || std::isnan(q.t[K].i.pcost))));
    auto isit = [&](int b) { return b == j || (sameInfo(q.t[b].i, q.t[j].i) && near(q.t[b].x, q.t[j].x)); }; bool ok = false; for (bool own : {false, true}) { ok |= isit(best(K, own)); if (!(R.code == -1 && limited) || K == 0) ok |= isit(best(K - 1, own)); }
    c.stat("choices of an iterate predicted"); if (q.t[j].i.kapovert > 1) c.stat("choices of an iterate predicted, certificates"); if (!ok) c.viol("lim/choice", "%s: %s returns iterate %d of %d (gap %.3g mu %.3g pres %.3g dres %.3g pinfres %.3g kap/tau %.3g), the best by these measures is %d (gap %.3g mu %.3g pres %.3g dres %.3g pinfres %.3g kap/tau %.3g; %s)", D.c_str(), codeName(R.code).c_str(), j, K, q.t[j].i.gap, q.t[j].i.mu, q.t[j].i.pres, q.t[j].i.dres, q.t[j].i.pinfres, q.t[j].i.kapovert, best(K, false), q.t[best(K, false)].i.gap, q.t[best(K, false)].i.mu, q.t[best(K, false)].i.pres, q.t[best(K, false)].i.dres, q.t[best(K, false)].i.pinfres, q.t[best(K, false)].i.kapovert, tag.c_str()); }
  bool mono = true; for (auto& e : q.t) if (!(e.i.kapovert <= 1)) mono = false;
  bool atLimit = R.info.iter == limit && !(K > 0 && q.t[K].i.step == 1e-6 * 0.99) && !(K > 0 && (q.t[K].i.gap < 0 || q.t[K].i.pres > 400 * q.t[K - 1].i.pres)); // otherwise the last iterate was rejected
  for (int i = 0; i <= (atLimit ? K : K - 1); i++) if (i != j && (mono || (i == K && atLimit)) && q.t[i].i.kapovert <= 1 && better(q.t[i].i, q.t[j].i)) { c.viol("lim/best", "%s: %s returns iterate %d of %d (gap %.3g pres %.3g dres %.3g), but iterate %d was better in every respect (gap %.3g pres %.3g dres %.3g; %s)", D.c_str(), codeName(R.code).c_str(), j, K, q.t[j].i.gap, q.t[j].i.pres, q.t[j].i.dres, i, q.t[i].i.gap, q.t[i].i.pres, q.t[i].i.dres, tag.c_str()); break; }
}
void limits(Ctx& c) {
  g_tau2_elsewhere = true;
  Rng& r = c.rng; Prob P = genAny(r); if (r.p(0.15)) P = genNasty(r, (int)r.i(0, NNASTY - 1)); if (r.p(0.003)) P = corpus((int)r.i(0, 15)); string D = P.describe();
  Tol T0; T0.feas = T0.abs = T0.rel = 1e-100; long M0 = r.p(0.8) ? 100 : r.i(20, 200);
  Run ref = traced(P, [&](pwork* w) { applyTol(w, T0); w->stgs->maxit = M0; }); if (!ref.ok) { c.viol("lim/setup", "%s: setup failed", D.c_str()); return; }
  checkBest(c, D, ref, M0, "tolerances out of reach"); int K = (int)ref.t.size() - 1; c.maxi("iterations", K); c.stat("reference ends with " + codeName(ref.R.code)); if (K < 0) return;
  int runs = c.thorough ? 8 : 4; string sg;
  for (int q = 0; q < runs; q++) {
    Tol T = q == 0 ? Tol() : randomTol(r); long mi = q == 0 ? 100 : r.p(0.6) ? r.i(0, K + 2) : r.i(0, 12); if (mi > M0) mi = M0; if (r.p(0.1)) { T.feas = T.abs = T.rel = 1e-100; } if (r.p(0.15)) { T.feasI = T.feas; T.absI = T.abs; T.relI = T.rel; }
    string tag = fmt("tolerances %.3g %.3g %.3g / %.3g %.3g %.3g limit %ld", T.feas, T.abs, T.rel, T.feasI, T.absI, T.relI, mi);
    Run u = traced(P, [&](pwork* w) { applyTol(w, T); w->stgs->maxit = mi; }); const Res& R = u.R; int k = (int)u.t.size() - 1; c.stat("limited solves"); c.stat("code " + codeName(R.code)); sg += codeName(R.code);
    if (!documented(R.code)) c.viol("lim/code", "%s: undocumented exit code %ld (%s)", D.c_str(), (long)R.code, tag.c_str());
    if (k > mi) c.viol("lim/iterations", "%s: %d iterations with %s", D.c_str(), k, tag.c_str()); if (R.info.iter > mi) c.viol("lim/iterations-reported", "%s: %ld iterations reported with %s", D.c_str(), (long)R.info.iter, tag.c_str());
    // limits and tolerances do not change the iterates
    int same = 0; while (same <= k && same <= K && sameInfo(u.t[same].i, ref.t[same].i)) same++; if (same <= k && same <= K) { c.viol("lim/trajectory", "%s: iterate %d depends on the limit or the tolerances (%s): gap %.17g instead of %.17g, pcost %.17g %.17g relgap %.17g %.17g mu %.17g %.17g pinfres %.17g %.17g dinfres %.17g %.17g", D.c_str(), same, tag.c_str(), u.t[same].i.gap, ref.t[same].i.gap, u.t[same].i.pcost, ref.t[same].i.pcost, u.t[same].i.relgap, ref.t[same].i.relgap, u.t[same].i.mu, ref.t[same].i.mu, u.t[same].i.pinfres, ref.t[same].i.pinfres, u.t[same].i.dinfres, ref.t[same].i.dinfres); continue; }
    checkBest(c, D, u, mi, tag);
    if ((R.code == 0 || R.code == 1 || R.code == 2) && T.feas >= 1e-9) { oracleOptimal(c, P, R, T, tag); oracleCert(c, P, R, T, tag); }   // the tolerances hold at the point itself, not only in the reported statistics
    // where it has to stop
    int e = -1, code = -99; bool amb = false; for (int i = 0; i <= K && e < 0; i++) { It t = ref.t[i]; if (fabs(t.dv + T.rel) < 1e-9 * T.rel || fabs(t.pv + T.rel) < 1e-9 * T.rel) amb = true; if (!(t.dv < -T.rel)) t.i.dinfres = NAN; if (!(t.pv < -T.rel)) t.i.pinfres = NAN; if (i == K && K < M0 && (ref.R.code == 0 || ref.R.code == 1 || ref.R.code == 2)) { bool a3 = false; e = i; code = criteria(t.i, t.tau, t.kap, T.feas, T.abs, T.rel, T.feas, &a3); if (code < 0 || a3) amb = true; break; } if (i == K && K < M0) { e = i; break; } /* the trajectory ends here anyway */ if (i > 0 && t.i.step == 1e-6 * 0.99) { e = i; break; }
      int v = criteria(t.i, t.tau, t.kap, T.feas, T.abs, T.rel, T.feas, &amb); if (v >= 0) { e = i; code = v; } else if (i == mi) e = i; }
    if (e < 0) e = (int)std::min<long>(K, mi); if (amb) { c.stat("too close to call"); continue; }
    if (k != e) c.viol(k > e ? "lim/stops-late" : "lim/stops-early", "%s: stops at iteration %d with %s, has to at %d%s (%s): gap %.4g relgap %.4g pres %.4g dres %.4g pinfres %.4g dinfres %.4g tau %.4g kappa %.4g costs %.6g %.6g certificate values %.6g %.6g there", D.c_str(), k, codeName(R.code).c_str(), e, code >= 0 ? (" with " + codeName(code)).c_str() : "", tag.c_str(), ref.t[e].i.gap, ref.t[e].i.relgap, ref.t[e].i.pres, ref.t[e].i.dres, ref.t[e].i.pinfres, ref.t[e].i.dinfres, ref.t[e].tau, ref.t[e].kap, ref.t[e].i.pcost, ref.t[e].i.dcost, ref.t[e].pv, ref.t[e].dv);
    else { c.stat("exits predicted"); bool last = e == K && K < M0; if (code >= 0 && R.code != code) c.viol("lim/verdict", "%s: ends with %s, the criteria for %s hold (%s)", D.c_str(), codeName(R.code).c_str(), codeName(code).c_str(), tag.c_str());
      if (code < 0) { // not solved to full accuracy: the reduced tolerances decide, then the reason
        bool a2 = false; int v = criteria(R.info, R.tau, R.kap, T.feasI, T.absI, T.relI, T.feas, &a2); if (a2) { c.stat("too close to call"); continue; }
        if (R.code == -7) continue; if (last && (R.code == 0 || R.code == 1 || R.code == 2)) { int v2 = criteria(R.info, R.tau, R.kap, T.feas, T.abs, T.rel, T.feas, &a2); if (v2 != R.code) c.viol("lim/verdict", "%s: ends with %s without meeting its criteria (%s)", D.c_str(), codeName(R.code).c_str(), tag.c_str()); continue; }
        if (v >= 0 && R.code != v + 10) c.viol("lim/reduced", "%s: ends with %s, the reduced criteria for %s hold (%s)", D.c_str(), codeName(R.code).c_str(), codeName(v + 10).c_str(), tag.c_str());
        if (v < 0 && R.code >= 0) c.viol("lim/reduced", "%s: ends with %s, but its reduced criteria do not hold (%s)", D.c_str(), codeName(R.code).c_str(), tag.c_str());
        if (R.code == -1 && e != mi) c.viol("lim/maxit-early", "%s: MAXIT after %d iterations (%s)", D.c_str(), e, tag.c_str());
        if (v < 0 && e == mi && !last && R.code != -1 && !(u.t[e].i.step == 1e-6 * 0.99) && !(e > 0 && (u.t[e].i.gap < 0 || u.t[e].i.pres > 400 * u.t[e - 1].i.pres))) c.viol("lim/maxit-verdict", "%s: ends with %s when the limit is reached (%s)", D.c_str(), codeName(R.code).c_str(), tag.c_str()); } }
    // a higher limit does not lose what a lower one had
    if (q && R.code >= 10 && T.feasI <= 1e-4 && mi < K) { c.stat("reduced verdicts at a low limit"); Run f = traced(P, [&](pwork* w) { applyTol(w, T); w->stgs->maxit = M0; }); if (f.R.code < 0) c.stat("reduced verdicts lost with a higher limit"); else if (f.R.code % 10 != R.code % 10) c.stat("reduced verdicts changed with a higher limit"); } }
  c.seen(hmix(P.sig(), hash64(sg.data(), sg.size()))); c.sample(D + " " + sg);
}
Reg r1("C11", limits);
// finite but extreme data and settings: the solve ends with a documented verdict within its limit
void extreme(Ctx& c) {
  Rng& r = c.rng; Prob P = r.p(0.3) ? genNasty(r, (int)r.i(0, NNASTY - 1)) : r.p(0.4) ? genEdge(r, (int)r.i(0, NEDGE - 1)) : genAny(r); string what;
  int t = (int)r.i(0, 7); auto all = [&](double pr, std::function<double(double)> f) { for (auto* v : {&P.G.pr, &P.A.pr, &P.c, &P.h, &P.b}) for (auto& e : *v) if (r.p(pr)) e = f(e); };
  switch (t) { case 0: rescaleRandom(r, P, r.u(4, 100)); what = "rescaled"; break; case 1: { double s = pow(10, r.u(-300, 300)); auto* v = r.p(0.5) ? &P.G.pr : r.p(0.5) ? &P.c : &P.h; for (auto& e : *v) e *= s; what = "one array scaled"; break; }
    case 2: all(0.1, [&](double) { return 0.0; }); what = "zeros"; break; case 3: all(0.05, [&](double e) { return e * pow(10, r.u(-150, 150)); }); what = "wild entries"; break; case 4: all(1, [&](double e) { return e * 1e-310; }); what = "subnormal"; break;
    case 5: all(0.05, [&](double) { return r.p(0.5) ? 1e308 : -1.7e308; }); what = "largest numbers"; break; case 6: all(0.3, [&](double) { return r.i(-1, 1); }); what = "small integers"; break; default: what = "as is"; }
  P.wellscaled = false; P.haveopt = false; long mi = r.p(0.5) ? 100 : r.i(0, 400), nit = r.p(0.5) ? 9 : r.i(0, 20); long bk = r.p(0.5) ? 90 : r.i(1, 200); double bs = r.p(0.5) ? 0.8 : r.u(0.05, 0.98), gam = r.p(0.6) ? 0.99 : r.u(0.05, 0.9999), cen = r.p(0.7) ? 1 : pow(10, r.u(-3, 3));
  string D = P.describe() + fmt(" %s limit %ld refinements %ld backtracks %ld scale %.3g gamma %.3g centrality %.3g", what.c_str(), mi, nit, bk, bs, gam, cen); UData U(P); pwork* w = setupProb(P, U); c.stat("extreme cases"); c.stat("data " + what); if (!w) { c.stat("rejected by setup"); c.seen(hmix(P.sig(), 1)); return; }
  w->stgs->maxit = mi; w->stgs->nitref = nit; w->stgs->max_bk_iter = bk; w->stgs->bk_scale = bs; w->stgs->gamma = gam; w->stgs->centrality = cen; if (r.p(0.3)) w->stgs->delta = pow(10, r.u(-12, -4)); if (r.p(0.3)) w->stgs->eps = pow(10, r.u(-16, -8));
  long its = 0, worstRef = 0, worstBk = 0; g_iter_hook = [&](pwork* v) { its++; if (its > 1) { worstRef = std::max<long>(worstRef, std::max(v->info->nitref1, std::max(v->info->nitref2, v->info->nitref3))); worstBk = std::max<long>(worstBk, v->info->cmbBack); } };
  string sg; for (int k = 0; k < (r.p(0.2) ? 2 : 1); k++) { its = 0; Res R = solveW(w); sg += codeName(R.code); c.stat("code " + codeName(R.code)); if (!documented(R.code)) c.viol("lim/code", "%s: undocumented exit code %ld", D.c_str(), (long)R.code); if (its - 1 > mi) c.viol("lim/iterations", "%s: %ld iterations", D.c_str(), its - 1); }
  g_iter_hook = nullptr; c.maxi("refinement steps over the limit", (double)(worstRef - nit)); if (worstRef > nit) c.viol("lim/refinement", "%s: %ld refinement steps", D.c_str(), worstRef); if (P.nex && worstBk > bk) c.viol("lim/backtracks", "%s: %ld backtracking steps", D.c_str(), worstBk);
  ECOS_cleanup(w, 0); c.seen(hmix(P.sig(), hash64(sg.data(), sg.size()))); c.sample(D + " " + sg);
}
Reg r2("C11ext", extreme);
// standard output of a function
string captured(const std::function<void()>& f) { static int fd = -1; if (fd < 0) fd = memfd_create("out", 0); fflush(stdout); int sv = dup(1); lseek(fd, 0, SEEK_SET); if (ftruncate(fd, 0)) {} dup2(fd, 1); f(); fflush(stdout); dup2(sv, 1); close(sv); off_t n = lseek(fd, 0, SEEK_END); string s(n, 0); if (n) { lseek(fd, 0, SEEK_SET); if (read(fd, &s[0], n) != n) s = "?"; } return s; }
struct Line { long it; double p, d; double v[5]; int n; }; // iteration, costs; gap, residuals, kappa/tau and mu
vector<Line> progress(const string& s) { vector<Line> o; size_t i = 0; // "%2d  %+5.3e  %+5.3e"
  auto isd = [](char ch) { return ch >= '0' && ch <= '9'; };
  while (i < s.size()) { if (isd(s[i]) && (i == 0 || s[i - 1] == '\n' || s[i - 1] == ' ' || s[i - 1] == 8)) { size_t j = i; while (j < s.size() && isd(s[j])) j++; if (s.compare(j, 2, "  ") == 0 && j + 2 < s.size() && (s[j + 2] == '+' || s[j + 2] == '-')) { const char* a = s.c_str() + j + 2; char* e; double p = strtod(a, &e); if (e != a && e[0] == ' ' && e[1] == ' ' && (e[2] == '+' || e[2] == '-')) { char* e2; double d = strtod(e + 2, &e2); if (e2 != e + 2) { Line l{atol(s.c_str() + i), p, d, {0}, 0}; l.n = sscanf(e2, "%lf %lf %lf %lf %lf", l.v, l.v + 1, l.v + 2, l.v + 3, l.v + 4); o.push_back(l); i = e2 - s.c_str(); continue; } } } i = j; } else i++; }
  return o; }
void output(Ctx& c) {
  Rng& r = c.rng;
  if (r.p(0.2)) { // mixed-integer
    MIP M = genMip(r, (int)(c.idx % NMIP), 0); BBOpt o; o.strat = (int)r.i(0, 4); o.sel = (int)r.i(0, 2); o.maxit = r.p(0.5) ? 200 : r.i(1, 20); string D = M.P.describe(); BBRes R[2];
    for (int v = 0; v < 2; v++) { BBData Dt(M, o); Dt.st.verbose = v; srand(1); string s = captured([&] { ecos_bb_pwork* w = setupBB(M, Dt, o); if (w) { if (v && r.p(0.5)) w->stgs->verbose = 1; R[v] = runBB(w); ECOS_BB_cleanup(w, 0); } });
      c.stat(v ? "mixed-integer solves with output" : "silent mixed-integer solves"); if (!v && s.size()) c.viol("out/bb-not-silent", "%s: prints although verbose is 0: %s", D.c_str(), s.substr(0, 60).c_str()); if (v && s.empty()) c.viol("out/bb-silent", "%s: prints nothing although verbose is 1", D.c_str()); }
    if (R[0].code != R[1].code || R[0].x != R[1].x) c.viol("out/bb-changes-result", "%s: %s silent, %s with output", D.c_str(), codeName(R[0].code).c_str(), codeName(R[1].code).c_str()); c.seen(hmix(M.P.sig(), 3)); return; }
  Prob P = genAny(r); if (r.p(0.2)) P = genNasty(r, (int)r.i(0, NNASTY - 1)); string D = P.describe(); long mi = r.p(0.7) ? 100 : r.i(0, 15); Tol T = r.p(0.6) ? Tol() : randomTol(r); Res R[2];
  for (int v = 0; v < 2; v++) { vector<stats> I; string s = captured([&] { UData U(P); pwork* w = setupProb(P, U, v == 0); if (!w) return; w->stgs->verbose = v; applyTol(w, T); w->stgs->maxit = mi; g_iter_hook = [&](pwork* q) { I.push_back(*q->info); }; R[v] = solveW(w); g_iter_hook = nullptr; ecos_updateDataEntry_h(w, 0, P.h[0]); ECOS_cleanup(w, 0); });
    if (!v) { c.stat("silent solves"); if (s.size()) c.viol("out/not-silent", "%s: prints although verbose is 0: %s", D.c_str(), s.substr(0, 60).c_str()); continue; }
    c.stat("solves with output"); string cn = codeName(R[1].code); vector<Line> L = progress(s); c.stat("progress lines", (double)L.size());
    bool fin = true; for (auto& i : I) if (!std::isfinite(i.pcost) || !std::isfinite(i.dcost)) fin = false; if (!fin) { c.stat("iterates not finite"); continue; }
    if (L.size() != I.size()) c.viol("out/lines", "%s: %zu progress lines for %zu iterates (%s)", D.c_str(), L.size(), I.size(), cn.c_str());
    else for (size_t k = 0; k < L.size(); k++) { auto bad = [](double a, double b) { return fabs(a - b) > 6e-4 * fabs(b) + 1e-300; }; if (L[k].it != (long)k || bad(L[k].p, I[k].pcost) || bad(L[k].d, I[k].dcost)) { c.viol("out/values", "%s: progress line %zu shows iteration %ld, costs %.4g and %.4g; they are %.4g and %.4g", D.c_str(), k, L[k].it, L[k].p, L[k].d, I[k].pcost, I[k].dcost); break; }
      double w[5] = {I[k].gap, I[k].pres, I[k].dres, I[k].kapovert, I[k].mu}; bool f = true; for (double v : w) f &= std::isfinite(v); if (f) { bool ok = L[k].n == 5; for (int t = 0; ok && t < 5; t++) ok = fabs(L[k].v[t] - w[t]) <= 0.51 * fabs(w[t]) + 1e-300; c.stat("progress columns compared", 5); if (!ok) { c.viol("out/columns", "%s: progress line %zu shows %g %g %g %g %g, the iterate has gap %g, residuals %g %g, kappa/tau %g, mu %g", D.c_str(), k, L[k].v[0], L[k].v[1], L[k].v[2], L[k].v[3], L[k].v[4], w[0], w[1], w[2], w[3], w[4]); break; } } }
    { size_t a = s.rfind("recovering best iterate ("); if (a != string::npos) { long b = atol(s.c_str() + a + 25); c.stat("recoveries announced"); if (b < 0 || b >= (long)I.size() || !(eq(I[b].pcost, R[1].info.pcost) && eq(I[b].gap, R[1].info.gap) && eq(I[b].pres, R[1].info.pres) && eq(I[b].dres, R[1].info.dres))) c.viol("out/recovered", "%s: announces that iterate %ld of %zu is recovered, which is not the one returned (%s)", D.c_str(), b, I.size(), cn.c_str()); }
      double f = -1, rl = -1, ab = -1; size_t q; const stats& J = R[1].info; auto near1 = [](double v, double w) { return v == w || fabs(v - w) <= 0.06 * fabs(w) || (!std::isfinite(v) && !std::isfinite(w)); }; const char* form = 0;
      if ((q = s.rfind("OPTIMAL (within feastol=")) != string::npos || (q = s.rfind("(reached feastol=")) != string::npos) { q = s.find("feastol=", q); if (sscanf(s.c_str() + q, "feastol=%lf, reltol=%lf, abstol=%lf", &f, &rl, &ab) == 3) { c.stat("announced accuracies"); if (!near1(f, std::max(J.pres, J.dres)) || !near1(rl, J.relgap) || !near1(ab, J.gap)) form = "residual, relative gap and gap"; } }
      else if ((q = s.rfind("INFEASIBLE (within feastol=")) != string::npos) { f = atof(s.c_str() + q + 27); c.stat("announced accuracies"); if (!near1(f, J.pinfres)) form = "residual"; } else if ((q = s.rfind("UNBOUNDED (within feastol=")) != string::npos) { f = atof(s.c_str() + q + 26); c.stat("announced accuracies"); if (!near1(f, J.dinfres)) form = "residual"; }
      if (form) c.viol("out/accuracy", "%s: %s: announces the %s %g %g %g; they are %g/%g, %g, %g (infeasibility %g %g)", D.c_str(), cn.c_str(), form, f, rl, ab, J.pres, J.dres, J.relgap, J.gap, J.pinfres, J.dinfres); }
    string m = exitMsg(R[1].code); if (m.size()) { if (s.find(m) == string::npos) c.viol("out/message", "%s: %s is not announced", D.c_str(), cn.c_str()); for (long k : {0L, 1L, 2L, 10L, 11L, 12L, -1L}) if (k != R[1].code && s.find(exitMsg(k)) != string::npos) c.viol("out/wrong-message", "%s: %s announced as %s", D.c_str(), cn.c_str(), codeName(k).c_str()); } }
  if (R[0].code != R[1].code || R[0].x != R[1].x || R[0].info.iter != R[1].info.iter) { bool nan = false; for (double v : R[0].x) if (std::isnan(v)) nan = true; if (!nan) c.viol("out/changes-result", "%s: %s silent, %s with output", D.c_str(), codeName(R[0].code).c_str(), codeName(R[1].code).c_str()); }
  if (c.idx == 0) { const char* v = ECOS_ver(); if (!v || strcmp(v, ECOS_VERSION)) c.viol("out/version", "ECOS_ver() returns %s, the header says %s", v ? v : "NULL", ECOS_VERSION); }
  c.seen(hmix(P.sig(), (uint64_t)mi)); c.sample(D + " " + codeName(R[1].code));
}
Reg r3("C11out", output);
}
