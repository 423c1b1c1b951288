// Oracles shared by several checks: what an optimality verdict, a certificate and the statistics must satisfy.
#include "common.h"
#include "oracle.h"
Tol tolOf(const pwork* w) { Tol t; t.feas = w->stgs->feastol; t.abs = w->stgs->abstol; t.rel = w->stgs->reltol; t.feasI = w->stgs->feastol_inacc; t.absI = w->stgs->abstol_inacc; t.relI = w->stgs->reltol_inacc; return t; }
Tol randomTol(Rng& r) { Tol t; if (r.p(0.3)) return t; t.feas = pow(10, r.u(-9, -3)); t.abs = pow(10, r.u(-9, -3)); t.rel = pow(10, r.u(-9, -3)); if (r.p(0.5)) { t.feasI = std::max(t.feas, pow(10, r.u(-5, -2))); t.absI = std::max(t.abs, pow(10, r.u(-5, -2))); t.relI = std::max(t.rel, pow(10, r.u(-5, -2))); } else { t.feasI = std::max(t.feas, t.feasI); t.absI = std::max(t.abs, t.absI); t.relI = std::max(t.rel, t.relI); } return t; }
void applyTol(pwork* w, const Tol& t) { w->stgs->feastol = t.feas; w->stgs->abstol = t.abs; w->stgs->reltol = t.rel; w->stgs->feastol_inacc = t.feasI; w->stgs->abstol_inacc = t.absI; w->stgs->reltol_inacc = t.relI; }
bool g_tau2_elsewhere = false;   // the gap over tau^2 is the subject of C01/C04
static const ld SL = 1.001L, NZ = 1e-11L;
// noise floor of a residual in the solver's scaling: everything is computed in double from these magnitudes
void oracleOptimal(Ctx& c, const Prob& P, const Res& R, const Tol& T, const string& tag) {
  bool inacc = R.code == 10; if (R.code != 0 && !inacc) return;
  ld ft = inacc ? T.feasI : T.feas, at = inacc ? T.absI : T.abs, rt = inacc ? T.relI : T.rel; const char* v = inacc ? "inacc" : "full"; auto D = P.describe();
  Met M = metrics(P, R); c.stat(string("optimality verdicts/") + v);
  if (!M.finite) { c.viol(string("opt/notfinite/") + v, "%s: optimal but the returned point is not finite (%s)", D.c_str(), tag.c_str()); return; }
  if (!(R.tau > 0)) c.viol("opt/tau", "%s: optimal with tau=%g", D.c_str(), R.tau);
  if (!(M.pres <= ft * SL + NZ)) c.viol(string("opt/pres/") + v, "%s: optimal, but the primal residual is %.4Lg > %.4Lg (%s)", D.c_str(), M.pres, ft, tag.c_str());
  if (!(M.dres <= ft * SL + NZ)) c.viol(string("opt/dres/") + v, "%s: optimal, but the dual residual is %.4Lg > %.4Lg (%s)", D.c_str(), M.dres, ft, tag.c_str());
  ld t2 = (ld)R.tau * R.tau; bool okTrue = M.gap <= at * SL + NZ || (M.relgapdef && M.relgap <= rt * SL + NZ), okHom = M.gap * t2 <= at * SL + NZ || (M.relgapdef && M.relgap * t2 <= rt * SL + NZ);
  if (!okHom) c.viol(string("opt/gap/") + v, "%s: optimal, but the duality gap is %.4Lg (relative %.4Lg, tau %g) with tolerances %.4Lg / %.4Lg (%s)", D.c_str(), M.gap, M.relgap, R.tau, at, rt, tag.c_str());
  else if (!okTrue && !g_tau2_elsewhere) { c.viol(string("opt/gap-not-over-tau2/") + v, "%s: optimal, but the duality gap of the point is %.4Lg (relative %.4Lg, tau %g) with tolerances %.4Lg / %.4Lg", D.c_str(), M.gap, M.relgap, R.tau, at, rt); }
  // objectives agree: the difference is the complementarity gap plus what the residuals contribute
  { // |c'x + b'y + h'z| <= s'z + |y'(Ax-b)| + |z'(Gx+s-h)| + |x'(A'y+G'z+c)|, evaluated in the solver's scaling
    ld xn = 0, yn = 0, zn = 0, cn = 0, bn = 0, hn = 0; for (idxint j = 0; j < P.n; j++) { ld t = (ld)R.x[j] * R.xe[j]; xn += t * t; t = (ld)P.c[j] / R.xe[j]; cn += t * t; }
    ld sn = 0; for (idxint i = 0; i < P.p; i++) { ld t = (ld)R.y[i] * R.Ae[i]; yn += t * t; t = (ld)P.b[i] / R.Ae[i]; bn += t * t; }
    for (idxint i = 0; i < P.m; i++) { ld t = (ld)R.z[i] * R.Ge[i]; zn += t * t; t = (ld)P.h[i] / R.Ge[i]; hn += t * t; t = (ld)R.s[i] / R.Ge[i]; sn += t * t; }
    xn = sqrtl(xn); yn = sqrtl(yn); zn = sqrtl(zn); sn = sqrtl(sn); cn = sqrtl(cn); bn = sqrtl(bn); hn = sqrtl(hn);
    ld py = ft * (1 + bn + xn), pz = ft * (1 + hn + xn + sn), px = ft * (1 + cn + yn + zn); ld bound = (M.gap + yn * py + zn * pz + xn * px) * 1.01L + 1e-9L * (1 + fabsl(M.pcost) + fabsl(M.dcost));
    if (!(M.ugap <= bound)) c.viol(string("opt/objectives/") + v, "%s: optimal, but primal objective %.10Lg and dual objective %.10Lg differ by more than %.3Lg (%s)", D.c_str(), M.upc, M.udc, bound, tag.c_str()); }
  if (!(M.smargin >= -1e-9L)) c.viol("opt/s-cone", "%s: optimal, but s leaves its cone by %.3Lg (%s)", D.c_str(), M.smargin, tag.c_str());
  if (!(M.zmargin >= -1e-9L)) c.viol("opt/z-cone", "%s: optimal, but z leaves the dual cone by %.3Lg (%s)", D.c_str(), M.zmargin, tag.c_str());
  if (!inacc) { c.maxi("full: primal residual/feastol", (double)(M.pres / ft)); c.maxi("full: dual residual/feastol", (double)(M.dres / ft)); c.maxi("full: user primal residual/feastol", (double)(std::max(M.upr_eq, M.upr_in) / ft)); c.maxi("full: user dual residual/feastol", (double)(M.udr / ft));
    if (P.wellscaled) { c.maxi("full: wellscaled user primal residual/feastol", (double)(std::max(M.upr_eq, M.upr_in) / ft)); c.maxi("full: wellscaled user dual residual/feastol", (double)(M.udr / ft)); }
    c.maxi("full: -min s margin", (double)-M.smargin); c.maxi("full: -min z margin", (double)-M.zmargin); }
  // in the user's own units
  ld k = 200;
  if (P.wellscaled) {
    if (!(std::max(M.upr_eq, M.upr_in) <= k * ft + 1e-9L)) c.viol(string("opt/user-pres/") + v, "%s: optimal, but the constraints of the user are violated by %.3Lg (relative; %s)", D.c_str(), std::max(M.upr_eq, M.upr_in), tag.c_str());
    if (!(M.udr <= k * ft + 1e-9L)) c.viol(string("opt/user-dres/") + v, "%s: optimal, but dual stationarity of the user's data is violated by %.3Lg (relative; %s)", D.c_str(), M.udr, tag.c_str());
  }
  if (P.haveopt && P.wellscaled && !inacc) { // known optimum
    ld e = fabsl(M.upc - P.opt) / (1 + fabsl((ld)P.opt)); ld lim = 2e-5L + 2e3L * std::max(ft, std::max(at, rt)) ; c.stat("optimality verdicts compared with a known optimum"); if (T.feas <= 1e-8 && T.abs <= 1e-8 && T.rel <= 1e-8) c.maxi("error against known optimum", (double)e);
    if (!(e <= lim)) c.viol("opt/known-optimum", "%s: optimal with cost %.12Lg, the optimal value is %.12g (%s)", D.c_str(), M.upc, P.opt, tag.c_str());
  }
}
void oracleCert(Ctx& c, const Prob& P, const Res& R, const Tol& T, const string& tag) {
  bool inacc = R.code == 11 || R.code == 12; bool pin = R.code == 1 || R.code == 11, din = R.code == 2 || R.code == 12; if (!pin && !din) return;
  auto D = P.describe(); Met M = metrics(P, R); const char* v = inacc ? "inacc" : "full"; ld ft = inacc ? T.feasI : T.feas;
  c.stat(string(pin ? "infeasible" : "unbounded") + " verdicts/" + v);
  if (!M.finite) { c.viol(string("cert/notfinite/") + v, "%s: %s but the returned point is not finite", D.c_str(), codeName(R.code).c_str()); return; }
  if (!(R.kap > R.tau) && !(R.kap < ft && R.tau < ft && R.tau > 0)) c.viol("cert/tau", "%s: %s but tau=%g >= kappa=%g", D.c_str(), codeName(R.code).c_str(), R.tau, R.kap);
  if (pin) {
    if (!(M.pinfval < 0)) c.viol(string("cert/p-value/") + v, "%s: infeasible, but b'y+h'z = %.4Lg is not negative (%s)", D.c_str(), M.cert_pinf_val, tag.c_str());
    else if (!(M.pinfres <= ft * SL + NZ)) c.viol(string("cert/p-res/") + v, "%s: infeasible, but |A'y+G'z| / |(y,z)| = %.4Lg > %.4Lg (%s)", D.c_str(), M.pinfres, ft, tag.c_str());
    if (!(M.zmargin >= -1e-9L)) c.viol("cert/z-cone", "%s: infeasible, but z leaves the dual cone by %.3Lg (%s)", D.c_str(), M.zmargin, tag.c_str());
    if (P.primalfeas && P.wellscaled && (inacc || T.feas > 1e-6 || T.rel > 1e-6)) c.stat("loose certificates of feasible problems"); else if (P.primalfeas && P.wellscaled) c.viol(string("cert/feasible-called-infeasible/") + v, "%s: reported infeasible, but it has a strictly feasible point (%s)", D.c_str(), tag.c_str());
    if (!inacc) { c.maxi("infeasible: residual/feastol", (double)(M.pinfres / ft)); if (P.wellscaled && P.expect == 1 && T.feas <= 1e-8 && M.cert_pinf_res > 1e-3L * -M.cert_pinf_val) c.viol("cert/p-user", "%s: infeasible, but |A'y+G'z| is %.3Lg times -(b'y+h'z) in the user's units (%s)", D.c_str(), M.cert_pinf_res / -M.cert_pinf_val, tag.c_str()); if (P.wellscaled && T.feas <= 1e-8) { c.maxi("infeasible: user residual over value", (double)(M.cert_pinf_res / -M.cert_pinf_val)); } }
  } else {
    if (!(M.dinfval < 0)) c.viol(string("cert/d-value/") + v, "%s: unbounded, but c'x = %.4Lg is not negative (%s)", D.c_str(), M.cert_dinf_val, tag.c_str());
    else if (!(M.dinfres <= ft * SL + NZ)) c.viol(string("cert/d-res/") + v, "%s: unbounded, but max(|Ax|,|Gx+s|) / |(x,s)| = %.4Lg > %.4Lg (%s)", D.c_str(), M.dinfres, ft, tag.c_str());
    if (!(M.smargin >= -1e-9L)) c.viol("cert/s-cone", "%s: unbounded, but s leaves the cone by %.3Lg (%s)", D.c_str(), M.smargin, tag.c_str());
    if (P.dualfeas && P.wellscaled && (inacc || T.feas > 1e-6 || T.rel > 1e-6)) c.stat("loose certificates of feasible problems"); else if (P.dualfeas && P.wellscaled) c.viol(string("cert/bounded-called-unbounded/") + v, "%s: reported unbounded, but its dual has a strictly feasible point (%s)", D.c_str(), tag.c_str());
    if (!inacc) { c.maxi("unbounded: residual/feastol", (double)(M.dinfres / ft)); if (P.wellscaled && P.expect == 2 && T.feas <= 1e-8 && M.cert_dinf_res > 1e-3L * -M.cert_dinf_val) c.viol("cert/d-user", "%s: unbounded, but |(Ax,Gx+s)| is %.3Lg times -c'x in the user's units (%s)", D.c_str(), M.cert_dinf_res / -M.cert_dinf_val, tag.c_str()); if (P.wellscaled && T.feas <= 1e-8) { c.maxi("unbounded: user residual over value", (double)(M.cert_dinf_res / -M.cert_dinf_val)); } }
  }
}
static bool near_(ld a, ld b, ld rel, ld abs) { return fabsl(a - b) <= rel * std::max(fabsl(a), fabsl(b)) + abs; }
// the statistics must be those of the point; the magnitudes bound the rounding error of an evaluation in double
void oracleStats(Ctx& c, const Prob& P, const Res& R, const string& tag, long maxit) {
  const stats& I = R.info; auto D = P.describe(); string cn = codeName(R.code); Met M = metrics(P, R);
  if (maxit >= 0 && I.iter > maxit) c.viol("stats/iter-limit", "%s: %s after %ld iterations, the limit is %ld (%s)", D.c_str(), cn.c_str(), (long)I.iter, maxit, tag.c_str());
  if (I.iter < 0) c.viol("stats/iter-negative", "%s: %ld iterations", D.c_str(), (long)I.iter);
#if PROFILING > 0
  if (!(std::isfinite(I.tsetup) && I.tsetup >= 0 && std::isfinite(I.tsolve) && I.tsolve >= 0)) c.viol("stats/times", "%s: setup time %g, solve time %g", D.c_str(), I.tsetup, I.tsolve);
#endif
  bool pin = R.code == 1 || R.code == 11, din = R.code == 2 || R.code == 12;
  if (pin && !I.pinf) c.viol("stats/pinf-flag", "%s: %s but the infeasibility flag is not set (%s)", D.c_str(), cn.c_str(), tag.c_str());
  if (din && !I.dinf) c.viol("stats/dinf-flag", "%s: %s but the unboundedness flag is not set (%s)", D.c_str(), cn.c_str(), tag.c_str());
  if (!pin && I.pinf) c.viol("stats/pinf-flag-stale", "%s: %s but the infeasibility flag is set (%s)", D.c_str(), cn.c_str(), tag.c_str());
  if (!din && I.dinf) c.viol("stats/dinf-flag-stale", "%s: %s but the unboundedness flag is set (%s)", D.c_str(), cn.c_str(), tag.c_str());
  if (!M.finite) { c.stat("points that are not finite/" + cn); if (R.code >= 0) c.viol("stats/notfinite", "%s: %s with a point that is not finite", D.c_str(), cn.c_str()); return; }
  c.stat("points compared/" + cn);
  ld ac = 0, ad = 0, ag = 0, xs = 0, ys = 0; ld t = R.tau, nx = 0, nyz = 0, ns = 0, mG = 0;
  for (idxint j = 0; j < P.n; j++) { ac += fabsl((ld)P.c[j] * R.x[j]); ld v = (ld)R.x[j] * R.xe[j]; nx += v * v; }
  for (idxint i = 0; i < P.p; i++) { ad += fabsl((ld)P.b[i] * R.y[i]); ld v = (ld)R.y[i] * R.Ae[i]; nyz += v * v; }
  for (idxint i = 0; i < P.m; i++) { ad += fabsl((ld)P.h[i] * R.z[i]); ag += fabsl((ld)R.s[i] * R.z[i]); ld v = (ld)R.z[i] * R.Ge[i]; nyz += v * v; v = (ld)R.s[i] / R.Ge[i]; ns += v * v; }
  nx = sqrtl(nx); nyz = sqrtl(nyz); ns = sqrtl(ns); (void)xs; (void)ys;
  for (idxint j = 0; j < P.n; j++) { for (idxint k = P.G.jc[j]; k < P.G.jc[j + 1]; k++) mG = std::max(mG, fabsl((ld)P.G.pr[k] / R.Ge[P.G.ir[k]] / R.xe[j])); for (idxint k = P.A.jc[j]; k < P.A.jc[j + 1]; k++) mG = std::max(mG, fabsl((ld)P.A.pr[k] / R.Ae[P.A.ir[k]] / R.xe[j])); }
  const ld E = 1e-11L, N = (ld)(P.n + P.m + P.p + 8);
  auto dev = [&](const char* nm, ld got, ld want, ld abs) {
    ld d = fabsl(got - want); if (std::isfinite((double)got)) { ld s = std::max(fabsl(want), abs); if (s > 0 && std::isfinite((double)d)) c.maxi(string("deviation/tolerance of ") + nm, (double)(d / (1e-6L * fabsl(want) + abs + 1e-300L))); }
    if (!near_(got, want, 1e-6L, abs) || std::isnan((double)got)) c.viol(string("stats/") + nm + "/" + (R.code >= 0 ? "solved" : "failed"), "%s: %s reports %s=%.10Lg, but for the point returned it is %.10Lg (tau %g, kappa %g; %s)", D.c_str(), cn.c_str(), nm, got, want, R.tau, R.kap, tag.c_str()); };
  dev("pcost", I.pcost, M.pcost, E * ac + 1e-300L); dev("dcost", I.dcost, M.dcost, E * ad + 1e-300L);
  ld t2 = t * t, ga = E * ag;
  bool gTrue = near_(I.gap, M.gap, 1e-6L, ga), gHom = near_(I.gap, M.gap * t2, 1e-6L, ga * t2);
  if (!gTrue && gHom) { if (!g_tau2_elsewhere) c.viol("stats/gap-not-over-tau2", "%s: %s reports gap=%.6g, but s'z of the point returned is %.6Lg (tau %g)", D.c_str(), cn.c_str(), I.gap, M.gap, R.tau); }
  else if (!gTrue) dev("gap", I.gap, M.gap, ga);
  // relative gap: the reported gap over the reported cost
  { ld want; bool def = true; if (I.pcost < 0) want = (ld)I.gap / -(ld)I.pcost; else if (I.dcost > 0) want = (ld)I.gap / I.dcost; else { def = false; want = 0; }
    if (def) { if (!(near_(I.relgap, want, 1e-6L, 0)) && !(std::isinf((double)want) && std::isinf(I.relgap))) c.viol("stats/relgap", "%s: %s reports relgap=%.8g, gap over cost is %.8Lg (pcost %g dcost %g; %s)", D.c_str(), cn.c_str(), I.relgap, want, I.pcost, I.dcost, tag.c_str()); }
    else if (!std::isnan(I.relgap)) c.viol("stats/relgap-defined", "%s: %s reports relgap=%g although neither cost has the right sign (pcost %g dcost %g)", D.c_str(), cn.c_str(), I.relgap, I.pcost, I.dcost); }
  ld u = 2.3e-16L * N * 8;   // residuals: rounding error of sparse products, relative to what the residual is divided by
  dev("pres", I.pres, M.pres, u * (1 + mG) * (1 + 1 / t)); dev("dres", I.dres, M.dres, u * (1 + mG) * (1 + 1 / t));
  dev("kapovert", I.kapovert, (ld)R.kap / R.tau, 0);
  // certificates' residuals: reported exactly when the value is negative enough
  auto inf = [&](const char* nm, double got, ld val, ld want, ld noise) {
    if (std::isnan(got)) { c.stat(string(nm) + " undefined"); if (val < -1e-2L - noise) c.viol(string("stats/") + nm + "-missing", "%s: %s does not report %s although the certificate value is %.4Lg (%s)", D.c_str(), cn.c_str(), nm, val, tag.c_str()); return; }
    c.stat(string(nm) + " defined"); if (val > 1e-11L * (1 + mG) + noise) c.viol(string("stats/") + nm + "-bogus", "%s: %s reports %s=%g although the certificate value %.4Lg is not negative (%s)", D.c_str(), cn.c_str(), nm, got, val, tag.c_str()); else dev(nm, got, want, u * (1 + mG)); };
  inf("pinfres", I.pinfres, M.pinfval, M.pinfres, E * ad / (nyz + 1e-300L)); inf("dinfres", I.dinfres, M.dinfval, M.dinfres, E * ac / (nx + 1e-300L));
}
