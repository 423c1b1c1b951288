// Independent recomputation of everything a solve reports.
#include "common.h"
static double* dupD(const dvec& v) { double* p = (double*)malloc(v.size() * sizeof(double) + (v.empty() ? 1 : 0)); if (v.size()) memcpy(p, v.data(), v.size() * sizeof(double)); vf_unpoison(p, v.size() * sizeof(double)); return p; }
static idxint* dupI(const ivec& v) { idxint* p = (idxint*)malloc(v.size() * sizeof(idxint) + (v.empty() ? 1 : 0)); if (v.size()) memcpy(p, v.data(), v.size() * sizeof(idxint)); vf_unpoison(p, v.size() * sizeof(idxint)); return p; }
void UData::fill(const Prob& P) {
  release(); Gpr = dupD(P.G.pr); Gjc = dupI(P.G.jc); Gir = dupI(P.G.ir); c = dupD(P.c); h = dupD(P.h); q = dupI(P.q);
  if (P.passA) { Apr = dupD(P.A.pr); Ajc = dupI(P.A.jc); Air = dupI(P.A.ir); b = dupD(P.b); }
}
void UData::release() { free(Gpr); free(Gjc); free(Gir); free(Apr); free(Ajc); free(Air); free(c); free(h); free(b); free(q); Gpr = Apr = c = h = b = 0; Gjc = Gir = Ajc = Air = q = 0; }
static string dcmp(const char* nm, const double* a, const dvec& b, double rt) {
  for (size_t i = 0; i < b.size(); i++) { double d = fabs(a[i] - b[i]); if (!(d <= rt * fabs(b[i]))) { if (a[i] == b[i]) continue; return fmt("%s[%zu] is %.17g, the user passed %.17g", nm, i, a[i], b[i]); } }
  return "";
}
string UData::diff(const Prob& P, double rt, bool onlyc) const {
  string s = dcmp("c", c, P.c, rt); if (s.size() || onlyc) return s;
  s = dcmp("Gpr", Gpr, P.G.pr, rt); if (s.size()) return s; s = dcmp("h", h, P.h, rt); if (s.size()) return s;
  if (P.passA) { s = dcmp("Apr", Apr, P.A.pr, rt); if (s.size()) return s; s = dcmp("b", b, P.b, rt); }
  return s;
}
string UData::diffIdx(const Prob& P) const {
  auto cmp = [](const char* nm, const idxint* a, const ivec& b) -> string { for (size_t i = 0; i < b.size(); i++) if (a[i] != b[i]) return fmt("%s[%zu] is %ld, the user passed %ld", nm, i, (long)a[i], (long)b[i]); return ""; };
  string s = cmp("Gjc", Gjc, P.G.jc); if (s.empty()) s = cmp("Gir", Gir, P.G.ir); if (s.empty()) s = cmp("q", q, P.q);
  if (P.passA) { if (s.empty()) s = cmp("Ajc", Ajc, P.A.jc); if (s.empty()) s = cmp("Air", Air, P.A.ir); }
  return s;
}
pwork* setupProb(const Prob& P, UData& U, bool quiet) {
  pwork* w = ECOS_setup(P.n, P.m, P.p, P.l, (idxint)P.q.size(), U.q, P.nex, U.Gpr, U.Gjc, U.Gir, U.Apr, U.Ajc, U.Air, U.c, U.h, U.b);
  if (w && quiet) w->stgs->verbose = getenv("VF_VERBOSE") ? 1 : 0;
  return w;
}
double sensitivity(const Prob& P, const Res& R) {
  auto nrm = [](const dvec& v) { double t = 0; for (double a : v) t += a * a; return sqrt(t); };
  return nrm(R.y) * std::max(1.0, nrm(P.b)) + nrm(R.z) * std::max(1.0, nrm(P.h)) + nrm(R.x) * std::max(1.0, nrm(P.c));
}
Res grab(pwork* w, idxint code) {
  Res R; R.code = code; R.x.assign(w->x, w->x + w->n); R.y.assign(w->y, w->y + w->p); R.z.assign(w->z, w->z + w->m); R.s.assign(w->s, w->s + w->m); R.tau = w->tau; R.kap = w->kap; R.info = *w->info;
#if defined EQUILIBRATE && EQUILIBRATE > 0
  R.xe.assign(w->xequil, w->xequil + w->n); R.Ae.assign(w->Aequil, w->Aequil + w->p); R.Ge.assign(w->Gequil, w->Gequil + w->m); return R;
#else
  R.xe.assign(w->n, 1); R.Ae.assign(w->p, 1); R.Ge.assign(w->m, 1); return R;
#endif
}
Res solveW(pwork* w) { idxint c = ECOS_solve(w); return grab(w, c); }
Res solveFresh(const Prob& P, std::function<void(pwork*)> tweak) {
  UData U(P); pwork* w = setupProb(P, U); Res R; if (!w) return R; if (tweak) tweak(w); R = solveW(w); ECOS_cleanup(w, 0); return R;
}
string codeName(idxint c) {
  switch (c) { case 0: return "OPTIMAL"; case 1: return "PINF"; case 2: return "DINF"; case 10: return "OPTIMAL_INACC"; case 11: return "PINF_INACC"; case 12: return "DINF_INACC"; case -1: return "MAXIT"; case -2: return "NUMERICS"; case -3: return "OUTCONE"; case -4: return "SIGINT"; case -7: return "FATAL"; }
  return fmt("code%ld", (long)c);
}
static ld nrm(const vector<ld>& v) { ld s = 0; for (auto x : v) s += x * x; return sqrtl(s); }
// relative distance to the boundary of the cone, per cone; negative = outside
static ld marg(const Prob& P, const dvec& s, bool dual) {
  ld worst = 1e30L; idxint k = 0;
  for (; k < P.l; k++) { ld v = s[k]; worst = std::min(worst, v); }
  for (auto d : P.q) { ld nn = 0; for (idxint i = 1; i < d; i++) nn += (ld)s[k + i] * s[k + i]; nn = sqrtl(nn); ld v = (ld)s[k] - nn, sc = std::max((ld)fabs(s[k]), nn); worst = std::min(worst, sc > 0 ? v / sc * std::min((ld)1, sc) : v); k += d; }
  for (idxint e = 0; e < P.nex; e++, k += 3) {
    ld a = s[k], b = s[k + 1], c = s[k + 2], v; ld sc = fabsl(a) + fabsl(b) + fabsl(c) + 1e-300L;
    if (!dual) { // y >= z e^{x/z}, z>0 : psi = z log(y/z) - x
      if (!(b > 0) || !(c > 0)) { v = std::min(b, c) ; // closure: z=0, y>=0, x<=0
        if (b >= 0 && c >= 0 && c == 0 && a <= 0) v = 0; else v = std::min(v, (ld)-1e-18L) - (c <= 0 && a > 0 ? a : 0); v /= sc; }
      else { ld psi = c * logl(b / c) - a; v = std::min(psi, std::min(b, c)) / sc; }
    } else {
      if (!(a < 0) || !(b > 0)) { v = std::min(-a, b); if (a == 0 && b >= 0 && c >= 0) v = 0; else v = std::min(v, (ld)-1e-18L) - (a >= 0 && c < 0 ? -c : 0); v /= sc; }
      else { ld psi = -a * logl(-b / a) - a + c; v = std::min(psi, std::min(-a, b)) / sc; }
    }
    worst = std::min(worst, v * std::min((ld)1, sc));
  }
  if (worst > 1e29L) worst = 0; return worst;
}
ld coneMarginPrimal(const Prob& P, const dvec& s) { return marg(P, s, false); }
ld coneMarginDual(const Prob& P, const dvec& z) { return marg(P, z, true); }
Met metrics(const Prob& P, const Res& R) {
  Met M; memset((void*)&M, 0, sizeof M); M.finite = true; const ld NaN = nanl("");
  for (auto* v : {&R.x, &R.y, &R.z, &R.s}) for (double t : *v) if (!std::isfinite(t)) M.finite = false;
  if (!std::isfinite(R.tau) || !std::isfinite(R.kap)) M.finite = false;
  idxint n = P.n, m = P.m, p = P.p;
  // user coordinates
  vector<ld> rx(n, 0), hx(n, 0), ax(p, 0), gx(m, 0); vector<ld> sgx(m);
  ld cx = 0, by = 0, hz = 0, sz = 0;
  for (idxint j = 0; j < n; j++) { cx += (ld)P.c[j] * R.x[j];
    for (idxint k = P.G.jc[j]; k < P.G.jc[j + 1]; k++) { gx[P.G.ir[k]] += (ld)P.G.pr[k] * R.x[j]; hx[j] += (ld)P.G.pr[k] * R.z[P.G.ir[k]]; }
    for (idxint k = P.A.jc[j]; k < P.A.jc[j + 1]; k++) { ax[P.A.ir[k]] += (ld)P.A.pr[k] * R.x[j]; hx[j] += (ld)P.A.pr[k] * R.y[P.A.ir[k]]; } }
  for (idxint i = 0; i < p; i++) by += (ld)P.b[i] * R.y[i];
  for (idxint i = 0; i < m; i++) { hz += (ld)P.h[i] * R.z[i]; sz += (ld)R.s[i] * R.z[i]; sgx[i] = gx[i] + R.s[i]; }
  auto N = [](const dvec& v) { ld s = 0; for (double t : v) s += (ld)t * t; return sqrtl(s); };
  {
    vector<ld> a(p), g(m), d(n); for (idxint i = 0; i < p; i++) a[i] = ax[i] - P.b[i]; for (idxint i = 0; i < m; i++) g[i] = sgx[i] - P.h[i]; for (idxint j = 0; j < n; j++) d[j] = hx[j] + P.c[j];
    M.upr_eq = p ? nrm(a) / (1 + N(P.b) + N(R.x)) : 0; M.upr_in = m ? nrm(g) / (1 + N(P.h) + N(R.x) + N(R.s)) : 0; M.udr = nrm(d) / (1 + N(P.c) + N(R.y) + N(R.z));
    M.upc = cx; M.udc = -by - hz; M.ugap = fabsl(M.upc - M.udc); M.smargin = marg(P, R.s, false); M.zmargin = marg(P, R.z, true);
    ld nyz = std::max((ld)1e-300L, sqrtl(N(R.y) * N(R.y) + N(R.z) * N(R.z))); M.cert_pinf_val = (by + hz) / nyz; M.cert_pinf_res = nrm(hx) / nyz;
    ld nxs = std::max((ld)1e-300L, N(R.x)); M.cert_dinf_val = cx / nxs; M.cert_dinf_res = sqrtl(nrm(ax) * nrm(ax) + nrm(sgx) * nrm(sgx)) / std::max(nxs, N(R.s));
  }
  // equilibrated coordinates, un-homogenised (divided by tau) as returned
  if ((idxint)R.xe.size() == n && (idxint)R.Ge.size() == m) {
    ld t = R.tau; vector<ld> xs(n), ys(p), zs(m), ss(m);
    for (idxint j = 0; j < n; j++) xs[j] = (ld)R.x[j] * R.xe[j]; for (idxint i = 0; i < p; i++) ys[i] = (ld)R.y[i] * R.Ae[i];
    for (idxint i = 0; i < m; i++) { zs[i] = (ld)R.z[i] * R.Ge[i]; ss[i] = (ld)R.s[i] / R.Ge[i]; }
    vector<ld> hrx(n), hry(p), hrz(m), rx2(n), ry2(p), rz2(m); ld nc = 0, nb = 0, nh = 0;
    for (idxint j = 0; j < n; j++) { ld cj = (ld)P.c[j] / R.xe[j]; nc += cj * cj; hrx[j] = hx[j] / R.xe[j]; rx2[j] = hrx[j] + cj; }
    for (idxint i = 0; i < p; i++) { ld bi = (ld)P.b[i] / R.Ae[i]; nb += bi * bi; hry[i] = ax[i] / R.Ae[i]; ry2[i] = hry[i] - bi; }
    for (idxint i = 0; i < m; i++) { ld hi = (ld)P.h[i] / R.Ge[i]; nh += hi * hi; hrz[i] = sgx[i] / R.Ge[i]; rz2[i] = hrz[i] - hi; }
    ld rx0 = std::max((ld)1, sqrtl(nc)), ry0 = std::max((ld)1, sqrtl(nb)), rz0 = std::max((ld)1, sqrtl(nh));
    ld nx = t * nrm(xs), ny = t * nrm(ys), nz = t * nrm(zs), ns = t * nrm(ss);
    ld nry = p ? t * nrm(ry2) / std::max(ry0 + nx, (ld)1) : 0, nrz = t * nrm(rz2) / std::max(rz0 + nx + ns, (ld)1);
    M.pres = std::max(nry, nrz) / t; M.dres = nrm(rx2) / std::max(rx0 + ny + nz, (ld)1);
    ld g = 0; for (idxint i = 0; i < m; i++) g += zs[i] * ss[i];
    M.gap = g; M.pcost = cx; M.dcost = -by - hz;   // gap of the returned point
    M.relgapdef = true; if (M.pcost < 0) M.relgap = M.gap / -M.pcost; else if (M.dcost > 0) M.relgap = M.gap / M.dcost; else { M.relgapdef = false; M.relgap = NaN; }
    // relative to the certificate, hence independent of its scale
    M.pinfval = t * (hz + by) / (ny + nz); M.dinfval = t * cx / nx;
    M.pinfres = t * nrm(hrx) / (ny + nz); M.dinfres = std::max(t * nrm(hry) / nx, t * nrm(hrz) / (nx + ns));
  }
  return M;
}
