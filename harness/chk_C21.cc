// C21: every iterate lies strictly inside its cones, the complementarity measure does not blow up, and the linear systems behind the search directions are solved.
#include "common.h"
#include "oracle.h"
extern "C" {
#include "cone.h"
#include "kkt.h"
}
typedef vector<ld> lvec;
static ld n2(const lvec& v) { ld s = 0; for (ld x : v) s += x * x; return sqrtl(s); }
struct Snap { bool have = false; long it = -1; dvec x, y, z, s; ld tau, kap, mu; lvec rx, ry, rz; ld rt; };
static void mulv(const spmat* A, const double* x, lvec& o, ld sgn) { if (A) for (idxint j = 0; j < A->n; j++) for (idxint q = A->jc[j]; q < A->jc[j + 1]; q++) o[A->ir[q]] += sgn * (ld)A->pr[q] * x[j]; }
static void mult(const spmat* A, const double* y, lvec& o, ld sgn) { if (A) for (idxint j = 0; j < A->n; j++) { ld t = 0; for (idxint q = A->jc[j]; q < A->jc[j + 1]; q++) t += (ld)A->pr[q] * y[A->ir[q]]; o[j] += sgn * t; } }
static ld expRes(const double* s) { // >0 iff inside the primal cone
  ld a = s[0], b = s[1], c = s[2]; if (!(b > 0) || !(c > 0)) return -1; ld l = c * logl(b / c) - a; return l / (fabsl(a) + fabsl(c * logl(b / c)) + c); }
static ld expDual(const double* z) { ld a = z[0], b = z[1], c = z[2]; if (!(a < 0) || !(b > 0)) return -1; ld l = -a * logl(-b / a) + 0 * c; ld r = c - a + l * 1; (void)r; ld t = -a * logl(-b / a) - a + c; return t / (fabsl(a) + fabsl(a * logl(-b / a)) + fabsl(c)); }
static ld sysRes(pwork* w, const double* dx, const double* dy, const double* dz, const lvec& V, ld cc, ld bb, ld* rel) { // residual of [0 A' G'; A 0 0; G 0 -W^2] (dx,dy,dz) = (-cc c, bb b, bb h)
  lvec e1(w->n), e2(w->p, 0), e3(w->m); cone* C = w->C; for (idxint i = 0; i < w->n; i++) e1[i] = -cc * w->c[i]; mult(w->A, dy, e1, -1); mult(w->G, dz, e1, -1); for (idxint i = 0; i < w->p; i++) e2[i] = bb * w->b[i]; mulv(w->A, dx, e2, -1); for (idxint i = 0; i < w->m; i++) e3[i] = bb * w->h[i] + V[i]; mulv(w->G, dx, e3, -1);
  ld bn2 = 1, sol = 0; for (idxint i = 0; i < w->n; i++) { bn2 = std::max(bn2, fabsl(w->c[i])); sol = std::max(sol, fabsl(dx[i])); } for (idxint i = 0; i < w->p; i++) { bn2 = std::max(bn2, fabsl(w->b[i])); sol = std::max(sol, fabsl(dy[i])); } for (idxint i = 0; i < w->m; i++) { bn2 = std::max(bn2, fabsl(w->h[i])); sol = std::max(sol, fabsl(dz[i])); }
  // of the system itself, or of the one with the static regularisation (in the solver, the last entries of second-order cones have it with the other sign while refining)
  const ld dl = DELTASTAT; ld e0 = 0, eR = 0, eQ = 0; auto up = [](ld& m, ld v) { if (!(fabsl(v) <= m)) m = fabsl(v); }; for (idxint i = 0; i < w->n; i++) { up(e0, e1[i]); up(eR, e1[i] - dl * dx[i]); up(eQ, e1[i] - dl * dx[i]); } for (idxint i = 0; i < w->p; i++) { up(e0, e2[i]); up(eR, e2[i] + dl * dy[i]); up(eQ, e2[i] + dl * dy[i]); } vector<char> last(w->m, 0); { idxint o = C->lpc->p; for (idxint l = 0; l < C->nsoc; l++) { o += C->soc[l].p; last[o - 1] = 1; } } for (idxint i = 0; i < w->m; i++) { up(e0, e3[i]); up(eR, e3[i] + dl * dz[i]); up(eQ, e3[i] + (last[i] ? -dl : dl) * dz[i]); }
  if (rel) *rel = bn2; return std::min(e0, std::min(eR, eQ)) / bn2; }
static bool m_ok(int b) { return b <= 2; }
static void centrality(pwork* w, const Snap& p, const Snap& q, double g, ld& cen, ld& share) { // of the point that the line search judged: the step before it was shortened by g
  cone* C = w->C; lvec s(w->m), z(w->m); ld mu = 0; for (idxint i = 0; i < w->m; i++) { s[i] = p.s[i] + ((ld)q.s[i] - p.s[i]) / g; z[i] = p.z[i] + ((ld)q.z[i] - p.z[i]) / g; mu += s[i] * z[i]; }
  ld tau = p.tau + (q.tau - p.tau) / g, kap = p.kap + (q.kap - p.kap) / g; mu = (mu + tau * kap) / (w->D + 1); ld B = -logl(tau) - logl(kap); idxint o = C->lpc->p; for (idxint i = 0; i < o; i++) B -= logl(s[i]) + logl(z[i]);
  for (idxint l = 0; l < C->nsoc; l++) { ld ns = 0, nz = 0; for (idxint j = 1; j < C->soc[l].p; j++) { ns += s[o + j] * s[o + j]; nz += z[o + j] * z[o + j]; } ns = sqrtl(ns); nz = sqrtl(nz); B -= 0.5L * (logl(s[o] - ns) + logl(s[o] + ns) + logl(z[o] - nz) + logl(z[o] + nz)); o += C->soc[l].p; }
  B -= w->D + 1; share = INFINITY; // f(s) of an exponential cone is -3 minus the dual barrier's conjugate value; the constants of the symmetric cones make up for their degree
  for (idxint e = 0; e < C->nexc; e++, o += 3) { ld u = z[o], v = z[o + 1], t = z[o + 2], x = s[o], y = s[o + 1], r = s[o + 2]; B -= logl(t - u - u * logl(-v / u)) + logl(-u) + logl(v); ld a = 1 - x / r - logl(r) + logl(y), om = std::max(1.0L, a - logl(std::max(1.0L, a))); for (int i = 0; i < 60; i++) { ld d = (om + logl(om) - a) / (1 + 1 / om); om -= d; if (!(om > 0)) om = 1e-3L; if (!(fabsl(d) > 1e-18L * om)) break; } B -= logl((om - 1) * (om - 1) / om) + 2 * logl(r) + logl(y) + 3; share = std::min(share, (x * u + y * v + r * t) / 3 / mu); }
  cen = B + (w->D + 1) * logl(mu) + w->D + 1; }
struct Mon { Ctx& c; string D, cls, pend; long pendIt = -1; bool well = false; int lastB = 3; Snap p; long it = 0; Mon(Ctx& c_) : c(c_) {}
  ld muMin = INFINITY;
  void operator()(pwork* w) {
    stats* I = w->info; it++; cone* C = w->C; const char* D_ = D.c_str(); long k = I->iter; bool minstep = k > 0 && I->step == STEPMIN * w->stgs->gamma; if (k == 0) { p.have = false; muMin = INFINITY; pendIt = -1; pend.clear(); }
    // interior
    string out; ld worst = INFINITY, ms = 0, mz = 0; ld own = INFINITY; bool lin = false; for (idxint i = 0; i < w->m; i++) { ms = std::max(ms, fabsl((ld)w->s[i])); mz = std::max(mz, fabsl((ld)w->z[i])); }
    auto chk = [&](ld rel, const char* what, long i, double v) { if (!(rel > 0)) { if (out.empty()) out = fmt("%s %ld (%.17g, margin relative to the largest entry %Lg)", what, i, v, rel); } if (!(rel >= worst)) worst = rel; };
    for (idxint i = 0; i < C->lpc->p; i++) { chk(w->s[i] / ms, "s", i, w->s[i]); chk(w->z[i] / mz, "z", i, w->z[i]); } if (out.size()) lin = true; idxint o = C->lpc->p;
    for (idxint l = 0; l < C->nsoc; l++) { for (int d = 0; d < 2; d++) { const double* v = (d ? w->z : w->s) + o; ld n = 0; for (idxint j = 1; j < C->soc[l].p; j++) n += (ld)v[j] * v[j]; n = sqrtl(n); own = std::min(own, (v[0] - n) / (fabsl(v[0]) + n)); chk((v[0] - n) / (d ? mz : ms), d ? "z in second-order cone" : "s in second-order cone", l, v[0]); } o += C->soc[l].p; }
    for (idxint e = 0; e < C->nexc; e++, o += 3) { own = std::min(own, std::min(expRes(w->s + o), expDual(w->z + o))); chk(expRes(w->s + o), "s in exponential cone", e, w->s[o]); chk(expDual(w->z + o), "z in exponential cone", e, w->z[o]); }
    bool fin = true; for (idxint i = 0; i < w->n; i++) fin = fin && std::isfinite(w->x[i]); for (idxint i = 0; i < w->p; i++) fin = fin && std::isfinite(w->y[i]); for (idxint i = 0; i < w->m; i++) fin = fin && std::isfinite(w->s[i]) && std::isfinite(w->z[i]); fin = fin && std::isfinite(w->tau) && std::isfinite(w->kap);
    if (!(w->tau > 0) || !(w->kap > 0)) { lin = true; out = fmt("tau=%g kappa=%g", w->tau, w->kap) + out; }
    c.stat("iterates"); c.stat("iterates/" + cls);
    // another step was taken from the previous iterate: it had to be inside
    if (k > 0 && pendIt == k - 1 && pend.size()) c.viol("it/continued-outside", "%s: another step is taken from iterate %ld: %s", D_, k - 1, pend.c_str()); pend = !fin ? "not finite" : own > -1e-14L && !lin ? "" : out; pendIt = k; if (!minstep) c.maxi("depth outside/" + cls, (double)-own);
    if (minstep) { c.stat("minimal steps"); if (out.size()) c.stat("outside after a minimal step"); }
    else if (!fin) c.stat("not finite/" + cls);
    else if (out.size()) { c.stat("outside/" + cls); if (lin) c.viol("it/outside-linear", "%s: iteration %ld (step %g): %s", D_, k, I->step, out.c_str()); if (k == 0) c.viol("it/outside-initial", "%s: initial point: %s", D_, out.c_str()); }
    if (k == 0) { if (w->tau != 1 || w->kap != 1) c.viol("it/initial", "%s: initial tau %g kappa %g", D_, w->tau, w->kap);
      if (!C->nexc) { kkt* K = w->KKT; lvec V(w->m); for (idxint i = 0; i < w->m; i++) V[i] = K->dz1[i]; ld r1 = sysRes(w, K->dx1, K->dy1, K->dz1, V, 0, 1, nullptr); for (idxint i = 0; i < w->m; i++) V[i] = K->dz2[i]; ld r2 = sysRes(w, K->dx2, K->dy2, K->dz2, V, 1, 0, nullptr), r = std::isnan(r1) || r1 > r2 ? r1 : r2; c.stat("initial systems/" + cls); c.maxi("initial residual/" + cls, (double)r); if (!(r <= 1e-9L)) { c.stat("initial residual beyond 1e-9/" + cls); if (well && !(r <= 1e-6L)) c.viol("it/initial-system", "%s: the residual of the initial linear systems is %Lg", D_, r); } } }
    bool blow = false; if (k == 0) lastB = 0;
    // complementarity
    ld sz = 0, asz = 0; for (idxint i = 0; i < w->m; i++) { sz += (ld)w->s[i] * w->z[i]; asz += fabsl((ld)w->s[i] * w->z[i]); } ld mu = (sz + (ld)w->tau * w->kap) / (w->D + 1), amu = (asz + fabsl((ld)w->tau * w->kap)) / (w->D + 1);
    if (fin && !(fabsl(mu - I->mu) <= 1e-13L * amu)) c.viol("it/mu", "%s: iteration %ld: complementarity reported as %g, is %Lg", D_, k, I->mu, mu);
    Snap q; q.have = fin; q.it = k; q.x.assign(w->x, w->x + w->n); q.y.assign(w->y, w->y + w->p); q.z.assign(w->z, w->z + w->m); q.s.assign(w->s, w->s + w->m); q.tau = w->tau; q.kap = w->kap; q.mu = mu;
    q.rx.assign(w->n, 0); q.ry.assign(w->p, 0); q.rz.assign(w->m, 0); mult(w->A, w->y, q.rx, -1); mult(w->G, w->z, q.rx, -1); for (idxint i = 0; i < w->n; i++) q.rx[i] -= (ld)w->tau * w->c[i]; mulv(w->A, w->x, q.ry, 1); for (idxint i = 0; i < w->p; i++) q.ry[i] -= (ld)w->tau * w->b[i]; mulv(w->G, w->x, q.rz, 1); for (idxint i = 0; i < w->m; i++) q.rz[i] += w->s[i] - (ld)w->tau * w->h[i];
    q.rt = w->kap; for (idxint i = 0; i < w->n; i++) q.rt += (ld)w->c[i] * w->x[i]; for (idxint i = 0; i < w->p; i++) q.rt += (ld)w->b[i] * w->y[i]; for (idxint i = 0; i < w->m; i++) q.rt += (ld)w->h[i] * w->z[i];
    if (k > 0 && p.have && p.it == k - 1 && fin && !minstep) {
      ld ratio = mu / p.mu; c.maxi("mu ratio/" + cls, (double)ratio); if (!(ratio <= 1.02)) c.stat("mu grew/" + cls);
      muMin = std::min(muMin, p.mu); c.maxi("mu over best/" + cls, (double)(mu / muMin)); blow = well && !(mu <= 1e5 * muMin);
      if (!(I->step > 0) || !(I->step <= 1)) c.viol("it/step", "%s: iteration %ld: step %g", D_, k, I->step);
      lastB = 3; // squared scaling of the previous iterate applied to dz1
      ld wmax = 0, wmin = INFINITY; kkt* K = w->KKT; lvec V(w->m); idxint o = C->lpc->p; bool ok = true; auto seen = [&](ld lo, ld hi) { wmax = std::max(wmax, hi); wmin = std::min(wmin, lo); };
      for (idxint i = 0; i < o; i++) { ld v = (ld)p.s[i] / p.z[i]; V[i] = v * K->dz1[i]; seen(v, v); }
      for (idxint l = 0; l < C->nsoc; l++) { idxint d = C->soc[l].p; auto res = [&](const double* u) { ld n = 0; for (idxint j = 1; j < d; j++) n += (ld)u[j] * u[j]; n = sqrtl(n); return (u[0] - n) * (u[0] + n); }; ld sr = res(&p.s[o]), zr = res(&p.z[o]); if (!(sr > 0) || !(zr > 0)) { ok = false; break; } ld sn = sqrtl(sr), zn = sqrtl(zr), e2 = sn / zn, g = 1; for (idxint j = 0; j < d; j++) g += p.s[o + j] / sn * (p.z[o + j] / zn); g = sqrtl(g / 2); ld a = (p.s[o] / sn + p.z[o] / zn) / (2 * g); lvec q(d); ld qn = 0; for (idxint j = 1; j < d; j++) { q[j] = (p.s[o + j] / sn - p.z[o + j] / zn) / (2 * g); qn += q[j] * q[j]; }
        auto W = [&](const ld* v, ld* r) { ld t = 0; for (idxint j = 1; j < d; j++) t += q[j] * v[j]; ld f = v[0] + t / (1 + a); r[0] = a * v[0] + t; for (idxint j = 1; j < d; j++) r[j] = v[j] + f * q[j]; }; lvec u(d), v(d), t(d); for (idxint j = 0; j < d; j++) u[j] = K->dz1[o + j]; W(u.data(), t.data()); W(t.data(), v.data()); for (idxint j = 0; j < d; j++) V[o + j] = e2 * v[j]; ld f = a + sqrtl(qn); f *= f; seen(e2 / f, e2 * f); o += d; }
      if (ok) for (idxint e = 0; e < C->nexc; e++, o += 3) { ld x = p.z[o], y = p.z[o + 1], zz = p.z[o + 2], lg = logl(-y / x), r = -x * lg - x + zz; ld g[3] = {-lg, -x / y, 1}, H[3][3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) H[i][j] = g[i] * g[j] / (r * r); H[0][0] += -1 / (x * r) + 1 / (x * x); H[0][1] += 1 / (y * r); H[1][0] += 1 / (y * r); H[1][1] += -x / (y * y * r) + 1 / (y * y); ld tr = 0; for (int i = 0; i < 3; i++) { V[o + i] = 0; for (int j = 0; j < 3; j++) V[o + i] += p.mu * H[i][j] * K->dz1[o + j]; tr += p.mu * H[i][i]; }
        ld det = H[0][0] * (H[1][1] * H[2][2] - H[1][2] * H[2][1]) - H[0][1] * (H[1][0] * H[2][2] - H[1][2] * H[2][0]) + H[0][2] * (H[1][0] * H[2][1] - H[1][1] * H[2][0]); seen(det * p.mu * p.mu * p.mu / (tr * tr), tr); }
      if (ok) { ld cw = std::max(wmax, 1.0L) / std::min(wmin, 1.0L); if (!(wmin > 0)) cw = INFINITY; int b = lastB = cw < 1e4 ? 0 : cw < 1e8 ? 1 : cw < 1e12 ? 2 : 3; string bn = fmt("%s/%d", cls.c_str(), b); c.stat("systems/" + bn);
        ld bn2, r1 = sysRes(w, K->dx1, K->dy1, K->dz1, V, 1, 1, &bn2); for (ld t : {1e-10L, 1e-9L}) if (!(r1 <= t)) c.stat(fmt("residual beyond %.0Le/", t) + bn); c.maxi("residual/" + bn, (double)r1); ld lim = !well || b > 2 ? INFINITY : cls.find("/lp") != string::npos ? 3e-11L : b == 0 ? 1e-8L : 3e-6L; if (!(r1 <= lim)) c.viol("it/system", "%s: iteration %ld: the residual of the linear system is %Lg (condition of the scaling %Lg)", D_, k, r1, cw);
        // the homogeneous residuals shrink by the same factor
        ld f = 1 - (1 - (ld)I->sigma) * I->step, num = 0, den = 0, mx = 0; auto acc = [&](const lvec& a, const lvec& b) { for (size_t i = 0; i < a.size(); i++) { ld d = a[i] - f * b[i]; num += d * d; den += b[i] * b[i]; } }; acc(q.rx, p.rx); acc(q.ry, p.ry); acc(q.rz, p.rz); { ld d = q.rt - f * p.rt; num += d * d; den += p.rt * p.rt; } num = sqrtl(num); den = sqrtl(den);
        auto mxv = [&](const double* v, idxint n) { for (idxint i = 0; i < n; i++) mx = std::max(mx, fabsl((ld)v[i])); }; mxv(w->x, w->n); mxv(w->y, w->p); mxv(w->z, w->m); mxv(w->s, w->m); mxv(p.x.data(), w->n); mxv(p.y.data(), w->p); mxv(p.z.data(), w->m); mxv(p.s.data(), w->m); mx = std::max(mx, 1.0L);
        ld R = num / (den + bn2 * mx), R2 = num / den; c.maxi("direction residual/" + bn, (double)R); if (b <= 2 && !(R <= 1e-6L)) { c.stat("direction beyond 1e-6/" + cls); if (well && !(R <= 1e-5L)) c.viol("it/direction", "%s: iteration %ld: the residuals differ from %Lg times the previous ones by %Lg (step %g, sigma %g, condition of the scaling %Lg)", D_, k, f, R, I->step, I->sigma, cw); } if (b <= 1 && den > 1e-4 * bn2 * mx) { c.stat("directions/" + cls); if (!(R2 <= 1e-4L)) c.stat("relative direction beyond 1e-4/" + cls); c.maxi("relative direction/" + cls, (double)R2); if (well && !(R2 <= 3e-2L)) c.viol("it/direction-relative", "%s: iteration %ld: the residuals differ from %Lg times the previous ones by %Lg relative to these", D_, k, f, R2); } } }
    if (blow && lastB <= 2) c.viol("it/mu-blowup", "%s: iteration %ld: complementarity %Lg after %Lg", D_, k, mu, muMin);
    if (well && lastB <= 2 && fin && !minstep && out.size() && worst < -1e-9L) c.viol("it/outside", "%s: iteration %ld (step %g): %s", D_, k, I->step, out.c_str());
    if (k > 0 && p.have && p.it == k - 1 && fin && !minstep) { double g = w->stgs->gamma; ld ws = INFINITY, wz = INFINITY; for (int d = 0; d < 2; d++) { const dvec &a = d ? p.z : p.s, &b = d ? q.z : q.s; dvec v(w->m); for (idxint i = 0; i < w->m; i++) v[i] = a[i] + (b[i] - a[i]) / g; ld& m = d ? wz : ws; idxint o = C->lpc->p; ld big = 0; for (double x : v) big = std::max(big, fabsl((ld)x)); for (double x : a) big = std::max(big, fabsl((ld)x));
        for (idxint i = 0; i < o; i++) m = std::min(m, v[i] / big); for (idxint l = 0; l < C->nsoc; l++) { ld n = 0; for (idxint j = 1; j < C->soc[l].p; j++) n += (ld)v[o + j] * v[o + j]; m = std::min(m, (v[o] - sqrtl(n)) / big); o += C->soc[l].p; } for (idxint e = 0; e < C->nexc; e++, o += 3) { ld x = d ? expDual(&v[o]) : expRes(&v[o]); m = std::min(m, x); } }
      if (C->nexc && I->step > 0) { // the line search accepts a point only in the neighbourhood of the central path that the settings ask for, and with every exponential cone carrying its share of the complementarity
        ld cen, share; centrality(w, p, q, g, cen, share); if (m_ok(lastB)) { c.stat("centralities/" + cls); c.maxi("centrality over the limit/" + cls, (double)(cen / w->stgs->centrality)); c.maxi("least share of an exponential cone, inverse/" + cls, (double)(1 / share)); if (!(cen <= 1.001L * w->stgs->centrality)) { c.stat("beyond the centrality limit/" + cls); if (std::isnan((double)cen) && !well) c.stat("centrality lost to rounding/" + cls); else if (well || !(cen <= 1.05L * w->stgs->centrality)) c.viol("it/centrality", "%s: iteration %ld: a step of %g is taken to a point with centrality measure %Lg, the limit is %g", D_, k, I->step, cen, w->stgs->centrality); } if (!(share >= 0.0999L)) { c.stat("below the least share/" + cls); if (well || !(share >= 0.095L)) c.viol("it/share", "%s: iteration %ld: after a step of %g an exponential cone has %Lg times the mean complementarity", D_, k, I->step, share); } } }
      ld m = std::min(ws, wz); if (!(m >= -1e-12L)) { c.stat("beyond the boundary/" + cls); if (well && lastB <= 2 && I->step > 1e-6 && !(m >= -1e-8L)) c.viol("it/boundary", "%s: iteration %ld: the step of %g ends closer to the boundary than %g of the way (margin %Lg)", D_, k, I->step, g, m); } ld tt = p.tau + (q.tau - p.tau) / g, kk = p.kap + (q.kap - p.kap) / g; if (!(tt > -1e-12L * p.tau) || !(kk > -1e-12L * p.kap)) c.stat("beyond the boundary/" + cls); c.stat("steps/" + cls); }
    p = q; } };
static void run(Ctx& c) {
  Rng& r = c.rng; Prob P; Shape sh; int u = (int)r.i(0, 11); string cls; sh.nmax = 12; sh.mmax = 30; if (r.p(0.1)) { sh.nmax = 40; sh.mmax = 90; }
  if (u < 4) { P = genStrict(r, sh); cls = "strict"; } else if (u < 6) { P = genPlanted(r, sh); cls = "planted"; } else if (u == 6) { P = genInfeasible(r, sh); cls = "infeasible"; } else if (u == 7) { P = genUnbounded(r, sh); cls = "unbounded"; } else if (u == 8) { P = genReal(r, (int)r.i(0, NREAL - 1), (int)r.i(0, 1)); cls = "application"; } else if (u == 9) { P = genEdge(r, (int)r.i(0, NEDGE - 1)); cls = "shapes"; } else { P = genNasty(r, (int)r.i(0, NNASTY - 1)); cls = "nasty"; }
  if (u < 9 && r.p(0.1)) { rescaleRandom(r, P, r.u(1, 6)); cls = "nasty"; } cls += P.nex ? "/exp" : P.q.size() ? "/soc" : "/lp"; c.seen(P.sig()); Mon M(c); M.D = P.describe(); M.cls = cls; M.well = cls.compare(0, 5, "nasty") && cls.compare(0, 10, "infeasible") && cls.compare(0, 9, "unbounded"); c.sample(M.D);
  UData U(P); pwork* w = setupProb(P, U); if (!w) return; if (r.p(0.1)) w->stgs->nitref = r.i(1, 20); if (r.p(0.1)) w->stgs->maxit = r.i(1, 30); if (r.p(0.05)) w->stgs->gamma = r.u(0.8, 0.99);
  if (getenv("VERBOSE")) w->stgs->verbose = 1; g_iter_hook = [&](pwork* q) { M(q); }; idxint e = ECOS_solve(w); c.stat("code " + codeName(e)); c.stat("solves");
  // later solves of the same workspace: again as it is, after changing entries, or after replacing all data (a rescaled version of the problem)
  vector<UData*> keep; int more = r.p(0.12) ? (int)r.i(1, 3) : 0; for (int k = 0; k < more; k++) { int how = (int)r.i(0, 3);
    if (how == 1) { M.well = false; if (P.m) { idxint j = r.i(0, P.m - 1); P.h[j] += r.n(); ecos_updateDataEntry_h(w, j, P.h[j]); } if (P.n) { idxint j = r.i(0, P.n - 1); P.c[j] *= r.u(0.5, 2); ecos_updateDataEntry_c(w, j, P.c[j]); } }
    else if (how >= 2) { double fc = r.u(0.5, 2), fh = r.u(0.5, 2); for (double& v : P.c) v *= fc; for (double& v : P.h) v *= fh; for (double& v : P.b) v *= fh; for (idxint j = 0; j < P.n; j++) { double f = (r.p(0.3) ? -1 : 1) * r.u(0.7, 1.5); P.c[j] *= f; for (idxint q = P.G.jc[j]; q < P.G.jc[j + 1]; q++) P.G.pr[q] *= f; if (P.p) for (idxint q = P.A.jc[j]; q < P.A.jc[j + 1]; q++) P.A.pr[q] *= f; } for (idxint i = 0; i < P.p; i++) { double f = r.u(0.7, 1.5); P.b[i] *= f; for (idxint q = 0; q < (idxint)P.A.ir.size(); q++) if (P.A.ir[q] == i) P.A.pr[q] *= f; }
      UData* V = new UData(P); keep.push_back(V); ECOS_updateData(w, V->Gpr, V->Apr, V->c, V->h, V->b); }
    M.D = P.describe() + fmt(", solve %d of the workspace (%s)", k + 2, how == 0 ? "as it is" : how == 1 ? "entries changed" : "data replaced"); M.cls = cls; e = ECOS_solve(w); c.stat("later solves"); c.stat(fmt("later solves/%s", how == 0 ? "as it is" : how == 1 ? "entries changed" : "data replaced")); }
  g_iter_hook = nullptr; ECOS_cleanup(w, 0); for (UData* V : keep) delete V;
}
static Reg r1("C21", run);
