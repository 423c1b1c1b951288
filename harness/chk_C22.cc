// C22: Nesterov-Todd scalings and the algebra of linear and second-order cones satisfy their identities; the KKT matrix holds the squared scaling.
#include "common.h"
extern "C" {
#include "cone.h"
#include "kkt.h"
}
struct Cn { cone C; lpcone L; vector<socone> S; vector<dvec> sk, zk, q; vector<ivec> di; vector<expcone> E; dvec w, v; ivec ki; idxint m = 0;
  Cn(idxint l, const vector<idxint>& qd, idxint ne) : S(qd.size()), sk(qd.size()), zk(qd.size()), q(qd.size()), di(qd.size()), E(ne), w(l), v(l), ki(l) { memset(&C, 0, sizeof C); L.p = l; L.w = w.data(); L.v = v.data(); L.kkt_idx = ki.data(); C.lpc = &L; m = l; for (size_t i = 0; i < qd.size(); i++) { memset(&S[i], 0, sizeof(socone)); S[i].p = qd[i]; sk[i].resize(qd[i]); zk[i].resize(qd[i]); q[i].resize(qd[i]); di[i].resize(qd[i]); S[i].skbar = sk[i].data(); S[i].zkbar = zk[i].data(); S[i].q = q[i].data(); S[i].Didx = di[i].data(); m += qd[i]; } C.soc = S.data(); C.nsoc = (idxint)qd.size(); C.expc = E.data(); C.nexc = ne; C.fexv = m; m += 3 * ne; } };
typedef vector<ld> lvec;
static ld nrm(const ld* v, long n) { ld s = 0; for (long i = 0; i < n; i++) s += v[i] * v[i]; return sqrtl(s); }
// reference: the NT scaling of one second-order cone in long double; W applied to v
struct NT { long p; ld eta, a; lvec q; bool ok = true; ld ks, kz;
  NT(const double* s, const double* z, long p_) : p(p_), q(p_ - 1) { auto res = [&](const double* u) { lvec t(p > 1 ? p - 1 : 0); for (long i = 1; i < p; i++) t[i - 1] = u[i]; ld n = nrm(t.data(), p - 1); return ((ld)u[0] - n) * ((ld)u[0] + n); }; ld sr = res(s), zr = res(z); if (!(sr > 0) || !(zr > 0)) { ok = false; return; } ks = (ld)s[0] * s[0] / sr; kz = (ld)z[0] * z[0] / zr; ld sn = sqrtl(sr), zn = sqrtl(zr); eta = sqrtl(sn / zn); ld g = 1; for (long i = 0; i < p; i++) g += (s[i] / sn) * (z[i] / zn); g = sqrtl(g / 2); a = (s[0] / sn + z[0] / zn) / (2 * g); for (long i = 1; i < p; i++) q[i - 1] = (s[i] / sn - z[i] / zn) / (2 * g); }
  void W(const ld* v, ld* o) const { ld t = 0; for (long i = 1; i < p; i++) t += q[i - 1] * v[i]; ld f = v[0] + t / (1 + a); o[0] = eta * (a * v[0] + t); for (long i = 1; i < p; i++) o[i] = eta * (v[i] + f * q[i - 1]); } };
static dvec interior(Rng& r, const vector<idxint>& qd, idxint l, idxint ne, double mag, double dmin, int corr, const dvec* other) {
  dvec s; auto sc = [&]() { return mag * pow(10, r.u(-2, 2)); }; for (idxint i = 0; i < l; i++) s.push_back(r.p(0.1) ? mag * pow(10, r.u(-6, 3)) : sc()); idxint k = l;
  for (auto p : qd) { double f = sc(); dvec t(p - 1); double n = 0; for (auto& v : t) { v = r.p(0.2) ? 0 : r.n(); n += v * v; } if (other && corr && p > 1 && r.p(0.6)) { n = 0; for (long i = 0; i < p - 1; i++) { t[i] = (corr == 1 ? -1 : 1) * (*other)[k + 1 + i] / f; n += t[i] * t[i]; } } n = sqrt(n); double d = r.p(0.3) ? r.u(0.5, 3) : pow(10, r.u(log10(dmin), 0.5)); if (r.p(0.1) && p > 1) { for (auto& v : t) v = 0; n = 0; } if (n > 0) for (auto& v : t) v /= n; double rad = n > 0 ? f : 0; s.push_back(n > 0 ? rad * (1 + d) : f); for (auto v : t) s.push_back(v * rad); k += p; }
  for (idxint e = 0; e < ne; e++) { s.push_back(-1.05 * mag); s.push_back(1.26 * mag); s.push_back(0.56 * mag); } return s;
}
static void algebra(Ctx& c) {
  Rng& r = c.rng; idxint l = r.p(0.2) ? 0 : r.i(1, 6), ns = r.p(0.1) ? 0 : r.i(1, 4), ne = r.p(0.2) ? r.i(1, 2) : 0; if (!l && !ns) l = 2; vector<idxint> qd; for (idxint i = 0; i < ns; i++) qd.push_back(r.p(0.25) ? 1 : r.p(0.25) ? 2 : r.i(3, 14)); double dmin = pow(10, -(double)r.i(0, 7));
  Cn K(l, qd, ne); cone* C = &K.C; idxint m = K.m, sy = m - 3 * ne; double ms = pow(10, r.u(-4, 4)), mz = pow(10, r.u(-4, 4)); dvec s = interior(r, qd, l, ne, ms, dmin, 0, nullptr), z = interior(r, qd, l, ne, mz, dmin, (int)r.i(0, 2), &s); string D = fmt("l=%ld soc=%zu exp=%ld distance %g", (long)l, qd.size(), (long)ne, dmin); c.sample(D); uint64_t sig = hmix(hash64(s.data(), 8 * m), hash64(z.data(), 8 * m)); c.seen(sig);
  // magnitudes below the division guard EPS are not meaningful
  vector<NT> R; { idxint k = l; for (auto p : qd) { R.emplace_back(&s[k], &z[k], p); if (!R.back().ok) c.fail("generated point not inside"); k += p; } }
  const double eps = 2.3e-16; dvec lam(m, 77.0), Wis(m, 77.0); idxint rc = updateScalings(C, s.data(), z.data(), lam.data(), 0.3); c.stat("scalings"); if (rc != INSIDE_CONE) { double worst = 0; for (auto& t : R) worst = std::max(worst, (double)std::max(t.ks, t.kz)); if (worst < 1e12) c.viol("cone/outside", "%s: a strictly interior pair is reported outside (condition %g)", D.c_str(), worst); c.stat("interior pairs refused"); return; }
  // W z = W^-1 s = reference
  unscale(s.data(), C, Wis.data()); for (idxint i = 0; i < l; i++) { ld ref = sqrtl((ld)s[i] * z[i]); for (double v : {lam[i], Wis[i]}) { double e = fabs((double)((v - ref) / ref)); c.maxi("linear scaling error / eps", e / eps); if (!(e < 16 * eps)) c.viol("cone/nt-linear", "%s: scaled linear variable %g, sqrt(s z) is %Lg", D.c_str(), v, ref); } }
  idxint k = l; for (size_t i = 0; i < qd.size(); i++) { long p = qd[i]; NT& t = R[i]; lvec zz(z.begin() + k, z.begin() + k + p), ref(p); t.W(zz.data(), ref.data()); ld n = nrm(ref.data(), p), cond = (t.ks + t.kz) * sqrtl(p); // conditioning of the residuals
    for (int v = 0; v < 2; v++) { const double* g = v ? &Wis[k] : &lam[k]; ld e = 0; for (long j = 0; j < p; j++) e += (g[j] - ref[j]) * (g[j] - ref[j]); e = sqrtl(e) / n; double cc = (double)(cond * (1 + std::max(t.ks, t.kz))); c.maxi(v ? "error of W^-1 s / (eps cond)" : "error of W z / (eps cond)", (double)e / (eps * cc)); c.stat("second-order scalings"); if (!(e < 64 * eps * cc)) c.viol(v ? "cone/nt-s" : "cone/nt-z", "%s: cone of dimension %ld: scaled variable differs by %Lg from the reference (condition %Lg)", D.c_str(), p, e, cond); }
    // <s,z> = <lambda,lambda>
    ld sz = 0, ll = 0; for (long j = 0; j < p; j++) { sz += (ld)s[k + j] * z[k + j]; ll += (ld)lam[k + j] * Wis[k + j]; } { double cc = (double)(cond * (1 + std::max(t.ks, t.kz))) * (double)(n * n / std::max(fabsl(sz), 1e-300L)); if (!(fabsl(sz - ll) <= 64 * eps * cc * fabsl(sz) + 1e-300L)) c.viol("cone/nt-product", "%s: <lambda,lambda>=%Lg, <s,z>=%Lg", D.c_str(), ll, sz); }
    k += p; }
  // exponential variables untouched by scale / unscale
  for (idxint i = sy; i < m; i++) if (lam[i] != 77.0 || Wis[i] != 77.0) c.viol("cone/exp-touched", "%s: scaling writes to the exponential variables", D.c_str());
  // W is symmetric, unscale inverts scale, scale2add is W^2 (the two extra rows eliminated)
  dvec u(m), v(m), Wu(m, 77), Wv(m, 77), b(m, 77), b2(m, 77); for (auto& x : u) x = r.n(); for (auto& x : v) x = r.n() * (r.p(0.1) ? 1e3 : 1); scale(u.data(), C, Wu.data()); scale(v.data(), C, Wv.data()); unscale(Wu.data(), C, b.data()); unscale(u.data(), C, b2.data()); dvec WW(m, 0), b3(m, 77); scale(Wu.data(), C, WW.data()); scale(b2.data(), C, b3.data());
  idxint M2 = m + 2 * (idxint)qd.size(); dvec X(M2, 0), Y(M2, 0), Y0(M2); auto off = [&](size_t i) { return (size_t)2 * i; };
  { for (idxint i = 0; i < l; i++) X[i] = u[i]; idxint kk = l; for (size_t i = 0; i < qd.size(); i++) { for (idxint j = 0; j < qd[i]; j++) X[kk + off(i) + j] = u[kk + j]; kk += qd[i]; } scale2add(X.data(), Y.data(), C); kk = l; for (size_t i = 0; i < qd.size(); i++) { size_t x3 = kk + off(i) + qd[i]; double e2 = C->soc[i].eta_square; X[x3] = -Y[x3] / e2; X[x3 + 1] = Y[x3 + 1] / e2; kk += qd[i]; } for (auto& y : Y0) y = r.n(); Y = Y0; scale2add(X.data(), Y.data(), C); }
  for (idxint i = 0; i < l; i++) { double e = fabs((Y[i] - Y0[i]) - s[i] / z[i] * u[i]) / (fabs(s[i] / z[i] * u[i]) + fabs(Y0[i])); if (!(e < 32 * eps)) c.viol("cone/square-linear", "%s: linear entry of W^2 u is %g, s/z u is %g", D.c_str(), Y[i] - Y0[i], s[i] / z[i] * u[i]); if (!(fabs(b[i] - u[i]) <= 16 * eps * fabs(u[i])) || !(fabs(b3[i] - u[i]) <= 16 * eps * fabs(u[i]))) c.viol("cone/inverse-linear", "%s: W^-1 W u differs from u", D.c_str()); }
  k = l; for (size_t i = 0; i < qd.size(); i++) { long p = qd[i]; NT& t = R[i]; ld cw = t.a + nrm(t.q.data(), p - 1); cw *= cw; /* condition of W */ ld nu = 0, nb = 0, n3 = 0, e = 0; for (long j = 0; j < p; j++) { nu += (ld)u[k + j] * u[k + j]; nb += ((ld)b[k + j] - u[k + j]) * ((ld)b[k + j] - u[k + j]); n3 += ((ld)b3[k + j] - u[k + j]) * ((ld)b3[k + j] - u[k + j]); } nu = sqrtl(nu); nb = sqrtl(nb) / nu; n3 = sqrtl(n3) / nu; ld base = eps * sqrtl(p) * (cw * cw) * 1; // a^2 - |q|^2 = 1 only up to rounding of a and q
    ld cc = std::max(cw, (t.ks + t.kz)); c.maxi("error of W^-1 W / (eps cond)", (double)(nb / (eps * sqrtl(p) * cw * cc))); c.maxi("error of W W^-1 / (eps cond)", (double)(n3 / (eps * sqrtl(p) * cw * cc))); if (!(nb < 64 * eps * sqrtl(p) * cw * cc) || !(n3 < 64 * eps * sqrtl(p) * cw * cc)) c.viol("cone/inverse", "%s: dimension %ld: W^-1 W u differs from u by %Lg, W W^-1 u by %Lg (condition %Lg)", D.c_str(), p, nb, n3, cw); (void)base;
    ld d1 = 0, d2 = 0, nv = 0, nWu = 0, nWv = 0; for (long j = 0; j < p; j++) { d1 += (ld)u[k + j] * Wv[k + j]; d2 += (ld)Wu[k + j] * v[k + j]; nv += (ld)v[k + j] * v[k + j]; nWu += (ld)Wu[k + j] * Wu[k + j]; nWv += (ld)Wv[k + j] * Wv[k + j]; } nv = sqrtl(nv); ld lim = 64 * eps * sqrtl(p) * t.eta * cw * nu * nv; c.maxi("asymmetry of W / eps", (double)(fabsl(d1 - d2) / (eps * sqrtl(p) * t.eta * cw * nu * nv))); if (!(fabsl(d1 - d2) <= lim)) c.viol("cone/symmetric", "%s: <u, W v> = %Lg, <W u, v> = %Lg", D.c_str(), d1, d2);
    // W^2
    size_t x1 = k + off(i); ld n2 = t.eta * t.eta * cw * nu, y0 = 0; for (long j = 0; j < p + 2; j++) y0 += (ld)Y0[x1 + j] * Y0[x1 + j]; y0 = sqrtl(y0); for (long j = 0; j < p; j++) { ld d = ((ld)Y[x1 + j] - Y0[x1 + j]) - WW[k + j]; e += d * d; } e = sqrtl(e); ld lim2 = 64 * eps * sqrtl(p) * (n2 * (1 + cc) + y0); c.maxi("error of W^2 / (eps cond)", (double)(e / (eps * sqrtl(p) * (n2 * (1 + cc) + y0)))); if (!(e <= lim2)) c.viol("cone/square", "%s: dimension %ld: the expanded W^2 applied to u differs from W(W u) by %Lg (norm %Lg)", D.c_str(), p, e, n2);
    for (int j = 0; j < 2; j++) { ld d = fabsl((ld)Y[x1 + p + j] - Y0[x1 + p + j]); if (!(d <= lim2)) c.viol("cone/square-extra", "%s: dimension %ld: the extra rows are not eliminated (%Lg)", D.c_str(), p, d); }
    k += p; }
  if (ne) { for (idxint i = 0; i < 3 * ne; i++) if (Y[sy + off(qd.size()) + i] - Y0[sy + off(qd.size()) + i] != 0 && X[sy + off(qd.size()) + i] == 0 && X[sy + off(qd.size()) + i / 3 * 3] == 0) c.viol("cone/exp-scale2", "%s: exponential rows changed for a zero vector", D.c_str()); }
  // products
  dvec w(m, 77), q2(m, 77); double mu = conicProduct(u.data(), v.data(), C, w.data()); ld em = 0, na = 0; for (idxint i = 0; i < l; i++) { em += fabsl((ld)u[i] * v[i]); na += fabsl((ld)u[i] * v[i]); if (!(fabs(w[i] - u[i] * v[i]) <= 4 * eps * fabs(u[i] * v[i]))) c.viol("cone/product", "%s: linear entry of the product", D.c_str()); }
  k = l; for (size_t i = 0; i < qd.size(); i++) { long p = qd[i]; ld d = 0, ab = 0; for (long j = 0; j < p; j++) { d += (ld)u[k + j] * v[k + j]; ab += fabsl((ld)u[k + j] * v[k + j]); } em += fabsl(d); na += ab; if (!(fabsl(w[k] - d) <= 32 * eps * ab)) c.viol("cone/product", "%s: first entry of the product is %g, should be %Lg", D.c_str(), w[k], d); for (long j = 1; j < p; j++) { ld x = (ld)u[k] * v[k + j], y = (ld)v[k] * u[k + j]; if (!(fabsl(w[k + j] - (x + y)) <= 8 * eps * (fabsl(x) + fabsl(y)))) c.viol("cone/product", "%s: entry %ld of the product is %g, should be %Lg", D.c_str(), j, w[k + j], x + y); } k += p; }
  if (!(fabsl(mu - em) <= 64 * eps * na)) c.viol("cone/product-sum", "%s: the product reports %g, should be %Lg", D.c_str(), mu, em); for (idxint i = sy; i < m; i++) if (w[i] != 77) c.viol("cone/exp-product", "%s: the product writes to the exponential variables", D.c_str()); c.stat("products");
  // division: s \ (s o v) = v
  conicProduct(s.data(), v.data(), C, w.data()); conicDivision(s.data(), w.data(), C, q2.data()); for (idxint i = 0; i < l; i++) if (s[i] > 1e-12 && !(fabs(q2[i] - v[i]) <= 16 * eps * fabs(v[i]))) c.viol("cone/division", "%s: linear entry of the division", D.c_str());
  k = l; for (size_t i = 0; i < qd.size(); i++) { long p = qd[i]; ld e = 0, n = 0; for (long j = 0; j < p; j++) { e += ((ld)q2[k + j] - v[k + j]) * ((ld)q2[k + j] - v[k + j]); n += (ld)v[k + j] * v[k + j]; } e = sqrtl(e / n); ld cd = R[i].ks * 4; if ((ld)s[k] * s[k] / R[i].ks > 1e-11) { c.maxi("error of division / (eps cond)", (double)(e / (eps * cd * cd * sqrtl(p)))); c.stat("divisions"); if (!(e <= 64 * eps * cd * cd * sqrtl(p))) c.viol("cone/division", "%s: dimension %ld: s \\ (s o v) differs from v by %Lg (condition %Lg)", D.c_str(), p, e, cd); } k += p; }
  // moved into the cone
  { dvec t(m, 77), o(m, 77); double f = pow(10, r.u(-6, 6)); for (auto& x : t) x = f * r.n() * (r.p(0.1) ? 0 : 1); if (r.p(0.1)) { k = l; for (auto p : qd) { double nn = 0; for (idxint j = 1; j < p; j++) nn += t[k + j] * t[k + j]; t[k] = sqrt(nn) * (r.p(0.5) ? 1 : -1); k += p; } } if (r.p(0.1)) for (idxint i = 0; i < sy; i++) t[i] = s[i]; /* inside already */ bring2cone(C, t.data(), o.data()); c.stat("points moved into the cone"); double mn = INFINITY, al = NAN; string why; for (idxint i = 0; i < l; i++) mn = std::min(mn, o[i]); k = l; for (auto p : qd) { ld nn = 0; for (idxint j = 1; j < p; j++) { nn += (ld)o[k + j] * o[k + j]; if (o[k + j] != t[k + j]) why = "a tail entry changed"; } mn = std::min(mn, (double)(o[k] - sqrtl(nn))); k += p; }
    double mg = 0; for (idxint i = 0; i < sy; i++) mg = std::max(mg, fabs(t[i])); vector<double> shifts; for (idxint i = 0; i < l; i++) shifts.push_back(o[i] - t[i]); k = l; for (auto p : qd) { shifts.push_back(o[k] - t[k]); k += p; } al = shifts.size() ? shifts[0] : 0; for (double x : shifts) if (fabs(x - al) > 64 * eps * (mg * 16 + 1)) why = fmt("shifts %g and %g", x, al); if (al < -64 * eps * (1 + mg * 16)) why = "shifted outwards"; if (!(mn > 0)) why = fmt("margin %g", mn); if (why.size() && mg < 1e12) c.viol("cone/bring", "%s: a point moved into the cone: %s", D.c_str(), why.c_str()); for (idxint i = sy; i < m; i++) if (o[i] != 77) c.viol("cone/exp-bring", "%s: writes to the exponential variables", D.c_str()); }
  // unit initialisation: central point of scale f^2
  { double f = pow(10, r.u(-3, 3)); dvec a(m, 77), d(m, 77); unitInitialization(C, a.data(), d.data(), f); bool ok = true; for (idxint i = 0; i < l; i++) ok = ok && a[i] == f && d[i] == f; k = l; for (auto p : qd) { for (idxint j = 0; j < p; j++) ok = ok && a[k + j] == (j ? 0 : f) && d[k + j] == (j ? 0 : f); k += p; } if (!ok) c.viol("cone/unit", "%s: the initial point is not the unit of the cones", D.c_str());
    for (idxint e = 0; e < ne; e++, k += 3) { ld x = d[k], y = d[k + 1], zz = d[k + 2], lg = logl(-y / x), rr = -x * lg - x + zz, g[3] = {(lg * x - rr) / (rr * x), (x - rr) / (y * rr), -1 / rr}; for (int j = 0; j < 3; j++) if (!(fabsl(a[k + j] + (ld)f * f * g[j]) < 1e-7L * f)) c.viol("cone/unit-exp", "%s: the initial point of the exponential cone is not central: s=%g, -mu g(z)=%Lg", D.c_str(), a[k + j], -(ld)f * f * g[j]); } c.stat("unit points"); }
  // points outside are noticed
  if (ns) { dvec s2 = s, z2 = z; size_t i = (size_t)r.i(0, ns - 1); k = l; for (size_t j = 0; j < i; j++) k += qd[j]; dvec& t = r.p(0.5) ? s2 : z2; ld nn = 0; for (idxint j = 1; j < qd[i]; j++) nn += (ld)t[k + j] * t[k + j]; nn = sqrtl(nn); if (nn > 1e-3 * ms * 0 && nn > 0) { t[k] = (double)(nn * (1 - pow(10, r.u(-9, -0.1)))); dvec ll(m); if (updateScalings(C, s2.data(), z2.data(), ll.data(), 0.3) != OUTSIDE_CONE) c.viol("cone/outside-missed", "%s: a point outside of cone %zu (dimension %ld) is accepted", D.c_str(), i, (long)qd[i]); c.stat("points outside"); } }
}
static Reg r1("C22", algebra);
// in solves: the scaled variable of every iterate, and the KKT matrix
static void inSolve(Ctx& c) {
  Rng& r = c.rng; Prob P; Shape sh; sh.nmax = 8; sh.mmax = 18; int u = (int)r.i(0, 5); if (u < 2) P = genStrict(r, sh); else if (u == 2) P = genPlanted(r, sh); else if (u == 3) P = genReal(r, (int)r.i(0, NREAL - 1), 0); else if (u == 4) P = genInfeasible(r, sh); else P = genNasty(r, (int)r.i(0, NNASTY - 1)); string D = P.describe(); c.sample(D); c.seen(P.sig());
  struct { dvec s, z; } pv; bool have = false; long it = -1; bool kk = P.n + P.m + P.p < 60;
  g_iter_hook = [&](pwork* w) {
    if (w->info->iter > 0 && have && w->info->iter == it + 1) { cone* C = w->C; bool in = true; idxint k = C->lpc->p; ld kmax = 1; vector<NT> R; for (idxint i = 0; i < k; i++) if (!(pv.s[i] > 1e-11) || !(pv.z[i] > 1e-11)) in = false; for (idxint l = 0; l < C->nsoc; l++) { R.emplace_back(&pv.s[k], &pv.z[k], C->soc[l].p); NT& t = R.back(); if (!t.ok || t.ks > 1e7 || t.kz > 1e7 || pv.s[k] * pv.s[k] / (double)t.ks < 1e-21 || pv.z[k] * pv.z[k] / (double)t.kz < 1e-21) in = false; else kmax = std::max(kmax, std::max(t.ks, t.kz)); k += C->soc[l].p; }
      if (in) { c.stat("iterates"); for (idxint i = 0; i < C->lpc->p; i++) { ld ref = sqrtl((ld)pv.s[i] * pv.z[i]); if (!(fabsl(w->lambda[i] - ref) < 1e-13L * ref)) c.viol("solve/lambda", "%s: iteration %ld: lambda[%ld]=%g, sqrt(s z)=%Lg", D.c_str(), it, (long)i, w->lambda[i], ref); }
        k = C->lpc->p; for (idxint l = 0; l < C->nsoc; l++) { NT& t = R[l]; lvec zz(pv.z.begin() + k, pv.z.begin() + k + t.p), ref(t.p); t.W(zz.data(), ref.data()); ld e = 0; for (long j = 0; j < t.p; j++) e += (w->lambda[k + j] - ref[j]) * (w->lambda[k + j] - ref[j]); e = sqrtl(e) / nrm(ref.data(), t.p); ld cc = (t.ks + t.kz) * (1 + std::max(t.ks, t.kz)) * sqrtl(t.p); c.maxi("error of lambda / (eps cond)", (double)(e / (2.3e-16L * cc))); if (!(e < 64 * 2.3e-16L * cc)) c.viol("solve/lambda", "%s: iteration %ld: lambda of second-order cone %ld differs by %Lg (condition %Lg)", D.c_str(), it, (long)l, e, cc); k += t.p; }
        if (kk && r.p(0.4)) { // the KKT matrix, unpermuted, against A, G and the squared scaling
          spmat* K = w->KKT->PKPt; idxint nK = K->n, n = w->n, p = w->p, m = w->m; idxint* Pi = w->KKT->Pinv; vector<dvec> F(nK, dvec(nK, 0)); for (idxint j = 0; j < nK; j++) for (idxint q = K->jc[j]; q < K->jc[j + 1]; q++) { F[K->ir[q]][j] += K->pr[q]; if (K->ir[q] != j) F[j][K->ir[q]] += K->pr[q]; }
          vector<dvec> T(nK, dvec(nK, 0)); for (idxint i = 0; i < n; i++) T[i][i] = DELTASTAT; for (idxint i = 0; i < p; i++) T[n + i][n + i] = -DELTASTAT; if (w->A && p) for (idxint j = 0; j < n; j++) for (idxint q = w->A->jc[j]; q < w->A->jc[j + 1]; q++) { T[n + w->A->ir[q]][j] += w->A->pr[q]; T[j][n + w->A->ir[q]] += w->A->pr[q]; }
          vector<idxint> row(m); { idxint q = 0, o = n + p; for (idxint i = 0; i < C->lpc->p; i++) row[q++] = o++; for (idxint l = 0; l < C->nsoc; l++) { for (idxint j = 0; j < C->soc[l].p; j++) row[q++] = o++; o += 2; } while (q < m) row[q++] = o++; }
          for (idxint j = 0; j < n; j++) for (idxint q = w->G->jc[j]; q < w->G->jc[j + 1]; q++) { T[row[w->G->ir[q]]][j] += w->G->pr[q]; T[j][row[w->G->ir[q]]] += w->G->pr[q]; }
          idxint M2 = nK - n - p; double vm = 0; for (idxint j = 0; j < M2; j++) { dvec x(M2, 0), y(M2, 0); x[j] = 1; scale2add(x.data(), y.data(), C); for (idxint i = 0; i < M2; i++) { T[n + p + i][n + p + j] -= y[i]; vm = std::max(vm, fabs(y[i])); } }
          { idxint o = n + p; for (idxint i = 0; i < C->lpc->p; i++, o++) T[o][o] -= DELTASTAT; for (idxint l = 0; l < C->nsoc; l++) { for (idxint j = 0; j < C->soc[l].p; j++, o++) T[o][o] -= DELTASTAT; o++; T[o][o] += DELTASTAT; o++; } for (idxint i = 0; i < 3 * C->nexc; i++, o++) T[o][o] -= DELTASTAT; }
          double worst = 0; idxint wi = 0, wj = 0; for (idxint i = 0; i < nK; i++) for (idxint j = 0; j < nK; j++) { double d = fabs(F[Pi[i]][Pi[j]] - T[i][j]), t = (i == j ? 2.1 * DELTASTAT : 0) + 1e-13 * fabs(T[i][j]) + 1e-18; if (!(d <= t) && !(d / t <= worst)) { worst = d / t; wi = i; wj = j; } } c.stat("KKT matrices"); if (worst > 0 || std::isnan(worst)) c.viol("solve/kkt", "%s: iteration %ld: entry (%ld,%ld) of the KKT matrix is %.12g, should be %.12g", D.c_str(), it, (long)wi, (long)wj, F[Pi[wi]][Pi[wj]], T[wi][wj]); } } }
    pv.s.assign(w->s, w->s + w->m); pv.z.assign(w->z, w->z + w->m); have = true; it = w->info->iter; };
  // solved twice, with new data in between (the KKT matrix then gets the new values)
  UData U(P); pwork* w = setupProb(P, U); if (w) { ECOS_solve(w); if (r.p(0.4)) { have = false; Prob Q = P; Q.c = P.c; UData V(P); for (idxint i = 0; i < P.G.nnz(); i++) V.Gpr[i] *= r.u(0.8, 1.2); for (idxint i = 0; i < P.A.nnz(); i++) V.Apr[i] *= r.u(0.8, 1.2); ECOS_updateData(w, V.Gpr, V.Apr, V.c, V.h, V.b); ECOS_solve(w); c.stat("solves after updates"); ECOS_cleanup(w, 0); w = nullptr; } if (w) ECOS_cleanup(w, 0); c.stat("solves"); } g_iter_hook = nullptr;
}
static Reg r2("C22solve", inSolve);
