// C23: barrier, gradient, Hessian, feasibility tests of the exponential cone and the Wright omega function against high-precision references.
#include "common.h"
extern "C" {
#include "expcone.h"
#include "cone.h"
}
// second-order forward differentiation: value, gradient and Hessian of expressions in three variables
struct HD { ld v, g[3], h[3][3]; };
static HD var(ld x, int k) { HD r; memset(&r, 0, sizeof r); r.v = x; r.g[k] = 1; return r; }
static HD add(const HD& a, const HD& b, ld s) { HD r; r.v = a.v + s * b.v; for (int i = 0; i < 3; i++) { r.g[i] = a.g[i] + s * b.g[i]; for (int j = 0; j < 3; j++) r.h[i][j] = a.h[i][j] + s * b.h[i][j]; } return r; }
static HD mul(const HD& a, const HD& b) { HD r; r.v = a.v * b.v; for (int i = 0; i < 3; i++) { r.g[i] = a.g[i] * b.v + a.v * b.g[i]; for (int j = 0; j < 3; j++) r.h[i][j] = a.h[i][j] * b.v + a.g[i] * b.g[j] + a.g[j] * b.g[i] + a.v * b.h[i][j]; } return r; }
static HD fn(const HD& a, ld f, ld f1, ld f2) { HD r; r.v = f; for (int i = 0; i < 3; i++) { r.g[i] = f1 * a.g[i]; for (int j = 0; j < 3; j++) r.h[i][j] = f1 * a.h[i][j] + f2 * a.g[i] * a.g[j]; } return r; }
static HD lg(const HD& a) { return fn(a, logl(a.v), 1 / a.v, -1 / (a.v * a.v)); }
static HD neg(const HD& a) { HD z; memset(&z, 0, sizeof z); return add(z, a, -1); }
static HD dualBarrier(const double* z) { HD u = var(z[0], 0), v = var(z[1], 1), w = var(z[2], 2); HD nu = neg(u), l = add(lg(v), lg(nu), -1); HD r = add(add(w, u, -1), mul(u, l), -1); return neg(add(add(lg(r), lg(nu), 1), lg(v), 1)); }
static ld dualMargin(const double* z) { ld l = logl((ld)z[1]) - logl(-(ld)z[0]); return (ld)z[2] - z[0] - z[0] * l; }
static ld primalMargin(const double* s) { return s[2] * (logl((ld)s[1]) - logl((ld)s[2])) - s[0]; }
static ld omega(ld z) { ld w = z > 1 ? z - logl(z) + 0.3L : expl(z) / (1 + expl(z)) + 0.1L; if (w <= 0) w = 0.1L; for (int i = 0; i < 200; i++) { ld f = w + logl(w) - z, n = w - f * w / (1 + w); if (n <= 0) n = w / 2; if (fabsl(n - w) <= 1e-20L * w) { w = n; break; } w = n; } return w; }
static void dualPoint(Rng& r, double* z, double* rel) { // interior, over many magnitudes; rel: distance r relative to the terms it is made of
  double m = pow(10, r.u(-5, 5)); do { z[0] = -m * pow(10, r.u(-4, 4)); z[1] = m * pow(10, r.u(-4, 4)); double l = log(-z[1] / z[0]), base = z[0] + z[0] * l, sc = fabs(z[0]) * (1 + fabs(l)); double d = r.p(0.4) ? pow(10, r.u(-6, 0)) : pow(10, r.u(-1, 3)); z[2] = base + d * sc; } while (!(dualMargin(z) > 0)); ld l = logl((ld)z[1]) - logl(-(ld)z[0]); *rel = (double)(dualMargin(z) / (fabsl(z[0] * l) + fabsl(z[0]) + fabsl(z[2]))); }
static void cone1(Ctx& c) {
  Rng& r = c.rng; const ld eps = 2.3e-16L; double z[3], rel; dualPoint(r, z, &rel); string D = fmt("z=(%.17g,%.17g,%.17g)", z[0], z[1], z[2]); c.sample(D); c.seen(hash64(z, sizeof z)); HD B = dualBarrier(z); ld cnd = (1 + 1 / (ld)rel); c.stat("points");
  double g[3], v[6], mu = r.p(0.5) ? 1 : pow(10, r.u(-9, 2)); evalExpGradient(z, g); evalExpHessian(z, v, mu); ld l = logl((ld)z[1]) - logl(-(ld)z[0]), rr = dualMargin(z);
  // the terms each entry is made of bound its rounding error
  ld gm[3] = {fabsl(l / rr) + fabsl(1 / (ld)z[0]) + 1 / rr, fabsl(z[0] / (z[1] * rr)) + 1 / (ld)z[1], 1 / rr};
  for (int i = 0; i < 3; i++) { ld e = fabsl(g[i] - B.g[i]) / gm[i]; c.maxi("gradient error / (eps cond)", (double)(e / (eps * cnd))); if (!(e < 64 * eps * cnd)) c.viol("exp/gradient", "%s: entry %d of the gradient is %.17g, the derivative of the barrier is %.17Lg", D.c_str(), i, g[i], B.g[i]); }
  const int I[6] = {0, 0, 1, 0, 1, 2}, J[6] = {0, 1, 1, 2, 2, 2}; ld x = z[0], y = z[1]; ld hm[6] = {1 / (x * x) + fabsl(1 / (rr * x)) + l * l / (rr * rr), fabsl(1 / (rr * y)) + fabsl(l * x / (rr * rr * y)) + fabsl(x / (rr * rr * y)) + fabsl(z[2] / (rr * rr * y)), 1 / (y * y) + fabsl(x / (rr * y * y)) + x * x / (rr * rr * y * y), (fabsl(l) + 1) / (rr * rr), fabsl(x / (rr * rr * y)), 1 / (rr * rr)};
  for (int k = 0; k < 6; k++) { ld e = fabsl(v[k] / (ld)mu - B.h[I[k]][J[k]]) / hm[k]; c.maxi("Hessian error / (eps cond)", (double)(e / (eps * cnd))); if (!(e < 64 * eps * cnd)) c.viol("exp/hessian", "%s: entry (%d,%d) of the Hessian is %.17g, the second derivative of the barrier is %.17Lg", D.c_str(), I[k], J[k], v[k] / mu, B.h[I[k]][J[k]]); }
  // logarithmic homogeneity, of the computed values
  ld gz = 0, ga = 0; for (int i = 0; i < 3; i++) { gz += (ld)g[i] * z[i]; ga += gm[i] * fabsl(z[i]); } if (!(fabsl(gz + 3) < 64 * eps * cnd * (ga + 3))) c.viol("exp/homogeneous", "%s: <g,z> is %.17Lg instead of -3", D.c_str(), gz);
  const int X[3][3] = {{0, 1, 3}, {1, 2, 4}, {3, 4, 5}}; for (int i = 0; i < 3; i++) { ld s = 0, a = gm[i]; for (int j = 0; j < 3; j++) { s += v[X[i][j]] / (ld)mu * z[j]; a += hm[X[i][j]] * fabsl(z[j]); } if (!(fabsl(s + g[i]) < 128 * eps * cnd * a)) c.viol("exp/homogeneous", "%s: entry %d of H z is %.17Lg, -g is %.17g", D.c_str(), i, s, -g[i]); }
  // positive definite: after scaling by the diagonal, the determinant is well above rounding
  { ld d0 = sqrtl(v[0]), d1 = sqrtl(v[2]), d2 = sqrtl(v[5]); ld a = v[1] / (d0 * d1), b = v[3] / (d0 * d2), e = v[4] / (d1 * d2), det = 1 + 2 * a * b * e - a * a - b * b - e * e; ld tol = 1e3 * eps * cnd * cnd; if (!(v[0] > 0 && v[2] > 0 && v[5] > 0)) c.viol("exp/definite", "%s: the diagonal of the Hessian is not positive", D.c_str()); else { ld ra = B.h[0][1] / sqrtl(B.h[0][0] * B.h[1][1]), rb = B.h[0][2] / sqrtl(B.h[0][0] * B.h[2][2]), re = B.h[1][2] / sqrtl(B.h[1][1] * B.h[2][2]), rd = 1 + 2 * ra * rb * re - ra * ra - rb * rb - re * re; if (rd > 10 * tol) { c.stat("definite Hessians"); if (!(det > 0) || !(1 - a * a > -tol)) c.viol("exp/definite", "%s: the Hessian is not positive definite (scaled determinant %Lg, exactly %Lg)", D.c_str(), det, rd); } } }
  // y += muH x
  { expcone E[9]; int ne = (int)r.i(1, r.p(0.2) ? 9 : 3), at = (int)r.i(0, 4); memset(E, 0, sizeof E); dvec xx(at + 3 * ne), yy(at + 3 * ne), y0; for (int k = 0; k < ne; k++) { double zk[3], q; dualPoint(r, zk, &q); evalExpHessian(zk, E[k].v, 1 + k); } for (auto& t : xx) t = r.n(); for (auto& t : yy) t = r.n(); y0 = yy; dvec x0 = xx; scaleToAddExpcone(yy.data(), xx.data(), E, ne, at); bool ok = x0 == xx; for (int k = 0; k < at; k++) ok = ok && yy[k] == y0[k]; for (int k = 0; k < ne; k++) for (int i = 0; i < 3; i++) { ld s = y0[at + 3 * k + i], a = fabsl(s); for (int j = 0; j < 3; j++) { ld t = (ld)E[k].v[X[i][j]] * xx[at + 3 * k + j]; s += t; a += fabsl(t); } ok = ok && fabsl(s - yy[at + 3 * k + i]) <= 8 * eps * a; } if (!ok) c.viol("exp/scale", "%s: the product with the scaled Hessians of %d cones is wrong", D.c_str(), ne); c.stat("scalings"); }
  // feasibility tests: the dual point, conjugate primal points, and points moved across the boundary
  double s[3]; for (int i = 0; i < 3; i++) s[i] = (double)-B.g[i]; ld ps = primalMargin(s), prel = ps / (fabsl(s[2] * logl((ld)s[1] / s[2])) + fabsl(s[0]) + fabsl(s[2]));
  { double zz[27], ss[27]; int ne = (int)r.i(1, r.p(0.2) ? 9 : 3); bool zin = true, sin = true, zk = true, sk = true; for (int k = 0; k < ne; k++) { double q; dualPoint(r, zz + 3 * k, &q); if (k == 0) memcpy(zz, z, sizeof z); HD b = dualBarrier(zz + 3 * k); for (int i = 0; i < 3; i++) ss[3 * k + i] = (double)-b.g[i];
      if (r.p(0.3)) { int t = (int)r.i(0, 3); double* p = zz + 3 * k; if (t == 0) p[0] = -p[0]; else if (t == 1) p[1] = -p[1]; else { ld m = dualMargin(p); p[2] -= (double)(m + (fabsl(p[2]) + m) * powl(10, r.u(-8, 1))); } }
      if (r.p(0.3)) { int t = (int)r.i(0, 3); double* p = ss + 3 * k; if (t == 0) p[1] = -p[1]; else if (t == 1) p[2] = -p[2]; else { ld m = primalMargin(p); p[0] += (double)(m + (fabsl(p[0]) + fabsl(m)) * powl(10, r.u(-8, 1))); } }
      auto dm = [&](double* p, bool dual, bool& in, bool& known) { bool dom = dual ? p[0] < 0 && p[1] > 0 : p[1] > 0 && p[2] > 0; if (!dom) { in = false; return; } ld m = dual ? dualMargin(p) : primalMargin(p), sc = dual ? fabsl(p[0] * (logl((ld)p[1]) - logl(-(ld)p[0]))) + fabsl(p[0]) + fabsl(p[2]) : fabsl(p[2] * (logl((ld)p[1]) - logl((ld)p[2]))) + fabsl(p[0]) + fabsl(p[2]); if (fabsl(m) < 8 * eps * sc) known = false; if (m < 0) in = false; };
      dm(zz + 3 * k, true, zin, zk); dm(ss + 3 * k, false, sin, sk); }
    if (zk) { bool f = evalExpDualFeas(zz, ne) == 1; c.stat(zin ? "dual points inside" : "dual points outside"); if (f != zin) c.viol("exp/dual-feasible", "%d cones, first at (%.17g,%.17g,%.17g): %s, but reported %s", ne, zz[0], zz[1], zz[2], zin ? "inside the dual cone" : "outside", f ? "inside" : "outside"); }
    if (sk) { bool f = evalExpPrimalFeas(ss, ne) == 1; c.stat(sin ? "primal points inside" : "primal points outside"); if (f != sin) c.viol("exp/primal-feasible", "%d cones, first at (%.17g,%.17g,%.17g): %s, but reported %s", ne, ss[0], ss[1], ss[2], sin ? "inside the cone" : "outside", f ? "inside" : "outside"); }
    int b = (int)r.i(0, 3 * ne - 1); double zn[27], sn[27]; memcpy(zn, zz, sizeof zz); memcpy(sn, ss, sizeof ss); zn[b] = NAN; sn[b] = NAN; c.stat("points that are not numbers"); if (evalExpDualFeas(zn, ne)) c.viol("exp/dual-feasible-nan", "a point with entry %d not a number is reported inside the dual cone", b % 3); if (evalExpPrimalFeas(sn, ne)) c.viol("exp/primal-feasible-nan", "a point with entry %d not a number is reported inside the cone", b % 3); }
  // barrier values: conjugate pairs sum to -3; cones add up
  if (prel > 0 && rel > 1e-9) { ld arg = 1 - s[0] / (ld)s[2] - logl((ld)s[2]) + logl((ld)s[1]); ld o = omega(arg), t = (o - 1) * (o - 1) / o, ref = -logl(t) - 2 * logl((ld)s[2]) - logl((ld)s[1]) - 3; ld parts = 1 + fabsl(logl(t)) + fabsl(logl((ld)s[2])) + fabsl(logl((ld)s[1])) + fabsl(B.v) + fabsl(logl(rr)); ld acc = eps * (cnd * 8 + parts * 8 + (fabsl(s[0] / (ld)s[2]) + fabsl(logl((ld)s[2])) + fabsl(logl((ld)s[1])) + 1) / std::min<ld>(1, arg - 1) * 8); c.stat("barrier values");
    if (fabsl(ref + B.v + 3) > 1e3 * (acc + eps / prel)) c.fail(fmt("reference barrier: %Lg + %Lg", ref, B.v)); int at = (int)r.i(0, 3), ne = (int)r.i(1, r.p(0.2) ? 9 : 3); ld want = 0; dvec S(at + 3 * ne, 5.0), Z(at + 3 * ne, 5.0); for (int k = 0; k < ne; k++) { int a = k ? (int)r.i(-9, 9) : 0, b = k ? (int)r.i(-9, 9) : 0; want += ref + B.v - 3 * (a + b) * logl(2.0L); /* the barriers are homogeneous */ for (int i = 0; i < 3; i++) { S[at + 3 * k + i] = ldexp(s[i], a); Z[at + 3 * k + i] = ldexp(z[i], b); } } double b = evalBarrierValue(S.data(), Z.data(), at, ne); ld e = fabsl(b - want) / ne; acc += 40 * eps; c.maxi("barrier error / tolerance", (double)(e / (64 * acc))); if (!(e < 64 * acc)) c.viol("exp/barrier", "%s: the barrier values of %d multiples of a conjugate pair sum to %.17g instead of %.17Lg", D.c_str(), ne, b, want); }
}
static Reg r1("C23", cone1);
static void om(Ctx& c) {
  Rng& r = c.rng; for (int k = 0; k < 64; k++) { double z; int u = (int)r.i(0, 6); z = u == 0 ? r.u(0, 1) : u == 1 ? r.u(1, 1 + M_PI) : u == 2 ? (1 + M_PI) * (1 + r.n() * pow(10, r.u(-16, -1))) : u == 3 ? 1 + pow(10, r.u(-16, 0)) : u == 4 ? pow(10, r.u(0, 100)) : u == 5 ? r.u(1, 100) : pow(10, -r.u(0, 300)); if (!(z >= 0)) continue; if (k == 0 && c.idx < 5) z = vector<double>{0, 1, 1 + M_PI, 1e100, 4.1415926535897931}[c.idx];
    ld ref = omega(z); double w = wrightOmega(z); double e = (double)fabsl((w - ref) / ref); c.stat("special function values"); c.seen(hash64(&z, 8)); c.maxi(z < 1 ? "omega error / eps, below 1" : "omega error / eps", e / 2.2e-16); if (!(e < 64 * 2.2e-16)) c.viol("exp/omega", "omega(%.17g)=%.17g, the root of w+log(w)=z is %.17Lg", z, w, ref);
    ld res = w + logl((ld)w) - z; if (!(fabsl(res) < 64 * 2.2e-16L * (1 + w + fabsl(logl((ld)w)) + z))) c.viol("exp/omega", "w=omega(%.17g)=%.17g, but w+log(w)-z=%Lg", z, w, res); }
  // increasing
  double a = r.p(0.3) ? 1 + M_PI - pow(10, r.u(-14, -1)) : pow(10, r.u(-3, 6)), b = a + pow(10, r.u(-10, 0)) * (1 + a); if (!(wrightOmega(b) > wrightOmega(a)) && b - a > 1e-11 * b) c.viol("exp/omega-monotone", "omega(%.17g)=%.17g, omega(%.17g)=%.17g", a, wrightOmega(a), b, wrightOmega(b)); c.sample(fmt("64 arguments, %g..%g", a, b));
  // symmetric part of the barrier
  { idxint l = r.i(0, 4); vector<idxint> qd; for (long k = r.i(0, 3); k > 0; k--) qd.push_back(r.i(1, 6)); idxint m = l; for (auto p : qd) m += p; dvec s(m + 1), z(m + 1); for (idxint i = 0; i < l; i++) { s[i] = pow(10, r.u(-6, 6)); z[i] = pow(10, r.u(-6, 6)); } idxint k = l; for (auto p : qd) { for (auto* t : {&s, &z}) { double n = 0, f = pow(10, r.u(-4, 4)); for (idxint j = 1; j < p; j++) { (*t)[k + j] = f * r.n(); n += (*t)[k + j] * (*t)[k + j]; } (*t)[k] = sqrt(n) * (1 + r.u(0.1, 2)) + f * 0.1; } k += p; }
    double tau = pow(10, r.u(-8, 3)), kap = pow(10, r.u(-8, 3)), Dg = (double)r.i(1, 20); ld ref = -logl((ld)tau) - logl((ld)kap) - Dg - 1, a2 = fabsl(ref) + 2 * Dg + 40; for (idxint i = 0; i < l; i++) { ref -= logl((ld)s[i]) + logl((ld)z[i]); a2 += fabsl(logl((ld)s[i])) + fabsl(logl((ld)z[i])); } k = l; for (auto p : qd) { for (auto* t : {&s, &z}) { ld n = (ld)(*t)[k] * (*t)[k]; for (idxint j = 1; j < p; j++) n -= (ld)(*t)[k + j] * (*t)[k + j]; ref -= logl(n) / 2; a2 += fabsl(logl(n)) + 100; } k += p; }
    cone C; memset(&C, 0, sizeof C); lpcone L; memset(&L, 0, sizeof L); L.p = l; C.lpc = &L; vector<socone> S(qd.size()); for (size_t i = 0; i < qd.size(); i++) { memset(&S[i], 0, sizeof(socone)); S[i].p = qd[i]; } C.soc = S.data(); C.nsoc = (idxint)qd.size(); C.fexv = m; double b = evalSymmetricBarrierValue(s.data(), z.data(), tau, kap, &C, Dg); c.stat("symmetric barriers"); if (!(fabsl(b - ref) < 64 * 2.2e-16L * a2)) c.viol("exp/symmetric-barrier", "l=%ld, %zu second-order cones: the symmetric barrier is %.17g, should be %.17Lg", (long)l, qd.size(), b, ref); }
}
static Reg r2("C23omega", om);
// in solves with exponential cones: the scaled Hessian held by the workspace is that of the iterate
static void inSolve(Ctx& c) {
  Rng& r = c.rng; Prob P; Shape sh; sh.nmax = 8; sh.mmax = 18; for (int k = 0; k < 50; k++) { P = r.p(0.5) ? genStrict(r, sh) : r.p(0.5) ? genPlanted(r, sh) : genReal(r, (int)r.i(0, NREAL - 1), 0); if (P.nex) break; } if (!P.nex) return; string D = P.describe(); c.sample(D); c.seen(P.sig()); dvec pz; double pmu = 0; long it = -2;
  g_iter_hook = [&](pwork* w) { if (w->info->iter == it + 1) for (idxint e = 0; e < w->C->nexc; e++) { const double* z = &pz[w->C->fexv + 3 * e]; ld m = dualMargin(z); if (!(z[0] < 0 && z[1] > 0 && m > 0)) continue; double rel = (double)(m / (fabsl(z[0] * logl(-(ld)z[1] / z[0])) + fabsl(z[0]) + fabsl(z[2]))); if (rel < 1e-9) continue; HD B = dualBarrier(z); c.stat("scalings in solves"); const int I[6] = {0, 0, 1, 0, 1, 2}, J[6] = {0, 1, 1, 2, 2, 2};
        for (int k = 0; k < 6; k++) { ld h = B.h[I[k]][J[k]] * pmu, sc = sqrtl(B.h[I[k]][I[k]] * B.h[J[k]][J[k]]) * pmu; if (!(fabsl(w->C->expc[e].v[k] - h) <= (1e-7L + 1e-13L / rel) * sc)) c.viol("exp/solve-hessian", "%s: iteration %ld: entry (%d,%d) of the scaled Hessian of cone %ld is %g, should be %Lg", D.c_str(), it, I[k], J[k], (long)e, w->C->expc[e].v[k], h); } }
    pz.assign(w->z, w->z + w->m); pmu = w->info->mu; it = w->info->iter; };
  solveFresh(P); g_iter_hook = nullptr; c.stat("solves");
}
static Reg r3("C23solve", inSolve);
