// Comparison of two runs that must agree.
#pragma once
#include "common.h"
static string same(const Res& a, const Res& b) { // bit-identical
  if (a.code != b.code) return fmt("verdict %s instead of %s", codeName(b.code).c_str(), codeName(a.code).c_str()); if (a.info.iter != b.info.iter) return fmt("%ld iterations instead of %ld", (long)b.info.iter, (long)a.info.iter);
  auto cmp = [](const dvec& u, const dvec& v, const char* nm) -> string { for (size_t i = 0; i < u.size(); i++) if (memcmp(&u[i], &v[i], 8) && !(std::isnan(u[i]) && std::isnan(v[i]))) return fmt("%s[%zu]=%.17g instead of %.17g", nm, i, v[i], u[i]); return ""; };
  string s = cmp(a.x, b.x, "x"); if (s.empty()) s = cmp(a.y, b.y, "y"); if (s.empty()) s = cmp(a.z, b.z, "z"); if (s.empty()) s = cmp(a.s, b.s, "s"); if (s.empty() && a.info.pcost != b.info.pcost && !(std::isnan(a.info.pcost))) s = fmt("cost %.17g instead of %.17g", b.info.pcost, a.info.pcost); return s;
}
static double dist(const dvec& a, const dvec& b) { double d = 0, n = 1; for (size_t i = 0; i < a.size(); i++) { d = std::max(d, fabs(a[i] - b[i])); n = std::max(n, fabs(a[i])); } return d / n; }
static string famOf(const Prob& P) { return (P.fam == "strict" || P.fam == "planted" || P.fam == "pinf" || P.fam == "dinf") ? P.fam : P.expect == 0 && P.wellscaled ? "application" : "other"; }
// differences of two runs that are not bit-identical; counted, and judged against what a rounding error in the data does
static void compare(Ctx& c, const Prob& P, const Res& R0, const Res& R2, const string& kind, double tf, const string& what, const string& pre) {
  string fam = famOf(P), k = "/" + kind; bool rob = fam != "other"; string g = rob ? "robust" : "other"; c.stat("compared/" + g + k);
  if (R2.code != R0.code) { c.stat("verdicts differ/" + g + k); if (rob && R0.code >= 0 && R2.code >= 0 && R0.code % 10 != R2.code % 10 && kind == "disturbed") c.viol(pre + "/verdict", "%s: %s %s, a fresh workspace ends with %s", P.describe().c_str(), codeName(R2.code).c_str(), what.c_str(), codeName(R0.code).c_str()); return; }
  long di = labs((long)R2.info.iter - (long)R0.info.iter); c.maxi("iteration difference/" + g + k, (double)di); if (di > 1) c.stat("iterations differ by more than 1/" + g + k);
  if (R0.code == 0) { double e = fabs(R0.info.pcost - R2.info.pcost) / (1 + fabs(R0.info.pcost)); c.maxi("objective difference/" + g + k, e); double dx = dist(R0.x, R2.x); c.maxi("x difference/" + g + k, dx); if (dx > 1e-6) c.stat("x differs by more than 1e-6/" + g + k); if (dx > 1e-3) c.stat("x differs by more than 1e-3/" + g + k);
    if (rob && e > 1e-5 * std::max(1.0, tf) + 5e-8 * sensitivity(P, R0) / (1 + fabs(R0.info.pcost)) && kind == "disturbed") c.viol(pre + "/objective", "%s: cost %.12g %s, %.12g in a fresh workspace", P.describe().c_str(), R2.info.pcost, what.c_str(), R0.info.pcost); }
}
