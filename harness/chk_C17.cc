// C17: AMD returns a permutation, leaves its input alone, rejects malformed input, bounds the fill it promises, and finds no-fill orderings where they are easy.
#include "common.h"
extern "C" {
#include "amd.h"
extern void *(*amd_malloc)(size_t); extern void (*amd_free)(void*); }
#ifdef DLONG
typedef SuiteSparse_long Int;
#define ORDER amd_l_order
#define DEFAULTS amd_l_defaults
#define VALID amd_l_valid
extern "C" { SuiteSparse_long amd_l_valid(SuiteSparse_long, SuiteSparse_long, const SuiteSparse_long[], const SuiteSparse_long[]); }
#else
typedef int Int;
#define ORDER amd_order
#define DEFAULTS amd_defaults
#define VALID amd_valid
extern "C" { int amd_valid(int, int, const int[], const int[]); }
#endif
typedef std::pair<long, long> Ed;
struct Pat { long n = 0; std::set<Ed> e; /* i<j */ string fam; bool nofill = false; long slack = 0; /* external degrees tie: a clique of k heads may go before the last k others */ long maxdeg() const { vector<long> d(n, 0); long m = 0; for (auto& x : e) { m = std::max(m, ++d[x.first]); m = std::max(m, ++d[x.second]); } return m; } void add(long i, long j) { if (i != j) e.insert({std::min(i, j), std::max(i, j)}); } };
static Pat gen(Rng& r, bool big) {
  Pat P; long n = big ? r.i(40, 1500) : r.p(0.5) ? r.i(1, 12) : r.i(1, 80); P.n = n; int u = (int)r.i(0, 13);
  switch (u) {
  case 0: P.fam = "diagonal"; P.nofill = true; break;
  case 1: P.fam = "tridiagonal"; P.nofill = true; for (long i = 0; i + 1 < n; i++) P.add(i, i + 1); break;
  case 2: { P.fam = "arrow"; P.nofill = true; long k = std::min(n, r.i(1, 4)); P.slack = k * (k - 1) / 2; for (long i = 0; i < n; i++) for (long j = 0; j < k; j++) P.add(i, j); break; }
  case 3: { P.fam = "tree"; P.nofill = true; int b = (int)r.i(0, 3); for (long i = 1; i < n; i++) P.add(i, b == 0 ? r.i(0, i - 1) : b == 1 ? (i - 1) / 2 : b == 2 ? std::max(0L, i - r.i(1, 3)) : r.i(0, std::min(i - 1, 2L))); break; }
  case 4: { P.fam = "forest"; P.nofill = true; for (long i = 1; i < n; i++) if (r.p(0.7)) P.add(i, r.i(std::max(0L, i - 10), i - 1)); break; }
  case 5: { P.fam = "blocks"; P.nofill = true; long i = 0; while (i < n) { long k = std::min(n - i, r.i(1, 9)); for (long a = 0; a < k; a++) for (long b = 0; b < a; b++) P.add(i + a, i + b); i += k; } break; }
  case 6: { P.fam = "full"; P.nofill = true; P.n = n = std::min(n, 60L); for (long i = 0; i < n; i++) for (long j = 0; j < i; j++) P.add(i, j); break; }
  case 7: { P.fam = "banded"; long b = r.i(2, 6); for (long i = 0; i < n; i++) for (long j = std::max(0L, i - b); j < i; j++) P.add(i, j); break; }
  case 8: { P.fam = "grid"; long k = std::max(1L, (long)sqrt((double)n)); P.n = n = k * k; for (long i = 0; i < k; i++) for (long j = 0; j < k; j++) { if (i) P.add(i * k + j, (i - 1) * k + j); if (j) P.add(i * k + j, i * k + j - 1); } break; }
  case 9: { P.fam = "random"; double d = r.u(0.2, 4); long m = (long)(d * n); for (long k = 0; k < m; k++) P.add(r.i(0, n - 1), r.i(0, n - 1)); break; }
  case 10: { P.fam = "denser random"; P.n = n = std::min(n, 70L); double d = r.u(0.1, 0.9); for (long i = 0; i < n; i++) for (long j = 0; j < i; j++) if (r.p(d)) P.add(i, j); break; }
  case 11: { P.fam = "random with dense rows"; long m = n; for (long k = 0; k < m; k++) P.add(r.i(0, n - 1), r.i(0, n - 1)); long t = r.i(1, 3); for (long k = 0; k < t; k++) { long i = r.i(0, n - 1); double d = r.u(0.3, 1); for (long j = 0; j < n; j++) if (r.p(d)) P.add(i, j); } break; }
  case 12: { P.fam = "kkt"; long a = r.i(1, std::max(1L, n / 2)); for (long j = a; j < n; j++) { long k = r.i(1, 4); for (long t = 0; t < k; t++) P.add(r.i(0, a - 1), j); } break; }
  default: { P.fam = "indistinguishable"; long g = r.i(1, 5), t = 0; vector<long> grp(n); for (long i = 0; i < n; i++) { grp[i] = t; if (r.p(1.0 / (g + 1))) t++; } Pat Q; for (long k = 0; k < t + 1; k++) Q.add(r.i(0, t), r.i(0, t)); for (long i = 0; i < n; i++) for (long j = 0; j < i; j++) if (grp[i] == grp[j] || Q.e.count({std::min(grp[i], grp[j]), std::max(grp[i], grp[j])})) { if (i - j < 400) P.add(i, j); } break; }
  }
  if (r.p(0.8)) { auto pm = r.perm(n); Pat Q; Q.n = n; Q.fam = P.fam; Q.nofill = P.nofill; Q.slack = P.slack; for (auto& x : P.e) Q.add(pm[x.first], pm[x.second]); return Q; }
  return P;
}
// nonzeros per column of L (without the diagonal) of the permuted pattern, by elimination-tree row subtrees
static long colcounts(const Pat& P, const vector<Int>& perm, vector<long>& cnt) {
  long n = P.n; vector<long> inv(n), par(n, -1), flag(n, -1); for (long k = 0; k < n; k++) inv[perm[k]] = k; vector<vector<long>> up(n); for (auto& x : P.e) { long a = inv[x.first], b = inv[x.second]; up[std::max(a, b)].push_back(std::min(a, b)); }
  cnt.assign(n, 0); long t = 0; for (long k = 0; k < n; k++) { flag[k] = k; for (long i : up[k]) for (; flag[i] != k; i = par[i]) { if (par[i] < 0) par[i] = k; cnt[i]++; t++; flag[i] = k; } } return t;
}
static long exactMinDegree(const Pat& P) { // fill of greedy minimum degree
  long n = P.n, t = 0; vector<std::set<long>> a(n); for (auto& x : P.e) { a[x.first].insert(x.second); a[x.second].insert(x.first); } vector<char> done(n, 0);
  for (long k = 0; k < n; k++) { long b = -1; for (long i = 0; i < n; i++) if (!done[i] && (b < 0 || a[i].size() < a[b].size())) b = i; done[b] = 1; t += (long)a[b].size(); for (long i : a[b]) { a[i].erase(b); for (long j : a[b]) if (j != i) a[i].insert(j); } } return t;
}
static long g_failat, g_nalloc, g_live, g_bytes; static void* fmalloc(size_t s) { g_bytes += (long)s; if (++g_nalloc == g_failat) return nullptr; void* p = malloc(s); if (p) g_live++; return p; } static void ffree(void* p) { if (p) g_live--; free(p); }
static void amd(Ctx& c) {
  Rng& r = c.rng; bool big = r.p(c.thorough ? 0.12 : 0.05); Pat P = gen(r, big); long n = P.n;
  // storage: which triangle(s), diagonal, order, duplicates
  vector<vector<long>> col(n); int st = (int)r.i(0, 3); double dg = r.p(0.5) ? 1 : r.p(0.5) ? 0 : 0.5; for (auto& x : P.e) { bool up = st == 0 || st == 2 || (st == 3 && r.p(0.6)), lo = st == 1 || st == 2 || (st == 3 && (!up || r.p(0.4))); if (up) col[x.second].push_back(x.first); if (lo) col[x.first].push_back(x.second); }
  long ndiag = 0, both = 0, offd = 0; for (long j = 0; j < n; j++) if (r.p(dg)) { col[j].push_back(j); ndiag++; } { std::set<Ed> s; for (long j = 0; j < n; j++) for (long i : col[j]) if (i != j) { offd++; if (s.count({j, i})) both += 2; s.insert({i, j}); } }
  bool jumbled = false; int ord = (int)r.i(0, 3); double dup = r.p(0.25) ? r.u(0, 0.5) : 0; for (auto& v : col) { std::sort(v.begin(), v.end()); if (dup > 0) { size_t k0 = v.size(); for (size_t k = 0; k < k0; k++) while (r.p(dup)) v.push_back(v[k]); std::sort(v.begin(), v.end()); } if (ord == 1) std::reverse(v.begin(), v.end()); if (ord == 2) { auto pm = r.perm((long)v.size()); vector<long> w; for (long k : pm) w.push_back(v[k]); v = w; } for (size_t k = 1; k < v.size(); k++) if (v[k] <= v[k - 1]) jumbled = true; }
  vector<Int> Ap(n + 1, 0), Ai; for (long j = 0; j < n; j++) { for (long i : col[j]) Ai.push_back((Int)i); Ap[j + 1] = (Int)Ai.size(); } Int nz = Ap[n];
  // exact-size heap copies, so that a sanitizer sees every access outside of them
  Int *ap = (Int*)malloc(sizeof(Int) * (n + 1)), *ai = (Int*)malloc(sizeof(Int) * std::max((Int)1, nz)), *pp = (Int*)malloc(sizeof(Int) * n); memcpy(ap, Ap.data(), sizeof(Int) * (n + 1)); if (nz) memcpy(ai, Ai.data(), sizeof(Int) * nz); for (long i = 0; i < n; i++) pp[i] = -7; vf_unpoison(ap, sizeof(Int) * (n + 1)); vf_unpoison(ai, sizeof(Int) * nz); vf_unpoison(pp, sizeof(Int) * n);
  double Control[AMD_CONTROL], Info[AMD_INFO]; DEFAULTS(Control); bool dense = false; if (r.p(0.4)) { Control[AMD_DENSE] = r.pick(vector<double>{-1, 0, 0.1, 0.5, 1, 3, 10, 100}); Control[AMD_AGGRESSIVE] = (double)r.i(0, 1); } double* pc = r.p(0.1) ? nullptr : Control; double* pi = r.p(0.05) ? nullptr : Info; double alpha = pc ? Control[0] : 10;
  string D = fmt("%s n=%ld nz=%ld storage %d diagonal %g order %d%s control %s%g %g", P.fam.c_str(), n, (long)nz, st, dg, ord, dup > 0 ? " with duplicates" : "", pc ? "" : "NULL ", alpha, pc ? Control[1] : 1); c.sample(D);
  double C0[AMD_CONTROL]; memcpy(C0, Control, sizeof C0); for (double& v : Info) v = -77; Int rc = ORDER((Int)n, ap, ai, pp, pc, pi); c.stat("orderings"); c.stat("pattern " + P.fam);
  auto done = [&]() { free(ap); free(ai); free(pp); };
  if (memcmp(C0, Control, sizeof C0)) c.viol("amd/control", "%s: the control settings were changed", D.c_str());
  if (rc != (jumbled ? AMD_OK_BUT_JUMBLED : AMD_OK)) { c.viol("amd/status", "%s: returned %ld for a valid pattern, %s", D.c_str(), (long)rc, jumbled ? "jumbled" : "sorted"); done(); return; }
  if (jumbled) c.stat("jumbled patterns");
  if (memcmp(ap, Ap.data(), sizeof(Int) * (n + 1)) || (nz && memcmp(ai, Ai.data(), sizeof(Int) * nz))) c.viol("amd/input", "%s: the input was changed", D.c_str());
  vector<Int> perm(pp, pp + n); { vector<char> s(n, 0); bool ok = true; for (long i = 0; i < n; i++) { if (perm[i] < 0 || perm[i] >= n || s[perm[i]]) { ok = false; break; } s[perm[i]] = 1; } if (!ok) { c.viol("amd/permutation", "%s: the result is not a permutation", D.c_str()); done(); return; } }
  uint64_t sig = hmix(hash64(Ap.data(), sizeof(Int) * (n + 1)), hash64(Ai.data(), sizeof(Int) * nz)); c.seen(sig);
  // fill
  vector<long> cnt; long lnz = colcounts(P, perm, cnt), off = (long)P.e.size(); if (lnz < off) c.fail("fill below the pattern"); c.stat("nonzeros of factors", (double)lnz);
  // rows that count as dense: more than max(16, alpha sqrt(n)) off-diagonal entries
  double thr = alpha < 0 ? 1e18 : std::max(16.0, alpha * sqrt((double)n)); vector<long> deg(n, 0); for (auto& x : P.e) { deg[x.first]++; deg[x.second]++; } long nd = 0; for (long v : deg) if ((double)v > thr - 1 && n > 2) nd++; dense = nd > 0;
  if (P.nofill && !dense && alpha > 0) { c.stat("patterns without fill"); if (lnz > off + P.slack) c.viol("amd/fill/" + P.fam, "%s: %ld entries of fill in a pattern that needs none", D.c_str(), lnz - off); }
  if (!P.nofill && n <= 600 && !dense && alpha > 0 && r.p(n <= 90 ? 0.5 : 0.8)) { string g = fmt("/%s, aggressive %d", n <= 90 ? "small" : "large", pc ? (int)Control[1] : 1); long md = exactMinDegree(P); c.stat("fill compared"); c.stat("nonzeros of compared factors", (double)lnz); c.stat("nonzeros of factors by exact minimum degree", (double)md); c.stat("nonzeros of compared factors" + g, (double)lnz); c.stat("nonzeros of factors by exact minimum degree" + g, (double)md); c.stat("fill compared" + g); if ((double)lnz > 2.0 * md + 40) c.viol("amd/quality", "%s: %ld nonzeros, exact minimum degree gives %ld", D.c_str(), lnz, md); c.maxi("nonzeros relative to exact minimum degree", md ? (double)lnz / md : 1); }
  // dense rows come last
  if (pi) { c.stat("statistics checked"); long dmax = 0; ld ndiv = 0, ms = 0, lu = 0; for (long v : cnt) { dmax = std::max(dmax, v + 1); ndiv += v; ms += (ld)v * (v - 1) / 2 + v; lu += (ld)v * v; }
    auto eq = [&](int k, double v, const char* nm) { if (!(fabs(Info[k] - v) <= 1e-9 * (1 + fabs(v)))) c.viol(string("amd/info/") + nm, "%s: %s is %g, should be %g", D.c_str(), nm, Info[k], v); };
    auto ge = [&](int k, double v, const char* nm) { if (!(Info[k] >= v * (1 - 1e-12))) c.viol(string("amd/info/") + nm, "%s: %s is %g, but the factorisation needs %g", D.c_str(), nm, Info[k], v); else if (v > 0 && !dense) c.maxi(string("bound relative to need: ") + nm, Info[k] / v); };
    eq(AMD_STATUS, rc, "status"); eq(AMD_N, (double)n, "n"); eq(AMD_NZDIAG, (double)ndiag, "nzdiag"); eq(AMD_NZ_A_PLUS_AT, 2.0 * off, "nz-a-plus-at"); eq(AMD_SYMMETRY, offd ? (double)both / offd : 1, "symmetry"); eq(AMD_NZ, dup > 0 ? Info[AMD_NZ] : (double)nz, "nz");
    ge(AMD_LNZ, (double)lnz, "lnz"); ge(AMD_NDIV, (double)ndiv, "ndiv"); ge(AMD_NMULTSUBS_LDL, (double)ms, "nmultsubs-ldl"); ge(AMD_NMULTSUBS_LU, (double)lu, "nmultsubs-lu"); ge(AMD_DMAX, (double)dmax, "dmax");
    if (!dense && Info[AMD_LNZ] > 1.6 * lnz + 30) { c.stat("loose bounds of the fill"); }
    if (Info[AMD_NDENSE] < 0 || Info[AMD_NDENSE] > n) c.viol("amd/info/ndense", "%s: %g dense rows", D.c_str(), Info[AMD_NDENSE]); if (nd) c.stat("patterns with dense rows");
    if (alpha < 0 && Info[AMD_NDENSE] > 0) { long full = 0; for (long v : deg) full += v >= n - 2; if (Info[AMD_NDENSE] > full) c.viol("amd/info/ndense", "%s: %g dense rows although only %ld rows are (nearly) full", D.c_str(), Info[AMD_NDENSE], full); }
    if (alpha >= 0 && n > 40 && Info[AMD_NDENSE] > 0) { // rows clearly above the threshold are at the end
      long k = (long)Info[AMD_NDENSE]; for (long i = 0; i < n - k; i++) if ((double)deg[perm[i]] > thr + 2) { c.viol("amd/dense-last", "%s: a row with %ld entries is at position %ld, before the %ld dense rows at the end", D.c_str(), deg[perm[i]], i, k); break; } c.stat("dense rows placed last"); } }
  // repeatable
  { for (long i = 0; i < n; i++) pp[i] = -9; Int r2 = ORDER((Int)n, ap, ai, pp, pc, nullptr); if (r2 != rc || memcmp(pp, perm.data(), sizeof(Int) * n)) c.viol("amd/repeat", "%s: a second call, without statistics, gives another result (%ld)", D.c_str(), (long)r2); c.stat("repeated"); }
  if (VALID((Int)n, (Int)n, ap, ai) != rc) c.viol("amd/valid", "%s: the validity check returns %ld", D.c_str(), (long)VALID((Int)n, (Int)n, ap, ai));
  { Int k = -(Int)r.i(1, 4); if (VALID(k, (Int)n, ap, ai) != AMD_INVALID || VALID((Int)n, k, ap, ai) != AMD_INVALID || VALID((Int)n, (Int)n, nullptr, ai) != AMD_INVALID || VALID((Int)n, (Int)n, ap, nullptr) != AMD_INVALID) c.viol("amd/valid-malformed", "the validity check accepts negative dimensions or missing arrays"); }
  // malformed input
  { int bad = (int)r.i(0, 8); Int rr = 0; bool used = true; double I2[AMD_INFO]; for (double& v : I2) v = -77; string w;
    switch (bad) {
    case 0: rr = ORDER((Int)n, nullptr, ai, pp, pc, I2); w = "no column pointers"; break;
    case 1: rr = ORDER((Int)n, ap, nullptr, pp, pc, I2); w = "no row indices"; break;
    case 2: rr = ORDER((Int)n, ap, ai, nullptr, pc, I2); w = "no place for the permutation"; break;
    case 3: rr = ORDER((Int)-r.i(1, 5), ap, ai, pp, pc, I2); w = "negative n"; break;
    case 4: if (!nz) { used = false; break; } { Int k = (Int)r.i(0, nz - 1), o = ai[k]; ai[k] = r.p(0.5) ? (Int)n + (Int)r.i(0, 3) : -(Int)r.i(1, 3); rr = ORDER((Int)n, ap, ai, pp, pc, I2); ai[k] = o; w = "row index out of range"; break; }
    case 5: { Int o = ap[0]; ap[0] = r.p(0.5) && ap[1] > 0 ? 1 : -1; rr = ORDER((Int)n, ap, ai, pp, pc, I2); ap[0] = o; w = "first column pointer not zero"; break; }
    case 6: { Int o = ap[n]; ap[n] = -(Int)r.i(1, 3); rr = ORDER((Int)n, ap, ai, pp, pc, I2); ap[n] = o; w = "negative number of entries"; break; }
    case 7: { if (n < 2) { used = false; break; } long k = r.i(1, n - 1); Int o = ap[k]; if (ap[k + 1] < 1 && ap[k - 1] == 0) { ap[k] = -1; } else if (r.p(0.5) && ap[k - 1] > 0) ap[k] = ap[k - 1] - 1; else ap[k] = ap[k + 1] + 1; if (ap[k] == o) { used = false; ap[k] = o; break; } rr = ORDER((Int)n, ap, ai, pp, pc, I2); ap[k] = o; w = "column pointers that decrease"; break; }
    default: { rr = ORDER(0, ap, ai, pp, pc, I2); if (rr != AMD_OK) c.viol("amd/empty", "an empty pattern gives %ld", (long)rr); used = false; c.stat("empty patterns"); } }
    if (used) { c.stat("malformed: " + w); if (rr != AMD_INVALID) c.viol("amd/malformed", "%s: %s: returned %ld", D.c_str(), w.c_str(), (long)rr); if (I2[AMD_STATUS] != AMD_INVALID) c.viol("amd/malformed-info", "%s: %s: the statistics report status %g", D.c_str(), w.c_str(), I2[AMD_STATUS]); } }
  // no memory
  if (r.p(0.3)) { auto om = amd_malloc; auto of = amd_free; amd_malloc = fmalloc; amd_free = ffree; g_nalloc = 0; g_live = 0; g_bytes = 0; g_failat = r.i(1, 7); double I2[AMD_INFO]; Int rr = ORDER((Int)n, ap, ai, pp, pc, I2); bool failed = g_nalloc >= g_failat; amd_malloc = om; amd_free = of;
    if (failed) { c.stat("orderings without memory"); if (rr != AMD_OUT_OF_MEMORY || I2[AMD_STATUS] != AMD_OUT_OF_MEMORY) c.viol("amd/memory", "%s: allocation %ld fails, returned %ld (status %g)", D.c_str(), g_failat, (long)rr, I2[AMD_STATUS]); } else { c.stat("memory compared"); if (fabs(I2[AMD_MEMORY] - g_bytes) > 0.01 * g_bytes + 64) c.viol("amd/info/memory", "%s: reports %g bytes of memory, requested %ld", D.c_str(), I2[AMD_MEMORY], g_bytes); } if (!failed && rr != rc) c.viol("amd/repeat", "%s: returned %ld with another allocator", D.c_str(), (long)rr); if (g_live) c.viol("amd/leak", "%s: %ld blocks are not freed (allocation %ld failed)", D.c_str(), g_live, g_failat); }
  if (memcmp(ap, Ap.data(), sizeof(Int) * (n + 1)) || (nz && memcmp(ai, Ai.data(), sizeof(Int) * nz))) c.viol("amd/input", "%s: the input was changed by a call that fails", D.c_str());
  done();
}
static Reg r1("C17", amd);
