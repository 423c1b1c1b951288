// Shared declarations of the verification harness.
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <signal.h>
extern "C" {
#include "ecos.h"
#include "ecos_bb.h"
#include "equil.h"
#include "splamm.h"
#include "spla.h"
#include "wright_omega.h"
}
#undef MAX
typedef long double ld;
using std::string;
using std::vector;
typedef vector<double> dvec;
typedef vector<idxint> ivec;

struct Rng {
  uint64_t s[4];
  static uint64_t splitmix(uint64_t& x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31);
  }
  explicit Rng(uint64_t a = 1, uint64_t b = 0, uint64_t c = 0) {
    uint64_t x = a * 0x9E3779B97F4A7C15ULL ^ (b + 0x1234567) * 0xC2B2AE3D27D4EB4FULL ^ (c + 77) * 0x165667B19E3779F9ULL;
    for (int i = 0; i < 4; i++) s[i] = splitmix(x);
  }
  uint64_t next() {
    auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
    uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45); return r;
  }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double u(double a, double b) { return a + (b - a) * u(); }
  long i(long a, long b) { return a + (long)(next() % (uint64_t)(b - a + 1)); }  // inclusive
  bool p(double pr) { return u() < pr; }
  double n() { double a = u(), b = u(); return sqrt(-2 * log(a + 1e-300)) * cos(6.283185307179586 * b); }
  template <class T> const T& pick(const vector<T>& v) { return v[i(0, (long)v.size() - 1)]; }
  vector<long> perm(long n_) { vector<long> r(n_); for (long k = 0; k < n_; k++) r[k] = k; for (long k = n_ - 1; k > 0; k--) std::swap(r[k], r[i(0, k)]); return r; }
};

struct Mat {  // compressed columns
  idxint m = 0, n = 0; ivec jc, ir; dvec pr;
  Mat() {}
  Mat(idxint m_, idxint n_) : m(m_), n(n_), jc(n_ + 1, 0) {}
  idxint nnz() const { return n ? jc[n] : 0; }
};
struct Trip { idxint r, c; double v; };
Mat fromTrip(idxint m, idxint n, vector<Trip> t);           // sums duplicates, sorted
vector<Trip> toTrip(const Mat& a);
vector<dvec> dense(const Mat& a);
Mat fromDense(const vector<dvec>& d, idxint m, idxint n);
double matMaxAbs(const Mat& a);

struct Prob {
  idxint n = 0, m = 0, p = 0, l = 0, nex = 0; ivec q; Mat G, A; dvec c, h, b;
  bool passA = false;                  // pass A (and b) as non-NULL
  string fam; int expect = -1;         // 0 optimal, 1 primal infeasible, 2 dual infeasible, -1 unknown
  bool haveopt = false; double opt = 0; bool wellscaled = true; bool primalfeas = false, dualfeas = false;
  idxint D() const { return l + (idxint)q.size() + 3 * nex; }
  uint64_t sig() const;                // hash of the shape and the data
  string mix() const;                  // L / Q / E letters
  string describe() const;
};
string probJson(const Prob& P);        // complete data, for replay files

// exact-size heap copies of the user's data, plus pristine copies to compare with
struct UData {
  double *Gpr = 0, *Apr = 0, *c = 0, *h = 0, *b = 0; idxint *Gjc = 0, *Gir = 0, *Ajc = 0, *Air = 0, *q = 0;
  UData() {}
  explicit UData(const Prob& P) { fill(P); }
  UData(const UData&) = delete; UData& operator=(const UData&) = delete;
  void fill(const Prob& P);
  void release();
  ~UData() { release(); }
  // compares the numerical arrays with P; returns an empty string or what differs
  string diff(const Prob& P, double rtol, bool onlyc = false) const;
  string diffIdx(const Prob& P) const;   // bit-exact index arrays
};

struct Res {
  idxint code = -99; dvec x, y, z, s; double tau = 0, kap = 0; stats info; dvec xe, Ae, Ge;
  bool ok() const { return code == 0; }
};
pwork* setupProb(const Prob& P, UData& U, bool quiet = true);
struct FakeClock { bool on = false; int64_t ns = 0, first = 0, last = 0; long n = 0; uint64_t x = 1; void start(uint64_t seed) { on = true; x = seed | 1; ns = (int64_t)(seed % 5000) * 1000000000 + 999000000 + seed % 1000000; n = 0; } double span() const { return (last - first) * 1e-9; } };
extern thread_local FakeClock t_clock;
double sensitivity(const Prob& P, const Res& R); // what an error of size one, relative to the data, in the residuals changes the value by
Res grab(pwork* w, idxint code);
Res solveW(pwork* w);
Res solveFresh(const Prob& P, std::function<void(pwork*)> tweak = nullptr);
string codeName(idxint c);

struct Tol { double feas = 1e-8, abs = 1e-8, rel = 1e-8, feasI = 1e-4, absI = 5e-5, relI = 5e-5; };

// metrics recomputed in long double from the user's data and the returned point
struct Met {
  bool finite = true;
  // in the solver's equilibrated coordinates
  ld pres, dres, gap, relgap, pcost, dcost, pinfres, dinfres; bool relgapdef, pinfdef, dinfdef; ld pinfval, dinfval;
  // in the user's coordinates
  ld upr_eq, upr_in, udr, upc, udc, ugap;  // relative residuals, costs, |pc-dc|
  ld smargin, zmargin;                     // worst relative cone margin (negative = outside)
  // certificates in user coordinates, normalised
  ld cert_pinf_res, cert_pinf_val, cert_dinf_res, cert_dinf_val;
};
Met metrics(const Prob& P, const Res& R);
ld coneMarginPrimal(const Prob& P, const dvec& s);  // min over cones of relative margin
ld coneMarginDual(const Prob& P, const dvec& z);

// ---- generators
struct Shape { long nmax = 12, mmax = 30; bool lp = true, soc = true, ex = true; double density = -1; bool soc1 = true; double large = 0.01; };
void randomCones(Rng& r, Prob& P, const Shape& sh);
Prob genStrict(Rng& r, const Shape& sh);      // strictly feasible primal and dual
Prob genPlanted(Rng& r, const Shape& sh);     // known strictly complementary optimum
Prob genInfeasible(Rng& r, const Shape& sh);  // interior Farkas certificate
Prob genUnbounded(Rng& r, const Shape& sh);   // interior improving ray
Prob genReal(Rng& r, int which, int size);    // application families, 0..NREAL-1
extern const int NREAL;
Prob genNasty(Rng& r, int which);             // degenerate / pathological / badly scaled
extern const int NNASTY;
Prob genEdge(Rng& r, int which);              // extreme shapes
extern const int NEDGE;
Prob genAny(Rng& r);                          // mixture of everything
void rescaleRandom(Rng& r, Prob& P, double decades);
Prob corpus(int k); extern const int NCORPUS; // repository test problems
// transformations (C12)
struct MIP {
  Prob P; ivec bidx, iidx; dvec lo, hi;   // bounds of the integer variables implied by the constraints, per position of bidx then iidx
  string fam; int expect = -1;            // as Prob::expect, of the relaxation: 2 = unbounded relaxation
  idxint nint() const { return (idxint)(bidx.size() + iidx.size()); }
  idxint var(idxint k) const { return k < (idxint)bidx.size() ? bidx[k] : iidx[k - bidx.size()]; }
};
const int NMIP = 13;
MIP genMip(Rng& r, int which, int size);    // size 0 tiny .. 3
MIP permuteMip(Rng& r, const MIP& M, vector<long>* perm = nullptr);
// value of an integer assignment: +inf infeasible, NaN inconclusive
double mipEval(const MIP& M, const dvec& v, dvec* x = nullptr);
struct Brute { double best = INFINITY; bool sure = true; long n = 0, nfeas = 0; dvec arg; };
Brute bruteForce(const MIP& M, long cap);
struct BBRes { idxint code = -99; dvec x, y, z, s; stats info; double U = 0, L = 0; idxint iter = 0; dvec ex; stats einfo; bool setup = false; long ninacc = 0, nsub = 0; /* subproblems, and those not solved to full accuracy */ };
extern thread_local vector<idxint>* g_subcodes;   // receives the exit code of every ECOS_solve
struct BBOpt { long maxit = 2000; double abs_tol = 1e-6, rel_tol = 1e-6, int_tol = 1e-4; int strat = 3, sel = 1; long eta = 6; bool defaults = false; };
struct BBData { UData U; idxint *bi = 0, *ii = 0; settings_bb st; explicit BBData(const MIP& M, const BBOpt& o); ~BBData(); };
ecos_bb_pwork* setupBB(const MIP& M, BBData& D, const BBOpt& o);
BBRes grabBB(ecos_bb_pwork* w, idxint code);
BBRes runBB(ecos_bb_pwork* w);
BBRes solveBB(const MIP& M, const BBOpt& o);
// a wrong optimum that the known finding about relaxations solved to reduced accuracy explains: the cost of the incumbent differs from its own bound by as much,
// or the gap is open because a leaf was closed on such a relaxation (this only with exponential cones).
bool inaccurateRelaxation(const MIP& M, const BBRes& R, const BBOpt& o, double best);
string checkBBPoint(const MIP& M, const BBRes& R, const BBOpt& o, string* key, double tolf = 1);  // feasibility, integrality, reported cost; empty if fine

// ---- heap monitor
void vf_fill(int mode, unsigned seed = 1); void vf_track_begin(); long vf_track_end(string* what = nullptr, long* allocs = nullptr); void vf_forget(void* p);
void vf_unpoison(const void* p, size_t n); bool vf_initialised(const void* p, size_t n);
// ---- context
struct Ctx {
  string check; uint64_t seed = 1; long idx = 0; bool thorough = false; bool replay = false; Rng rng; double frac = 0;
  Ctx() : rng(1) {}
  void viol(const string& key, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
  void stat(const string& k, double v = 1);     // summed over all cases
  void maxi(const string& k, double v);         // maximum over all cases
  void seen(uint64_t sig) { sigs.insert(sig); } // marks the case as distinct + non-trivial
  void sample(const string& js);
  void res(const string& line);                 // result of this case, compared across builds by the runner
  void fail(const string& why);                 // harness error: exit 3
  Prob* last = nullptr;
  std::set<uint64_t> sigs; std::map<string, double> st, mx; long nviol = 0, nsample = 0;
};
extern Ctx* G_ctx;
typedef void (*CheckFn)(Ctx&);
void registerCheck(const char* name, CheckFn f);
struct Reg { Reg(const char* n, CheckFn f) { registerCheck(n, f); } };
void watchdog(int secs);   // (re)arms the per-case watchdog
extern std::function<void(pwork*)> g_iter_hook;  // called from ecos_verif_iterate
string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
uint64_t hash64(const void* p, size_t n, uint64_t h = 1469598103934665603ULL);
inline uint64_t hmix(uint64_t a, uint64_t b) { a ^= b + 0x9e3779b97f4a7c15ULL + (a << 6) + (a >> 2); return a * 0x2545F4914F6CDD1DULL; }
