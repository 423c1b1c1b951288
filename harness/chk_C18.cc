// C18: threads that work on their own problems.  Every thread follows a script whose results were recorded when it ran alone; ThreadSanitizer watches the accesses.
#include "common.h"
#include <atomic>
#include <signal.h>
#include <thread>
#include <unistd.h>
extern thread_local unsigned t_rand; // the generator of the library is shared by the whole process: every script starts a sequence of its own, or the order of the branching would depend on the others
static volatile sig_atomic_t g_caller = 0;
static void callerHandler(int) { g_caller = g_caller + 1; }
struct Trace { dvec v; vector<string> tag; bool interrupted = false; double sum = 0; string data; void add(const char* t, double x) { v.push_back(x); tag.push_back(t); } void add(const char* t, const double* p, size_t n) { for (size_t i = 0; i < n; i++) add(t, p[i]); } };
static thread_local unsigned t_noise = 0; static std::atomic<bool> g_on{false}; static std::atomic<long> g_live{0}, g_iters{0}, g_overlap{0}, g_max{0};
static void hookNoise(pwork*) { if (!g_on.load(std::memory_order_relaxed)) return; g_iters.fetch_add(1, std::memory_order_relaxed); if (g_live.load(std::memory_order_relaxed) > 1) g_overlap.fetch_add(1, std::memory_order_relaxed); if (!t_noise) return; t_noise = t_noise * 1664525u + 1013904223u; unsigned u = t_noise >> 24; if (u < 40) std::this_thread::yield(); else if (u < 46) usleep(u % 7 * 20); }
static void addRes(Trace& T, const Res& R) { T.add("verdict", (double)R.code); if (R.code == ECOS_SIGINT || R.code + ECOS_INACC_OFFSET == ECOS_SIGINT) T.interrupted = true; T.add("x", R.x.data(), R.x.size()); T.add("y", R.y.data(), R.y.size()); T.add("z", R.z.data(), R.z.size()); T.add("s", R.s.data(), R.s.size()); const stats& i = R.info; double st[] = {i.pcost, i.dcost, i.pres, i.dres, i.pinfres, i.dinfres, i.gap, i.relgap, i.mu, i.sigma, i.step, (double)i.iter, (double)i.nitref1, (double)i.nitref2, (double)i.nitref3}; T.add("statistics", st, sizeof st / sizeof *st); }
static Prob pickProb(Rng& r) { double u = r.u(); Shape sh; sh.nmax = 10; sh.mmax = 24; if (u < 0.3) return genStrict(r, sh); if (u < 0.4) return genPlanted(r, sh); if (u < 0.5) return r.p(0.5) ? genInfeasible(r, sh) : genUnbounded(r, sh); if (u < 0.7) return genReal(r, (int)r.i(0, NREAL - 1), (int)r.i(0, 2)); if (u < 0.8) return genEdge(r, (int)r.i(0, NEDGE - 1)); return genAny(r); }
// one script; the same generator gives the same script
static void script(Rng r, bool mips, Trace& T) {
  t_rand = (unsigned)r.i(1, 1 << 30); int jobs = (int)r.i(1, 3); for (int j = 0; j < jobs; j++) {
    if (mips && r.p(0.35)) { MIP M = genMip(r, (int)r.i(0, NMIP - 1), (int)r.i(0, 1)); BBOpt o; o.strat = (int)r.i(0, 4); o.sel = (int)r.i(0, 1); o.maxit = r.i(5, 60); BBData D(M, o); ecos_bb_pwork* w = setupBB(M, D, o); T.add("setup", w ? 1 : 0); if (!w) continue; int k = (int)r.i(1, 2); for (int t = 0; t < k; t++) { BBRes R = runBB(w); if (R.code == ECOS_SIGINT) T.interrupted = true; T.add("verdict", (double)R.code); T.add("iterations", (double)R.iter); T.add("x", R.x.data(), R.x.size()); T.add("bounds", R.U); T.add("bounds", R.L); T.add("subproblems", (double)R.nsub); if (t == 0 && k == 2 && M.P.m) { idxint q = r.i(0, M.P.m - 1); updateDataEntry_h(w, q, M.P.h[q] + 0.25); } } ECOS_BB_cleanup(w, 0); continue; }
    Prob P = pickProb(r); UData U(P); pwork* w = setupProb(P, U); T.add("setup", w ? 1 : 0); if (!w) continue; if (r.p(0.08)) w->stgs->verbose = 1; if (r.p(0.2)) w->stgs->maxit = r.i(0, 30); if (r.p(0.2)) w->stgs->feastol = w->stgs->abstol = w->stgs->reltol = pow(10, r.u(-12, -3)); if (r.p(0.1)) w->stgs->nitref = r.i(0, 9);
    addRes(T, solveW(w)); UData* U2 = nullptr; Prob Q = P; if (r.p(0.4)) { int op = (int)r.i(0, 2); if (op == 0) { for (auto* v : {&Q.G.pr, &Q.A.pr, &Q.h, &Q.b, &Q.c}) for (auto& e : *v) e *= 1 + 0.05 * r.n(); U2 = new UData(Q); ECOS_updateData(w, U2->Gpr, U2->Apr, U2->c, U2->h, U2->b); } else if (op == 1 && P.m) { idxint q = r.i(0, P.m - 1); Q.h[q] += 0.1 * r.n(); ecos_updateDataEntry_h(w, q, Q.h[q]); } else if (P.n) { idxint q = r.i(0, P.n - 1); Q.c[q] += 0.1 * r.n(); ecos_updateDataEntry_c(w, q, Q.c[q]); } addRes(T, solveW(w)); }
    ECOS_cleanup(w, 0); string d = (U2 ? U2 : &U)->diff(Q, 1e-11); if (d.empty()) d = (U2 ? U2 : &U)->diffIdx(Q); if (d.size() && T.data.empty()) T.data = P.describe() + ": " + d; delete U2;
  }
  t_rand = 0;
}
static string differ(const Trace& a, const Trace& b) { if (a.v.size() != b.v.size()) return fmt("%zu values recorded instead of %zu", b.v.size(), a.v.size()); for (size_t i = 0; i < a.v.size(); i++) if (memcmp(&a.v[i], &b.v[i], 8) && !(std::isnan(a.v[i]) && std::isnan(b.v[i]))) return fmt("%s: %.17g instead of %.17g (value %zu of %zu)", a.tag[i].c_str(), b.v[i], a.v[i], i, a.v.size()); return ""; }
static void run(Ctx& c, bool signals) {
  Rng& r = c.rng; int nt = (int)r.i(2, 8); bool samecfg = r.p(0.15), mips = r.p(0.5); vector<Rng> S; for (int t = 0; t < nt; t++) S.push_back(samecfg && t ? S[0] : Rng((uint64_t)r.i(1, 1000000000), 77, (uint64_t)t)); for (auto& s : S) { Rng q = s; c.seen(hmix((uint64_t)(q.u() * 4e18), nt)); }
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = callerHandler; sigemptyset(&sa.sa_mask); sigaction(SIGINT, &sa, nullptr); g_caller = 0;
  vector<Trace> alone(nt), conc(nt); for (int t = 0; t < nt; t++) { if (samecfg && t) alone[t] = alone[0]; else { script(S[t], mips, alone[t]); if (getenv("VF_TWICE")) { Trace T2; script(S[t], mips, T2); string d = differ(alone[t], T2); if (d.size()) c.viol("twice", "%s", d.c_str()); } } if (alone[t].data.size()) { c.stat("data differ when alone"); return; } }
  c.sample(fmt("%d threads, %s%s", nt, samecfg ? "the same script" : "different scripts", mips ? ", mixed-integer too" : "")); g_iter_hook = hookNoise; g_iters = g_overlap = 0; g_on = true; { std::atomic<int> ready{0}; std::atomic<bool> go{false}; vector<unsigned> seeds; for (int t = 0; t < nt; t++) seeds.push_back(r.p(0.3) ? 0 : (unsigned)r.i(1, 1 << 30)); vector<std::thread> th;
    for (int t = 0; t < nt; t++) th.emplace_back([&, t]() { t_noise = seeds[t]; ready++; while (!go) std::this_thread::yield(); g_live++; long l = g_live; if (l > g_max) g_max = l; script(S[t], mips, conc[t]); g_live--; });
    while (ready < nt) std::this_thread::yield(); long sent = 0; if (signals) { long n = r.i(1, 4); std::thread killer([&]() { for (long i = 0; i < n; i++) { usleep((useconds_t)(50 + 1500 * (i + 1) % 997)); kill(getpid(), SIGINT); sent++; } }); go = true; killer.join(); } else go = true; for (auto& x : th) x.join(); c.stat("interrupts sent", (double)sent); }
  g_on = false; g_iter_hook = nullptr; c.stat("threads", nt); c.stat("iterations", (double)g_iters); c.stat("iterations while another thread was at work", (double)g_overlap); c.maxi("threads at work at once", (double)g_max);
  for (int t = 0; t < nt; t++) { string d = differ(alone[t], conc[t]); c.stat("results compared", (double)alone[t].v.size()); if (conc[t].data.size()) c.viol("thr/data", "%d threads: %s", nt, conc[t].data.c_str()); if (conc[t].interrupted) { c.stat("interrupted"); if (!signals) c.viol("thr/interrupted", "%d threads: interrupted without an interrupt", nt); continue; } if (signals && d.size()) { c.stat("other results after interrupts"); continue; } if (d.size()) { c.viol("thr/result", "%d threads, thread %d: %s than when run alone", nt, t, d.c_str()); break; } c.stat("scripts with the results of running alone"); }
  struct sigaction now; sigaction(SIGINT, nullptr, &now); c.stat("dispositions compared"); if (now.sa_handler != callerHandler) { c.viol("thr/disposition", "%d threads: afterwards the caller's handler of SIGINT is not in force", nt); } else { sig_atomic_t b = g_caller; raise(SIGINT); if (g_caller != b + 1) c.viol("thr/disposition", "%d threads: an interrupt afterwards does not reach the caller", nt); } signal(SIGINT, SIG_DFL);
}
static void threads(Ctx& c) { run(c, false); }
static Reg r1("C18", threads);
static void threadsInt(Ctx& c) { run(c, true); }
static Reg r2("C18int", threadsInt);
