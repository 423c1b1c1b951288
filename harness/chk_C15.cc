// C15: branching strategy, node selection, reliability threshold, random numbers and the order of declarations do not change the answer.
#include "common.h"
static void agree(Ctx& c) {
  Rng& r = c.rng; int which = (int)(c.idx % NMIP); MIP M = genMip(r, which, (int)r.i(0, c.thorough ? 3 : 2)); string D = M.P.describe() + fmt(" booleans %zu integers %zu", M.bidx.size(), M.iidx.size());
  struct Run { BBOpt o; BBRes R; string tag; }; vector<Run> runs; double tl = r.p(0.7) ? 1e-6 : pow(10, r.u(-8, -2)), al = tl, rl = tl; if (r.p(0.25)) { if (r.p(0.5)) { al = pow(10, r.u(-3, 0.5)); rl = 1e-8; } else { rl = pow(10, r.u(-3, -0.5)); al = 1e-8; } } double it = r.p(0.85) ? 1e-4 : pow(10, r.u(-6, -3));
  auto go = [&](const MIP& N, int st, int sel, long eta, unsigned seed, const string& extra, const vector<long>* pm) { BBOpt o; o.strat = st; o.sel = sel; o.eta = eta; o.maxit = 3000; o.abs_tol = al; o.rel_tol = rl; o.int_tol = it; srand(seed); Run q; q.o = o; q.R = solveBB(N, o); q.tag = fmt("strategy %d selection %d reliability %ld seed %u%s", st, sel, eta, seed, extra.c_str()); if (!q.R.setup) { c.viol("agree/setup", "%s: setup failed", D.c_str()); return; }
    c.stat("solves"); c.stat("code " + codeName(q.R.code)); c.stat("relaxations", (double)q.R.nsub); if (pm) { dvec x(q.R.x); for (idxint j = 0; j < M.P.n; j++) x[j] = q.R.x[(*pm)[j]]; q.R.x = x; } runs.push_back(q); };
  if (r.p(0.5) || M.P.n <= 4) { for (int st = 0; st < 5; st++) for (int sel = 0; sel < 3; sel++) { go(M, st, sel, r.i(0, 8), (unsigned)r.i(1, 1000), "", nullptr); c.stat(fmt("strategy %d selection %d", st, sel)); } }
  else { int k = (int)r.i(3, 6); for (int i = 0; i < k; i++) { int st = (int)r.i(0, 4), sel = (int)r.i(0, 2); go(M, st, sel, r.i(0, 8), (unsigned)r.i(1, 1000), "", nullptr); c.stat(fmt("strategy %d selection %d", st, sel)); } }
  for (int i = 0; i < 2; i++) { vector<long> pm; MIP N = permuteMip(r, M, &pm); go(N, (int)r.i(0, 4), (int)r.i(0, 2), r.i(0, 8), (unsigned)r.i(1, 1000), ", variables and declarations permuted", &pm); c.stat("permuted declarations"); }
  if (M.bidx.size() && r.p(0.5)) { // booleans are integers between 0 and 1
    MIP N = M; dvec lo, hi; vector<Trip> g; for (size_t k = 0; k < M.bidx.size(); k++) { idxint j = M.bidx[k]; N.iidx.insert(N.iidx.begin() + k, j); g.push_back({(idxint)(2 * k), j, 1}); g.push_back({(idxint)(2 * k + 1), j, -1}); } N.bidx.clear(); idxint a = 2 * (idxint)M.bidx.size(); for (auto& e : toTrip(M.P.G)) g.push_back({e.r + a, e.c, e.v}); dvec h; for (size_t k = 0; k < M.bidx.size(); k++) { h.push_back(1); h.push_back(0); } h.insert(h.end(), M.P.h.begin(), M.P.h.end()); N.P.h = h; N.P.l += a; N.P.m += a; N.P.G = fromTrip(N.P.m, N.P.n, g);
    go(N, (int)r.i(0, 4), (int)r.i(0, 2), r.i(0, 8), 1, ", booleans declared as integers", nullptr); c.stat("booleans declared as integers"); }
  // the verdicts
  const Run* opt = nullptr; for (auto& q : runs) if ((q.R.code == 0 || q.R.code == 10) && (!opt || q.R.U < opt->R.U)) opt = &q; const Run *fin = nullptr, *inf = nullptr, *unb = nullptr; for (auto& q : runs) { if (q.R.code == 0 || q.R.code == 10) fin = &q; if (q.R.code == 1) inf = &q; if (q.R.code == 2) unb = &q; if (q.R.code == 10 || q.R.code == 11 || q.R.code == 12) c.stat("not decided"); if (q.R.code != 0 && q.R.code != 1 && q.R.code != 2 && q.R.code != 10 && q.R.code != 11) c.viol("agree/code", "%s: %s with %s", D.c_str(), codeName(q.R.code).c_str(), q.tag.c_str()); }
  if (inf && fin) c.viol("agree/infeasible", "%s: infeasible with %s, but a solution of value %.9g with %s", D.c_str(), inf->tag.c_str(), fin->R.U, fin->tag.c_str());
  if (unb && fin) c.viol("agree/unbounded", "%s: unbounded with %s, but a solution of value %.9g with %s", D.c_str(), unb->tag.c_str(), fin->R.U, fin->tag.c_str()); if (unb && inf) c.viol("agree/unbounded-infeasible", "%s: unbounded with %s, but infeasible with %s", D.c_str(), unb->tag.c_str(), inf->tag.c_str());
  { // the strategies need different numbers of nodes, but one that runs into the limit of 3000 nodes where another needs a few does not branch on what is fractional (but for parity problems, where most choices lead nowhere)
    const Run* least = nullptr; for (auto& q : runs) if ((q.R.code == 0 || q.R.code == 1) && (!least || q.R.iter < least->R.iter)) least = &q;
    if (least) for (auto& q : runs) { double f = (q.R.iter + 1.0) / std::max<double>(3, least->R.iter + 1.0); bool par = M.fam == "parity"; c.maxi(par ? "nodes relative to the least (or 3)/parity" : "nodes relative to the least (or 3)", f); c.stat("numbers of nodes compared"); if (!par && least->R.iter < 100) { c.stat("answers where another strategy needs fewer than 100 nodes"); if ((q.R.code == 10 || q.R.code == 11) && q.R.iter + 1 >= 3000) c.stat("undecided at the limit of nodes although another strategy needs fewer than 100"); } if (!par && q.R.ninacc == 0 && (f > 300 || ((q.R.code == 10 || q.R.code == 11) && q.R.iter + 1 >= 3000 && least->R.iter < 100))) c.viol("agree/nodes", "%s: %s after %ld nodes with %s, but %s after %ld nodes with %s", D.c_str(), codeName(q.R.code).c_str(), (long)q.R.iter + 1, q.tag.c_str(), codeName(least->R.code).c_str(), (long)least->R.iter + 1, least->tag.c_str()); } }
  if (inf) c.stat("infeasible problems"); if (unb) c.stat("unbounded problems");
  if (opt) { c.stat("problems with a solution"); double best = opt->R.U; for (auto& q : runs) { if (q.R.code != 0) continue; c.stat("values compared"); double t = std::max(al, rl * std::max(fabs(q.R.U), fabs(q.R.L))) + 2e-6 + 2e-6 * fabs(best); for (idxint k = 0; k < M.nint(); k++) t += 2 * fabs(M.P.c[M.var(k)]) * it; t += 0.1 * it; double e = q.R.U - best; if (M.P.nex) c.stat("values compared/exponential cones");
      if (e > t) { if (inaccurateRelaxation(M, q.R, q.o, best)) { c.stat("values that differ because of inaccurate relaxations"); if (!M.P.nex) c.stat("values that differ because of inaccurate relaxations/no exponential cones"); } else c.viol("agree/value", "%s: optimal value %.9g with %s (bound %.9g, costs %.9g %.9g), but %.9g with %s", D.c_str(), q.R.U, q.tag.c_str(), q.R.L, q.R.info.pcost, q.R.info.dcost, best, opt->tag.c_str()); } else c.maxi("difference relative to tolerance", e / t); }
    if (std::isfinite(best)) for (auto& q : runs) if ((q.R.code == 0 || q.R.code == 10) && q.R.L > best + 1e-3 * (1 + fabs(best)) + rl * fabs(best) + 10 * it * (1 + fabs(best))) { if (q.R.ninacc) c.stat("bounds above the optimum, inaccurate relaxations"); else c.viol("agree/bound", "%s: lower bound %.9g with %s, but a solution of value %.9g with %s", D.c_str(), q.R.L, q.tag.c_str(), best, opt->tag.c_str()); } }
  c.seen(M.P.sig()); c.sample(D + fmt(" %zu runs", runs.size()));
}
static Reg r1("C15", agree);
