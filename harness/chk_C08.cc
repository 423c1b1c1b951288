// Random sequences of API calls on several live workspaces, under a heap monitor (leaks) and, in the sanitizer builds, ASan and UBSan.
#include "common.h"
extern "C" { extern void* (*amd_malloc)(size_t); }
static thread_local int t_mem; static void* noMem(size_t n) { return t_mem-- > 0 ? malloc(n) : NULL; } // the memory of the ordering runs out after a few blocks
extern dvec intPoint(Rng& r, const Prob& P, bool dual);
struct Live { Prob P; UData* U = nullptr; pwork* w = nullptr; vector<UData*> more; MIP M; BBData* B = nullptr; ecos_bb_pwork* bb = nullptr; BBOpt o; int solves = 0; };
static void settingsRandom(Rng& r, pwork* w) {
  settings* s = w->stgs; s->verbose = r.p(0.15); s->maxit = r.p(0.3) ? r.i(0, 15) : 100; s->nitref = r.i(0, 9); s->gamma = r.u(0.5, 0.99); s->feastol = pow(10, r.u(-16, -1)); s->abstol = pow(10, r.u(-16, -1)); s->reltol = pow(10, r.u(-16, -1));
  s->feastol_inacc = pow(10, r.u(-9, 1)); s->abstol_inacc = pow(10, r.u(-9, 1)); s->reltol_inacc = pow(10, r.u(-9, 1)); if (r.p(0.2)) { s->delta = pow(10, r.u(-9, -5)); s->eps = pow(10, r.u(-14, -10)); } if (r.p(0.2)) { s->max_bk_iter = r.i(1, 90); s->bk_scale = r.u(0.3, 0.95); s->centrality = r.u(0.5, 2); }
}
static Prob small(Rng& r) { double u = r.u(); Shape sh; sh.nmax = 6; sh.mmax = 14; if (u < 0.25) return genEdge(r, (int)r.i(0, NEDGE - 1)); if (u < 0.5) return genNasty(r, (int)r.i(0, NNASTY - 1)); if (u < 0.9) { int k = (int)r.i(0, 3); return k == 0 ? genStrict(r, sh) : k == 1 ? genPlanted(r, sh) : k == 2 ? genInfeasible(r, sh) : genUnbounded(r, sh); } return genAny(r); }
static void seq(Ctx& c) {
  Rng& r = c.rng; vf_track_begin(); string ops; uint64_t sg = 0;
  { vector<Live> L; int n = (int)r.i(2, 14);
    auto kill = [&](size_t i) { Live& a = L[i]; if (a.w) { long keep = r.p(0.7) ? 0 : r.i(1, 5); double *x = a.w->x, *y = a.w->y, *z = a.w->z, *s = a.w->s; idxint nx = a.w->n, ny = a.w->p, nm = a.w->m; bool ran = a.solves > 0; ECOS_cleanup(a.w, keep); volatile double t = 0; auto rd = [&](double* v, idxint k) { if (ran) for (idxint j = 0; j < k; j++) t = t + v[j]; free(v); };
        if (keep >= 1) rd(x, nx); if (keep >= 2) rd(y, ny); if (keep >= 3) rd(s, nm); if (keep >= 4) rd(z, nm); c.stat("continuous cleanups"); }
      if (a.bb) { long keep = r.p(0.7) ? 0 : r.i(1, 5); double *x = a.bb->x, *y = a.bb->y, *z = a.bb->z, *s = a.bb->s; ECOS_BB_cleanup(a.bb, keep); if (keep >= 1) free(x); if (keep >= 2) free(y); if (keep >= 3) free(s); if (keep >= 4) free(z); c.stat("mixed-integer cleanups"); }
      delete a.U; for (auto* m : a.more) delete m; delete a.B; L.erase(L.begin() + i); };
    for (int k = 0; k < n; k++) { double u = r.u(); char op = '?';
      if (L.empty() || u < 0.18) { L.emplace_back(); Live& a = L.back(); 
        if (r.p(0.7)) { op = 'a'; a.P = small(r); a.U = new UData(a.P); sg = hmix(sg, a.P.sig()); a.w = setupProb(a.P, *a.U, false); if (!a.w) { c.viol("mem/setup", "%s: setup failed", a.P.describe().c_str()); kill(L.size() - 1); break; } a.w->stgs->verbose = r.p(0.1); c.stat("continuous setups"); c.stat("setups with cones " + a.P.mix()); }
        else { op = 'b'; a.M = genMip(r, (int)r.i(0, NMIP - 1), (int)r.i(0, 1)); if (r.p(0.6)) a.M = permuteMip(r, a.M); if (r.p(0.05)) { a.M.bidx.clear(); a.M.iidx.clear(); a.M.lo.clear(); a.M.hi.clear(); } sg = hmix(sg, a.M.P.sig()); a.P = a.M.P; a.o.maxit = r.p(0.6) ? r.i(0, 8) : r.i(8, 80); a.o.strat = (int)r.i(0, 4); a.o.sel = (int)r.i(0, 2); a.o.eta = r.i(0, 8); a.o.defaults = r.p(0.15); a.o.abs_tol = pow(10, r.u(-8, -1)); a.o.rel_tol = pow(10, r.u(-8, -1)); a.o.int_tol = pow(10, r.u(-6, -2));
          a.B = new BBData(a.M, a.o); a.bb = setupBB(a.M, *a.B, a.o); if (!a.bb) { c.viol("mem/bb-setup", "%s: mixed-integer setup failed", a.P.describe().c_str()); kill(L.size() - 1); break; } if (r.p(0.15)) a.bb->stgs->verbose = 1; if (a.o.defaults) a.bb->stgs->maxit = r.i(1, 60); c.stat("mixed-integer setups"); } }
      else { size_t i = (size_t)r.i(0, (long)L.size() - 1); Live& a = L[i]; idxint N = a.P.n, Mm = a.P.m;
        if (u < 0.25) { op = 'k'; kill(i); }
        else if (u < 0.31) { op = 'r'; // rejected setups
          Prob Q = small(r); UData V(Q); idxint l = Q.l + (r.p(0.5) ? 1 : 0), nex = Q.nex; if (l == Q.l) nex++; bool oom = r.p(0.3); pwork* w; auto keep = amd_malloc; if (oom) { amd_malloc = noMem; t_mem = (int)r.i(0, 5); l = Q.l; nex = Q.nex; }
          if (r.p(0.8)) { w = ECOS_setup(Q.n, Q.m, Q.p, l, (idxint)Q.q.size(), V.q, nex, V.Gpr, V.Gjc, V.Gir, V.Apr, V.Ajc, V.Air, V.c, V.h, V.b); if (w) ECOS_cleanup(w, 0); }
          else { MIP M = genMip(r, (int)r.i(0, NMIP - 1), 0); BBOpt o; o.maxit = 5; o.defaults = r.p(0.3); M.P.l += oom ? 0 : 1; BBData B(M, o); ecos_bb_pwork* b = setupBB(M, B, o); if (b) ECOS_BB_cleanup(b, 0); }
          amd_malloc = keep; c.stat("rejected setups"); }
        else if (a.w) {
          if (u < 0.6) { op = 's'; bool in = r.p(0.15); long at = r.i(0, 10); if (in) g_iter_hook = [at](pwork* q) { if (q->info->iter == at) raise(SIGINT); }; idxint code = ECOS_solve(a.w); g_iter_hook = nullptr; a.solves++; c.stat("solve " + codeName(code)); }
          else if (u < 0.72) { op = 'o'; settingsRandom(r, a.w); }
          else if (u < 0.8 && Mm) { op = 'h'; ecos_updateDataEntry_h(a.w, r.i(0, Mm - 1), r.n() * pow(10, r.u(-3, 3))); }
          else if (u < 0.88 && N) { op = 'c'; ecos_updateDataEntry_c(a.w, r.i(0, N - 1), r.n() * pow(10, r.u(-3, 3))); }
          else { op = 'U'; Prob Q = a.P; double sc = pow(10, r.u(-6, 6)); for (auto* v : {&Q.G.pr, &Q.A.pr, &Q.c, &Q.h, &Q.b}) for (auto& e : *v) e = r.p(0.05) ? 0 : r.n() * sc; if (r.p(0.5)) { // arrays of the same place
              double *G = a.w->G ? a.w->G->pr : NULL, *A = a.w->A ? a.w->A->pr : NULL; for (size_t q = 0; q < Q.G.pr.size(); q++) G[q] = Q.G.pr[q]; if (A) for (size_t q = 0; q < Q.A.pr.size(); q++) A[q] = Q.A.pr[q]; for (idxint q = 0; q < N; q++) a.w->c[q] = Q.c[q]; for (idxint q = 0; q < Mm; q++) a.w->h[q] = Q.h[q]; if (a.w->b) for (idxint q = 0; q < a.P.p; q++) a.w->b[q] = Q.b[q]; ECOS_updateData(a.w, G, A, a.w->c, a.w->h, a.w->b); }
            else { UData* V = new UData(Q); a.more.push_back(V); ECOS_updateData(a.w, V->Gpr, V->Apr, V->c, V->h, V->b); } c.stat("updates of all data"); } }
        else { idxint NI = a.M.nint();
          if (u < 0.65) { op = 'S'; long cnt = 0, at = r.i(0, 40); if (r.p(0.15)) g_iter_hook = [&](pwork*) { if (cnt++ == at) raise(SIGINT); }; if (r.p(0.15)) a.bb->ecos_stgs->maxit = r.i(0, 10); idxint code = ECOS_BB_solve(a.bb); g_iter_hook = nullptr; a.bb->ecos_stgs->maxit = 100; a.solves++; c.stat("mixed-integer solve " + codeName(code)); }
          else if (u < 0.75) { op = 'm'; a.bb->stgs->maxit = r.p(0.5) ? r.i(0, 100) : r.i(1, 6); if (r.p(0.3)) { a.bb->stgs->branching_strategy = (enum BRANCHING_STRATEGY)r.i(0, 4); a.bb->stgs->node_selection_method = (enum NODE_SELECTION_METHOD)r.i(0, 2); } }
          else if (u < 0.87 && Mm) { op = 'H'; updateDataEntry_h(a.bb, r.i(0, Mm - 1), r.n() * 3); }
          else if (N) { op = 'C'; updateDataEntry_c(a.bb, r.i(0, N - 1), r.n() * 3); } (void)NI; } }
      ops += op; c.stat(string("operation ") + op); }
    while (!L.empty()) kill(L.size() - 1); }
  string what; long al; long left = vf_track_end(&what, &al); c.stat("heap blocks followed", (double)al); if (left) c.viol("mem/leak", "sequence %s leaves %s", ops.c_str(), what.c_str());
  c.seen(hmix(sg, hash64(ops.data(), ops.size()))); c.sample("operations " + ops); (void)ECOS_ver();
}
static Reg r1("C08", seq);
// every extreme shape, set up, solved twice, updated and cleaned up
static void shapes(Ctx& c) {
  Rng& r = c.rng; vf_track_begin(); string D; { Prob P = c.idx % 3 == 0 ? genEdge(r, (int)((c.idx / 3) % NEDGE)) : c.idx % 3 == 1 ? genNasty(r, (int)((c.idx / 3) % NNASTY)) : genAny(r); D = P.describe(); UData U(P); pwork* w = setupProb(P, U); if (!w) c.viol("mem/setup", "%s: setup failed", D.c_str()); else { for (int k = 0; k < 2; k++) { idxint code = ECOS_solve(w); c.stat("solve " + codeName(code)); if (k == 0) { UData* V = new UData(P); ECOS_updateData(w, V->Gpr, V->Apr, V->c, V->h, V->b); ECOS_updateData(w, U.Gpr, U.Apr, U.c, U.h, U.b); delete V; } } ECOS_cleanup(w, 0); } c.seen(P.sig()); }
  string what; long al; long left = vf_track_end(&what, &al); if (left) c.viol("mem/leak", "%s leaves %s", D.c_str(), what.c_str());
}
static Reg r2("C08shapes", shapes);
static void corp(Ctx& c) { Prob P = corpus((int)c.idx); { UData U(P); pwork* w = setupProb(P, U); if (w) { ECOS_solve(w); ECOS_cleanup(w, 0); } } c.seen(P.sig()); c.stat("corpus problems"); }
static Reg r3("C08corpus", corp);
