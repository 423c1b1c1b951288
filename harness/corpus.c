/* Captures the problems of the repository's own test headers: ECOS_setup is replaced by a recorder. */
#include <stdio.h>
#include <setjmp.h>
#include <stdlib.h>
#include <string.h>
#include "ecos.h"
#undef MAXIT
typedef struct { const char* name; idxint d[6]; idxint *q, *Gjc, *Gir, *Ajc, *Air; pfloat *Gpr, *Apr, *c, *h, *b; } cap;
static cap caps[64]; static int ncaps; static jmp_buf jb; static const char* curname;
static void* dup_(const void* p, size_t n) { void* r; if (!p) return 0; r = malloc(n ? n : 1); memcpy(r, p, n); return r; }
static pwork* verif_capture(idxint n, idxint m, idxint p, idxint l, idxint nc, idxint* q, idxint nex, pfloat* Gpr, idxint* Gjc, idxint* Gir, pfloat* Apr, idxint* Ajc, idxint* Air, pfloat* c, pfloat* h, pfloat* b) {
  cap* k = &caps[ncaps++]; k->name = curname; k->d[0] = n; k->d[1] = m; k->d[2] = p; k->d[3] = l; k->d[4] = nc; k->d[5] = nex;
  k->q = dup_(q, nc * sizeof(idxint)); if (!Gpr || !Gjc || !Gir) { Gpr = 0; Gjc = 0; Gir = 0; }
  k->Gpr = dup_(Gpr, Gjc ? Gjc[n] * sizeof(pfloat) : 0); k->Gjc = dup_(Gjc, (n + 1) * sizeof(idxint)); k->Gir = dup_(Gir, Gjc ? Gjc[n] * sizeof(idxint) : 0);
  if (!Apr || !Ajc || !Air) { Apr = 0; Ajc = 0; Air = 0; }
  k->Apr = dup_(Apr, Ajc ? Ajc[n] * sizeof(pfloat) : 0); k->Ajc = dup_(Ajc, (n + 1) * sizeof(idxint)); k->Air = dup_(Air, Ajc ? Ajc[n] * sizeof(idxint) : 0);
  k->c = dup_(c, n * sizeof(pfloat)); k->h = dup_(h, m * sizeof(pfloat)); k->b = dup_(b, p * sizeof(pfloat));
  longjmp(jb, 1); return 0;
}
#define ECOS_setup verif_capture
#include "LPnetlib/lp_afiro.h"
#include "LPnetlib/lp_adlittle.h"
#include "LPnetlib/lp_blend.h"
#include "LPnetlib/lp_bandm.h"
#include "LPnetlib/lp_beaconfd.h"
#include "LPnetlib/lp_agg.h"
#include "LPnetlib/lp_agg2.h"
#include "LPnetlib/lp_agg3.h"
#include "LPnetlib/lp_bnl1.h"
#include "LPnetlib/lp_25fv47.h"
#include "MPC/MPC02.h"
#include "cvxpyProblems/githubIssue98.h"
#include "exponential/log_ax_x.h"
#include "exponential/num_err.h"
#include "exponential/random_feasible.h"
#include "exponential/random_infeasible.h"
#include "exponential/random_unbounded.h"
#include "feasibilityProblems/feas.h"
#include "infeasibleProblems/infeasible1.h"
#include "infeasibleProblems/infeasible2.h"
#include "unboundedProblems/unboundedLP1.h"
#include "unboundedProblems/unboundedMaxSqrt.h"
#include "updateData/update_data.h"
#undef ECOS_setup
static void grab(const char* nm, char* (*f)(void)) { curname = nm; if (!setjmp(jb)) f(); }
#define GR(x) grab(#x, test_##x)
static void init_(void) {
  if (ncaps) return;
  GR(lp_afiro); GR(lp_adlittle); GR(lp_blend); GR(MPC02); GR(issue98); GR(log_ax_x); GR(num_err); GR(random_feasible); GR(random_infeasible); GR(random_unbounded);
  GR(feas); GR(infeasible1); GR(infeasible2); GR(unboundedLP1); GR(unboundedMaxSqrt); GR(update_data);
  GR(lp_bandm); GR(lp_beaconfd); GR(lp_agg); GR(lp_agg2); GR(lp_agg3); GR(lp_bnl1); GR(lp_25fv47);
}
int corpus_count(void) { init_(); return ncaps; }
const char* corpus_get(int k, idxint* d, idxint** q, double** Gpr, idxint** Gjc, idxint** Gir, double** Apr, idxint** Ajc, idxint** Air, double** c, double** h, double** b) {
  cap* x; init_(); x = &caps[k]; memcpy(d, x->d, sizeof x->d); *q = x->q; *Gpr = x->Gpr; *Gjc = x->Gjc; *Gir = x->Gir; *Apr = x->Apr; *Ajc = x->Ajc; *Air = x->Air; *c = x->c; *h = x->h; *b = x->b; return x->name;
}
