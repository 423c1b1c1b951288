/* Entry points for the MemorySanitizer build: the harness is not instrumented, so the calls into
   the library go through functions that pass arguments with a clean shadow. */
#include "ecos.h"
#include "ecos_bb.h"
#define NS __attribute__((no_sanitize("memory")))
pwork* __real_ECOS_setup(idxint, idxint, idxint, idxint, idxint, idxint*, idxint, pfloat*, idxint*, idxint*, pfloat*, idxint*, idxint*, pfloat*, pfloat*, pfloat*);
NS pwork* __wrap_ECOS_setup(idxint n, idxint m, idxint p, idxint l, idxint nc, idxint* q, idxint e, pfloat* a, idxint* b, idxint* c, pfloat* d, idxint* f, idxint* g, pfloat* h, pfloat* i, pfloat* j) { return __real_ECOS_setup(n, m, p, l, nc, q, e, a, b, c, d, f, g, h, i, j); }
idxint __real_ECOS_solve(pwork*); NS idxint __wrap_ECOS_solve(pwork* w) { return __real_ECOS_solve(w); }
void __real_ECOS_cleanup(pwork*, idxint); NS void __wrap_ECOS_cleanup(pwork* w, idxint k) { __real_ECOS_cleanup(w, k); }
void __real_ECOS_updateData(pwork*, pfloat*, pfloat*, pfloat*, pfloat*, pfloat*); NS void __wrap_ECOS_updateData(pwork* w, pfloat* a, pfloat* b, pfloat* c, pfloat* d, pfloat* e) { __real_ECOS_updateData(w, a, b, c, d, e); }
void __real_ecos_updateDataEntry_h(pwork*, idxint, pfloat); NS void __wrap_ecos_updateDataEntry_h(pwork* w, idxint i, pfloat v) { __real_ecos_updateDataEntry_h(w, i, v); }
void __real_ecos_updateDataEntry_c(pwork*, idxint, pfloat); NS void __wrap_ecos_updateDataEntry_c(pwork* w, idxint i, pfloat v) { __real_ecos_updateDataEntry_c(w, i, v); }
ecos_bb_pwork* __real_ECOS_BB_setup(idxint, idxint, idxint, idxint, idxint, idxint*, idxint, pfloat*, idxint*, idxint*, pfloat*, idxint*, idxint*, pfloat*, pfloat*, pfloat*, idxint, idxint*, idxint, idxint*, settings_bb*);
NS ecos_bb_pwork* __wrap_ECOS_BB_setup(idxint n, idxint m, idxint p, idxint l, idxint nc, idxint* q, idxint e, pfloat* a, idxint* b, idxint* c, pfloat* d, idxint* f, idxint* g, pfloat* h, pfloat* i, pfloat* j, idxint nb, idxint* bi, idxint ni, idxint* ii, settings_bb* s) { return __real_ECOS_BB_setup(n, m, p, l, nc, q, e, a, b, c, d, f, g, h, i, j, nb, bi, ni, ii, s); }
idxint __real_ECOS_BB_solve(ecos_bb_pwork*); NS idxint __wrap_ECOS_BB_solve(ecos_bb_pwork* w) { return __real_ECOS_BB_solve(w); }
void __real_ECOS_BB_cleanup(ecos_bb_pwork*, idxint); NS void __wrap_ECOS_BB_cleanup(ecos_bb_pwork* w, idxint k) { __real_ECOS_BB_cleanup(w, k); }
void __real_updateDataEntry_h(ecos_bb_pwork*, idxint, pfloat); NS void __wrap_updateDataEntry_h(ecos_bb_pwork* w, idxint i, pfloat v) { __real_updateDataEntry_h(w, i, v); }
void __real_updateDataEntry_c(ecos_bb_pwork*, idxint, pfloat); NS void __wrap_updateDataEntry_c(ecos_bb_pwork* w, idxint i, pfloat v) { __real_updateDataEntry_c(w, i, v); }
settings_bb* __real_get_default_ECOS_BB_settings(void); NS settings_bb* __wrap_get_default_ECOS_BB_settings(void) { return __real_get_default_ECOS_BB_settings(); }
