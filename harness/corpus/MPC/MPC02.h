#include "ecos.h"
#include "minunit.h"

idxint MPC02_n = 1496;
idxint MPC02_m = 3996;
idxint MPC02_p = 499;
idxint MPC02_l = 3996;
idxint MPC02_ncones = 0;
pfloat MPC02_c[1496] = {-1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0};
idxint MPC02_Gjc[1497] = {0, 2, 4, 6, 8, 10, 12, 14, 16, 18, 20, 22, 24, 26, 28, 30, 32, 34, 36, 38, 40, 42, 44, 46, 48, 50, 52, 54, 56, 58, 60, 62, 64, 66, 68, 70, 72, 74, 76, 78, 80, 82, 84, 86, 88, 90, 92, 94, 96, 98, 100, 102, 104, 106, 108, 110, 112, 114, 116, 118, 120, 122, 124, 126, 128, 130, 132, 134, 136, 138, 140, 142, 144, 146, 148, 150, 152, 154, 156, 158, 160, 162, 164, 166, 168, 170, 172, 174, 176, 178, 180, 182, 184, 186, 188, 190, 192, 194, 196, 198, 200, 202, 204, 206, 208, 210, 212, 214, 216, 218, 220, 222, 224, 226, 228, 230, 232, 234, 236, 238, 240, 242, 244, 246, 248, 250, 252, 254, 256, 258, 260, 262, 264, 266, 268, 270, 272, 274, 276, 278, 280, 282, 284, 286, 288, 290, 292, 294, 296, 298, 300, 302, 304, 306, 308, 310, 312, 314, 316, 318, 320, 322, 324, 326, 328, 330, 332, 334, 336, 338, 340, 342, 344, 346, 348, 350, 352, 354, 356, 358, 360, 362, 364, 366, 368, 370, 372, 374, 376, 378, 380, 382, 384, 386, 388, 390, 392, 394, 396, 398, 400, 402, 404, 406, 408, 410, 412, 414, 416, 418, 420, 422, 424, 426, 428, 430, 432, 434, 436, 438, 440, 442, 444, 446, 448, 450, 452, 454, 456, 458, 460, 462, 464, 466, 468, 470, 472, 474, 476, 478, 480, 482, 484, 486, 488, 490, 492, 494, 496, 498, 500, 502, 504, 506, 508, 510, 512, 514, 516, 518, 520, 522, 524, 526, 528, 530, 532, 534, 536, 538, 540, 542, 544, 546, 548, 550, 552, 554, 556, 558, 560, 562, 564, 566, 568, 570, 572, 574, 576, 578, 580, 582, 584, 586, 588, 590, 592, 594, 596, 598, 600, 602, 604, 606, 608, 610, 612, 614, 616, 618, 620, 622, 624, 626, 628, 630, 632, 634, 636, 638, 640, 642, 644, 646, 648, 650, 652, 654, 656, 658, 660, 662, 664, 666, 668, 670, 672, 674, 676, 678, 680, 682, 684, 686, 688, 690, 692, 694, 696, 698, 700, 702, 704, 706, 708, 710, 712, 714, 716, 718, 720, 722, 724, 726, 728, 730, 732, 734, 736, 738, 740, 742, 744, 746, 748, 750, 752, 754, 756, 758, 760, 762, 764, 766, 768, 770, 772, 774, 776, 778, 780, 782, 784, 786, 788, 790, 792, 794, 796, 798, 800, 802, 804, 806, 808, 810, 812, 814, 816, 818, 820, 822, 824, 826, 828, 830, 832, 834, 836, 838, 840, 842, 844, 846, 848, 850, 852, 854, 856, 858, 860, 862, 864, 866, 868, 870, 872, 874, 876, 878, 880, 882, 884, 886, 888, 890, 892, 894, 896, 898, 900, 902, 904, 906, 908, 910, 912, 914, 916, 918, 920, 922, 924, 926, 928, 930, 932, 934, 936, 938, 940, 942, 944, 946, 948, 950, 952, 954, 956, 958, 960, 962, 964, 966, 968, 970, 972, 974, 976, 978, 980, 982, 984, 986, 988, 990, 992, 994, 996, 998, 1006, 1016, 1018, 1028, 1030, 1040, 1042, 1052, 1054, 1064, 1066, 1076, 1078, 1088, 1090, 1100, 1102, 1112, 1114, 1124, 1126, 1136, 1138, 1148, 1150, 1160, 1162, 1172, 1174, 1184, 1186, 1196, 1198, 1208, 1210, 1220, 1222, 1232, 1234, 1244, 1246, 1256, 1258, 1268, 1270, 1280, 1282, 1292, 1294, 1304, 1306, 1316, 1318, 1328, 1330, 1340, 1342, 1352, 1354, 1364, 1366, 1376, 1378, 1388, 1390, 1400, 1402, 1412, 1414, 1424, 1426, 1436, 1438, 1448, 1450, 1460, 1462, 1472, 1474, 1484, 1486, 1496, 1498, 1508, 1510, 1520, 1522, 1532, 1534, 1544, 1546, 1556, 1558, 1568, 1570, 1580, 1582, 1592, 1594, 1604, 1606, 1616, 1618, 1628, 1630, 1640, 1642, 1652, 1654, 1664, 1666, 1676, 1678, 1688, 1690, 1700, 1702, 1712, 1714, 1724, 1726, 1736, 1738, 1748, 1750, 1760, 1762, 1772, 1774, 1784, 1786, 1796, 1798, 1808, 1810, 1820, 1822, 1832, 1834, 1844, 1846, 1856, 1858, 1868, 1870, 1880, 1882, 1892, 1894, 1904, 1906, 1916, 1918, 1928, 1930, 1940, 1942, 1952, 1954, 1964, 1966, 1976, 1978, 1988, 1990, 2000, 2002, 2012, 2014, 2024, 2026, 2036, 2038, 2048, 2050, 2060, 2062, 2072, 2074, 2084, 2086, 2096, 2098, 2108, 2110, 2120, 2122, 2132, 2134, 2144, 2146, 2156, 2158, 2168, 2170, 2180, 2182, 2192, 2194, 2204, 2206, 2216, 2218, 2228, 2230, 2240, 2242, 2252, 2254, 2264, 2266, 2276, 2278, 2288, 2290, 2300, 2302, 2312, 2314, 2324, 2326, 2336, 2338, 2348, 2350, 2360, 2362, 2372, 2374, 2384, 2386, 2396, 2398, 2408, 2410, 2420, 2422, 2432, 2434, 2444, 2446, 2456, 2458, 2468, 2470, 2480, 2482, 2492, 2494, 2504, 2506, 2516, 2518, 2528, 2530, 2540, 2542, 2552, 2554, 2564, 2566, 2576, 2578, 2588, 2590, 2600, 2602, 2612, 2614, 2624, 2626, 2636, 2638, 2648, 2650, 2660, 2662, 2672, 2674, 2684, 2686, 2696, 2698, 2708, 2710, 2720, 2722, 2732, 2734, 2744, 2746, 2756, 2758, 2768, 2770, 2780, 2782, 2792, 2794, 2804, 2806, 2816, 2818, 2828, 2830, 2840, 2842, 2852, 2854, 2864, 2866, 2876, 2878, 2888, 2890, 2900, 2902, 2912, 2914, 2924, 2926, 2936, 2938, 2948, 2950, 2960, 2962, 2972, 2974, 2984, 2986, 2996, 2998, 3008, 3010, 3020, 3022, 3032, 3034, 3044, 3046, 3056, 3058, 3068, 3070, 3080, 3082, 3092, 3094, 3104, 3106, 3116, 3118, 3128, 3130, 3140, 3142, 3152, 3154, 3164, 3166, 3176, 3178, 3188, 3190, 3200, 3202, 3212, 3214, 3224, 3226, 3236, 3238, 3248, 3250, 3260, 3262, 3272, 3274, 3284, 3286, 3296, 3298, 3308, 3310, 3320, 3322, 3332, 3334, 3344, 3346, 3356, 3358, 3368, 3370, 3380, 3382, 3392, 3394, 3404, 3406, 3416, 3418, 3428, 3430, 3440, 3442, 3452, 3454, 3464, 3466, 3476, 3478, 3488, 3490, 3500, 3502, 3512, 3514, 3524, 3526, 3536, 3538, 3548, 3550, 3560, 3562, 3572, 3574, 3584, 3586, 3596, 3598, 3608, 3610, 3620, 3622, 3632, 3634, 3644, 3646, 3656, 3658, 3668, 3670, 3680, 3682, 3692, 3694, 3704, 3706, 3716, 3718, 3728, 3730, 3740, 3742, 3752, 3754, 3764, 3766, 3776, 3778, 3788, 3790, 3800, 3802, 3812, 3814, 3824, 3826, 3836, 3838, 3848, 3850, 3860, 3862, 3872, 3874, 3884, 3886, 3896, 3898, 3908, 3910, 3920, 3922, 3932, 3934, 3944, 3946, 3956, 3958, 3968, 3970, 3980, 3982, 3992, 3994, 4004, 4006, 4016, 4018, 4028, 4030, 4040, 4042, 4052, 4054, 4064, 4066, 4076, 4078, 4088, 4090, 4100, 4102, 4112, 4114, 4124, 4126, 4136, 4138, 4148, 4150, 4160, 4162, 4172, 4174, 4184, 4186, 4196, 4198, 4208, 4210, 4220, 4222, 4232, 4234, 4244, 4246, 4256, 4258, 4268, 4270, 4280, 4282, 4292, 4294, 4304, 4306, 4316, 4318, 4328, 4330, 4340, 4342, 4352, 4354, 4364, 4366, 4376, 4378, 4388, 4390, 4400, 4402, 4412, 4414, 4424, 4426, 4436, 4438, 4448, 4450, 4460, 4462, 4472, 4474, 4484, 4486, 4496, 4498, 4508, 4510, 4520, 4522, 4532, 4534, 4544, 4546, 4556, 4558, 4568, 4570, 4580, 4582, 4592, 4594, 4604, 4606, 4616, 4618, 4628, 4630, 4640, 4642, 4652, 4654, 4664, 4666, 4676, 4678, 4688, 4690, 4700, 4702, 4712, 4714, 4724, 4726, 4736, 4738, 4748, 4750, 4760, 4762, 4772, 4774, 4784, 4786, 4796, 4798, 4808, 4810, 4820, 4822, 4832, 4834, 4844, 4846, 4856, 4858, 4868, 4870, 4880, 4882, 4892, 4894, 4904, 4906, 4916, 4918, 4928, 4930, 4940, 4942, 4952, 4954, 4964, 4966, 4976, 4978, 4988, 4990, 5000, 5002, 5012, 5014, 5024, 5026, 5036, 5038, 5048, 5050, 5060, 5062, 5072, 5074, 5084, 5086, 5096, 5098, 5108, 5110, 5120, 5122, 5132, 5134, 5144, 5146, 5156, 5158, 5168, 5170, 5180, 5182, 5192, 5194, 5204, 5206, 5216, 5218, 5228, 5230, 5240, 5242, 5252, 5254, 5264, 5266, 5276, 5278, 5288, 5290, 5300, 5302, 5312, 5314, 5324, 5326, 5336, 5338, 5348, 5350, 5360, 5362, 5372, 5374, 5384, 5386, 5396, 5398, 5408, 5410, 5420, 5422, 5432, 5434, 5444, 5446, 5456, 5458, 5468, 5470, 5480, 5482, 5492, 5494, 5504, 5506, 5516, 5518, 5528, 5530, 5540, 5542, 5552, 5554, 5564, 5566, 5576, 5578, 5588, 5590, 5600, 5602, 5612, 5614, 5624, 5626, 5636, 5638, 5648, 5650, 5660, 5662, 5672, 5674, 5684, 5686, 5696, 5698, 5708, 5710, 5720, 5722, 5732, 5734, 5744, 5746, 5756, 5758, 5768, 5770, 5780, 5782, 5792, 5794, 5804, 5806, 5816, 5818, 5828, 5830, 5840, 5842, 5852, 5854, 5864, 5866, 5876, 5878, 5888, 5890, 5900, 5902, 5912, 5914, 5924, 5926, 5936, 5938, 5948, 5950, 5960, 5962, 5972, 5974, 5984, 5986, 5996, 5998, 6008, 6010, 6020, 6022, 6032, 6034, 6044, 6046, 6056, 6058, 6068, 6070, 6080, 6082, 6092, 6094, 6104, 6106, 6116, 6118, 6128, 6130, 6140, 6142, 6152, 6154, 6164, 6166, 6176, 6178, 6188, 6190, 6200, 6202, 6212, 6214, 6224, 6226, 6236, 6238, 6248, 6250, 6260, 6262, 6272, 6274, 6284, 6286, 6296, 6298, 6308, 6310, 6320, 6322, 6332, 6334, 6344, 6346, 6356, 6358, 6368, 6370, 6380, 6382, 6392, 6394, 6404, 6406, 6416, 6418, 6428, 6430, 6440, 6442, 6452, 6454, 6464, 6466, 6476, 6478, 6488, 6490, 6500, 6502, 6512, 6514, 6524, 6526, 6536, 6538, 6548, 6550, 6560, 6562, 6572, 6574, 6584, 6586, 6596, 6598, 6608, 6610, 6620, 6622, 6632, 6634, 6644, 6646, 6656, 6658, 6668, 6670, 6680, 6682, 6692, 6694, 6704, 6706, 6716, 6718, 6728, 6730, 6740, 6742, 6752, 6754, 6764, 6766, 6776, 6778, 6788, 6790, 6800, 6802, 6812, 6814, 6824, 6826, 6836, 6838, 6848, 6850, 6860, 6862, 6872, 6874, 6884, 6886, 6896, 6898, 6908, 6910, 6920, 6922, 6932, 6934, 6944, 6946, 6956, 6958, 6968, 6970, 6980, 6988};
idxint MPC02_Gir[6988] = {2998, 2999, 3000, 3001, 3002, 3003, 3004, 3005, 3006, 3007, 3008, 3009, 3010, 3011, 3012, 3013, 3014, 3015, 3016, 3017, 3018, 3019, 3020, 3021, 3022, 3023, 3024, 3025, 3026, 3027, 3028, 3029, 3030, 3031, 3032, 3033, 3034, 3035, 3036, 3037, 3038, 3039, 3040, 3041, 3042, 3043, 3044, 3045, 3046, 3047, 3048, 3049, 3050, 3051, 3052, 3053, 3054, 3055, 3056, 3057, 3058, 3059, 3060, 3061, 3062, 3063, 3064, 3065, 3066, 3067, 3068, 3069, 3070, 3071, 3072, 3073, 3074, 3075, 3076, 3077, 3078, 3079, 3080, 3081, 3082, 3083, 3084, 3085, 3086, 3087, 3088, 3089, 3090, 3091, 3092, 3093, 3094, 3095, 3096, 3097, 3098, 3099, 3100, 3101, 3102, 3103, 3104, 3105, 3106, 3107, 3108, 3109, 3110, 3111, 3112, 3113, 3114, 3115, 3116, 3117, 3118, 3119, 3120, 3121, 3122, 3123, 3124, 3125, 3126, 3127, 3128, 3129, 3130, 3131, 3132, 3133, 3134, 3135, 3136, 3137, 3138, 3139, 3140, 3141, 3142, 3143, 3144, 3145, 3146, 3147, 3148, 3149, 3150, 3151, 3152, 3153, 3154, 3155, 3156, 3157, 3158, 3159, 3160, 3161, 3162, 3163, 3164, 3165, 3166, 3167, 3168, 3169, 3170, 3171, 3172, 3173, 3174, 3175, 3176, 3177, 3178, 3179, 3180, 3181, 3182, 3183, 3184, 3185, 3186, 3187, 3188, 3189, 3190, 3191, 3192, 3193, 3194, 3195, 3196, 3197, 3198, 3199, 3200, 3201, 3202, 3203, 3204, 3205, 3206, 3207, 3208, 3209, 3210, 3211, 3212, 3213, 3214, 3215, 3216, 3217, 3218, 3219, 3220, 3221, 3222, 3223, 3224, 3225, 3226, 3227, 3228, 3229, 3230, 3231, 3232, 3233, 3234, 3235, 3236, 3237, 3238, 3239, 3240, 3241, 3242, 3243, 3244, 3245, 3246, 3247, 3248, 3249, 3250, 3251, 3252, 3253, 3254, 3255, 3256, 3257, 3258, 3259, 3260, 3261, 3262, 3263, 3264, 3265, 3266, 3267, 3268, 3269, 3270, 3271, 3272, 3273, 3274, 3275, 3276, 3277, 3278, 3279, 3280, 3281, 3282, 3283, 3284, 3285, 3286, 3287, 3288, 3289, 3290, 3291, 3292, 3293, 3294, 3295, 3296, 3297, 3298, 3299, 3300, 3301, 3302, 3303, 3304, 3305, 3306, 3307, 3308, 3309, 3310, 3311, 3312, 3313, 3314, 3315, 3316, 3317, 3318, 3319, 3320, 3321, 3322, 3323, 3324, 3325, 3326, 3327, 3328, 3329, 3330, 3331, 3332, 3333, 3334, 3335, 3336, 3337, 3338, 3339, 3340, 3341, 3342, 3343, 3344, 3345, 3346, 3347, 3348, 3349, 3350, 3351, 3352, 3353, 3354, 3355, 3356, 3357, 3358, 3359, 3360, 3361, 3362, 3363, 3364, 3365, 3366, 3367, 3368, 3369, 3370, 3371, 3372, 3373, 3374, 3375, 3376, 3377, 3378, 3379, 3380, 3381, 3382, 3383, 3384, 3385, 3386, 3387, 3388, 3389, 3390, 3391, 3392, 3393, 3394, 3395, 3396, 3397, 3398, 3399, 3400, 3401, 3402, 3403, 3404, 3405, 3406, 3407, 3408, 3409, 3410, 3411, 3412, 3413, 3414, 3415, 3416, 3417, 3418, 3419, 3420, 3421, 3422, 3423, 3424, 3425, 3426, 3427, 3428, 3429, 3430, 3431, 3432, 3433, 3434, 3435, 3436, 3437, 3438, 3439, 3440, 3441, 3442, 3443, 3444, 3445, 3446, 3447, 3448, 3449, 3450, 3451, 3452, 3453, 3454, 3455, 3456, 3457, 3458, 3459, 3460, 3461, 3462, 3463, 3464, 3465, 3466, 3467, 3468, 3469, 3470, 3471, 3472, 3473, 3474, 3475, 3476, 3477, 3478, 3479, 3480, 3481, 3482, 3483, 3484, 3485, 3486, 3487, 3488, 3489, 3490, 3491, 3492, 3493, 3494, 3495, 3496, 3497, 3498, 3499, 3500, 3501, 3502, 3503, 3504, 3505, 3506, 3507, 3508, 3509, 3510, 3511, 3512, 3513, 3514, 3515, 3516, 3517, 3518, 3519, 3520, 3521, 3522, 3523, 3524, 3525, 3526, 3527, 3528, 3529, 3530, 3531, 3532, 3533, 3534, 3535, 3536, 3537, 3538, 3539, 3540, 3541, 3542, 3543, 3544, 3545, 3546, 3547, 3548, 3549, 3550, 3551, 3552, 3553, 3554, 3555, 3556, 3557, 3558, 3559, 3560, 3561, 3562, 3563, 3564, 3565, 3566, 3567, 3568, 3569, 3570, 3571, 3572, 3573, 3574, 3575, 3576, 3577, 3578, 3579, 3580, 3581, 3582, 3583, 3584, 3585, 3586, 3587, 3588, 3589, 3590, 3591, 3592, 3593, 3594, 3595, 3596, 3597, 3598, 3599, 3600, 3601, 3602, 3603, 3604, 3605, 3606, 3607, 3608, 3609, 3610, 3611, 3612, 3613, 3614, 3615, 3616, 3617, 3618, 3619, 3620, 3621, 3622, 3623, 3624, 3625, 3626, 3627, 3628, 3629, 3630, 3631, 3632, 3633, 3634, 3635, 3636, 3637, 3638, 3639, 3640, 3641, 3642, 3643, 3644, 3645, 3646, 3647, 3648, 3649, 3650, 3651, 3652, 3653, 3654, 3655, 3656, 3657, 3658, 3659, 3660, 3661, 3662, 3663, 3664, 3665, 3666, 3667, 3668, 3669, 3670, 3671, 3672, 3673, 3674, 3675, 3676, 3677, 3678, 3679, 3680, 3681, 3682, 3683, 3684, 3685, 3686, 3687, 3688, 3689, 3690, 3691, 3692, 3693, 3694, 3695, 3696, 3697, 3698, 3699, 3700, 3701, 3702, 3703, 3704, 3705, 3706, 3707, 3708, 3709, 3710, 3711, 3712, 3713, 3714, 3715, 3716, 3717, 3718, 3719, 3720, 3721, 3722, 3723, 3724, 3725, 3726, 3727, 3728, 3729, 3730, 3731, 3732, 3733, 3734, 3735, 3736, 3737, 3738, 3739, 3740, 3741, 3742, 3743, 3744, 3745, 3746, 3747, 3748, 3749, 3750, 3751, 3752, 3753, 3754, 3755, 3756, 3757, 3758, 3759, 3760, 3761, 3762, 3763, 3764, 3765, 3766, 3767, 3768, 3769, 3770, 3771, 3772, 3773, 3774, 3775, 3776, 3777, 3778, 3779, 3780, 3781, 3782, 3783, 3784, 3785, 3786, 3787, 3788, 3789, 3790, 3791, 3792, 3793, 3794, 3795, 3796, 3797, 3798, 3799, 3800, 3801, 3802, 3803, 3804, 3805, 3806, 3807, 3808, 3809, 3810, 3811, 3812, 3813, 3814, 3815, 3816, 3817, 3818, 3819, 3820, 3821, 3822, 3823, 3824, 3825, 3826, 3827, 3828, 3829, 3830, 3831, 3832, 3833, 3834, 3835, 3836, 3837, 3838, 3839, 3840, 3841, 3842, 3843, 3844, 3845, 3846, 3847, 3848, 3849, 3850, 3851, 3852, 3853, 3854, 3855, 3856, 3857, 3858, 3859, 3860, 3861, 3862, 3863, 3864, 3865, 3866, 3867, 3868, 3869, 3870, 3871, 3872, 3873, 3874, 3875, 3876, 3877, 3878, 3879, 3880, 3881, 3882, 3883, 3884, 3885, 3886, 3887, 3888, 3889, 3890, 3891, 3892, 3893, 3894, 3895, 3896, 3897, 3898, 3899, 3900, 3901, 3902, 3903, 3904, 3905, 3906, 3907, 3908, 3909, 3910, 3911, 3912, 3913, 3914, 3915, 3916, 3917, 3918, 3919, 3920, 3921, 3922, 3923, 3924, 3925, 3926, 3927, 3928, 3929, 3930, 3931, 3932, 3933, 3934, 3935, 3936, 3937, 3938, 3939, 3940, 3941, 3942, 3943, 3944, 3945, 3946, 3947, 3948, 3949, 3950, 3951, 3952, 3953, 3954, 3955, 3956, 3957, 3958, 3959, 3960, 3961, 3962, 3963, 3964, 3965, 3966, 3967, 3968, 3969, 3970, 3971, 3972, 3973, 3974, 3975, 3976, 3977, 3978, 3979, 3980, 3981, 3982, 3983, 3984, 3985, 3986, 3987, 3988, 3989, 3990, 3991, 3992, 3993, 3994, 3995, 2, 3, 4, 5, 6, 7, 2998, 2999, 4, 5, 8, 9, 10, 11, 2998, 2999, 3000, 3001, 12, 13, 10, 11, 14, 15, 16, 17, 3000, 3001, 3002, 3003, 18, 19, 16, 17, 20, 21, 22, 23, 3002, 3003, 3004, 3005, 24, 25, 22, 23, 26, 27, 28, 29, 3004, 3005, 3006, 3007, 30, 31, 28, 29, 32, 33, 34, 35, 3006, 3007, 3008, 3009, 36, 37, 34, 35, 38, 39, 40, 41, 3008, 3009, 3010, 3011, 42, 43, 40, 41, 44, 45, 46, 47, 3010, 3011, 3012, 3013, 48, 49, 46, 47, 50, 51, 52, 53, 3012, 3013, 3014, 3015, 54, 55, 52, 53, 56, 57, 58, 59, 3014, 3015, 3016, 3017, 60, 61, 58, 59, 62, 63, 64, 65, 3016, 3017, 3018, 3019, 66, 67, 64, 65, 68, 69, 70, 71, 3018, 3019, 3020, 3021, 72, 73, 70, 71, 74, 75, 76, 77, 3020, 3021, 3022, 3023, 78, 79, 76, 77, 80, 81, 82, 83, 3022, 3023, 3024, 3025, 84, 85, 82, 83, 86, 87, 88, 89, 3024, 3025, 3026, 3027, 90, 91, 88, 89, 92, 93, 94, 95, 3026, 3027, 3028, 3029, 96, 97, 94, 95, 98, 99, 100, 101, 3028, 3029, 3030, 3031, 102, 103, 100, 101, 104, 105, 106, 107, 3030, 3031, 3032, 3033, 108, 109, 106, 107, 110, 111, 112, 113, 3032, 3033, 3034, 3035, 114, 115, 112, 113, 116, 117, 118, 119, 3034, 3035, 3036, 3037, 120, 121, 118, 119, 122, 123, 124, 125, 3036, 3037, 3038, 3039, 126, 127, 124, 125, 128, 129, 130, 131, 3038, 3039, 3040, 3041, 132, 133, 130, 131, 134, 135, 136, 137, 3040, 3041, 3042, 3043, 138, 139, 136, 137, 140, 141, 142, 143, 3042, 3043, 3044, 3045, 144, 145, 142, 143, 146, 147, 148, 149, 3044, 3045, 3046, 3047, 150, 151, 148, 149, 152, 153, 154, 155, 3046, 3047, 3048, 3049, 156, 157, 154, 155, 158, 159, 160, 161, 3048, 3049, 3050, 3051, 162, 163, 160, 161, 164, 165, 166, 167, 3050, 3051, 3052, 3053, 168, 169, 166, 167, 170, 171, 172, 173, 3052, 3053, 3054, 3055, 174, 175, 172, 173, 176, 177, 178, 179, 3054, 3055, 3056, 3057, 180, 181, 178, 179, 182, 183, 184, 185, 3056, 3057, 3058, 3059, 186, 187, 184, 185, 188, 189, 190, 191, 3058, 3059, 3060, 3061, 192, 193, 190, 191, 194, 195, 196, 197, 3060, 3061, 3062, 3063, 198, 199, 196, 197, 200, 201, 202, 203, 3062, 3063, 3064, 3065, 204, 205, 202, 203, 206, 207, 208, 209, 3064, 3065, 3066, 3067, 210, 211, 208, 209, 212, 213, 214, 215, 3066, 3067, 3068, 3069, 216, 217, 214, 215, 218, 219, 220, 221, 3068, 3069, 3070, 3071, 222, 223, 220, 221, 224, 225, 226, 227, 3070, 3071, 3072, 3073, 228, 229, 226, 227, 230, 231, 232, 233, 3072, 3073, 3074, 3075, 234, 235, 232, 233, 236, 237, 238, 239, 3074, 3075, 3076, 3077, 240, 241, 238, 239, 242, 243, 244, 245, 3076, 3077, 3078, 3079, 246, 247, 244, 245, 248, 249, 250, 251, 3078, 3079, 3080, 3081, 252, 253, 250, 251, 254, 255, 256, 257, 3080, 3081, 3082, 3083, 258, 259, 256, 257, 260, 261, 262, 263, 3082, 3083, 3084, 3085, 264, 265, 262, 263, 266, 267, 268, 269, 3084, 3085, 3086, 3087, 270, 271, 268, 269, 272, 273, 274, 275, 3086, 3087, 3088, 3089, 276, 277, 274, 275, 278, 279, 280, 281, 3088, 3089, 3090, 3091, 282, 283, 280, 281, 284, 285, 286, 287, 3090, 3091, 3092, 3093, 288, 289, 286, 287, 290, 291, 292, 293, 3092, 3093, 3094, 3095, 294, 295, 292, 293, 296, 297, 298, 299, 3094, 3095, 3096, 3097, 300, 301, 298, 299, 302, 303, 304, 305, 3096, 3097, 3098, 3099, 306, 307, 304, 305, 308, 309, 310, 311, 3098, 3099, 3100, 3101, 312, 313, 310, 311, 314, 315, 316, 317, 3100, 3101, 3102, 3103, 318, 319, 316, 317, 320, 321, 322, 323, 3102, 3103, 3104, 3105, 324, 325, 322, 323, 326, 327, 328, 329, 3104, 3105, 3106, 3107, 330, 331, 328, 329, 332, 333, 334, 335, 3106, 3107, 3108, 3109, 336, 337, 334, 335, 338, 339, 340, 341, 3108, 3109, 3110, 3111, 342, 343, 340, 341, 344, 345, 346, 347, 3110, 3111, 3112, 3113, 348, 349, 346, 347, 350, 351, 352, 353, 3112, 3113, 3114, 3115, 354, 355, 352, 353, 356, 357, 358, 359, 3114, 3115, 3116, 3117, 360, 361, 358, 359, 362, 363, 364, 365, 3116, 3117, 3118, 3119, 366, 367, 364, 365, 368, 369, 370, 371, 3118, 3119, 3120, 3121, 372, 373, 370, 371, 374, 375, 376, 377, 3120, 3121, 3122, 3123, 378, 379, 376, 377, 380, 381, 382, 383, 3122, 3123, 3124, 3125, 384, 385, 382, 383, 386, 387, 388, 389, 3124, 3125, 3126, 3127, 390, 391, 388, 389, 392, 393, 394, 395, 3126, 3127, 3128, 3129, 396, 397, 394, 395, 398, 399, 400, 401, 3128, 3129, 3130, 3131, 402, 403, 400, 401, 404, 405, 406, 407, 3130, 3131, 3132, 3133, 408, 409, 406, 407, 410, 411, 412, 413, 3132, 3133, 3134, 3135, 414, 415, 412, 413, 416, 417, 418, 419, 3134, 3135, 3136, 3137, 420, 421, 418, 419, 422, 423, 424, 425, 3136, 3137, 3138, 3139, 426, 427, 424, 425, 428, 429, 430, 431, 3138, 3139, 3140, 3141, 432, 433, 430, 431, 434, 435, 436, 437, 3140, 3141, 3142, 3143, 438, 439, 436, 437, 440, 441, 442, 443, 3142, 3143, 3144, 3145, 444, 445, 442, 443, 446, 447, 448, 449, 3144, 3145, 3146, 3147, 450, 451, 448, 449, 452, 453, 454, 455, 3146, 3147, 3148, 3149, 456, 457, 454, 455, 458, 459, 460, 461, 3148, 3149, 3150, 3151, 462, 463, 460, 461, 464, 465, 466, 467, 3150, 3151, 3152, 3153, 468, 469, 466, 467, 470, 471, 472, 473, 3152, 3153, 3154, 3155, 474, 475, 472, 473, 476, 477, 478, 479, 3154, 3155, 3156, 3157, 480, 481, 478, 479, 482, 483, 484, 485, 3156, 3157, 3158, 3159, 486, 487, 484, 485, 488, 489, 490, 491, 3158, 3159, 3160, 3161, 492, 493, 490, 491, 494, 495, 496, 497, 3160, 3161, 3162, 3163, 498, 499, 496, 497, 500, 501, 502, 503, 3162, 3163, 3164, 3165, 504, 505, 502, 503, 506, 507, 508, 509, 3164, 3165, 3166, 3167, 510, 511, 508, 509, 512, 513, 514, 515, 3166, 3167, 3168, 3169, 516, 517, 514, 515, 518, 519, 520, 521, 3168, 3169, 3170, 3171, 522, 523, 520, 521, 524, 525, 526, 527, 3170, 3171, 3172, 3173, 528, 529, 526, 527, 530, 531, 532, 533, 3172, 3173, 3174, 3175, 534, 535, 532, 533, 536, 537, 538, 539, 3174, 3175, 3176, 3177, 540, 541, 538, 539, 542, 543, 544, 545, 3176, 3177, 3178, 3179, 546, 547, 544, 545, 548, 549, 550, 551, 3178, 3179, 3180, 3181, 552, 553, 550, 551, 554, 555, 556, 557, 3180, 3181, 3182, 3183, 558, 559, 556, 557, 560, 561, 562, 563, 3182, 3183, 3184, 3185, 564, 565, 562, 563, 566, 567, 568, 569, 3184, 3185, 3186, 3187, 570, 571, 568, 569, 572, 573, 574, 575, 3186, 3187, 3188, 3189, 576, 577, 574, 575, 578, 579, 580, 581, 3188, 3189, 3190, 3191, 582, 583, 580, 581, 584, 585, 586, 587, 3190, 3191, 3192, 3193, 588, 589, 586, 587, 590, 591, 592, 593, 3192, 3193, 3194, 3195, 594, 595, 592, 593, 596, 597, 598, 599, 3194, 3195, 3196, 3197, 600, 601, 598, 599, 602, 603, 604, 605, 3196, 3197, 3198, 3199, 606, 607, 604, 605, 608, 609, 610, 611, 3198, 3199, 3200, 3201, 612, 613, 610, 611, 614, 615, 616, 617, 3200, 3201, 3202, 3203, 618, 619, 616, 617, 620, 621, 622, 623, 3202, 3203, 3204, 3205, 624, 625, 622, 623, 626, 627, 628, 629, 3204, 3205, 3206, 3207, 630, 631, 628, 629, 632, 633, 634, 635, 3206, 3207, 3208, 3209, 636, 637, 634, 635, 638, 639, 640, 641, 3208, 3209, 3210, 3211, 642, 643, 640, 641, 644, 645, 646, 647, 3210, 3211, 3212, 3213, 648, 649, 646, 647, 650, 651, 652, 653, 3212, 3213, 3214, 3215, 654, 655, 652, 653, 656, 657, 658, 659, 3214, 3215, 3216, 3217, 660, 661, 658, 659, 662, 663, 664, 665, 3216, 3217, 3218, 3219, 666, 667, 664, 665, 668, 669, 670, 671, 3218, 3219, 3220, 3221, 672, 673, 670, 671, 674, 675, 676, 677, 3220, 3221, 3222, 3223, 678, 679, 676, 677, 680, 681, 682, 683, 3222, 3223, 3224, 3225, 684, 685, 682, 683, 686, 687, 688, 689, 3224, 3225, 3226, 3227, 690, 691, 688, 689, 692, 693, 694, 695, 3226, 3227, 3228, 3229, 696, 697, 694, 695, 698, 699, 700, 701, 3228, 3229, 3230, 3231, 702, 703, 700, 701, 704, 705, 706, 707, 3230, 3231, 3232, 3233, 708, 709, 706, 707, 710, 711, 712, 713, 3232, 3233, 3234, 3235, 714, 715, 712, 713, 716, 717, 718, 719, 3234, 3235, 3236, 3237, 720, 721, 718, 719, 722, 723, 724, 725, 3236, 3237, 3238, 3239, 726, 727, 724, 725, 728, 729, 730, 731, 3238, 3239, 3240, 3241, 732, 733, 730, 731, 734, 735, 736, 737, 3240, 3241, 3242, 3243, 738, 739, 736, 737, 740, 741, 742, 743, 3242, 3243, 3244, 3245, 744, 745, 742, 743, 746, 747, 748, 749, 3244, 3245, 3246, 3247, 750, 751, 748, 749, 752, 753, 754, 755, 3246, 3247, 3248, 3249, 756, 757, 754, 755, 758, 759, 760, 761, 3248, 3249, 3250, 3251, 762, 763, 760, 761, 764, 765, 766, 767, 3250, 3251, 3252, 3253, 768, 769, 766, 767, 770, 771, 772, 773, 3252, 3253, 3254, 3255, 774, 775, 772, 773, 776, 777, 778, 779, 3254, 3255, 3256, 3257, 780, 781, 778, 779, 782, 783, 784, 785, 3256, 3257, 3258, 3259, 786, 787, 784, 785, 788, 789, 790, 791, 3258, 3259, 3260, 3261, 792, 793, 790, 791, 794, 795, 796, 797, 3260, 3261, 3262, 3263, 798, 799, 796, 797, 800, 801, 802, 803, 3262, 3263, 3264, 3265, 804, 805, 802, 803, 806, 807, 808, 809, 3264, 3265, 3266, 3267, 810, 811, 808, 809, 812, 813, 814, 815, 3266, 3267, 3268, 3269, 816, 817, 814, 815, 818, 819, 820, 821, 3268, 3269, 3270, 3271, 822, 823, 820, 821, 824, 825, 826, 827, 3270, 3271, 3272, 3273, 828, 829, 826, 827, 830, 831, 832, 833, 3272, 3273, 3274, 3275, 834, 835, 832, 833, 836, 837, 838, 839, 3274, 3275, 3276, 3277, 840, 841, 838, 839, 842, 843, 844, 845, 3276, 3277, 3278, 3279, 846, 847, 844, 845, 848, 849, 850, 851, 3278, 3279, 3280, 3281, 852, 853, 850, 851, 854, 855, 856, 857, 3280, 3281, 3282, 3283, 858, 859, 856, 857, 860, 861, 862, 863, 3282, 3283, 3284, 3285, 864, 865, 862, 863, 866, 867, 868, 869, 3284, 3285, 3286, 3287, 870, 871, 868, 869, 872, 873, 874, 875, 3286, 3287, 3288, 3289, 876, 877, 874, 875, 878, 879, 880, 881, 3288, 3289, 3290, 3291, 882, 883, 880, 881, 884, 885, 886, 887, 3290, 3291, 3292, 3293, 888, 889, 886, 887, 890, 891, 892, 893, 3292, 3293, 3294, 3295, 894, 895, 892, 893, 896, 897, 898, 899, 3294, 3295, 3296, 3297, 900, 901, 898, 899, 902, 903, 904, 905, 3296, 3297, 3298, 3299, 906, 907, 904, 905, 908, 909, 910, 911, 3298, 3299, 3300, 3301, 912, 913, 910, 911, 914, 915, 916, 917, 3300, 3301, 3302, 3303, 918, 919, 916, 917, 920, 921, 922, 923, 3302, 3303, 3304, 3305, 924, 925, 922, 923, 926, 927, 928, 929, 3304, 3305, 3306, 3307, 930, 931, 928, 929, 932, 933, 934, 935, 3306, 3307, 3308, 3309, 936, 937, 934, 935, 938, 939, 940, 941, 3308, 3309, 3310, 3311, 942, 943, 940, 941, 944, 945, 946, 947, 3310, 3311, 3312, 3313, 948, 949, 946, 947, 950, 951, 952, 953, 3312, 3313, 3314, 3315, 954, 955, 952, 953, 956, 957, 958, 959, 3314, 3315, 3316, 3317, 960, 961, 958, 959, 962, 963, 964, 965, 3316, 3317, 3318, 3319, 966, 967, 964, 965, 968, 969, 970, 971, 3318, 3319, 3320, 3321, 972, 973, 970, 971, 974, 975, 976, 977, 3320, 3321, 3322, 3323, 978, 979, 976, 977, 980, 981, 982, 983, 3322, 3323, 3324, 3325, 984, 985, 982, 983, 986, 987, 988, 989, 3324, 3325, 3326, 3327, 990, 991, 988, 989, 992, 993, 994, 995, 3326, 3327, 3328, 3329, 996, 997, 994, 995, 998, 999, 1000, 1001, 3328, 3329, 3330, 3331, 1002, 1003, 1000, 1001, 1004, 1005, 1006, 1007, 3330, 3331, 3332, 3333, 1008, 1009, 1006, 1007, 1010, 1011, 1012, 1013, 3332, 3333, 3334, 3335, 1014, 1015, 1012, 1013, 1016, 1017, 1018, 1019, 3334, 3335, 3336, 3337, 1020, 1021, 1018, 1019, 1022, 1023, 1024, 1025, 3336, 3337, 3338, 3339, 1026, 1027, 1024, 1025, 1028, 1029, 1030, 1031, 3338, 3339, 3340, 3341, 1032, 1033, 1030, 1031, 1034, 1035, 1036, 1037, 3340, 3341, 3342, 3343, 1038, 1039, 1036, 1037, 1040, 1041, 1042, 1043, 3342, 3343, 3344, 3345, 1044, 1045, 1042, 1043, 1046, 1047, 1048, 1049, 3344, 3345, 3346, 3347, 1050, 1051, 1048, 1049, 1052, 1053, 1054, 1055, 3346, 3347, 3348, 3349, 1056, 1057, 1054, 1055, 1058, 1059, 1060, 1061, 3348, 3349, 3350, 3351, 1062, 1063, 1060, 1061, 1064, 1065, 1066, 1067, 3350, 3351, 3352, 3353, 1068, 1069, 1066, 1067, 1070, 1071, 1072, 1073, 3352, 3353, 3354, 3355, 1074, 1075, 1072, 1073, 1076, 1077, 1078, 1079, 3354, 3355, 3356, 3357, 1080, 1081, 1078, 1079, 1082, 1083, 1084, 1085, 3356, 3357, 3358, 3359, 1086, 1087, 1084, 1085, 1088, 1089, 1090, 1091, 3358, 3359, 3360, 3361, 1092, 1093, 1090, 1091, 1094, 1095, 1096, 1097, 3360, 3361, 3362, 3363, 1098, 1099, 1096, 1097, 1100, 1101, 1102, 1103, 3362, 3363, 3364, 3365, 1104, 1105, 1102, 1103, 1106, 1107, 1108, 1109, 3364, 3365, 3366, 3367, 1110, 1111, 1108, 1109, 1112, 1113, 1114, 1115, 3366, 3367, 3368, 3369, 1116, 1117, 1114, 1115, 1118, 1119, 1120, 1121, 3368, 3369, 3370, 3371, 1122, 1123, 1120, 1121, 1124, 1125, 1126, 1127, 3370, 3371, 3372, 3373, 1128, 1129, 1126, 1127, 1130, 1131, 1132, 1133, 3372, 3373, 3374, 3375, 1134, 1135, 1132, 1133, 1136, 1137, 1138, 1139, 3374, 3375, 3376, 3377, 1140, 1141, 1138, 1139, 1142, 1143, 1144, 1145, 3376, 3377, 3378, 3379, 1146, 1147, 1144, 1145, 1148, 1149, 1150, 1151, 3378, 3379, 3380, 3381, 1152, 1153, 1150, 1151, 1154, 1155, 1156, 1157, 3380, 3381, 3382, 3383, 1158, 1159, 1156, 1157, 1160, 1161, 1162, 1163, 3382, 3383, 3384, 3385, 1164, 1165, 1162, 1163, 1166, 1167, 1168, 1169, 3384, 3385, 3386, 3387, 1170, 1171, 1168, 1169, 1172, 1173, 1174, 1175, 3386, 3387, 3388, 3389, 1176, 1177, 1174, 1175, 1178, 1179, 1180, 1181, 3388, 3389, 3390, 3391, 1182, 1183, 1180, 1181, 1184, 1185, 1186, 1187, 3390, 3391, 3392, 3393, 1188, 1189, 1186, 1187, 1190, 1191, 1192, 1193, 3392, 3393, 3394, 3395, 1194, 1195, 1192, 1193, 1196, 1197, 1198, 1199, 3394, 3395, 3396, 3397, 1200, 1201, 1198, 1199, 1202, 1203, 1204, 1205, 3396, 3397, 3398, 3399, 1206, 1207, 1204, 1205, 1208, 1209, 1210, 1211, 3398, 3399, 3400, 3401, 1212, 1213, 1210, 1211, 1214, 1215, 1216, 1217, 3400, 3401, 3402, 3403, 1218, 1219, 1216, 1217, 1220, 1221, 1222, 1223, 3402, 3403, 3404, 3405, 1224, 1225, 1222, 1223, 1226, 1227, 1228, 1229, 3404, 3405, 3406, 3407, 1230, 1231, 1228, 1229, 1232, 1233, 1234, 1235, 3406, 3407, 3408, 3409, 1236, 1237, 1234, 1235, 1238, 1239, 1240, 1241, 3408, 3409, 3410, 3411, 1242, 1243, 1240, 1241, 1244, 1245, 1246, 1247, 3410, 3411, 3412, 3413, 1248, 1249, 1246, 1247, 1250, 1251, 1252, 1253, 3412, 3413, 3414, 3415, 1254, 1255, 1252, 1253, 1256, 1257, 1258, 1259, 3414, 3415, 3416, 3417, 1260, 1261, 1258, 1259, 1262, 1263, 1264, 1265, 3416, 3417, 3418, 3419, 1266, 1267, 1264, 1265, 1268, 1269, 1270, 1271, 3418, 3419, 3420, 3421, 1272, 1273, 1270, 1271, 1274, 1275, 1276, 1277, 3420, 3421, 3422, 3423, 1278, 1279, 1276, 1277, 1280, 1281, 1282, 1283, 3422, 3423, 3424, 3425, 1284, 1285, 1282, 1283, 1286, 1287, 1288, 1289, 3424, 3425, 3426, 3427, 1290, 1291, 1288, 1289, 1292, 1293, 1294, 1295, 3426, 3427, 3428, 3429, 1296, 1297, 1294, 1295, 1298, 1299, 1300, 1301, 3428, 3429, 3430, 3431, 1302, 1303, 1300, 1301, 1304, 1305, 1306, 1307, 3430, 3431, 3432, 3433, 1308, 1309, 1306, 1307, 1310, 1311, 1312, 1313, 3432, 3433, 3434, 3435, 1314, 1315, 1312, 1313, 1316, 1317, 1318, 1319, 3434, 3435, 3436, 3437, 1320, 1321, 1318, 1319, 1322, 1323, 1324, 1325, 3436, 3437, 3438, 3439, 1326, 1327, 1324, 1325, 1328, 1329, 1330, 1331, 3438, 3439, 3440, 3441, 1332, 1333, 1330, 1331, 1334, 1335, 1336, 1337, 3440, 3441, 3442, 3443, 1338, 1339, 1336, 1337, 1340, 1341, 1342, 1343, 3442, 3443, 3444, 3445, 1344, 1345, 1342, 1343, 1346, 1347, 1348, 1349, 3444, 3445, 3446, 3447, 1350, 1351, 1348, 1349, 1352, 1353, 1354, 1355, 3446, 3447, 3448, 3449, 1356, 1357, 1354, 1355, 1358, 1359, 1360, 1361, 3448, 3449, 3450, 3451, 1362, 1363, 1360, 1361, 1364, 1365, 1366, 1367, 3450, 3451, 3452, 3453, 1368, 1369, 1366, 1367, 1370, 1371, 1372, 1373, 3452, 3453, 3454, 3455, 1374, 1375, 1372, 1373, 1376, 1377, 1378, 1379, 3454, 3455, 3456, 3457, 1380, 1381, 1378, 1379, 1382, 1383, 1384, 1385, 3456, 3457, 3458, 3459, 1386, 1387, 1384, 1385, 1388, 1389, 1390, 1391, 3458, 3459, 3460, 3461, 1392, 1393, 1390, 1391, 1394, 1395, 1396, 1397, 3460, 3461, 3462, 3463, 1398, 1399, 1396, 1397, 1400, 1401, 1402, 1403, 3462, 3463, 3464, 3465, 1404, 1405, 1402, 1403, 1406, 1407, 1408, 1409, 3464, 3465, 3466, 3467, 1410, 1411, 1408, 1409, 1412, 1413, 1414, 1415, 3466, 3467, 3468, 3469, 1416, 1417, 1414, 1415, 1418, 1419, 1420, 1421, 3468, 3469, 3470, 3471, 1422, 1423, 1420, 1421, 1424, 1425, 1426, 1427, 3470, 3471, 3472, 3473, 1428, 1429, 1426, 1427, 1430, 1431, 1432, 1433, 3472, 3473, 3474, 3475, 1434, 1435, 1432, 1433, 1436, 1437, 1438, 1439, 3474, 3475, 3476, 3477, 1440, 1441, 1438, 1439, 1442, 1443, 1444, 1445, 3476, 3477, 3478, 3479, 1446, 1447, 1444, 1445, 1448, 1449, 1450, 1451, 3478, 3479, 3480, 3481, 1452, 1453, 1450, 1451, 1454, 1455, 1456, 1457, 3480, 3481, 3482, 3483, 1458, 1459, 1456, 1457, 1460, 1461, 1462, 1463, 3482, 3483, 3484, 3485, 1464, 1465, 1462, 1463, 1466, 1467, 1468, 1469, 3484, 3485, 3486, 3487, 1470, 1471, 1468, 1469, 1472, 1473, 1474, 1475, 3486, 3487, 3488, 3489, 1476, 1477, 1474, 1475, 1478, 1479, 1480, 1481, 3488, 3489, 3490, 3491, 1482, 1483, 1480, 1481, 1484, 1485, 1486, 1487, 3490, 3491, 3492, 3493, 1488, 1489, 1486, 1487, 1490, 1491, 1492, 1493, 3492, 3493, 3494, 3495, 1494, 1495, 1492, 1493, 1496, 1497, 1498, 1499, 3494, 3495, 3496, 3497, 1500, 1501, 1498, 1499, 1502, 1503, 1504, 1505, 3496, 3497, 3498, 3499, 1506, 1507, 1504, 1505, 1508, 1509, 1510, 1511, 3498, 3499, 3500, 3501, 1512, 1513, 1510, 1511, 1514, 1515, 1516, 1517, 3500, 3501, 3502, 3503, 1518, 1519, 1516, 1517, 1520, 1521, 1522, 1523, 3502, 3503, 3504, 3505, 1524, 1525, 1522, 1523, 1526, 1527, 1528, 1529, 3504, 3505, 3506, 3507, 1530, 1531, 1528, 1529, 1532, 1533, 1534, 1535, 3506, 3507, 3508, 3509, 1536, 1537, 1534, 1535, 1538, 1539, 1540, 1541, 3508, 3509, 3510, 3511, 1542, 1543, 1540, 1541, 1544, 1545, 1546, 1547, 3510, 3511, 3512, 3513, 1548, 1549, 1546, 1547, 1550, 1551, 1552, 1553, 3512, 3513, 3514, 3515, 1554, 1555, 1552, 1553, 1556, 1557, 1558, 1559, 3514, 3515, 3516, 3517, 1560, 1561, 1558, 1559, 1562, 1563, 1564, 1565, 3516, 3517, 3518, 3519, 1566, 1567, 1564, 1565, 1568, 1569, 1570, 1571, 3518, 3519, 3520, 3521, 1572, 1573, 1570, 1571, 1574, 1575, 1576, 1577, 3520, 3521, 3522, 3523, 1578, 1579, 1576, 1577, 1580, 1581, 1582, 1583, 3522, 3523, 3524, 3525, 1584, 1585, 1582, 1583, 1586, 1587, 1588, 1589, 3524, 3525, 3526, 3527, 1590, 1591, 1588, 1589, 1592, 1593, 1594, 1595, 3526, 3527, 3528, 3529, 1596, 1597, 1594, 1595, 1598, 1599, 1600, 1601, 3528, 3529, 3530, 3531, 1602, 1603, 1600, 1601, 1604, 1605, 1606, 1607, 3530, 3531, 3532, 3533, 1608, 1609, 1606, 1607, 1610, 1611, 1612, 1613, 3532, 3533, 3534, 3535, 1614, 1615, 1612, 1613, 1616, 1617, 1618, 1619, 3534, 3535, 3536, 3537, 1620, 1621, 1618, 1619, 1622, 1623, 1624, 1625, 3536, 3537, 3538, 3539, 1626, 1627, 1624, 1625, 1628, 1629, 1630, 1631, 3538, 3539, 3540, 3541, 1632, 1633, 1630, 1631, 1634, 1635, 1636, 1637, 3540, 3541, 3542, 3543, 1638, 1639, 1636, 1637, 1640, 1641, 1642, 1643, 3542, 3543, 3544, 3545, 1644, 1645, 1642, 1643, 1646, 1647, 1648, 1649, 3544, 3545, 3546, 3547, 1650, 1651, 1648, 1649, 1652, 1653, 1654, 1655, 3546, 3547, 3548, 3549, 1656, 1657, 1654, 1655, 1658, 1659, 1660, 1661, 3548, 3549, 3550, 3551, 1662, 1663, 1660, 1661, 1664, 1665, 1666, 1667, 3550, 3551, 3552, 3553, 1668, 1669, 1666, 1667, 1670, 1671, 1672, 1673, 3552, 3553, 3554, 3555, 1674, 1675, 1672, 1673, 1676, 1677, 1678, 1679, 3554, 3555, 3556, 3557, 1680, 1681, 1678, 1679, 1682, 1683, 1684, 1685, 3556, 3557, 3558, 3559, 1686, 1687, 1684, 1685, 1688, 1689, 1690, 1691, 3558, 3559, 3560, 3561, 1692, 1693, 1690, 1691, 1694, 1695, 1696, 1697, 3560, 3561, 3562, 3563, 1698, 1699, 1696, 1697, 1700, 1701, 1702, 1703, 3562, 3563, 3564, 3565, 1704, 1705, 1702, 1703, 1706, 1707, 1708, 1709, 3564, 3565, 3566, 3567, 1710, 1711, 1708, 1709, 1712, 1713, 1714, 1715, 3566, 3567, 3568, 3569, 1716, 1717, 1714, 1715, 1718, 1719, 1720, 1721, 3568, 3569, 3570, 3571, 1722, 1723, 1720, 1721, 1724, 1725, 1726, 1727, 3570, 3571, 3572, 3573, 1728, 1729, 1726, 1727, 1730, 1731, 1732, 1733, 3572, 3573, 3574, 3575, 1734, 1735, 1732, 1733, 1736, 1737, 1738, 1739, 3574, 3575, 3576, 3577, 1740, 1741, 1738, 1739, 1742, 1743, 1744, 1745, 3576, 3577, 3578, 3579, 1746, 1747, 1744, 1745, 1748, 1749, 1750, 1751, 3578, 3579, 3580, 3581, 1752, 1753, 1750, 1751, 1754, 1755, 1756, 1757, 3580, 3581, 3582, 3583, 1758, 1759, 1756, 1757, 1760, 1761, 1762, 1763, 3582, 3583, 3584, 3585, 1764, 1765, 1762, 1763, 1766, 1767, 1768, 1769, 3584, 3585, 3586, 3587, 1770, 1771, 1768, 1769, 1772, 1773, 1774, 1775, 3586, 3587, 3588, 3589, 1776, 1777, 1774, 1775, 1778, 1779, 1780, 1781, 3588, 3589, 3590, 3591, 1782, 1783, 1780, 1781, 1784, 1785, 1786, 1787, 3590, 3591, 3592, 3593, 1788, 1789, 1786, 1787, 1790, 1791, 1792, 1793, 3592, 3593, 3594, 3595, 1794, 1795, 1792, 1793, 1796, 1797, 1798, 1799, 3594, 3595, 3596, 3597, 1800, 1801, 1798, 1799, 1802, 1803, 1804, 1805, 3596, 3597, 3598, 3599, 1806, 1807, 1804, 1805, 1808, 1809, 1810, 1811, 3598, 3599, 3600, 3601, 1812, 1813, 1810, 1811, 1814, 1815, 1816, 1817, 3600, 3601, 3602, 3603, 1818, 1819, 1816, 1817, 1820, 1821, 1822, 1823, 3602, 3603, 3604, 3605, 1824, 1825, 1822, 1823, 1826, 1827, 1828, 1829, 3604, 3605, 3606, 3607, 1830, 1831, 1828, 1829, 1832, 1833, 1834, 1835, 3606, 3607, 3608, 3609, 1836, 1837, 1834, 1835, 1838, 1839, 1840, 1841, 3608, 3609, 3610, 3611, 1842, 1843, 1840, 1841, 1844, 1845, 1846, 1847, 3610, 3611, 3612, 3613, 1848, 1849, 1846, 1847, 1850, 1851, 1852, 1853, 3612, 3613, 3614, 3615, 1854, 1855, 1852, 1853, 1856, 1857, 1858, 1859, 3614, 3615, 3616, 3617, 1860, 1861, 1858, 1859, 1862, 1863, 1864, 1865, 3616, 3617, 3618, 3619, 1866, 1867, 1864, 1865, 1868, 1869, 1870, 1871, 3618, 3619, 3620, 3621, 1872, 1873, 1870, 1871, 1874, 1875, 1876, 1877, 3620, 3621, 3622, 3623, 1878, 1879, 1876, 1877, 1880, 1881, 1882, 1883, 3622, 3623, 3624, 3625, 1884, 1885, 1882, 1883, 1886, 1887, 1888, 1889, 3624, 3625, 3626, 3627, 1890, 1891, 1888, 1889, 1892, 1893, 1894, 1895, 3626, 3627, 3628, 3629, 1896, 1897, 1894, 1895, 1898, 1899, 1900, 1901, 3628, 3629, 3630, 3631, 1902, 1903, 1900, 1901, 1904, 1905, 1906, 1907, 3630, 3631, 3632, 3633, 1908, 1909, 1906, 1907, 1910, 1911, 1912, 1913, 3632, 3633, 3634, 3635, 1914, 1915, 1912, 1913, 1916, 1917, 1918, 1919, 3634, 3635, 3636, 3637, 1920, 1921, 1918, 1919, 1922, 1923, 1924, 1925, 3636, 3637, 3638, 3639, 1926, 1927, 1924, 1925, 1928, 1929, 1930, 1931, 3638, 3639, 3640, 3641, 1932, 1933, 1930, 1931, 1934, 1935, 1936, 1937, 3640, 3641, 3642, 3643, 1938, 1939, 1936, 1937, 1940, 1941, 1942, 1943, 3642, 3643, 3644, 3645, 1944, 1945, 1942, 1943, 1946, 1947, 1948, 1949, 3644, 3645, 3646, 3647, 1950, 1951, 1948, 1949, 1952, 1953, 1954, 1955, 3646, 3647, 3648, 3649, 1956, 1957, 1954, 1955, 1958, 1959, 1960, 1961, 3648, 3649, 3650, 3651, 1962, 1963, 1960, 1961, 1964, 1965, 1966, 1967, 3650, 3651, 3652, 3653, 1968, 1969, 1966, 1967, 1970, 1971, 1972, 1973, 3652, 3653, 3654, 3655, 1974, 1975, 1972, 1973, 1976, 1977, 1978, 1979, 3654, 3655, 3656, 3657, 1980, 1981, 1978, 1979, 1982, 1983, 1984, 1985, 3656, 3657, 3658, 3659, 1986, 1987, 1984, 1985, 1988, 1989, 1990, 1991, 3658, 3659, 3660, 3661, 1992, 1993, 1990, 1991, 1994, 1995, 1996, 1997, 3660, 3661, 3662, 3663, 1998, 1999, 1996, 1997, 2000, 2001, 2002, 2003, 3662, 3663, 3664, 3665, 2004, 2005, 2002, 2003, 2006, 2007, 2008, 2009, 3664, 3665, 3666, 3667, 2010, 2011, 2008, 2009, 2012, 2013, 2014, 2015, 3666, 3667, 3668, 3669, 2016, 2017, 2014, 2015, 2018, 2019, 2020, 2021, 3668, 3669, 3670, 3671, 2022, 2023, 2020, 2021, 2024, 2025, 2026, 2027, 3670, 3671, 3672, 3673, 2028, 2029, 2026, 2027, 2030, 2031, 2032, 2033, 3672, 3673, 3674, 3675, 2034, 2035, 2032, 2033, 2036, 2037, 2038, 2039, 3674, 3675, 3676, 3677, 2040, 2041, 2038, 2039, 2042, 2043, 2044, 2045, 3676, 3677, 3678, 3679, 2046, 2047, 2044, 2045, 2048, 2049, 2050, 2051, 3678, 3679, 3680, 3681, 2052, 2053, 2050, 2051, 2054, 2055, 2056, 2057, 3680, 3681, 3682, 3683, 2058, 2059, 2056, 2057, 2060, 2061, 2062, 2063, 3682, 3683, 3684, 3685, 2064, 2065, 2062, 2063, 2066, 2067, 2068, 2069, 3684, 3685, 3686, 3687, 2070, 2071, 2068, 2069, 2072, 2073, 2074, 2075, 3686, 3687, 3688, 3689, 2076, 2077, 2074, 2075, 2078, 2079, 2080, 2081, 3688, 3689, 3690, 3691, 2082, 2083, 2080, 2081, 2084, 2085, 2086, 2087, 3690, 3691, 3692, 3693, 2088, 2089, 2086, 2087, 2090, 2091, 2092, 2093, 3692, 3693, 3694, 3695, 2094, 2095, 2092, 2093, 2096, 2097, 2098, 2099, 3694, 3695, 3696, 3697, 2100, 2101, 2098, 2099, 2102, 2103, 2104, 2105, 3696, 3697, 3698, 3699, 2106, 2107, 2104, 2105, 2108, 2109, 2110, 2111, 3698, 3699, 3700, 3701, 2112, 2113, 2110, 2111, 2114, 2115, 2116, 2117, 3700, 3701, 3702, 3703, 2118, 2119, 2116, 2117, 2120, 2121, 2122, 2123, 3702, 3703, 3704, 3705, 2124, 2125, 2122, 2123, 2126, 2127, 2128, 2129, 3704, 3705, 3706, 3707, 2130, 2131, 2128, 2129, 2132, 2133, 2134, 2135, 3706, 3707, 3708, 3709, 2136, 2137, 2134, 2135, 2138, 2139, 2140, 2141, 3708, 3709, 3710, 3711, 2142, 2143, 2140, 2141, 2144, 2145, 2146, 2147, 3710, 3711, 3712, 3713, 2148, 2149, 2146, 2147, 2150, 2151, 2152, 2153, 3712, 3713, 3714, 3715, 2154, 2155, 2152, 2153, 2156, 2157, 2158, 2159, 3714, 3715, 3716, 3717, 2160, 2161, 2158, 2159, 2162, 2163, 2164, 2165, 3716, 3717, 3718, 3719, 2166, 2167, 2164, 2165, 2168, 2169, 2170, 2171, 3718, 3719, 3720, 3721, 2172, 2173, 2170, 2171, 2174, 2175, 2176, 2177, 3720, 3721, 3722, 3723, 2178, 2179, 2176, 2177, 2180, 2181, 2182, 2183, 3722, 3723, 3724, 3725, 2184, 2185, 2182, 2183, 2186, 2187, 2188, 2189, 3724, 3725, 3726, 3727, 2190, 2191, 2188, 2189, 2192, 2193, 2194, 2195, 3726, 3727, 3728, 3729, 2196, 2197, 2194, 2195, 2198, 2199, 2200, 2201, 3728, 3729, 3730, 3731, 2202, 2203, 2200, 2201, 2204, 2205, 2206, 2207, 3730, 3731, 3732, 3733, 2208, 2209, 2206, 2207, 2210, 2211, 2212, 2213, 3732, 3733, 3734, 3735, 2214, 2215, 2212, 2213, 2216, 2217, 2218, 2219, 3734, 3735, 3736, 3737, 2220, 2221, 2218, 2219, 2222, 2223, 2224, 2225, 3736, 3737, 3738, 3739, 2226, 2227, 2224, 2225, 2228, 2229, 2230, 2231, 3738, 3739, 3740, 3741, 2232, 2233, 2230, 2231, 2234, 2235, 2236, 2237, 3740, 3741, 3742, 3743, 2238, 2239, 2236, 2237, 2240, 2241, 2242, 2243, 3742, 3743, 3744, 3745, 2244, 2245, 2242, 2243, 2246, 2247, 2248, 2249, 3744, 3745, 3746, 3747, 2250, 2251, 2248, 2249, 2252, 2253, 2254, 2255, 3746, 3747, 3748, 3749, 2256, 2257, 2254, 2255, 2258, 2259, 2260, 2261, 3748, 3749, 3750, 3751, 2262, 2263, 2260, 2261, 2264, 2265, 2266, 2267, 3750, 3751, 3752, 3753, 2268, 2269, 2266, 2267, 2270, 2271, 2272, 2273, 3752, 3753, 3754, 3755, 2274, 2275, 2272, 2273, 2276, 2277, 2278, 2279, 3754, 3755, 3756, 3757, 2280, 2281, 2278, 2279, 2282, 2283, 2284, 2285, 3756, 3757, 3758, 3759, 2286, 2287, 2284, 2285, 2288, 2289, 2290, 2291, 3758, 3759, 3760, 3761, 2292, 2293, 2290, 2291, 2294, 2295, 2296, 2297, 3760, 3761, 3762, 3763, 2298, 2299, 2296, 2297, 2300, 2301, 2302, 2303, 3762, 3763, 3764, 3765, 2304, 2305, 2302, 2303, 2306, 2307, 2308, 2309, 3764, 3765, 3766, 3767, 2310, 2311, 2308, 2309, 2312, 2313, 2314, 2315, 3766, 3767, 3768, 3769, 2316, 2317, 2314, 2315, 2318, 2319, 2320, 2321, 3768, 3769, 3770, 3771, 2322, 2323, 2320, 2321, 2324, 2325, 2326, 2327, 3770, 3771, 3772, 3773, 2328, 2329, 2326, 2327, 2330, 2331, 2332, 2333, 3772, 3773, 3774, 3775, 2334, 2335, 2332, 2333, 2336, 2337, 2338, 2339, 3774, 3775, 3776, 3777, 2340, 2341, 2338, 2339, 2342, 2343, 2344, 2345, 3776, 3777, 3778, 3779, 2346, 2347, 2344, 2345, 2348, 2349, 2350, 2351, 3778, 3779, 3780, 3781, 2352, 2353, 2350, 2351, 2354, 2355, 2356, 2357, 3780, 3781, 3782, 3783, 2358, 2359, 2356, 2357, 2360, 2361, 2362, 2363, 3782, 3783, 3784, 3785, 2364, 2365, 2362, 2363, 2366, 2367, 2368, 2369, 3784, 3785, 3786, 3787, 2370, 2371, 2368, 2369, 2372, 2373, 2374, 2375, 3786, 3787, 3788, 3789, 2376, 2377, 2374, 2375, 2378, 2379, 2380, 2381, 3788, 3789, 3790, 3791, 2382, 2383, 2380, 2381, 2384, 2385, 2386, 2387, 3790, 3791, 3792, 3793, 2388, 2389, 2386, 2387, 2390, 2391, 2392, 2393, 3792, 3793, 3794, 3795, 2394, 2395, 2392, 2393, 2396, 2397, 2398, 2399, 3794, 3795, 3796, 3797, 2400, 2401, 2398, 2399, 2402, 2403, 2404, 2405, 3796, 3797, 3798, 3799, 2406, 2407, 2404, 2405, 2408, 2409, 2410, 2411, 3798, 3799, 3800, 3801, 2412, 2413, 2410, 2411, 2414, 2415, 2416, 2417, 3800, 3801, 3802, 3803, 2418, 2419, 2416, 2417, 2420, 2421, 2422, 2423, 3802, 3803, 3804, 3805, 2424, 2425, 2422, 2423, 2426, 2427, 2428, 2429, 3804, 3805, 3806, 3807, 2430, 2431, 2428, 2429, 2432, 2433, 2434, 2435, 3806, 3807, 3808, 3809, 2436, 2437, 2434, 2435, 2438, 2439, 2440, 2441, 3808, 3809, 3810, 3811, 2442, 2443, 2440, 2441, 2444, 2445, 2446, 2447, 3810, 3811, 3812, 3813, 2448, 2449, 2446, 2447, 2450, 2451, 2452, 2453, 3812, 3813, 3814, 3815, 2454, 2455, 2452, 2453, 2456, 2457, 2458, 2459, 3814, 3815, 3816, 3817, 2460, 2461, 2458, 2459, 2462, 2463, 2464, 2465, 3816, 3817, 3818, 3819, 2466, 2467, 2464, 2465, 2468, 2469, 2470, 2471, 3818, 3819, 3820, 3821, 2472, 2473, 2470, 2471, 2474, 2475, 2476, 2477, 3820, 3821, 3822, 3823, 2478, 2479, 2476, 2477, 2480, 2481, 2482, 2483, 3822, 3823, 3824, 3825, 2484, 2485, 2482, 2483, 2486, 2487, 2488, 2489, 3824, 3825, 3826, 3827, 2490, 2491, 2488, 2489, 2492, 2493, 2494, 2495, 3826, 3827, 3828, 3829, 2496, 2497, 2494, 2495, 2498, 2499, 2500, 2501, 3828, 3829, 3830, 3831, 2502, 2503, 2500, 2501, 2504, 2505, 2506, 2507, 3830, 3831, 3832, 3833, 2508, 2509, 2506, 2507, 2510, 2511, 2512, 2513, 3832, 3833, 3834, 3835, 2514, 2515, 2512, 2513, 2516, 2517, 2518, 2519, 3834, 3835, 3836, 3837, 2520, 2521, 2518, 2519, 2522, 2523, 2524, 2525, 3836, 3837, 3838, 3839, 2526, 2527, 2524, 2525, 2528, 2529, 2530, 2531, 3838, 3839, 3840, 3841, 2532, 2533, 2530, 2531, 2534, 2535, 2536, 2537, 3840, 3841, 3842, 3843, 2538, 2539, 2536, 2537, 2540, 2541, 2542, 2543, 3842, 3843, 3844, 3845, 2544, 2545, 2542, 2543, 2546, 2547, 2548, 2549, 3844, 3845, 3846, 3847, 2550, 2551, 2548, 2549, 2552, 2553, 2554, 2555, 3846, 3847, 3848, 3849, 2556, 2557, 2554, 2555, 2558, 2559, 2560, 2561, 3848, 3849, 3850, 3851, 2562, 2563, 2560, 2561, 2564, 2565, 2566, 2567, 3850, 3851, 3852, 3853, 2568, 2569, 2566, 2567, 2570, 2571, 2572, 2573, 3852, 3853, 3854, 3855, 2574, 2575, 2572, 2573, 2576, 2577, 2578, 2579, 3854, 3855, 3856, 3857, 2580, 2581, 2578, 2579, 2582, 2583, 2584, 2585, 3856, 3857, 3858, 3859, 2586, 2587, 2584, 2585, 2588, 2589, 2590, 2591, 3858, 3859, 3860, 3861, 2592, 2593, 2590, 2591, 2594, 2595, 2596, 2597, 3860, 3861, 3862, 3863, 2598, 2599, 2596, 2597, 2600, 2601, 2602, 2603, 3862, 3863, 3864, 3865, 2604, 2605, 2602, 2603, 2606, 2607, 2608, 2609, 3864, 3865, 3866, 3867, 2610, 2611, 2608, 2609, 2612, 2613, 2614, 2615, 3866, 3867, 3868, 3869, 2616, 2617, 2614, 2615, 2618, 2619, 2620, 2621, 3868, 3869, 3870, 3871, 2622, 2623, 2620, 2621, 2624, 2625, 2626, 2627, 3870, 3871, 3872, 3873, 2628, 2629, 2626, 2627, 2630, 2631, 2632, 2633, 3872, 3873, 3874, 3875, 2634, 2635, 2632, 2633, 2636, 2637, 2638, 2639, 3874, 3875, 3876, 3877, 2640, 2641, 2638, 2639, 2642, 2643, 2644, 2645, 3876, 3877, 3878, 3879, 2646, 2647, 2644, 2645, 2648, 2649, 2650, 2651, 3878, 3879, 3880, 3881, 2652, 2653, 2650, 2651, 2654, 2655, 2656, 2657, 3880, 3881, 3882, 3883, 2658, 2659, 2656, 2657, 2660, 2661, 2662, 2663, 3882, 3883, 3884, 3885, 2664, 2665, 2662, 2663, 2666, 2667, 2668, 2669, 3884, 3885, 3886, 3887, 2670, 2671, 2668, 2669, 2672, 2673, 2674, 2675, 3886, 3887, 3888, 3889, 2676, 2677, 2674, 2675, 2678, 2679, 2680, 2681, 3888, 3889, 3890, 3891, 2682, 2683, 2680, 2681, 2684, 2685, 2686, 2687, 3890, 3891, 3892, 3893, 2688, 2689, 2686, 2687, 2690, 2691, 2692, 2693, 3892, 3893, 3894, 3895, 2694, 2695, 2692, 2693, 2696, 2697, 2698, 2699, 3894, 3895, 3896, 3897, 2700, 2701, 2698, 2699, 2702, 2703, 2704, 2705, 3896, 3897, 3898, 3899, 2706, 2707, 2704, 2705, 2708, 2709, 2710, 2711, 3898, 3899, 3900, 3901, 2712, 2713, 2710, 2711, 2714, 2715, 2716, 2717, 3900, 3901, 3902, 3903, 2718, 2719, 2716, 2717, 2720, 2721, 2722, 2723, 3902, 3903, 3904, 3905, 2724, 2725, 2722, 2723, 2726, 2727, 2728, 2729, 3904, 3905, 3906, 3907, 2730, 2731, 2728, 2729, 2732, 2733, 2734, 2735, 3906, 3907, 3908, 3909, 2736, 2737, 2734, 2735, 2738, 2739, 2740, 2741, 3908, 3909, 3910, 3911, 2742, 2743, 2740, 2741, 2744, 2745, 2746, 2747, 3910, 3911, 3912, 3913, 2748, 2749, 2746, 2747, 2750, 2751, 2752, 2753, 3912, 3913, 3914, 3915, 2754, 2755, 2752, 2753, 2756, 2757, 2758, 2759, 3914, 3915, 3916, 3917, 2760, 2761, 2758, 2759, 2762, 2763, 2764, 2765, 3916, 3917, 3918, 3919, 2766, 2767, 2764, 2765, 2768, 2769, 2770, 2771, 3918, 3919, 3920, 3921, 2772, 2773, 2770, 2771, 2774, 2775, 2776, 2777, 3920, 3921, 3922, 3923, 2778, 2779, 2776, 2777, 2780, 2781, 2782, 2783, 3922, 3923, 3924, 3925, 2784, 2785, 2782, 2783, 2786, 2787, 2788, 2789, 3924, 3925, 3926, 3927, 2790, 2791, 2788, 2789, 2792, 2793, 2794, 2795, 3926, 3927, 3928, 3929, 2796, 2797, 2794, 2795, 2798, 2799, 2800, 2801, 3928, 3929, 3930, 3931, 2802, 2803, 2800, 2801, 2804, 2805, 2806, 2807, 3930, 3931, 3932, 3933, 2808, 2809, 2806, 2807, 2810, 2811, 2812, 2813, 3932, 3933, 3934, 3935, 2814, 2815, 2812, 2813, 2816, 2817, 2818, 2819, 3934, 3935, 3936, 3937, 2820, 2821, 2818, 2819, 2822, 2823, 2824, 2825, 3936, 3937, 3938, 3939, 2826, 2827, 2824, 2825, 2828, 2829, 2830, 2831, 3938, 3939, 3940, 3941, 2832, 2833, 2830, 2831, 2834, 2835, 2836, 2837, 3940, 3941, 3942, 3943, 2838, 2839, 2836, 2837, 2840, 2841, 2842, 2843, 3942, 3943, 3944, 3945, 2844, 2845, 2842, 2843, 2846, 2847, 2848, 2849, 3944, 3945, 3946, 3947, 2850, 2851, 2848, 2849, 2852, 2853, 2854, 2855, 3946, 3947, 3948, 3949, 2856, 2857, 2854, 2855, 2858, 2859, 2860, 2861, 3948, 3949, 3950, 3951, 2862, 2863, 2860, 2861, 2864, 2865, 2866, 2867, 3950, 3951, 3952, 3953, 2868, 2869, 2866, 2867, 2870, 2871, 2872, 2873, 3952, 3953, 3954, 3955, 2874, 2875, 2872, 2873, 2876, 2877, 2878, 2879, 3954, 3955, 3956, 3957, 2880, 2881, 2878, 2879, 2882, 2883, 2884, 2885, 3956, 3957, 3958, 3959, 2886, 2887, 2884, 2885, 2888, 2889, 2890, 2891, 3958, 3959, 3960, 3961, 2892, 2893, 2890, 2891, 2894, 2895, 2896, 2897, 3960, 3961, 3962, 3963, 2898, 2899, 2896, 2897, 2900, 2901, 2902, 2903, 3962, 3963, 3964, 3965, 2904, 2905, 2902, 2903, 2906, 2907, 2908, 2909, 3964, 3965, 3966, 3967, 2910, 2911, 2908, 2909, 2912, 2913, 2914, 2915, 3966, 3967, 3968, 3969, 2916, 2917, 2914, 2915, 2918, 2919, 2920, 2921, 3968, 3969, 3970, 3971, 2922, 2923, 2920, 2921, 2924, 2925, 2926, 2927, 3970, 3971, 3972, 3973, 2928, 2929, 2926, 2927, 2930, 2931, 2932, 2933, 3972, 3973, 3974, 3975, 2934, 2935, 2932, 2933, 2936, 2937, 2938, 2939, 3974, 3975, 3976, 3977, 2940, 2941, 2938, 2939, 2942, 2943, 2944, 2945, 3976, 3977, 3978, 3979, 2946, 2947, 2944, 2945, 2948, 2949, 2950, 2951, 3978, 3979, 3980, 3981, 2952, 2953, 2950, 2951, 2954, 2955, 2956, 2957, 3980, 3981, 3982, 3983, 2958, 2959, 2956, 2957, 2960, 2961, 2962, 2963, 3982, 3983, 3984, 3985, 2964, 2965, 2962, 2963, 2966, 2967, 2968, 2969, 3984, 3985, 3986, 3987, 2970, 2971, 2968, 2969, 2972, 2973, 2974, 2975, 3986, 3987, 3988, 3989, 2976, 2977, 2974, 2975, 2978, 2979, 2980, 2981, 3988, 3989, 3990, 3991, 2982, 2983, 2980, 2981, 2984, 2985, 2986, 2987, 3990, 3991, 3992, 3993, 2988, 2989, 2986, 2987, 2990, 2991, 2992, 2993, 3992, 3993, 3994, 3995, 2992, 2993, 2994, 2995, 2996, 2997, 3994, 3995};
pfloat MPC02_Gpr[6988] = {1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+01, 1.000000000000000000e+01, -1.000000000000000000e+01, 1.000000000000000000e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+01, 1.000000000000000000e+01, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000056e-01, -1.000000000000000056e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00};
pfloat MPC02_h[3996] = {0.0, 4.000000000000000000e+00, 4.100000000000000000e+01, -3.900000000000000000e+01, 3.929999999999999716e+01, -3.870000000000000284e+01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, 4.000000000000000000e+00, 0.0, 2.000000000000000000e+00, 0.0, 2.999999999999999889e-01, 2.999999999999999889e-01, -1.000000000000000056e-01, 4.099999999999999645e+00, 2.000000000000000000e+00, 0.0, 3.900000000000000000e+01, -3.900000000000000000e+01, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0};
idxint *MPC02_q = NULL;
idxint MPC02_Ajc[1497] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 4, 7, 9, 12, 14, 17, 19, 22, 24, 27, 29, 32, 34, 37, 39, 42, 44, 47, 49, 52, 54, 57, 59, 62, 64, 67, 69, 72, 74, 77, 79, 82, 84, 87, 89, 92, 94, 97, 99, 102, 104, 107, 109, 112, 114, 117, 119, 122, 124, 127, 129, 132, 134, 137, 139, 142, 144, 147, 149, 152, 154, 157, 159, 162, 164, 167, 169, 172, 174, 177, 179, 182, 184, 187, 189, 192, 194, 197, 199, 202, 204, 207, 209, 212, 214, 217, 219, 222, 224, 227, 229, 232, 234, 237, 239, 242, 244, 247, 249, 252, 254, 257, 259, 262, 264, 267, 269, 272, 274, 277, 279, 282, 284, 287, 289, 292, 294, 297, 299, 302, 304, 307, 309, 312, 314, 317, 319, 322, 324, 327, 329, 332, 334, 337, 339, 342, 344, 347, 349, 352, 354, 357, 359, 362, 364, 367, 369, 372, 374, 377, 379, 382, 384, 387, 389, 392, 394, 397, 399, 402, 404, 407, 409, 412, 414, 417, 419, 422, 424, 427, 429, 432, 434, 437, 439, 442, 444, 447, 449, 452, 454, 457, 459, 462, 464, 467, 469, 472, 474, 477, 479, 482, 484, 487, 489, 492, 494, 497, 499, 502, 504, 507, 509, 512, 514, 517, 519, 522, 524, 527, 529, 532, 534, 537, 539, 542, 544, 547, 549, 552, 554, 557, 559, 562, 564, 567, 569, 572, 574, 577, 579, 582, 584, 587, 589, 592, 594, 597, 599, 602, 604, 607, 609, 612, 614, 617, 619, 622, 624, 627, 629, 632, 634, 637, 639, 642, 644, 647, 649, 652, 654, 657, 659, 662, 664, 667, 669, 672, 674, 677, 679, 682, 684, 687, 689, 692, 694, 697, 699, 702, 704, 707, 709, 712, 714, 717, 719, 722, 724, 727, 729, 732, 734, 737, 739, 742, 744, 747, 749, 752, 754, 757, 759, 762, 764, 767, 769, 772, 774, 777, 779, 782, 784, 787, 789, 792, 794, 797, 799, 802, 804, 807, 809, 812, 814, 817, 819, 822, 824, 827, 829, 832, 834, 837, 839, 842, 844, 847, 849, 852, 854, 857, 859, 862, 864, 867, 869, 872, 874, 877, 879, 882, 884, 887, 889, 892, 894, 897, 899, 902, 904, 907, 909, 912, 914, 917, 919, 922, 924, 927, 929, 932, 934, 937, 939, 942, 944, 947, 949, 952, 954, 957, 959, 962, 964, 967, 969, 972, 974, 977, 979, 982, 984, 987, 989, 992, 994, 997, 999, 1002, 1004, 1007, 1009, 1012, 1014, 1017, 1019, 1022, 1024, 1027, 1029, 1032, 1034, 1037, 1039, 1042, 1044, 1047, 1049, 1052, 1054, 1057, 1059, 1062, 1064, 1067, 1069, 1072, 1074, 1077, 1079, 1082, 1084, 1087, 1089, 1092, 1094, 1097, 1099, 1102, 1104, 1107, 1109, 1112, 1114, 1117, 1119, 1122, 1124, 1127, 1129, 1132, 1134, 1137, 1139, 1142, 1144, 1147, 1149, 1152, 1154, 1157, 1159, 1162, 1164, 1167, 1169, 1172, 1174, 1177, 1179, 1182, 1184, 1187, 1189, 1192, 1194, 1197, 1199, 1202, 1204, 1207, 1209, 1212, 1214, 1217, 1219, 1222, 1224, 1227, 1229, 1232, 1234, 1237, 1239, 1242, 1244, 1247, 1249, 1252, 1254, 1257, 1259, 1262, 1264, 1267, 1269, 1272, 1274, 1277, 1279, 1282, 1284, 1287, 1289, 1292, 1294, 1297, 1299, 1302, 1304, 1307, 1309, 1312, 1314, 1317, 1319, 1322, 1324, 1327, 1329, 1332, 1334, 1337, 1339, 1342, 1344, 1347, 1349, 1352, 1354, 1357, 1359, 1362, 1364, 1367, 1369, 1372, 1374, 1377, 1379, 1382, 1384, 1387, 1389, 1392, 1394, 1397, 1399, 1402, 1404, 1407, 1409, 1412, 1414, 1417, 1419, 1422, 1424, 1427, 1429, 1432, 1434, 1437, 1439, 1442, 1444, 1447, 1449, 1452, 1454, 1457, 1459, 1462, 1464, 1467, 1469, 1472, 1474, 1477, 1479, 1482, 1484, 1487, 1489, 1492, 1494, 1497, 1499, 1502, 1504, 1507, 1509, 1512, 1514, 1517, 1519, 1522, 1524, 1527, 1529, 1532, 1534, 1537, 1539, 1542, 1544, 1547, 1549, 1552, 1554, 1557, 1559, 1562, 1564, 1567, 1569, 1572, 1574, 1577, 1579, 1582, 1584, 1587, 1589, 1592, 1594, 1597, 1599, 1602, 1604, 1607, 1609, 1612, 1614, 1617, 1619, 1622, 1624, 1627, 1629, 1632, 1634, 1637, 1639, 1642, 1644, 1647, 1649, 1652, 1654, 1657, 1659, 1662, 1664, 1667, 1669, 1672, 1674, 1677, 1679, 1682, 1684, 1687, 1689, 1692, 1694, 1697, 1699, 1702, 1704, 1707, 1709, 1712, 1714, 1717, 1719, 1722, 1724, 1727, 1729, 1732, 1734, 1737, 1739, 1742, 1744, 1747, 1749, 1752, 1754, 1757, 1759, 1762, 1764, 1767, 1769, 1772, 1774, 1777, 1779, 1782, 1784, 1787, 1789, 1792, 1794, 1797, 1799, 1802, 1804, 1807, 1809, 1812, 1814, 1817, 1819, 1822, 1824, 1827, 1829, 1832, 1834, 1837, 1839, 1842, 1844, 1847, 1849, 1852, 1854, 1857, 1859, 1862, 1864, 1867, 1869, 1872, 1874, 1877, 1879, 1882, 1884, 1887, 1889, 1892, 1894, 1897, 1899, 1902, 1904, 1907, 1909, 1912, 1914, 1917, 1919, 1922, 1924, 1927, 1929, 1932, 1934, 1937, 1939, 1942, 1944, 1947, 1949, 1952, 1954, 1957, 1959, 1962, 1964, 1967, 1969, 1972, 1974, 1977, 1979, 1982, 1984, 1987, 1989, 1992, 1994, 1997, 1999, 2002, 2004, 2007, 2009, 2012, 2014, 2017, 2019, 2022, 2024, 2027, 2029, 2032, 2034, 2037, 2039, 2042, 2044, 2047, 2049, 2052, 2054, 2057, 2059, 2062, 2064, 2067, 2069, 2072, 2074, 2077, 2079, 2082, 2084, 2087, 2089, 2092, 2094, 2097, 2099, 2102, 2104, 2107, 2109, 2112, 2114, 2117, 2119, 2122, 2124, 2127, 2129, 2132, 2134, 2137, 2139, 2142, 2144, 2147, 2149, 2152, 2154, 2157, 2159, 2162, 2164, 2167, 2169, 2172, 2174, 2177, 2179, 2182, 2184, 2187, 2189, 2192, 2194, 2197, 2199, 2202, 2204, 2207, 2209, 2212, 2214, 2217, 2219, 2222, 2224, 2227, 2229, 2232, 2234, 2237, 2239, 2242, 2244, 2247, 2249, 2252, 2254, 2257, 2259, 2262, 2264, 2267, 2269, 2272, 2274, 2277, 2279, 2282, 2284, 2287, 2289, 2292, 2294, 2297, 2299, 2302, 2304, 2307, 2309, 2312, 2314, 2317, 2319, 2322, 2324, 2327, 2329, 2332, 2334, 2337, 2339, 2342, 2344, 2347, 2349, 2352, 2354, 2357, 2359, 2362, 2364, 2367, 2369, 2372, 2374, 2377, 2379, 2382, 2384, 2387, 2389, 2392, 2394, 2397, 2399, 2402, 2404, 2407, 2409, 2412, 2414, 2417, 2419, 2422, 2424, 2427, 2429, 2432, 2434, 2437, 2439, 2442, 2444, 2447, 2449, 2452, 2454, 2457, 2459, 2462, 2464, 2467, 2469, 2472, 2474, 2477, 2479, 2482, 2484, 2487, 2489, 2491};
idxint MPC02_Air[2491] = {0, 498, 0, 498, 0, 1, 498, 1, 498, 1, 2, 498, 2, 498, 2, 3, 498, 3, 498, 3, 4, 498, 4, 498, 4, 5, 498, 5, 498, 5, 6, 498, 6, 498, 6, 7, 498, 7, 498, 7, 8, 498, 8, 498, 8, 9, 498, 9, 498, 9, 10, 498, 10, 498, 10, 11, 498, 11, 498, 11, 12, 498, 12, 498, 12, 13, 498, 13, 498, 13, 14, 498, 14, 498, 14, 15, 498, 15, 498, 15, 16, 498, 16, 498, 16, 17, 498, 17, 498, 17, 18, 498, 18, 498, 18, 19, 498, 19, 498, 19, 20, 498, 20, 498, 20, 21, 498, 21, 498, 21, 22, 498, 22, 498, 22, 23, 498, 23, 498, 23, 24, 498, 24, 498, 24, 25, 498, 25, 498, 25, 26, 498, 26, 498, 26, 27, 498, 27, 498, 27, 28, 498, 28, 498, 28, 29, 498, 29, 498, 29, 30, 498, 30, 498, 30, 31, 498, 31, 498, 31, 32, 498, 32, 498, 32, 33, 498, 33, 498, 33, 34, 498, 34, 498, 34, 35, 498, 35, 498, 35, 36, 498, 36, 498, 36, 37, 498, 37, 498, 37, 38, 498, 38, 498, 38, 39, 498, 39, 498, 39, 40, 498, 40, 498, 40, 41, 498, 41, 498, 41, 42, 498, 42, 498, 42, 43, 498, 43, 498, 43, 44, 498, 44, 498, 44, 45, 498, 45, 498, 45, 46, 498, 46, 498, 46, 47, 498, 47, 498, 47, 48, 498, 48, 498, 48, 49, 498, 49, 498, 49, 50, 498, 50, 498, 50, 51, 498, 51, 498, 51, 52, 498, 52, 498, 52, 53, 498, 53, 498, 53, 54, 498, 54, 498, 54, 55, 498, 55, 498, 55, 56, 498, 56, 498, 56, 57, 498, 57, 498, 57, 58, 498, 58, 498, 58, 59, 498, 59, 498, 59, 60, 498, 60, 498, 60, 61, 498, 61, 498, 61, 62, 498, 62, 498, 62, 63, 498, 63, 498, 63, 64, 498, 64, 498, 64, 65, 498, 65, 498, 65, 66, 498, 66, 498, 66, 67, 498, 67, 498, 67, 68, 498, 68, 498, 68, 69, 498, 69, 498, 69, 70, 498, 70, 498, 70, 71, 498, 71, 498, 71, 72, 498, 72, 498, 72, 73, 498, 73, 498, 73, 74, 498, 74, 498, 74, 75, 498, 75, 498, 75, 76, 498, 76, 498, 76, 77, 498, 77, 498, 77, 78, 498, 78, 498, 78, 79, 498, 79, 498, 79, 80, 498, 80, 498, 80, 81, 498, 81, 498, 81, 82, 498, 82, 498, 82, 83, 498, 83, 498, 83, 84, 498, 84, 498, 84, 85, 498, 85, 498, 85, 86, 498, 86, 498, 86, 87, 498, 87, 498, 87, 88, 498, 88, 498, 88, 89, 498, 89, 498, 89, 90, 498, 90, 498, 90, 91, 498, 91, 498, 91, 92, 498, 92, 498, 92, 93, 498, 93, 498, 93, 94, 498, 94, 498, 94, 95, 498, 95, 498, 95, 96, 498, 96, 498, 96, 97, 498, 97, 498, 97, 98, 498, 98, 498, 98, 99, 498, 99, 498, 99, 100, 498, 100, 498, 100, 101, 498, 101, 498, 101, 102, 498, 102, 498, 102, 103, 498, 103, 498, 103, 104, 498, 104, 498, 104, 105, 498, 105, 498, 105, 106, 498, 106, 498, 106, 107, 498, 107, 498, 107, 108, 498, 108, 498, 108, 109, 498, 109, 498, 109, 110, 498, 110, 498, 110, 111, 498, 111, 498, 111, 112, 498, 112, 498, 112, 113, 498, 113, 498, 113, 114, 498, 114, 498, 114, 115, 498, 115, 498, 115, 116, 498, 116, 498, 116, 117, 498, 117, 498, 117, 118, 498, 118, 498, 118, 119, 498, 119, 498, 119, 120, 498, 120, 498, 120, 121, 498, 121, 498, 121, 122, 498, 122, 498, 122, 123, 498, 123, 498, 123, 124, 498, 124, 498, 124, 125, 498, 125, 498, 125, 126, 498, 126, 498, 126, 127, 498, 127, 498, 127, 128, 498, 128, 498, 128, 129, 498, 129, 498, 129, 130, 498, 130, 498, 130, 131, 498, 131, 498, 131, 132, 498, 132, 498, 132, 133, 498, 133, 498, 133, 134, 498, 134, 498, 134, 135, 498, 135, 498, 135, 136, 498, 136, 498, 136, 137, 498, 137, 498, 137, 138, 498, 138, 498, 138, 139, 498, 139, 498, 139, 140, 498, 140, 498, 140, 141, 498, 141, 498, 141, 142, 498, 142, 498, 142, 143, 498, 143, 498, 143, 144, 498, 144, 498, 144, 145, 498, 145, 498, 145, 146, 498, 146, 498, 146, 147, 498, 147, 498, 147, 148, 498, 148, 498, 148, 149, 498, 149, 498, 149, 150, 498, 150, 498, 150, 151, 498, 151, 498, 151, 152, 498, 152, 498, 152, 153, 498, 153, 498, 153, 154, 498, 154, 498, 154, 155, 498, 155, 498, 155, 156, 498, 156, 498, 156, 157, 498, 157, 498, 157, 158, 498, 158, 498, 158, 159, 498, 159, 498, 159, 160, 498, 160, 498, 160, 161, 498, 161, 498, 161, 162, 498, 162, 498, 162, 163, 498, 163, 498, 163, 164, 498, 164, 498, 164, 165, 498, 165, 498, 165, 166, 498, 166, 498, 166, 167, 498, 167, 498, 167, 168, 498, 168, 498, 168, 169, 498, 169, 498, 169, 170, 498, 170, 498, 170, 171, 498, 171, 498, 171, 172, 498, 172, 498, 172, 173, 498, 173, 498, 173, 174, 498, 174, 498, 174, 175, 498, 175, 498, 175, 176, 498, 176, 498, 176, 177, 498, 177, 498, 177, 178, 498, 178, 498, 178, 179, 498, 179, 498, 179, 180, 498, 180, 498, 180, 181, 498, 181, 498, 181, 182, 498, 182, 498, 182, 183, 498, 183, 498, 183, 184, 498, 184, 498, 184, 185, 498, 185, 498, 185, 186, 498, 186, 498, 186, 187, 498, 187, 498, 187, 188, 498, 188, 498, 188, 189, 498, 189, 498, 189, 190, 498, 190, 498, 190, 191, 498, 191, 498, 191, 192, 498, 192, 498, 192, 193, 498, 193, 498, 193, 194, 498, 194, 498, 194, 195, 498, 195, 498, 195, 196, 498, 196, 498, 196, 197, 498, 197, 498, 197, 198, 498, 198, 498, 198, 199, 498, 199, 498, 199, 200, 498, 200, 498, 200, 201, 498, 201, 498, 201, 202, 498, 202, 498, 202, 203, 498, 203, 498, 203, 204, 498, 204, 498, 204, 205, 498, 205, 498, 205, 206, 498, 206, 498, 206, 207, 498, 207, 498, 207, 208, 498, 208, 498, 208, 209, 498, 209, 498, 209, 210, 498, 210, 498, 210, 211, 498, 211, 498, 211, 212, 498, 212, 498, 212, 213, 498, 213, 498, 213, 214, 498, 214, 498, 214, 215, 498, 215, 498, 215, 216, 498, 216, 498, 216, 217, 498, 217, 498, 217, 218, 498, 218, 498, 218, 219, 498, 219, 498, 219, 220, 498, 220, 498, 220, 221, 498, 221, 498, 221, 222, 498, 222, 498, 222, 223, 498, 223, 498, 223, 224, 498, 224, 498, 224, 225, 498, 225, 498, 225, 226, 498, 226, 498, 226, 227, 498, 227, 498, 227, 228, 498, 228, 498, 228, 229, 498, 229, 498, 229, 230, 498, 230, 498, 230, 231, 498, 231, 498, 231, 232, 498, 232, 498, 232, 233, 498, 233, 498, 233, 234, 498, 234, 498, 234, 235, 498, 235, 498, 235, 236, 498, 236, 498, 236, 237, 498, 237, 498, 237, 238, 498, 238, 498, 238, 239, 498, 239, 498, 239, 240, 498, 240, 498, 240, 241, 498, 241, 498, 241, 242, 498, 242, 498, 242, 243, 498, 243, 498, 243, 244, 498, 244, 498, 244, 245, 498, 245, 498, 245, 246, 498, 246, 498, 246, 247, 498, 247, 498, 247, 248, 498, 248, 498, 248, 249, 498, 249, 498, 249, 250, 498, 250, 498, 250, 251, 498, 251, 498, 251, 252, 498, 252, 498, 252, 253, 498, 253, 498, 253, 254, 498, 254, 498, 254, 255, 498, 255, 498, 255, 256, 498, 256, 498, 256, 257, 498, 257, 498, 257, 258, 498, 258, 498, 258, 259, 498, 259, 498, 259, 260, 498, 260, 498, 260, 261, 498, 261, 498, 261, 262, 498, 262, 498, 262, 263, 498, 263, 498, 263, 264, 498, 264, 498, 264, 265, 498, 265, 498, 265, 266, 498, 266, 498, 266, 267, 498, 267, 498, 267, 268, 498, 268, 498, 268, 269, 498, 269, 498, 269, 270, 498, 270, 498, 270, 271, 498, 271, 498, 271, 272, 498, 272, 498, 272, 273, 498, 273, 498, 273, 274, 498, 274, 498, 274, 275, 498, 275, 498, 275, 276, 498, 276, 498, 276, 277, 498, 277, 498, 277, 278, 498, 278, 498, 278, 279, 498, 279, 498, 279, 280, 498, 280, 498, 280, 281, 498, 281, 498, 281, 282, 498, 282, 498, 282, 283, 498, 283, 498, 283, 284, 498, 284, 498, 284, 285, 498, 285, 498, 285, 286, 498, 286, 498, 286, 287, 498, 287, 498, 287, 288, 498, 288, 498, 288, 289, 498, 289, 498, 289, 290, 498, 290, 498, 290, 291, 498, 291, 498, 291, 292, 498, 292, 498, 292, 293, 498, 293, 498, 293, 294, 498, 294, 498, 294, 295, 498, 295, 498, 295, 296, 498, 296, 498, 296, 297, 498, 297, 498, 297, 298, 498, 298, 498, 298, 299, 498, 299, 498, 299, 300, 498, 300, 498, 300, 301, 498, 301, 498, 301, 302, 498, 302, 498, 302, 303, 498, 303, 498, 303, 304, 498, 304, 498, 304, 305, 498, 305, 498, 305, 306, 498, 306, 498, 306, 307, 498, 307, 498, 307, 308, 498, 308, 498, 308, 309, 498, 309, 498, 309, 310, 498, 310, 498, 310, 311, 498, 311, 498, 311, 312, 498, 312, 498, 312, 313, 498, 313, 498, 313, 314, 498, 314, 498, 314, 315, 498, 315, 498, 315, 316, 498, 316, 498, 316, 317, 498, 317, 498, 317, 318, 498, 318, 498, 318, 319, 498, 319, 498, 319, 320, 498, 320, 498, 320, 321, 498, 321, 498, 321, 322, 498, 322, 498, 322, 323, 498, 323, 498, 323, 324, 498, 324, 498, 324, 325, 498, 325, 498, 325, 326, 498, 326, 498, 326, 327, 498, 327, 498, 327, 328, 498, 328, 498, 328, 329, 498, 329, 498, 329, 330, 498, 330, 498, 330, 331, 498, 331, 498, 331, 332, 498, 332, 498, 332, 333, 498, 333, 498, 333, 334, 498, 334, 498, 334, 335, 498, 335, 498, 335, 336, 498, 336, 498, 336, 337, 498, 337, 498, 337, 338, 498, 338, 498, 338, 339, 498, 339, 498, 339, 340, 498, 340, 498, 340, 341, 498, 341, 498, 341, 342, 498, 342, 498, 342, 343, 498, 343, 498, 343, 344, 498, 344, 498, 344, 345, 498, 345, 498, 345, 346, 498, 346, 498, 346, 347, 498, 347, 498, 347, 348, 498, 348, 498, 348, 349, 498, 349, 498, 349, 350, 498, 350, 498, 350, 351, 498, 351, 498, 351, 352, 498, 352, 498, 352, 353, 498, 353, 498, 353, 354, 498, 354, 498, 354, 355, 498, 355, 498, 355, 356, 498, 356, 498, 356, 357, 498, 357, 498, 357, 358, 498, 358, 498, 358, 359, 498, 359, 498, 359, 360, 498, 360, 498, 360, 361, 498, 361, 498, 361, 362, 498, 362, 498, 362, 363, 498, 363, 498, 363, 364, 498, 364, 498, 364, 365, 498, 365, 498, 365, 366, 498, 366, 498, 366, 367, 498, 367, 498, 367, 368, 498, 368, 498, 368, 369, 498, 369, 498, 369, 370, 498, 370, 498, 370, 371, 498, 371, 498, 371, 372, 498, 372, 498, 372, 373, 498, 373, 498, 373, 374, 498, 374, 498, 374, 375, 498, 375, 498, 375, 376, 498, 376, 498, 376, 377, 498, 377, 498, 377, 378, 498, 378, 498, 378, 379, 498, 379, 498, 379, 380, 498, 380, 498, 380, 381, 498, 381, 498, 381, 382, 498, 382, 498, 382, 383, 498, 383, 498, 383, 384, 498, 384, 498, 384, 385, 498, 385, 498, 385, 386, 498, 386, 498, 386, 387, 498, 387, 498, 387, 388, 498, 388, 498, 388, 389, 498, 389, 498, 389, 390, 498, 390, 498, 390, 391, 498, 391, 498, 391, 392, 498, 392, 498, 392, 393, 498, 393, 498, 393, 394, 498, 394, 498, 394, 395, 498, 395, 498, 395, 396, 498, 396, 498, 396, 397, 498, 397, 498, 397, 398, 498, 398, 498, 398, 399, 498, 399, 498, 399, 400, 498, 400, 498, 400, 401, 498, 401, 498, 401, 402, 498, 402, 498, 402, 403, 498, 403, 498, 403, 404, 498, 404, 498, 404, 405, 498, 405, 498, 405, 406, 498, 406, 498, 406, 407, 498, 407, 498, 407, 408, 498, 408, 498, 408, 409, 498, 409, 498, 409, 410, 498, 410, 498, 410, 411, 498, 411, 498, 411, 412, 498, 412, 498, 412, 413, 498, 413, 498, 413, 414, 498, 414, 498, 414, 415, 498, 415, 498, 415, 416, 498, 416, 498, 416, 417, 498, 417, 498, 417, 418, 498, 418, 498, 418, 419, 498, 419, 498, 419, 420, 498, 420, 498, 420, 421, 498, 421, 498, 421, 422, 498, 422, 498, 422, 423, 498, 423, 498, 423, 424, 498, 424, 498, 424, 425, 498, 425, 498, 425, 426, 498, 426, 498, 426, 427, 498, 427, 498, 427, 428, 498, 428, 498, 428, 429, 498, 429, 498, 429, 430, 498, 430, 498, 430, 431, 498, 431, 498, 431, 432, 498, 432, 498, 432, 433, 498, 433, 498, 433, 434, 498, 434, 498, 434, 435, 498, 435, 498, 435, 436, 498, 436, 498, 436, 437, 498, 437, 498, 437, 438, 498, 438, 498, 438, 439, 498, 439, 498, 439, 440, 498, 440, 498, 440, 441, 498, 441, 498, 441, 442, 498, 442, 498, 442, 443, 498, 443, 498, 443, 444, 498, 444, 498, 444, 445, 498, 445, 498, 445, 446, 498, 446, 498, 446, 447, 498, 447, 498, 447, 448, 498, 448, 498, 448, 449, 498, 449, 498, 449, 450, 498, 450, 498, 450, 451, 498, 451, 498, 451, 452, 498, 452, 498, 452, 453, 498, 453, 498, 453, 454, 498, 454, 498, 454, 455, 498, 455, 498, 455, 456, 498, 456, 498, 456, 457, 498, 457, 498, 457, 458, 498, 458, 498, 458, 459, 498, 459, 498, 459, 460, 498, 460, 498, 460, 461, 498, 461, 498, 461, 462, 498, 462, 498, 462, 463, 498, 463, 498, 463, 464, 498, 464, 498, 464, 465, 498, 465, 498, 465, 466, 498, 466, 498, 466, 467, 498, 467, 498, 467, 468, 498, 468, 498, 468, 469, 498, 469, 498, 469, 470, 498, 470, 498, 470, 471, 498, 471, 498, 471, 472, 498, 472, 498, 472, 473, 498, 473, 498, 473, 474, 498, 474, 498, 474, 475, 498, 475, 498, 475, 476, 498, 476, 498, 476, 477, 498, 477, 498, 477, 478, 498, 478, 498, 478, 479, 498, 479, 498, 479, 480, 498, 480, 498, 480, 481, 498, 481, 498, 481, 482, 498, 482, 498, 482, 483, 498, 483, 498, 483, 484, 498, 484, 498, 484, 485, 498, 485, 498, 485, 486, 498, 486, 498, 486, 487, 498, 487, 498, 487, 488, 498, 488, 498, 488, 489, 498, 489, 498, 489, 490, 498, 490, 498, 490, 491, 498, 491, 498, 491, 492, 498, 492, 498, 492, 493, 498, 493, 498, 493, 494, 498, 494, 498, 494, 495, 498, 495, 498, 495, 496, 498, 496, 498, 496, 497, 498, 497, 498, 497, 498};
pfloat MPC02_Apr[2491] = {1.000000000000000000e+00, 1.500000000000000222e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000056e-01, 5.000000000000000971e-03, 1.000000000000000056e-01, -5.000000000000000971e-03};
pfloat MPC02_b[499] = {-1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -1.000000000000001721e-01, -4.200000000000000178e+00, -1.518850000000007867e+02};

static char * test_MPC02(){

pwork *mywork;
idxint exitflag;
 
/* set up data */
mywork = ECOS_setup(MPC02_n, MPC02_m, MPC02_p, MPC02_l, MPC02_ncones, MPC02_q, 0,
                    MPC02_Gpr, MPC02_Gjc, MPC02_Gir,
                    MPC02_Apr, MPC02_Ajc, MPC02_Air,
                    MPC02_c, MPC02_h, MPC02_b);
if( mywork != NULL ){
/* solve */
exitflag = ECOS_solve(mywork); }
else exitflag = ECOS_FATAL;
 
/* clean up memory */
ECOS_cleanup(mywork, 0);
 
mu_assert("MPC02: ECOS failed to produce outputflag OPTIMAL", exitflag == ECOS_OPTIMAL || exitflag == ECOS_OPTIMAL+ECOS_INACC_OFFSET);
return 0;
}
