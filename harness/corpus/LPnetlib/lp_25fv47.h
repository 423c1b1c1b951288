#include "ecos.h"
#include "minunit.h"
idxint lp_25fv47_n = 1876;
idxint lp_25fv47_m = 1876;
idxint lp_25fv47_p = 821;
idxint lp_25fv47_l = 1876;
idxint lp_25fv47_ncones = 0;
pfloat lp_25fv47_c[1876] = {0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, -1.000000000000000056e-01, 1.010000000000000064e-01, -7.499999999999999722e-02, 7.599999999999999811e-02, -1.000000000000000056e-01, 1.010000000000000064e-01, -8.749999999999999445e-02, 8.849999999999999534e-02, 0.0, 0.0, 0.0, 0.0, 2.000000000000000111e-01, 2.500000000000000000e-01, 1.000000000000000021e-03, 2.274999999999999911e+00, -1.530299999999999994e+00, 9.631999999999999451e-01, 3.687000000000000277e-01, -1.425400000000000000e+00, 1.006999999999999895e+00, -1.138700000000000045e+00, 9.838999999999999968e-01, 1.010899999999999910e+00, 3.968999999999999750e-01, -1.246399999999999952e+00, 1.006999999999999895e+00, -1.012199999999999989e+00, 1.010899999999999910e+00, 3.968999999999999750e-01, 8.625000000000000444e-01, 6.673999999999999932e-01, 6.943000000000000282e-01, 3.074999999999999956e-01, 4.248999999999999999e-01, 3.059000000000000052e-01, -1.206299999999999928e+00, 1.011400000000000077e+00, -9.790999999999999703e-01, 9.886000000000000343e-01, 1.015400000000000080e+00, 4.032999999999999918e-01, 3.657000000000000250e-01, 3.449999999999999734e-01, 6.832000000000000295e-01, 8.625000000000000444e-01, 6.673999999999999932e-01, 6.943000000000000282e-01, 1.019900000000000029e+00, 4.093999999999999861e-01, -1.651899999999999924e+00, 4.001000000000000112e-01, -1.382300000000000084e+00, 9.886000000000000343e-01, 4.032999999999999918e-01, 4.183000000000000052e-01, 4.022000000000000020e-01, 1.000000000000000000e+02, 2.082479999999999976e+01, 2.000000000000000000e+01, 1.397480000000000011e+01, 1.159680000000000177e+01, 1.208479999999999954e+01, 1.114669999999999916e+01, 1.500000000000000000e+01, 7.906699999999999839e+00, 9.582800000000000651e+00, 8.019800000000000040e+00, 5.941699999999999982e+00, 4.605900000000000105e+00, 5.535000000000000142e+00, 6.373999999999999666e-01, 1.739999999999999880e-02, 1.110000000000000049e-02, 8.800000000000000530e-03, 1.739999999999999880e-02, 1.140000000000000041e-02, 2.564000000000000168e-01, 2.564000000000000168e-01, 8.190000000000000058e-02, 4.950000000000000233e-02, 4.039999999999999841e-02, 1.592999999999999972e-01, 5.430000000000000104e-02, 1.000999999999999945e-01, 3.819999999999999785e-02, 1.087000000000000050e-01, 9.279999999999999361e-02, 7.099999999999999367e-02, 5.999999999999999778e-02, 1.723999999999999977e-01, 6.500000000000000222e-02, 1.416999999999999926e-01, 5.299999999999999850e-02, 1.137999999999999984e-01, 9.679999999999999716e-02, 1.032999999999999891e-01, 9.769999999999999518e-02, 8.229999999999999816e-02, 9.760000000000002007e-02, 1.655000000000000082e-01, 6.210000000000000242e-02, 1.290999999999999925e-01, 4.910000000000000475e-02, 1.180999999999999966e-01, 9.999999999999999167e-02, 1.179999999999999938e-01, 9.060000000000001386e-02, 7.639999999999998181e-02, 9.049999999999999711e-02, 0.0, 0.0, 0.0, 9.499999999999999764e-03, 9.499999999999999764e-03, 0.0, 0.0, 0.0, 0.0, 1.039999999999999952e-02, 2.180000000000000340e-02, 0.0, 0.0, 0.0, 0.0, 2.179999999999999993e-02, 0.0, 0.0, 0.0, 0.0, 2.179999999999999993e-02, 0.0, 0.0, 0.0, 0.0, -2.700000000000000143e-03, 2.179999999999999993e-02, 0.0, 0.0, 0.0, 0.0, -2.700000000000000143e-03, 2.179999999999999993e-02, 0.0, 0.0, 0.0, 0.0, 7.499999999999999722e-03, 0.0, 0.0, 7.499999999999999722e-03, 0.0, 7.499999999999999722e-03, 7.499999999999999722e-03, 0.0, 0.0, 0.0, 0.0, 7.479999999999999150e-02, 4.530000000000000693e-02, 7.090000000000000469e-02, 4.290000000000000063e-02, -1.699999999999999905e-03, 0.0, 0.0, 0.0, 0.0, 5.340000000000000302e-02, 5.210000000000000048e-02, 6.700000000000000226e-03, 0.0, 1.549999999999999989e-02, 0.0, 3.599999999999999728e-02, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 6.740000000000000158e-02, 4.070000000000000007e-02, 5.759999999999999842e-02, 6.010000000000000064e-02, 3.479999999999999760e-02, 3.629999999999999893e-02, 2.179999999999999993e-02, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 4.176700000000000301e+00, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.000000000000000000e+01, 4.309999999999999942e-02, 0.0, 0.0, 7.499999999999999722e-03, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.000000000000000021e-02, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.000000000000000000e+02, 7.500000000000000000e+00, 0.0, 0.0, 0.0, 7.000000000000000000e+00, 0.0, 0.0, 2.210000000000000020e-01, 0.0, 0.0, 9.700000000000000289e-02, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 8.699999999999999400e-02, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 8.800000000000000877e-02, 8.899999999999998190e-02, 0.0, 0.0, 0.0, 0.0, 0.0, 5.600000000000000117e-02, 9.400000000000000022e-02, 5.800000000000000294e-02, 5.999999999999999778e-02, 9.600000000000000200e-02, 1.000000000000000056e-01, 0.0, 2.129999999999999949e-01, 2.200000000000000011e-01, 5.850000000000000339e-02, 5.800000000000000294e-02, 2.389999999999999625e-01, 2.479999999999999705e-01, 9.800000000000000377e-02, 9.700000000000000289e-02, 2.069999999999999896e-01, 0.0, 0.0, 5.899999999999999689e-02, 0.0, 0.0, 2.310000000000000386e-01, 0.0, 9.900000000000000466e-02, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 9.500000000000001499e-02, 9.500000000000001499e-02, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 9.499999999999998723e-02, 9.500000000000000111e-02, 0.0, 9.500000000000000111e-02, 9.500000000000000111e-02, 9.500000000000000111e-02, 9.499999999999998723e-02, 9.500000000000001499e-02, 0.0, 0.0, 9.500000000000000111e-02, 0.0, 0.0, 9.499999999999998723e-02, 9.500000000000000111e-02, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.970000000000000084e-01, 8.599999999999999312e-02, 0.0, 2.220000000000000029e-01, 1.940000000000000058e-01, 9.700000000000000289e-02, 8.500000000000000611e-02, 1.700000000000000122e-01, 0.0, 7.399999999999999634e-02, 2.240000000000000047e-01, 1.900000000000000022e-01, 9.800000000000000377e-02, 8.300000000000000433e-02, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 2.010000000000000120e-01, 8.500000000000000611e-02, 7.939999999999999281e-01, 5.909999999999999698e-01, 3.559999999999999831e-01, 3.539999999999999813e-01, 3.549999999999999822e-01, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 6.373999999999999666e-01, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.079999999999999849e-01, 4.900000000000000189e-02, 9.499999999999998723e-02, 4.399999999999999745e-02, 0.0, 0.0, 1.130000000000000171e-01, 1.390000000000000124e-01, 1.759999999999999898e-01, 6.600000000000000311e-02, 4.900000000000000189e-02, 8.300000000000000433e-02, 1.160000000000000059e-01, 1.509999999999999953e-01, 1.769999999999999907e-01, 6.600000000000000311e-02, 5.500000000000000722e-02, 8.400000000000000522e-02, 0.0, 0.0, 1.360000000000000098e-01, 1.799999999999999933e-01, 2.240000000000000324e-01, 7.900000000000000078e-02, 6.199999999999999956e-02, 1.039999999999999952e-01, 1.370000000000000107e-01, 1.809999999999999942e-01, 1.829999999999999960e-01, 7.900000000000000078e-02, 6.099999999999999867e-02, 1.039999999999999952e-01, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 2.792999999999999927e-01, 2.564000000000000168e-01, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.000000000000000021e-03, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.000000000000000021e-03, 0.0, 0.0, 3.800000000000000044e-01, 2.469999999999999973e-01, 1.140000000000000041e-01, 0.0, 2.599999999999999881e-02, 0.0, 3.529999999999999805e-01, 2.289999999999999813e-01, 1.019999999999999934e-01, 0.0, 2.210000000000000020e-01, 0.0, 0.0, 0.0, 0.0, 0.0, 9.199999999999999845e-02, 2.000000000000000111e-01, 0.0, 3.079999999999999960e-01, 2.540000000000000036e-01, 1.650000000000000078e-01, 3.240000000000000102e-01, 2.109999999999999931e-01, 9.700000000000000289e-02, 1.800000000000000211e-01, 8.300000000000000433e-02, 1.038999999999999924e+00, 6.620000000000000329e-01, 3.150000000000000022e-01, 2.049999999999999878e-01, 5.909999999999999698e-01, 5.909999999999999698e-01, 5.909999999999999698e-01, 8.999999999999998279e-02, 0.0, 0.0, 0.0, 8.899999999999999578e-02, 0.0, 0.0, 1.199999999999999956e-01, 3.639999999999999902e-01, 3.039999999999999925e-01, 1.229999999999999982e-01, 3.059999999999999942e-01, 2.330000000000000127e-01, 2.949999999999999845e-01, 2.190000000000000002e-01, 1.799999999999999933e-01, 9.900000000000000466e-02, 3.489999999999999769e-01, 2.620000000000000107e-01, 7.900000000000000078e-02, 2.940000000000000391e-01, 2.640000000000000124e-01, 9.800000000000000377e-02, 1.499999999999999944e-01, 1.330000000000000071e-01, 1.330000000000000071e-01, 1.209999999999999964e-01, 1.079999999999999988e-01, 1.079999999999999988e-01, 7.799999999999999989e-02, 2.839999999999999747e-01, 1.849999999999999978e-01, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.499999999999999944e-01, 1.499999999999999944e-01, 1.499999999999999944e-01, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.499999999999999944e-01, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, -1.600000000000000000e+01, 1.669999999999999929e+01, 0.0, -1.150000000000000000e+01, 0.0, 1.200000000000000000e+01, 0.0, 2.280000000000000082e-01, 1.140000000000000041e-01, 0.0, 0.0, 1.960000000000000075e-01, 9.800000000000000377e-02, 0.0, 0.0, 0.0, 8.999999999999999667e-02, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 5.040000000000000729e-02, 5.040000000000000729e-02, 5.040000000000000036e-02, 5.040000000000000036e-02, 5.040000000000000036e-02, 5.040000000000000036e-02, 5.040000000000000036e-02, 5.040000000000000036e-02, 5.040000000000000036e-02, 5.040000000000000036e-02, 5.040000000000000036e-02, 5.040000000000000036e-02, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.940000000000000058e-01, 9.700000000000000289e-02, 1.700000000000000122e-01, 8.500000000000000611e-02, 1.650000000000000078e-01, 8.200000000000000344e-02, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.829999999999999960e-01, 9.099999999999999756e-02, 1.559999999999999998e-01, 7.799999999999999989e-02, 1.660000000000000087e-01, 3.439999999999999725e-01, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 5.909999999999999698e-01, 5.909999999999999698e-01, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 2.510000000000000009e-01, 1.260000000000000009e-01, 0.0, 2.190000000000000002e-01, 1.089999999999999997e-01, 1.000000000000000194e-01, 9.099999999999999756e-02, 0.0, 0.0, 0.0, 1.266599999999999948e+00, 1.266599999999999948e+00, 1.266599999999999948e+00, 0.0, 0.0, 0.0, 0.0, 0.0, 9.310000000000000220e-02, 8.290000000000000147e-02, 9.600000000000000200e-02, 1.930000000000000049e-01, 1.208999999999999936e-01, 1.288999999999999868e-01, 1.083999999999999964e-01, 1.900000000000000022e-01, 9.600000000000000200e-02, 7.069999999999999896e-02, 8.039999999999999925e-02, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.910000000000000031e-01, 1.930000000000000049e-01, 9.329999999999999405e-02, 1.073999999999999955e-01, 9.489999999999999825e-02, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 9.102999999999999980e-01, 0.0, 1.650000000000000078e-01, 1.089099999999999957e+00, 1.078999999999999959e+00, 0.0, 1.000000000000000021e-03, 0.0, 0.0, 6.510000000000000231e-01, 6.510000000000000231e-01, 0.0, 0.0, 0.0, 8.675000000000000488e-01, 0.0, 8.687000000000000277e-01, 0.0, 8.677000000000000268e-01, 2.750000000000000222e-01, 2.750000000000000222e-01, -2.399999999999999911e+00, -2.399999999999999911e+00, 0.0, 0.0, 0.0, 1.798000000000000043e+00, 1.082100000000000062e+00, 2.305099999999999927e+00, 1.665000000000000036e+00, 1.082100000000000062e+00, 2.207800000000000207e+00, 3.196999999999999842e-01, 2.691000000000000059e-01, 1.698000000000000065e-01, 3.101999999999999758e-01, 3.195999999999999952e-01, 1.300999999999999934e+00, 2.874999999999999778e-01, 2.560000000000000053e-01, 1.207099999999999840e+00, 3.101999999999999758e-01, 1.416099999999999692e+00, 3.195999999999999952e-01, 1.300999999999999934e+00, 2.874999999999999778e-01, 2.560000000000000053e-01, 1.207099999999999840e+00, 3.101999999999999758e-01, 1.416099999999999692e+00, 2.908999999999999919e-01, 1.844100000000000072e+00, 1.659000000000000030e+00, 6.885000000000000009e-01, 1.187599999999999989e+00, 1.335399999999999920e+00, 4.099000000000000421e-01, 5.832000000000000517e-01, 1.603199999999999958e+00, 1.085900000000000087e+00, 1.085900000000000087e+00, 1.603199999999999958e+00, 1.659000000000000030e+00, 7.865999999999999659e-01, 1.187599999999999989e+00, 1.335399999999999920e+00, 4.200700000000000323e+00, 4.307400000000000340e+00, 3.196999999999999842e-01, 4.123999999999999888e-01, 1.300999999999999934e+00, 6.301999999999999824e-01, 1.574300000000000033e+00, 1.574300000000000033e+00, 2.874999999999999778e-01, 4.217399999999999594e+00, 2.560000000000000053e-01, 1.207099999999999840e+00, 1.480300000000000171e+00, 1.480300000000000171e+00, 4.390600000000000058e+00, 4.671000000000000152e-01, 4.430200000000000138e+00, 3.101999999999999758e-01, 1.416099999999999692e+00, 7.449999999999999956e-01, 1.689000000000000057e+00, 1.689000000000000057e+00, 4.715600000000000236e+00, 4.978000000000000203e-01, 4.818500000000000227e+00, 5.773000000000000353e-01, 3.436000000000000165e-01, 1.698700000000000099e+00, 4.398500000000000298e+00, 2.691999999999999948e-01, 4.511300000000000310e+00, 1.696999999999999897e-01, 2.736999999999999988e-01, 1.216900000000000315e+00, 3.251000000000000001e-01, 3.251000000000000001e-01, 1.537600000000000300e+00, 5.655999999999999917e-01, 4.621999999999999997e-01, 3.196999999999999842e-01, 1.300999999999999934e+00, 2.691000000000000059e-01, 1.698000000000000065e-01, 2.736999999999999988e-01, 1.216900000000000315e+00, 2.874999999999999778e-01, 2.560000000000000053e-01, 1.207099999999999840e+00, 3.101999999999999758e-01, 1.416099999999999692e+00, 5.232999999999999874e-01, 3.623999999999999999e-01, 5.356999999999999540e-01, 1.555699999999999861e+00, -4.530499999999999972e+00, 6.178700000000000081e+00, 1.300999999999999934e+00, 1.753100000000000325e+00, 6.187500000000000000e+00, 2.874999999999999778e-01, 2.560000000000000053e-01, 1.207099999999999840e+00, 1.659000000000000030e+00, 6.368600000000000705e+00, 4.671000000000000152e-01, 1.416099999999999692e+00, 3.009999999999999898e-01, 1.560400000000000009e+00, 5.655999999999999917e-01, 3.623999999999999999e-01, 5.356999999999999540e-01, 1.598000000000000087e+00, 5.213300000000000267e+00, 4.919000000000000039e-01, 3.435000000000000275e-01, 5.168000000000000371e-01, 1.536799999999999944e+00, 8.579999999999999849e-01, -3.435000000000000275e-01, -3.071499999999999897e+00, 1.317199999999999926e+00, 3.806500000000000217e+00, 3.010999999999999788e-01, 2.746999999999999997e-01, 4.077999999999999958e-01, 2.067099999999999937e+00, 5.866000000000000103e-01, 5.213300000000000267e+00, 4.919000000000000039e-01, 3.435000000000000275e-01, 5.168000000000000371e-01, 1.536799999999999944e+00, 8.579999999999999849e-01, 1.809900000000000064e+00, 3.101999999999999758e-01, 5.000899999999999679e+00, 2.828999999999999848e-01, 1.920000000000000040e-01, 3.039000000000000035e-01, 1.216999999999999860e+00, 1.216999999999999860e+00, 3.003000000000000114e-01, 5.213300000000000267e+00, 4.919000000000000039e-01, 3.435000000000000275e-01, 5.168000000000000371e-01, 2.987000000000000210e-01, 2.097999999999999587e-01, 3.215999999999999970e-01, 1.217000000000000082e+00, 3.161999999999999256e-01, 3.435000000000000275e-01, 5.168000000000000371e-01, 2.565999999999999948e-01, 1.698000000000000065e-01, 2.736999999999999988e-01, 1.216900000000000315e+00, 5.461000000000000298e-01, 2.750000000000000222e-01, 2.560000000000000053e-01, 1.207099999999999840e+00, 5.362000000000000099e-01, 4.546000000000000041e-01, 3.101999999999999758e-01, 1.416099999999999692e+00, 7.449999999999999956e-01, -2.510300000000000420e+00, -2.336399999999999810e+00, 1.310599999999999987e+00, 4.803999999999999937e-01, 3.824899999999999967e+00, 9.756000000000000227e-01, 1.218199999999999950e+00, 1.277400000000000091e+00, 4.621000000000000107e-01, 3.254000000000000226e-01, 4.909999999999999920e-01, 3.802299999999999791e+00, 4.621000000000000107e-01, 3.254000000000000226e-01, 4.909999999999999920e-01, 2.931900000000000173e+00, 3.001500000000000057e+00, 1.013400000000000079e+00, 1.147899999999999920e+00, 2.931900000000000173e+00, 3.001500000000000057e+00, 1.013400000000000079e+00, 1.175599999999999978e+00, 3.148000000000000242e-01, 4.804000000000000492e-01, 2.033000000000000085e-01, 2.291999999999999871e-01, 3.980000000000000204e-01, 3.335000000000000187e-01, 2.033000000000000085e-01, 1.114200000000000079e+00, 4.716000000000000192e-01, 3.720999999999999863e-01, 4.233999999999999986e-01, 1.467100000000000071e+00, 8.381999999999999451e-01, 1.883699999999999930e+00, 4.904999999999999916e-01, 1.529999999999999971e-01, 3.125000000000000000e-01, 1.125699999999999923e+00, 4.932000000000000273e-01, 1.394800000000000262e+00, 2.291999999999999871e-01, 2.929999999999999827e-01, 1.112900000000000000e+00, 4.803999999999999937e-01, 1.382099999999999884e+00, 3.980000000000000204e-01, 3.335000000000000187e-01, 1.310399999999999787e+00, 6.777999999999999581e-01, 1.579500000000000126e+00, 2.581999999999999851e-01, 1.179499999999999993e+00, 2.530999999999999917e-01, 1.010099999999999998e+00, 1.252699999999999925e+00, 1.277400000000000091e+00, 3.649000000000000021e-01, 9.756000000000000227e-01, 4.908000000000000140e-01, 3.148000000000000242e-01, 4.803999999999999382e-01, 1.415399999999999991e+00, 1.618700000000000028e+00, 4.908000000000000140e-01, 3.148000000000000242e-01, 4.803999999999999937e-01, 3.896000000000000019e-01, 1.187599999999999989e+00, 1.187599999999999989e+00, 1.310599999999999987e+00, 1.187599999999999989e+00, 3.979999999999999649e-01, 3.335000000000000187e-01, 1.310399999999999787e+00, 4.908000000000000140e-01, 3.148000000000000242e-01, 4.803999999999999937e-01, 1.415399999999999991e+00, 1.659699999999999731e+00, 1.310599999999999987e+00, 3.079599999999999671e+00, 3.096299999999999830e+00, 3.366000000000000103e-01, 2.033000000000000085e-01, 1.114200000000000079e+00, 4.716000000000000192e-01, 3.720999999999999863e-01, 4.233999999999999986e-01, 1.467100000000000071e+00, 8.381999999999999451e-01, 2.291999999999999871e-01, 1.112900000000000000e+00, 4.803999999999999937e-01, 4.908000000000000140e-01, 4.077999999999999958e-01, 3.125999999999999890e-01, 4.804000000000000492e-01, 1.718000000000000083e-01, 1.382099999999999884e+00, 2.931900000000000173e+00, 3.001500000000000057e+00, 1.013400000000000079e+00, 1.175599999999999978e+00, 2.033000000000000085e-01, 1.114200000000000079e+00, 2.291999999999999871e-01, 2.929999999999999827e-01, 1.112900000000000000e+00, 3.148000000000000242e-01, 1.415399999999999991e+00, 7.756999999999999451e-01, 1.659699999999999953e+00, 2.530999999999999917e-01, 1.252699999999999925e+00, 2.931900000000000173e+00, 3.001500000000000057e+00, 1.013400000000000079e+00, -2.277099999999999902e+00, -2.479600000000000026e+00, -1.987000000000000099e+00, -2.237999999999999989e+00, 9.886000000000000343e-01, 1.660300000000000109e+00, 4.077999999999999958e-01, -2.364500000000000046e+00, -2.364500000000000046e+00, -2.069100000000000161e+00, -2.069100000000000161e+00, 2.874999999999999778e-01, 2.874999999999999778e-01, 2.874999999999999778e-01, 2.874999999999999778e-01, 1.112900000000000000e+00, 1.112900000000000000e+00, 2.874999999999999778e-01, 1.207099999999999840e+00, 1.392099999999999893e+00, 1.392099999999999893e+00, 1.392099999999999893e+00, 1.844100000000000072e+00, 7.735999999999999543e-01, 3.101999999999999758e-01, 2.874999999999999778e-01, 4.249999999999999889e-01, 3.340000000000000191e-01, 4.540000000000000147e-01, 3.469999999999999751e-01, 1.187599999999999989e+00, 4.810399999999999565e+00, 1.187599999999999989e+00, 4.810399999999999565e+00, 1.187599999999999989e+00, 4.810399999999999565e+00, -9.481000000000000538e-01, 1.574300000000000033e+00, 1.574300000000000033e+00, 1.574300000000000033e+00, 1.753099999999999881e+00, 1.753100000000000103e+00, 1.753100000000000103e+00, 1.480299999999999949e+00, 1.480299999999999949e+00, 1.480299999999999949e+00, 1.480299999999999949e+00, 1.659000000000000030e+00, 1.659000000000000252e+00, 1.659000000000000030e+00, 1.187599999999999989e+00, 1.187599999999999989e+00, 1.187599999999999989e+00, 4.055100000000000371e+00, 4.055100000000000371e+00, 4.804000000000000492e-01, 4.804000000000000492e-01, 4.803999999999999937e-01, 4.803999999999999937e-01, 1.357299999999999951e+00, 1.531300000000000106e+00, 5.387999999999999456e-01, 5.387999999999999456e-01, 5.387999999999999456e-01, 5.387999999999999456e-01, 5.387999999999999456e-01, 5.387999999999999456e-01, -9.000000000000000000e+00, -8.000000000000000000e+00, -7.000000000000000000e+00, -8.000000000000000000e+00, -6.500000000000000000e+00, -6.000000000000000000e+00, -2.000000000000000000e+00, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 2.010000000000000120e-01, 2.010000000000000120e-01, 0.0, 0.0, 2.079000000000000015e-01, 1.859999999999999987e-01, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.531300000000000106e+00};
idxint lp_25fv47_Gjc[1877] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 261, 262, 263, 264, 265, 266, 267, 268, 269, 270, 271, 272, 273, 274, 275, 276, 277, 278, 279, 280, 281, 282, 283, 284, 285, 286, 287, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 365, 366, 367, 368, 369, 370, 371, 372, 373, 374, 375, 376, 377, 378, 379, 380, 381, 382, 383, 384, 385, 386, 387, 388, 389, 390, 391, 392, 393, 394, 395, 396, 397, 398, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 432, 433, 434, 435, 436, 437, 438, 439, 440, 441, 442, 443, 444, 445, 446, 447, 448, 449, 450, 451, 452, 453, 454, 455, 456, 457, 458, 459, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472, 473, 474, 475, 476, 477, 478, 479, 480, 481, 482, 483, 484, 485, 486, 487, 488, 489, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 506, 507, 508, 509, 510, 511, 512, 513, 514, 515, 516, 517, 518, 519, 520, 521, 522, 523, 524, 525, 526, 527, 528, 529, 530, 531, 532, 533, 534, 535, 536, 537, 538, 539, 540, 541, 542, 543, 544, 545, 546, 547, 548, 549, 550, 551, 552, 553, 554, 555, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614, 615, 616, 617, 618, 619, 620, 621, 622, 623, 624, 625, 626, 627, 628, 629, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 643, 644, 645, 646, 647, 648, 649, 650, 651, 652, 653, 654, 655, 656, 657, 658, 659, 660, 661, 662, 663, 664, 665, 666, 667, 668, 669, 670, 671, 672, 673, 674, 675, 676, 677, 678, 679, 680, 681, 682, 683, 684, 685, 686, 687, 688, 689, 690, 691, 692, 693, 694, 695, 696, 697, 698, 699, 700, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 716, 717, 718, 719, 720, 721, 722, 723, 724, 725, 726, 727, 728, 729, 730, 731, 732, 733, 734, 735, 736, 737, 738, 739, 740, 741, 742, 743, 744, 745, 746, 747, 748, 749, 750, 751, 752, 753, 754, 755, 756, 757, 758, 759, 760, 761, 762, 763, 764, 765, 766, 767, 768, 769, 770, 771, 772, 773, 774, 775, 776, 777, 778, 779, 780, 781, 782, 783, 784, 785, 786, 787, 788, 789, 790, 791, 792, 793, 794, 795, 796, 797, 798, 799, 800, 801, 802, 803, 804, 805, 806, 807, 808, 809, 810, 811, 812, 813, 814, 815, 816, 817, 818, 819, 820, 821, 822, 823, 824, 825, 826, 827, 828, 829, 830, 831, 832, 833, 834, 835, 836, 837, 838, 839, 840, 841, 842, 843, 844, 845, 846, 847, 848, 849, 850, 851, 852, 853, 854, 855, 856, 857, 858, 859, 860, 861, 862, 863, 864, 865, 866, 867, 868, 869, 870, 871, 872, 873, 874, 875, 876, 877, 878, 879, 880, 881, 882, 883, 884, 885, 886, 887, 888, 889, 890, 891, 892, 893, 894, 895, 896, 897, 898, 899, 900, 901, 902, 903, 904, 905, 906, 907, 908, 909, 910, 911, 912, 913, 914, 915, 916, 917, 918, 919, 920, 921, 922, 923, 924, 925, 926, 927, 928, 929, 930, 931, 932, 933, 934, 935, 936, 937, 938, 939, 940, 941, 942, 943, 944, 945, 946, 947, 948, 949, 950, 951, 952, 953, 954, 955, 956, 957, 958, 959, 960, 961, 962, 963, 964, 965, 966, 967, 968, 969, 970, 971, 972, 973, 974, 975, 976, 977, 978, 979, 980, 981, 982, 983, 984, 985, 986, 987, 988, 989, 990, 991, 992, 993, 994, 995, 996, 997, 998, 999, 1000, 1001, 1002, 1003, 1004, 1005, 1006, 1007, 1008, 1009, 1010, 1011, 1012, 1013, 1014, 1015, 1016, 1017, 1018, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1027, 1028, 1029, 1030, 1031, 1032, 1033, 1034, 1035, 1036, 1037, 1038, 1039, 1040, 1041, 1042, 1043, 1044, 1045, 1046, 1047, 1048, 1049, 1050, 1051, 1052, 1053, 1054, 1055, 1056, 1057, 1058, 1059, 1060, 1061, 1062, 1063, 1064, 1065, 1066, 1067, 1068, 1069, 1070, 1071, 1072, 1073, 1074, 1075, 1076, 1077, 1078, 1079, 1080, 1081, 1082, 1083, 1084, 1085, 1086, 1087, 1088, 1089, 1090, 1091, 1092, 1093, 1094, 1095, 1096, 1097, 1098, 1099, 1100, 1101, 1102, 1103, 1104, 1105, 1106, 1107, 1108, 1109, 1110, 1111, 1112, 1113, 1114, 1115, 1116, 1117, 1118, 1119, 1120, 1121, 1122, 1123, 1124, 1125, 1126, 1127, 1128, 1129, 1130, 1131, 1132, 1133, 1134, 1135, 1136, 1137, 1138, 1139, 1140, 1141, 1142, 1143, 1144, 1145, 1146, 1147, 1148, 1149, 1150, 1151, 1152, 1153, 1154, 1155, 1156, 1157, 1158, 1159, 1160, 1161, 1162, 1163, 1164, 1165, 1166, 1167, 1168, 1169, 1170, 1171, 1172, 1173, 1174, 1175, 1176, 1177, 1178, 1179, 1180, 1181, 1182, 1183, 1184, 1185, 1186, 1187, 1188, 1189, 1190, 1191, 1192, 1193, 1194, 1195, 1196, 1197, 1198, 1199, 1200, 1201, 1202, 1203, 1204, 1205, 1206, 1207, 1208, 1209, 1210, 1211, 1212, 1213, 1214, 1215, 1216, 1217, 1218, 1219, 1220, 1221, 1222, 1223, 1224, 1225, 1226, 1227, 1228, 1229, 1230, 1231, 1232, 1233, 1234, 1235, 1236, 1237, 1238, 1239, 1240, 1241, 1242, 1243, 1244, 1245, 1246, 1247, 1248, 1249, 1250, 1251, 1252, 1253, 1254, 1255, 1256, 1257, 1258, 1259, 1260, 1261, 1262, 1263, 1264, 1265, 1266, 1267, 1268, 1269, 1270, 1271, 1272, 1273, 1274, 1275, 1276, 1277, 1278, 1279, 1280, 1281, 1282, 1283, 1284, 1285, 1286, 1287, 1288, 1289, 1290, 1291, 1292, 1293, 1294, 1295, 1296, 1297, 1298, 1299, 1300, 1301, 1302, 1303, 1304, 1305, 1306, 1307, 1308, 1309, 1310, 1311, 1312, 1313, 1314, 1315, 1316, 1317, 1318, 1319, 1320, 1321, 1322, 1323, 1324, 1325, 1326, 1327, 1328, 1329, 1330, 1331, 1332, 1333, 1334, 1335, 1336, 1337, 1338, 1339, 1340, 1341, 1342, 1343, 1344, 1345, 1346, 1347, 1348, 1349, 1350, 1351, 1352, 1353, 1354, 1355, 1356, 1357, 1358, 1359, 1360, 1361, 1362, 1363, 1364, 1365, 1366, 1367, 1368, 1369, 1370, 1371, 1372, 1373, 1374, 1375, 1376, 1377, 1378, 1379, 1380, 1381, 1382, 1383, 1384, 1385, 1386, 1387, 1388, 1389, 1390, 1391, 1392, 1393, 1394, 1395, 1396, 1397, 1398, 1399, 1400, 1401, 1402, 1403, 1404, 1405, 1406, 1407, 1408, 1409, 1410, 1411, 1412, 1413, 1414, 1415, 1416, 1417, 1418, 1419, 1420, 1421, 1422, 1423, 1424, 1425, 1426, 1427, 1428, 1429, 1430, 1431, 1432, 1433, 1434, 1435, 1436, 1437, 1438, 1439, 1440, 1441, 1442, 1443, 1444, 1445, 1446, 1447, 1448, 1449, 1450, 1451, 1452, 1453, 1454, 1455, 1456, 1457, 1458, 1459, 1460, 1461, 1462, 1463, 1464, 1465, 1466, 1467, 1468, 1469, 1470, 1471, 1472, 1473, 1474, 1475, 1476, 1477, 1478, 1479, 1480, 1481, 1482, 1483, 1484, 1485, 1486, 1487, 1488, 1489, 1490, 1491, 1492, 1493, 1494, 1495, 1496, 1497, 1498, 1499, 1500, 1501, 1502, 1503, 1504, 1505, 1506, 1507, 1508, 1509, 1510, 1511, 1512, 1513, 1514, 1515, 1516, 1517, 1518, 1519, 1520, 1521, 1522, 1523, 1524, 1525, 1526, 1527, 1528, 1529, 1530, 1531, 1532, 1533, 1534, 1535, 1536, 1537, 1538, 1539, 1540, 1541, 1542, 1543, 1544, 1545, 1546, 1547, 1548, 1549, 1550, 1551, 1552, 1553, 1554, 1555, 1556, 1557, 1558, 1559, 1560, 1561, 1562, 1563, 1564, 1565, 1566, 1567, 1568, 1569, 1570, 1571, 1572, 1573, 1574, 1575, 1576, 1577, 1578, 1579, 1580, 1581, 1582, 1583, 1584, 1585, 1586, 1587, 1588, 1589, 1590, 1591, 1592, 1593, 1594, 1595, 1596, 1597, 1598, 1599, 1600, 1601, 1602, 1603, 1604, 1605, 1606, 1607, 1608, 1609, 1610, 1611, 1612, 1613, 1614, 1615, 1616, 1617, 1618, 1619, 1620, 1621, 1622, 1623, 1624, 1625, 1626, 1627, 1628, 1629, 1630, 1631, 1632, 1633, 1634, 1635, 1636, 1637, 1638, 1639, 1640, 1641, 1642, 1643, 1644, 1645, 1646, 1647, 1648, 1649, 1650, 1651, 1652, 1653, 1654, 1655, 1656, 1657, 1658, 1659, 1660, 1661, 1662, 1663, 1664, 1665, 1666, 1667, 1668, 1669, 1670, 1671, 1672, 1673, 1674, 1675, 1676, 1677, 1678, 1679, 1680, 1681, 1682, 1683, 1684, 1685, 1686, 1687, 1688, 1689, 1690, 1691, 1692, 1693, 1694, 1695, 1696, 1697, 1698, 1699, 1700, 1701, 1702, 1703, 1704, 1705, 1706, 1707, 1708, 1709, 1710, 1711, 1712, 1713, 1714, 1715, 1716, 1717, 1718, 1719, 1720, 1721, 1722, 1723, 1724, 1725, 1726, 1727, 1728, 1729, 1730, 1731, 1732, 1733, 1734, 1735, 1736, 1737, 1738, 1739, 1740, 1741, 1742, 1743, 1744, 1745, 1746, 1747, 1748, 1749, 1750, 1751, 1752, 1753, 1754, 1755, 1756, 1757, 1758, 1759, 1760, 1761, 1762, 1763, 1764, 1765, 1766, 1767, 1768, 1769, 1770, 1771, 1772, 1773, 1774, 1775, 1776, 1777, 1778, 1779, 1780, 1781, 1782, 1783, 1784, 1785, 1786, 1787, 1788, 1789, 1790, 1791, 1792, 1793, 1794, 1795, 1796, 1797, 1798, 1799, 1800, 1801, 1802, 1803, 1804, 1805, 1806, 1807, 1808, 1809, 1810, 1811, 1812, 1813, 1814, 1815, 1816, 1817, 1818, 1819, 1820, 1821, 1822, 1823, 1824, 1825, 1826, 1827, 1828, 1829, 1830, 1831, 1832, 1833, 1834, 1835, 1836, 1837, 1838, 1839, 1840, 1841, 1842, 1843, 1844, 1845, 1846, 1847, 1848, 1849, 1850, 1851, 1852, 1853, 1854, 1855, 1856, 1857, 1858, 1859, 1860, 1861, 1862, 1863, 1864, 1865, 1866, 1867, 1868, 1869, 1870, 1871, 1872, 1873, 1874, 1875, 1876};
idxint lp_25fv47_Gir[1876] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 261, 262, 263, 264, 265, 266, 267, 268, 269, 270, 271, 272, 273, 274, 275, 276, 277, 278, 279, 280, 281, 282, 283, 284, 285, 286, 287, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 365, 366, 367, 368, 369, 370, 371, 372, 373, 374, 375, 376, 377, 378, 379, 380, 381, 382, 383, 384, 385, 386, 387, 388, 389, 390, 391, 392, 393, 394, 395, 396, 397, 398, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 432, 433, 434, 435, 436, 437, 438, 439, 440, 441, 442, 443, 444, 445, 446, 447, 448, 449, 450, 451, 452, 453, 454, 455, 456, 457, 458, 459, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472, 473, 474, 475, 476, 477, 478, 479, 480, 481, 482, 483, 484, 485, 486, 487, 488, 489, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 506, 507, 508, 509, 510, 511, 512, 513, 514, 515, 516, 517, 518, 519, 520, 521, 522, 523, 524, 525, 526, 527, 528, 529, 530, 531, 532, 533, 534, 535, 536, 537, 538, 539, 540, 541, 542, 543, 544, 545, 546, 547, 548, 549, 550, 551, 552, 553, 554, 555, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614, 615, 616, 617, 618, 619, 620, 621, 622, 623, 624, 625, 626, 627, 628, 629, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 643, 644, 645, 646, 647, 648, 649, 650, 651, 652, 653, 654, 655, 656, 657, 658, 659, 660, 661, 662, 663, 664, 665, 666, 667, 668, 669, 670, 671, 672, 673, 674, 675, 676, 677, 678, 679, 680, 681, 682, 683, 684, 685, 686, 687, 688, 689, 690, 691, 692, 693, 694, 695, 696, 697, 698, 699, 700, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 716, 717, 718, 719, 720, 721, 722, 723, 724, 725, 726, 727, 728, 729, 730, 731, 732, 733, 734, 735, 736, 737, 738, 739, 740, 741, 742, 743, 744, 745, 746, 747, 748, 749, 750, 751, 752, 753, 754, 755, 756, 757, 758, 759, 760, 761, 762, 763, 764, 765, 766, 767, 768, 769, 770, 771, 772, 773, 774, 775, 776, 777, 778, 779, 780, 781, 782, 783, 784, 785, 786, 787, 788, 789, 790, 791, 792, 793, 794, 795, 796, 797, 798, 799, 800, 801, 802, 803, 804, 805, 806, 807, 808, 809, 810, 811, 812, 813, 814, 815, 816, 817, 818, 819, 820, 821, 822, 823, 824, 825, 826, 827, 828, 829, 830, 831, 832, 833, 834, 835, 836, 837, 838, 839, 840, 841, 842, 843, 844, 845, 846, 847, 848, 849, 850, 851, 852, 853, 854, 855, 856, 857, 858, 859, 860, 861, 862, 863, 864, 865, 866, 867, 868, 869, 870, 871, 872, 873, 874, 875, 876, 877, 878, 879, 880, 881, 882, 883, 884, 885, 886, 887, 888, 889, 890, 891, 892, 893, 894, 895, 896, 897, 898, 899, 900, 901, 902, 903, 904, 905, 906, 907, 908, 909, 910, 911, 912, 913, 914, 915, 916, 917, 918, 919, 920, 921, 922, 923, 924, 925, 926, 927, 928, 929, 930, 931, 932, 933, 934, 935, 936, 937, 938, 939, 940, 941, 942, 943, 944, 945, 946, 947, 948, 949, 950, 951, 952, 953, 954, 955, 956, 957, 958, 959, 960, 961, 962, 963, 964, 965, 966, 967, 968, 969, 970, 971, 972, 973, 974, 975, 976, 977, 978, 979, 980, 981, 982, 983, 984, 985, 986, 987, 988, 989, 990, 991, 992, 993, 994, 995, 996, 997, 998, 999, 1000, 1001, 1002, 1003, 1004, 1005, 1006, 1007, 1008, 1009, 1010, 1011, 1012, 1013, 1014, 1015, 1016, 1017, 1018, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1027, 1028, 1029, 1030, 1031, 1032, 1033, 1034, 1035, 1036, 1037, 1038, 1039, 1040, 1041, 1042, 1043, 1044, 1045, 1046, 1047, 1048, 1049, 1050, 1051, 1052, 1053, 1054, 1055, 1056, 1057, 1058, 1059, 1060, 1061, 1062, 1063, 1064, 1065, 1066, 1067, 1068, 1069, 1070, 1071, 1072, 1073, 1074, 1075, 1076, 1077, 1078, 1079, 1080, 1081, 1082, 1083, 1084, 1085, 1086, 1087, 1088, 1089, 1090, 1091, 1092, 1093, 1094, 1095, 1096, 1097, 1098, 1099, 1100, 1101, 1102, 1103, 1104, 1105, 1106, 1107, 1108, 1109, 1110, 1111, 1112, 1113, 1114, 1115, 1116, 1117, 1118, 1119, 1120, 1121, 1122, 1123, 1124, 1125, 1126, 1127, 1128, 1129, 1130, 1131, 1132, 1133, 1134, 1135, 1136, 1137, 1138, 1139, 1140, 1141, 1142, 1143, 1144, 1145, 1146, 1147, 1148, 1149, 1150, 1151, 1152, 1153, 1154, 1155, 1156, 1157, 1158, 1159, 1160, 1161, 1162, 1163, 1164, 1165, 1166, 1167, 1168, 1169, 1170, 1171, 1172, 1173, 1174, 1175, 1176, 1177, 1178, 1179, 1180, 1181, 1182, 1183, 1184, 1185, 1186, 1187, 1188, 1189, 1190, 1191, 1192, 1193, 1194, 1195, 1196, 1197, 1198, 1199, 1200, 1201, 1202, 1203, 1204, 1205, 1206, 1207, 1208, 1209, 1210, 1211, 1212, 1213, 1214, 1215, 1216, 1217, 1218, 1219, 1220, 1221, 1222, 1223, 1224, 1225, 1226, 1227, 1228, 1229, 1230, 1231, 1232, 1233, 1234, 1235, 1236, 1237, 1238, 1239, 1240, 1241, 1242, 1243, 1244, 1245, 1246, 1247, 1248, 1249, 1250, 1251, 1252, 1253, 1254, 1255, 1256, 1257, 1258, 1259, 1260, 1261, 1262, 1263, 1264, 1265, 1266, 1267, 1268, 1269, 1270, 1271, 1272, 1273, 1274, 1275, 1276, 1277, 1278, 1279, 1280, 1281, 1282, 1283, 1284, 1285, 1286, 1287, 1288, 1289, 1290, 1291, 1292, 1293, 1294, 1295, 1296, 1297, 1298, 1299, 1300, 1301, 1302, 1303, 1304, 1305, 1306, 1307, 1308, 1309, 1310, 1311, 1312, 1313, 1314, 1315, 1316, 1317, 1318, 1319, 1320, 1321, 1322, 1323, 1324, 1325, 1326, 1327, 1328, 1329, 1330, 1331, 1332, 1333, 1334, 1335, 1336, 1337, 1338, 1339, 1340, 1341, 1342, 1343, 1344, 1345, 1346, 1347, 1348, 1349, 1350, 1351, 1352, 1353, 1354, 1355, 1356, 1357, 1358, 1359, 1360, 1361, 1362, 1363, 1364, 1365, 1366, 1367, 1368, 1369, 1370, 1371, 1372, 1373, 1374, 1375, 1376, 1377, 1378, 1379, 1380, 1381, 1382, 1383, 1384, 1385, 1386, 1387, 1388, 1389, 1390, 1391, 1392, 1393, 1394, 1395, 1396, 1397, 1398, 1399, 1400, 1401, 1402, 1403, 1404, 1405, 1406, 1407, 1408, 1409, 1410, 1411, 1412, 1413, 1414, 1415, 1416, 1417, 1418, 1419, 1420, 1421, 1422, 1423, 1424, 1425, 1426, 1427, 1428, 1429, 1430, 1431, 1432, 1433, 1434, 1435, 1436, 1437, 1438, 1439, 1440, 1441, 1442, 1443, 1444, 1445, 1446, 1447, 1448, 1449, 1450, 1451, 1452, 1453, 1454, 1455, 1456, 1457, 1458, 1459, 1460, 1461, 1462, 1463, 1464, 1465, 1466, 1467, 1468, 1469, 1470, 1471, 1472, 1473, 1474, 1475, 1476, 1477, 1478, 1479, 1480, 1481, 1482, 1483, 1484, 1485, 1486, 1487, 1488, 1489, 1490, 1491, 1492, 1493, 1494, 1495, 1496, 1497, 1498, 1499, 1500, 1501, 1502, 1503, 1504, 1505, 1506, 1507, 1508, 1509, 1510, 1511, 1512, 1513, 1514, 1515, 1516, 1517, 1518, 1519, 1520, 1521, 1522, 1523, 1524, 1525, 1526, 1527, 1528, 1529, 1530, 1531, 1532, 1533, 1534, 1535, 1536, 1537, 1538, 1539, 1540, 1541, 1542, 1543, 1544, 1545, 1546, 1547, 1548, 1549, 1550, 1551, 1552, 1553, 1554, 1555, 1556, 1557, 1558, 1559, 1560, 1561, 1562, 1563, 1564, 1565, 1566, 1567, 1568, 1569, 1570, 1571, 1572, 1573, 1574, 1575, 1576, 1577, 1578, 1579, 1580, 1581, 1582, 1583, 1584, 1585, 1586, 1587, 1588, 1589, 1590, 1591, 1592, 1593, 1594, 1595, 1596, 1597, 1598, 1599, 1600, 1601, 1602, 1603, 1604, 1605, 1606, 1607, 1608, 1609, 1610, 1611, 1612, 1613, 1614, 1615, 1616, 1617, 1618, 1619, 1620, 1621, 1622, 1623, 1624, 1625, 1626, 1627, 1628, 1629, 1630, 1631, 1632, 1633, 1634, 1635, 1636, 1637, 1638, 1639, 1640, 1641, 1642, 1643, 1644, 1645, 1646, 1647, 1648, 1649, 1650, 1651, 1652, 1653, 1654, 1655, 1656, 1657, 1658, 1659, 1660, 1661, 1662, 1663, 1664, 1665, 1666, 1667, 1668, 1669, 1670, 1671, 1672, 1673, 1674, 1675, 1676, 1677, 1678, 1679, 1680, 1681, 1682, 1683, 1684, 1685, 1686, 1687, 1688, 1689, 1690, 1691, 1692, 1693, 1694, 1695, 1696, 1697, 1698, 1699, 1700, 1701, 1702, 1703, 1704, 1705, 1706, 1707, 1708, 1709, 1710, 1711, 1712, 1713, 1714, 1715, 1716, 1717, 1718, 1719, 1720, 1721, 1722, 1723, 1724, 1725, 1726, 1727, 1728, 1729, 1730, 1731, 1732, 1733, 1734, 1735, 1736, 1737, 1738, 1739, 1740, 1741, 1742, 1743, 1744, 1745, 1746, 1747, 1748, 1749, 1750, 1751, 1752, 1753, 1754, 1755, 1756, 1757, 1758, 1759, 1760, 1761, 1762, 1763, 1764, 1765, 1766, 1767, 1768, 1769, 1770, 1771, 1772, 1773, 1774, 1775, 1776, 1777, 1778, 1779, 1780, 1781, 1782, 1783, 1784, 1785, 1786, 1787, 1788, 1789, 1790, 1791, 1792, 1793, 1794, 1795, 1796, 1797, 1798, 1799, 1800, 1801, 1802, 1803, 1804, 1805, 1806, 1807, 1808, 1809, 1810, 1811, 1812, 1813, 1814, 1815, 1816, 1817, 1818, 1819, 1820, 1821, 1822, 1823, 1824, 1825, 1826, 1827, 1828, 1829, 1830, 1831, 1832, 1833, 1834, 1835, 1836, 1837, 1838, 1839, 1840, 1841, 1842, 1843, 1844, 1845, 1846, 1847, 1848, 1849, 1850, 1851, 1852, 1853, 1854, 1855, 1856, 1857, 1858, 1859, 1860, 1861, 1862, 1863, 1864, 1865, 1866, 1867, 1868, 1869, 1870, 1871, 1872, 1873, 1874, 1875};
pfloat lp_25fv47_Gpr[1876] = {-1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999996669e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000222e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -9.999999999999997780e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000222e+00, -9.999999999999998890e-01, -1.000000000000000222e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000222e+00, -1.000000000000000222e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000222e+00, -9.999999999999998890e-01, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999996669e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999996669e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000444e+00, -9.999999999999998890e-01, -1.000000000000000444e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999996669e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000222e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -9.999999999999997780e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999996669e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999997780e-01, -1.000000000000000000e+00, -9.999999999999996669e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000222e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000222e+00, -9.999999999999998890e-01, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000222e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000222e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000222e+00, -1.000000000000000222e+00, -9.999999999999997780e-01, -1.000000000000000222e+00, -1.000000000000000222e+00, -9.999999999999996669e-01, -9.999999999999998890e-01, -9.999999999999997780e-01, -9.999999999999997780e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999996669e-01, -1.000000000000000000e+00, -9.999999999999996669e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000222e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999996669e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999996669e-01, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999997780e-01, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999996669e-01, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000444e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -9.999999999999995559e-01, -1.000000000000000000e+00, -9.999999999999995559e-01, -1.000000000000000444e+00, -9.999999999999998890e-01, -9.999999999999996669e-01, -1.000000000000000000e+00, -9.999999999999997780e-01, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000222e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000222e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000444e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -9.999999999999996669e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999997780e-01, -9.999999999999996669e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000222e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -9.999999999999996669e-01, -1.000000000000000000e+00, -1.000000000000000222e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -9.999999999999997780e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000444e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999997780e-01, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999997780e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999997780e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999996669e-01, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999997780e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -9.999999999999997780e-01, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000444e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000222e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000222e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999996669e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000222e+00, -1.000000000000000222e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999996669e-01, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000222e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -9.999999999999997780e-01, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000444e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000222e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000222e+00, -9.999999999999998890e-01, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999997780e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000222e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999997780e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000222e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000222e+00, -9.999999999999998890e-01, -1.000000000000000222e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000222e+00};
pfloat lp_25fv47_h[1876] = {0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0};
idxint *lp_25fv47_q = NULL;
idxint lp_25fv47_Ajc[1877] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 261, 262, 263, 264, 265, 266, 267, 268, 269, 270, 271, 272, 273, 274, 275, 276, 277, 278, 279, 280, 281, 282, 283, 284, 285, 286, 287, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 323, 325, 327, 329, 331, 333, 335, 337, 339, 341, 343, 345, 347, 349, 351, 353, 355, 361, 367, 374, 376, 378, 380, 382, 384, 386, 388, 390, 392, 394, 396, 398, 400, 402, 404, 406, 409, 412, 415, 417, 419, 420, 423, 424, 427, 430, 433, 436, 437, 439, 443, 446, 449, 452, 455, 456, 468, 480, 492, 503, 515, 517, 519, 526, 533, 540, 552, 564, 576, 588, 600, 612, 624, 636, 649, 662, 675, 688, 701, 714, 733, 746, 759, 778, 791, 804, 817, 830, 843, 856, 875, 888, 901, 920, 927, 933, 942, 948, 955, 962, 968, 977, 979, 983, 991, 998, 1007, 1013, 1019, 1027, 1034, 1043, 1049, 1055, 1063, 1069, 1078, 1084, 1090, 1095, 1103, 1110, 1119, 1125, 1131, 1136, 1144, 1151, 1160, 1166, 1172, 1179, 1185, 1191, 1198, 1204, 1211, 1218, 1224, 1230, 1236, 1242, 1249, 1256, 1263, 1270, 1275, 1282, 1291, 1297, 1303, 1313, 1322, 1326, 1328, 1333, 1335, 1348, 1354, 1363, 1369, 1378, 1384, 1393, 1399, 1408, 1414, 1423, 1429, 1438, 1444, 1453, 1460, 1467, 1474, 1482, 1489, 1497, 1506, 1514, 1522, 1528, 1534, 1542, 1544, 1546, 1548, 1551, 1554, 1562, 1568, 1571, 1575, 1581, 1587, 1590, 1593, 1595, 1597, 1599, 1605, 1618, 1630, 1632, 1634, 1641, 1647, 1653, 1659, 1668, 1674, 1683, 1695, 1701, 1707, 1709, 1713, 1718, 1720, 1739, 1758, 1774, 1789, 1802, 1817, 1832, 1847, 1860, 1874, 1890, 1904, 1918, 1920, 1936, 1949, 1964, 1965, 1966, 1968, 1970, 1974, 1975, 1979, 1981, 1989, 1991, 1996, 2004, 2007, 2011, 2016, 2023, 2025, 2027, 2030, 2036, 2040, 2044, 2048, 2053, 2060, 2067, 2075, 2083, 2085, 2087, 2089, 2091, 2093, 2101, 2109, 2117, 2125, 2133, 2141, 2146, 2158, 2171, 2180, 2190, 2202, 2215, 2224, 2234, 2247, 2252, 2260, 2270, 2274, 2282, 2295, 2300, 2310, 2316, 2325, 2334, 2344, 2352, 2360, 2367, 2372, 2377, 2385, 2393, 2402, 2409, 2416, 2422, 2427, 2433, 2441, 2449, 2458, 2465, 2472, 2478, 2486, 2494, 2502, 2510, 2519, 2528, 2536, 2544, 2553, 2561, 2568, 2575, 2582, 2590, 2598, 2607, 2615, 2623, 2630, 2637, 2643, 2651, 2659, 2666, 2673, 2680, 2687, 2702, 2717, 2724, 2731, 2736, 2743, 2750, 2756, 2762, 2768, 2775, 2782, 2789, 2796, 2803, 2810, 2817, 2824, 2830, 2836, 2842, 2849, 2863, 2877, 2891, 2905, 2913, 2921, 2930, 2939, 2948, 2960, 2969, 2976, 2983, 2989, 3004, 3018, 3025, 3040, 3055, 3069, 3084, 3099, 3106, 3113, 3127, 3134, 3141, 3156, 3170, 3179, 3186, 3192, 3195, 3198, 3200, 3202, 3204, 3210, 3216, 3220, 3226, 3232, 3238, 3244, 3251, 3255, 3262, 3268, 3274, 3280, 3286, 3290, 3293, 3301, 3309, 3314, 3322, 3330, 3332, 3340, 3348, 3354, 3360, 3366, 3372, 3378, 3384, 3386, 3388, 3391, 3395, 3399, 3402, 3405, 3407, 3409, 3414, 3416, 3421, 3428, 3435, 3442, 3449, 3452, 3455, 3457, 3459, 3461, 3470, 3481, 3491, 3495, 3496, 3512, 3528, 3544, 3547, 3549, 3551, 3553, 3555, 3561, 3567, 3574, 3581, 3583, 3585, 3596, 3607, 3617, 3628, 3639, 3650, 3661, 3672, 3683, 3694, 3705, 3716, 3718, 3720, 3732, 3744, 3756, 3767, 3779, 3791, 3803, 3815, 3827, 3839, 3851, 3863, 3865, 3871, 3878, 3885, 3891, 3898, 3905, 3911, 3918, 3925, 3931, 3938, 3945, 3951, 3958, 3965, 3970, 3977, 3984, 3991, 3998, 4005, 4012, 4015, 4018, 4021, 4024, 4031, 4033, 4035, 4037, 4039, 4043, 4047, 4049, 4052, 4058, 4064, 4068, 4074, 4078, 4094, 4096, 4113, 4132, 4146, 4162, 4164, 4166, 4180, 4196, 4211, 4230, 4246, 4262, 4276, 4279, 4298, 4300, 4308, 4316, 4323, 4325, 4332, 4334, 4343, 4352, 4359, 4362, 4370, 4372, 4374, 4381, 4388, 4394, 4400, 4407, 4409, 4416, 4423, 4430, 4438, 4446, 4453, 4461, 4468, 4474, 4480, 4486, 4493, 4495, 4497, 4499, 4506, 4510, 4514, 4519, 4526, 4530, 4535, 4547, 4561, 4575, 4588, 4602, 4616, 4630, 4644, 4653, 4661, 4678, 4695, 4703, 4720, 4737, 4749, 4759, 4770, 4780, 4790, 4801, 4811, 4823, 4830, 4837, 4842, 4846, 4854, 4862, 4870, 4878, 4886, 4894, 4902, 4910, 4918, 4927, 4936, 4944, 4957, 4965, 4971, 4977, 4983, 4991, 4999, 5007, 5015, 5023, 5031, 5037, 5043, 5050, 5057, 5063, 5070, 5077, 5084, 5091, 5101, 5108, 5118, 5125, 5132, 5139, 5146, 5152, 5158, 5164, 5170, 5176, 5184, 5192, 5199, 5206, 5214, 5222, 5229, 5236, 5247, 5258, 5269, 5276, 5283, 5289, 5295, 5297, 5299, 5301, 5303, 5306, 5308, 5310, 5312, 5314, 5318, 5322, 5324, 5326, 5328, 5330, 5346, 5360, 5376, 5378, 5380, 5382, 5386, 5390, 5394, 5398, 5409, 5414, 5419, 5424, 5431, 5438, 5445, 5452, 5459, 5464, 5468, 5476, 5484, 5491, 5497, 5504, 5508, 5514, 5526, 5537, 5545, 5555, 5562, 5568, 5575, 5581, 5588, 5594, 5601, 5607, 5614, 5620, 5628, 5632, 5638, 5645, 5651, 5658, 5664, 5671, 5677, 5685, 5692, 5698, 5705, 5712, 5718, 5726, 5733, 5739, 5746, 5750, 5756, 5763, 5769, 5776, 5782, 5789, 5795, 5800, 5812, 5819, 5825, 5830, 5842, 5849, 5855, 5860, 5872, 5879, 5885, 5890, 5902, 5906, 5912, 5919, 5925, 5932, 5938, 5949, 5959, 5970, 5980, 5987, 5993, 6013, 6033, 6053, 6073, 6093, 6113, 6133, 6136, 6140, 6145, 6149, 6152, 6158, 6173, 6189, 6205, 6221, 6239, 6255, 6270, 6286, 6304, 6322, 6340, 6342, 6344, 6346, 6347, 6349, 6351, 6353, 6354, 6356, 6362, 6368, 6372, 6374, 6380, 6386, 6389, 6393, 6397, 6403, 6406, 6409, 6417, 6424, 6431, 6438, 6442, 6451, 6459, 6467, 6475, 6480, 6485, 6489, 6494, 6502, 6511, 6519, 6527, 6535, 6542, 6550, 6557, 6564, 6571, 6573, 6580, 6582, 6584, 6591, 6593, 6595, 6602, 6609, 6616, 6623, 6625, 6632, 6639, 6646, 6653, 6660, 6667, 6674, 6681, 6688, 6695, 6703, 6711, 6718, 6725, 6732, 6739, 6741, 6748, 6755, 6762, 6769, 6776, 6783, 6790, 6797, 6803, 6810, 6817, 6823, 6830, 6837, 6843, 6850, 6857, 6863, 6870, 6876, 6883, 6890, 6896, 6903, 6910, 6915, 6922, 6929, 6936, 6943, 6950, 6957, 6964, 6971, 6981, 6992, 7002, 7012, 7022, 7033, 7043, 7053, 7063, 7074, 7084, 7095, 7102, 7109, 7116, 7123, 7130, 7137, 7144, 7151, 7158, 7165, 7172, 7179, 7186, 7193, 7200, 7207, 7209, 7215, 7221, 7228, 7235, 7241, 7247, 7254, 7261, 7268, 7275, 7282, 7289, 7296, 7303, 7310, 7317, 7319, 7326, 7333, 7335, 7337, 7343, 7349, 7355, 7361, 7367, 7371, 7374, 7377, 7383, 7389, 7393, 7397, 7403, 7408, 7414, 7416, 7418, 7421, 7427, 7432, 7445, 7458, 7471, 7483, 7496, 7509, 7521, 7534, 7547, 7549, 7551, 7557, 7563, 7565, 7572, 7579, 7586, 7593, 7596, 7600, 7604, 7610, 7617, 7623, 7626, 7629, 7632, 7635, 7637, 7647, 7657, 7663, 7669, 7678, 7688, 7697, 7703, 7709, 7720, 7731, 7733, 7735, 7743, 7752, 7759, 7766, 7773, 7779, 7785, 7795, 7806, 7816, 7820, 7824, 7830, 7832, 7845, 7859, 7873, 7885, 7897, 7909, 7921, 7933, 7941, 7950, 7957, 7959, 7966, 7973, 7981, 7991, 8000, 8007, 8009, 8016, 8023, 8031, 8040, 8047, 8054, 8061, 8069, 8078, 8085, 8092, 8099, 8107, 8116, 8123, 8125, 8132, 8139, 8147, 8156, 8163, 8170, 8177, 8185, 8194, 8201, 8208, 8215, 8222, 8229, 8236, 8243, 8250, 8256, 8263, 8270, 8277, 8284, 8291, 8298, 8305, 8312, 8319, 8326, 8333, 8340, 8347, 8354, 8361, 8365, 8367, 8369, 8371, 8375, 8382, 8387, 8390, 8393, 8399, 8401, 8405, 8411, 8413, 8415, 8418, 8421, 8426, 8432, 8435, 8440, 8443, 8450, 8455, 8460, 8461, 8462, 8468, 8474, 8477, 8482, 8486, 8489, 8494, 8498, 8501, 8504, 8507, 8510, 8513, 8516, 8520, 8524, 8528, 8533, 8536, 8540, 8543, 8547, 8551, 8555, 8560, 8563, 8567, 8574, 8579, 8585, 8592, 8595, 8598, 8605, 8611, 8620, 8628, 8635, 8644, 8650, 8657, 8661, 8664, 8669, 8674, 8677, 8680, 8684, 8688, 8692, 8696, 8700, 8706, 8710, 8715, 8720, 8725, 8730, 8733, 8738, 8741, 8745, 8749, 8753, 8757, 8762, 8765, 8770, 8773, 8776, 8781, 8786, 8789, 8794, 8797, 8800, 8805, 8810, 8815, 8819, 8823, 8827, 8830, 8834, 8837, 8840, 8843, 8847, 8851, 8855, 8860, 8863, 8867, 8871, 8875, 8879, 8883, 8887, 8892, 8896, 8900, 8906, 8911, 8914, 8919, 8924, 8929, 8933, 8937, 8942, 8945, 8950, 8954, 8958, 8962, 8972, 8977, 8983, 8988, 8994, 8998, 9002, 9011, 9014, 9020, 9027, 9030, 9034, 9037, 9041, 9048, 9054, 9058, 9063, 9067, 9071, 9075, 9078, 9088, 9098, 9107, 9116, 9127, 9139, 9142, 9151, 9158, 9166, 9172, 9182, 9191, 9201, 9208, 9211, 9215, 9222, 9225, 9228, 9231, 9235, 9239, 9243, 9247, 9252, 9257, 9260, 9263, 9267, 9271, 9275, 9279, 9282, 9287, 9295, 9298, 9301, 9304, 9308, 9312, 9316, 9319, 9323, 9327, 9331, 9337, 9342, 9347, 9350, 9356, 9358, 9365, 9367, 9373, 9385, 9388, 9392, 9395, 9398, 9401, 9405, 9409, 9412, 9415, 9419, 9423, 9427, 9430, 9433, 9436, 9440, 9444, 9448, 9452, 9456, 9461, 9466, 9471, 9474, 9477, 9481, 9485, 9489, 9492, 9496, 9500, 9503, 9507, 9510, 9518, 9521, 9529, 9533, 9540, 9547, 9550, 9554, 9558, 9562, 9565, 9572, 9579, 9582, 9588, 9599, 9604, 9610, 9622, 9628, 9632, 9638, 9643, 9647, 9650, 9653, 9658, 9661, 9665, 9669, 9672, 9675, 9679, 9683, 9687, 9692, 9697, 9701, 9706, 9714, 9721, 9727, 9730, 9734, 9740, 9745, 9747, 9750, 9754, 9758, 9762, 9767, 9771, 9776, 9780, 9784, 9788, 9791, 9797, 9802, 9805, 9812, 9818, 9827, 9836, 9842, 9854, 9860, 9867, 9874, 9881, 9888, 9894, 9900, 9905, 9910, 9917, 9924, 9927, 9932, 9942, 9953, 9964, 9974, 9981, 9985, 9989, 9998, 10006, 10015, 10023, 10026, 10037, 10040, 10051, 10054, 10065, 10068, 10078, 10088, 10097, 10107, 10117, 10126, 10137, 10146, 10155, 10162, 10173, 10182, 10192, 10195, 10198, 10201, 10210, 10219, 10226, 10234, 10240, 10246, 10254, 10263, 10271, 10280, 10289, 10298, 10307, 10316, 10318, 10320, 10322, 10324, 10326, 10328, 10330, 10349, 10368, 10385, 10404, 10422, 10428, 10434, 10440, 10447, 10454, 10460, 10467, 10474, 10481, 10488, 10495, 10502, 10522, 10528, 10532, 10536, 10538, 10540, 10548, 10556, 10564, 10566, 10568, 10570, 10576, 10582, 10592, 10594, 10597, 10600, 10616, 10634, 10652, 10673, 10675, 10681, 10687, 10693, 10695, 10697, 10705};
idxint lp_25fv47_Air[10705] = {24, 70, 89, 90, 91, 92, 93, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 138, 211, 228, 229, 230, 231, 232, 233, 234, 235, 237, 238, 239, 241, 242, 243, 244, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 261, 262, 263, 264, 265, 266, 267, 268, 269, 270, 271, 272, 273, 274, 275, 276, 277, 278, 279, 280, 281, 282, 294, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 362, 363, 458, 459, 460, 461, 462, 463, 464, 465, 466, 467, 468, 470, 471, 472, 473, 475, 476, 477, 478, 480, 481, 482, 483, 484, 485, 486, 487, 488, 489, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 505, 506, 507, 508, 509, 510, 511, 512, 513, 514, 516, 517, 518, 521, 522, 523, 524, 525, 532, 537, 581, 584, 594, 610, 611, 612, 613, 614, 615, 616, 618, 619, 620, 622, 623, 624, 625, 626, 627, 628, 629, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 643, 644, 645, 646, 647, 648, 649, 650, 651, 652, 653, 654, 655, 691, 696, 708, 709, 710, 711, 712, 714, 715, 717, 718, 719, 720, 721, 722, 723, 724, 725, 726, 727, 728, 729, 730, 731, 732, 733, 734, 735, 736, 737, 738, 739, 740, 741, 750, 751, 756, 757, 758, 759, 760, 761, 762, 763, 779, 780, 781, 782, 783, 784, 785, 786, 800, 810, 812, 813, 814, 816, 817, 818, 819, 820, 25, 25, 26, 26, 27, 27, 28, 28, 29, 29, 30, 30, 23, 23, 24, 815, 34, 810, 371, 810, 662, 810, 32, 811, 139, 811, 292, 811, 366, 811, 528, 811, 658, 811, 35, 812, 142, 812, 293, 812, 530, 812, 661, 812, 144, 813, 369, 813, 533, 813, 140, 199, 205, 212, 222, 814, 367, 436, 439, 444, 453, 814, 526, 592, 593, 594, 598, 607, 814, 36, 815, 141, 815, 291, 815, 364, 815, 527, 815, 656, 815, 143, 816, 372, 816, 531, 816, 145, 817, 370, 817, 529, 817, 534, 818, 663, 818, 33, 819, 660, 819, 37, 796, 815, 365, 796, 815, 657, 796, 815, 146, 820, 368, 820, 375, 23, 25, 423, 72, 23, 25, 430, 23, 25, 432, 23, 27, 438, 23, 28, 439, 77, 23, 778, 23, 29, 441, 485, 23, 29, 445, 23, 30, 449, 23, 30, 452, 23, 30, 225, 31, 34, 41, 43, 44, 45, 46, 48, 53, 68, 69, 89, 90, 32, 40, 41, 42, 45, 46, 48, 50, 68, 69, 89, 90, 36, 41, 43, 44, 45, 47, 49, 51, 68, 69, 89, 109, 33, 41, 43, 44, 45, 46, 48, 52, 68, 69, 89, 35, 38, 40, 41, 42, 45, 46, 48, 68, 69, 89, 90, 99, 100, 104, 105, 68, 72, 99, 100, 101, 102, 103, 68, 73, 104, 105, 106, 107, 108, 41, 73, 104, 105, 106, 107, 108, 41, 45, 54, 68, 69, 72, 91, 99, 100, 101, 102, 103, 41, 45, 54, 68, 69, 73, 91, 104, 105, 106, 107, 108, 41, 45, 55, 68, 69, 72, 91, 99, 100, 101, 102, 103, 41, 45, 55, 68, 69, 73, 91, 104, 105, 106, 107, 108, 41, 45, 54, 68, 69, 72, 91, 99, 100, 101, 102, 103, 41, 45, 54, 68, 69, 73, 91, 104, 105, 106, 107, 108, 41, 45, 55, 68, 69, 72, 91, 99, 100, 101, 102, 103, 41, 45, 55, 68, 69, 73, 91, 104, 105, 106, 107, 108, 41, 42, 45, 54, 68, 69, 72, 91, 99, 100, 101, 102, 103, 41, 42, 45, 54, 68, 69, 73, 91, 104, 105, 106, 107, 108, 41, 42, 45, 55, 68, 69, 72, 91, 99, 100, 101, 102, 103, 41, 42, 45, 55, 68, 69, 73, 91, 104, 105, 106, 107, 108, 41, 43, 45, 54, 68, 69, 72, 91, 99, 100, 101, 102, 103, 41, 43, 45, 54, 68, 69, 73, 91, 104, 105, 106, 107, 108, 41, 43, 45, 54, 68, 69, 72, 73, 91, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 41, 42, 45, 55, 68, 69, 72, 91, 99, 100, 101, 102, 103, 41, 42, 45, 55, 68, 69, 73, 91, 104, 105, 106, 107, 108, 41, 42, 45, 55, 68, 69, 72, 73, 91, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 41, 43, 45, 54, 68, 69, 72, 91, 99, 100, 101, 102, 103, 41, 43, 45, 54, 68, 69, 73, 91, 104, 105, 106, 107, 108, 41, 43, 45, 55, 68, 69, 72, 91, 99, 100, 101, 102, 103, 41, 43, 45, 55, 68, 69, 73, 91, 104, 105, 106, 107, 108, 41, 42, 45, 54, 68, 69, 72, 91, 99, 100, 101, 102, 103, 41, 42, 45, 54, 68, 69, 73, 91, 104, 105, 106, 107, 108, 41, 42, 45, 54, 68, 69, 72, 73, 91, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 41, 43, 45, 55, 68, 69, 72, 91, 99, 100, 101, 102, 103, 41, 43, 45, 55, 68, 69, 73, 91, 104, 105, 106, 107, 108, 41, 43, 45, 55, 68, 69, 72, 73, 91, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 42, 75, 110, 112, 114, 115, 117, 42, 77, 111, 113, 116, 118, 42, 79, 121, 122, 123, 124, 125, 126, 127, 41, 43, 44, 45, 74, 109, 41, 43, 44, 45, 74, 89, 109, 43, 75, 110, 112, 114, 115, 117, 43, 77, 111, 113, 116, 118, 43, 79, 121, 122, 123, 124, 125, 126, 127, 44, 45, 44, 45, 47, 76, 45, 69, 77, 95, 111, 113, 116, 118, 45, 75, 110, 112, 114, 115, 117, 45, 79, 121, 122, 123, 124, 125, 126, 127, 45, 82, 128, 129, 130, 131, 45, 84, 132, 133, 134, 135, 46, 69, 77, 95, 111, 113, 116, 118, 46, 75, 110, 112, 114, 115, 117, 46, 79, 121, 122, 123, 124, 125, 126, 127, 46, 82, 128, 129, 130, 131, 46, 84, 132, 133, 134, 135, 47, 69, 77, 95, 111, 113, 116, 118, 47, 75, 112, 114, 115, 117, 47, 79, 121, 122, 123, 124, 125, 126, 127, 47, 82, 128, 129, 130, 131, 47, 84, 132, 133, 134, 135, 48, 57, 63, 65, 68, 48, 69, 77, 95, 111, 113, 116, 118, 48, 75, 110, 112, 114, 115, 117, 48, 79, 121, 122, 123, 124, 125, 126, 127, 48, 82, 128, 129, 130, 131, 48, 84, 132, 133, 134, 135, 49, 57, 63, 65, 68, 49, 69, 77, 95, 111, 113, 116, 118, 49, 75, 110, 112, 114, 115, 117, 49, 79, 121, 122, 123, 124, 125, 126, 127, 49, 82, 128, 129, 130, 131, 49, 84, 132, 133, 134, 135, 50, 56, 57, 58, 65, 69, 92, 50, 82, 128, 129, 130, 131, 50, 84, 132, 133, 134, 135, 51, 56, 57, 59, 65, 69, 92, 51, 84, 132, 133, 134, 135, 52, 56, 57, 60, 65, 69, 92, 53, 56, 57, 61, 65, 69, 92, 52, 82, 128, 129, 130, 131, 53, 82, 128, 129, 130, 131, 52, 84, 132, 133, 134, 135, 53, 84, 132, 133, 134, 135, 54, 72, 99, 100, 101, 102, 103, 54, 73, 104, 105, 106, 107, 108, 55, 72, 99, 100, 101, 102, 103, 55, 73, 104, 105, 106, 107, 108, 56, 57, 63, 65, 68, 56, 75, 110, 112, 114, 115, 117, 56, 79, 121, 122, 123, 124, 125, 126, 127, 56, 82, 128, 129, 130, 131, 56, 84, 132, 133, 134, 135, 57, 62, 63, 64, 65, 66, 67, 68, 93, 94, 57, 62, 63, 64, 65, 66, 67, 68, 93, 62, 66, 68, 93, 65, 66, 62, 63, 67, 68, 93, 65, 67, 51, 56, 57, 59, 65, 68, 69, 84, 88, 132, 133, 134, 135, 58, 82, 128, 129, 130, 131, 57, 58, 69, 82, 92, 128, 129, 130, 131, 58, 84, 132, 133, 134, 135, 57, 58, 69, 84, 92, 132, 133, 134, 135, 59, 84, 132, 133, 134, 135, 57, 59, 69, 84, 92, 132, 133, 134, 135, 60, 82, 128, 129, 130, 131, 57, 60, 69, 82, 92, 128, 129, 130, 131, 61, 82, 128, 129, 130, 131, 57, 61, 69, 82, 92, 128, 129, 130, 131, 60, 84, 132, 133, 134, 135, 57, 60, 69, 84, 92, 132, 133, 134, 135, 61, 84, 132, 133, 134, 135, 57, 61, 69, 84, 92, 132, 133, 134, 135, 62, 72, 99, 100, 101, 102, 103, 62, 73, 104, 105, 106, 107, 108, 63, 72, 99, 100, 101, 102, 103, 63, 64, 72, 99, 100, 101, 102, 103, 63, 73, 104, 105, 106, 107, 108, 63, 64, 73, 104, 105, 106, 107, 108, 64, 69, 77, 95, 111, 113, 116, 118, 120, 64, 75, 110, 112, 114, 115, 117, 119, 64, 79, 121, 122, 123, 124, 126, 127, 64, 82, 128, 129, 130, 131, 64, 84, 132, 133, 134, 135, 79, 82, 121, 122, 124, 125, 126, 127, 68, 70, 68, 69, 69, 85, 75, 77, 114, 77, 78, 120, 77, 79, 121, 122, 124, 125, 126, 127, 79, 80, 121, 125, 126, 127, 78, 80, 81, 45, 48, 50, 87, 84, 85, 132, 133, 134, 135, 84, 86, 132, 133, 134, 135, 45, 50, 83, 38, 45, 83, 40, 42, 40, 45, 43, 44, 57, 84, 132, 133, 134, 135, 50, 56, 57, 58, 65, 68, 69, 84, 88, 132, 133, 134, 135, 52, 56, 57, 65, 68, 69, 84, 88, 132, 133, 134, 135, 58, 71, 39, 71, 38, 39, 56, 57, 65, 69, 92, 38, 82, 128, 129, 130, 131, 38, 84, 132, 133, 134, 135, 39, 82, 128, 129, 130, 131, 39, 57, 69, 82, 92, 128, 129, 130, 131, 39, 84, 132, 133, 134, 135, 39, 57, 69, 84, 92, 132, 133, 134, 135, 37, 41, 43, 44, 45, 47, 49, 51, 68, 69, 89, 90, 65, 82, 128, 129, 130, 131, 65, 84, 132, 133, 134, 135, 65, 69, 72, 102, 103, 136, 73, 104, 107, 108, 137, 59, 71, 139, 147, 149, 151, 154, 159, 161, 162, 176, 191, 192, 219, 228, 265, 266, 267, 268, 269, 277, 139, 147, 149, 151, 154, 159, 161, 162, 176, 191, 192, 224, 228, 277, 278, 279, 280, 281, 282, 144, 149, 153, 156, 159, 161, 165, 176, 181, 191, 192, 229, 230, 275, 277, 779, 139, 147, 149, 151, 154, 158, 160, 162, 168, 170, 191, 192, 229, 230, 277, 144, 149, 152, 157, 159, 161, 165, 176, 181, 191, 192, 228, 277, 144, 149, 152, 157, 159, 161, 165, 176, 181, 191, 192, 229, 230, 276, 277, 142, 147, 149, 151, 154, 159, 161, 163, 168, 174, 191, 192, 229, 230, 277, 140, 149, 153, 156, 158, 160, 163, 169, 171, 191, 192, 229, 275, 277, 779, 140, 149, 152, 155, 158, 160, 163, 169, 171, 191, 192, 229, 277, 141, 147, 149, 152, 155, 158, 160, 163, 169, 172, 191, 192, 229, 277, 141, 147, 149, 153, 156, 158, 160, 163, 169, 172, 191, 192, 229, 275, 277, 779, 146, 147, 149, 152, 154, 159, 161, 164, 173, 176, 191, 192, 228, 277, 146, 147, 149, 152, 154, 159, 161, 164, 173, 191, 192, 229, 230, 277, 147, 148, 146, 147, 149, 153, 156, 159, 161, 164, 173, 191, 192, 229, 230, 275, 277, 779, 145, 149, 152, 157, 159, 161, 166, 182, 191, 192, 229, 230, 277, 145, 149, 153, 156, 159, 161, 166, 182, 191, 192, 229, 230, 275, 277, 779, 147, 148, 149, 192, 150, 192, 158, 159, 160, 161, 150, 152, 153, 275, 779, 191, 192, 151, 191, 194, 235, 236, 237, 238, 239, 151, 152, 158, 159, 160, 162, 203, 151, 191, 196, 235, 240, 241, 242, 243, 151, 198, 779, 151, 156, 198, 779, 158, 159, 160, 163, 203, 151, 191, 200, 235, 244, 245, 246, 148, 192, 151, 191, 148, 149, 150, 157, 196, 240, 241, 242, 243, 151, 157, 198, 779, 151, 154, 198, 779, 151, 155, 198, 779, 157, 200, 244, 245, 246, 154, 191, 200, 235, 244, 245, 246, 155, 191, 200, 235, 244, 245, 246, 154, 191, 196, 235, 240, 241, 242, 243, 155, 191, 196, 235, 240, 241, 242, 243, 188, 190, 189, 190, 154, 191, 155, 191, 156, 191, 148, 149, 151, 154, 179, 191, 192, 232, 148, 149, 151, 154, 180, 191, 192, 232, 148, 149, 151, 157, 179, 191, 192, 232, 148, 149, 152, 155, 179, 191, 192, 232, 148, 149, 151, 157, 180, 191, 192, 232, 148, 149, 152, 155, 180, 191, 192, 232, 158, 200, 244, 245, 246, 148, 149, 152, 156, 191, 192, 194, 232, 236, 237, 238, 239, 148, 149, 151, 154, 158, 191, 192, 194, 232, 236, 237, 238, 239, 148, 149, 152, 156, 184, 185, 191, 192, 232, 148, 149, 151, 154, 158, 184, 185, 191, 192, 232, 148, 149, 152, 156, 191, 192, 194, 232, 236, 237, 238, 239, 148, 149, 151, 154, 158, 191, 192, 194, 232, 236, 237, 238, 239, 148, 149, 152, 156, 184, 185, 191, 192, 232, 148, 149, 151, 154, 158, 184, 185, 191, 192, 232, 148, 149, 152, 155, 158, 191, 192, 194, 232, 236, 237, 238, 239, 159, 200, 244, 245, 246, 159, 212, 253, 254, 255, 256, 257, 258, 148, 149, 152, 155, 158, 184, 185, 191, 192, 232, 159, 161, 191, 201, 159, 208, 247, 248, 249, 250, 251, 252, 148, 149, 152, 155, 158, 191, 192, 194, 232, 236, 237, 238, 239, 154, 158, 159, 160, 205, 148, 149, 152, 155, 158, 184, 185, 191, 192, 232, 158, 160, 161, 191, 204, 234, 158, 160, 208, 247, 248, 249, 250, 251, 252, 158, 160, 212, 253, 254, 255, 256, 257, 258, 158, 160, 211, 218, 259, 260, 261, 262, 263, 264, 158, 160, 219, 265, 266, 267, 268, 269, 158, 160, 224, 278, 279, 280, 281, 282, 158, 160, 223, 270, 271, 272, 273, 160, 200, 244, 245, 246, 160, 161, 191, 204, 234, 160, 208, 247, 248, 249, 250, 251, 252, 160, 212, 253, 254, 255, 256, 257, 258, 160, 211, 218, 259, 260, 261, 262, 263, 264, 160, 219, 265, 266, 267, 268, 269, 160, 224, 278, 279, 280, 281, 282, 160, 223, 270, 271, 272, 273, 161, 191, 204, 206, 234, 159, 161, 191, 201, 202, 234, 161, 208, 247, 248, 249, 250, 251, 252, 161, 212, 253, 254, 255, 256, 257, 258, 161, 211, 218, 259, 260, 261, 262, 263, 264, 161, 219, 265, 266, 267, 268, 269, 161, 224, 278, 279, 280, 281, 282, 161, 223, 270, 271, 272, 273, 162, 208, 247, 248, 249, 250, 251, 252, 163, 208, 247, 248, 249, 250, 251, 252, 162, 212, 253, 254, 255, 256, 257, 258, 163, 212, 253, 254, 255, 256, 257, 258, 162, 211, 218, 259, 260, 261, 262, 263, 264, 163, 211, 218, 259, 260, 261, 262, 263, 264, 164, 208, 247, 248, 249, 250, 251, 252, 164, 212, 253, 254, 255, 256, 257, 258, 164, 211, 218, 259, 260, 261, 262, 263, 264, 165, 208, 247, 248, 249, 250, 251, 252, 161, 162, 164, 165, 168, 191, 209, 161, 163, 164, 165, 169, 191, 209, 165, 212, 253, 255, 256, 257, 258, 166, 208, 247, 248, 249, 250, 251, 252, 166, 212, 253, 254, 255, 256, 257, 258, 165, 211, 218, 259, 260, 261, 262, 263, 264, 167, 208, 247, 248, 249, 250, 251, 252, 167, 212, 253, 254, 255, 256, 257, 258, 165, 219, 265, 266, 267, 268, 269, 165, 224, 278, 279, 280, 281, 282, 165, 223, 270, 271, 272, 273, 168, 212, 253, 254, 255, 256, 257, 258, 169, 212, 253, 254, 255, 256, 257, 258, 168, 219, 265, 266, 267, 268, 269, 169, 219, 265, 266, 267, 268, 269, 168, 224, 278, 279, 280, 281, 282, 169, 224, 278, 279, 280, 281, 282, 148, 149, 168, 186, 187, 188, 191, 192, 219, 233, 265, 266, 267, 268, 269, 148, 149, 169, 186, 187, 189, 191, 192, 219, 233, 265, 266, 267, 268, 269, 181, 219, 265, 266, 267, 268, 269, 181, 224, 278, 279, 280, 281, 282, 182, 223, 271, 272, 273, 182, 219, 265, 266, 267, 268, 269, 183, 219, 265, 266, 267, 268, 269, 183, 223, 270, 271, 272, 273, 182, 224, 279, 280, 281, 282, 174, 223, 270, 271, 272, 273, 183, 224, 278, 279, 280, 281, 282, 174, 219, 265, 266, 267, 268, 269, 174, 224, 278, 279, 280, 281, 282, 170, 219, 265, 266, 267, 268, 269, 171, 219, 265, 266, 267, 268, 269, 172, 219, 265, 266, 267, 268, 269, 170, 224, 278, 279, 280, 281, 282, 171, 224, 278, 279, 280, 281, 282, 170, 223, 270, 271, 272, 273, 171, 223, 270, 271, 272, 273, 172, 223, 270, 271, 272, 273, 172, 224, 278, 279, 280, 281, 282, 171, 175, 177, 178, 189, 191, 215, 219, 231, 265, 266, 267, 268, 269, 172, 175, 177, 178, 189, 191, 215, 219, 231, 265, 266, 267, 268, 269, 171, 175, 177, 178, 189, 191, 215, 219, 231, 265, 266, 267, 268, 269, 172, 175, 177, 178, 189, 191, 215, 219, 231, 265, 266, 267, 268, 269, 168, 208, 247, 248, 249, 250, 251, 252, 169, 208, 247, 248, 249, 250, 251, 252, 170, 211, 218, 259, 260, 261, 262, 263, 264, 171, 211, 218, 259, 260, 261, 262, 263, 264, 172, 211, 218, 259, 260, 261, 262, 263, 264, 160, 173, 175, 176, 191, 216, 219, 265, 266, 267, 268, 269, 173, 211, 218, 259, 260, 261, 262, 263, 264, 173, 219, 265, 266, 267, 268, 269, 173, 224, 278, 279, 280, 281, 282, 173, 223, 270, 271, 272, 273, 148, 149, 176, 186, 187, 188, 191, 192, 219, 233, 265, 266, 267, 268, 269, 148, 149, 176, 186, 187, 188, 191, 192, 219, 233, 265, 266, 267, 269, 175, 224, 278, 279, 280, 281, 282, 148, 149, 176, 186, 187, 188, 191, 192, 219, 233, 265, 266, 267, 268, 269, 148, 149, 175, 186, 187, 189, 191, 192, 219, 233, 265, 266, 267, 268, 269, 148, 149, 176, 186, 187, 188, 191, 192, 219, 233, 265, 266, 267, 269, 148, 149, 175, 186, 187, 189, 191, 192, 219, 233, 265, 266, 267, 268, 269, 148, 149, 177, 186, 187, 189, 191, 192, 219, 233, 265, 266, 267, 268, 269, 176, 219, 265, 266, 267, 268, 269, 177, 219, 265, 266, 267, 268, 269, 148, 149, 177, 186, 187, 189, 191, 192, 219, 233, 265, 266, 267, 269, 176, 224, 278, 279, 280, 281, 282, 177, 224, 278, 279, 280, 281, 282, 148, 149, 177, 186, 187, 189, 191, 192, 219, 233, 265, 266, 267, 268, 269, 148, 149, 177, 186, 187, 189, 191, 192, 219, 233, 265, 266, 267, 269, 178, 211, 218, 259, 260, 261, 262, 263, 264, 178, 219, 265, 266, 267, 268, 269, 181, 223, 270, 271, 272, 273, 223, 225, 226, 182, 223, 225, 181, 226, 183, 226, 182, 226, 179, 194, 236, 237, 238, 239, 179, 196, 240, 241, 242, 243, 179, 184, 185, 191, 186, 194, 236, 237, 238, 239, 180, 194, 236, 237, 238, 239, 186, 196, 240, 241, 242, 243, 180, 196, 240, 241, 242, 243, 187, 188, 194, 236, 237, 238, 239, 180, 184, 185, 191, 187, 188, 196, 240, 241, 242, 243, 184, 194, 236, 237, 238, 239, 187, 194, 236, 237, 238, 239, 184, 196, 240, 241, 242, 243, 187, 196, 240, 241, 242, 243, 153, 184, 275, 779, 184, 198, 779, 188, 208, 247, 248, 249, 250, 251, 252, 189, 208, 247, 248, 249, 250, 251, 252, 184, 200, 244, 245, 246, 188, 212, 253, 254, 255, 256, 257, 258, 189, 212, 253, 254, 255, 256, 257, 258, 184, 191, 188, 211, 218, 259, 260, 261, 263, 264, 189, 211, 218, 259, 260, 261, 263, 264, 188, 219, 265, 266, 267, 269, 189, 219, 265, 266, 267, 269, 188, 224, 278, 279, 280, 282, 189, 224, 278, 279, 280, 282, 194, 227, 236, 237, 238, 239, 196, 227, 240, 241, 242, 243, 236, 239, 240, 243, 185, 186, 193, 179, 185, 186, 193, 151, 185, 186, 193, 194, 195, 236, 196, 197, 240, 168, 191, 169, 191, 191, 219, 265, 266, 269, 198, 199, 212, 213, 255, 256, 258, 212, 214, 253, 254, 255, 256, 258, 158, 159, 160, 161, 162, 168, 207, 158, 159, 160, 161, 163, 169, 207, 210, 212, 253, 254, 255, 256, 258, 140, 191, 277, 141, 191, 277, 159, 191, 161, 191, 191, 212, 217, 218, 219, 261, 264, 265, 266, 267, 269, 219, 220, 224, 265, 266, 267, 269, 278, 279, 280, 282, 219, 222, 224, 265, 266, 269, 278, 279, 280, 282, 219, 221, 266, 269, 31, 291, 295, 297, 298, 299, 300, 302, 304, 305, 307, 309, 331, 332, 333, 334, 335, 292, 295, 297, 298, 299, 301, 303, 304, 306, 308, 310, 331, 332, 333, 334, 335, 293, 295, 297, 298, 299, 301, 303, 304, 306, 308, 311, 331, 332, 333, 334, 335, 295, 296, 297, 295, 331, 295, 338, 295, 297, 295, 298, 298, 314, 339, 340, 341, 342, 298, 316, 343, 344, 345, 346, 299, 314, 336, 339, 340, 341, 342, 299, 316, 336, 343, 344, 345, 346, 299, 317, 299, 331, 295, 297, 298, 300, 314, 331, 336, 339, 340, 341, 342, 295, 297, 298, 300, 314, 331, 336, 339, 340, 341, 342, 295, 297, 298, 300, 314, 331, 336, 339, 340, 342, 295, 297, 298, 300, 316, 331, 336, 343, 344, 345, 346, 295, 297, 298, 300, 316, 331, 336, 343, 344, 345, 346, 295, 297, 298, 300, 316, 331, 336, 343, 344, 345, 346, 295, 297, 298, 301, 314, 331, 336, 339, 340, 341, 342, 295, 297, 298, 301, 314, 331, 336, 339, 340, 341, 342, 295, 297, 298, 301, 314, 331, 336, 339, 340, 341, 342, 295, 297, 298, 301, 316, 331, 336, 343, 344, 345, 346, 295, 297, 298, 301, 316, 331, 336, 343, 344, 345, 346, 295, 297, 298, 301, 316, 331, 336, 343, 344, 345, 346, 300, 317, 300, 301, 295, 297, 298, 300, 302, 314, 331, 336, 339, 340, 341, 342, 295, 297, 298, 300, 302, 314, 331, 336, 339, 340, 341, 342, 295, 297, 298, 300, 302, 314, 331, 336, 339, 340, 341, 342, 295, 297, 298, 300, 302, 316, 331, 336, 343, 344, 346, 295, 297, 298, 300, 302, 316, 331, 336, 343, 344, 345, 346, 295, 297, 298, 300, 302, 316, 331, 336, 343, 344, 345, 346, 295, 297, 298, 301, 303, 314, 331, 336, 339, 340, 341, 342, 295, 297, 298, 301, 303, 314, 331, 336, 339, 340, 341, 342, 295, 297, 298, 301, 303, 314, 331, 336, 339, 340, 341, 342, 295, 297, 298, 301, 303, 316, 331, 336, 343, 344, 345, 346, 295, 297, 298, 301, 303, 316, 331, 336, 343, 344, 345, 346, 295, 297, 298, 301, 303, 316, 331, 336, 343, 344, 345, 346, 302, 303, 304, 320, 347, 348, 349, 350, 304, 323, 351, 352, 353, 354, 355, 304, 330, 356, 357, 358, 359, 360, 305, 320, 347, 348, 349, 350, 305, 323, 351, 352, 353, 354, 355, 305, 330, 356, 357, 358, 359, 360, 306, 320, 347, 348, 349, 350, 306, 323, 351, 352, 353, 354, 355, 306, 330, 356, 357, 358, 359, 360, 307, 320, 347, 348, 349, 350, 307, 323, 351, 352, 353, 354, 355, 307, 330, 356, 357, 358, 359, 360, 308, 320, 347, 348, 349, 350, 308, 323, 351, 352, 353, 354, 355, 308, 330, 356, 357, 358, 359, 360, 309, 312, 313, 331, 337, 309, 323, 351, 352, 353, 354, 355, 309, 330, 356, 357, 358, 359, 360, 310, 323, 351, 352, 353, 354, 355, 310, 330, 356, 357, 358, 359, 360, 311, 323, 351, 352, 353, 354, 355, 311, 330, 356, 357, 358, 359, 360, 304, 311, 328, 306, 311, 328, 304, 311, 328, 306, 311, 328, 312, 323, 351, 352, 353, 354, 355, 323, 331, 313, 361, 339, 342, 343, 346, 314, 315, 339, 340, 316, 318, 343, 344, 320, 321, 320, 322, 348, 323, 324, 351, 352, 353, 354, 323, 325, 351, 352, 353, 354, 304, 308, 310, 326, 327, 330, 356, 357, 358, 359, 304, 319, 329, 330, 363, 364, 373, 374, 375, 377, 383, 387, 391, 393, 407, 408, 504, 511, 512, 519, 363, 508, 363, 364, 373, 374, 375, 377, 383, 387, 391, 393, 407, 408, 413, 504, 511, 512, 519, 363, 364, 367, 373, 374, 375, 377, 383, 387, 391, 393, 407, 408, 411, 413, 504, 511, 512, 519, 363, 364, 373, 374, 375, 377, 383, 387, 391, 393, 407, 408, 504, 519, 363, 366, 373, 374, 375, 377, 382, 384, 387, 389, 394, 407, 504, 511, 512, 519, 364, 504, 367, 504, 363, 367, 373, 374, 375, 377, 383, 387, 391, 393, 407, 411, 504, 519, 363, 367, 373, 374, 375, 377, 383, 387, 391, 393, 407, 411, 504, 511, 512, 519, 363, 368, 373, 374, 375, 377, 382, 385, 387, 392, 403, 407, 504, 511, 519, 363, 368, 373, 374, 375, 377, 382, 385, 387, 392, 403, 407, 414, 416, 419, 466, 504, 511, 519, 363, 370, 373, 374, 375, 377, 382, 387, 391, 401, 407, 410, 504, 511, 512, 519, 363, 371, 373, 374, 375, 377, 383, 386, 387, 390, 394, 407, 504, 511, 512, 519, 363, 371, 373, 374, 375, 377, 383, 386, 387, 390, 394, 407, 504, 519, 375, 460, 520, 363, 371, 373, 374, 375, 377, 383, 387, 390, 394, 400, 407, 413, 416, 421, 447, 465, 504, 519, 373, 374, 374, 427, 469, 470, 471, 472, 473, 504, 374, 429, 474, 475, 476, 477, 478, 504, 374, 431, 479, 480, 481, 482, 504, 374, 520, 373, 376, 377, 381, 464, 504, 520, 374, 376, 377, 427, 458, 469, 470, 471, 472, 473, 504, 377, 429, 458, 474, 475, 476, 477, 478, 504, 377, 431, 479, 480, 481, 482, 504, 377, 436, 779, 377, 429, 474, 475, 476, 477, 478, 504, 378, 435, 378, 433, 401, 444, 488, 489, 490, 491, 492, 401, 441, 483, 484, 485, 486, 487, 401, 443, 468, 493, 494, 495, 431, 479, 480, 481, 482, 503, 429, 474, 475, 476, 477, 478, 503, 503, 504, 427, 469, 470, 471, 472, 473, 503, 378, 427, 469, 470, 471, 472, 473, 378, 429, 474, 475, 476, 477, 478, 379, 427, 469, 470, 471, 472, 473, 504, 379, 429, 474, 475, 476, 477, 478, 504, 379, 431, 479, 480, 481, 482, 504, 380, 429, 474, 475, 476, 477, 478, 504, 380, 431, 479, 480, 481, 482, 504, 377, 381, 423, 458, 503, 504, 377, 381, 424, 458, 503, 504, 381, 427, 470, 471, 472, 473, 381, 429, 474, 475, 476, 477, 478, 469, 473, 474, 478, 479, 482, 383, 431, 479, 480, 481, 482, 504, 377, 383, 436, 779, 377, 437, 509, 779, 377, 383, 437, 509, 779, 382, 431, 479, 480, 481, 482, 504, 377, 382, 436, 779, 377, 382, 437, 509, 779, 373, 374, 383, 431, 462, 479, 480, 481, 482, 504, 519, 520, 373, 374, 383, 427, 462, 463, 469, 470, 471, 472, 473, 504, 519, 520, 373, 374, 383, 429, 462, 463, 474, 475, 476, 477, 478, 504, 519, 520, 373, 374, 383, 387, 431, 462, 479, 480, 481, 482, 504, 519, 520, 373, 374, 383, 387, 427, 462, 469, 470, 471, 472, 473, 504, 519, 520, 373, 374, 383, 387, 429, 462, 474, 475, 476, 477, 478, 504, 519, 520, 373, 374, 382, 387, 427, 462, 469, 470, 471, 472, 473, 504, 519, 520, 373, 374, 382, 387, 429, 462, 474, 475, 476, 477, 478, 504, 519, 520, 373, 374, 377, 383, 434, 462, 504, 519, 520, 373, 374, 383, 434, 462, 504, 519, 520, 373, 374, 378, 383, 427, 433, 435, 462, 463, 469, 470, 471, 472, 473, 504, 519, 520, 373, 374, 378, 383, 429, 433, 435, 462, 463, 474, 475, 476, 477, 478, 504, 519, 520, 373, 374, 382, 434, 462, 504, 519, 520, 373, 374, 378, 382, 427, 433, 435, 462, 463, 469, 470, 471, 472, 473, 504, 519, 520, 373, 374, 378, 382, 429, 433, 435, 462, 463, 474, 475, 476, 477, 478, 504, 519, 520, 373, 374, 378, 383, 387, 433, 435, 462, 503, 504, 519, 520, 373, 374, 378, 383, 433, 462, 503, 504, 519, 520, 373, 374, 378, 383, 433, 435, 462, 503, 504, 519, 520, 373, 374, 378, 383, 433, 462, 503, 504, 519, 520, 373, 374, 378, 382, 433, 462, 503, 504, 519, 520, 373, 374, 378, 382, 433, 435, 462, 503, 504, 519, 520, 373, 374, 378, 382, 433, 462, 503, 504, 519, 520, 373, 374, 378, 382, 387, 433, 435, 462, 503, 504, 519, 520, 427, 434, 469, 470, 471, 472, 473, 429, 434, 474, 475, 476, 477, 478, 378, 433, 434, 435, 503, 378, 433, 434, 503, 406, 443, 468, 493, 494, 495, 504, 519, 391, 443, 468, 493, 494, 495, 504, 519, 391, 443, 468, 493, 494, 495, 504, 519, 392, 443, 468, 493, 494, 495, 504, 519, 393, 443, 468, 493, 494, 495, 504, 519, 394, 443, 468, 493, 494, 495, 504, 519, 403, 443, 468, 493, 494, 495, 504, 519, 413, 443, 468, 493, 494, 495, 504, 519, 414, 443, 468, 493, 494, 495, 504, 519, 413, 416, 443, 468, 493, 494, 495, 504, 519, 414, 416, 443, 468, 493, 494, 495, 504, 519, 405, 443, 468, 493, 494, 495, 504, 519, 405, 443, 451, 468, 493, 494, 495, 500, 501, 502, 504, 518, 519, 395, 443, 468, 493, 494, 495, 504, 519, 387, 391, 406, 438, 461, 504, 406, 441, 483, 484, 486, 487, 406, 444, 488, 489, 491, 492, 387, 391, 441, 483, 484, 485, 486, 487, 387, 389, 441, 483, 484, 485, 486, 487, 387, 392, 441, 483, 484, 485, 486, 487, 387, 391, 444, 488, 489, 490, 491, 492, 387, 389, 444, 488, 489, 490, 491, 492, 387, 392, 444, 488, 489, 490, 491, 492, 387, 389, 406, 438, 461, 504, 387, 390, 406, 438, 461, 504, 391, 441, 483, 484, 485, 486, 487, 389, 441, 483, 484, 485, 486, 487, 392, 441, 484, 485, 486, 487, 391, 444, 488, 489, 490, 491, 492, 389, 444, 488, 489, 490, 491, 492, 392, 444, 488, 489, 490, 491, 492, 393, 441, 483, 484, 485, 486, 487, 393, 441, 468, 483, 484, 485, 486, 487, 504, 519, 393, 444, 488, 489, 490, 491, 492, 393, 444, 468, 488, 489, 490, 491, 492, 504, 519, 394, 441, 483, 484, 485, 486, 487, 394, 444, 488, 489, 490, 491, 492, 395, 441, 483, 484, 485, 486, 487, 395, 444, 488, 489, 490, 491, 492, 403, 441, 483, 484, 485, 487, 403, 444, 488, 489, 490, 492, 408, 413, 416, 418, 465, 504, 386, 413, 416, 421, 465, 504, 411, 413, 416, 418, 465, 504, 400, 408, 413, 416, 418, 447, 465, 504, 400, 411, 413, 416, 418, 447, 465, 504, 413, 444, 488, 489, 490, 491, 492, 414, 444, 488, 489, 490, 491, 492, 414, 416, 444, 488, 489, 490, 491, 492, 413, 416, 444, 488, 489, 490, 491, 492, 413, 441, 483, 484, 485, 486, 487, 414, 441, 483, 484, 485, 486, 487, 373, 374, 376, 379, 380, 405, 407, 416, 467, 504, 520, 373, 374, 376, 379, 380, 405, 407, 416, 467, 504, 520, 373, 374, 376, 379, 380, 405, 407, 416, 467, 504, 520, 405, 441, 483, 484, 485, 486, 487, 405, 444, 488, 489, 490, 491, 492, 444, 445, 488, 489, 490, 491, 444, 446, 488, 489, 490, 491, 388, 504, 393, 504, 405, 504, 413, 504, 436, 504, 779, 451, 504, 416, 504, 380, 504, 439, 440, 387, 390, 439, 504, 387, 391, 439, 504, 388, 389, 389, 390, 388, 391, 388, 392, 363, 365, 373, 374, 375, 377, 383, 387, 391, 393, 407, 408, 504, 511, 512, 519, 363, 365, 373, 374, 375, 377, 383, 387, 391, 393, 407, 408, 504, 519, 363, 369, 373, 374, 375, 377, 382, 387, 391, 395, 407, 409, 504, 511, 512, 519, 375, 519, 504, 519, 504, 520, 427, 428, 469, 510, 429, 430, 474, 510, 431, 432, 479, 510, 451, 454, 501, 502, 373, 374, 376, 379, 380, 404, 407, 417, 467, 504, 520, 402, 443, 493, 494, 495, 404, 443, 493, 494, 495, 415, 443, 493, 494, 495, 402, 441, 483, 484, 485, 486, 487, 402, 444, 488, 489, 490, 491, 492, 404, 444, 488, 489, 490, 491, 492, 404, 441, 483, 484, 485, 486, 487, 415, 444, 488, 489, 490, 491, 492, 387, 392, 403, 406, 442, 387, 392, 403, 442, 387, 389, 394, 442, 444, 488, 490, 491, 387, 390, 394, 442, 444, 488, 490, 491, 387, 455, 521, 522, 523, 524, 525, 387, 451, 500, 501, 502, 518, 388, 455, 521, 522, 523, 524, 525, 388, 515, 516, 517, 388, 451, 500, 501, 502, 518, 444, 448, 488, 489, 490, 491, 496, 497, 498, 499, 506, 514, 444, 455, 488, 489, 490, 491, 521, 522, 523, 524, 525, 444, 488, 489, 490, 491, 515, 516, 517, 444, 451, 488, 489, 490, 491, 500, 501, 502, 518, 407, 455, 521, 522, 523, 524, 525, 407, 451, 500, 501, 502, 518, 408, 455, 521, 522, 523, 524, 525, 408, 451, 500, 501, 502, 518, 411, 455, 521, 522, 523, 524, 525, 411, 451, 500, 501, 502, 518, 386, 455, 521, 522, 523, 524, 525, 386, 451, 500, 501, 502, 518, 384, 455, 521, 522, 523, 524, 525, 384, 451, 500, 501, 502, 518, 385, 448, 496, 497, 498, 499, 506, 514, 385, 515, 516, 517, 385, 451, 500, 501, 502, 518, 410, 455, 521, 522, 523, 524, 525, 410, 451, 500, 501, 502, 518, 409, 455, 521, 522, 523, 524, 525, 409, 451, 500, 501, 502, 518, 412, 455, 521, 522, 523, 524, 525, 412, 451, 500, 501, 502, 518, 418, 448, 496, 497, 498, 499, 506, 514, 418, 455, 521, 522, 523, 524, 525, 418, 451, 500, 501, 502, 518, 421, 448, 496, 498, 499, 506, 514, 421, 455, 521, 522, 523, 524, 525, 421, 451, 500, 501, 502, 518, 420, 448, 496, 497, 498, 499, 506, 514, 420, 455, 521, 522, 523, 524, 525, 420, 451, 500, 501, 502, 518, 419, 448, 496, 497, 498, 506, 514, 419, 515, 516, 517, 419, 451, 500, 501, 502, 518, 425, 455, 521, 522, 523, 524, 525, 425, 451, 500, 501, 502, 518, 426, 455, 521, 522, 523, 524, 525, 426, 451, 500, 501, 502, 518, 422, 455, 521, 522, 523, 524, 525, 422, 451, 500, 501, 502, 518, 396, 418, 504, 505, 519, 396, 418, 448, 496, 497, 498, 499, 504, 505, 506, 514, 519, 396, 455, 521, 522, 523, 524, 525, 396, 451, 500, 501, 502, 518, 397, 421, 504, 505, 519, 397, 421, 448, 496, 497, 498, 499, 504, 505, 506, 514, 519, 397, 455, 521, 522, 523, 524, 525, 397, 451, 500, 501, 502, 518, 398, 420, 504, 505, 519, 398, 420, 448, 496, 497, 498, 499, 504, 505, 506, 514, 519, 398, 455, 521, 522, 523, 524, 525, 398, 451, 500, 501, 502, 518, 399, 419, 504, 505, 519, 399, 419, 448, 496, 497, 498, 499, 504, 505, 506, 514, 519, 399, 515, 516, 517, 399, 451, 500, 501, 502, 518, 416, 455, 521, 522, 523, 524, 525, 416, 451, 500, 501, 502, 518, 417, 455, 521, 522, 523, 524, 525, 417, 451, 500, 501, 502, 518, 393, 416, 455, 504, 505, 519, 521, 522, 523, 524, 525, 393, 416, 451, 500, 501, 502, 504, 505, 518, 519, 402, 417, 455, 504, 505, 519, 521, 522, 523, 524, 525, 402, 417, 451, 500, 501, 502, 504, 505, 518, 519, 400, 455, 521, 522, 523, 524, 525, 400, 451, 500, 501, 502, 518, 363, 364, 373, 374, 375, 377, 383, 387, 391, 393, 407, 408, 414, 416, 418, 466, 504, 511, 512, 519, 363, 365, 373, 374, 375, 377, 383, 387, 391, 393, 407, 408, 414, 416, 418, 466, 504, 511, 512, 519, 363, 367, 373, 374, 375, 377, 383, 387, 391, 393, 407, 411, 414, 416, 418, 466, 504, 511, 512, 519, 363, 371, 373, 374, 375, 377, 383, 386, 387, 390, 394, 407, 414, 416, 421, 466, 504, 511, 512, 519, 363, 366, 373, 374, 375, 377, 382, 384, 387, 389, 394, 407, 414, 416, 420, 466, 504, 511, 512, 519, 363, 370, 373, 374, 375, 377, 382, 387, 391, 401, 407, 410, 414, 417, 425, 466, 504, 511, 512, 519, 363, 369, 373, 374, 375, 377, 382, 387, 391, 395, 407, 409, 414, 417, 426, 466, 504, 511, 512, 519, 448, 449, 499, 450, 451, 501, 502, 451, 453, 500, 502, 518, 455, 457, 523, 524, 451, 452, 502, 455, 456, 521, 522, 523, 524, 526, 535, 539, 540, 542, 543, 544, 545, 546, 554, 557, 580, 611, 612, 613, 527, 535, 538, 539, 540, 542, 543, 544, 545, 546, 554, 558, 580, 611, 612, 613, 528, 535, 538, 539, 541, 542, 543, 544, 545, 548, 555, 559, 580, 611, 612, 613, 530, 535, 538, 539, 541, 542, 543, 544, 545, 547, 554, 561, 580, 611, 612, 613, 530, 531, 532, 535, 538, 539, 541, 542, 543, 544, 545, 553, 555, 560, 580, 611, 612, 613, 534, 535, 538, 539, 540, 542, 543, 544, 545, 549, 555, 562, 580, 611, 612, 613, 533, 535, 539, 540, 542, 543, 544, 545, 551, 556, 565, 580, 611, 612, 613, 529, 535, 538, 539, 540, 542, 543, 544, 545, 552, 556, 563, 580, 611, 612, 613, 529, 531, 532, 535, 538, 539, 540, 542, 543, 544, 545, 550, 556, 563, 580, 611, 612, 613, 526, 531, 532, 535, 538, 539, 540, 542, 543, 544, 545, 553, 555, 564, 580, 611, 612, 613, 527, 531, 532, 535, 538, 539, 540, 542, 543, 544, 545, 553, 555, 564, 580, 611, 612, 613, 535, 580, 536, 580, 536, 537, 538, 536, 538, 537, 539, 535, 538, 539, 535, 539, 539, 587, 617, 618, 619, 620, 539, 589, 621, 622, 623, 624, 541, 580, 581, 584, 540, 541, 541, 587, 617, 618, 619, 620, 541, 589, 621, 622, 623, 624, 541, 592, 779, 540, 591, 610, 779, 542, 580, 581, 584, 542, 589, 621, 622, 623, 624, 542, 592, 779, 543, 592, 779, 543, 598, 630, 631, 632, 633, 634, 635, 543, 600, 636, 637, 638, 639, 640, 543, 605, 646, 647, 648, 649, 650, 543, 607, 651, 652, 653, 654, 655, 543, 544, 592, 779, 543, 544, 598, 630, 631, 632, 633, 634, 635, 543, 544, 600, 636, 637, 638, 639, 640, 543, 544, 605, 646, 647, 648, 649, 650, 543, 544, 607, 651, 652, 653, 654, 655, 543, 544, 580, 581, 584, 543, 544, 545, 593, 594, 544, 545, 593, 594, 544, 545, 580, 595, 616, 544, 545, 596, 625, 626, 627, 628, 629, 544, 545, 598, 630, 631, 632, 633, 634, 635, 544, 545, 600, 636, 637, 638, 639, 640, 544, 545, 605, 646, 647, 648, 649, 650, 544, 545, 607, 651, 652, 653, 654, 655, 545, 596, 625, 626, 627, 628, 629, 545, 598, 630, 631, 632, 633, 634, 635, 545, 600, 636, 637, 638, 639, 640, 545, 603, 641, 642, 643, 644, 645, 545, 605, 646, 647, 648, 649, 650, 545, 580, 545, 607, 651, 652, 653, 654, 655, 546, 547, 550, 551, 546, 596, 625, 626, 627, 628, 629, 548, 549, 550, 552, 546, 598, 630, 631, 632, 633, 634, 546, 600, 636, 637, 638, 639, 640, 546, 603, 641, 642, 643, 644, 645, 546, 607, 651, 652, 653, 654, 655, 546, 580, 548, 596, 625, 626, 627, 628, 629, 548, 598, 630, 631, 632, 633, 634, 548, 600, 636, 637, 638, 639, 640, 548, 603, 641, 642, 643, 644, 645, 550, 596, 625, 626, 627, 628, 629, 553, 596, 625, 626, 627, 628, 629, 550, 598, 630, 631, 632, 633, 634, 553, 598, 630, 631, 632, 633, 634, 550, 600, 636, 637, 638, 639, 640, 550, 605, 646, 647, 648, 649, 650, 546, 554, 603, 641, 642, 643, 644, 645, 548, 555, 603, 641, 642, 643, 644, 645, 554, 598, 630, 631, 632, 633, 634, 554, 600, 636, 637, 638, 639, 640, 554, 605, 646, 647, 648, 649, 650, 554, 607, 651, 652, 653, 654, 655, 554, 580, 555, 598, 630, 631, 632, 633, 634, 555, 600, 636, 637, 638, 639, 640, 555, 607, 651, 652, 653, 654, 655, 555, 605, 646, 647, 648, 649, 650, 556, 598, 630, 631, 632, 633, 634, 556, 600, 636, 637, 638, 639, 640, 556, 605, 646, 647, 648, 649, 650, 556, 607, 651, 652, 653, 654, 655, 564, 566, 571, 576, 580, 614, 564, 605, 646, 647, 648, 649, 650, 564, 607, 651, 652, 653, 654, 655, 557, 566, 568, 576, 580, 614, 557, 605, 646, 647, 648, 649, 650, 557, 607, 651, 652, 653, 654, 655, 558, 566, 568, 576, 580, 614, 558, 605, 646, 647, 648, 649, 650, 558, 607, 651, 652, 653, 654, 655, 560, 566, 572, 576, 580, 614, 560, 605, 646, 647, 648, 649, 650, 559, 566, 569, 576, 580, 614, 559, 605, 646, 647, 648, 649, 650, 559, 607, 651, 652, 653, 654, 655, 561, 566, 569, 576, 580, 614, 561, 605, 646, 647, 648, 649, 650, 561, 607, 651, 652, 653, 654, 655, 562, 566, 570, 580, 614, 562, 605, 646, 647, 648, 649, 650, 562, 607, 651, 652, 653, 654, 655, 550, 556, 565, 567, 573, 580, 614, 550, 556, 563, 567, 573, 580, 614, 563, 605, 646, 647, 648, 649, 650, 563, 607, 651, 652, 653, 654, 655, 565, 605, 646, 647, 648, 649, 650, 565, 607, 651, 652, 653, 654, 655, 536, 538, 539, 566, 574, 575, 576, 578, 580, 615, 536, 538, 539, 554, 566, 574, 575, 576, 578, 580, 615, 536, 538, 539, 566, 574, 575, 576, 578, 580, 615, 536, 538, 539, 566, 574, 575, 576, 578, 580, 615, 536, 538, 539, 566, 574, 575, 576, 578, 580, 615, 536, 538, 539, 554, 566, 574, 575, 576, 578, 580, 615, 536, 538, 539, 567, 574, 575, 577, 579, 580, 615, 536, 538, 539, 567, 574, 575, 577, 579, 580, 615, 536, 538, 539, 567, 574, 575, 577, 579, 580, 615, 536, 538, 539, 556, 567, 574, 575, 577, 579, 580, 615, 536, 538, 539, 567, 574, 575, 577, 579, 580, 615, 536, 538, 539, 556, 567, 574, 575, 577, 579, 580, 615, 572, 605, 646, 647, 648, 649, 650, 572, 607, 651, 652, 653, 654, 655, 568, 603, 641, 642, 643, 644, 645, 568, 607, 651, 652, 653, 654, 655, 568, 605, 646, 647, 648, 649, 650, 571, 605, 646, 647, 648, 649, 650, 571, 607, 651, 652, 653, 654, 655, 569, 603, 641, 642, 643, 644, 645, 569, 605, 646, 647, 648, 649, 650, 569, 607, 651, 652, 653, 654, 655, 570, 605, 646, 647, 648, 649, 650, 570, 607, 651, 652, 653, 654, 655, 570, 603, 641, 642, 643, 644, 645, 573, 605, 646, 647, 648, 649, 650, 573, 607, 651, 652, 653, 654, 655, 544, 545, 554, 605, 606, 648, 650, 580, 607, 574, 587, 617, 618, 619, 620, 574, 589, 621, 622, 623, 624, 575, 576, 587, 617, 618, 619, 620, 575, 576, 589, 621, 622, 623, 624, 575, 587, 617, 618, 619, 620, 575, 589, 621, 622, 623, 624, 576, 596, 625, 626, 627, 628, 629, 576, 598, 630, 631, 632, 633, 634, 576, 600, 636, 637, 638, 639, 640, 576, 603, 641, 642, 643, 644, 645, 576, 607, 651, 652, 653, 654, 655, 577, 596, 625, 626, 627, 628, 629, 577, 598, 630, 631, 632, 633, 634, 577, 603, 641, 642, 643, 644, 645, 577, 605, 646, 647, 648, 649, 650, 577, 607, 651, 652, 653, 654, 655, 576, 577, 578, 607, 651, 652, 653, 654, 655, 579, 607, 651, 652, 653, 654, 655, 578, 580, 579, 580, 582, 587, 617, 618, 619, 620, 582, 589, 621, 622, 623, 624, 583, 587, 617, 618, 619, 620, 583, 589, 621, 622, 623, 624, 585, 587, 617, 618, 619, 620, 574, 582, 585, 586, 587, 588, 617, 589, 590, 621, 545, 548, 551, 555, 556, 597, 545, 548, 551, 555, 556, 597, 545, 547, 551, 597, 545, 549, 552, 597, 598, 599, 630, 631, 632, 634, 600, 601, 636, 637, 640, 600, 602, 636, 637, 638, 640, 617, 618, 621, 622, 603, 604, 643, 607, 609, 651, 652, 653, 655, 607, 608, 652, 653, 655, 663, 664, 665, 667, 669, 672, 673, 674, 677, 678, 681, 688, 708, 656, 664, 665, 667, 669, 672, 673, 674, 675, 676, 682, 688, 708, 657, 664, 665, 667, 669, 672, 673, 674, 675, 676, 682, 688, 708, 658, 664, 665, 666, 668, 671, 674, 677, 678, 683, 688, 708, 659, 664, 665, 667, 669, 672, 673, 674, 675, 676, 684, 688, 708, 660, 664, 665, 667, 669, 672, 673, 674, 679, 680, 685, 688, 708, 661, 664, 665, 666, 668, 670, 674, 677, 678, 686, 688, 708, 661, 664, 665, 666, 668, 671, 674, 677, 678, 686, 688, 708, 757, 662, 664, 665, 666, 669, 672, 673, 674, 679, 680, 687, 688, 708, 664, 688, 665, 688, 664, 689, 713, 714, 715, 750, 664, 690, 716, 717, 718, 751, 666, 667, 666, 689, 711, 713, 714, 715, 750, 666, 690, 711, 716, 717, 718, 751, 669, 690, 711, 716, 717, 718, 751, 668, 690, 711, 716, 717, 718, 751, 664, 666, 692, 664, 666, 668, 692, 664, 666, 669, 692, 23, 26, 664, 666, 669, 693, 23, 26, 664, 666, 668, 693, 711, 23, 26, 664, 666, 669, 693, 666, 669, 694, 669, 670, 694, 666, 668, 694, 668, 670, 694, 688, 692, 664, 665, 666, 668, 670, 688, 709, 711, 752, 756, 664, 665, 666, 668, 670, 688, 709, 711, 753, 756, 690, 716, 717, 718, 751, 753, 689, 713, 714, 715, 750, 753, 664, 665, 666, 669, 670, 688, 709, 753, 756, 664, 665, 666, 669, 670, 688, 709, 712, 752, 756, 664, 665, 666, 669, 670, 688, 709, 752, 756, 689, 713, 714, 715, 750, 752, 690, 716, 717, 718, 751, 755, 664, 665, 666, 668, 671, 674, 688, 709, 711, 755, 756, 664, 665, 666, 668, 671, 674, 688, 709, 711, 754, 756, 670, 672, 670, 671, 670, 699, 719, 720, 721, 722, 723, 740, 670, 702, 724, 725, 726, 727, 728, 729, 740, 670, 703, 730, 731, 732, 733, 734, 670, 705, 735, 736, 737, 738, 739, 670, 701, 758, 759, 760, 761, 762, 689, 713, 714, 715, 750, 754, 689, 713, 714, 715, 750, 755, 664, 665, 666, 669, 672, 674, 688, 709, 755, 756, 664, 665, 666, 669, 672, 674, 688, 709, 712, 754, 756, 664, 665, 666, 669, 672, 674, 688, 709, 754, 756, 672, 673, 691, 697, 671, 673, 691, 697, 670, 673, 675, 691, 695, 696, 673, 674, 670, 674, 688, 691, 698, 699, 710, 719, 720, 721, 722, 723, 740, 670, 674, 688, 691, 698, 702, 710, 724, 725, 726, 727, 728, 729, 740, 670, 674, 688, 691, 697, 702, 710, 724, 725, 726, 727, 728, 729, 740, 670, 674, 688, 691, 698, 703, 710, 730, 731, 732, 733, 734, 670, 674, 688, 691, 698, 701, 710, 758, 759, 760, 761, 762, 670, 674, 688, 691, 698, 705, 710, 735, 736, 737, 738, 739, 670, 674, 688, 691, 697, 705, 710, 735, 736, 737, 738, 739, 670, 674, 688, 691, 697, 701, 710, 758, 759, 760, 761, 762, 674, 699, 719, 720, 721, 722, 723, 740, 674, 702, 724, 725, 726, 727, 728, 729, 740, 674, 703, 730, 731, 732, 733, 734, 674, 688, 674, 705, 735, 736, 737, 738, 739, 674, 701, 758, 759, 760, 761, 762, 675, 699, 719, 720, 721, 722, 723, 740, 675, 688, 699, 719, 720, 721, 722, 723, 740, 757, 675, 702, 724, 725, 726, 727, 728, 729, 740, 675, 703, 730, 731, 732, 733, 734, 675, 688, 675, 705, 735, 736, 737, 738, 739, 675, 701, 758, 759, 760, 761, 762, 677, 699, 719, 720, 721, 722, 723, 740, 677, 702, 724, 725, 726, 727, 728, 729, 740, 677, 703, 730, 731, 732, 733, 734, 677, 705, 735, 736, 737, 738, 739, 677, 701, 758, 759, 760, 761, 762, 679, 699, 719, 720, 721, 722, 723, 740, 679, 702, 724, 725, 726, 727, 728, 729, 740, 679, 703, 730, 731, 732, 733, 734, 679, 705, 735, 736, 737, 738, 739, 679, 701, 758, 759, 760, 761, 762, 676, 699, 719, 720, 721, 722, 723, 740, 676, 702, 724, 725, 726, 727, 728, 729, 740, 676, 703, 730, 731, 732, 733, 734, 676, 688, 676, 705, 735, 736, 737, 738, 739, 676, 701, 758, 759, 760, 761, 762, 678, 699, 719, 720, 721, 722, 723, 740, 678, 702, 724, 725, 726, 727, 728, 729, 740, 678, 703, 730, 731, 732, 733, 734, 678, 705, 735, 736, 737, 738, 739, 678, 701, 758, 759, 760, 761, 762, 680, 699, 719, 720, 721, 722, 723, 740, 680, 702, 724, 725, 726, 727, 728, 729, 740, 680, 703, 730, 731, 732, 733, 734, 680, 705, 735, 736, 737, 738, 739, 680, 701, 758, 759, 760, 761, 762, 682, 703, 730, 731, 732, 733, 734, 682, 705, 735, 736, 737, 738, 739, 682, 701, 758, 759, 760, 761, 762, 683, 703, 730, 731, 732, 733, 734, 683, 705, 735, 736, 737, 738, 739, 683, 701, 759, 760, 761, 762, 684, 703, 730, 731, 732, 733, 734, 684, 705, 735, 736, 737, 738, 739, 684, 701, 758, 759, 760, 761, 762, 685, 703, 730, 731, 732, 733, 734, 685, 705, 735, 736, 737, 738, 739, 685, 701, 758, 759, 760, 761, 762, 686, 703, 730, 731, 732, 733, 734, 686, 705, 735, 736, 737, 738, 739, 686, 701, 758, 759, 760, 761, 762, 687, 703, 730, 731, 732, 733, 734, 687, 705, 735, 736, 737, 738, 739, 687, 701, 758, 759, 760, 761, 762, 681, 703, 730, 731, 732, 733, 734, 681, 705, 735, 736, 737, 738, 739, 681, 701, 758, 759, 760, 761, 762, 674, 675, 682, 707, 665, 712, 688, 703, 688, 705, 23, 690, 716, 742, 689, 690, 714, 715, 717, 718, 743, 689, 713, 714, 715, 744, 23, 697, 745, 23, 699, 746, 705, 735, 736, 737, 739, 747, 708, 741, 703, 731, 732, 748, 703, 730, 731, 732, 734, 749, 713, 750, 716, 751, 699, 700, 720, 705, 706, 735, 703, 704, 730, 732, 734, 763, 764, 766, 770, 812, 815, 766, 768, 770, 763, 764, 766, 770, 815, 765, 766, 767, 763, 764, 766, 769, 771, 812, 815, 796, 798, 799, 800, 815, 796, 798, 799, 800, 815, 796, 797, 801, 802, 803, 804, 805, 808, 802, 803, 804, 805, 807, 808, 807, 808, 809, 23, 25, 423, 508, 801, 23, 25, 423, 772, 23, 772, 801, 23, 25, 424, 508, 802, 23, 25, 424, 773, 23, 773, 802, 23, 193, 428, 23, 193, 286, 23, 286, 428, 23, 428, 586, 23, 195, 430, 23, 25, 195, 744, 23, 195, 430, 508, 23, 430, 508, 588, 23, 25, 430, 508, 744, 23, 430, 588, 23, 25, 588, 744, 23, 197, 432, 23, 25, 197, 743, 23, 197, 432, 508, 23, 432, 508, 590, 23, 25, 432, 508, 743, 23, 432, 590, 23, 25, 590, 743, 4, 23, 25, 427, 469, 473, 510, 23, 25, 196, 240, 805, 23, 25, 431, 479, 508, 805, 23, 690, 716, 717, 718, 751, 805, 31, 137, 318, 31, 137, 318, 6, 23, 25, 431, 479, 482, 510, 6, 23, 25, 589, 621, 622, 6, 23, 508, 689, 690, 714, 715, 717, 718, 5, 23, 25, 374, 380, 383, 503, 510, 5, 23, 25, 377, 380, 503, 510, 5, 23, 508, 689, 690, 714, 715, 717, 718, 23, 25, 431, 479, 508, 804, 23, 689, 713, 714, 715, 750, 804, 31, 136, 314, 339, 31, 72, 315, 23, 26, 55, 138, 199, 23, 26, 199, 317, 362, 23, 199, 436, 23, 199, 592, 23, 26, 199, 692, 23, 26, 199, 764, 23, 26, 199, 796, 23, 26, 199, 797, 23, 199, 436, 508, 23, 26, 317, 362, 436, 508, 23, 436, 508, 592, 23, 26, 436, 508, 692, 23, 26, 436, 508, 796, 23, 26, 436, 508, 797, 23, 26, 55, 138, 592, 23, 199, 592, 23, 26, 317, 362, 592, 23, 436, 592, 23, 26, 592, 692, 23, 26, 592, 764, 23, 26, 592, 796, 23, 26, 592, 797, 23, 26, 55, 138, 283, 23, 153, 283, 23, 26, 283, 317, 362, 23, 283, 437, 23, 283, 591, 23, 26, 283, 667, 711, 23, 26, 55, 138, 287, 23, 153, 287, 23, 26, 287, 317, 362, 23, 287, 437, 23, 287, 591, 23, 26, 287, 667, 711, 23, 151, 154, 693, 779, 23, 151, 155, 693, 779, 23, 26, 693, 796, 23, 26, 200, 774, 23, 26, 200, 794, 23, 204, 438, 23, 27, 204, 698, 23, 204, 288, 23, 288, 438, 23, 288, 595, 23, 27, 288, 698, 23, 204, 438, 508, 23, 438, 508, 595, 23, 27, 438, 508, 698, 23, 438, 595, 23, 27, 595, 698, 8, 23, 27, 204, 8, 23, 27, 438, 8, 23, 27, 595, 8, 23, 508, 698, 23, 74, 138, 697, 23, 28, 74, 138, 205, 23, 28, 205, 697, 23, 28, 205, 806, 23, 28, 74, 138, 440, 508, 23, 205, 274, 440, 508, 23, 440, 593, 23, 28, 440, 508, 697, 23, 28, 440, 508, 806, 23, 28, 74, 138, 593, 23, 205, 274, 593, 23, 28, 593, 697, 23, 28, 205, 274, 745, 23, 745, 806, 7, 23, 28, 205, 274, 7, 23, 28, 440, 7, 23, 28, 593, 7, 23, 508, 697, 10, 23, 75, 110, 112, 114, 117, 119, 138, 508, 10, 23, 29, 208, 250, 10, 23, 29, 441, 483, 484, 10, 23, 29, 596, 627, 10, 23, 508, 699, 719, 722, 10, 23, 508, 765, 10, 23, 29, 775, 23, 29, 77, 138, 443, 468, 493, 494, 495, 31, 77, 319, 23, 75, 114, 119, 138, 699, 23, 29, 212, 254, 255, 258, 746, 23, 746, 765, 23, 699, 740, 798, 23, 746, 798, 23, 699, 740, 807, 12, 23, 75, 114, 119, 138, 508, 12, 23, 29, 212, 254, 258, 12, 23, 29, 444, 12, 23, 29, 598, 632, 12, 23, 508, 699, 12, 23, 508, 766, 12, 23, 508, 798, 23, 443, 597, 23, 75, 110, 114, 115, 117, 119, 138, 508, 778, 23, 29, 212, 253, 254, 255, 256, 257, 258, 778, 23, 29, 441, 483, 484, 485, 486, 487, 778, 23, 29, 598, 630, 631, 633, 634, 635, 778, 23, 508, 670, 674, 675, 677, 678, 688, 740, 757, 778, 23, 508, 670, 674, 675, 676, 677, 678, 688, 740, 757, 778, 23, 766, 778, 9, 23, 75, 110, 112, 117, 119, 138, 508, 9, 23, 29, 208, 249, 250, 276, 9, 23, 29, 441, 483, 484, 485, 486, 9, 23, 29, 596, 626, 627, 23, 29, 212, 253, 254, 255, 256, 257, 258, 776, 23, 29, 441, 483, 484, 485, 486, 487, 776, 23, 29, 598, 630, 631, 632, 633, 634, 635, 776, 23, 699, 720, 721, 722, 723, 776, 23, 766, 776, 11, 23, 29, 442, 11, 23, 29, 596, 625, 626, 627, 23, 210, 289, 23, 289, 446, 23, 289, 599, 23, 29, 289, 700, 23, 29, 289, 766, 23, 210, 446, 508, 23, 446, 508, 599, 23, 29, 446, 508, 700, 23, 29, 446, 508, 766, 23, 210, 599, 23, 446, 599, 23, 29, 599, 700, 23, 29, 599, 766, 23, 79, 798, 799, 23, 79, 807, 808, 31, 81, 322, 23, 30, 407, 508, 767, 23, 79, 121, 122, 125, 126, 127, 702, 23, 702, 791, 23, 791, 798, 23, 791, 807, 13, 23, 29, 214, 13, 23, 29, 445, 13, 23, 29, 602, 23, 321, 702, 14, 23, 29, 213, 14, 23, 29, 445, 14, 23, 29, 601, 84, 132, 133, 134, 135, 787, 323, 351, 352, 354, 787, 703, 731, 732, 734, 787, 787, 798, 799, 82, 128, 129, 130, 131, 788, 328, 788, 701, 758, 759, 760, 761, 762, 788, 788, 809, 15, 16, 23, 30, 448, 499, 15, 23, 30, 545, 569, 570, 605, 646, 647, 648, 649, 650, 23, 217, 449, 23, 217, 449, 508, 23, 217, 604, 23, 449, 604, 23, 222, 453, 23, 30, 222, 706, 23, 30, 222, 768, 23, 222, 284, 23, 284, 453, 23, 30, 284, 706, 23, 30, 284, 768, 23, 30, 284, 808, 23, 222, 290, 23, 290, 453, 23, 290, 609, 23, 30, 290, 706, 23, 30, 290, 768, 23, 30, 290, 808, 23, 222, 453, 508, 23, 453, 508, 609, 23, 30, 453, 508, 706, 23, 30, 453, 508, 768, 23, 30, 453, 508, 808, 23, 222, 609, 23, 453, 609, 23, 30, 609, 706, 23, 30, 609, 768, 23, 30, 609, 808, 23, 705, 768, 23, 705, 798, 799, 23, 30, 453, 792, 23, 706, 792, 23, 792, 798, 799, 23, 792, 808, 23, 703, 730, 731, 732, 734, 741, 799, 23, 703, 793, 17, 23, 30, 224, 278, 279, 280, 282, 17, 23, 30, 457, 17, 23, 30, 609, 651, 652, 655, 17, 23, 508, 706, 736, 737, 739, 17, 23, 809, 16, 23, 30, 217, 16, 23, 30, 449, 16, 23, 30, 604, 23, 747, 808, 31, 83, 330, 356, 357, 358, 359, 31, 84, 323, 351, 352, 353, 354, 31, 84, 325, 31, 85, 323, 351, 353, 354, 23, 219, 224, 265, 266, 269, 278, 279, 280, 282, 608, 23, 452, 500, 518, 608, 23, 30, 608, 704, 731, 732, 1, 23, 30, 219, 224, 265, 266, 269, 278, 279, 280, 282, 1, 23, 30, 452, 500, 518, 1, 23, 30, 608, 1, 23, 508, 703, 731, 732, 1, 23, 508, 798, 799, 31, 45, 51, 324, 23, 87, 795, 23, 326, 795, 23, 223, 605, 646, 647, 23, 221, 452, 23, 30, 221, 704, 23, 30, 221, 769, 23, 221, 285, 23, 285, 452, 23, 30, 285, 704, 23, 30, 285, 769, 23, 221, 452, 508, 23, 30, 452, 508, 704, 23, 30, 452, 508, 769, 3, 23, 30, 220, 23, 741, 748, 798, 799, 2, 23, 30, 451, 500, 501, 502, 518, 2, 23, 30, 605, 646, 647, 648, 23, 455, 521, 523, 524, 777, 23, 777, 808, 82, 130, 131, 789, 323, 351, 352, 353, 354, 789, 701, 759, 760, 762, 789, 789, 809, 23, 220, 450, 23, 30, 220, 704, 23, 220, 450, 508, 23, 450, 508, 607, 23, 30, 450, 508, 704, 3, 23, 30, 451, 3, 23, 508, 703, 730, 3, 23, 508, 769, 3, 23, 508, 799, 23, 30, 451, 793, 23, 793, 799, 84, 132, 133, 134, 135, 790, 330, 357, 358, 359, 790, 674, 682, 790, 23, 41, 42, 96, 98, 138, 796, 41, 42, 89, 97, 98, 796, 23, 98, 299, 300, 302, 331, 335, 362, 796, 98, 294, 299, 300, 302, 331, 332, 335, 796, 377, 383, 504, 507, 508, 796, 23, 26, 373, 374, 434, 459, 462, 504, 508, 519, 520, 796, 23, 667, 669, 672, 756, 796, 23, 41, 55, 96, 98, 138, 669, 23, 41, 55, 96, 98, 138, 668, 23, 98, 300, 331, 335, 362, 669, 23, 98, 301, 331, 335, 362, 668, 23, 154, 382, 504, 507, 508, 23, 155, 383, 504, 507, 508, 23, 154, 382, 459, 508, 23, 155, 383, 459, 508, 23, 26, 383, 504, 507, 508, 669, 23, 26, 382, 504, 507, 508, 668, 23, 180, 434, 23, 25, 434, 508, 752, 23, 25, 429, 474, 475, 476, 477, 478, 508, 754, 23, 25, 429, 474, 475, 476, 477, 478, 508, 752, 753, 23, 25, 429, 474, 475, 476, 477, 478, 508, 754, 755, 23, 25, 429, 474, 475, 476, 477, 478, 508, 803, 23, 689, 713, 714, 715, 750, 803, 23, 378, 503, 585, 23, 186, 379, 508, 23, 429, 474, 475, 476, 477, 478, 508, 583, 23, 431, 479, 480, 481, 482, 508, 583, 23, 429, 474, 475, 476, 477, 478, 508, 582, 23, 431, 479, 480, 481, 482, 508, 582, 31, 45, 304, 23, 29, 304, 362, 444, 488, 489, 490, 491, 492, 508, 31, 46, 306, 23, 29, 306, 362, 444, 488, 489, 490, 491, 492, 508, 31, 47, 305, 23, 29, 305, 362, 444, 488, 489, 490, 491, 492, 508, 23, 765, 798, 23, 29, 212, 253, 254, 255, 256, 257, 258, 798, 23, 29, 211, 218, 259, 261, 262, 263, 264, 798, 23, 29, 219, 265, 266, 267, 268, 269, 798, 23, 29, 212, 253, 254, 255, 256, 257, 258, 807, 23, 29, 211, 218, 259, 261, 262, 263, 264, 807, 23, 29, 219, 265, 266, 267, 268, 269, 807, 23, 29, 448, 496, 497, 498, 499, 506, 508, 514, 798, 23, 29, 451, 500, 501, 502, 508, 518, 798, 23, 29, 444, 489, 490, 491, 492, 508, 798, 23, 29, 508, 515, 516, 517, 798, 23, 29, 448, 496, 497, 498, 499, 506, 508, 514, 807, 23, 29, 451, 500, 501, 502, 508, 518, 807, 23, 29, 444, 488, 489, 490, 491, 492, 508, 807, 31, 48, 308, 31, 49, 307, 31, 57, 312, 23, 64, 138, 699, 719, 720, 721, 722, 723, 23, 64, 702, 724, 725, 726, 727, 728, 729, 23, 30, 451, 502, 508, 518, 769, 23, 30, 451, 500, 502, 508, 518, 768, 23, 30, 451, 508, 518, 770, 23, 30, 451, 508, 518, 771, 23, 30, 451, 501, 502, 508, 518, 799, 23, 30, 451, 500, 501, 502, 508, 518, 808, 23, 703, 730, 731, 732, 733, 741, 808, 23, 705, 735, 736, 737, 738, 739, 741, 808, 23, 701, 741, 758, 759, 760, 761, 762, 808, 23, 703, 730, 731, 732, 733, 734, 741, 809, 23, 705, 735, 736, 737, 738, 739, 741, 809, 23, 701, 741, 758, 759, 760, 761, 762, 809, 430, 780, 432, 781, 436, 782, 440, 783, 775, 784, 445, 785, 452, 786, 19, 139, 143, 147, 149, 151, 154, 155, 158, 160, 162, 167, 168, 176, 191, 192, 229, 230, 277, 22, 142, 143, 147, 149, 151, 154, 155, 159, 161, 163, 167, 168, 176, 191, 192, 229, 230, 277, 20, 140, 143, 149, 152, 155, 158, 160, 163, 167, 169, 176, 191, 192, 229, 230, 277, 20, 140, 143, 149, 153, 156, 158, 160, 163, 167, 169, 176, 191, 192, 229, 230, 275, 277, 779, 21, 141, 143, 147, 149, 152, 155, 158, 160, 163, 167, 169, 176, 191, 192, 229, 230, 277, 20, 223, 270, 271, 272, 273, 21, 223, 270, 271, 272, 273, 22, 223, 270, 271, 272, 273, 21, 224, 278, 279, 280, 281, 282, 22, 224, 278, 279, 280, 281, 282, 19, 223, 270, 271, 272, 273, 22, 219, 265, 266, 267, 268, 269, 19, 224, 278, 279, 280, 281, 282, 20, 224, 278, 279, 280, 281, 282, 19, 219, 265, 266, 267, 268, 269, 20, 219, 265, 266, 267, 268, 269, 21, 219, 265, 266, 267, 268, 269, 21, 141, 143, 147, 149, 153, 156, 158, 160, 163, 167, 169, 176, 191, 192, 229, 230, 275, 277, 779, 158, 160, 161, 165, 169, 209, 421, 515, 516, 517, 420, 515, 516, 517, 176, 191, 177, 191, 546, 554, 598, 630, 631, 632, 633, 634, 548, 555, 598, 630, 631, 632, 633, 634, 550, 556, 598, 630, 631, 632, 633, 634, 407, 504, 417, 504, 465, 466, 669, 689, 711, 713, 714, 715, 668, 689, 711, 713, 714, 715, 677, 688, 699, 719, 720, 721, 722, 723, 740, 757, 17, 18, 12, 23, 444, 3, 23, 451, 143, 145, 149, 152, 155, 159, 161, 166, 167, 176, 183, 191, 192, 229, 230, 277, 143, 145, 149, 153, 156, 159, 161, 165, 167, 176, 183, 191, 192, 229, 230, 275, 277, 779, 363, 372, 373, 374, 375, 377, 382, 387, 391, 402, 407, 412, 417, 504, 511, 512, 513, 519, 363, 372, 373, 374, 375, 377, 382, 387, 391, 402, 407, 412, 415, 417, 422, 465, 504, 511, 512, 513, 519, 407, 416, 408, 414, 416, 418, 466, 504, 386, 414, 416, 421, 466, 504, 411, 414, 416, 418, 466, 504, 566, 580, 567, 580, 23, 455, 521, 522, 523, 524, 525, 809};
pfloat lp_25fv47_Apr[10705] = {1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000222e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000222e+00, 1.000000000000000222e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000222e+00, 1.000000000000000222e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000222e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000222e+00, 9.999999999999998890e-01, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000222e+00, 9.999999999999998890e-01, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000222e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000222e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 1.000000000000000222e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000222e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000222e+00, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000222e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 9.999999999999997780e-01, 9.999999999999998890e-01, 1.000000000000000000e+00, 9.999999999999998890e-01, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 9.999999999999998890e-01, 1.000000000000000000e+00, 9.999999999999998890e-01, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000222e+00, 1.000000000000000222e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000222e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999997780e-01, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000222e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000222e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -9.999999999999997780e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000222e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -9.999999999999998890e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -9.999999999999998890e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -2.000000000000000042e-02, -2.000000000000000042e-02, -2.000000000000000042e-02, 5.999999999999999778e-02, 1.000000000000000000e+00, -1.000000000000000222e+00, -2.000000000000000042e-02, -2.000000000000000042e-02, -2.000000000000000042e-02, 5.999999999999999778e-02, 1.000000000000000000e+00, -9.999999999999998890e-01, -2.000000000000000042e-02, -2.000000000000000042e-02, -2.000000000000000042e-02, -2.000000000000000042e-02, 5.999999999999999778e-02, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -9.999999999999998890e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.499999999999999944e-01, 8.499999999999999778e-01, -1.000000000000000000e+00, 1.000000000000000056e-01, 9.000000000000000222e-01, -1.000000000000000000e+00, 1.000000000000000056e-01, 9.000000000000000222e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.658000000000000140e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.658000000000000140e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.658000000000000140e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.658000000000000140e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.658000000000000140e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.645999999999999908e+00, 9.999999999999998890e-01, 1.657999999999999918e+00, -9.999999999999998890e-01, 1.000000000000000000e+00, -5.000000000000000000e+00, 1.658000000000000140e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.658000000000000140e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.658000000000000140e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.562000000000000055e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.012499999999999956e+00, 1.669999999999999818e-01, 6.000000000000000472e-02, 4.500000000000000527e-02, 1.000000000000000056e-01, 9.000000000000001055e-02, 1.160000000000000198e-01, 4.040000000000000813e-01, 1.799999999999999864e-02, -2.229999999999999691e-02, 1.129999999999999893e+00, 1.130000000000000115e+00, 1.011500000000000066e+00, 3.699999999999999817e-02, 1.509999999999999676e-01, 5.299999999999999850e-02, 8.800000000000000877e-02, 8.000000000000000167e-02, 1.039999999999999952e-01, 4.670000000000000262e-01, 2.000000000000000042e-02, -2.169999999999999707e-02, 1.020000000000000018e+00, 1.020000000000000018e+00, 1.008499999999999952e+00, 1.310000000000000053e-01, 4.200000000000000261e-02, 3.300000000000000155e-02, 7.599999999999999811e-02, 9.099999999999999756e-02, 5.999999999999999778e-02, 5.460000000000000409e-01, 2.100000000000000130e-02, -2.230000000000000038e-02, 9.999999999999998890e-01, -1.010000000000000064e-01, 1.012499999999999734e+00, 1.920000000000000040e-01, 6.999999999999999278e-02, 4.799999999999999406e-02, 1.149999999999999772e-01, 1.129999999999999893e-01, 7.399999999999998246e-02, 3.549999999999999822e-01, 3.300000000000000155e-02, -2.230000000000000038e-02, 1.250000000000000000e+00, 1.011499999999999844e+00, 5.330000000000000293e-01, 3.699999999999999123e-02, 1.469999999999999363e-01, 3.699999999999999123e-02, 7.999999999999998779e-02, 7.399999999999998246e-02, 7.299999999999999545e-02, 1.899999999999999953e-02, -2.229999999999999344e-02, 9.999999999999997780e-01, 9.999999999999997780e-01, -1.051999999999999780e+01, 1.000000000000000000e+00, -1.526999999999999602e+01, 1.000000000000000000e+00, -1.000000000000000222e+00, 1.000000000000000222e+00, 5.169999999999999041e+00, -5.410000000000000364e-01, -1.551598970000000293e+02, 2.182599960000000294e+02, 9.550999900000000764e+01, -1.000000000000000222e+00, 1.000000000000000000e+00, -1.896000000000000085e+01, -7.339999999999999858e-01, -1.551598970000000293e+02, 2.182599960000000294e+02, 9.550999900000000764e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, 3.378999999999999915e+01, -5.989999999999999769e-01, -1.408000000000000185e+01, -1.477999999999999936e+01, -6.899000000000000021e+00, -9.999999999999997780e-01, 2.000000000000000042e-02, 1.490000000000000213e-01, 2.410000000000000198e-01, -1.150000000000000189e-01, 5.899999999999999689e-01, 1.405000000000000249e+00, 3.900000000000000688e-01, -2.420000000000000207e-01, -3.855000000000000426e+00, -4.700000000000001066e+00, -3.550000000000000711e+00, -1.000000000000000000e+00, 2.000000000000000042e-02, 1.490000000000000213e-01, 1.120000000000000162e-01, -8.200000000000000344e-02, 7.190000000000001945e-01, 1.116999999999999771e+00, -7.800000000000001377e-01, -4.139999999999999791e-01, 9.720000000000000862e-01, -1.322000000000000242e+01, -4.471000000000000973e+00, -9.999999999999997780e-01, 2.000000000000000389e-02, 4.460000000000000075e-01, 1.529999999999999971e-01, -7.400000000000001021e-02, 3.810000000000000053e-01, 8.009999999999999343e-01, 2.399999999999999634e-01, -1.529999999999999971e-01, 7.320000000000000284e+00, -4.000000000000000000e+00, -2.240000000000000213e+00, -1.000000000000000000e+00, 2.000000000000000042e-02, 4.460000000000001186e-01, 4.300000000000000350e-02, -5.270000000000000379e-02, 4.910000000000001030e-01, 8.790000000000000036e-01, -5.200000000000000178e-01, -2.770000000000000795e-01, 1.625000000000000355e+01, -1.040000000000000036e+01, -2.990000000000001101e+00, -9.999999999999998890e-01, 2.000000000000000042e-02, 1.490000000000000213e-01, 1.910000000000000309e-01, -1.098999999999999838e-01, 6.400000000000000133e-01, 1.245000000000000329e+00, 3.729999999999999982e+00, -2.660000000000000142e-01, -1.695999999999999952e+00, -8.060000000000002274e+00, -3.899999999999999911e+00, -1.000000000000000000e+00, 2.000000000000000042e-02, 1.490000000000000213e-01, 1.910000000000000309e-01, -1.098999999999999977e-01, 6.400000000000001243e-01, 1.245000000000000329e+00, -7.969999999999999751e+00, -3.609999999999999876e-01, -1.696000000000000174e+00, -8.060000000000002274e+00, -3.900000000000000799e+00, -9.999999999999997780e-01, 2.000000000000000389e-02, 4.460000000000000631e-01, 8.300000000000000433e-02, -7.060000000000000997e-02, 4.510000000000000675e-01, 9.390000000000001679e-01, 2.580000000000000515e+00, -1.840000000000000246e-01, 1.172000000000000242e+01, -6.910000000000001918e+00, -2.695000000000000284e+00, -9.999999999999997780e-01, 2.000000000000000389e-02, 4.460000000000000631e-01, 8.300000000000000433e-02, -7.060000000000000997e-02, 4.510000000000000675e-01, 9.390000000000001679e-01, -5.509999999999998899e+00, -2.489999999999999714e-01, 1.172000000000000242e+01, -6.910000000000001918e+00, -2.695000000000000284e+00, -7.449999999999998845e-01, -2.549999999999999489e-01, 2.000000000000000042e-02, 8.300000000000000433e-02, 2.069999999999999618e-01, -1.239999999999999852e-01, 6.899999999999999467e-01, 1.447000000000000064e+00, 4.500000000000000111e-01, -2.790000000000000258e-01, 3.559999999999999609e+00, -8.720000000000000639e+00, -4.089999999999998970e+00, -7.449999999999998845e-01, -2.550000000000000600e-01, 2.000000000000000389e-02, 8.300000000000000433e-02, 6.900000000000001965e-02, -8.800000000000000877e-02, 8.280000000000000693e-01, 1.068000000000000060e+00, -8.800000000000002265e-01, -4.700000000000000844e-01, 8.832000000000004292e+00, -2.020000000000000284e+01, -5.078000000000001180e+00, -7.449999999999999956e-01, -2.550000000000000044e-01, 2.000000000000000042e-02, 2.499999999999999722e-01, 1.249999999999999861e-01, -1.009999999999999926e-01, 6.049999999999999822e-01, 1.161999999999999700e+00, 3.800000000000000044e-01, -2.399999999999999911e-01, 2.068199999999999861e+01, -9.119999999999999218e+00, -3.519999999999999574e+00, -7.449999999999999956e-01, -2.550000000000000044e-01, 2.000000000000000042e-02, 2.500000000000000555e-01, 3.899999999999999994e-02, -7.199999999999999456e-02, 6.910000000000000586e-01, 8.580000000000002069e-01, -7.199999999999999734e-01, -3.840000000000000635e-01, 2.980000000000000782e+01, -1.868999999999999773e+01, -4.152999999999999581e+00, -7.469999999999998863e-01, -2.530000000000000027e-01, 2.000000000000000389e-02, 1.000000000000000194e-01, 1.849999999999999978e-01, -1.160000000000000059e-01, 6.949999999999999512e-01, 1.239000000000000545e+00, 4.000000000000000000e+00, -2.849999999999999756e-01, 3.632000000000000561e+00, -1.126000000000000156e+01, -4.176999999999999602e+00, -7.469999999999999973e-01, -2.530000000000000027e-01, 2.000000000000000389e-02, 1.000000000000000194e-01, 1.849999999999999700e-01, -1.159999999999999920e-01, 6.950000000000000622e-01, 1.239000000000000323e+00, -8.539999999999999147e+00, -3.860000000000000098e-01, 3.632000000000000561e+00, -1.125999999999999801e+01, -4.176999999999999602e+00, -7.469999999999998863e-01, -2.529999999999999472e-01, 2.000000000000000042e-02, 9.999999999999999167e-02, 1.849999999999999700e-01, -1.310000000000000053e-01, 3.469999999999999196e-01, 3.479999999999999205e-01, 1.238999999999999879e+00, -2.069999999999999840e+00, -1.290000000000000036e-01, 1.858499999999999730e+01, -1.206000000000000050e+01, -3.964999999999999414e+00, 2.959999999999999964e+00, -2.099999999999999645e-01, -7.259999999999998899e+00, -1.629999999999999671e+00, -7.900000000000000355e-01, -7.449999999999999956e-01, -2.550000000000000044e-01, 1.999999999999999348e-02, 2.499999999999999722e-01, 8.799999999999999489e-02, -9.659999999999997755e-02, 6.419999999999999041e-01, 9.999999999999998890e-01, 3.620000000000000107e+00, -2.579999999999999516e-01, 2.385999999999999943e+01, -1.266999999999999815e+01, -3.786000000000000476e+00, -7.449999999999999956e-01, -2.550000000000000044e-01, 1.999999999999999348e-02, 2.499999999999999722e-01, 8.799999999999999489e-02, -9.659999999999997755e-02, 6.420000000000000151e-01, 9.999999999999998890e-01, -7.739999999999998437e+00, -3.499999999999999223e-01, 2.385999999999999943e+01, -1.266999999999999815e+01, -3.786000000000000476e+00, -7.449999999999999956e-01, -2.550000000000000044e-01, 2.000000000000000042e-02, 2.500000000000000555e-01, 8.800000000000000877e-02, -1.086000000000000021e-01, 3.210000000000000075e-01, 3.210000000000000075e-01, 1.000000000000000222e+00, -1.879999999999999671e+00, -1.179999999999999938e-01, 2.062500000000000000e+01, -1.094999999999999929e+01, -3.600000000000000089e+00, 2.229999999999999982e+00, -1.900000000000000022e-01, -2.229999999999999982e+00, -3.080000000000000515e+00, -7.139999999999998570e-01, -7.469999999999998863e-01, -2.530000000000000582e-01, 2.000000000000000042e-02, 9.999999999999999167e-02, 2.489999999999999991e-01, -1.219999999999999973e-01, 6.309999999999998943e-01, 1.437999999999999945e+00, 4.099999999999998646e-01, -2.550000000000000044e-01, 2.442000000000000615e+00, -5.699999999999999289e+00, -3.739999999999999769e+00, -7.469999999999996643e-01, -2.530000000000000027e-01, 2.000000000000000042e-02, 1.000000000000000194e-01, 9.900000000000000466e-02, -8.700000000000000788e-02, 7.809999999999999165e-01, 1.061999999999999833e+00, -8.299999999999997380e-01, -4.430000000000000049e-01, 7.287000000000001698e+00, -1.842999999999999972e+01, -4.788999999999999702e+00, -7.469999999999998863e-01, -2.530000000000000582e-01, 2.000000000000000389e-02, 2.999999999999999334e-01, 1.390000000000000402e-01, -9.400000000000001410e-02, 5.410000000000000364e-01, 1.172000000000000375e+00, 3.400000000000000799e-01, -2.150000000000000522e-01, 1.712500000000000711e+01, -7.540000000000000036e+00, -3.149999999999999911e+00, -7.469999999999997753e-01, -2.530000000000000027e-01, 1.999999999999999695e-02, 2.999999999999999889e-01, 4.500000000000000527e-02, -6.710000000000000686e-02, 6.349999999999997868e-01, 8.720000000000001084e-01, -6.600000000000000311e-01, -3.529999999999999805e-01, 2.572999999999999687e+01, -1.667999999999999616e+01, -3.817999999999999616e+00, -7.449999999999998845e-01, -2.550000000000000044e-01, 2.000000000000000042e-02, 8.300000000000000433e-02, 1.620000000000000051e-01, -1.189999999999999808e-01, 7.349999999999999867e-01, 1.246000000000000218e+00, 4.229999999999999538e+00, -3.009999999999999898e-01, 4.805000000000000604e+00, -1.249000000000000021e+01, -4.421000000000001151e+00, -7.449999999999999956e-01, -2.550000000000000044e-01, 2.000000000000000042e-02, 8.300000000000001821e-02, 1.620000000000000329e-01, -1.190000000000000085e-01, 7.350000000000000977e-01, 1.245999999999999774e+00, -9.030000000000001137e+00, -4.090000000000000302e-01, 4.805000000000000604e+00, -1.258999999999999986e+01, -4.421000000000001151e+00, -7.449999999999999956e-01, -2.550000000000000044e-01, 2.000000000000000389e-02, 8.300000000000001821e-02, 1.619999999999999774e-01, -1.330000000000000071e-01, 3.670000000000000484e-01, 3.679999999999999383e-01, 1.245999999999999996e+00, -2.180000000000000604e+00, -1.370000000000000384e-01, 1.962000000000000099e+01, -1.272999999999999865e+01, -4.186000000000000831e+00, 3.130000000000000338e+00, -2.220000000000000029e-01, -7.830000000000000071e+00, -2.350000000000000089e+00, -8.350000000000002975e-01, -7.469999999999999973e-01, -2.530000000000000027e-01, 1.999999999999999695e-02, 3.000000000000000444e-01, 9.000000000000001055e-02, -9.000000000000001055e-02, 5.899999999999999689e-01, 1.000000000000000000e+00, 3.329999999999999627e+00, -2.369999999999999885e-01, 2.041199999999999903e+01, -1.118999999999999950e+01, -3.478000000000000203e+00, -7.469999999999999973e-01, -2.530000000000000027e-01, 1.999999999999999695e-02, 3.000000000000000444e-01, 9.000000000000001055e-02, -9.000000000000001055e-02, 5.899999999999999689e-01, 1.000000000000000000e+00, -7.110000000000000320e+00, -3.220000000000000084e-01, 2.041199999999999903e+01, -1.118999999999999950e+01, -3.478000000000000203e+00, -7.469999999999998863e-01, -2.530000000000000027e-01, 2.000000000000000042e-02, 3.000000000000000444e-01, 8.999999999999998279e-02, -1.010999999999999677e-01, 2.949999999999999845e-01, 2.949999999999999845e-01, 1.000000000000000000e+00, -1.729999999999999760e+00, -1.079999999999999710e-01, 1.897500000000000142e+01, -1.007000000000000206e+01, -3.311999999999999389e+00, 2.049999999999999378e+00, -1.739999999999999880e-01, -2.049999999999999378e+00, -2.339999999999999858e+00, -6.560000000000000275e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, -9.269999999999999574e+00, 7.820000000000001172e+00, -3.500000000000000000e+00, 3.389000000000000057e+01, -1.600000000000000355e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -9.269999999999999574e+00, 7.820000000000000284e+00, 3.389000000000000057e+01, -1.600000000000000355e+01, -1.000000000000000000e+00, 9.999999999999998890e-01, -1.398000000000000220e+01, 1.014999999999999858e+01, 3.389000000000000057e+01, -1.350000000000000000e+01, -2.000000000000000355e+01, -1.400000000000000178e+01, -2.150000000000000000e+01, 2.700000000000000178e-01, -4.199999999999999845e-01, -3.300000000000000155e-01, -5.200000000000000178e-01, 1.000000000000000000e+00, 5.000000000000000000e-01, -7.000000000000000666e-02, -2.899999999999999800e-01, -2.300000000000000100e-01, -4.099999999999999756e-01, 1.000000000000000000e+00, 5.999999999999999778e-01, 5.000000000000000000e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, -9.269999999999999574e+00, 7.820000000000001172e+00, -3.500000000000000000e+00, 3.389000000000000057e+01, -1.600000000000000355e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -9.269999999999999574e+00, 7.820000000000000284e+00, 3.389000000000000057e+01, -1.600000000000000355e+01, -1.000000000000000000e+00, 9.999999999999998890e-01, -1.398000000000000220e+01, 1.014999999999999858e+01, 3.389000000000000057e+01, -1.350000000000000000e+01, -2.000000000000000355e+01, -1.400000000000000178e+01, -2.150000000000000000e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -4.400000000000000022e-01, -6.500000000000000222e-01, 8.999999999999999667e-02, 1.000000000000000000e+00, -1.000000000000000000e+00, -4.090000000000000580e-02, 9.970000000000002194e-01, 9.329999999999998295e-01, -4.759999999999999787e+00, 3.310000000000000497e+00, 2.299999999999999822e+00, -1.196000000000000085e+01, -1.000000000000000222e+00, 1.000000000000000000e+00, -4.459999999999999964e+00, 3.009999999999999343e+00, -2.000000000000000444e+00, 2.299999999999999822e+00, -1.199999999999999822e+01, -9.999999999999998890e-01, 9.999999999999997780e-01, -9.150000000000000355e+00, 5.320000000000000284e+00, 2.299999999999999822e+00, -1.199999999999999822e+01, -1.599999999999999822e+01, -1.400000000000000000e+01, -1.899999999999999645e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -2.696000000000000085e+01, 2.614999999999999503e+01, -2.200000000000000000e+01, -6.900000000000000000e+01, -9.999999999999997780e-01, 9.999999999999997780e-01, -2.696000000000000085e+01, 2.614999999999999503e+01, -3.049999999999999645e+01, -6.000000000000000000e+01, -1.000000000000000000e+00, -4.089999999999999886e-02, 9.870000000000000995e-01, 9.999999999999998890e-01, -2.859999999999999765e-01, -1.139999999999999902e+00, -3.130000000000000338e+00, -9.870000000000000995e-01, -9.999999999999998890e-01, 9.999999999999998890e-01, 7.100000000000000755e-01, -2.160000000000000142e+00, 2.750000000000000000e+00, -3.169999999999999929e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, 9.999999999999998890e-01, -3.980000000000000870e+00, 1.499999999999999667e-01, -3.169999999999999485e+00, -7.250000000000000000e+00, -5.000000000000000888e+00, -1.400000000000000000e+01, -1.499999999999999822e+01, -1.000000000000000000e+00, 9.999999999999998890e-01, -1.905999999999999517e+01, 1.824999999999999645e+01, -1.725000000000000000e+01, -5.299999999999999289e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.906000000000000583e+01, 1.825000000000000000e+01, -2.574999999999999645e+01, -4.400000000000000000e+01, -1.000000000000000000e+00, -4.089999999999999886e-02, 9.799999999999999822e-01, 1.004999999999999671e+00, -1.569999999999999840e+00, 1.400000000000000133e-01, -3.189999999999999947e+00, -1.469999999999999973e+00, -9.999999999999998890e-01, 1.000000000000000000e+00, -1.449999999999999734e+00, 6.500000000000000000e+00, -3.259999999999998899e+00, -1.499999999999999556e+00, -9.999999999999998890e-01, 1.000000000000000000e+00, -4.690000000000001279e+00, 8.600000000000000977e-01, -3.259999999999999787e+00, -3.499999999999999556e+00, -5.500000000000000000e+00, -1.400000000000000000e+01, -1.599999999999999645e+01, -1.000000000000000000e+00, 9.999999999999998890e-01, -1.895999999999999730e+01, 1.814999999999999503e+01, -1.349999999999999467e+01, -5.400000000000000000e+01, -1.000000000000000222e+00, 1.000000000000000222e+00, -1.896000000000000441e+01, 1.814999999999999858e+01, -2.200000000000000000e+01, -4.500000000000000000e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -5.399999999999999939e-02, 2.299999999999999961e-02, 3.099999999999999978e-02, -9.999999999999998890e-01, -4.089999999999999886e-02, 9.760000000000000897e-01, 1.834999999999999964e+00, 2.329999999999999627e+00, -3.750000000000000000e+00, -3.509999999999999343e+00, 2.050000000000000000e+01, -9.999999999999998890e-01, 1.000000000000000000e+00, 4.149999999999999467e+00, -5.599999999999999645e+00, 8.500000000000000000e+00, -3.599999999999999201e+00, 2.099999999999999645e+01, -9.999999999999998890e-01, 9.999999999999998890e-01, -5.399999999999999245e-01, -3.289999999999999147e+00, -3.600000000000000089e+00, -1.499999999999999778e+00, 1.700000000000000000e+01, -1.400000000000000000e+01, -9.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000222e+00, -1.235999999999999943e+01, 1.154999999999999893e+01, -1.150000000000000178e+01, -3.000000000000000711e+01, -9.999999999999997780e-01, 9.999999999999997780e-01, -1.236000000000000121e+01, 1.154999999999999893e+01, -1.999999999999999645e+01, -2.099999999999999645e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -5.399999999999999939e-02, 2.299999999999999961e-02, 3.099999999999999978e-02, -1.000000000000000000e+00, -4.089999999999999886e-02, 9.639999999999999680e-01, 1.834999999999999742e+00, 6.629999999999999005e+00, -2.770000000000000462e+00, -3.459999999999999520e+00, 2.505999999999999872e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, 4.149999999999999467e+00, -5.599999999999999645e+00, 1.450000000000000178e+01, -3.589999999999999858e+00, 2.600000000000000355e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -5.400000000000001465e-01, -3.290000000000000036e+00, -3.590000000000000302e+00, 4.500000000000000000e+00, 2.200000000000000000e+01, -1.400000000000000000e+01, -6.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.156000000000000405e+01, 1.074999999999999822e+01, -5.500000000000000888e+00, -2.499999999999999645e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.156000000000000050e+01, 1.074999999999999822e+01, -1.399999999999999822e+01, -1.600000000000000355e+01, -1.000000000000000000e+00, 8.100000000000000255e-02, 5.080000000000000071e-01, 4.010000000000000231e-01, 1.000000000000000021e-02, -2.899999999999999800e-03, 9.999999999999998890e-01, -9.999999999999997780e-01, 9.999999999999998890e-01, 3.439999999999999503e+00, -4.249999999999999112e+00, 4.999999999999999445e-01, 1.499999999999999822e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, 3.439999999999999947e+00, -4.249999999999999112e+00, -7.999999999999998224e+00, 2.399999999999999645e+01, -1.000000000000000000e+00, 6.800000000000000488e-02, 4.269999999999999907e-01, 4.949999999999999956e-01, 1.000000000000000021e-02, -2.899999999999999800e-03, 9.489999999999998437e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 5.639999999999999680e+00, -6.450000000000000178e+00, 8.500000000000000000e+00, 4.000000000000000888e+00, -9.999999999999998890e-01, 1.129999999999999893e-01, 5.450000000000000400e-01, 3.320000000000000173e-01, 1.000000000000000021e-02, -3.200000000000000153e-03, 1.073999999999999844e+00, -1.000000000000000222e+00, 1.089999999999999997e-01, 5.100000000000001199e-01, 3.709999999999999964e-01, 1.000000000000000194e-02, -3.200000000000000587e-03, 1.008000000000000007e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -5.600000000000001643e-01, -2.499999999999999722e-01, 5.000000000000000000e-01, 2.200000000000000000e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.339999999999999858e+00, -2.149999999999999911e+00, 3.499999999999999556e+00, 8.000000000000000000e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, -5.600000000000000533e-01, -2.500000000000000000e-01, -7.999999999999999112e+00, 3.100000000000000355e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.340000000000000746e+00, -2.149999999999999911e+00, -5.000000000000000000e+00, 1.700000000000000000e+01, -1.000000000000000000e+00, 1.000000000000000222e+00, 2.991000000000000369e+01, -4.939999999999999947e-01, -1.023101000000000198e+02, 8.358009900000000414e+01, 1.007400000000000340e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, 7.870000000000000107e+00, -6.700000000000002620e-01, -1.023101000000000198e+02, 8.358009900000000414e+01, 1.007400000000000340e+01, -1.000000000000000000e+00, 9.999999999999997780e-01, 4.553999999999999915e+01, -4.679999999999999716e-01, -7.464989900000000489e+01, 4.179999999999999716e+01, -1.641999999999999682e+00, -1.000000000000000222e+00, 1.000000000000000000e+00, 2.463000000000000256e+01, -6.350000000000000089e-01, -7.464989900000001910e+01, 4.179999999999999716e+01, -1.641999999999999904e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -3.399999999999999550e-02, 1.499999999999999944e-02, 1.899999999999999953e-02, -1.000000000000000000e+00, 1.000000000000000222e+00, 6.129999999999999005e+00, -7.580000000000000071e+00, 1.650000000000000000e+01, -3.520000000000000462e+00, 1.700000000000000000e+01, -1.000000000000000000e+00, 9.999999999999998890e-01, 1.429999999999999938e+00, -5.260000000000000675e+00, -3.520000000000000462e+00, 6.500000000000000000e+00, 1.300000000000000178e+01, -1.399999999999999822e+01, 1.000000000000000000e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, -1.255999999999999694e+01, 1.175000000000000000e+01, -3.500000000000000000e+00, -3.500000000000000000e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.256000000000000227e+01, 1.175000000000000000e+01, -1.200000000000000178e+01, -2.599999999999999645e+01, -1.000000000000000000e+00, 2.550000000000000044e-01, 5.799999999999998906e-02, 2.400000000000000189e-01, 8.200000000000000344e-02, 6.500000000000000222e-02, 7.599999999999999811e-02, 1.539999999999999980e-01, 1.169999999999999707e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.819999999999999951e-01, 5.899999999999998995e-02, 2.399999999999999911e-01, 2.530000000000000027e-01, 7.000000000000000666e-02, 7.599999999999999811e-02, 6.500000000000000222e-02, 9.200000000000001510e-01, 3.699999999999999956e-01, -1.000000000000000222e+00, 4.800000000000000377e-01, 2.500000000000000444e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 5.499999999999999334e-01, 1.099999999999999867e-01, -1.000000000000000000e+00, 1.700000000000000122e-01, 2.830000000000000071e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, 7.699999999999998512e-02, 1.930000000000000049e-01, 3.279999999999999583e-01, 7.999999999999998432e-03, 9.999999999999998040e-04, -5.999999999999999258e-03, 2.759999999999999676e-01, 1.170000000000000207e-01, 2.879999999999999893e+00, -3.099999999999999201e+00, 6.349999999999999645e+00, 1.100000000000000089e+00, -9.999999999999997780e-01, 1.000000000000000000e+00, 1.422999999999999687e+01, -1.503999999999999559e+01, 8.699999999999999289e+00, -3.399999999999999289e+01, -1.539999999999999702e-01, -8.459999999999999742e-01, 2.000000000000000096e-04, 1.000000000000000000e+00, -7.799999999999998601e-02, 1.239000000000000057e+01, -1.319999999999999751e+01, 7.000000000000000888e+00, -2.100000000000000000e+01, -1.000000000000000222e+00, 1.000000000000000222e+00, 1.423000000000000398e+01, -1.503999999999999737e+01, 2.000000000000000389e-01, -2.500000000000000000e+01, -1.539999999999999980e-01, -8.459999999999999742e-01, 2.000000000000000096e-04, 9.999999999999997780e-01, -7.799999999999997213e-02, 1.239000000000000234e+01, -1.319999999999999751e+01, -1.500000000000000222e+00, -1.200000000000000178e+01, -9.999999999999998890e-01, 9.999999999999998890e-01, 1.447000000000000597e+01, -1.527999999999999936e+01, 1.950000000000000000e+01, -3.099999999999999645e+01, -1.300000000000000044e-01, -8.699999999999999956e-01, 1.999999999999999825e-04, 1.000000000000000000e+00, -1.319999999999999785e-01, 1.273000000000000043e+01, -1.353999999999999559e+01, 1.719999999999999929e+01, -1.700000000000000000e+01, -9.999999999999997780e-01, 9.999999999999998890e-01, 9.130000000000000782e+00, -9.939999999999997726e+00, 6.799999999999998934e+00, -3.800000000000000000e+01, -1.859999999999999987e-01, -8.139999999999999458e-01, 4.000000000000001276e-04, 1.000000000000000000e+00, -5.000000000000000278e-02, 7.800000000000001599e+00, -8.610000000000001208e+00, 5.200000000000001066e+00, -2.800000000000000000e+01, -1.000000000000000000e+00, 1.000000000000000222e+00, 9.039999999999999147e+00, -9.849999999999997868e+00, 1.049999999999999822e+01, -3.999999999999999289e+01, -1.759999999999999898e-01, -8.239999999999997327e-01, 4.000000000000000734e-04, 1.000000000000000222e+00, -9.000000000000001055e-02, 7.940000000000001279e+00, -8.750000000000000000e+00, 9.300000000000000711e+00, -3.000000000000000711e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, 9.130000000000004334e+00, -9.939999999999999503e+00, -1.700000000000000400e+00, -2.900000000000000355e+01, -1.859999999999999987e-01, -8.139999999999999458e-01, 4.000000000000000192e-04, 1.000000000000000000e+00, -5.000000000000000278e-02, 7.800000000000000711e+00, -8.609999999999999432e+00, -3.299999999999999822e+00, -1.900000000000000000e+01, -9.999999999999997780e-01, 9.999999999999998890e-01, 9.040000000000000924e+00, -9.849999999999999645e+00, 1.999999999999999778e+00, -3.100000000000000355e+01, -1.759999999999999620e-01, -8.239999999999999547e-01, 4.000000000000000192e-04, 9.999999999999998890e-01, -8.999999999999998279e-02, 7.940000000000000391e+00, -8.749999999999998224e+00, 7.999999999999999334e-01, -2.100000000000000000e+01, -9.999999999999997780e-01, 1.000000000000000000e+00, -2.799999999999999711e-01, -4.449999999999999512e-01, -3.403000000000000114e+01, 1.800000000000000000e+01, 4.111999999999999211e+00, -9.999999999999997780e-01, 1.000000000000000000e+00, -2.013999999999999702e+01, -6.039999999999998703e-01, -3.403199999999999648e+01, 1.800000000000000355e+01, 4.112000000000000099e+00, -1.000000000000000222e+00, 1.000000000000000222e+00, -2.399999999999999911e-01, -3.800000000000001155e-01, 9.089989900000001910e+01, -3.280000000000000426e+01, -9.938000000000002387e+00, -9.999999999999998890e-01, 2.499999999999999722e-01, 7.500000000000000000e-01, -1.900000000000000022e-01, -2.980000000000000426e-01, 4.270000000000000995e+01, -2.450000000000000355e+01, -8.160000000000001918e+00, -1.000000000000000222e+00, 1.000000000000000000e+00, -1.721000000000000441e+01, -5.160000000000000142e-01, 9.089989900000001910e+01, -3.280000000000000426e+01, -9.938000000000002387e+00, -9.999999999999998890e-01, 2.499999999999999722e-01, 7.500000000000000000e-01, -1.348000000000000043e+01, -4.040000000000000258e-01, 4.270000000000000995e+01, -2.450000000000000355e+01, -8.160000000000001918e+00, -1.000000000000000000e+00, -4.090000000000000580e-02, 9.699999999999999734e-01, 1.969999999999999529e+00, 6.929999999999998828e+00, -8.300000000000000711e+00, -2.959999999999999964e+00, 3.879999999999999893e+00, 1.000000000000000000e+02, -1.000000000000000000e+00, 1.000000000000000222e+00, 9.259999999999999787e+00, -1.071000000000000085e+01, 1.450000000000000000e+01, -3.049999999999999822e+00, 4.000000000000000000e+00, 1.000000000000000000e+02, -1.000000000000000000e+00, 1.000000000000000000e+00, 4.570000000000001172e+00, -8.399999999999998579e+00, -3.049999999999999822e+00, 4.500000000000000000e+00, -1.369999999999999929e+01, 2.200000000000000000e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.805999999999999872e+01, 1.724999999999999645e+01, -5.500000000000000888e+00, -4.799999999999999289e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.806000000000000227e+01, 1.724999999999999645e+01, -1.400000000000000178e+01, -3.900000000000000711e+01, 1.000000000000000000e+00, -1.000000000000000000e+00, 9.810000000000002274e+00, -1.364000000000000234e+01, 1.000000000000000178e+01, -1.999999999999999778e+00, 7.100000000000000000e+01, 1.599999999999999822e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.175000000000000044e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000222e+00, -3.700000000000000622e+00, -9.999999999999997780e-01, 9.999999999999998890e-01, -1.500000000000000355e+01, -1.000000000000000000e+00, 1.000000000000000222e+00, -4.690000000000001279e+00, 2.310000000000000053e+00, -1.350000000000000000e+01, -4.000000000000000000e+00, -1.400000000000000000e+01, -1.400000000000000000e+01, -9.999999999999998890e-01, 9.999999999999996669e-01, -1.300000000000000044e+00, -5.999999999999999112e+00, 1.299999999999999822e+01, 1.099999999999999822e+01, -7.500000000000000000e-01, -2.500000000000000000e-01, 1.000000000000000000e+00, -5.999999999999999778e-02, -1.300000000000000044e-01, -8.100000000000000533e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -2.940000000000000835e+00, 1.750000000000000000e+00, -6.000000000000001776e+00, -1.100000000000000178e+01, -1.000000000000000000e+00, 1.000000000000000222e+00, -2.260000000000000231e+00, 2.009999999999999787e+00, -6.000000000000001776e+00, -1.100000000000000178e+01, -2.500000000000000000e-01, -7.500000000000000000e-01, 1.000000000000000000e+00, -7.399999999999999911e-01, -2.600000000000000089e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -3.130000000000001226e+00, 2.319999999999999396e+00, -5.999999999999999112e+00, 6.700000000000000000e+01, -1.000000000000000222e+00, 1.150000000000000189e-01, 1.940000000000000335e-01, 4.010000000000000786e-01, 4.000000000000000777e-02, 1.000000000000000021e-03, -2.200000000000000219e-02, 1.290000000000000313e-01, 1.200000000000000094e-01, 3.780000000000000582e-01, -4.820000000000000950e-01, -1.940000000000000058e-01, 1.200000000000000178e+01, -9.999999999999998890e-01, 6.900000000000000577e-02, 2.730000000000000204e-01, 1.299999999999999940e-02, 1.000000000000000021e-03, -1.000000000000000194e-02, 4.000000000000000777e-01, 2.439999999999999947e-01, 3.380000000000000338e+00, -3.699999999999999289e+00, 2.799999999999999378e+00, 1.599999999999999867e+00, -1.000000000000000000e+00, 9.799999999999999822e-01, -1.000000000000000000e+00, 9.799999999999999822e-01, -1.000000000000000000e+00, 4.879999999999999893e-01, 7.499999999999999722e-02, 4.269999999999999907e-01, 1.000000000000000021e-02, -2.899999999999999800e-03, 9.439999999999998392e-01, -9.999999999999998890e-01, 1.000000000000000000e+00, 5.139999999999999680e+00, -5.949999999999999289e+00, 9.000000000000000222e-01, 2.999999999999999556e+00, -1.000000000000000222e+00, 1.000000000000000222e+00, 5.139999999999999680e+00, -5.949999999999999289e+00, -7.600000000000000533e+00, 1.200000000000000178e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.526000000000000334e+01, -1.607000000000000028e+01, 8.900000000000002132e+00, -2.699999999999999645e+01, -8.969999999999999085e-01, -1.029999999999999943e-01, 2.000000000000000096e-04, 1.000000000000000000e+00, -1.649999999999999800e-01, 1.385999999999999943e+01, -1.466999999999999993e+01, 7.699999999999999289e+00, -3.999999999999999556e+00, -1.000000000000000222e+00, 1.000000000000000222e+00, 1.526000000000000156e+01, -1.607000000000000028e+01, 4.000000000000001332e-01, -1.800000000000000355e+01, -8.969999999999999085e-01, -1.029999999999999943e-01, 2.000000000000000096e-04, 9.999999999999998890e-01, -1.649999999999999800e-01, 1.386000000000000121e+01, -1.466999999999999993e+01, -8.000000000000001554e-01, 4.999999999999999112e+00, 1.008000000000000229e+00, 2.409999999999999920e-01, 5.600000000000000117e-02, 2.800000000000000058e-02, 6.500000000000000222e-02, 7.699999999999999900e-02, 5.099999999999999672e-02, 4.640000000000000235e-01, 1.799999999999999864e-02, -3.160000000000000309e-02, 1.169999999999999707e+00, 1.169999999999999929e+00, -1.000000000000000000e+00, 1.000000000000000222e+00, -1.176000000000000156e+01, 1.094999999999999751e+01, -4.499999999999999112e+00, -4.999999999999999112e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, -1.175999999999999979e+01, 1.094999999999999574e+01, -1.299999999999999822e+01, 4.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -2.683999999999999719e+00, -1.610000000000000320e+00, 9.999999999999998890e-01, -9.999999999999996669e-01, 5.400000000000000355e+00, -1.379000000000000004e+00, -1.655000000000000027e+00, 9.999999999999998890e-01, -1.000000000000000000e+00, 9.799999999999999822e-01, 1.010000000000000009e+00, 4.000000000000000083e-03, 9.999999999999998473e-03, 2.800000000000000058e-02, 1.350000000000000089e-01, 8.500000000000001998e-02, 1.100000000000000283e-01, 8.999999999999999667e-02, 2.300000000000000377e-01, -3.799999999999999906e-02, 3.000000000000000062e-03, 2.999999999999999889e-01, 1.000000000000000000e+00, 4.050000000000000266e-01, -1.055999999999999828e+00, -1.799999999999999822e+00, -1.739999999999999880e-01, -4.950000000000001066e+00, 9.689999999999998614e-01, 1.010000000000000009e+00, 3.999999999999999216e-03, 1.000000000000000021e-02, 2.799999999999999711e-02, 1.349999999999999811e-01, 8.500000000000001998e-02, 1.099999999999999589e-01, 8.999999999999998279e-02, 2.300000000000000377e-01, -3.799999999999999906e-02, 2.999999999999999195e-03, 3.000000000000000444e-01, 9.999999999999998890e-01, 9.689999999999998614e-01, 6.330000000000000071e-01, -1.159999999999999698e+00, -4.799999999999998046e+00, -1.739999999999999603e-01, -4.499999999999998446e-01, 1.010000000000000009e+00, 3.000000000000000496e-03, 7.499999999999999722e-02, 7.600000000000001199e-02, 9.500000000000000111e-02, 1.400000000000000411e-01, 1.300000000000000044e-01, 1.690000000000000113e-01, 3.110000000000000542e-01, -2.100000000000000824e-02, 1.000000000000000021e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 7.499999999999999722e-02, 1.012000000000000233e+00, -7.499999999999999722e-02, 1.010000000000000009e+00, 4.000000000000000083e-03, 1.000000000000000021e-02, 1.799999999999999864e-02, 1.449999999999999900e-01, 4.399999999999999051e-02, 1.509999999999999953e-01, 9.000000000000001055e-02, 3.500000000000000333e-02, 5.000000000000000000e-01, -2.599999999999999881e-02, 3.000000000000000062e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.689999999999998614e-01, 1.010000000000000009e+00, 3.000000000000000496e-03, 1.100000000000000110e-02, 1.400000000000000688e-01, 9.500000000000000111e-02, 1.400000000000000411e-01, 1.300000000000000044e-01, 1.660000000000000364e-01, 3.110000000000000542e-01, -5.399999999999999939e-02, 1.000000000000000021e-03, 1.000000000000000000e+00, 1.012000000000000233e+00, 1.010000000000000009e+00, 3.000000000000000496e-03, 1.100000000000000110e-02, 1.400000000000000688e-01, 9.500000000000000111e-02, 1.400000000000000411e-01, 1.300000000000000044e-01, 1.690000000000000113e-01, 3.110000000000000542e-01, -2.100000000000000824e-02, 1.000000000000000021e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, -5.600000000000001643e-01, 1.012000000000000233e+00, 1.010000000000000009e+00, 1.999999999999999608e-03, 1.199999999999999852e-02, 5.600000000000000117e-02, 8.899999999999999578e-02, 7.599999999999999811e-02, 8.999999999999998279e-02, 9.999999999999999167e-02, 3.200000000000000067e-02, 5.409999999999999254e-01, -2.299999999999999961e-02, 1.999999999999999608e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.020999999999999686e+00, 1.010000000000000009e+00, 8.000000000000000167e-03, 1.000000000000000056e-01, 8.999999999999999667e-02, 4.699999999999999317e-02, 1.610000000000000042e-01, 8.999999999999998279e-02, 4.000000000000000083e-02, 4.630000000000000782e-01, -2.500000000000000139e-02, 1.000000000000000021e-03, 1.000000000000000000e+00, 1.000000000000000056e-01, 9.689999999999998614e-01, -1.000000000000000056e-01, 1.010000000000000009e+00, 8.000000000000000167e-03, 4.700000000000000011e-02, 1.429999999999999882e-01, 4.699999999999999317e-02, 1.610000000000000042e-01, 8.999999999999998279e-02, 4.000000000000000083e-02, 4.630000000000000782e-01, -2.509999999999999731e-02, 1.000000000000000021e-03, 1.000000000000000000e+00, 9.689999999999998614e-01, 1.010000000000000009e+00, 4.000000000000000083e-03, 1.099999999999999936e-02, 4.000000000000000083e-02, 1.019999999999999934e-01, 3.500000000000000333e-02, 1.209999999999999964e-01, 8.300000000000000433e-02, 4.000000000000000083e-02, 5.600000000000000533e-01, -2.299999999999999961e-02, 4.000000000000000083e-03, 1.000000000000000000e+00, 9.999999999999997780e-01, 1.010000000000000009e+00, 4.000000000000000083e-03, 1.099999999999999936e-02, 7.699999999999999900e-02, 6.500000000000000222e-02, 3.500000000000000333e-02, 1.209999999999999964e-01, 8.300000000000000433e-02, 4.000000000000000083e-02, 5.600000000000000533e-01, -2.299999999999999961e-02, 4.000000000000000083e-03, 1.000000000000000000e+00, 7.699999999999999900e-02, 9.999999999999997780e-01, -7.699999999999999900e-02, 1.010000000000000009e+00, 9.999999999999998040e-04, 3.999999999999999216e-03, 2.399999999999999703e-02, 7.299999999999999545e-02, 5.899999999999999689e-02, 8.300000000000000433e-02, 9.600000000000000200e-02, 5.090000000000000080e-01, 1.459999999999999909e-01, -3.799999999999999212e-02, 9.999999999999998040e-04, 9.999999999999998890e-01, 1.049999999999999822e+00, 1.010000000000000009e+00, 9.999999999999998040e-04, 3.999999999999999216e-03, 2.399999999999999703e-02, 7.299999999999999545e-02, 5.899999999999999689e-02, 8.300000000000000433e-02, 9.600000000000000200e-02, 6.590000000000000302e-01, -2.100000000000000130e-02, 9.999999999999998040e-04, 9.999999999999998890e-01, 9.999999999999998890e-01, 1.049999999999999822e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.010000000000000009e+00, 9.999999999999998040e-04, 3.999999999999999216e-03, 7.099999999999999367e-02, 2.599999999999999881e-02, 5.899999999999999689e-02, 8.300000000000000433e-02, 9.600000000000000200e-02, 6.590000000000000302e-01, -2.100000000000000130e-02, 9.999999999999998040e-04, 9.999999999999998890e-01, 9.999999999999998890e-01, 7.099999999999999367e-02, 1.049999999999999822e+00, -7.099999999999999367e-02, 1.010000000000000009e+00, 5.000000000000000971e-03, 2.500000000000000486e-02, 5.800000000000001682e-02, 6.000000000000001166e-02, 7.000000000000002054e-02, 3.109999999999999987e-01, 4.700000000000000289e-01, -2.600000000000000228e-02, 1.000000000000000021e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.012000000000000233e+00, 1.010000000000000009e+00, 5.000000000000000971e-03, 6.000000000000000472e-02, 2.300000000000000308e-02, 6.000000000000001166e-02, 7.000000000000002054e-02, 3.109999999999999987e-01, 4.700000000000000289e-01, -2.600000000000000228e-02, 1.000000000000000021e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 6.000000000000000472e-02, 1.012000000000000233e+00, -6.000000000000000472e-02, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -2.269999999999999796e-01, 4.610000000000000764e-01, -7.730000000000000204e-01, 5.390000000000000346e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.159999999999999920e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -6.700000000000000400e-02, 9.599999999999998535e-01, 1.143000000000000016e+00, 3.051000000000000156e+01, -7.073000000000001819e+01, 4.546999999999999886e+01, -4.040000000000000258e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, -4.599999999999999922e-02, -6.220000000000001084e-01, -2.879999999999999782e-01, -8.000000000000000167e-02, 1.000000000000000000e+00, -1.000000000000000000e+00, -6.700000000000000400e-02, 9.600000000000000755e-01, 1.143000000000000016e+00, 1.703000000000000114e+01, -7.073000000000001819e+01, 4.546999999999999886e+01, -6.470000000000000195e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -5.000000000000000000e-01, -5.000000000000000000e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, -4.599999999999999922e-02, -6.220000000000001084e-01, -2.879999999999999782e-01, -8.000000000000000167e-02, 1.000000000000000000e+00, -9.999999999999997780e-01, -6.700000000000000400e-02, 9.599999999999998535e-01, 1.142999999999999794e+00, 1.669999999999999574e+01, -1.045999999999999908e+01, -3.360000000000000142e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -9.999999999999998890e-01, 1.109999999999999876e+00, -1.000000000000000056e-01, -9.000000000000000222e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 9.900000000000001021e-01, 1.404999999999999716e+01, 2.369999999999999218e+01, -3.110000000000000853e+01, -5.879999999999999671e-01, -4.000000000000000222e-01, -6.000000000000000888e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, -4.000000000000000222e-01, -5.999999999999999778e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, -4.000000000000000222e-01, -5.999999999999999778e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, 9.899999999999997691e-01, -3.959999999999999631e-01, 5.400000000000000355e-01, -3.465000000000000568e+01, -9.999999999999998890e-01, -6.699999999999999012e-02, 9.799999999999998712e-01, 1.666999999999999815e+00, 2.060000000000000053e+00, 5.390000000000000346e-01, -3.429999999999998295e+01, -9.999999999999998890e-01, -6.699999999999999012e-02, 9.799999999999998712e-01, 9.999999999999998890e-01, 3.919999999999998597e+00, 5.390000000000000346e-01, -3.429999999999998295e+01, -1.000000000000000000e+00, -6.700000000000000400e-02, 9.799999999999998712e-01, 1.667000000000000037e+00, 2.157999999999999829e+01, 1.456000000000000227e+01, -3.046000000000000796e+01, -5.930000000000000826e-01, -1.000000000000000000e+00, -6.700000000000000400e-02, 9.800000000000000933e-01, 9.999999999999997780e-01, 2.187999999999999901e+01, 1.476000000000000156e+01, -3.086999999999999744e+01, -6.009999999999999787e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -9.999999999999998890e-01, 1.109999999999999876e+00, -9.999999999999998890e-01, 1.109999999999999876e+00, -1.000000000000000000e+00, 1.099999999999999867e+00, 3.599999999999999728e-02, 5.199999999999999761e-02, 2.900000000000000147e-02, -1.000000000000000000e+00, 7.650000000000000133e-01, 2.699999999999999969e-02, 8.999999999999999320e-03, 1.000000000000000000e+00, 4.399999999999999745e-02, 7.499999999999999722e-02, 2.900000000000000147e-02, -1.000000000000000000e+00, 7.139999999999999680e-01, 2.699999999999999969e-02, 2.400000000000000050e-02, 1.000000000000000000e+00, 1.700000000000000122e-02, 2.400000000000000050e-02, 2.900000000000000147e-02, -1.000000000000000000e+00, 8.609999999999999876e-01, 2.699999999999999969e-02, -3.999999999999999389e-02, 1.711999999999999522e+00, 4.599999999999999922e-02, 7.699999999999998512e-02, 2.900000000000000147e-02, -9.999999999999998890e-01, 7.059999999999998499e-01, 2.699999999999999623e-02, 3.299999999999999462e-02, 1.021999999999999797e+00, 2.600000000000000228e-02, 4.399999999999999745e-02, 2.900000000000000147e-02, -1.000000000000000000e+00, 8.100000000000000533e-01, 2.699999999999999969e-02, -2.299999999999999961e-02, 1.711999999999999522e+00, 5.500000000000000028e-02, 1.010000000000000064e-01, 2.900000000000000147e-02, -9.999999999999998890e-01, 6.500000000000000222e-01, 2.699999999999999623e-02, 5.099999999999998979e-02, 1.021999999999999797e+00, -1.000000000000000000e+00, 9.699999999999999734e-01, -3.010000000000000231e+00, 1.840000000000000302e+00, -3.395000000000000284e+01, 3.399999999999999550e-02, 4.149999999999999523e-02, 1.000000000000000021e-02, -1.000000000000000000e+00, 3.699999999999999817e-02, 4.000000000000000083e-03, 7.924999999999999822e-01, 9.915000000000000480e-01, 3.699999999999999734e+00, 7.772999999999998799e+00, -1.052699999999999925e+01, -2.869999999999999218e-01, 2.800000000000000058e-02, 2.199999999999999525e-02, 1.000000000000000021e-02, -7.659999999999997922e-01, -2.340000000000000135e-01, 3.699999999999999817e-02, -1.199999999999999852e-02, 8.339999999999999636e-01, 9.829999999999998739e-01, 3.859999999999999432e+00, 9.647999999999999687e+00, -1.188799999999999812e+01, -2.999999999999999334e-01, 3.400000000000000244e-02, 4.150000000000000216e-02, 1.000000000000000021e-02, -1.000000000000000000e+00, 3.549999999999999822e-01, 4.375000000000000555e-01, 2.549999999999999836e-02, 4.000000000000000083e-03, 9.915000000000000480e-01, 2.800000000000000058e-02, 2.199999999999999872e-02, 1.000000000000000021e-02, -7.660000000000000142e-01, -2.339999999999999858e-01, 3.739999999999999991e-01, 4.599999999999999645e-01, 2.500000000000000139e-02, -1.200000000000000025e-02, 9.829999999999999849e-01, 4.349999999999999700e-02, 6.400000000000000133e-02, 1.000000000000000021e-02, -1.000000000000000000e+00, 3.699999999999999817e-02, 2.249999999999999570e-02, 7.369999999999999885e-01, 9.915000000000001590e-01, -2.814999999999999170e-01, 5.695999999999999730e+00, -8.554000000000000270e+00, -2.630000000000000115e-01, 3.500000000000001027e-02, 4.000000000000000777e-02, 1.000000000000000194e-02, -7.660000000000001252e-01, -2.340000000000000691e-01, 3.699999999999999817e-02, 1.000000000000000021e-03, 7.910000000000000364e-01, 9.830000000000000959e-01, -2.999999999999999334e-01, 7.007000000000000561e+00, -1.021799999999999997e+01, -2.800000000000000822e-01, 4.349999999999999700e-02, 6.400000000000000133e-02, 1.000000000000000021e-02, -1.000000000000000000e+00, 2.374999999999999889e-01, 4.994999999999999996e-01, 2.599999999999999881e-02, 2.249999999999999917e-02, 9.915000000000000480e-01, 3.500000000000000333e-02, 4.000000000000000083e-02, 1.000000000000000021e-02, -7.660000000000000142e-01, -2.339999999999999858e-01, 2.550000000000000044e-01, 5.360000000000000320e-01, 2.500000000000000139e-02, 1.000000000000000021e-03, 9.829999999999999849e-01, 3.999999999999999389e-02, 6.099999999999999867e-02, 9.999999999999998473e-03, -6.760000000000000453e-01, -3.240000000000000657e-01, 3.699999999999999123e-02, 1.999999999999999695e-02, 7.509999999999998899e-01, 1.000000000000000000e+00, 3.539999999999999147e+00, 5.897999999999999687e+00, -9.166999999999999815e+00, -2.750000000000000222e-01, -1.000000000000000000e+00, 9.699999999999999734e-01, -5.429999999999999716e+00, 1.730000000000000204e+00, -3.395000000000000284e+01, -1.000000000000000222e+00, 9.999999999999998890e-01, 3.000000000000000000e+00, -2.450000000000000000e+01, -9.219999999999998863e+00, 2.999999999999999334e-01, 2.357300000000000040e+01, 1.141999999999999815e+01, 4.000000000000000083e-02, 6.099999999999999867e-02, 1.000000000000000021e-02, -6.760000000000000453e-01, -3.240000000000000102e-01, 3.360000000000000209e-01, 4.149999999999999800e-01, 2.599999999999999881e-02, 2.000000000000000042e-02, 1.000000000000000000e+00, -1.000000000000000222e+00, 3.400000000000000244e-02, 2.500000000000000139e-02, 8.800000000000000044e-01, -1.000000000000000222e+00, 9.999999999999998890e-01, 2.199999999999999734e+00, -9.000000000000000000e+00, -9.220000000000002416e+00, 2.999999999999999889e-01, 2.357300000000000040e+01, -1.000000000000000000e+01, 5.200000000000001149e-02, 8.799999999999999489e-02, 1.000000000000000021e-02, -6.760000000000001563e-01, -3.240000000000000102e-01, 3.699999999999999123e-02, 4.399999999999999745e-02, 6.830000000000000515e-01, 1.000000000000000000e+00, -2.629999999999999560e-01, 4.385000000000000675e+00, -6.890000000000000568e+00, -2.459999999999999964e-01, 4.900000000000000189e-02, -1.939999999999999780e-01, -1.499999999999999944e-01, -7.039999999999999591e-01, 9.649999999999999689e-01, 5.199999999999999761e-02, 8.799999999999999489e-02, 1.000000000000000021e-02, -6.760000000000000453e-01, -3.240000000000000102e-01, 2.200000000000000011e-01, 4.630000000000000226e-01, 2.699999999999999969e-02, 4.399999999999999745e-02, 1.000000000000000000e+00, -2.269999999999999796e-01, -7.730000000000000204e-01, 2.000000000000000389e-01, -2.699999999999999969e-02, 7.720000000000000195e-01, 1.000000000000000000e+00, -2.270000000000000351e-01, -7.729999999999999094e-01, 1.000000000000000000e+00, 3.299999999999999378e+00, -9.099999999999999645e+00, -7.200000000000000178e+00, -1.199999999999999956e+00, 6.359999999999999432e+00, -9.999999999999998224e+00, -2.270000000000000073e-01, -7.730000000000000204e-01, 1.000000000000000000e+00, 4.100000000000000533e+00, -2.459999999999999787e+01, -7.200000000000000178e+00, -1.200000000000000178e+00, 6.359999999999999432e+00, 8.800000000000000711e+00, -2.269999999999999518e-01, -7.729999999999997984e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.290000000000000213e+01, 2.139999999999999503e+01, -2.969999999999999574e+01, 5.097000000000000419e+00, -2.500000000000000000e+01, -3.100000000000000000e+01, -2.270000000000000073e-01, -7.730000000000000204e-01, 1.000000000000000000e+00, -3.043000000000000327e+01, 2.926000000000000156e+01, -6.700000000000000000e+01, 5.097000000000001307e+00, -3.770000000000000995e+01, -2.269999999999999796e-01, -7.729999999999999094e-01, 9.999999999999998890e-01, -2.967000000000000526e+01, 2.791999999999999815e+01, -7.699999999999997158e+01, 5.097000000000000419e+00, -2.269999999999999574e+01, -2.270000000000000073e-01, -7.730000000000000204e-01, 1.000000000000000000e+00, -3.130000000000000071e+01, 3.059000000000000341e+01, -1.769999999999999929e+01, -8.300000000000000000e+01, -9.999999999999998890e-01, 9.699999999999999734e-01, -8.539999999999997371e+00, 1.550000000000000266e+00, 6.304999999999999716e+01, -1.000000000000000000e+00, 2.000000000000000389e-01, -2.699999999999999969e-02, 7.720000000000000195e-01, 1.000000000000000000e+00, -9.999999999999998890e-01, 1.000000000000000000e+00, 2.500000000000000000e+00, -9.099999999999997868e+00, -6.900000000000000355e+00, -1.199999999999999956e+00, 2.068999999999999950e+00, -1.000000000000000000e+01, -1.000000000000000222e+00, 1.000000000000000000e+00, 3.299999999999999822e+00, -2.450000000000000355e+01, -6.899999999999999467e+00, -1.199999999999999734e+00, 2.068999999999999950e+00, 8.800000000000000711e+00, -1.000000000000000222e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, -2.269000000000000483e+01, 2.119000000000000128e+01, -2.939999999999999503e+01, 2.069000000000000394e+00, -2.500000000000000355e+01, -3.099999999999999645e+01, -9.999999999999998890e-01, 1.000000000000000000e+00, -3.021999999999999531e+01, 2.905000000000000071e+01, -6.700000000000000000e+01, 2.069000000000000394e+00, -3.740000000000000568e+01, -9.999999999999998890e-01, 9.999999999999998890e-01, -2.946000000000000441e+01, 2.770999999999999730e+01, -7.699999999999997158e+01, 2.069000000000000394e+00, -2.239999999999999503e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -2.989999999999999503e+01, 2.919000000000000838e+01, -1.739999999999999858e+01, -8.300000000000000000e+01, -8.649999999999999911e-01, -2.699999999999999623e-02, 3.860000000000000098e-01, 3.860000000000000653e-01, 2.000000000000000000e+00, -1.000000000000000222e+00, 2.159999999999999698e-01, -1.200000000000000198e-02, 3.639999999999999347e-01, 3.639999999999999347e-01, 1.819999999999999840e+00, -9.999999999999998890e-01, 1.000000000000000222e+00, 9.999999999999998890e-01, -9.000000000000000000e+00, -6.099999999999999645e+00, -1.199999999999999956e+00, 1.519999999999999796e+00, -1.000000000000000000e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.800000000000000266e+00, -2.410000000000000142e+01, -6.099999999999999645e+00, -1.199999999999999956e+00, 1.519999999999999796e+00, 7.419999999999999929e+00, -1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, -2.269000000000000128e+01, 2.119000000000000483e+01, -2.860000000000000497e+01, 1.520000000000000240e+00, -2.500000000000000000e+01, -3.100000000000000000e+01, -1.000000000000000222e+00, 1.000000000000000000e+00, -3.021999999999999531e+01, 2.905000000000000071e+01, -6.700000000000000000e+01, 1.520000000000000018e+00, -3.660000000000000853e+01, -9.999999999999998890e-01, 9.999999999999998890e-01, -2.946000000000000441e+01, 2.770999999999999730e+01, -7.699999999999997158e+01, 1.520000000000000240e+00, -2.160000000000000142e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -2.790000000000000213e+01, 2.719000000000000838e+01, -1.660000000000000142e+01, -8.300000000000000000e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -3.399999999999999467e+00, 1.290000000000000036e+01, -1.500000000000000222e+00, -2.499999999999999722e-01, -4.150000000000000355e+00, -1.000000000000000000e+01, -1.000000000000000000e+00, 1.000000000000000222e+00, -2.700000000000000622e+00, 7.599999999999999645e+00, 2.400000000000000799e+00, -2.500000000000000000e-01, -4.070000000000000284e+00, -1.000000000000000178e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -2.600000000000000089e+00, -1.699999999999999956e+00, -1.499999999999999778e+00, -2.500000000000000000e-01, -4.150000000000000355e+00, 2.160000000000000586e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, -1.899999999999999689e+00, -7.099999999999998757e+00, 2.399999999999999911e+00, -2.500000000000000000e-01, -4.070000000000000284e+00, 2.160000000000000142e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999997780e-01, -1.490000000000000036e+01, 1.339999999999999680e+01, -2.600000000000000000e+01, -4.410000000000000142e+00, -2.500000000000000000e+01, -2.199999999999999645e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.490000000000000036e+01, 1.340000000000000036e+01, -2.330000000000000071e+01, -4.410000000000000142e+00, -2.499999999999999645e+01, -2.199999999999999645e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -6.099999999999999645e+00, 1.900000000000000355e+01, -1.000000000000000222e+00, 2.000000000000000389e-01, -3.959000000000000519e+00, -1.000000000000000000e+01, -1.000000000000000222e+00, 9.999999999999998890e-01, -5.299999999999998934e+00, 4.599999999999999645e+00, -1.000000000000000000e+00, 1.999999999999999556e-01, -3.958999999999999631e+00, -2.330000000000000071e+00, -9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.202999999999999758e+01, 1.052999999999999936e+01, -2.299999999999999645e+01, -3.959000000000000963e+00, -2.500000000000000000e+01, -1.699999999999999645e+01, -9.999999999999998890e-01, 1.000000000000000222e+00, -5.299999999999999822e+00, 1.439999999999999858e+01, -8.300000000000000711e+00, 2.999999999999999889e-01, -3.430000000000000604e+00, -1.000000000000000000e+01, -1.740000000000000158e-01, -1.600000000000000033e-01, -1.860000000000000264e-01, -4.000000000000000222e-01, -8.000000000000000167e-02, -2.500000000000000139e-02, 1.000000000000000000e+00, -2.500000000000000000e-01, -1.499999999999999944e-01, -1.500000000000000222e-01, -4.000000000000000222e-01, -5.000000000000000278e-02, -2.500000000000000139e-02, 1.000000000000000000e+00, -9.999999999999998890e-01, 1.000000000000000000e+00, -4.500000000000000000e+00, -8.299999999999998934e+00, 2.999999999999999334e-01, -3.430000000000000604e+00, -2.049999999999999378e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -8.899999999999998579e+00, -5.999999999999998668e-01, -7.800000000000000711e+00, 1.599999999999999867e+00, -3.430000000000000604e+00, -1.000000000000000000e+01, -1.000000000000000000e+00, 9.999999999999998890e-01, -8.100000000000001421e+00, -1.460000000000000142e+01, -7.800000000000000711e+00, 1.600000000000000089e+00, -3.430000000000000604e+00, -1.760000000000000453e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.224000000000000199e+01, 1.074000000000000021e+01, -2.990000000000000213e+01, -3.526000000000000689e+00, -2.500000000000000355e+01, -1.800000000000000000e+01, -9.999999999999998890e-01, 1.000000000000000000e+00, 9.999999999999999167e-02, 1.939999999999999503e+01, -8.700000000000001066e+00, -1.799999999999999822e+00, -4.410000000000000142e+00, -5.000000000000000888e+00, -1.000000000000000222e+00, 1.000000000000000000e+00, 9.000000000000002442e-01, 5.500000000000000888e+00, -8.699999999999999289e+00, -1.799999999999999822e+00, -4.410000000000001030e+00, 6.999999999999999556e-01, -1.000000000000000222e+00, 1.000000000000000222e+00, -1.976999999999999602e+01, 1.860000000000000142e+01, -5.400000000000000000e+01, -3.526000000000001133e+00, -3.906000000000000938e+01, -1.000000000000000222e+00, 1.000000000000000000e+00, -1.901000000000000512e+01, 1.726000000000000156e+01, -6.400000000000001421e+01, -3.526000000000000689e+00, -2.405999999999999517e+01, -9.999999999999998890e-01, 1.000000000000000000e+00, -2.057000000000000028e+01, 1.986000000000000298e+01, -1.910000000000000142e+01, -7.000000000000000000e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -5.300000000000000711e+00, 1.202000000000000171e+02, 4.000000000000000000e+00, -2.999999999999999889e-01, -3.560000000000000497e+00, -2.049999999999999822e+00, -1.000000000000000000e+00, 1.000000000000000222e+00, -5.999999999999999112e+00, 1.194999999999999858e+02, 9.799999999999998934e+00, -4.500000000000000111e-01, -3.559999999999999609e+00, -2.600000000000000533e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.976999999999999957e+01, 1.859999999999999787e+01, -3.200000000000000000e+01, -3.856000000000000760e+00, -2.900000000000000355e+01, -9.999999999999998890e-01, 1.000000000000000000e+00, -1.918999999999999773e+01, 1.801999999999999957e+01, -3.200000000000000000e+01, -3.856000000000000316e+00, -2.400000000000000000e+01, -1.000000000000000222e+00, 1.000000000000000222e+00, -1.901000000000000512e+01, 1.726000000000000512e+01, -4.200000000000000711e+01, -3.856000000000001204e+00, -1.399999999999999822e+01, -1.000000000000000000e+00, 1.000000000000000222e+00, -1.842999999999999972e+01, 1.668000000000000327e+01, -4.200000000000000711e+01, -3.856000000000001204e+00, -8.999999999999998224e+00, 2.800000000000000058e-02, 8.000000000000000167e-02, -1.000000000000000000e+00, 1.260000000000000009e-01, 1.549999999999999989e-01, 4.050000000000000266e-01, -5.099999999999998979e-02, 8.699999999999999400e-02, 5.799999999999999600e-02, 1.467000000000000082e+00, -1.268999999999999684e+00, 1.199999999999999734e+00, 3.199999999999999734e+00, -1.640000000000000069e-01, -1.288000000000000256e+00, 3.200000000000000067e-02, 6.800000000000000488e-02, -1.000000000000000222e+00, 1.260000000000000009e-01, 1.549999999999999989e-01, 4.050000000000000266e-01, -5.099999999999998979e-02, 9.499999999999998723e-02, 5.799999999999999600e-02, 1.467000000000000082e+00, -1.268999999999999684e+00, 1.199999999999999734e+00, 3.199999999999999734e+00, -1.640000000000000069e-01, -1.288000000000000256e+00, -9.999999999999998890e-01, 1.000000000000000000e+00, -2.609999999999999432e+00, 1.439999999999999725e+00, 8.199999999999998579e+01, -6.430000000000000160e-01, -3.579999999999999716e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.850000000000000089e+00, 9.999999999999997780e-02, 7.199999999999998579e+01, -6.430000000000001270e-01, -2.079999999999999716e+01, -9.999999999999997780e-01, 9.999999999999997780e-01, -7.100000000000000755e-01, -1.500000000000000000e+01, -1.000000000000000000e+01, -1.000000000000000000e+00, 9.999999999999997780e-01, -7.599999999999997868e-01, -4.099999999999998646e-01, 5.999999999999999112e+00, -6.430000000000000160e-01, -3.500000000000000000e+01, -9.999999999999998890e-01, 1.000000000000000000e+00, -1.519999999999999796e+00, 3.499999999999999223e-01, 2.569999999999999929e+01, -8.030000000000001581e-01, -3.600000000000000000e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -7.600000000000001199e-01, 5.000000000000000278e-02, -1.600000000000000000e+01, 9.700000000000001066e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, -1.750000000000000000e+00, -3.999999999999999556e+00, -6.430000000000001270e-01, -1.999999999999999645e+01, -9.999999999999996669e-01, 9.999999999999997780e-01, 1.340000000000000080e+00, -2.049999999999999822e+00, 5.400000000000000355e+00, -1.500000000000000000e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -7.600000000000000089e-01, -9.899999999999997691e-01, 1.569999999999999751e+01, -8.030000000000000471e-01, -2.099999999999999289e+01, -9.999999999999997780e-01, 9.999999999999997780e-01, 5.799999999999998490e-01, -1.749999999999999778e+00, 9.999999999999998890e-01, -1.930000000000000160e+00, -1.460000000000000142e+01, -9.999999999999998890e-01, 1.000000000000000000e+00, 1.340000000000000302e+00, -3.089999999999999858e+00, -9.000000000000000000e+00, -1.930000000000000160e+00, 4.000000000000000222e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, -2.409999999999999254e+00, 1.239999999999999769e+00, 1.000000000000000000e+00, -8.030000000000001581e-01, -1.799999999999999645e+01, -1.000000000000000000e+00, 9.999999999999998890e-01, -2.049999999999999378e+00, 8.799999999999998934e-01, -7.000000000000000000e+00, -8.030000000000000471e-01, -4.000000000000000000e+00, -9.999999999999998890e-01, 1.000000000000000000e+00, -2.999999999999999195e-02, -1.139999999999999680e+00, -1.100000000000000000e+01, -8.029999999999999361e-01, -6.999999999999998446e-01, -9.999999999999997780e-01, 1.000000000000000000e+00, -1.410000000000000142e+00, -3.399999999999999689e-01, -9.000000000000000000e+00, -8.030000000000000471e-01, -3.000000000000000000e+00, -1.000000000000000000e+00, 9.999999999999998890e-01, -1.320000000000000062e+00, -4.300000000000000488e-01, -1.400000000000000000e+01, -8.030000000000001581e-01, 1.100000000000000000e+01, -9.999999999999997780e-01, 9.999999999999997780e-01, -1.649999999999999467e+00, 9.399999999999998357e-01, 2.000000000000000000e+00, -1.500000000000000000e+01, -9.999999999999997780e-01, 1.000000000000000000e+00, -1.289999999999999813e+00, 5.800000000000000711e-01, 1.600000000000000000e+01, -2.300000000000000355e+01, -1.000000000000000222e+00, 1.000000000000000000e+00, 7.299999999999999822e-01, -1.439999999999999947e+00, 1.929999999999999716e+01, -2.700000000000000000e+01, -9.999999999999998890e-01, 1.000000000000000000e+00, 7.299999999999998712e-01, -2.479999999999999538e+00, -2.100000000000000000e+01, -8.030000000000000471e-01, 1.429999999999999893e+01, -9.999999999999998890e-01, 5.899999999999998995e-02, 3.579999999999999294e-01, 4.200000000000000400e-01, -5.399999999999999245e-02, -7.499999999999999722e-02, 1.349999999999999811e-01, 9.999999999999999167e-02, 1.026000000000000023e+00, -3.739999999999999436e-01, 1.619999999999999218e-01, 4.299999999999998934e+00, -1.590000000000000302e-01, 9.959999999999998854e-01, -1.000000000000000000e+00, 6.300000000000000044e-02, 3.169999999999999485e-01, 4.839999999999998748e-01, -6.300000000000000044e-02, -7.399999999999998246e-02, 1.350000000000000089e-01, 8.199999999999998956e-02, 1.024999999999999689e+00, -3.169999999999999485e-01, 1.150000000000000050e-01, 3.499999999999998668e+00, -1.559999999999999998e-01, 1.231999999999999984e+00, -1.000000000000000222e+00, 5.700000000000000205e-02, 3.079999999999999960e-01, 3.960000000000000187e-01, -5.999999999999999084e-02, -9.399999999999998634e-02, 1.890000000000000013e-01, 1.400000000000000133e-01, 1.036000000000000032e+00, -5.239999999999999103e-01, 3.609999999999999876e-01, 6.000000000000000000e+00, -2.230000000000000315e-01, 1.400000000000000133e+00, -1.000000000000000000e+00, 6.099999999999999867e-02, 2.730000000000000204e-01, 4.560000000000000164e-01, -7.000000000000000666e-02, -9.400000000000000022e-02, 1.930000000000000049e-01, 1.170000000000000207e-01, 1.036000000000000032e+00, -4.530000000000000693e-01, 3.159999999999999476e-01, 5.000000000000000000e+00, -2.230000000000000315e-01, 1.759999999999999565e+00, -1.000000000000000222e+00, 1.000000000000000000e+00, -6.099999999999999645e+00, 1.346000999999999976e+02, 4.000000000000000888e+00, -2.999999999999999889e-01, -3.560000000000000497e+00, -1.000000000000000000e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -6.799999999999999822e+00, 1.336999989999999912e+02, 9.800000000000004263e+00, -4.500000000000000111e-01, -3.560000000000000941e+00, -1.000000000000000178e+01, -1.000000000000000000e+00, 9.999999999999998890e-01, 9.999999999999998890e-01, 5.400000000000001243e+00, -6.899999999999998579e+00, -1.000000000000000000e+01, -8.030000000000002691e-01, 7.499999999999998579e+01, 3.700000000000000000e+01, -1.000000000000000000e+00, 9.999999999999998890e-01, 9.999999999999998890e-01, 5.590000000000000746e+00, -7.089999999999997193e+00, 3.999999999999999112e+00, -8.030000000000002691e-01, 7.499999999999998579e+01, 2.899999999999999645e+01, -9.999999999999997780e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 7.639999999999999680e+00, -9.039999999999995595e+00, 7.299999999999999822e+00, -8.030000000000002691e-01, 7.499999999999998579e+01, 2.499999999999999645e+01, -1.799999999999999864e-02, -9.999999999999998890e-01, 5.500000000000001416e-02, 3.589999999999999858e-01, -4.599999999999999922e-02, 2.220000000000000306e-01, 3.639999999999999347e-01, 3.829999999999999627e+00, -4.259999999999998899e+00, -1.269999999999999751e+01, -2.339999999999999858e-01, -4.110000000000000320e+00, -1.000000000000000222e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 8.970000000000002416e+00, -1.047000000000000064e+01, -8.500000000000000000e+00, -8.030000000000001581e-01, -2.500000000000000000e+01, 1.500000000000000000e+01, -1.000000000000000000e+00, 9.999999999999997780e-01, 1.299999999999999600e+00, -2.469999999999999751e+00, -2.100000000000000355e+01, -8.030000000000000471e-01, -1.650000000000000000e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, 2.060000000000000497e+00, -3.810000000000000497e+00, -3.099999999999999645e+01, -8.030000000000002691e-01, -1.499999999999999778e+00, -1.000000000000000000e+00, 9.999999999999998890e-01, 2.060000000000000053e+00, -2.770000000000000018e+00, 3.499999999999999556e+00, -3.700000000000000000e+01, 2.100000000000000130e-02, 6.500000000000000222e-02, -1.000000000000000000e+00, 1.389999999999999847e-01, 1.710000000000000409e-01, 2.779999999999999694e-01, -3.600000000000000422e-02, 5.999999999999999778e-02, 2.069999999999999896e-01, 1.000000000000000000e+00, -2.637000000000000011e+00, 2.394999999999999574e+00, 4.099999999999998757e+00, -4.059999999999999720e-01, -4.929999999999999716e+00, 2.100000000000000130e-02, 6.500000000000001610e-02, -1.000000000000000000e+00, 1.390000000000000124e-01, 1.710000000000000409e-01, 2.780000000000000249e-01, 1.019999999999999934e-01, 5.999999999999999778e-02, 6.900000000000000577e-02, 1.000000000000000222e+00, -5.739999999999998437e-01, 4.929999999999999383e-01, 3.899999999999999911e+00, -1.530000000000000027e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.762000000000000099e+01, 1.587000000000000277e+01, -4.700000000000000000e+01, -3.403999999999999915e+00, -5.199999999999999289e+00, 3.099999999999999978e-02, 8.200000000000000344e-02, -1.000000000000000222e+00, 1.500000000000000222e-01, 1.850000000000000255e-01, 2.310000000000000664e-01, -3.599999999999999728e-02, 8.200000000000000344e-02, 1.670000000000000651e-01, 1.412000000000000366e+00, -2.193999999999999950e+00, 1.994000000000000217e+00, 3.299999999999999822e+00, -3.560000000000000386e-01, -3.990000000000000657e+00, 2.400000000000000050e-02, 5.900000000000000383e-02, -9.999999999999998890e-01, 1.250000000000000000e-01, 1.549999999999999711e-01, 3.980000000000000204e-01, -5.099999999999999672e-02, 8.500000000000000611e-02, 1.000000000000000056e-01, 1.000000000000000222e+00, -2.187999999999999723e+00, 2.069999999999999840e+00, 5.600000000000000533e+00, -2.839999999999999747e-01, -2.339999999999999858e+00, 3.100000000000000325e-02, 8.200000000000001732e-02, -1.000000000000000222e+00, 1.499999999999999944e-01, 1.849999999999999700e-01, 2.310000000000000386e-01, 8.500000000000000611e-02, 8.200000000000001732e-02, 4.600000000000000616e-02, 1.412000000000000144e+00, -3.819999999999999507e-01, 3.290000000000000147e-01, 2.600000000000000533e+00, -1.020000000000000462e+00, 3.600000000000000422e-02, 7.500000000000001110e-02, -1.000000000000000000e+00, 1.360000000000000098e-01, 1.670000000000000373e-01, 3.360000000000000209e-01, -5.100000000000000366e-02, 1.059999999999999970e-01, 7.699999999999999900e-02, 1.100000000000000311e+00, -1.683999999999999941e+00, 1.590000000000000080e+00, 4.299999999999999822e+00, -2.180000000000000271e-01, -1.800000000000000266e+00, 2.400000000000000050e-02, 5.500000000000000028e-02, -9.999999999999998890e-01, 1.390000000000000124e-01, 1.710000000000000131e-01, 2.780000000000000249e-01, -3.599999999999999034e-02, 6.500000000000000222e-02, 2.069999999999999618e-01, 1.000000000000000222e+00, -2.635999999999999233e+00, 2.394999999999999574e+00, 4.099999999999998757e+00, -4.059999999999999720e-01, -3.790000000000000480e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -9.079999999999998295e+00, 7.909999999999999254e+00, 4.300000000000000000e+01, -2.548999999999999932e+00, -1.800000000000000355e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -8.419999999999996376e+00, 7.249999999999999112e+00, 4.300000000000000000e+01, -2.548999999999999932e+00, -1.199999999999999822e+01, 2.400000000000000050e-02, 5.499999999999999334e-02, -1.000000000000000000e+00, 1.390000000000000124e-01, 1.710000000000000409e-01, 2.780000000000000249e-01, 1.019999999999999934e-01, 6.500000000000001610e-02, 6.900000000000000577e-02, 1.000000000000000222e+00, -5.739999999999998437e-01, 4.929999999999999383e-01, 3.899999999999999911e+00, -1.100000000000000311e+00, -1.000000000000000222e+00, 1.000000000000000222e+00, -8.320000000000003837e+00, 6.570000000000002061e+00, 3.300000000000000000e+01, -2.549000000000000377e+00, -3.000000000000000000e+00, -1.000000000000000222e+00, 1.000000000000000222e+00, -7.660000000000002807e+00, 5.910000000000001030e+00, 3.300000000000000000e+01, -2.549000000000000377e+00, 3.000000000000000000e+00, 3.500000000000001027e-02, 7.000000000000002054e-02, -1.000000000000000000e+00, 1.499999999999999944e-01, 1.849999999999999978e-01, 2.310000000000000386e-01, -3.600000000000000422e-02, 8.799999999999999489e-02, 1.670000000000000095e-01, 1.411999999999999922e+00, -2.193999999999999950e+00, 1.999000000000000332e+00, 3.300000000000000266e+00, -3.560000000000000386e-01, -3.090000000000001190e+00, 3.500000000000000333e-02, 7.000000000000000666e-02, -9.999999999999998890e-01, 1.499999999999999944e-01, 1.849999999999999700e-01, 2.310000000000000386e-01, 8.500000000000000611e-02, 8.800000000000000877e-02, 4.600000000000000616e-02, 1.412000000000000144e+00, -3.819999999999999507e-01, 3.290000000000000147e-01, 2.600000000000000533e+00, -7.400000000000001021e-01, -1.000000000000000222e+00, 1.000000000000000222e+00, 1.000000000000000000e+00, 1.193000000000000327e+01, -1.446000000000000263e+01, 2.100000000000000355e+01, -1.750000000000000722e-01, -2.500000000000000355e+01, 1.700000000000000000e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, 4.399999999999999467e+00, -5.569999999999999396e+00, -1.900000000000000000e+01, -1.749999999999999889e-01, 1.299999999999999822e+01, -1.000000000000000222e+00, 1.000000000000000222e+00, -1.850000000000000089e+00, 1.140000000000000124e+00, -1.580000000000000071e+01, 6.600000000000000000e+01, -3.220000000000000084e-01, 1.000000000000000000e+00, -6.780000000000000471e-01, -7.139999999999999680e-01, -2.859999999999999765e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 9.999999999999998890e-01, 4.045999999999999375e+00, -5.220000000000000639e+00, -1.140300000000000047e+01, -3.649999999999999911e-01, -9.999999999999998890e-01, 9.999999999999997780e-01, -1.122299999999999720e+01, -5.219999999999999751e+00, -1.140300000000000047e+01, -5.849999999999998535e-01, -1.000000000000000000e+00, 4.480000000000000093e-01, 5.520000000000000462e-01, -1.600000000000000033e-02, -1.000000000000000000e+00, 9.899999999999999911e-01, -1.173999999999999710e+00, -7.187990000000000634e+01, 5.662999999999998835e+01, -4.109999999999999765e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, -8.970000000000001306e-01, 1.282000000000000250e+00, -7.810000000000000497e+00, -3.589999999999999303e-01, -1.000000000000000000e+00, 9.899999999999999911e-01, -2.009799999999999898e+01, -7.187990000000000634e+01, 5.662999999999998835e+01, -6.570000000000000284e-01, -9.999999999999998890e-01, 9.999999999999998890e-01, -1.717899999999999494e+01, 1.281999999999999806e+00, -7.810000000000000497e+00, -5.739999999999998437e-01, -1.000000000000000000e+00, 1.199999999999999956e-01, 8.800000000000002265e-01, 1.013000000000000123e+00, 4.050000000000000711e+01, -3.232100000000000506e+01, -3.150000000000000022e-01, -1.000000000000000000e+00, 3.220000000000000084e-01, 6.780000000000000471e-01, -1.600000000000000033e-02, -1.000000000000000000e+00, 1.199999999999999956e-01, 8.800000000000000044e-01, -1.361200000000000010e+01, 4.050000000000000711e+01, -3.232100000000000506e+01, -5.040000000000000036e-01, -9.999999999999997780e-01, 9.999999999999997780e-01, 1.909999999999999787e+01, -6.960689899999998431e+01, 2.820599999999998531e+01, -4.149999999999999245e-01, -1.000000000000000222e+00, 1.000000000000000000e+00, 2.390000000000000124e+00, 5.250000000000000000e+01, -3.750000000000000000e+01, -3.520000000000000351e-01, -9.999999999999997780e-01, 9.999999999999997780e-01, 6.663999999999998813e+00, -6.960689899999998431e+01, 2.820599999999998531e+01, -6.630000000000000338e-01, -1.000000000000000222e+00, 9.999999999999998890e-01, -1.512500000000000178e+01, 5.250000000000000000e+01, -3.750000000000000000e+01, -5.600000000000000533e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.059999999999999964e+01, 2.430000000000000071e+01, -8.000000000000001776e+00, 1.750000000000000000e+00, -1.239999999999999769e+00, 9.000000000000000000e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -9.300000000000000711e+00, 2.459999999999999787e+01, 1.050000000000000355e+01, 1.750000000000000000e+00, -1.239999999999999769e+00, 9.000000000000000000e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.514800000000000324e+01, -1.058799999999999919e+01, -3.500000000000000000e+01, -9.999999999999998890e-01, 1.000000000000000000e+00, -9.800000000000002487e+00, 1.059999999999999787e+01, -8.000000000000000000e+00, 1.749999999999999778e+00, -1.239999999999999769e+00, -3.309999999999999609e+00, -1.000000000000000000e+00, 1.000000000000000222e+00, -8.500000000000001776e+00, 1.069999999999999751e+01, 1.050000000000000000e+01, 1.749999999999999556e+00, -1.239999999999999991e+00, -6.869999999999999218e+00, -1.000000000000000000e+00, 1.114000000000000101e+00, -1.000000000000000222e+00, 1.000000000000000222e+00, 1.000000000000000000e+00, -1.075000000000000178e+01, 9.250000000000001776e+00, -2.100000000000000355e+01, -2.500000000000000355e+01, -8.000000000000001776e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.025999999999999979e+01, 8.759999999999999787e+00, -1.100000000000000000e+01, -2.500000000000000000e+01, -7.999999999999999112e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.828000000000000114e+01, 1.710999999999999943e+01, -4.400000000000000000e+01, -3.000000000000000355e+01, -1.000000000000000000e+00, 9.999999999999998890e-01, -1.778999999999999559e+01, 1.661999999999999744e+01, -4.400000000000000000e+01, -2.000000000000000000e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.752000000000000313e+01, 1.577000000000000313e+01, -5.400000000000000711e+01, -1.500000000000000178e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.703000000000000114e+01, 1.527999999999999936e+01, -5.400000000000000711e+01, -5.000000000000000888e+00, 1.000000000000000222e+00, 1.000000000000000000e+00, 1.065999999999999837e+00, -4.169999999999999929e+00, 4.860000000000000320e+00, -3.730000000000000537e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.666600000000000037e+01, -4.169999999999999929e+00, 4.860000000000000320e+00, -5.739999999999999547e-01, -1.116000000000000014e+01, 1.000000000000000000e+00, -1.116099999999999781e+01, 1.000000000000000000e+00, -5.000000000000000000e-01, -5.050000000000000044e-01, 1.000000000000000000e+00, -2.300000000000000100e-01, -3.699999999999999400e-01, -4.040000000000000258e-01, 1.000000000000000000e+00, -7.099999999999999367e-02, -5.100000000000000089e-01, -4.239999999999999880e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.744999999999999885e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, 6.849999999999998757e+00, -1.000000000000000000e+00, 1.050999999999999934e+00, -1.000000000000000222e+00, 1.048999999999999932e+00, 9.999999999999997780e-01, -9.999999999999998890e-01, 2.099999999999999645e+00, -9.299999999999997158e-01, 9.999999999999998224e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -2.000000000000000000e+00, -1.299999999999999822e+00, -7.420000000000000817e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 7.000000000000000666e-01, -2.720000000000000284e+01, -2.000000000000000000e+00, -1.299999999999999822e+00, -7.419999999999999041e+00, -6.799999999999999378e-01, 1.310000000000000053e+00, -2.319999999999999396e+00, 1.689999999999999725e+00, -4.600000000000000200e-01, -5.400000000000000355e-01, 1.000000000000000000e+00, -7.199999999999998623e-01, 1.550000000000000488e+00, -2.470000000000000195e+00, 1.650000000000000133e+00, -3.799999999999999489e-01, -6.300000000000000044e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -8.000000000000000444e-01, -5.400000000000001243e+00, 2.499999999999999556e+00, -5.000000000000000000e-01, -7.420000000000000817e+00, 1.000000000000000222e+00, 1.088000000000000300e+00, 9.690000000000000835e-01, 1.000000000000000000e+00, 1.081000000000000183e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.089999999999999858e+00, -1.000000000000000000e+00, 1.079999999999999849e+00, 1.060000000000000053e+00, -1.000000000000000000e+00, 9.329999999999999405e-01, -1.000000000000000000e+00, 6.699999999999999012e-02, 1.999999999999999556e+00, -4.999999999999999112e+00, -5.140000000000000124e-01, 4.359999999999999987e-01, -2.500000000000000000e+00, -6.699999999999999289e-01, -9.160000000000000364e-01, 9.999999999999998890e-01, -8.399999999999999134e-02, -3.499999999999999223e-01, 3.799999999999999489e-01, -2.750000000000000000e+00, 5.500000000000000000e+00, 2.800000000000000822e-01, -2.600000000000000089e-01, 5.899999999999999689e-01, -7.599999999999998979e-01, -3.439999999999999725e-01, 1.000000000000000222e+00, -6.560000000000002496e-01, 4.000000000000000222e-01, 1.400000000000000133e-01, 2.580000000000000515e+00, 2.220000000000000195e+00, -2.040000000000000480e+00, 6.559999999999998721e+00, -4.919999999999999929e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 4.100000000000000311e-01, 6.000000000000000000e+00, -1.000000000000000000e+00, 1.010000000000000009e+00, 1.799999999999999951e-03, 4.400000000000000265e-03, 1.220000000000000077e-02, 4.259999999999999898e-02, 8.899999999999999578e-02, 5.800000000000000294e-02, 9.299999999999999933e-02, 1.170000000000000068e-01, 3.699999999999999817e-02, 5.450000000000000400e-01, -2.819999999999999937e-02, 1.000000000000000222e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 2.079999999999999905e-01, 1.010000000000000009e+00, 1.500000000000000031e-03, 3.799999999999999992e-03, 1.140000000000000041e-02, 4.030000000000000249e-02, 1.150000000000000050e-01, 6.800000000000000488e-02, 1.150000000000000050e-01, 1.360000000000000098e-01, 4.700000000000000011e-02, 4.620000000000000218e-01, -3.309999999999999748e-02, 1.000000000000000222e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 2.399999999999999911e-01, 1.010000000000000009e+00, 1.299999999999999940e-03, 2.799999999999999972e-03, 1.250000000000000069e-02, 4.039999999999999841e-02, 1.049999999999999961e-01, 6.400000000000000133e-02, 1.010000000000000064e-01, 8.200000000000000344e-02, 8.100000000000000255e-02, 5.100000000000000089e-01, -3.080000000000000446e-02, 1.000000000000000222e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 2.079999999999999905e-01, -9.000000000000000222e-01, 1.000000000000000000e+00, -1.000000000000000056e-01, -1.000000000000000000e+00, 1.189999999999999947e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000222e+00, -2.240000000000000213e+00, 1.641000999999999976e+02, -1.000000000000000000e+02, -3.669999999999999929e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.309999999999999964e+01, 1.641000999999999976e+02, -1.000000000000000000e+02, -7.339999999999999858e-01, -1.000000000000000000e+00, 9.999999999999998890e-01, 9.999999999999997780e-01, 3.697000000000000597e+01, 5.500000000000000000e+01, -8.789989900000000489e+01, -3.230000000000000093e-01, -1.000000000000000000e+00, 1.000000000000000222e+00, 9.999999999999997780e-01, 3.106000000000000227e+01, 5.500000000000000000e+01, -8.789989900000000489e+01, -6.450000000000000178e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, -9.999999999999998890e-01, 1.109999999999999876e+00, 1.150000000000000189e-01, 7.699999999999999900e-02, 1.150000000000000189e-01, -1.000000000000000000e+00, 6.929999999999999494e-01, -1.200000000000000233e-01, 1.000000000000000000e+00, -9.800000000000002043e-01, -4.299999999999999822e+00, -8.000000000000000000e+00, -1.900000000000000300e-01, 1.280000000000000027e-01, 8.599999999999997924e-02, 1.269999999999999740e-01, -9.999999999999998890e-01, 6.590000000000001412e-01, -1.260000000000000009e-01, 9.999999999999998890e-01, -2.500000000000000000e+00, -3.100000000000000089e+00, -3.799999999999999822e+00, -1.779999999999999916e-01, 1.370000000000000107e-01, 9.099999999999999756e-02, 1.370000000000000107e-01, -1.000000000000000000e+00, 6.350000000000000089e-01, -1.300000000000000044e-01, 1.099999999999999867e+00, -4.610000000000001208e+00, -2.900000000000000355e+00, -1.689999999999999836e-01, 9.699999999999998901e-02, 6.499999999999998834e-02, 9.699999999999998901e-02, -9.999999999999998890e-01, 7.409999999999999920e-01, -1.130000000000000032e-01, 9.099999999999998090e-01, -3.019999999999999130e+00, -8.299999999999998934e+00, -1.269999999999999574e+01, -4.149999999999999245e-01, 7.299999999999999545e-02, 3.999999999999999389e-02, 6.300000000000000044e-02, -1.000000000000000000e+00, 8.240000000000000657e-01, -1.100000000000000144e-01, 9.099999999999998090e-01, 7.469999999999999751e+00, -1.609999999999999787e+01, -2.200000000000000178e+00, -4.750000000000000333e-01, 1.150000000000000189e-01, 7.699999999999999900e-02, 1.150000000000000189e-01, -1.000000000000000000e+00, 6.930000000000000604e-01, -1.199999999999999956e-01, 1.000000000000000000e+00, -6.330000000000000071e+00, -4.300000000000000711e+00, -8.000000000000000000e+00, -3.800000000000000600e-01, 9.199999999999999845e-02, 6.199999999999999262e-02, 9.399999999999998634e-02, -1.000000000000000000e+00, 7.519999999999998908e-01, -1.199999999999999956e-01, 9.999999999999996669e-01, -1.059999999999999831e+00, -6.799999999999998934e+00, -4.799999999999999822e+00, -2.039999999999999591e-01, 1.039999999999999952e-01, 7.000000000000000666e-02, 1.039999999999999952e-01, -1.000000000000000000e+00, 7.219999999999999751e-01, -1.260000000000000009e-01, 9.999999999999997780e-01, -2.739999999999999769e+00, -5.099999999999999645e+00, -1.399999999999999689e+00, -1.940000000000000058e-01, 1.139999999999999902e-01, 7.599999999999999811e-02, 1.130000000000000032e-01, -9.999999999999998890e-01, 6.969999999999999529e-01, -1.300000000000000044e-01, 1.100000000000000089e+00, -5.020000000000000462e+00, -4.400000000000000355e+00, -1.699999999999999734e+00, -1.839999999999999969e-01, 7.199999999999999456e-02, 4.800000000000000794e-02, 8.100000000000000255e-02, -1.000000000000000000e+00, 7.990000000000002656e-01, -1.130000000000000032e-01, 9.099999999999999201e-01, -3.210000000000000409e+00, -1.100000000000000178e+01, -8.300000000000002487e+00, -4.410000000000000031e-01, 5.599999999999999423e-02, 3.199999999999999373e-02, 5.000000000000000971e-02, -1.000000000000000000e+00, 8.619999999999998774e-01, -1.100000000000000144e-01, 9.099999999999998090e-01, 7.669999999999999929e+00, -2.119999999999999574e+01, -1.100000000000000089e+00, -4.879999999999999893e-01, 9.199999999999999845e-02, 6.199999999999999956e-02, 9.400000000000000022e-02, -1.000000000000000000e+00, 7.519999999999998908e-01, -1.199999999999999678e-01, 1.000000000000000000e+00, -6.809999999999998721e+00, -6.799999999999998934e+00, -4.800000000000000711e+00, -4.089999999999998637e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 9.600000000000000200e-02, 6.400000000000000133e-02, 9.500000000000000111e-02, -6.199999999999999956e-01, -3.800000000000000044e-01, 7.450000000000001066e-01, -1.200000000000000094e-01, 1.000000000000000222e+00, -6.699999999999998179e-01, -8.099999999999997868e+00, -1.399999999999999911e+00, -2.039999999999999869e-01, 1.100000000000000006e-01, 7.399999999999999634e-02, 1.089999999999999858e-01, -6.199999999999999956e-01, -3.800000000000000044e-01, 7.069999999999999618e-01, -1.260000000000000009e-01, 1.000000000000000000e+00, -2.680000000000000160e+00, -6.000000000000000000e+00, -8.999999999999999112e-01, -1.900000000000000022e-01, 1.239999999999999991e-01, 7.399999999999998246e-02, 1.189999999999999947e-01, -6.199999999999999956e-01, -3.800000000000000044e-01, 6.830000000000001625e-01, -1.300000000000000044e-01, 1.099999999999999867e+00, -4.519999999999999574e+00, -4.799999999999999822e+00, 4.299999999999999822e+00, -1.819999999999999951e-01, 7.599999999999999811e-02, 5.000000000000000278e-02, 7.699999999999999900e-02, -6.199999999999998845e-01, -3.800000000000000044e-01, 7.970000000000000417e-01, -1.129999999999999893e-01, 9.099999999999998090e-01, -2.810000000000000053e+00, -1.140000000000000036e+01, -4.439999999999999503e-01, 5.000000000000000278e-02, 2.699999999999999623e-02, 4.299999999999999656e-02, -6.199999999999999956e-01, -3.800000000000000044e-01, 8.800000000000000044e-01, -1.100000000000000006e-01, 9.100000000000000311e-01, 8.019999999999999574e+00, -1.540000000000000213e+01, 1.680000000000000426e+01, -5.100000000000000089e-01, 9.599999999999998812e-02, 6.400000000000000133e-02, 9.500000000000000111e-02, -6.200000000000001066e-01, -3.800000000000000044e-01, 7.450000000000001066e-01, -1.199999999999999956e-01, 9.999999999999998890e-01, -6.600000000000000533e+00, -8.099999999999997868e+00, -1.400000000000000133e+00, -4.070000000000000284e-01, 7.600000000000001199e-02, 5.000000000000000278e-02, 7.600000000000001199e-02, -6.250000000000000000e-01, -3.750000000000000555e-01, 7.980000000000000426e-01, -1.199999999999999817e-01, 1.000000000000000000e+00, -7.100000000000000755e-01, -1.300000000000000000e+01, 1.999999999999999778e+00, -2.149999999999999967e-01, 8.500000000000000611e-02, 5.700000000000000899e-02, 8.599999999999999312e-02, -6.250000000000000000e-01, -3.750000000000000000e-01, 7.720000000000001306e-01, -1.260000000000000009e-01, 1.000000000000000222e+00, -2.899999999999999911e+00, -1.019999999999999929e+01, 3.900000000000000355e+00, -2.059999999999999609e-01, 9.600000000000001588e-02, 5.800000000000000294e-02, 9.099999999999999756e-02, -6.250000000000000000e-01, -3.750000000000000000e-01, 7.550000000000001155e-01, -1.299999999999999767e-01, 1.100000000000000089e+00, -4.949999999999999289e+00, -8.500000000000000000e+00, 5.599999999999999645e+00, -1.980000000000000093e-01, 6.100000000000000561e-02, 4.100000000000000172e-02, 6.200000000000001343e-02, -6.249999999999998890e-01, -3.750000000000000000e-01, 8.360000000000000764e-01, -1.130000000000000171e-01, 9.100000000000001421e-01, -2.899999999999999911e+00, -1.559999999999999964e+01, 4.300000000000000711e+00, -4.580000000000000737e-01, 3.899999999999999994e-02, 2.100000000000000130e-02, 3.400000000000000244e-02, -6.250000000000001110e-01, -3.750000000000000555e-01, 9.059999999999999165e-01, -1.099999999999999867e-01, 9.100000000000000311e-01, 7.990000000000000213e+00, -1.910000000000000497e+01, 9.500000000000000000e+00, -5.080000000000000071e-01, 7.599999999999999811e-02, 5.000000000000000278e-02, 7.599999999999999811e-02, -6.250000000000001110e-01, -3.750000000000000555e-01, 7.980000000000001537e-01, -1.200000000000000094e-01, 1.000000000000000000e+00, -6.970000000000001528e+00, -1.300000000000000000e+01, 2.000000000000000000e+00, -4.300000000000000488e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 3.740000000000000657e+00, -8.999999999999998224e+00, -5.907000000000000028e+01, 5.600000000000000533e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, -2.990000000000000924e+01, 2.679999999999999716e+01, -3.700000000000000711e+01, -9.300000000000000000e+01, 5.599999999999999423e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, -2.396000000000000085e+01, 2.120000000000000639e+01, -1.500000000000000000e+01, -8.300000000000000000e+01, 5.600000000000000533e-01, -9.999999999999998890e-01, 9.999999999999998890e-01, -1.859999999999999876e+00, 1.299999999999999600e+00, -2.984999999999999432e+01, -3.999999999999998224e+00, -1.000000000000000222e+00, 1.000000000000000222e+00, -2.222000000000000242e+01, 1.913000000000000256e+01, -2.719999999999999929e+01, -6.400000000000000000e+01, -3.999999999999999556e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.628000000000000469e+01, 1.352000000000000135e+01, -5.200000000000000178e+00, -5.400000000000000711e+01, -4.000000000000000888e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -2.560000000000000497e+00, -2.899999999999999911e+00, -3.185000000000000142e+01, -3.999999999999999556e+00, -1.000000000000000222e+00, 1.000000000000000222e+00, -2.222000000000000242e+01, 1.913000000000000256e+01, -3.140000000000000568e+01, -6.400000000000000000e+01, -3.999999999999999556e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.628000000000000469e+01, 1.352000000000000135e+01, -9.400000000000000355e+00, -5.400000000000000711e+01, -4.000000000000000888e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -5.140000000000002345e+00, 7.299999999999998934e+00, 5.506999999999999318e+01, -3.470000000000000195e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.696000000000000085e+01, 1.387000000000000099e+01, -2.119999999999999929e+01, -4.200000000000000000e+01, -3.469999999999999751e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, -1.102000000000000313e+01, 8.259999999999999787e+00, 7.999999999999999334e-01, -3.200000000000000000e+01, -3.470000000000000195e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, -6.580000000000000071e+00, 3.500000000000000000e+00, 6.804999799999998800e+01, -3.470000000000000639e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, -1.696000000000000441e+01, 1.386999999999999744e+01, -2.500000000000000000e+01, -3.099999999999999645e+01, -3.470000000000000195e+00, -1.000000000000000000e+00, 9.999999999999998890e-01, -1.102000000000000313e+01, 8.260000000000001563e+00, -3.000000000000000888e+00, -2.100000000000000355e+01, -3.470000000000000195e+00, -1.000000000000000000e+00, 4.680000000000000271e-01, 5.320000000000000284e-01, -2.699999999999999969e-02, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 9.000000000000000222e-01, -3.990000000000000213e+00, 6.999999999999999556e-01, -1.699999999999999645e+01, -7.999999999999998224e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 6.839999999999999858e+00, -9.599999999999999645e+00, 2.269999999999999574e+01, -7.000000000000000000e+00, -7.999999999999999334e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, -7.299999999999999822e-01, -2.359999999999999876e+00, -1.599999999999999822e+01, 2.999999999999999556e+00, -8.000000000000000444e-01, -9.999999999999998890e-01, 9.999999999999998890e-01, 5.210000000000000853e+00, -7.969999999999999751e+00, 6.000000000000000888e+00, 1.300000000000000000e+01, -7.999999999999999334e-01, -1.000000000000000222e+00, 1.000000000000000000e+00, 1.690000000000000169e+00, -4.780000000000000249e+00, -1.400000000000000000e+01, -4.000000000000000000e+00, -8.000000000000000444e-01, -1.000000000000000222e+00, 1.000000000000000000e+00, 7.630000000000001670e+00, -1.039000000000000057e+01, 8.000000000000001776e+00, 6.000000000000000000e+00, -8.000000000000000444e-01, -1.469999999999999918e-01, -8.529999999999999805e-01, 1.000000000000000000e+00, -2.340000000000000135e-01, -7.660000000000000142e-01, 1.000000000000000000e+00, -1.779999999999999916e-01, -8.219999999999999529e-01, 1.000000000000000000e+00, -2.839999999999999747e-01, -7.159999999999999698e-01, 1.000000000000000000e+00, -1.000000000000000222e+00, 1.000000000000000222e+00, -7.650000000000000355e+00, 4.559999999999999609e+00, -1.500000000000000178e+01, 4.600000000000000711e+01, -7.999999999999999334e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 9.799999999999999822e-01, -9.821000000000001506e+00, 1.000000000000000000e+00, -1.527000000000000313e+01, 1.000000000000000222e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.310000000000000053e+00, -5.230000000000000426e+00, -9.999999999999996669e-01, 9.999999999999998890e-01, -4.730000000000000426e+00, -5.400000000000000355e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, 7.000000000000000888e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 5.940000000000002167e+00, -5.599999999999999645e+00, 7.000000000000000888e+00, 2.100000000000000000e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, 4.120000000000000995e+00, -2.849999999999999201e+00, 7.000000000000000888e+00, 2.100000000000000000e+01, -5.999999999999999778e-02, -1.300000000000000044e-01, -8.100000000000000533e-01, 1.000000000000000000e+00, 1.000000000000000222e+00, -1.000000000000000000e+00, -1.820000000000000062e+00, 2.760000000000000231e+00, -5.000000000000000888e+00, 8.000000000000001776e+00, 1.300000000000000044e-01, -4.000000000000000222e-01, 1.000000000000000000e+00, -7.299999999999999822e-01, 9.999999999999997780e-01, 1.010000000000000009e+00, 2.399999999999999790e-03, 9.900000000000000813e-03, 2.200000000000000133e-03, 3.819999999999999785e-02, 1.081000000000000016e-01, 2.419999999999999582e-02, 1.010000000000000203e-01, 9.290000000000001035e-02, 5.000000000000000104e-03, 6.092999999999999527e-01, -1.700000000000000122e-02, 1.000000000000000000e+00, -1.000000000000000000e+00, 4.799999999999999580e-03, 3.000000000000000000e+00, -1.000000000000000000e+00, 1.110999999999999766e+00, 1.009999999999999787e+00, 2.399999999999998922e-03, 9.900000000000000813e-03, 2.199999999999999699e-03, 4.320000000000000229e-02, 1.010999999999999677e-01, 2.419999999999999235e-02, 1.029999999999999805e-01, 1.029000000000000054e-01, 5.000000000000000104e-03, 6.062999999999998391e-01, -7.000000000000000146e-03, -1.599999999999999686e-02, 1.000000000000000000e+00, -9.999999999999997780e-01, 4.799999999999997845e-03, 1.126000000000000112e+00, 5.050000000000000044e-01, 5.050000000000001155e-01, 3.099999999999999891e-03, 9.500000000000001499e-03, 1.299999999999999940e-03, 4.900000000000000189e-02, 1.181999999999999856e-01, 2.830000000000000224e-02, 1.182000000000000134e-01, 1.101000000000000312e-01, 5.000000000000000104e-03, 3.039999999999999369e-01, 2.555999999999999939e-01, -7.000000000000001013e-03, -1.600000000000000033e-02, 1.126000000000000112e+00, -1.000000000000000000e+00, 2.700000000000000143e-03, 9.999999999999997780e-01, 1.010000000000000009e+00, 2.399999999999999790e-03, 9.900000000000000813e-03, 2.200000000000000133e-03, 3.819999999999999785e-02, 1.081000000000000016e-01, 2.419999999999999582e-02, 1.010000000000000203e-01, 9.290000000000001035e-02, 5.000000000000000104e-03, 6.092999999999999527e-01, -1.700000000000000122e-02, 4.799999999999999580e-03, 1.100000000000000089e+00, 1.010000000000000009e+00, 2.399999999999999356e-03, 8.999999999999997585e-03, 1.899999999999999779e-03, 2.589999999999999941e-02, 1.191999999999999865e-01, 5.323999999999999844e-01, 3.540000000000000091e-02, 1.272999999999999965e-01, 1.333000000000000018e-01, 4.999999999999999237e-03, -1.449999999999999727e-02, 1.100000000000000089e+00, -9.999999999999998890e-01, 6.199999999999998915e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000222e+00, 1.000000000000000000e+00, 1.026999999999999691e+00, 1.010000000000000009e+00, 3.899999999999999387e-03, 9.199999999999999845e-03, 3.999999999999999650e-04, 4.849999999999999450e-02, 1.343999999999999639e-01, 3.939999999999999059e-02, 1.272999999999999687e-01, 1.069999999999999840e-01, 5.000000000000000104e-03, 5.222999999999999865e-01, -1.499999999999999944e-02, 5.999999999999999474e-04, 1.026999999999999691e+00, 1.010000000000000009e+00, 3.899999999999999387e-03, 9.199999999999999845e-03, 3.999999999999999650e-04, 4.849999999999999450e-02, 1.343999999999999639e-01, 3.939999999999999059e-02, 1.373000000000000054e-01, 1.069999999999999840e-01, 5.000000000000000104e-03, 5.222999999999999865e-01, -1.499999999999999944e-02, 9.999999999999998890e-01, -9.999999999999998890e-01, 5.999999999999999474e-04, 1.067000000000000171e+00, 1.010000000000000231e+00, 1.500000000000000031e-03, 4.899999999999999842e-03, 8.999999999999999754e-04, 1.370000000000000037e-02, 6.869999999999998330e-02, 6.486000000000000654e-01, 2.530000000000000304e-02, 1.010000000000000064e-01, 1.242999999999999938e-01, 5.000000000000000104e-03, -1.700000000000000469e-02, 1.066999999999999948e+00, 4.100000000000001213e-03, 1.067000000000000171e+00, 1.010000000000000231e+00, 1.500000000000000031e-03, 4.899999999999999842e-03, 8.999999999999999754e-04, 1.370000000000000037e-02, 6.869999999999998330e-02, 3.684000000000000052e-01, 2.530000000000000304e-02, 1.010000000000000064e-01, 1.242999999999999938e-01, 5.000000000000000104e-03, 1.680000000000000243e-02, 1.107000000000000067e-01, 1.527000000000000302e-01, 2.802000000000000046e-01, -2.400000000000000397e-02, 1.066999999999999948e+00, 4.100000000000001213e-03, 1.100000000000000089e+00, 1.010000000000000009e+00, 2.000000000000000096e-04, 4.000000000000000192e-04, 2.999999999999999195e-04, 2.359999999999999945e-02, 7.000000000000000666e-02, 2.999999999999999195e-02, 1.499999999999999944e-01, 2.199999999999999734e-01, 4.999999999999999237e-03, 4.999999999999998890e-01, -1.700000000000000122e-02, 1.100000000000000089e+00, -9.999999999999998890e-01, 5.000000000000000104e-04, 1.100000000000000089e+00, 1.009999999999999787e+00, 2.000000000000000042e-03, 7.199999999999999803e-03, 5.000000000000000104e-04, 3.779999999999999333e-02, 1.494999999999999662e-01, 5.009000000000000119e-01, 4.359999999999999293e-02, 1.228000000000000203e-01, 1.257000000000000062e-01, 5.000000000000000104e-03, -1.700000000000000122e-02, 1.099999999999999867e+00, -1.000000000000000000e+00, 2.999999999999999629e-03, 1.100000000000000089e+00, 1.009999999999999787e+00, 2.000000000000000042e-03, 7.199999999999999803e-03, 5.000000000000000104e-04, 3.779999999999999333e-02, 1.494999999999999662e-01, 5.009000000000000119e-01, 4.359999999999999293e-02, 1.228000000000000203e-01, 1.257000000000000062e-01, 5.000000000000000104e-03, -1.700000000000000122e-02, 2.999999999999999629e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.540099999999999980e+01, 1.414000000000000234e+01, 2.800000000000000058e-02, 1.010000000000000064e-01, 7.000000000000000146e-03, 5.290000000000000258e-01, 2.092999999999999527e+00, 6.099999999999998757e-01, 1.719000000000000528e+00, 1.760000000000000009e+00, 1.777000000000000135e+00, 7.000000000000000666e-02, 9.330000000000001625e-01, 2.194999999999999396e+00, 1.087999999999999856e+00, 9.999999999999997780e-01, 7.061999999999999389e+00, -6.410000000000000142e-01, 4.200000000000000261e-02, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 4.665000000000000036e+00, -8.965500000000000114e+01, 2.389499969999999962e+02, -2.068998969999999815e+02, -5.789999999999999591e-01, -2.000000000000000475e-03, -1.000000000000000000e+00, 1.000000000000000222e+00, -1.379000000000000004e+00, -8.965500000000000114e+01, 2.389499969999999962e+02, -2.068998969999999815e+02, -4.249999999999999889e-01, -2.000000000000000475e-03, -1.000000000000000222e+00, 1.000000000000000222e+00, -2.258600000000000563e+01, 1.877519969999999887e+02, 9.499999999999998579e+01, -7.720000000000000195e-01, -2.000000000000000475e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, -5.440000000000000391e-01, -4.899999999999999911e-01, -7.000000000000000666e-02, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.459999999999999909e-01, 3.300000000000000155e-02, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.599999999999998535e-01, -9.920000000000003126e+01, 1.320800970000000234e+02, -1.279999999999999858e+02, -5.380000000000000338e-01, -2.220000000000000306e-01, -9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, -3.200000000000000178e+00, -9.920000000000000284e+01, 1.320800970000000234e+02, -1.279999999999999716e+02, -3.939999999999999614e-01, -2.220000000000000306e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.815399999999999991e+01, 5.807399999999999807e+01, -4.999999999999998224e+00, -6.889999999999999458e-01, -3.000000000000000062e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, 1.000000000000000000e+00, 2.922999999999999332e+01, -7.999999999999998579e+01, 6.112999999999999545e+01, -3.076999999999999957e+01, -3.800000000000000044e-01, -3.000000000000000062e-03, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, 9.999999999999998890e-01, -7.833000000000001073e+00, -1.496999999999999886e+01, -8.400000000000000355e+00, 1.300000000000000178e+01, -2.729000000000000092e+00, -1.000000000000000222e+00, 1.000000000000000222e+00, -1.007999999999999829e+01, 4.879999999999999893e+00, -8.400000000000000355e+00, 1.300000000000000000e+01, -2.729000000000000092e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.399999999999999986e-03, -5.670000000000001705e+00, 1.400000000000000178e+01, -2.006999999999999673e+01, 9.999999999999998890e-01, -5.586999999999999744e+00, 4.268000000000000682e+00, -5.000000000000000000e+00, -6.260000000000000009e-01, -9.999999999999998890e-01, 1.000000000000000000e+00, 1.047499999999999964e+01, -3.351899999999999835e+01, 7.060000000000001386e+00, -6.980000000000001315e+00, -3.440000000000000280e-01, -1.000000000000000000e+00, -9.999999999999997780e-01, 1.109999999999999876e+00, 1.000000000000000000e+00, 1.396600000000000108e+01, -3.351899999999999835e+01, 7.060000000000000497e+00, -6.980000000000002203e+00, -4.690000000000000280e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, -1.095700000000000074e+01, 7.843089999999999407e+01, -4.687999999999999545e+01, 3.460000000000000142e+01, -3.870000000000000107e-01, -9.999999999999998890e-01, 1.000000000000000000e+00, -1.533999999999999986e+01, 7.843090000000000828e+01, -4.687999999999998835e+01, 3.460000000000000142e+01, -2.840000000000000302e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 5.293999999999999595e+00, -6.911790000000000589e+01, 4.419800000000000040e+01, -2.646999999999999886e+01, -4.940000000000000502e-01, -3.000000000000000062e-03, -1.000000000000000000e+00, 9.999999999999998890e-01, -1.029999999999999583e+00, -6.911790000000000589e+01, 4.419800000000000040e+01, -2.646999999999999531e+01, -3.619999999999999885e-01, -3.000000000000000062e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, -2.014699999999999847e+01, 4.124399999999999977e+01, -5.000000000000000000e+00, -6.590000000000000302e-01, -2.999999999999999629e-03, -1.000000000000000000e+00, 9.999999999999997780e-01, 3.015000000000000568e+00, 4.522599999999999909e+01, -5.089000000000000057e+01, 2.512999999999999545e+01, -3.099999999999999423e-01, -2.000000000000000042e-03, -1.000000000000000222e+00, 1.000000000000000222e+00, -1.520100000000000229e+01, -5.340999999999999659e+01, -4.999999999999999112e+00, -5.629999999999999449e-01, -2.000000000000000475e-03, -1.239999999999999991e-01, -7.089999999999999636e-01, 1.000000000000000000e+00, 1.239999999999999991e-01, -1.670000000000000095e-01, -3.099999999999999978e-02, -1.219999999999999973e-01, -4.719999999999999751e-01, 1.000000000000000000e+00, 1.219999999999999973e-01, -4.060000000000000275e-01, -3.799999999999999906e-02, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.429000000000000270e+00, -2.448999999999999488e+01, -5.000000000000000888e+00, -4.799999999999999822e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, -3.142999999999999794e+00, 1.429000000000000048e+00, -2.448999999999999488e+01, -5.000000000000000888e+00, -3.519999999999999241e-01, -6.250000000000000888e+00, 1.000000000000000000e+00, -1.026799999999999891e+01, 9.999999999999997780e-01, -1.116000000000000369e+01, 1.000000000000000000e+00, -9.999999999999998890e-01, 1.000000000000000000e+00, 2.745900000000000318e+01, -3.654299999999999926e+01, -4.999999999999998224e+00, -6.119999999999999885e-01, -2.000000000000000042e-03, -2.500000000000000000e-01, -7.499999999999997780e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -6.999999999999999556e-01, -2.999999999999999334e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, 2.570599999999999596e+01, -3.624799999999999756e+01, -5.000000000000000000e+00, -6.030000000000000915e-01, -2.000000000000000042e-03, -2.500000000000000000e-01, -7.500000000000000000e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, -6.999999999999999556e-01, -2.999999999999999889e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 2.900000000000000147e-02, 4.299999999999999656e-02, -9.999999999999998890e-01, 7.550000000000000044e-01, 8.829999999999998961e-01, -8.657000000000001805e+00, -1.231400000000000006e+01, -2.265000000000000124e+00, -4.510000000000000120e-01, -1.200000000000000094e-01, 8.699999999999999400e-02, 8.599999999999999312e-02, 4.199999999999999567e-02, 7.099999999999999367e-02, -9.999999999999998890e-01, 6.209999999999999964e-01, 1.533000000000000140e+00, 1.000000000000000000e+00, -1.610999999999999988e+00, 4.832000000000000739e+00, -4.213000000000000078e+00, 2.420000000000000373e+00, -2.710000000000000187e-01, -1.330000000000000349e-01, 1.329999999999999793e-01, 1.329999999999999793e-01, 4.199999999999999567e-02, 7.099999999999999367e-02, -9.999999999999998890e-01, 6.209999999999999964e-01, 1.533000000000000140e+00, 1.000000000000000000e+00, -4.025999999999999801e+00, 4.831999999999999851e+00, -4.213000000000000078e+00, 2.420000000000000373e+00, -1.980000000000000371e-01, -1.330000000000000349e-01, 1.329999999999999793e-01, 1.329999999999999793e-01, 2.300000000000000308e-02, 3.100000000000000325e-02, -7.500000000000000000e-01, -2.499999999999999445e-01, 8.060000000000001608e-01, 8.719999999999998863e-01, -8.685000000000000497e+00, -1.560200000000000031e+01, -2.418000000000000149e+00, -4.739999999999999769e-01, -1.200000000000000094e-01, 7.000000000000000666e-02, 7.000000000000000666e-02, 2.999999999999999889e-02, 4.399999999999999745e-02, -7.499999999999998890e-01, -2.500000000000000000e-01, 7.299999999999999822e-01, 9.819999999999999840e-01, 3.189000000000000057e+00, 4.832000000000000739e+00, -1.003000000000000114e+01, 5.799999999999998934e+00, -3.250000000000000111e-01, -1.200000000000000094e-01, 9.800000000000000377e-02, 9.800000000000000377e-02, 2.999999999999999889e-02, 4.399999999999999745e-02, -7.499999999999998890e-01, -2.500000000000000000e-01, 7.299999999999999822e-01, 9.819999999999999840e-01, 9.699999999999998901e-02, 4.831999999999999851e+00, -1.003000000000000114e+01, 5.799999999999998934e+00, -2.379999999999999893e-01, -1.200000000000000094e-01, 9.800000000000000377e-02, 9.800000000000000377e-02, 2.299999999999999961e-02, 2.999999999999999889e-02, -7.399999999999999911e-01, -2.600000000000000644e-01, 7.760000000000000231e-01, 9.630000000000001892e-01, 3.370999999999999552e+00, 8.683000000000001606e+00, -1.557000000000000028e+01, 7.150000000000001243e+00, -3.430000000000000826e-01, -1.140000000000000180e-01, 8.599999999999999312e-02, 8.500000000000000611e-02, 2.299999999999999961e-02, 2.999999999999999889e-02, -7.399999999999999911e-01, -2.600000000000000644e-01, 7.760000000000000231e-01, 9.630000000000001892e-01, 1.020000000000000073e-01, 8.682999999999999829e+00, -1.557000000000000028e+01, 7.150000000000001243e+00, -2.520000000000000018e-01, -1.140000000000000180e-01, 8.599999999999999312e-02, 8.500000000000000611e-02, 4.000000000000000083e-02, 5.999999999999999778e-02, -2.999999999999999889e-01, -6.999999999999998446e-01, 6.600000000000000311e-01, 1.149999999999999911e+00, -1.199999999999999956e-01, 1.199999999999999956e-01, 1.199999999999999956e-01, 3.500000000000000333e-02, 5.500000000000000028e-02, -9.999999999999998890e-01, 6.840000000000000524e-01, 1.000000000000000000e+00, -1.199999999999999956e-01, 1.130000000000000032e-01, 1.130000000000000032e-01, 4.200000000000000261e-02, 7.099999999999999367e-02, 2.139999999999999958e-01, -9.999999999999997780e-01, 3.599999999999999312e-01, 1.900000000000000300e-02, 2.800000000000000058e-02, 1.533000000000000140e+00, 1.000000000000000222e+00, 2.674999999999999822e+00, -1.167499999999999893e+01, 2.456999999999999851e+00, -2.429999999999999716e+00, -1.630000000000000060e-01, -1.330000000000000349e-01, 1.330000000000000071e-01, 1.330000000000000071e-01, 4.200000000000000261e-02, 7.099999999999997979e-02, 2.139999999999999958e-01, -1.000000000000000000e+00, 3.599999999999999312e-01, 1.899999999999999953e-02, 2.800000000000000058e-02, 1.532999999999999918e+00, 9.999999999999998890e-01, 9.729999999999998650e-01, -1.167599999999999660e+01, 2.456999999999999407e+00, -2.429999999999999716e+00, -1.189999999999999669e-01, -1.330000000000000071e-01, 1.329999999999999793e-01, 1.329999999999999793e-01, 2.800000000000000058e-02, 4.000000000000000083e-02, -1.000000000000000000e+00, 7.349999999999999867e-01, 9.770000000000000906e-01, -1.140000000000000041e-01, 9.800000000000000377e-02, 9.900000000000000466e-02, 3.400000000000000244e-02, 5.399999999999999245e-02, 2.359999999999999598e-01, -9.999999999999998890e-01, 3.950000000000000178e-01, 1.899999999999999953e-02, 2.999999999999999542e-02, 1.497999999999999998e+00, 9.769999999999999796e-01, 2.935999999999999499e+00, -1.281099999999999994e+01, 2.700000000000000178e+00, -2.669999999999999485e+00, -1.789999999999999925e-01, -1.259999999999999731e-01, 1.159999999999999920e-01, 1.159999999999999920e-01, 3.400000000000000244e-02, 5.399999999999999939e-02, 2.360000000000000153e-01, -1.000000000000000000e+00, 3.950000000000000178e-01, 1.899999999999999953e-02, 3.000000000000000583e-02, 1.498000000000000442e+00, 9.769999999999999796e-01, 1.066999999999999948e+00, -1.280999999999999872e+01, 2.699999999999999734e+00, -2.669999999999999929e+00, -1.310000000000000053e-01, -1.260000000000000009e-01, 1.160000000000000198e-01, 1.160000000000000198e-01, 2.999999999999999889e-02, 4.399999999999999745e-02, 2.600000000000000089e-01, -7.499999999999997780e-01, -2.500000000000000000e-01, 1.400000000000000029e-02, 2.299999999999999961e-02, 9.820000000000002061e-01, 4.329999999999999960e-01, -1.199999999999999956e-01, 9.800000000000000377e-02, 9.800000000000000377e-02, 3.500000000000000333e-02, 5.500000000000000028e-02, 1.419999999999999873e-01, -1.000000000000000222e+00, 5.099999999999999672e-02, 1.359000000000000208e+00, 4.910000000000001030e-01, -1.710000000000000131e-01, 1.130000000000000171e-01, 1.130000000000000171e-01, 3.500000000000000333e-02, 5.499999999999999334e-02, 1.039999999999999813e-01, -9.999999999999998890e-01, 3.799999999999999212e-02, 5.999999999999998390e-02, 1.209999999999999964e+00, 4.819999999999999285e-01, -1.499999999999999667e-01, 1.129999999999999893e-01, 1.129999999999999893e-01, 3.500000000000000333e-02, 5.499999999999999334e-02, 1.699999999999999845e-01, -9.999999999999998890e-01, 3.200000000000000067e-02, 1.209999999999999964e+00, 4.819999999999999285e-01, -1.499999999999999667e-01, 1.129999999999999893e-01, 1.129999999999999893e-01, 2.800000000000000405e-02, 4.000000000000000083e-02, 1.600000000000000033e-01, -9.999999999999998890e-01, 5.199999999999999067e-02, 1.336000000000000076e+00, 5.230000000000001315e-01, -1.630000000000000060e-01, 9.800000000000000377e-02, 9.900000000000000466e-02, 2.800000000000000058e-02, 4.000000000000000083e-02, 1.199999999999999817e-01, -1.000000000000000000e+00, 3.899999999999999994e-02, 6.200000000000000649e-02, 1.187999999999999945e+00, 5.140000000000000124e-01, -1.419999999999999873e-01, 9.900000000000000466e-02, 9.800000000000000377e-02, 2.800000000000000058e-02, 4.000000000000000083e-02, 1.879999999999999727e-01, -1.000000000000000000e+00, 3.300000000000000155e-02, 1.187999999999999945e+00, 5.140000000000000124e-01, -1.419999999999999873e-01, 9.900000000000000466e-02, 9.800000000000000377e-02, 2.299999999999999961e-02, 2.999999999999999889e-02, 2.570000000000000062e-01, -7.399999999999999911e-01, -2.600000000000000089e-01, 1.499999999999999944e-02, 2.400000000000000050e-02, 9.630000000000000782e-01, 4.799999999999999267e-01, -1.140000000000000041e-01, 8.599999999999999312e-02, 8.500000000000000611e-02, 1.000000000000000000e+00, -1.000000000000000000e+00, 3.732000000000000206e+00, 6.440000000000001279e-01, -1.093599999999999994e+01, 6.430000000000000604e+00, -4.320000000000000506e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 2.570000000000000062e-01, 6.429999999999999050e-01, -1.093599999999999994e+01, 6.430000000000000604e+00, -3.170000000000000040e-01, 2.680000000000000160e-01, 2.400000000000000050e-02, -1.000000000000000000e+00, 3.799999999999999906e-02, 6.700000000000001510e-01, 3.099999999999999978e-01, 2.000000000000000042e-02, -1.000000000000000000e+00, 6.700000000000001510e-01, -1.020000000000000018e+00, 9.999999999999998890e-01, 6.999999999999999278e-03, -3.480999999999998984e+00, 4.729999999999999716e+01, -3.156700000000000372e+01, -2.300000000000000308e-02, 1.299999999999999940e-02, -1.020000000000000240e+00, 1.000000000000000222e+00, 2.000000000000000096e-04, 6.107999999999998764e+00, -1.300000000000000000e+01, -3.429299999999999926e+01, -2.300000000000000308e-02, 1.299999999999999940e-02, -1.020000000000000240e+00, 1.000000000000000222e+00, -8.000000000000000383e-04, 4.408999999999998920e+00, -9.699999999999997513e+00, -3.382699999999999818e+01, -2.299999999999999961e-02, 1.299999999999999940e-02, -1.020000000000000018e+00, 1.000000000000000000e+00, -1.300000000000000157e-03, 4.256999999999998785e+00, -5.500000000000000888e+00, -3.378499999999999659e+01, -2.300000000000000308e-02, 1.300000000000000114e-02, -1.020000000000000240e+00, 1.000000000000000000e+00, 8.299999999999998351e-03, 1.870999999999999996e+00, -1.109999999999999964e+01, -1.571899999999999586e+01, -2.299999999999999614e-02, 1.299999999999999593e-02, -1.020000000000000018e+00, 9.999999999999997780e-01, 5.499999999999998813e-03, 5.689999999999998392e-01, -7.099999999999998757e+00, -1.554999999999999716e+01, -2.300000000000000308e-02, 1.299999999999999593e-02, -1.020000000000000018e+00, 9.999999999999998890e-01, 4.800000000000000447e-03, -1.677000000000000268e+00, -8.000000000000000444e-01, -1.197199999999999775e+01, -2.300000000000000308e-02, 1.299999999999999940e-02, -1.020000000000000240e+00, 1.000000000000000000e+00, 1.549999999999999815e-02, -1.676999999999999824e+00, -4.000000000000000777e-01, 2.933999999999999275e+00, -2.299999999999999961e-02, 1.299999999999999940e-02, -1.020000000000000018e+00, 1.000000000000000000e+00, 1.300000000000000114e-02, -3.038999999999999702e+00, 6.100000000000000533e+00, 2.899999999999999467e+00, -2.299999999999999961e-02, 1.300000000000000114e-02, -7.999999999999999334e-01, -1.999999999999999556e-01, 1.000000000000000000e+00, 1.619999999999999565e-02, -1.950999999999999845e+00, 4.499999999999999556e-01, 2.891999999999999815e+01, -2.299999999999999614e-02, 1.299999999999999767e-02, -6.119999999999999885e-01, -4.079999999999999738e-01, 1.000000000000000000e+00, 1.400000000000000029e-02, -3.574999999999999734e+00, 6.700000000000001066e+00, 5.427199999999999847e+01, -2.299999999999999961e-02, 1.299999999999999940e-02, -1.020000000000000018e+00, 9.999999999999998890e-01, 2.199999999999999525e-02, -7.065999999999998948e+00, 3.320000000000000284e+01, -1.142199999999999882e+01, -2.299999999999999961e-02, 1.299999999999999767e-02, -7.139999999999999680e-01, 1.000000000000000222e+00, -3.059999999999999942e-01, 2.300000000000000308e-02, -7.812999999999999723e+00, 3.379999999999999005e+01, 9.455000000000000071e+00, 6.342999999999999972e+00, 5.500000000000000000e+00, 3.978000000000000203e+00, -2.300000000000000308e-02, -6.137999999999999901e+00, 1.299999999999999940e-02, -1.020000000000000018e+00, 1.000000000000000222e+00, 2.500000000000000486e-03, -7.050000000000001821e-01, -1.500000000000000222e+00, -1.372800000000000331e+01, -2.299999999999999961e-02, 1.299999999999999940e-02, -2.000000000000000111e-01, -8.000000000000001554e-01, 2.000000000000000111e-01, 8.000000000000000444e-01, 9.999999999999998890e-01, -2.100000000000000130e-02, -9.999999999999998890e-01, 9.999999999999998890e-01, -9.170999999999999375e+00, -6.286000000000000476e+00, 4.900000000000000000e+01, 5.623000000000001108e+00, -9.999999999999998890e-01, 1.000000000000000000e+00, -6.926000000000001044e+00, -2.628600000000000136e+01, 4.900000000000000000e+01, 5.623000000000000220e+00, -2.000000000000000111e-01, -8.000000000000002665e-01, 1.000000000000000000e+00, 2.487000000000000099e+00, -6.927000000000000490e+00, -7.400000000000002132e+00, -1.500000000000000178e+01, 7.987000000000000099e+00, -1.799999999999999933e-01, -8.199999999999998401e-01, 1.000000000000000000e+00, 1.075999999999999845e+00, -6.849000000000000199e+00, -7.999999999999999112e+00, -1.400000000000000000e+01, 7.987000000000000099e+00, -1.800000000000000211e-01, -8.200000000000001732e-01, 1.000000000000000000e+00, 9.210000000000000409e-01, -6.841000000000001080e+00, -8.500000000000000000e+00, -7.999999999999999112e+00, 7.987000000000000988e+00, -2.000000000000000111e-01, -8.000000000000001554e-01, 1.000000000000000222e+00, 4.782000000000000917e+00, -2.896699999999999875e+01, -7.400000000000000355e+00, -1.499999999999999822e+01, 7.987000000000000099e+00, -1.800000000000000211e-01, -8.200000000000000622e-01, 1.000000000000000000e+00, 3.321000000000000174e+00, -2.864300000000000068e+01, -8.000000000000000000e+00, -1.400000000000000178e+01, 7.987000000000000988e+00, -1.800000000000000211e-01, -8.200000000000000622e-01, 1.000000000000000000e+00, 3.166000000000000814e+00, -2.860699999999999932e+01, -8.500000000000001776e+00, -8.000000000000000000e+00, 7.987000000000000988e+00, -2.199999999999999734e-01, -7.800000000000000266e-01, 1.999999999999999833e-01, 8.000000000000000444e-01, 1.487999999999999767e+00, -2.100000000000000130e-02, -2.199999999999999734e-01, -7.800000000000001377e-01, 1.999999999999999833e-01, 8.000000000000000444e-01, 1.487999999999999767e+00, -2.100000000000000130e-02, -1.000000000000000222e+00, 1.000000000000000000e+00, 1.698999999999999844e+00, -6.883999999999998565e+00, -6.799999999999998046e+00, -1.400000000000000000e+01, 2.987000000000000099e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.519999999999999407e-01, -6.799000000000001265e+00, -7.799999999999999822e+00, -1.099999999999999645e+01, 2.986999999999999211e+00, -1.000000000000000000e+00, 9.999999999999998890e-01, -6.789999999999999147e+00, -8.299999999999998934e+00, -6.500000000000000888e+00, 2.986999999999999211e+00, -1.000000000000000222e+00, 1.000000000000000000e+00, 3.944000000000000394e+00, -2.878600000000000492e+01, -6.800000000000001599e+00, -1.400000000000000178e+01, 2.986999999999999655e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 2.396999999999999353e+00, -2.842999999999999616e+01, -7.799999999999998046e+00, -1.099999999999999822e+01, 2.986999999999998767e+00, -1.000000000000000222e+00, 1.000000000000000000e+00, 2.244000000000000217e+00, -2.839499999999999957e+01, -8.300000000000000711e+00, -6.500000000000000000e+00, 2.986999999999999211e+00, -1.000000000000000222e+00, 1.000000000000000222e+00, -3.697000000000000508e+00, 1.077800000000000047e+01, 1.300000000000000266e+00, -9.000000000000003553e+00, -2.795000000000000373e+00, -1.000000000000000222e+00, 9.799999999999997602e-01, 9.799999999999999684e-03, -2.487999999999999545e+00, 1.066499999999999737e+01, -8.330000000000000071e+00, -1.175999999999999801e+01, -2.673999999999999932e+00, -2.299999999999999614e-02, 1.299999999999999940e-02, -1.000000000000000222e+00, 1.000000000000000000e+00, -1.452000000000000401e+00, -1.018000000000000149e+01, 1.300000000000000044e+00, -9.000000000000000000e+00, -2.794999999999999929e+00, -1.000000000000000222e+00, 9.799999999999998712e-01, 9.799999999999999684e-03, -2.879999999999998672e-01, -1.007300000000000217e+01, -8.330000000000000071e+00, -1.175999999999999801e+01, -2.673999999999999044e+00, -2.299999999999999614e-02, 1.299999999999999940e-02, -1.000000000000000000e+00, 1.000000000000000222e+00, -4.551000000000001044e+00, 1.070199999999999996e+01, -1.500000000000000444e+00, -6.000000000000000888e+00, -2.729000000000000092e+00, -1.000000000000000000e+00, 9.999999999999998890e-01, -2.305999999999999606e+00, -1.010699999999999754e+01, -1.499999999999999778e+00, -4.500000000000000000e+00, -2.728999999999999648e+00, -1.000000000000000222e+00, 1.000000000000000000e+00, -5.531999999999999140e+00, 1.226400000000000112e+01, -4.499999999999999112e+00, -2.500000000000000000e+00, -2.729000000000000092e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -3.287000000000000366e+00, -8.373000000000001108e+00, -4.500000000000000000e+00, -2.500000000000000444e+00, -2.729000000000000092e+00, -9.999999999999997780e-01, 9.999999999999997780e-01, -6.769999999999999574e+00, 1.376899999999999835e+01, -2.199999999999999289e+00, -2.728999999999999648e+00, -1.000000000000000000e+00, 9.999999999999998890e-01, -4.525999999999998913e+00, -6.650999999999999801e+00, -2.200000000000000178e+00, -2.728999999999999648e+00, -1.000000000000000000e+00, 7.000000000000000666e-02, 4.590000000000000191e-01, 4.710000000000000853e-01, 1.000000000000000000e+00, -2.699999999999999969e-02, -1.000000000000000000e+00, 8.000000000000000167e-02, 5.370000000000000329e-01, 3.830000000000000071e-01, 1.000000000000000000e+00, -2.699999999999999969e-02, -1.000000000000000222e+00, 1.130000000000000449e-01, 5.250000000000001332e-01, 3.619999999999999329e-01, 1.007000000000000117e+00, -2.699999999999999969e-02, 1.776999999999999469e+00, -8.173999999999999488e+00, 5.720000000000000639e-01, 2.194999999999999396e+00, 2.609999999999999432e+00, 9.999999999999998890e-01, 8.173999999999999488e+00, -6.510000000000000231e-01, 1.776999999999999469e+00, -7.147000000000000242e+00, 8.079999999999999405e-01, 2.194999999999999396e+00, 1.346999999999999753e+00, 1.000000000000000222e+00, 7.200000000000000178e+00, -6.239999999999999991e-01, -1.000000000000000222e+00, 1.000000000000000000e+00, -6.004999999999999893e+00, 8.065000000000001279e+00, 8.500000000000000000e+00, 4.500000000000000888e+00, -3.280999999999999250e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -6.926000000000001044e+00, 8.000000000000000000e+00, 6.000000000000000000e+00, 1.000000000000000000e+01, -3.280999999999999694e+00, -6.000000000000000888e-01, -4.000000000000000222e-01, 1.000000000000000000e+00, -7.576000000000000512e+00, 5.852300000000000324e+01, 7.000000000000000888e+00, 1.100000000000000000e+01, -2.950000000000000178e+00, -8.000000000000000444e-01, -2.000000000000000111e-01, 1.000000000000000000e+00, -6.334000000000000519e+00, 2.100000000000000000e+01, 9.249999999999998224e+00, 5.250000000000000888e+00, -2.952999999999999847e+00, -1.000000000000000222e+00, 9.999999999999998890e-01, -8.249999999999998224e+00, 2.822599999999999909e+01, 8.500000000000000000e+00, 4.500000000000000888e+00, -3.280999999999999694e+00, -9.999999999999998890e-01, 1.000000000000000000e+00, -9.170999999999997598e+00, 2.799999999999999645e+01, 6.000000000000000000e+00, 1.000000000000000000e+01, -3.280999999999999250e+00, 2.199999999999999872e-02, 7.000000000000000146e-03, 3.699999999999999817e-02, 1.570000000000000007e-01, 1.189999999999999947e-01, 2.220000000000000306e-01, 3.220000000000000084e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, -4.700000000000000011e-02, 6.900000000000000577e-02, 2.800000000000000058e-02, 9.000000000000001055e-03, 4.900000000000000189e-02, 1.759999999999999898e-01, 1.219999999999999973e-01, 2.270000000000000351e-01, 2.680000000000000160e-01, -1.000000000000000000e+00, 1.137999999999999678e+00, -4.699999999999998623e-02, 7.299999999999999545e-02, 3.500000000000000333e-02, 1.099999999999999936e-02, 5.999999999999999778e-02, 1.950000000000000067e-01, 1.260000000000000009e-01, 2.280000000000000360e-01, 2.159999999999999976e-01, -1.000000000000000000e+00, 1.221999999999999975e+00, -4.700000000000000011e-02, 7.699999999999999900e-02, -1.000000000000000222e+00, 9.999999999999998890e-01, -1.416799999999999926e+01, 1.289599999999999902e+01, 1.499999999999999822e+01, 4.050000000000000000e+01, -2.729000000000000092e+00, -1.000000000000000222e+00, 1.000000000000000000e+00, -1.192300000000000004e+01, -6.230000000000001315e+00, 1.499999999999999822e+01, 4.050000000000000000e+01, -2.729000000000000092e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -7.389999999999999902e-01, 6.950999999999999623e+00, 3.000000000000000888e+00, -5.000000000000000000e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, -7.389999999999999902e-01, -5.731999999999999318e+00, 3.000000000000000444e+00, -5.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000222e+00, 1.000000000000000000e+00, -1.000000000000000222e+00, 1.000000000000000000e+00, -1.000000000000000222e+00, 1.000000000000000000e+00, -9.999999999999998890e-01, 1.109999999999999876e+00, 9.999999999999998890e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.099999999999999867e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -4.899999999999999911e-01, -5.100000000000000089e-01, 1.000000000000000000e+00, -2.000000000000000042e-03, -6.400000000000000133e-01, -3.600000000000000422e-01, 1.000000000000000000e+00, -2.000000000000000042e-03, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000222e+00, 1.000000000000000000e+00, -1.000000000000000222e+00, 1.151000000000000023e+00, 1.010000000000000009e+00, 2.200000000000000133e-03, 8.800000000000000530e-03, 2.000000000000000042e-03, 6.499999999999998834e-02, 1.570000000000000284e-01, 2.999999999999999195e-02, 9.000000000000002442e-02, 8.300000000000003209e-02, 5.000000000000000104e-03, 5.510000000000000453e-01, -1.700000000000000469e-02, 1.151000000000000023e+00, -1.000000000000000000e+00, 4.000000000000000083e-03, 1.151000000000000023e+00, 1.010000000000000009e+00, 2.200000000000000133e-03, 8.800000000000000530e-03, 2.000000000000000042e-03, 6.499999999999998834e-02, 1.570000000000000284e-01, 2.999999999999999195e-02, 9.000000000000002442e-02, 8.300000000000003209e-02, 5.000000000000000104e-03, 5.510000000000000453e-01, -1.700000000000000469e-02, 4.000000000000000083e-03, 1.100000000000000089e+00, 1.010000000000000009e+00, 1.199999999999999678e-03, 1.799999999999999951e-03, 2.999999999999999195e-04, 2.499999999999999792e-02, 1.380000000000000115e-01, 3.699999999999999123e-02, 1.610000000000000320e-01, 1.779999999999999638e-01, 1.399999999999999856e-02, 4.409999999999998921e-01, -1.700000000000000122e-02, 1.100000000000000089e+00, 9.999999999999998890e-01, 6.999999999999998845e-04, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.159999999999999920e+00, -1.000000000000000000e+00, 1.159999999999999920e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -9.400000000000000577e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.745000000000000107e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 7.309999999999999609e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -5.000000000000000000e+00, 1.100000000000000000e+01, 1.400000000000000029e-02, 7.000000000000000146e-03, 3.900000000000000688e-02, 1.499999999999999944e-01, 1.400000000000000133e-01, 2.150000000000000244e-01, 2.700000000000000178e-01, -1.000000000000000000e+00, 1.137999999999999678e+00, -4.699999999999998623e-02, 8.000000000000000167e-02, -9.999999999999998890e-01, 9.999999999999998890e-01, 2.456999999999999407e+00, -1.699999999999999645e+01, -3.040000000000000036e+00, -9.999999999999998890e-01, 1.000000000000000222e+00, -5.799999999999998934e+00, 3.400000000000000000e+01, -1.142200000000000060e+01, -1.000000000000000222e+00, 1.000000000000000000e+00, -8.500000000000001998e-01, -1.600000000000000355e+01, 2.934000000000000608e+00, -9.999999999999996669e-01, 1.000000000000000000e+00, -1.949999999999999734e+00, 2.368999999999999773e+01, -9.199999999999997513e+00, -1.800000000000000000e+01, -3.485999999999999766e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 2.949999999999999845e-01, 2.430000000000000160e+00, -9.199999999999999289e+00, -1.800000000000000355e+01, -3.486000000000000210e+00, -1.000000000000000222e+00, 1.000000000000000000e+00, -7.959999999999999076e+00, -6.230000000000000426e+00, -8.299999999999998934e+00, 3.300000000000000000e+01, -2.732999999999999208e+00, -1.000000000000000222e+00, 9.999999999999998890e-01, -1.020999999999999730e+01, 1.289599999999999724e+01, -8.299999999999998934e+00, 3.300000000000000000e+01, -2.732999999999999652e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -3.009999999999999343e+00, 8.065000000000001279e+00, -7.999999999999999112e+00, -1.700000000000000000e+01, -3.280999999999999694e+00, 2.350000000000000006e-02, -4.382000000000000339e-01, -5.392999999999998906e-01, -4.600000000000000616e-02, 1.000000000000000000e+00, 2.350000000000000006e-02, -4.842000000000000748e-01, -5.392999999999998906e-01, 1.000000000000000000e+00, 2.749999999999999667e-02, -5.443999999999999950e-01, -5.575999999999999845e-01, 9.999999999999998890e-01, 7.449999999999999678e-02, -2.445000000000000284e+00, -7.450000000000001066e-02, -4.470000000000000639e-01, 2.749999999999999667e-02, -5.444000000000001060e-01, -5.575999999999999845e-01, 9.999999999999998890e-01, 7.449999999999999678e-02, -2.445000000000000284e+00, -7.450000000000001066e-02, -4.470000000000000639e-01, -9.999999999999998890e-01, 1.000000000000000000e+00, -3.267999999999999261e+01, 3.120000000000000284e+01, -7.799999999999998579e+01, -3.800000000000000000e+01, 9.500000000000000000e+01, -1.000000000000000222e+00, 1.000000000000000000e+00, -3.672999999999998977e+01, -2.500000000000000000e+01, -3.800000000000000000e+01, 3.606000000000000227e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -2.515999999999999304e+01, 2.468000000000000327e+01, -7.100000000000000000e+01, -3.619999999999999574e+01, -5.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -2.514999999999999858e+01, -1.842999999999999972e+01, -1.000000000000000222e+00, 1.000000000000000222e+00, -2.921000000000000441e+01, -3.200000000000000711e+01, -3.579999999999999716e+01, 2.853999999999999915e+01, -9.999999999999998890e-01, 9.999999999999997780e-01, 1.879999999999999671e+00, -5.608999999999999098e+00, -9.999999999999998890e-01, 1.999999999999999778e+00, -1.657999999999999474e+01, -1.599999999999999822e+01, 1.525000000000000000e+01, -1.799999999999999645e+01, 9.999999999999998890e-01, -2.999999999999999645e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.879999999999999449e+00, -5.608999999999999098e+00, -1.000000000000000000e+00, 1.999999999999999334e+00, -2.037999999999999901e+01, 1.889999999999999503e+01, -4.799999999999999289e+01, 2.800000000000000000e+01, -5.000000000000000888e+00, -1.000000000000000000e+00, 1.879999999999999449e+00, -5.609000000000000874e+00, -9.999999999999997780e-01, 1.999999999999999556e+00, 1.000000000000000000e+00, -2.037999999999999901e+01, 1.889999999999999858e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.879999999999999671e+00, -5.608999999999999986e+00, -9.999999999999998890e-01, 1.999999999999999778e+00, -2.442999999999999972e+01, -5.300000000000000000e+01, -2.800000000000000000e+01, 2.376000000000000867e+01, -1.000000000000000222e+00, 1.000000000000000000e+00, -9.110000000000001208e+00, 7.629999999999999893e+00, -1.000000000000000000e+01, -9.999999999999998224e+00, -5.000000000000000888e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, -1.315999999999999659e+01, -1.500000000000000178e+01, -1.000000000000000000e+01, 1.249000000000000021e+01, -9.999999999999997780e-01, 1.000000000000000222e+00, 2.539999999999999591e+00, -4.019999999999998685e+00, -6.000000000000000888e+00, -9.000000000000000222e-01, -5.000000000000000000e+00, -9.999999999999998890e-01, 1.000000000000000000e+00, -1.510000000000000009e+00, -1.099999999999999822e+01, -9.000000000000002442e-01, 8.399999999999999689e-01, -9.999999999999998890e-01, 1.000000000000000000e+00, 5.500000000000000444e-01, -2.029999999999999805e+00, 9.999999999999998890e-01, -3.899999999999998579e+00, -5.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -3.499999999999999556e+00, -4.000000000000000000e+00, -3.899999999999999911e+00, 2.829999999999999627e+00, -1.000000000000000000e+00, 9.999999999999997780e-01, -1.819999999999999840e+00, 3.400000000000000799e-01, 1.100000000000000000e+01, -1.399999999999999645e+01, -5.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -5.870000000000000995e+00, 6.000000000000000888e+00, -1.400000000000000000e+01, 5.200000000000000178e+00, -1.000000000000000000e+00, 9.999999999999997780e-01, 8.599999999999995426e-01, -2.339999999999999414e+00, 9.999999999999998890e-01, -1.599999999999999822e+01, -5.000000000000000000e+00, -1.000000000000000000e+00, 9.999999999999998890e-01, -3.189999999999999503e+00, -3.999999999999999556e+00, -1.599999999999999822e+01, 2.520000000000000018e+00, -9.999999999999998890e-01, 9.999999999999997780e-01, 8.900000000000002132e+00, 1.599999999999999822e+01, -1.014999999999999858e+01, -4.499999999999999112e+00, 9.999999999999998890e-01, -2.999999999999999645e+01, -9.999999999999998890e-01, 1.000000000000000000e+00, 5.019999999999999574e+00, -6.499999999999999112e+00, -9.999999999999998890e-01, 1.000000000000000000e+00, 9.699999999999999734e-01, -2.100000000000000355e+01, -1.449999999999999822e+01, -1.639999999999999458e+00, -9.999999999999998890e-01, 1.000000000000000000e+00, 2.569999999999998952e+00, -4.049999999999998934e+00, 3.400000000000000000e+01, -3.550000000000000000e+01, -5.000000000000000000e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, -1.479999999999999982e+00, 2.900000000000000000e+01, -3.550000000000000000e+01, 8.099999999999999423e-01, -1.000000000000000222e+00, 1.000000000000000000e+00, -2.029999999999999361e+00, 5.500000000000000444e-01, 5.700000000000000711e+01, -3.550000000000000711e+01, -5.000000000000000888e+00, -9.999999999999998890e-01, 9.999999999999997780e-01, -6.079999999999999183e+00, 5.199999999999999289e+01, -3.549999999999999289e+01, 5.410000000000000142e+00, -1.000000000000000222e+00, 1.000000000000000000e+00, 5.200000000000000178e-01, -1.999999999999999778e+00, 7.100000000000000000e+01, -3.670000000000000284e+01, -5.000000000000000000e+00, -9.999999999999997780e-01, 1.000000000000000000e+00, -3.530000000000000249e+00, 6.600000000000000000e+01, -3.670000000000000284e+01, 2.859999999999999432e+00, -9.999999999999998890e-01, 9.999999999999997780e-01, 1.771999999999999886e+01, 3.000000000000000000e+00, -1.905000000000000071e+01, 2.299999999999999645e+01, 9.999999999999998890e-01, -2.999999999999999645e+01, -9.999999999999996669e-01, 9.999999999999998890e-01, 1.391999999999999638e+01, -1.539999999999999503e+01, -2.899999999999998934e+01, 1.299999999999999645e+01, -5.000000000000000000e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, 9.869999999999999218e+00, -3.400000000000000000e+01, 1.299999999999999645e+01, -1.053999999999999737e+01, -9.999999999999998890e-01, 9.999999999999997780e-01, 1.323000000000000220e+01, -1.455999999999999694e+01, 5.999999999999999112e+00, 9.999999999999998890e-01, -2.999999999999999645e+01, -9.999999999999998890e-01, 1.000000000000000000e+00, 9.429999999999996163e+00, -1.090999999999999659e+01, -3.200000000000000000e+01, -3.999999999999999556e+00, -5.000000000000000000e+00, -1.000000000000000000e+00, 9.999999999999997780e-01, 5.379999999999998117e+00, -3.699999999999999289e+01, -3.999999999999999112e+00, -6.049999999999998934e+00, -9.999999999999998890e-01, 9.999999999999997780e-01, 1.641000000000000369e+01, 1.100000000000000000e+01, -1.773999999999999488e+01, 2.600000000000000089e+00, 9.999999999999998890e-01, -2.999999999999999645e+01, -9.999999999999998890e-01, 9.999999999999998890e-01, 1.260999999999999410e+01, -1.408999999999999808e+01, -2.099999999999999645e+01, -7.399999999999999467e+00, -5.000000000000000888e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 8.560000000000000497e+00, -2.600000000000000000e+01, -7.400000000000001243e+00, -9.230000000000000426e+00, -9.999999999999998890e-01, 9.999999999999997780e-01, 1.845000000000000284e+01, 1.999999999999999778e+00, -1.978999999999999915e+01, 9.999999999999998890e-01, -2.999999999999999645e+01, -1.000000000000000000e+00, 9.999999999999997780e-01, 1.465999999999999837e+01, -1.614000000000000057e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.061000000000000121e+01, -3.500000000000000711e+01, -1.000000000000000000e+01, -1.127999999999999936e+01, -1.000000000000000000e+00, 1.000000000000000222e+00, 9.819999999999998508e+00, -1.130000000000000249e+01, 5.100000000000000000e+01, -3.420000000000000284e+01, -5.000000000000000000e+00, -9.999999999999998890e-01, 1.000000000000000000e+00, 5.769999999999999574e+00, 4.599999999999999289e+01, -3.420000000000000284e+01, -6.439999999999999503e+00, -1.000000000000000222e+00, 1.000000000000000222e+00, 7.320000000000000284e+00, -8.800000000000000711e+00, 5.900000000000000711e+01, -3.450000000000000000e+01, -5.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 3.270000000000000018e+00, 5.399999999999999289e+01, -3.450000000000000000e+01, -3.939999999999999059e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.118999999999999773e+01, -1.266999999999999993e+01, 7.100000000000000000e+01, -3.499999999999999289e+01, -5.000000000000000000e+00, -9.999999999999996669e-01, 1.000000000000000000e+00, 7.139999999999999680e+00, 6.600000000000000000e+01, -3.500000000000000000e+01, -7.809999999999999609e+00, 9.340000000000000524e-01, -1.000000000000000000e+00, 3.200000000000000067e-02, 1.000000000000000000e+00, 1.600000000000000033e-02, 4.670000000000000262e-01, -1.000000000000000000e+00, 4.669999999999999707e-01, 1.040900000000000070e+01, 3.736000000000000654e+00, -6.360999999999999766e+00, 1.003999999999999915e+01, 3.200000000000000067e-02, 1.000000000000000000e+00, 4.669999999999999707e-01, 3.268999999999999773e+01, 1.600000000000000033e-02, -1.000000000000000000e+00, 1.000000000000000000e+00, 8.489999999999996660e+00, -9.969999999999998863e+00, -2.399999999999999645e+01, 1.149999999999999822e+01, -5.000000000000000000e+00, -9.999999999999997780e-01, 9.999999999999997780e-01, 4.440000000000000391e+00, -2.900000000000000000e+01, 1.150000000000000000e+01, -5.109999999999999432e+00, 9.340000000000000524e-01, -9.999999999999998890e-01, 3.200000000000000067e-02, 1.000000000000000000e+00, 1.600000000000000033e-02, 4.670000000000000262e-01, -1.000000000000000000e+00, 4.669999999999999707e-01, 5.192999999999998728e+00, 1.401000000000000023e+00, -5.814000000000000057e+00, 3.875999999999999446e+00, 3.200000000000000067e-02, 1.000000000000000000e+00, 4.669999999999999707e-01, 3.268999999999999773e+01, 1.600000000000000033e-02, -9.999999999999997780e-01, 9.999999999999997780e-01, 7.319999999999997620e+00, -8.799999999999997158e+00, -2.899999999999999289e+01, -1.699999999999999734e+00, -4.999999999999999112e+00, -1.000000000000000000e+00, 9.999999999999998890e-01, 3.269999999999999130e+00, -3.400000000000000000e+01, -1.699999999999999956e+00, -3.939999999999999503e+00, 9.340000000000000524e-01, -1.000000000000000000e+00, 3.200000000000000067e-02, 1.000000000000000000e+00, 1.600000000000000033e-02, 4.670000000000000262e-01, -1.000000000000000000e+00, 4.669999999999999707e-01, 1.065600000000000058e+01, 6.070999999999999730e+00, -6.607999999999998764e+00, 2.148000000000000131e+00, 3.200000000000000067e-02, 1.000000000000000000e+00, 4.669999999999999707e-01, 3.268999999999999773e+01, 1.600000000000000033e-02, -1.000000000000000000e+00, 1.000000000000000000e+00, 9.019999999999999574e+00, -1.004999999999999893e+01, -1.900000000000000000e+01, -5.399999999999999467e+00, -5.000000000000000888e+00, -1.000000000000000222e+00, 1.000000000000000000e+00, 4.969999999999999751e+00, -2.400000000000000355e+01, -5.400000000000000355e+00, -5.640000000000000568e+00, 9.340000000000000524e-01, -1.000000000000000000e+00, 3.200000000000000067e-02, 1.000000000000000000e+00, 1.600000000000000033e-02, 4.670000000000000262e-01, -1.000000000000000000e+00, 4.669999999999999707e-01, 1.067600000000000016e+01, 1.401000000000000023e+00, -6.627000000000000668e+00, 9.340000000000001634e-01, 3.200000000000000067e-02, 1.000000000000000000e+00, 4.669999999999999707e-01, 3.268999999999999773e+01, 1.600000000000000033e-02, -1.000000000000000000e+00, 1.000000000000000000e+00, 9.060000000000002274e+00, -1.054000000000000092e+01, -1.000000000000000000e+00, 9.999999999999998890e-01, 5.030000000000001137e+00, -3.400000000000000000e+01, -8.000000000000000000e+00, -5.679999999999999716e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -5.179999999999998828e+00, 3.700000000000000178e+00, 4.799999999999999289e+01, -1.599999999999999645e+01, -5.000000000000000888e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -9.230000000000002203e+00, 4.300000000000000000e+01, -1.600000000000000000e+01, 8.560000000000000497e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -6.029999999999999361e+00, 4.549999999999999822e+00, 9.100000000000000000e+01, -3.760000000000000142e+01, -5.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.008000000000000007e+01, 8.600000000000000000e+01, -3.770000000000000284e+01, 9.409999999999998366e+00, 8.999999999999999667e-02, -9.999999999999998890e-01, 7.800000000000000266e-01, 7.600000000000001199e-02, 9.999999999999998890e-01, 3.999999999999999389e-02, -6.289999999999999147e+00, 4.999999999999998224e+00, 5.219999999999997975e+00, -1.131000000000000050e+01, -4.349999999999998757e+00, 9.000000000000002442e-02, -9.999999999999998890e-01, 7.799999999999999156e-01, -9.810000000000002274e+00, 8.699999999999999956e-01, -1.131000000000000050e+01, 7.600000000000001199e-02, 9.999999999999997780e-01, 9.229999999999998650e+00, 4.000000000000000083e-02, 8.999999999999999667e-02, -1.000000000000000000e+00, 7.800000000000000266e-01, 7.599999999999999811e-02, 1.000000000000000000e+00, 4.000000000000000083e-02, -8.740000000000000213e+00, 8.330000000000001847e+00, 3.130000000000000071e+01, -3.244999999999999574e+01, -4.349999999999999645e+00, 8.999999999999999667e-02, -1.000000000000000000e+00, 7.800000000000002487e-01, -1.226999999999999957e+01, 2.700000000000000000e+01, -3.245000000000000284e+01, 7.599999999999999811e-02, 1.000000000000000000e+00, 1.167999999999999972e+01, 4.000000000000000083e-02, -1.000000000000000000e+00, 9.999999999999998890e-01, 1.016999999999999815e+01, -1.164999999999999858e+01, -1.200000000000000178e+01, 1.500000000000000000e+01, -4.999999999999999112e+00, -9.999999999999997780e-01, 1.000000000000000000e+00, 6.120000000000000107e+00, -1.699999999999999645e+01, 1.500000000000000178e+01, -6.789999999999999147e+00, 9.999999999999997780e-01, 1.010000000000000009e+00, 2.399999999999999790e-03, 9.900000000000000813e-03, 2.200000000000000133e-03, 3.819999999999999785e-02, 1.081000000000000016e-01, 2.419999999999999582e-02, 1.010000000000000203e-01, 9.290000000000001035e-02, 5.000000000000000104e-03, 3.940000000000000169e-01, 1.510000000000000404e-02, 9.879999999999998506e-02, 1.014000000000000179e-01, 2.152999999999999636e-01, -2.280000000000000082e-02, 1.000000000000000000e+00, -1.000000000000000000e+00, 4.799999999999999580e-03, 1.151000000000000023e+00, 1.010000000000000009e+00, 2.200000000000000133e-03, 8.800000000000000530e-03, 2.000000000000000042e-03, 6.499999999999998834e-02, 1.570000000000000284e-01, 2.999999999999999195e-02, 9.000000000000002442e-02, 8.300000000000003209e-02, 7.000000000000001013e-03, 3.019000000000000572e-01, 1.740000000000000227e-02, 1.143000000000000127e-01, 1.173999999999999905e-01, 2.490999999999999603e-01, -2.369999999999999885e-02, 1.151000000000000023e+00, -1.000000000000000000e+00, 4.000000000000000083e-03, 1.026999999999999691e+00, 1.010000000000000009e+00, 3.899999999999999387e-03, 9.199999999999999845e-03, 3.999999999999999650e-04, 4.849999999999999450e-02, 1.343999999999999639e-01, 3.939999999999999059e-02, 1.373000000000000054e-01, 1.069999999999999840e-01, 5.000000000000000104e-03, 2.998999999999999999e-01, 2.510000000000000425e-02, 1.168000000000000149e-01, 8.050000000000000211e-02, 2.223999999999999866e-01, -2.299999999999999961e-02, 1.026999999999999913e+00, -9.999999999999998890e-01, 5.999999999999999474e-04, 1.100000000000000089e+00, 1.009999999999999787e+00, 2.000000000000000042e-03, 7.199999999999999803e-03, 5.000000000000000104e-04, 3.779999999999999333e-02, 1.494999999999999662e-01, 2.626999999999999891e-01, 4.359999999999999293e-02, 1.228000000000000203e-01, 1.257000000000000062e-01, 5.000000000000000104e-03, 1.910000000000000239e-02, 1.279000000000000137e-01, 9.119999999999998941e-02, 2.381999999999999673e-01, -2.340000000000000066e-02, 1.099999999999999867e+00, -1.000000000000000000e+00, 2.999999999999999629e-03, 1.100000000000000089e+00, 1.010000000000000009e+00, 2.399999999999999356e-03, 8.999999999999997585e-03, 1.899999999999999779e-03, 2.589999999999999941e-02, 1.191999999999999865e-01, 2.842999999999999972e-01, 3.540000000000000091e-02, 1.272999999999999965e-01, 1.333000000000000018e-01, 4.999999999999999237e-03, 1.980000000000000163e-02, 1.327000000000000124e-01, 9.559999999999999054e-02, 2.480999999999999872e-01, -2.369999999999999885e-02, 1.100000000000000089e+00, -9.999999999999998890e-01, 6.199999999999998915e-03, 1.100000000000000089e+00, 1.010000000000000009e+00, 2.000000000000000096e-04, 4.000000000000000192e-04, 2.999999999999999195e-04, 2.359999999999999945e-02, 7.000000000000000666e-02, 2.999999999999999195e-02, 1.499999999999999944e-01, 2.199999999999999734e-01, 4.999999999999999237e-03, 2.618999999999999662e-01, 1.899999999999999953e-02, 8.339999999999998803e-02, 1.356999999999999595e-01, 2.380999999999999783e-01, -2.340000000000000066e-02, 1.100000000000000089e+00, -9.999999999999998890e-01, 5.000000000000000104e-04, 1.100000000000000089e+00, 1.010000000000000009e+00, 1.199999999999999678e-03, 1.799999999999999951e-03, 2.999999999999999195e-04, 2.499999999999999792e-02, 1.380000000000000115e-01, 3.699999999999999123e-02, 1.610000000000000320e-01, 1.779999999999999638e-01, 1.399999999999999856e-02, 2.032000000000000195e-01, 2.600000000000000228e-02, 1.423999999999999988e-01, 6.899999999999999190e-02, 2.378000000000000114e-01, -2.340000000000000066e-02, 1.100000000000000089e+00, 9.999999999999998890e-01, 6.999999999999998845e-04, -1.000000000000000000e+00, 1.000000000000000000e+00, 3.000000000000000444e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -3.000000000000000000e+00, 5.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 3.079999999999999627e+00, 5.000000000000000000e+00, -3.189999999999999503e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -3.000000000000000000e+00, 5.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 5.000000000000000000e+00, -9.999999999999997780e-01, 1.000000000000000000e+00, -1.049999999999999822e+00, 1.669999999999999485e+00, -5.000000000000000888e+00, 1.500000000000000355e+01, 1.010000000000000009e+00, 5.000000000000000104e-04, 1.200000000000000198e-02, 7.750000000000001332e-02, 8.999999999999999667e-02, 3.100000000000000672e-02, 2.599999999999999881e-02, 1.340000000000000357e-01, 1.410000000000000142e-01, 5.100000000000000366e-02, 4.370000000000000551e-01, -2.599999999999999881e-02, 1.028000000000000247e+00, 9.730000000000000870e-01, 1.000000000000000222e+00, 1.010000000000000009e+00, 2.500000000000000052e-03, 3.000000000000000062e-03, 1.099999999999999936e-02, 6.350000000000000089e-02, 6.400000000000000133e-02, 2.199999999999999872e-02, 2.199999999999999525e-02, 1.030000000000000082e-01, 1.179999999999999938e-01, 4.399999999999999745e-02, 5.470000000000000417e-01, -2.120000000000000009e-02, 1.000000000000000000e+00, 9.999999999999997780e-01, 1.000000000000000000e+00, 1.010000000000000453e+00, 2.499999999999999618e-03, 2.499999999999999618e-03, 9.999999999999998473e-03, 6.500000000000000222e-02, 8.200000000000000344e-02, 2.599999999999999881e-02, 2.600000000000000228e-02, 1.270000000000000018e-01, 1.409999999999999865e-01, 5.400000000000000633e-02, 4.640000000000000235e-01, -2.469999999999999973e-02, 1.018000000000000016e+00, 9.729999999999998650e-01, 1.000000000000000000e+00, 1.010000000000000009e+00, 1.600000000000000077e-03, 2.200000000000000133e-03, 1.099999999999999936e-02, 6.419999999999999318e-02, 8.100000000000000255e-02, 2.000000000000000042e-02, 2.500000000000000139e-02, 1.120000000000000023e-01, 1.270000000000000018e-01, 4.599999999999999922e-02, 5.100000000000000089e-01, -2.120000000000000009e-02, 9.990000000000001101e-01, 9.999999999999997780e-01, 1.000000000000000000e+00, 8.079999999999999405e-01, 2.019999999999999851e-01, 2.019999999999999851e-01, 1.699999999999999688e-03, 1.999999999999999608e-03, 1.039999999999999779e-02, 6.209999999999999548e-02, 7.779999999999998028e-02, 2.100000000000000130e-02, 2.499999999999999792e-02, 1.095999999999999891e-01, 1.255999999999999617e-01, 4.979999999999999011e-02, 5.150000000000000133e-01, -2.129999999999999602e-02, 1.004000000000000004e+00, 1.003199999999999870e+00, 9.999999999999998890e-01, 1.010000000000000453e+00, 3.500000000000000073e-03, 5.000000000000000104e-04, 7.000000000000000146e-03, 6.700000000000000400e-02, 1.069999999999999979e-01, 3.200000000000000067e-02, 3.300000000000000155e-02, 1.700000000000000400e-01, 1.580000000000000016e-01, 5.699999999999999512e-02, 3.649999999999999911e-01, -2.469999999999999973e-02, 1.052000000000000046e+00, 9.499999999999998446e-01, 1.000000000000000000e+00, 1.010000000000000009e+00, 1.000000000000000021e-03, 4.000000000000000083e-03, 4.399999999999999745e-02, 9.299999999999999933e-02, 2.699999999999999623e-02, 3.000000000000000236e-02, 1.409999999999999865e-01, 1.930000000000000049e-01, 6.900000000000000577e-02, 3.979999999999999649e-01, -2.639999999999999986e-02, 1.024000000000000021e+00, 9.919999999999998819e-01, 1.000000000000000000e+00, 1.010000000000000009e+00, 1.000000000000000021e-03, 1.000000000000000021e-03, 2.000000000000000042e-03, 3.699999999999999817e-02, 4.800000000000000100e-02, 2.000000000000000042e-02, 1.999999999999999695e-02, 1.380000000000000115e-01, 2.660000000000000142e-01, 3.100000000000000325e-02, 4.359999999999999432e-01, -2.640000000000000333e-02, 9.729999999999999760e-01, 9.919999999999997708e-01, 1.000000000000000000e+00, 8.080000000000000515e-01, 2.020000000000000129e-01, 2.020000000000000129e-01, 1.199999999999999895e-03, 1.000000000000000021e-03, 3.200000000000000153e-03, 4.039999999999999841e-02, 5.140000000000000124e-02, 2.100000000000000130e-02, 2.100000000000000130e-02, 1.303999999999999881e-01, 2.368000000000000105e-01, 3.780000000000000027e-02, 4.557999999999999829e-01, -2.539999999999999897e-02, 9.834000000000000519e-01, 9.968000000000000194e-01, 1.000000000000000000e+00, 7.575000000000001732e-01, 2.525000000000000022e-01, 2.525000000000000022e-01, 9.000000000000000838e-04, 2.999999999999999737e-04, 1.099999999999999936e-02, 7.159999999999999698e-02, 8.380000000000001337e-02, 2.960000000000000478e-02, 2.580000000000001042e-02, 1.255000000000000004e-01, 1.356999999999999873e-01, 5.460000000000000270e-02, 4.612000000000000544e-01, -2.479999999999999913e-02, 1.027300000000000324e+00, 9.838000000000000078e-01, 1.000000000000000000e+00, 7.574999999999998401e-01, 2.524999999999999467e-01, 2.524999999999999467e-01, 2.399999999999999790e-03, 2.599999999999999447e-03, 1.029999999999999839e-02, 6.109999999999998765e-02, 6.429999999999998217e-02, 2.279999999999999735e-02, 2.279999999999999735e-02, 1.021999999999999992e-01, 1.184999999999999803e-01, 4.929999999999999660e-02, 5.436999999999998501e-01, -2.119999999999999662e-02, 1.006299999999999972e+00, 1.003999999999999782e+00, 9.999999999999998890e-01, -1.000000000000000000e+00, 1.189999999999999947e+00, -1.000000000000000000e+00, 1.189999999999999947e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, 1.000000000000000000e+00, -6.380000000000000782e+00, -5.789999999999999591e-01, -9.139989899999999068e+01, 2.258998970000000099e+02, -9.999999999999998890e-01, 1.000000000000000000e+00, -2.380000000000000071e+01, -7.720000000000000195e-01, -9.139989899999999068e+01, 2.258998970000000099e+02, -9.999999999999998890e-01, 1.109999999999999876e+00, 9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000222e+00, 1.822000000000000242e+01, -4.979999999999999982e-01, -6.370000000000000284e+01, 2.809999999999999787e+01, -1.000000000000000000e+00, 1.000000000000000222e+00, 9.329999999999998295e+00, -6.640000000000000346e-01, -6.370000000000000284e+01, 2.809999999999999787e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, 1.109999999999999876e+00, 9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, 1.000000000000000222e+00, 2.219999999999999929e+01, -6.099999999999999867e-01, 3.000000000000000000e+01, -3.679999999999999716e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.058000000000000007e+01, -8.500000000000000000e+00, -2.147999999999999687e+01, 5.680000000000000426e+01, -6.999999999999999112e+00, -1.000000000000000000e+02, -1.000000000000000000e+00, 9.999999999999998890e-01, 1.341000000000000014e+01, -1.350000000000000000e+01, -3.052000000000000313e+01, 5.679999999999999716e+01, 1.488000000000000078e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -3.606000000000000938e+01, 3.535000000000000853e+01, -1.850000000000000000e+01, 5.679999999999999716e+01, -1.170000000000000142e+02, -1.000000000000000000e+00, 1.000000000000000000e+00, -3.554000000000000625e+01, 3.485000000000000142e+01, -3.850000000000000000e+01, 5.680000000000000426e+01, -1.040000000000000142e+02, -5.200000000000000178e-01, -4.800000000000000933e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, -5.200000000000000178e-01, -4.799999999999999822e-01, 1.000000000000000000e+00, 8.890000000000002345e+00, -8.500000000000000000e+00, -2.116000000000000014e+01, 3.871000000000000085e+01, -6.999999999999999112e+00, -1.000000000000000000e+02, -5.200000000000000178e-01, -4.799999999999999822e-01, 1.000000000000000000e+00, 1.171999999999999886e+01, -1.349999999999999822e+01, -3.005999999999999517e+01, 3.871000000000000085e+01, 1.488000000000000078e+01, -5.200000000000000178e-01, -4.799999999999999267e-01, 1.000000000000000000e+00, -3.606000000000000938e+01, 3.535000000000000853e+01, -1.850000000000000000e+01, 3.870999999999999375e+01, -1.170000000000000142e+02, -5.200000000000000178e-01, -4.800000000000000377e-01, 1.000000000000000000e+00, -3.554000000000000625e+01, 3.485000000000000142e+01, -3.850000000000000000e+01, 3.871000000000000796e+01, -1.040000000000000142e+02, -5.199999999999999067e-01, -4.799999999999998712e-01, 1.090000000000000080e+00, 9.999999999999998890e-01, -9.999999999999998890e-01, -2.600000000000000089e-01, -2.400000000000000466e-01, -5.000000000000000000e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, -5.999999999999999778e-01, -4.000000000000000222e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.849999999999999700e-01, -5.749999999999999556e-01, -1.940000000000000058e-02, 7.600000000000000089e-01, 1.000000000000000000e+00, -1.599999999999999756e-01, -8.399999999999997469e-01, 9.999999999999997780e-01, 1.959999999999999520e+00, -6.999999999999998224e+00, -5.780000000000000249e+00, 6.620000000000000107e+00, -6.999999999999998224e+00, -1.600000000000000033e-01, -8.399999999999998579e-01, 1.000000000000000000e+00, 3.279999999999999805e+00, -7.000000000000000888e+00, -1.866999999999999815e+01, 6.620000000000000107e+00, -6.999999999999999112e+00, -1.000000000000000000e+02, -1.600000000000000311e-01, -8.400000000000001910e-01, 1.000000000000000000e+00, 6.110000000000002984e+00, -1.200000000000000178e+01, -2.723000000000000398e+01, 6.620000000000000995e+00, 9.079999999999998295e+00, -1.600000000000000033e-01, -8.400000000000000799e-01, 1.000000000000000222e+00, -3.026000000000000867e+01, 2.955000000000000071e+01, -1.700000000000000355e+01, 6.620000000000000995e+00, -9.900000000000000000e+01, -1.599999999999999756e-01, -8.399999999999999689e-01, 1.000000000000000000e+00, -2.973999999999999488e+01, 2.904999999999999716e+01, -3.700000000000000000e+01, 6.620000000000000107e+00, -8.600000000000000000e+01, -9.999999999999998890e-01, 9.999999999999998890e-01, 1.200000000000000400e+00, -6.600000000000000533e+00, -5.409999999999999254e+00, 5.799999999999999600e-01, -6.999999999999999112e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 2.520000000000000462e+00, -6.599999999999999645e+00, -1.819999999999999929e+01, 5.799999999999999600e-01, -6.999999999999999112e+00, -1.000000000000000000e+02, -9.999999999999998890e-01, 9.999999999999998890e-01, 5.350000000000000533e+00, -1.159999999999999964e+01, -2.669000000000000128e+01, 5.799999999999999600e-01, 7.980000000000000426e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -2.197999999999999687e+01, 2.083999999999999986e+01, -2.860000000000000497e+01, 5.800000000000000711e-01, -4.700000000000000000e+01, -1.000000000000000000e+00, 1.000000000000000222e+00, -2.916000000000000369e+01, 2.845000000000000639e+01, -1.660000000000000142e+01, 5.800000000000000711e-01, -9.900000000000000000e+01, -1.000000000000000000e+00, 1.080000000000000071e+00, -9.999999999999998890e-01, 1.000000000000000000e+00, -2.864000000000000412e+01, 2.794999999999999218e+01, -3.660000000000000142e+01, 5.800000000000000711e-01, -8.600000000000000000e+01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.460000000000000187e+00, 1.200000000000000178e+00, 1.332000000000000028e+01, -2.940000000000000391e+00, -5.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.400000000000000133e-01, 1.199999999999999956e+00, 8.399999999999998579e-01, -2.939999999999999503e+00, -5.000000000000000000e+00, -1.000000000000000000e+00, 9.999999999999998890e-01, 2.689999999999999947e+00, -3.800000000000000266e+00, -7.440000000000000391e+00, -2.939999999999999947e+00, 2.330000000000000071e+00, -1.000000000000000000e+00, 9.999999999999998890e-01, -1.632999999999999474e+01, 1.519000000000000128e+01, -2.080000000000000071e+01, -2.939999999999999503e+00, -1.800000000000000355e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -2.298999999999999844e+01, 2.229999999999999716e+01, -2.880000000000000071e+01, -2.939999999999999947e+00, -5.700000000000000711e+01, -1.000000000000000000e+00, 1.060000000000000053e+00, -9.999999999999998890e-01, 1.000000000000000000e+00, -3.320000000000000284e+00, -2.500000000000000444e+00, 1.309999999999999787e+01, -2.939999999999999947e+00, -3.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -2.000000000000000000e+00, -2.500000000000000888e+00, 8.299999999999998490e-01, -2.939999999999999947e+00, -3.000000000000000000e+00, -9.999999999999997780e-01, 9.999999999999998890e-01, 8.299999999999999600e-01, -7.500000000000000888e+00, -7.319999999999999396e+00, -2.939999999999999059e+00, 3.699999999999999956e-01, -9.999999999999997780e-01, 9.999999999999998890e-01, -1.436999999999999567e+01, 1.322999999999999865e+01, -2.450000000000000000e+01, -2.939999999999999059e+00, -1.800000000000000000e+01, -1.000000000000000222e+00, 1.000000000000000222e+00, -4.840000000000001634e+00, -8.300000000000002487e+00, 1.299000000000000021e+01, -2.940000000000000835e+00, 6.999999999999999112e+00, -9.999999999999998890e-01, 1.000000000000000000e+00, -1.170000000000000151e+00, -1.000000000000000000e+00, 1.342999999999999972e+01, -2.940000000000000391e+00, -7.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000222e+00, -3.520000000000001350e+00, -8.300000000000000711e+00, 8.200000000000000622e-01, -2.940000000000000391e+00, 6.999999999999999112e+00, -9.999999999999997780e-01, 1.000000000000000000e+00, -1.499999999999999944e-01, -1.000000000000000222e+00, 8.500000000000000888e-01, -2.939999999999999059e+00, -6.999999999999999112e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -6.899999999999999467e-01, -1.330000000000000249e+01, -7.250000000000000000e+00, -2.939999999999999503e+00, 7.800000000000001377e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, -2.196000000000000085e+01, 2.125000000000000000e+01, -1.830000000000000071e+01, -2.939999999999999503e+00, -7.000000000000000000e+01, -8.599999999999999867e-01, -1.400000000000000411e-01, 1.000000000000000000e+00, -1.356999999999999851e+01, 1.242999999999999794e+01, -1.900000000000000000e+01, -3.169999999999999929e+00, -1.699999999999999645e+01, -8.799999999999998934e-01, -1.199999999999999956e-01, 9.999999999999998890e-01, -1.447999999999999865e+01, 1.333999999999999986e+01, -2.369999999999999929e+01, -3.169999999999999929e+00, -1.700000000000000000e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -5.540000000000000924e+00, 7.800000000000003375e+00, 1.133998990000000191e+02, -3.470000000000001084e+00, 1.000000000000000222e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -2.709999999999999520e+00, 2.799999999999999822e+00, 1.054599979999999988e+02, -3.470000000000000639e+00, -3.640000000000000568e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, -1.753999999999999915e+01, 1.682999999999999829e+01, -2.199999999999999734e+00, -3.470000000000000639e+00, -3.699999999999999289e+01, -1.000000000000000222e+00, 1.000000000000000222e+00, -1.701999999999999957e+01, 1.632999999999999829e+01, -2.219999999999999929e+01, -3.470000000000001084e+00, -2.400000000000000355e+01, -1.000000000000000000e+00, 1.050000000000000044e+00, -1.000000000000000222e+00, 1.000000000000000000e+00, -5.540000000000000924e+00, 4.100000000000001421e+00, 1.133998990000000191e+02, -3.470000000000001084e+00, 2.000000000000000444e+00, -1.000000000000000222e+00, 1.000000000000000000e+00, -2.709999999999999520e+00, -9.000000000000001332e-01, 1.054599979999999988e+02, -3.470000000000000639e+00, -5.019999999999999574e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, -1.563999999999999879e+01, 1.494999999999999929e+01, -2.589999999999999503e+01, -3.470000000000000195e+00, -2.399999999999999645e+01, -1.000000000000000222e+00, 9.999999999999998890e-01, -1.616000000000000369e+01, 1.545000000000000284e+01, -5.900000000000001243e+00, -3.470000000000001084e+00, -3.700000000000000000e+01, -1.000000000000000222e+00, 1.000000000000000000e+00, -4.200000000000000178e+00, -7.400000000000001243e+00, 1.143799000000000063e+02, -3.610000000000000320e+00, 6.999999999999999112e+00, -1.000000000000000000e+00, 9.999999999999998890e-01, -1.369999999999999885e+00, -1.240000000000000036e+01, 1.063700979999999703e+02, -3.610000000000000320e+00, -1.840000000000000080e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.934000000000000341e+01, 1.863000000000000256e+01, -1.740000000000000213e+01, -3.609999999999999432e+00, -3.700000000000000711e+01, -1.000000000000000000e+00, 1.000000000000000222e+00, -1.881999999999999673e+01, 1.812999999999999901e+01, -3.739999999999999858e+01, -3.609999999999999876e+00, -2.400000000000000000e+01, -9.999999999999998890e-01, 4.999999999999999445e-01, 5.979999999999999760e-01, -9.800000000000000377e-02, -1.540000000000000223e-02, 1.004999999999999893e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, -2.600000000000000089e-01, -4.499999999999998446e-01, 1.050000000000000000e+01, -8.000000000000000444e-01, 5.999999999999999112e+00, -1.000000000000000222e+00, 1.000000000000000000e+00, 2.600000000000000089e-01, -9.500000000000001776e-01, -9.500000000000000000e+00, -8.000000000000000444e-01, 1.900000000000000000e+01, -1.000000000000000000e+00, 5.200000000000000178e-01, 5.999999999999998668e-01, -1.199999999999999956e-01, -1.540000000000000049e-02, 1.002999999999999892e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -6.000000000000001860e-02, -6.500000000000001332e-01, 2.049999999999999645e+01, -8.000000000000001554e-01, -1.000000000000000000e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, 4.600000000000001310e-01, -1.149999999999999689e+00, 5.000000000000000000e-01, -7.999999999999999334e-01, 3.000000000000000000e+00, -1.000000000000000000e+00, 4.789999999999999813e-01, 6.179999999999999938e-01, -9.700000000000000289e-02, -1.540000000000000049e-02, 1.000000000000000000e+00, -9.999999999999997780e-01, 9.999999999999997780e-01, 1.239999999999999991e+00, -1.949999999999999289e+00, 2.149999999999999645e+01, -8.000000000000000444e-01, -1.999999999999999645e+01, -9.999999999999998890e-01, 9.999999999999998890e-01, 1.760000000000000009e+00, -2.449999999999999734e+00, 1.500000000000000000e+00, -8.000000000000000444e-01, -7.000000000000000888e+00, -1.000000000000000000e+00, 4.640000000000000235e-01, 6.909999999999998366e-01, -1.549999999999999989e-01, -1.540000000000000049e-02, 1.000000000000000000e+00, -1.000000000000000222e+00, 1.000000000000000222e+00, 1.730000000000000204e+00, -2.439999999999999947e+00, 1.300000000000000044e+00, -8.000000000000001554e-01, 2.000000000000000000e+00, -1.000000000000000222e+00, 5.769999999999999574e-01, 5.360000000000001430e-01, -1.130000000000000032e-01, -1.540000000000000223e-02, 1.006999999999999895e+00, -1.000000000000000222e+00, 1.000000000000000000e+00, 2.400000000000000466e-01, -9.500000000000000666e-01, 3.000000000000000444e+00, -8.000000000000001554e-01, -1.000000000000000000e+01, -9.999999999999998890e-01, 1.000000000000000222e+00, 7.600000000000000089e-01, -1.450000000000000178e+00, -1.700000000000000000e+01, -8.000000000000001554e-01, 3.000000000000000000e+00, -1.000000000000000000e+00, 4.540000000000000147e-01, 7.320000000000000950e-01, -1.859999999999999987e-01, -1.540000000000000223e-02, 1.044000000000000039e+00, -1.000000000000000222e+00, 1.000000000000000222e+00, 2.440000000000000391e+00, -3.149999999999999911e+00, 6.300000000000001599e+00, -8.000000000000001554e-01, -1.000000000000000000e+01, -9.999999999999998890e-01, 9.999999999999997780e-01, 2.959999999999999520e+00, -3.649999999999999467e+00, -1.369999999999999929e+01, -7.999999999999999334e-01, 3.000000000000000000e+00, -9.999999999999998890e-01, 6.530000000000000249e-01, 3.469999999999999751e-01, -1.540000000000000049e-02, 1.051999999999999824e+00, -9.999999999999998890e-01, 1.000000000000000222e+00, -5.350000000000000533e+00, 4.639999999999999680e+00, -4.500000000000000888e+00, -8.000000000000000444e-01, 4.000000000000000000e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, -4.830000000000000071e+00, 4.139999999999998792e+00, -2.449999999999999645e+01, -8.000000000000000444e-01, 1.700000000000000000e+01, -3.699999999999999817e-02, -8.000000000000000167e-03, -1.000000000000000000e+00, 7.700000000000000178e-01, 2.750000000000000222e-01, -1.540000000000000223e-02, 1.245999999999999996e+00, -7.300000000000000933e-02, -1.600000000000000033e-02, -1.000000000000000000e+00, 6.300000000000001155e-01, 4.590000000000000746e-01, -1.540000000000000049e-02, 1.020000000000000018e+00, -9.999999999999998890e-01, 9.999999999999997780e-01, -1.199999999999999956e+00, 4.900000000000000466e-01, -1.449999999999999822e+01, -7.999999999999999334e-01, -2.999999999999999112e+00, -1.000000000000000000e+00, 9.999999999999998890e-01, -6.800000000000000488e-01, -9.999999999999996739e-03, -3.449999999999999289e+01, -7.999999999999999334e-01, 9.999999999999998224e+00, -1.000000000000000222e+00, 1.000000000000000000e+00, -4.019999999999999574e+00, 3.309999999999999609e+00, -1.610000000000000497e+01, -8.000000000000001554e-01, 5.000000000000000711e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -3.500000000000000000e+00, 2.809999999999999165e+00, -3.609999999999999432e+01, -7.999999999999999334e-01, 6.300000000000001421e+01, 7.499999999999999722e-02, 3.899999999999999994e-02, 9.500000000000000111e-02, -1.000000000000000000e+00, 1.600000000000000033e-01, 2.020000000000000129e-01, 2.330000000000000404e-01, 1.499999999999999944e-02, 4.369999999999999579e-02, 1.500000000000000000e+00, 7.599999999999998423e-02, 4.000000000000000083e-02, 9.699999999999998901e-02, -1.499999999999999944e-01, -8.499999999999998668e-01, 1.590000000000000024e-01, 2.050000000000000155e-01, 2.290000000000000091e-01, 1.499999999999999944e-02, 4.660000000000000947e-02, 1.500000000000000000e+00, 2.500000000000000139e-02, 1.400000000000000029e-02, 5.399999999999999939e-02, -1.000000000000000000e+00, 1.110000000000000014e-01, 1.920000000000000595e-01, 2.270000000000000073e-01, 2.459999999999999964e-01, 5.519999999999999907e-02, 1.000000000000000000e+00, 6.700000000000001787e-02, 3.599999999999999728e-02, 8.899999999999999578e-02, -1.000000000000000000e+00, 1.440000000000000169e-01, 1.759999999999999898e-01, 1.940000000000000335e-01, 1.439999999999999891e-01, 5.320000000000000423e-02, 1.110000000000000320e+00, 4.900000000000000189e-02, 2.599999999999999881e-02, 7.299999999999999545e-02, -1.000000000000000000e+00, 1.300000000000000044e-01, 1.849999999999999978e-01, 2.089999999999999913e-01, 1.890000000000000013e-01, 5.500000000000000028e-02, 1.000000000000000000e+00, 4.700000000000000011e-02, 2.699999999999999969e-02, 7.599999999999999811e-02, -1.499999999999999944e-01, -8.499999999999999778e-01, 1.280000000000000027e-01, 1.880000000000000282e-01, 2.030000000000000138e-01, 1.910000000000000031e-01, 5.569999999999999257e-02, 1.000000000000000000e+00, 2.999999999999999889e-02, 2.000000000000000042e-02, 5.299999999999999850e-02, -1.000000000000000000e+00, 1.010000000000000064e-01, 1.880000000000000282e-01, 1.950000000000000067e-01, 2.810000000000000275e-01, 5.090000000000000080e-02, 1.000000000000000000e+00, 1.700000000000000122e-02, 1.299999999999999940e-02, 3.599999999999999728e-02, -1.000000000000000000e+00, 8.699999999999999400e-02, 1.900000000000000022e-01, 2.079999999999999905e-01, 3.230000000000000093e-01, 4.630000000000000782e-02, 1.110000000000000320e+00, 4.700000000000000011e-02, 2.900000000000000147e-02, 8.100000000000000255e-02, -1.000000000000000000e+00, 1.189999999999999947e-01, 1.809999999999999942e-01, 1.769999999999999907e-01, 2.240000000000000047e-01, 5.260000000000000092e-02, 1.000000000000000000e+00, 4.800000000000000100e-02, 2.999999999999999889e-02, 8.200000000000000344e-02, -1.700000000000000122e-01, -8.299999999999999600e-01, 1.169999999999999929e-01, 1.830000000000000238e-01, 1.719999999999999862e-01, 2.270000000000000073e-01, 5.310000000000000137e-02, 1.000000000000000000e+00, 5.800000000000000294e-02, 3.500000000000000333e-02, 9.800000000000000377e-02, -1.000000000000000000e+00, 1.700000000000000400e-01, 2.069999999999999618e-01, 2.119999999999999940e-01, 4.299999999999999656e-02, 3.969999999999999918e-02, 1.669999999999999929e+00, 5.800000000000000294e-02, 3.599999999999999728e-02, 9.900000000000000466e-02, -1.700000000000000122e-01, -8.300000000000000711e-01, 1.690000000000000113e-01, 2.109999999999999654e-01, 2.079999999999999905e-01, 4.399999999999999745e-02, 4.160000000000000503e-02, 1.669999999999999929e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 3.010000000000000231e+00, -3.720000000000001084e+00, 7.400000000000001243e+00, -8.000000000000001554e-01, -1.900000000000000000e+01, -2.000000000000000000e+00, 9.999999999999998890e-01, 3.529999999999999805e+00, -4.219999999999999751e+00, -1.259999999999999964e+01, -8.000000000000000444e-01, -5.999999999999999112e+00, -1.000000000000000222e+00, 1.000000000000000000e+00, 1.019000000000000128e+01, -1.133000000000000185e+01, 1.889999999999999858e+01, -8.000000000000001554e-02, -2.000000000000000888e+00, -1.000000000000000222e+00, 1.000000000000000000e+00, 3.530000000000000693e+00, -4.219999999999999751e+00, 1.089999999999999680e+01, -8.000000000000000444e-01, -4.100000000000000000e+01, -1.000000000000000222e+00, 1.000000000000000000e+00, 3.010000000000000231e+00, -3.719999999999999751e+00, 3.089999999999999858e+01, -8.000000000000002665e-01, -5.399999999999999289e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, 3.010000000000000675e+00, -3.720000000000000195e+00, 1.850000000000000000e+01, -8.000000000000000444e-01, -1.700000000000000000e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, 3.530000000000001137e+00, -4.219999999999999751e+00, -1.500000000000000222e+00, -8.000000000000002665e-01, -4.000000000000000000e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, 1.018999999999999773e+01, -1.132999999999999829e+01, -4.999999999999999445e-01, -8.000000000000001554e-02, 1.999999999999999778e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 3.009999999999999787e+00, -3.720000000000000195e+00, 1.150000000000000355e+01, -8.000000000000001554e-01, -5.000000000000000711e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, 3.530000000000000249e+00, -4.220000000000000639e+00, -8.500000000000000000e+00, -8.000000000000003775e-01, -3.700000000000000711e+01, -9.999999999999998890e-01, 1.000000000000000000e+00, 3.089999999999998970e+00, -3.799999999999998934e+00, 1.499999999999999778e+00, -8.000000000000000444e-01, -1.699999999999999645e+01, -1.000000000000000222e+00, 9.999999999999998890e-01, 3.610000000000000320e+00, -4.299999999999998934e+00, -1.850000000000000000e+01, -8.000000000000000444e-01, -4.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000222e+00, 1.026999999999999957e+01, -1.141000000000000192e+01, -1.050000000000000000e+01, -8.000000000000002942e-02, 3.500000000000000711e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, 3.010000000000000231e+00, -3.719999999999999751e+00, -1.590000000000000036e+01, -8.000000000000000444e-01, 2.000000000000000000e+01, -1.000000000000000222e+00, 1.000000000000000000e+00, 3.530000000000000249e+00, -4.219999999999999751e+00, -3.589999999999999147e+01, -8.000000000000001554e-01, 3.299999999999999289e+01, -7.500000000000000590e-03, -4.000000000000001471e-02, -4.750000000000000749e-02, -9.050000000000002487e-01, 1.000000000000000000e+00, -5.879999999999999893e+00, 1.449999999999999822e+01, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, 1.000000000000000222e+00, 7.300000000000000933e-01, -4.929999999999999938e-01, -7.639989899999999068e+01, 4.350000000000000000e+01, -1.000000000000000222e+00, 1.000000000000000222e+00, -1.969999999999999929e+01, -6.580000000000000293e-01, -7.639989899999999068e+01, 4.350000000000000000e+01, -1.270000000000000240e+00, 2.700000000000000733e-01, 1.000000000000000000e+00, 2.049999999999999378e+00, -4.309999999999999387e-01, 5.259999999999998721e+01, -5.010000000000000142e+01, -1.270000000000000240e+00, 2.700000000000000733e-01, 1.000000000000000000e+00, -1.509999999999999964e+01, -5.739999999999998437e-01, 5.259999999999998721e+01, -5.010000000000000142e+01, -1.000000000000000222e+00, 1.000000000000000000e+00, 1.999999999999999778e+00, -4.189999999999999836e-01, 5.239999999999998437e+01, -4.879999999999999716e+01, -1.000000000000000222e+00, 9.999999999999997780e-01, -1.469999999999999751e+01, -5.589999999999999414e-01, 5.239999999999998437e+01, -4.879999999999999716e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.381000000000000227e+01, 1.730000000000000071e+01, 7.019999999999999574e+00, -3.480000000000000426e+00, 4.300000000000000000e+01, -1.000000000000000000e+00, 9.999999999999998890e-01, -1.248999999999999844e+01, 1.730000000000000071e+01, -4.209999999999999964e+00, -3.479999999999999538e+00, 4.300000000000000000e+01, -1.000000000000000000e+00, 9.999999999999998890e-01, -9.660000000000000142e+00, 1.230000000000000071e+01, -1.166000000000000014e+01, -3.479999999999999982e+00, 1.329999999999999849e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.533000000000000007e+01, 1.419000000000000128e+01, -3.500000000000000000e+00, -3.479999999999999982e+00, -2.200000000000000355e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -2.198999999999999844e+01, 2.130000000000000071e+01, -1.150000000000000178e+01, -3.479999999999999982e+00, -6.100000000000001421e+01, -1.000000000000000222e+00, 1.000000000000000222e+00, -1.250999999999999801e+01, -5.800000000000000711e+00, 7.499999999999999112e+00, -3.479999999999999538e+00, 4.000000000000000000e+01, -1.000000000000000222e+00, 1.000000000000000000e+00, -1.119000000000000306e+01, -5.799999999999999822e+00, -4.250000000000000000e+00, -3.479999999999999094e+00, 4.000000000000000000e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.532999999999999652e+01, 1.418999999999999773e+01, -2.750000000000000000e+01, -3.479999999999999982e+00, -2.200000000000000355e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -2.251000000000000512e+01, 2.180000000000000071e+01, -1.549999999999999822e+01, -3.479999999999999538e+00, -7.400000000000000000e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -2.198999999999999844e+01, 2.130000000000000071e+01, -3.550000000000000711e+01, -3.479999999999999982e+00, -6.100000000000001421e+01, 1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, -1.453999999999999915e+01, 1.385000000000000142e+01, -1.150000000000000000e+01, -3.439999999999999947e+00, -1.000000000000000000e+01, -9.999999999999998890e-01, 9.999999999999998890e-01, -1.453999999999999737e+01, 1.384999999999999964e+01, -3.549999999999999289e+01, -3.439999999999999059e+00, 1.700000000000000000e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 9.999999999999998890e-01, -2.800000000000000822e-01, -4.630000000000000782e-01, -6.479999899999999968e+01, 2.460000000000000142e+01, 9.999999999999998890e-01, 1.000000000000000000e+00, -1.778999999999999915e+01, -6.179999999999999938e-01, -6.479999899999999968e+01, 2.460000000000000142e+01, 9.999999999999997780e-01, 1.000000000000000222e+00, -3.759999999999999787e+00, -3.970000000000000195e-01, 6.849999999999998579e+01, -5.130000000000000426e+01, 9.999999999999997780e-01, 1.000000000000000000e+00, -1.869000000000000128e+01, -5.290000000000000258e-01, 6.849999999999998579e+01, -5.130000000000000426e+01, 1.000000000000000000e+00, 9.999999999999998890e-01, -4.379999999999999893e+00, -4.199999999999999845e-01, 2.124999999999999289e+01, -2.439999999999999503e+01, -2.000000000000000111e-01, 2.000000000000000111e-01, 5.999999999999999778e-01, 1.000000000000000000e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, 1.320000000000000284e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 6.899999999999999467e+00, -1.960000000000000075e-01, -2.849999999999999756e-01, -3.770000000000000018e-01, -6.000000000000000472e-02, -8.200000000000001732e-02, 1.000000000000000000e+00, -4.680000000000000271e-01, -2.409999999999999920e-01, -1.630000000000000060e-01, -9.300000000000001321e-02, -3.500000000000001027e-02, 1.000000000000000000e+00, -4.380000000000000004e-01, -1.970000000000000084e-01, -3.649999999999999911e-01, 1.000000000000000000e+00, -3.099999999999999978e-01, -3.099999999999999978e-01, -3.800000000000000044e-01, 1.000000000000000000e+00, -1.000000000000000222e+00, 1.000000000000000000e+00, -1.470000000000000195e+00, 2.500000000000000444e+00, -1.380000000000000071e+01, -5.000000000000000888e+00, -1.000000000000000222e+00, 1.000000000000000000e+00, -3.559999999999999609e+00, 3.000000000000000000e+00, -7.360000000000002096e+00, -9.999999999999996669e-01, 1.000000000000000000e+00, -2.830000000000000515e+00, 3.000000000000000000e+00, -8.500000000000000000e+00, -7.360000000000001208e+00, -4.460000000000000853e+00, 1.000000000000000222e+00, -1.119999999999999751e+01, 1.000000000000000000e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, 1.999999999999999556e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, 1.829999999999999849e+00, -1.979999999999999760e+00, 5.499999999999999112e+00, 3.000000000000000000e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, 1.499999999999999667e-01, 5.499999999999999112e+00, 3.000000000000000000e+00, 1.010000000000000231e+00, 1.900000000000000300e-02, 6.000000000000000992e-03, 5.999999999999999778e-02, 8.300000000000000433e-02, 6.600000000000000311e-02, 1.409999999999999865e-01, 1.600000000000000380e-02, 1.920000000000000318e-01, 2.800000000000000405e-02, 3.889999999999999569e-01, -2.340000000000000066e-02, 1.221999999999999975e+00, 1.010000000000000009e+00, 1.400000000000000029e-02, 6.000000000000000125e-03, 4.900000000000000189e-02, 8.100000000000000255e-02, 4.399999999999999745e-02, 9.099999999999999756e-02, 1.000000000000000021e-02, 1.360000000000000098e-01, 2.399999999999999703e-02, 5.450000000000000400e-01, -2.019999999999999921e-02, 1.000000000000000000e+00, 1.010000000000000231e+00, 1.300000000000000114e-02, 5.000000000000000971e-03, 7.399999999999999634e-02, 1.429999999999999882e-01, 3.899999999999999994e-02, 8.200000000000001732e-02, 8.999999999999999320e-03, 1.219999999999999973e-01, 2.199999999999999872e-02, 4.910000000000000475e-01, -2.260000000000000203e-02, 1.209999999999999964e+00, 1.010000000000000231e+00, 1.299999999999999940e-02, 4.999999999999999237e-03, 4.699999999999999317e-02, 1.069999999999999840e-01, 4.999999999999999584e-02, 1.239999999999999852e-01, 1.640000000000000069e-01, 2.699999999999999276e-02, 4.629999999999999116e-01, -2.200000000000000219e-02, 1.052000000000000046e+00, 1.010000000000000231e+00, 1.700000000000000122e-02, 7.000000000000000146e-03, 5.900000000000000383e-02, 9.800000000000000377e-02, 5.099999999999999672e-02, 1.050000000000000100e-01, 1.200000000000000198e-02, 1.489999999999999936e-01, 2.400000000000000397e-02, 4.780000000000000360e-01, -2.149999999999999828e-02, 1.042999999999999927e+00, 1.010000000000000231e+00, 2.400000000000000050e-02, 8.999999999999999320e-03, 7.799999999999999989e-02, 1.270000000000000018e-01, 6.500000000000000222e-02, 1.300000000000000044e-01, 1.499999999999999944e-02, 1.719999999999999862e-01, 2.499999999999999792e-02, 3.549999999999999267e-01, -2.340000000000000413e-02, 1.235000000000000098e+00, 1.010000000000000009e+00, 1.499999999999999944e-02, 3.000000000000000062e-03, 4.700000000000000011e-02, 9.700000000000000289e-02, 4.900000000000000189e-02, 1.069999999999999979e-01, 1.489999999999999936e-01, 2.299999999999999961e-02, 5.100000000000001199e-01, -2.030000000000000207e-02, 1.000000000000000000e+00, 1.010000000000000009e+00, 1.499999999999999944e-02, 3.000000000000000062e-03, 4.700000000000000011e-02, 9.700000000000000289e-02, 4.900000000000000189e-02, 1.069999999999999979e-01, 1.489999999999999936e-01, 2.299999999999999961e-02, 5.100000000000001199e-01, -2.299999999999999961e-02, 1.000000000000000000e+00, 4.639999999999999680e-02, 1.010000000000000231e+00, 1.200000000000000025e-02, 4.000000000000000083e-03, 5.999999999999999778e-02, 1.029999999999999805e-01, 6.099999999999999867e-02, 1.260000000000000009e-01, 1.400000000000000029e-02, 1.719999999999999585e-01, 2.999999999999999889e-02, 4.179999999999999827e-01, -2.199999999999999525e-02, 1.141999999999999682e+00, -1.000000000000000222e+00, 1.159999999999999920e+00, -1.000000000000000000e+00, 1.199999999999999956e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, -7.409999999999999254e+00, -9.650000000000000000e+01, 2.141000999999999976e+02, -5.410000000000000364e-01, -9.999999999999998890e-01, 9.999999999999998890e-01, -2.603000000000000114e+01, -9.654000000000000625e+01, 2.141000999999999976e+02, -7.339999999999999858e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 3.450000000000000000e+01, -7.660009999999999764e+01, 3.302000000000001023e+01, -4.710000000000000298e-01, -9.999999999999998890e-01, 9.999999999999997780e-01, 9.999999999999998890e-01, 2.251999999999999957e+01, -7.654999899999998547e+01, 3.302000000000000313e+01, -6.389999999999999014e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 3.126000000000000156e+01, 3.028999999999999915e+01, -4.214000000000000057e+01, -5.859999999999999654e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 3.126000000000000156e+01, 3.028999999999999915e+01, -4.214000000000000057e+01, -5.859999999999999654e-01, -4.000000000000000083e-02, -9.599999999999999645e-01, 1.000000000000000000e+00, -1.400000000000000029e-02, -3.360000000000000209e-01, -6.500000000000000222e-01, 1.000000000000000000e+00, -1.400000000000000029e-02, -3.360000000000000209e-01, -6.500000000000000222e-01, 1.000000000000000000e+00, 2.004000000000000004e+00, -1.000000000000000222e+00, -1.400000000000000376e-02, -3.360000000000000209e-01, -6.500000000000001332e-01, 1.000000000000000222e+00, 2.004000000000000004e+00, -1.000000000000000222e+00, -2.000000000000000042e-02, -4.799999999999999822e-01, -5.000000000000001110e-01, 1.000000000000000222e+00, 5.000000000000001110e-01, 2.004000000000000004e+00, -1.000000000000000222e+00, -2.000000000000000042e-02, -4.799999999999999822e-01, -5.000000000000001110e-01, 1.000000000000000222e+00, -2.999999999999999889e-01, -6.999999999999999556e-01, 1.000000000000000000e+00, -6.999999999999999556e-01, -2.999999999999999889e-01, 1.000000000000000000e+00, -2.999999999999999889e-01, -6.999999999999999556e-01, 1.000000000000000000e+00, -6.999999999999999556e-01, -2.999999999999999889e-01, 1.000000000000000000e+00, 1.110000000000000320e+00, -9.999999999999998890e-01, 1.010000000000000203e-01, 1.519999999999999962e-01, 1.000000000000000021e-02, -1.000000000000000000e+00, 4.000000000000000083e-02, -1.010000000000000203e-01, 1.157000000000000028e+00, 1.000000000000000000e+00, 6.969999999999999529e-01, -1.900000000000000022e-01, 7.399999999999999634e-02, 1.120000000000000023e-01, 1.000000000000000021e-02, -1.000000000000000000e+00, 4.000000000000000083e-02, -9.560000000000000442e-02, 9.090000000000000302e-01, 1.000000000000000000e+00, 7.639999999999999014e-01, -1.900000000000000022e-01, 1.000000000000000000e+00, -1.400000000000000178e+01, -9.250000000000000000e+00, -9.250000000000001776e+00, -5.620000000000000551e-01, -1.000000000000000000e+00, 9.999999999999998890e-01, -6.599999999999999201e-01, -9.250000000000000000e+00, -9.250000000000000000e+00, -4.139999999999999236e-01, -1.000000000000000000e+00, 9.900000000000000466e-02, 1.479999999999999927e-01, 1.000000000000000021e-02, -1.000000000000000000e+00, 4.000000000000000083e-02, -9.560000000000000442e-02, 1.000000000000000000e+00, 7.029999999999999583e-01, -1.900000000000000022e-01, 1.259999999999999731e-01, 1.670000000000000095e-01, 1.000000000000000021e-02, -1.000000000000000000e+00, 4.000000000000000083e-02, -1.010000000000000064e-01, 1.300000000000000266e+00, 2.000000000000000042e-02, 6.370000000000001217e-01, -1.900000000000000022e-01, 1.260000000000000009e-01, 1.870000000000000273e-01, 1.000000000000000021e-02, -1.000000000000000000e+00, 4.000000000000000083e-02, -1.010000000000000064e-01, 1.445000000000000062e+00, 6.370000000000001217e-01, -1.900000000000000022e-01, 1.000000000000000000e+00, -5.339999999999999858e+00, -5.210000000000000853e+00, -4.040000000000000924e+00, -4.079999999999999183e-01, -1.000000000000000000e+00, 9.999999999999998890e-01, -1.349000000000000199e+01, 3.970000000000000639e+00, -1.442000000000000171e+01, -5.629999999999998339e-01, -9.999999999999998890e-01, 6.400000000000000133e-02, 9.400000000000000022e-02, 1.000000000000000021e-02, -6.670000000000000373e-01, -3.330000000000000182e-01, 4.000000000000000083e-02, -9.560000000000000442e-02, 8.080000000000000515e-01, 6.670000000000000373e-01, 7.900000000000000355e-01, -1.900000000000000022e-01, 8.899999999999998190e-02, 1.350000000000000089e-01, 1.000000000000000021e-02, -6.670000000000000373e-01, -3.330000000000000182e-01, 4.000000000000000083e-02, -1.010000000000000203e-01, 1.044000000000000039e+00, 6.670000000000000373e-01, 7.259999999999999787e-01, -1.900000000000000022e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 8.000000000000000000e+00, -8.500000000000000000e+00, 3.607999999999999829e+01, -2.000000000000000000e+01, -1.300000000000000000e+01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.019999999999999751e+01, -1.350000000000000000e+01, 3.607999999999999829e+01, -3.000000000000000355e+01, 1.311999999999999922e+01, -2.600000000000000355e+01, 1.000000000000000000e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, -3.800000000000000000e+01, -4.272999999999999687e+01, 4.192000000000000171e+01, 3.607999999999999119e+01, -9.500000000000000000e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -3.800000000000000000e+01, -3.960999999999999943e+01, 3.896999999999999176e+01, 3.607999999999999829e+01, -9.200000000000000000e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -2.300000000000000000e+01, -3.960999999999999943e+01, 3.896999999999999886e+01, 3.607999999999999829e+01, -9.200000000000000000e+01, 9.999999999999998890e-01, -4.839999999999998970e+00, 2.609999999999999876e+00, -1.018999999999999950e+01, -4.099999999999999756e-01, -1.000000000000000000e+00, 9.999999999999998890e-01, 1.300000000000000044e-01, 3.969999999999999751e+00, -1.442000000000000171e+01, -4.149999999999999800e-01, -9.999999999999998890e-01, 7.599999999999999811e-02, 1.130000000000000032e-01, 1.000000000000000021e-02, -6.670000000000000373e-01, -3.330000000000000182e-01, 4.000000000000000083e-02, -9.560000000000000442e-02, 8.800000000000000044e-01, 7.610000000000000098e-01, -1.900000000000000022e-01, 1.029999999999999805e-01, 1.439999999999999614e-01, 1.000000000000000021e-02, -6.670000000000000373e-01, -3.330000000000000182e-01, 4.000000000000000083e-02, -1.010000000000000064e-01, 1.110999999999999988e+00, 8.999999999999997585e-03, 6.939999999999999503e-01, -1.899999999999999745e-01, 1.030000000000000221e-01, 1.530000000000000249e-01, 1.000000000000000021e-02, -6.670000000000000373e-01, -3.330000000000000182e-01, 4.000000000000000083e-02, -9.560000000000001830e-02, 1.182000000000000162e+00, 6.940000000000001723e-01, -1.900000000000000300e-01, -4.400000000000000022e-01, -5.600000000000000533e-01, 1.000000000000000222e+00, 1.000000000000000222e+00, -4.400000000000000022e-01, -5.600000000000000533e-01, 1.000000000000000222e+00, 1.000000000000000222e+00, 1.000000000000000056e-01, -1.600000000000000089e+00, 5.000000000000000000e-01, 1.000000000000000000e+00, 1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.499999999999999944e-01, -8.500000000000000888e-01, -3.500000000000000333e-02, 8.100000000000003864e-01, 8.100000000000001643e-01, 1.900000000000000022e-01, 1.000000000000000222e+00, -1.479999999999999982e+00, 4.800000000000000933e-01, 7.200000000000000844e-01, -3.799999999999999822e+00, 9.700000000000001066e+00, 1.900000000000000022e-01, -1.499999999999999667e-01, -8.499999999999999778e-01, -3.499999999999999639e-02, 8.100000000000001643e-01, 8.100000000000001643e-01, 1.900000000000000022e-01, 9.999999999999998890e-01, -1.059999999999999831e+00, -4.799999999999999267e-01, 7.399999999999998801e-01, -5.700000000000000178e+00, 1.970000000000000195e+00, 7.499999999999999112e+00, 1.900000000000000022e-01, -6.800000000000000488e-01, -9.999999999999998890e-01, -3.499999999999999639e-02, 1.550000000000000044e+00, 1.550000000000000044e+00, 1.299999999999999767e-01, 9.999999999999998890e-01, -9.600000000000001865e-01, 4.600000000000000755e-01, 1.709999999999999964e+00, -3.899999999999999911e+00, 1.209999999999999964e+00, 4.940000000000001279e+00, 1.299999999999999767e-01, -1.499999999999999944e-01, -8.499999999999998668e-01, -3.499999999999999639e-02, 8.100000000000002753e-01, 8.100000000000000533e-01, 1.899999999999999745e-01, 9.999999999999997780e-01, -5.130000000000000782e+00, -6.120000000000000995e+00, 5.959999999999999964e+00, 7.399999999999998801e-01, -1.810000000000000142e+01, -1.499999999999999944e-01, -8.500000000000000888e-01, -3.500000000000000333e-02, 8.100000000000003864e-01, 8.100000000000001643e-01, 1.900000000000000022e-01, 1.000000000000000000e+00, -2.279999999999999805e+00, -5.530000000000001137e+00, 5.400000000000001243e+00, 7.400000000000002132e-01, -1.750000000000000000e+01, -1.499999999999999944e-01, -8.500000000000000888e-01, -3.500000000000000333e-02, 8.100000000000003864e-01, 8.100000000000001643e-01, 1.900000000000000300e-01, 1.000000000000000000e+00, -5.130000000000000782e+00, -5.530000000000001137e+00, 5.400000000000001243e+00, 7.400000000000002132e-01, -1.750000000000000000e+01, -6.800000000000000488e-01, -1.000000000000000000e+00, -3.499999999999999639e-02, 1.550000000000000266e+00, 1.550000000000000266e+00, 1.300000000000000044e-01, 1.000000000000000000e+00, -2.339999999999999858e+00, -3.509999999999999343e+00, 3.419999999999999929e+00, 8.000000000000001554e-02, -1.200000000000000178e+01, -6.800000000000000488e-01, -1.000000000000000000e+00, -3.499999999999999639e-02, 1.550000000000000266e+00, 1.550000000000000266e+00, 1.300000000000000044e-01, 1.000000000000000000e+00, -3.899999999999999578e-01, -3.509999999999999787e+00, 3.419999999999999929e+00, 8.000000000000001554e-02, -1.200000000000000178e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, 3.799999999999998934e+00, -6.499999999999999112e+00, 7.099999999999998535e-01, -1.299999999999999822e+01, -1.300000000000000000e+01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 5.999999999999999112e+00, -1.150000000000000000e+01, 7.099999999999999645e-01, -2.300000000000000355e+01, 8.240000000000000213e+00, -2.600000000000000355e+01, 1.000000000000000000e+00, -1.000000000000000222e+00, 1.000000000000000222e+00, -3.600000000000001421e+01, -3.009000000000000696e+01, 2.928000000000000824e+01, 7.099999999999998535e-01, -7.650000000000000000e+01, -9.999999999999998890e-01, 1.086999999999999966e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, -3.600000000000000000e+01, -2.696999999999999531e+01, 2.632999999999999474e+01, 7.099999999999999645e-01, -7.349999999999998579e+01, -9.999999999999998890e-01, 9.999999999999998890e-01, -2.099999999999999645e+01, -2.696999999999999886e+01, 2.632999999999999474e+01, 7.099999999999999645e-01, -7.349999999999998579e+01, -1.000000000000000222e+00, 1.000000000000000000e+00, -2.600000000000000089e+00, 3.000000000000000888e+00, -3.009999999999999787e+00, 4.000000000000000888e+00, -8.000000000000001776e+00, 1.000000000000000000e+00, -1.000000000000000222e+00, -5.500000000000001416e-02, 1.000000000000000000e+00, -2.600000000000000089e+00, -5.000000000000001110e-01, -3.009999999999999787e+00, 4.000000000000000888e+00, -8.000000000000001776e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -9.999999999999997780e-01, 9.999999999999998890e-01, -4.000000000000000222e-01, -1.999999999999999778e+00, -3.329999999999998739e+00, -5.999999999999999112e+00, 3.799999999999999489e-01, -2.099999999999999645e+01, 9.999999999999998890e-01, -1.000000000000000222e+00, 1.000000000000000000e+00, -2.700000000000000711e+01, -2.223000000000000043e+01, 2.142000000000000171e+01, -3.329999999999999627e+00, -5.300000000000000000e+01, -1.000000000000000000e+00, 1.060000000000000275e+00, -1.000000000000000000e+00, 1.000000000000000222e+00, -2.700000000000000355e+01, -1.910999999999999943e+01, 1.846999999999999886e+01, -3.330000000000000959e+00, -5.000000000000000711e+01, -1.000000000000000000e+00, 1.000000000000000222e+00, -1.200000000000000000e+01, -1.910999999999999943e+01, 1.846999999999999886e+01, -3.330000000000000959e+00, -5.000000000000000711e+01, -9.999999999999997780e-01, 9.999999999999997780e-01, -3.799999999999999378e+00, 1.000000000000000194e-01, -3.009999999999998899e+00, 7.000000000000000000e+00, -6.500000000000000000e+00, 9.999999999999997780e-01, -1.000000000000000222e+00, 1.000000000000000222e+00, -1.600000000000000089e+00, -4.900000000000001243e+00, -3.330000000000000071e+00, -2.999999999999999556e+00, -1.219999999999999973e+00, -1.850000000000000000e+01, 1.000000000000000222e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -2.939999999999999858e+01, -2.062999999999999545e+01, 1.981999999999999673e+01, -3.329999999999999183e+00, -5.000000000000000000e+01, -9.999999999999997780e-01, 1.000000000000000000e+00, -2.939999999999999858e+01, -1.751000000000000512e+01, 1.686999999999999744e+01, -3.330000000000000071e+00, -4.700000000000000000e+01, -9.999999999999998890e-01, 1.000000000000000222e+00, -1.440000000000000213e+01, -1.751000000000000512e+01, 1.686999999999999744e+01, -3.330000000000000515e+00, -4.700000000000000000e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -2.699999999999999734e+00, 2.999999999999999889e-01, -3.009999999999999343e+00, 4.000000000000000000e+00, -3.999999999999999556e+00, 1.000000000000000000e+00, -9.999999999999997780e-01, 9.999999999999998890e-01, -5.000000000000000000e-01, -4.699999999999999289e+00, -3.169999999999999929e+00, -5.999999999999999112e+00, -9.199999999999998179e-01, -1.999999999999999645e+01, 9.999999999999998890e-01, -9.999999999999998890e-01, 1.000000000000000000e+00, -2.919999999999999929e+01, -2.092999999999999972e+01, 2.012000000000000099e+01, -3.169999999999999485e+00, -5.300000000000000000e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -2.920000000000000284e+01, -1.780999999999999872e+01, 1.716999999999999815e+01, -3.170000000000000817e+00, -5.000000000000000000e+01, -1.000000000000000000e+00, 1.000000000000000222e+00, -1.419999999999999929e+01, -1.781000000000000227e+01, 1.716999999999999815e+01, -3.170000000000000817e+00, -5.000000000000000711e+01, -9.999999999999998890e-01, 9.999999999999998890e-01, -7.599999999999998757e+00, 1.099999999999999822e+01, -1.649999999999999689e+00, 2.599999999999999289e+01, -3.999999999999999112e+00, 9.999999999999998890e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, -5.400000000000000355e+00, 6.000000000000000888e+00, -1.649999999999999911e+00, 1.599999999999999822e+01, -7.620000000000000995e+00, -1.400000000000000178e+01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.850000000000000355e+01, -1.423000000000000398e+01, 1.342000000000000703e+01, -1.650000000000000133e+00, -3.000000000000000355e+01, -1.000000000000000000e+00, 1.044000000000000039e+00, -1.000000000000000000e+00, 1.000000000000000222e+00, -1.850000000000000000e+01, -1.111000000000000121e+01, 1.047000000000000064e+01, -1.650000000000000133e+00, -2.700000000000000000e+01, -1.000000000000000222e+00, 1.000000000000000222e+00, -3.500000000000000000e+00, -1.110999999999999766e+01, 1.047000000000000064e+01, -1.649999999999999911e+00, -2.700000000000000000e+01, -9.999999999999998890e-01, 1.000000000000000000e+00, -8.699999999999999289e+00, 5.500000000000000000e+00, -1.649999999999999911e+00, 3.800000000000000000e+01, -2.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -6.500000000000000000e+00, 5.000000000000000000e-01, -1.650000000000000133e+00, 2.800000000000000000e+01, -9.120000000000002771e+00, -1.150000000000000178e+01, 1.000000000000000000e+00, -1.000000000000000222e+00, 1.000000000000000222e+00, -2.400000000000000711e+01, -1.273000000000000398e+01, 1.192000000000000171e+01, -1.649999999999999467e+00, -1.800000000000000000e+01, -1.000000000000000222e+00, 1.000000000000000222e+00, -2.400000000000000711e+01, -9.609999999999999432e+00, 8.970000000000000639e+00, -1.649999999999999911e+00, -1.500000000000000178e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -9.000000000000000000e+00, -9.609999999999999432e+00, 8.970000000000000639e+00, -1.650000000000000133e+00, -1.500000000000000178e+01, -9.999999999999998890e-01, 1.000000000000000000e+00, -6.299999999999998934e+00, 8.000000000000000000e+00, -1.649999999999999911e+00, 3.800000000000000000e+01, 3.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -5.099999999999999645e+00, 3.000000000000000444e+00, -1.650000000000000133e+00, 2.800000000000000000e+01, -6.520000000000001350e+00, -1.250000000000000000e+01, 1.000000000000000000e+00, -9.999999999999997780e-01, 9.999999999999998890e-01, -2.150000000000000000e+01, -1.532999999999999829e+01, 1.451999999999999780e+01, -1.649999999999999689e+00, -1.800000000000000000e+01, -9.999999999999997780e-01, 9.999999999999998890e-01, -2.150000000000000000e+01, -1.221000000000000263e+01, 1.156999999999999851e+01, -1.650000000000000133e+00, -1.500000000000000000e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -6.500000000000000000e+00, -1.221000000000000085e+01, 1.156999999999999851e+01, -1.649999999999999911e+00, -1.500000000000000000e+01, -1.000000000000000222e+00, 1.000000000000000000e+00, 1.500000000000000222e+00, 2.099999999999999645e-01, -1.020000000000000018e+00, -2.139999999999999236e+00, -9.999999999999998224e+00, -1.000000000000000000e+00, 9.999999999999998890e-01, 1.500000000000000222e+00, 3.329999999999999627e+00, -3.970000000000000195e+00, -2.140000000000000568e+00, -7.000000000000000000e+00, -1.000000000000000222e+00, 1.000000000000000000e+00, 1.650000000000000000e+01, 3.330000000000000515e+00, -3.969999999999999751e+00, -2.140000000000000124e+00, -6.999999999999999112e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, -1.500000000000000178e+01, -1.799999999999999822e+00, 9.899999999999999911e-01, -2.140000000000000124e+00, -2.000000000000000000e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, -1.500000000000000178e+01, 1.319999999999999840e+00, -1.960000000000000187e+00, -2.140000000000000124e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.320000000000000506e+00, -1.960000000000000187e+00, -2.140000000000000124e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -3.500000000000000444e+00, -1.649999999999999689e+00, 8.399999999999998579e-01, -2.139999999999999236e+00, -9.999999999999998224e+00, -9.999999999999997780e-01, 9.999999999999998890e-01, -3.500000000000000444e+00, 1.469999999999999529e+00, -2.109999999999999432e+00, -2.140000000000000568e+00, -7.000000000000000000e+00, -1.000000000000000222e+00, 1.000000000000000000e+00, 1.149999999999999822e+01, 1.469999999999999973e+00, -2.109999999999999876e+00, -2.139999999999999680e+00, -6.999999999999999112e+00, -1.000000000000000222e+00, 1.000000000000000000e+00, -1.400000000000000000e+01, -4.130000000000000782e+00, 3.320000000000000284e+00, -2.139999999999999680e+00, 1.000000000000000178e+01, -1.000000000000000222e+00, 1.000000000000000000e+00, -1.400000000000000000e+01, -1.010000000000000009e+00, 3.699999999999999956e-01, -2.140000000000000124e+00, 1.300000000000000000e+01, -1.000000000000000000e+00, 9.999999999999998890e-01, 9.999999999999996669e-01, -1.009999999999999787e+00, 3.699999999999998845e-01, -2.139999999999999680e+00, 1.299999999999999822e+01, -1.000000000000000444e+00, 1.000000000000000000e+00, -1.100000000000000000e+01, 7.999999999999999334e-01, -1.610000000000000320e+00, -2.140000000000000124e+00, -2.000000000000000000e+00, -1.000000000000000444e+00, 1.000000000000000000e+00, -1.100000000000000000e+01, 3.920000000000000373e+00, -4.559999999999999609e+00, -2.140000000000000568e+00, 9.999999999999998890e-01, -9.999999999999998890e-01, 1.000000000000000000e+00, 4.000000000000000000e+00, 3.919999999999999041e+00, -4.559999999999999609e+00, -2.140000000000000124e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.100000000000000000e+01, -3.720000000000000639e+00, 2.910000000000001474e+00, -2.140000000000000124e+00, -2.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.100000000000000000e+01, -5.999999999999999778e-01, -4.000000000000000083e-02, -2.140000000000000568e+00, 9.999999999999998890e-01, -1.000000000000000000e+00, 9.999999999999998890e-01, 3.999999999999999556e+00, -5.999999999999999778e-01, -3.999999999999999389e-02, -2.140000000000000124e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 9.999999999999998890e-01, -2.200000000000000000e+01, -5.870000000000000995e+00, 5.059999999999999609e+00, -2.139999999999999680e+00, 1.700000000000000000e+01, -1.000000000000000000e+00, 9.999999999999998890e-01, -2.200000000000000000e+01, -2.749999999999999556e+00, 2.109999999999999876e+00, -2.140000000000000568e+00, 2.000000000000000000e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -7.000000000000000888e+00, -2.750000000000000444e+00, 2.109999999999999876e+00, -2.140000000000000124e+00, 1.999999999999999645e+01, -5.000000000000000278e-02, -3.300000000000000155e-01, -6.199999999999999956e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.258000000000000007e+00, -1.000000000000000000e+00, 2.666999999999999815e+00, 1.000000000000000000e+00, -6.500000000000000222e-01, -3.500000000000000888e-01, 2.600000000000000533e+00, -6.070000000000000284e+00, 1.400000000000000133e+00, -3.270000000000000018e+00, 1.000000000000000222e+00, -9.999999999999998890e-01, 5.730000000000002203e+00, 3.999999999999999556e+00, -9.329999999999998295e+00, 9.999999999999998890e-01, 1.257999999999999785e+00, -1.000000000000000222e+00, 1.000000000000000000e+00, 1.257999999999999785e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 6.000000000000000000e+00, 1.229999999999999760e+00, -1.770000000000000018e+00, -3.000000000000000444e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 7.400000000000001021e-01, -7.800000000000000266e-01, 1.000000000000000000e+00, -9.999999999999998890e-01, 5.000000000000000000e+00, 1.959999999999999964e+00, -1.840000000000000302e+00, 1.100000000000000000e+01, 1.000000000000000222e+00, -8.035000000000000142e+00, 1.000000000000000000e+00, -1.562499999999999822e+01, 9.999999999999998890e-01, -1.000000000000000222e+00, 1.000000000000000222e+00, 2.500000000000000444e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 5.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000222e+00, 5.000000000000000000e+00, 2.599999999999999534e-01, 3.000000000000000000e+00, 1.000000000000000000e+00, 1.549999999999999989e-01, 2.399999999999999911e-01, 5.550000000000000488e-01, 5.000000000000000000e-01, 5.000000000000000000e-01, -1.449999999999999900e-01, 1.000000000000000000e+00, -8.549999999999999822e-01, 1.000000000000000000e+00, 1.499999999999999944e-01, 2.550000000000000044e-01, 5.450000000000000400e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.171000000000000041e+00, 1.710000000000000409e-01, 1.000000000000000000e+00, 1.549999999999999989e-01, 2.399999999999999911e-01, 4.159999999999999809e-01, 1.390000000000000124e-01, 5.000000000000000000e-01, 5.000000000000000000e-01, -1.489999999999999936e-01, -2.730000000000000204e-01, -5.500000000000000444e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.729999999999999871e-01, -2.449999999999999956e-01, -5.500000000000000444e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -9.999999999999997780e-01, 1.399999999999999911e+00, -2.999999999999999334e-01, 2.000000000000000111e-01, -2.500000000000000000e-01, -5.000000000000000278e-02, 1.600000000000000033e-01, -9.999999999999999167e-02, 9.000000000000000222e-01, -1.000000000000000000e+00, 2.999999999999999889e-02, 1.000000000000000021e-02, 2.000000000000000111e-01, 8.000000000000000444e-01, -1.000000000000000000e+00, 2.566699999999999537e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000222e+00, 2.133000000000000451e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 3.641999999999999904e+00, 1.000000000000000000e+00, 1.000000000000000222e+00, 2.566699999999999537e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 2.133000000000000451e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 3.483000000000000096e+00, 1.000000000000000222e+00, 1.000000000000000000e+00, 6.290000000000000036e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 4.400000000000000022e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 3.350000000000000200e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 4.919999999999999374e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 6.291999999999999815e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 2.038000000000000700e+00, -1.000000000000000222e+00, 1.000000000000000222e+00, -1.000000000000000222e+00, 5.000000000000000000e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 3.770000000000000018e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.883000000000000229e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 4.919999999999999374e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 2.112000000000000099e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, -1.000000000000000000e+00, 6.291999999999999815e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 2.038000000000000700e+00, -1.000000000000000222e+00, 1.000000000000000222e+00, -1.000000000000000222e+00, 5.000000000000000000e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 3.770000000000000018e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.883000000000000229e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 4.919999999999999374e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 2.112000000000000099e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, -1.000000000000000000e+00, 9.999999999999998890e-01, 5.749999999999999556e-01, 9.999999999999998890e-01, -9.999999999999998890e-01, -2.281000000000000139e+00, 1.499999999999999944e-01, 9.999999999999998890e-01, 2.708000000000000185e+00, -1.000000000000000222e+00, 1.000000000000000000e+00, 4.107000000000000206e+00, 1.000000000000000222e+00, 2.553999999999999826e+00, -9.999999999999998890e-01, 1.000000000000000000e+00, 4.137999999999999901e+00, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.541999999999999371e-01, 1.000000000000000222e+00, 5.580000000000000071e+00, -8.300000000000000711e+00, 9.699999999999999289e+00, -5.939999999999999725e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 5.749999999999999556e-01, 9.999999999999997780e-01, -9.999999999999998890e-01, 5.516999999999999460e+00, 1.539999999999999702e-01, 9.999999999999997780e-01, 1.000000000000000000e+00, 7.289999999999999813e-01, 1.000000000000000000e+00, -9.999999999999998890e-01, 5.500000000000000000e+00, 1.539999999999999980e-01, 9.999999999999998890e-01, 2.428999999999999826e+00, 1.000000000000000000e+00, -5.799999999999999600e-01, -4.199999999999999845e-01, 2.319999999999999840e+00, -5.410000000000000142e+00, 1.679999999999999716e+00, -3.919999999999999485e+00, 1.000000000000000000e+00, 5.749999999999999556e-01, 1.000000000000000000e+00, -2.000000000000000042e-02, -4.000000000000000083e-02, -1.299999999999999767e-01, -8.100000000000001643e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 5.749999999999999556e-01, 1.000000000000000000e+00, -1.300000000000000044e-01, -2.899999999999999800e-01, -5.799999999999999600e-01, 1.000000000000000000e+00, 9.999999999999998890e-01, 2.429000000000000270e+00, 9.999999999999998890e-01, -9.200000000000001510e-01, -8.000000000000000167e-02, 3.680000000000000160e+00, -8.589999999999999858e+00, 3.200000000000000067e-01, -7.500000000000000000e-01, 2.553999999999999826e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.219500000000000028e+01, 1.000000000000000000e+00, 1.000000000000000222e+00, 9.539999999999999591e-01, 9.999999999999998890e-01, 5.480000000000001315e+00, -4.070000000000000284e+00, 9.500000000000000000e+00, -4.299999999999999933e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000222e+00, -1.000000000000000222e+00, -1.309999999999999831e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 2.133000000000000451e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 2.367000000000000437e+00, -1.000000000000000222e+00, 1.000000000000000222e+00, -1.000000000000000222e+00, 1.000000000000000222e+00, 6.290000000000000036e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 6.620000000000000329e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 2.038000000000000700e+00, -1.000000000000000222e+00, 1.000000000000000222e+00, -1.000000000000000222e+00, 1.270999999999999908e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000222e+00, 2.612000000000000544e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000222e+00, 2.612000000000000544e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 5.000000000000000000e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 2.221000000000000529e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, 1.000000000000000222e+00, 1.000000000000000222e+00, 1.000000000000000222e+00, 3.770000000000000018e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.883000000000000229e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 2.458000000000000185e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 2.458000000000000185e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 2.367000000000000437e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, 1.000000000000000222e+00, 1.000000000000000222e+00, 7.169999999999999707e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 2.458000000000000185e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 4.919999999999999374e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 2.112000000000000099e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, -9.999999999999998890e-01, 1.346000000000000085e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 2.688000000000000611e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 2.688000000000000611e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 2.420799999999999841e+00, -9.999999999999998890e-01, -9.999999999999997780e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 5.120000000000000107e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 2.641700000000000159e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, -9.999999999999998890e-01, 9.999999999999998890e-01, 7.419999999999999929e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 6.583999999999999853e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 2.217000000000000082e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 2.104200000000000070e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 4.395999999999999908e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 2.345800000000000107e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, -9.999999999999998890e-01, 9.999999999999998890e-01, 3.353999999999999759e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 3.357999999999999874e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.825000000000000178e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 5.789999999999999591e-01, -4.500000000000000111e-01, -5.500000000000000444e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 5.789999999999999591e-01, -4.500000000000000111e-01, -5.500000000000000444e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 2.578999999999999737e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999997780e-01, 8.080000000000000515e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 7.249999999999999778e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 6.290000000000000036e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 2.038000000000000700e+00, -1.000000000000000222e+00, 1.000000000000000222e+00, -1.000000000000000000e+00, 4.400000000000000022e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 3.350000000000000200e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 3.360000000000000209e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.825000000000000178e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 5.000000000000000000e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 3.770000000000000018e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.883000000000000229e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 4.919999999999999374e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 2.112000000000000099e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 8.080000000000000515e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 5.749999999999999556e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 7.289999999999999813e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 2.428999999999999826e+00, 1.000000000000000000e+00, -9.999999999999998890e-01, 1.688000000000000389e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, 2.133000000000000451e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 2.038000000000000700e+00, -1.000000000000000222e+00, 1.000000000000000222e+00, -1.000000000000000444e+00, 2.708000000000000629e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, 1.000000000000000000e+00, 2.195800000000000196e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 5.000000000000000000e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 3.770000000000000018e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.883000000000000229e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -9.999999999999997780e-01, 2.553999999999999382e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 2.367000000000000437e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, 1.000000000000000222e+00, 1.000000000000000222e+00, 7.169999999999999707e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 2.112000000000000099e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, -1.000000000000000222e+00, 2.919999999999999818e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.933300000000000241e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 8.080000000000000515e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 5.749999999999999556e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 7.289999999999999813e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 2.428999999999999826e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 9.999999999999997780e-01, 2.724999999999999645e+00, -9.999999999999997780e-01, 5.699999999999999512e-01, -5.899999999999999689e-01, -3.500000000000000000e+00, 6.000000000000000888e+00, -1.500000000000000355e+01, 9.999999999999997780e-01, 9.999999999999997780e-01, 1.000000000000000000e+00, 8.080000000000000515e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, 5.749999999999999556e-01, 9.999999999999998890e-01, -9.999999999999998890e-01, 1.506000000000000005e+00, -4.146000000000000796e+00, 1.000000000000000000e+00, 7.289999999999999813e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, -4.080000000000000071e+00, 1.000000000000000222e+00, 2.428999999999999826e+00, 1.000000000000000222e+00, -1.000000000000000222e+00, -8.000000000000000444e-01, 5.999999999999999112e+00, 9.999999999999998890e-01, 1.645999999999999908e+00, 9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -5.749999999999999556e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.799999999999999822e+00, 9.999999999999998890e-01, 9.999999999999998890e-01, -9.999999999999998890e-01, -1.002000000000000002e+00, 2.000000000000000042e-03, -1.434000000000000163e+00, 4.000000000000000888e+00, 8.433999999999997499e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 5.000000000000000000e-01, -9.999999999999997780e-01, -3.500000000000000000e+00, -1.500000000000000355e+01, 9.999999999999997780e-01, 9.999999999999997780e-01, 2.917000000000000148e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.800000000000000044e+00, 2.499999999999999556e+00, -7.420000000000000817e+00, 1.000000000000000000e+00, 3.290000000000000147e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 8.579999999999999849e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 3.338000000000000078e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.539999999999999591e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999997780e-01, 2.724999999999999645e+00, -9.999999999999997780e-01, -3.500000000000000000e+00, -1.500000000000000355e+01, 9.999999999999997780e-01, 9.999999999999997780e-01, 1.000000000000000000e+00, 8.080000000000000515e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.800000000000000044e+00, -7.420000000000000817e+00, 1.000000000000000000e+00, 5.749999999999999556e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 9.999999999999998890e-01, 7.289999999999998703e-01, 9.999999999999998890e-01, -1.000000000000000222e+00, -9.479999999999998650e+00, 1.000000000000000000e+00, 2.428999999999999826e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 9.999999999999998890e-01, 1.645799999999999930e+00, 9.999999999999998890e-01, -9.999999999999997780e-01, 9.999999999999998890e-01, 3.004000000000000004e+00, 9.999999999999998890e-01, 9.999999999999998890e-01, 4.919999999999999374e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 2.450000000000000178e+00, -9.999999999999997780e-01, -1.419999999999999707e+00, -1.000000000000000222e+00, -9.899999999999999911e-01, 1.500000000000000222e+00, -1.500000000000000355e+01, 9.999999999999997780e-01, 3.300000000000000155e-01, 9.999999999999996669e-01, 5.170000000000000151e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, -5.999999999999999778e-01, 7.199999999999999289e+00, 4.000000000000000000e+00, 5.000000000000000000e-01, -2.190000000000000835e+00, -3.760000000000000231e+00, 1.000000000000000222e+00, 4.040000000000000258e-01, 1.000000000000000000e+00, -1.000000000000000222e+00, 2.245000000000000107e+00, -1.260599999999999987e+01, 5.000000000000000888e+00, -5.000000000000000888e+00, -1.379000000000000004e+00, 1.000000000000000000e+00, 4.289999999999999369e-01, 1.000000000000000000e+00, -9.999999999999998890e-01, -7.299999999999998712e-01, 4.000000000000000000e+00, -1.980000000000000204e+00, -5.000000000000000000e+00, 2.499999999999999645e+01, 1.000000000000000000e+00, 1.904000000000000137e+00, 2.500000000000000000e-01, -1.300000000000000322e-01, -2.000000000000000111e-01, 2.000000000000000389e-01, -9.799999999999999822e-01, 1.099999999999999867e-01, -2.200000000000000219e-02, 1.000000000000000000e+00, 5.000000000000000000e-01, 1.000000000000000000e+00, 1.904000000000000137e+00, 2.500000000000000000e-01, -1.300000000000000322e-01, -2.000000000000000111e-01, -3.100000000000000533e-01, 4.000000000000000777e-02, -4.700000000000000289e-01, 7.000000000000000666e-02, -3.699999999999999817e-02, 1.000000000000000000e+00, 6.700000000000000400e-01, 1.000000000000000000e+00, 1.104000000000000314e+00, -1.000000000000000000e+00, 1.000000000000000222e+00, 1.000000000000000000e+00, 2.724999999999999645e+00, -9.999999999999997780e-01, 5.699999999999999512e-01, -5.899999999999999689e-01, 6.000000000000000888e+00, -1.500000000000000355e+01, 9.999999999999997780e-01, 9.999999999999997780e-01, 1.000000000000000000e+00, 8.080000000000001625e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 5.000000000000000888e+00, -1.000000000000000222e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 5.749999999999999556e-01, 9.999999999999998890e-01, -1.000000000000000000e+00, 1.505999999999999783e+00, -4.145999999999999908e+00, 5.000000000000000000e+00, -2.999999999999999556e+00, 1.000000000000000000e+00, 7.289999999999999813e-01, 1.000000000000000000e+00, -1.000000000000000222e+00, 5.000000000000000000e+00, -4.080000000000000071e+00, 5.500000000000000444e-01, 1.000000000000000222e+00, -1.000000000000000000e+00, -6.000000000000000888e-01, 7.199999999999999289e+00, 2.499999999999999556e+00, 5.000000000000000000e-01, -2.189999999999999947e+00, -5.230000000000001315e+00, 1.000000000000000222e+00, 4.419999999999999485e-01, 9.999999999999997780e-01, -9.999999999999997780e-01, 2.244999999999999662e+00, -1.090899999999999714e+01, 2.999999999999999556e+00, -5.000000000000000000e+00, -1.378999999999999782e+00, 9.999999999999997780e-01, 4.669999999999999707e-01, 1.000000000000000000e+00, -9.999999999999998890e-01, -1.469999999999999751e+00, 2.500000000000000000e+00, 3.149999999999999467e+00, -2.649999999999999467e+00, 5.000000000000000000e+00, 2.499999999999999645e+01, 1.000000000000000000e+00, 1.903999999999999693e+00, -1.000000000000000000e+00, 2.500000000000000000e+00, -2.529999999999999805e+00, 3.000000000000000000e+00, 5.000000000000000000e+00, 1.000000000000000000e+00, 1.137500000000000178e+00, -9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 5.749999999999999556e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 7.289999999999999813e-01, 1.000000000000000000e+00, -1.000000000000000222e+00, -1.500000000000000444e+00, 5.000000000000000000e+00, 6.100000000000000977e-01, 4.400000000000000022e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 3.350000000000000200e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 3.360000000000000209e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.825000000000000178e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.058000000000000274e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 5.000000000000000000e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 3.770000000000000018e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.883000000000000229e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.116999999999999993e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, -1.000000000000000000e+00, 7.169999999999999707e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 4.919999999999999374e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 2.112000000000000099e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, -1.000000000000000000e+00, 1.346000000000000085e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 2.024999999999999467e+00, 1.000000000000000000e+00, 8.899999999999999023e-01, 1.100000000000000144e-01, 2.120999999999999552e+00, 9.999999999999998890e-01, 6.500000000000000222e-01, 3.499999999999999778e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.116999999999999993e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, -9.999999999999998890e-01, 5.917000000000000037e-01, -1.000000000000000222e+00, -4.060000000000001386e+00, 1.390000000000000346e+00, -9.000000000000000000e+00, 1.200000000000000178e+01, -6.000000000000000888e+00, 1.000000000000000222e+00, 1.504199999999999759e+00, -9.999999999999998890e-01, 1.000000000000000000e+00, 2.075000000000000178e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 2.133300000000000196e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 8.329999999999999627e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 5.999999999999999778e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 7.540000000000000036e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 5.999999999999999778e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 8.329999999999999627e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 5.999999999999999778e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 7.540000000000000036e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -3.189999999999999947e+00, 3.100000000000000089e+00, -6.000000000000000000e+00, -3.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.040000000000000036e+00, 1.139999999999999902e+00, 1.800000000000000000e+01, 1.000000000000000000e+00, -9.999999999999998890e-01, 1.049999999999999822e+00, -9.400000000000000577e-01, 1.100000000000000000e+01, 9.999999999999998890e-01, 1.000000000000000000e+00, 4.599999999999999922e-02, 9.539999999999999591e-01, -1.000000000000000000e+00, -1.199999999999999956e+00, 8.100000000000000533e-01, -2.500000000000000000e+00, 4.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -3.000000000000000000e+00, -1.499999999999999944e-01, -6.900000000000000577e-01, -3.099999999999999978e-01, 6.000000000000000888e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 5.000000000000000000e-01, 5.000000000000001110e-01, 5.749999999999999556e-01, 1.000000000000000222e+00, -9.999999999999998890e-01, 1.299999999999999822e+01, 8.999999999999999112e-01, 7.289999999999999813e-01, 1.000000000000000000e+00, -3.199999999999999512e-01, -1.499999999999999667e-01, -5.299999999999999156e-01, 1.000000000000000056e-01, -7.500000000000000000e-01, 6.500000000000000222e-01, -2.899999999999999245e-01, -1.099999999999999728e-01, -4.900000000000000355e+00, 4.289999999999999925e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 5.000000000000000000e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 7.169999999999999707e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 6.039999999999999813e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 4.289999999999999925e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.838000000000000078e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.070999999999999952e+00, -9.999999999999997780e-01, 9.999999999999997780e-01, -9.999999999999997780e-01, 5.120000000000000107e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 7.419999999999999929e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 2.217000000000000082e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -9.999999999999998890e-01, 1.457999999999999963e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 2.882999999999999563e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 6.792000000000000259e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 3.350000000000000200e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 4.670000000000000262e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.825000000000000178e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.058000000000000274e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 2.458299999999999041e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 5.000000000000000000e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 5.090000000000000080e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.883000000000000229e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.116999999999999993e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, -9.999999999999998890e-01, 2.516700000000000159e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 7.169999999999999707e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 6.039999999999999813e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 2.112000000000000099e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, -9.999999999999998890e-01, 1.346000000000000085e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 2.745800000000000018e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 3.291999999999999926e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.895799999999999708e+00, 1.000000000000000000e+00, 1.300000000000000044e-01, 8.699999999999999956e-01, 4.580000000000000182e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.503999999999999559e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 2.075000000000000178e+00, 1.000000000000000000e+00, 1.300000000000000044e-01, 8.700000000000001066e-01, 2.133300000000000196e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 8.579999999999998739e-01, 9.999999999999998890e-01, 1.000000000000000222e+00, -2.800000000000000266e-01, -5.299999999999999156e-01, -1.399999999999999822e+01, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.503999999999999559e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000222e+00, 9.500000000000001776e-01, 1.000000000000000222e+00, -1.000000000000000222e+00, 3.379999999999999893e+00, -3.109999999999999876e+00, 1.199999999999999822e+01, -7.499999999999999112e+00, 1.000000000000000000e+00, 5.749999999999999556e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 9.999999999999998890e-01, 7.289999999999998703e-01, 9.999999999999998890e-01, -9.999999999999998890e-01, 1.059999999999999831e+00, -1.669999999999999707e+00, 2.000000000000000000e+00, 1.000000000000000000e+00, 2.428999999999999826e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.030000000000000027e+00, -1.770000000000000240e+00, 1.999999999999999556e+00, 1.000000000000000222e+00, 2.674999999999999822e+00, 1.000000000000000222e+00, 1.000000000000000000e+00, 9.499999999999999556e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 5.749999999999999556e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 7.289999999999999813e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 9.166999999999999593e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000222e+00, -1.820000000000000506e+00, 2.760000000000000675e+00, 5.000000000000000000e-01, 2.500000000000000355e+01, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 4.120000000000000995e+00, -2.849999999999999201e+00, 7.000000000000000888e+00, 2.100000000000000000e+01, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 9.999999999999998890e-01, -9.999999999999998890e-01, 1.270000000000000018e+00, 6.000000000000000000e+00, 1.000000000000000000e+01, 7.170000000000000817e-01, -7.039999999999999591e-01, -2.959999999999999853e-01, 5.999999999999999084e-02, 2.900000000000000355e-01, 4.219999999999999751e+00, 1.000000000000000000e+00, -9.200000000000001510e-01, 2.960000000000000409e+00, -2.659999999999999254e+00, 1.000000000000000000e+00, 6.039999999999998703e-01, -9.999999999999997780e-01, 1.249999999999999778e+00, -1.059999999999999609e+00, 9.999999999999997780e-01, 2.112000000000000099e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, -1.000000000000000000e+00, 1.270000000000000018e+00, -7.800000000000001377e-01, 1.000000000000000000e+00, 9.499999999999999556e-01, 1.000000000000000000e+00, -7.039999999999999591e-01, -2.959999999999999853e-01, 5.999999999999999084e-02, 2.900000000000000355e-01, 4.219999999999999751e+00, 1.000000000000000000e+00, -9.200000000000001510e-01, 2.960000000000000409e+00, -2.659999999999999254e+00, 9.999999999999997780e-01, 5.749999999999998446e-01, 9.999999999999997780e-01, -9.999999999999997780e-01, 1.249999999999999778e+00, -1.059999999999999609e+00, 1.000000000000000000e+00, 7.289999999999999813e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 2.428999999999999826e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.270000000000000018e+00, -7.800000000000000266e-01, 9.999999999999998890e-01, 3.004000000000000004e+00, 9.999999999999998890e-01, 5.500000000000000028e-02, 9.450000000000000622e-01, -1.000000000000000000e+00, -2.359999999999999876e-01, -7.640000000000000124e-01, 1.000000000000000000e+00, 1.307999999999999829e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 8.120000000000000551e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 5.620000000000000551e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 4.600000000000000200e-01, 2.500000000000000000e-01, 4.289999999999999925e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.838000000000000078e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.070999999999999952e+00, -9.999999999999997780e-01, 9.999999999999997780e-01, -9.999999999999998890e-01, 5.120000000000000107e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 7.419999999999999929e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 2.217000000000000082e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -9.999999999999998890e-01, 1.457999999999999963e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 5.000000000000000000e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.883000000000000229e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000222e+00, 1.116999999999999993e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, -9.999999999999998890e-01, 1.000000000000000000e+00, 9.499999999999999556e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 8.579999999999999849e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 2.500000000000000139e-02, 9.749999999999999778e-01, 9.999999999999998890e-01, 5.750000000000000666e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.250000000000000000e+00, -1.600000000000000000e+01, 2.100000000000000000e+01, -1.059999999999999831e+00, 1.000000000000000000e+00, 7.289999999999997593e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 5.200000000000000178e-01, -3.499999999999999778e-01, -5.000000000000000000e+00, 4.042000000000000037e-01, -9.999999999999997780e-01, 2.399999999999999911e-01, -5.000000000000000888e+00, 1.500000000000000355e+01, 9.999999999999998890e-01, 2.516700000000000159e+00, 1.000000000000000222e+00, 9.999999999999998890e-01, -1.000000000000000000e+00, 5.000000000000000000e-01, 4.000000000000000000e+00, 1.000000000000000000e+00, -9.999999999999998890e-01, 4.320000000000001172e+00, -1.959999999999999964e+00, 1.700000000000000000e+01, 1.600000000000000000e+01, 9.999999999999998890e-01, -1.000000000000000000e+00, 1.229999999999999982e+00, -1.770000000000000240e+00, 6.000000000000000888e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 4.289999999999999925e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.838000000000000078e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 5.000000000000000000e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 5.090000000000000080e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.883000000000000229e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000222e+00, 1.000000000000000000e+00, 5.749999999999999556e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000222e+00, 2.428999999999999826e+00, 1.000000000000000222e+00, -1.000000000000000222e+00, 5.000000000000000000e+00, 9.999999999999998890e-01, 1.645999999999999908e+00, 9.999999999999998890e-01, -9.999999999999997780e-01, 1.000000000000000000e+00, 3.004199999999999982e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 4.580000000000000182e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 2.075000000000000178e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.700000000000000178e+00, -2.870000000000000551e+00, 5.000000000000000888e+00, 9.000000000000001776e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 7.800000000000001377e-01, -1.000000000000000000e+01, 1.900000000000000000e+01, 9.999999999999998890e-01, -2.999999999999999889e-01, -6.999999999999999556e-01, 1.000000000000000000e+00, 2.024999999999999467e+00, 8.699999999999998845e-01, 1.299999999999999767e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.006999999999999895e+00, 8.699999999999998845e-01, 1.300000000000000044e-01, 2.133000000000000007e+00, 9.999999999999998890e-01, 9.999999999999998890e-01, 1.010000000000000009e+00, 2.566699999999999537e+00, 1.000000000000000000e+00, 2.570000000000000062e-01, 5.560000000000000497e-01, 1.869999999999999996e-01, -1.000000000000000021e-02, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.009999999999999787e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 2.570000000000000062e-01, 5.560000000000000497e-01, 1.869999999999999996e-01, -3.080000000000000446e-02, 2.799999999999999822e+00, 1.000000000000000000e+00, 1.010000000000000231e+00, 2.849999999999999756e-01, 6.649999999999999245e-01, 2.800000000000000058e-02, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.010000000000000009e+00, 2.458000000000000185e+00, -1.000000000000000000e+00, 4.000000000000000083e-02, 8.000000000000000167e-02, 6.600000000000000311e-01, 1.000000000000000000e+00, 1.149999999999999911e+00, -1.200000000000000233e-01, 1.000000000000000000e+00, 1.200000000000000094e-01, 1.200000000000000094e-01, 1.000000000000000000e+00, 8.580000000000000959e-01, 2.999999999999999889e-01, 5.500000000000000444e-01, 1.499999999999999944e-01, 8.100000000000000533e-01, 1.010000000000000009e+00, 1.688000000000000167e+00, 1.600000000000000311e+00, -5.999999999999999778e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.688000000000000167e+00, 1.600000000000000311e+00, -5.999999999999999778e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 2.237999999999999989e+00, 1.000000000000000222e+00, 1.000000000000000222e+00, -1.000000000000000194e-02, 1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, 2.237999999999999989e+00, 1.000000000000000222e+00, 1.000000000000000222e+00, -1.000000000000000194e-02, 1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, 5.000000000000000000e-01, -1.000000000000000000e+00, 9.499999999999999556e-01, 2.500000000000000139e-02, 9.494000000000000217e-01, 1.000000000000000000e+00, 5.000000000000000000e-01, -1.000000000000000000e+00, 9.499999999999998446e-01, 2.500000000000000139e-02, 9.494000000000000217e-01, 1.000000000000000000e+00, 5.000000000000000000e-01, -1.000000000000000000e+00, 9.899999999999999911e-01, 9.899999999999999911e-01, 1.000000000000000000e+00, 5.000000000000000000e-01, -1.000000000000000000e+00, 9.899999999999999911e-01, 9.899999999999999911e-01, 1.000000000000000000e+00, 1.883000000000000229e+00, -1.000000000000000000e+00, 9.499999999999998446e-01, 2.500000000000000139e-02, 9.494000000000000217e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.883000000000000229e+00, -1.000000000000000000e+00, 9.499999999999999556e-01, 2.500000000000000139e-02, 9.494000000000000217e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 5.000000000000000000e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.883000000000000229e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.883000000000000007e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.307000000000000106e-01, 7.842999999999999083e+00, -1.701699999999999946e+01, 7.937000000000002942e+00, -3.259000000000000230e-01, 1.000000000000000000e+00, -9.999999999999998890e-01, 1.883000000000000007e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 2.604000000000000092e+00, 6.429999999999999050e-01, -1.093599999999999994e+01, 6.430000000000000604e+00, -3.170000000000000040e-01, 1.000000000000000000e+00, -4.000000000000000777e-01, -5.999999999999998668e-01, 1.883000000000000007e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 3.266999999999999904e+00, 7.842999999999999083e+00, -1.701699999999999946e+01, 7.937000000000002942e+00, -3.259000000000000230e-01, 1.000000000000000000e+00, -3.999999999999999667e-01, -5.999999999999999778e-01, 2.553999999999999826e+00, -1.000000000000000222e+00, 1.000000000000000000e+00, -1.280000000000000027e-01, 1.282000000000000250e+00, -1.330500000000000327e+01, 6.410000000000000142e+00, -3.160000000000000031e-01, 1.000000000000000222e+00, 1.000000000000000000e+00, 9.540000000000001812e-01, 1.000000000000000000e+00, -4.500000000000000000e+00, 1.030000000000000071e+01, -1.020000000000000107e+01, -4.020000000000000795e-01, 9.999999999999997780e-01, 4.919999999999999374e-01, -5.480000000000000426e-01, -4.520000000000000684e-01, -1.000000000000000000e+00, 5.000000000000000000e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 3.770000000000000018e-01, 1.000000000000000000e+00, -7.079999999999998517e-01, 6.964989899999999068e+01, -1.994999999999999929e+01, 8.263989899999999977e+01, -2.909999999999999809e-01, 9.999999999999997780e-01, 9.999999999999998890e-01, 3.770000000000000573e-01, 9.999999999999998890e-01, -1.499000000000000199e+01, -1.994999999999999929e+01, -5.000000000000000000e+00, -5.290000000000000258e-01, 9.999999999999998890e-01, 1.000000000000000000e+00, 3.770000000000000018e-01, 9.999999999999998890e-01, 1.379000000000000004e+00, -6.340000000000000568e+01, 2.730999999999999872e+01, -3.447999999999999687e+01, -3.399999999999999689e-01, 1.000000000000000000e+00, 1.000000000000000222e+00, 3.770000000000000018e-01, 1.000000000000000222e+00, -1.613999999999999702e+01, 2.730999999999999872e+01, -5.000000000000000000e+00, -6.179999999999999938e-01, 1.000000000000000222e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 2.221000000000000529e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 3.944000000000000394e+00, -2.878600000000000492e+01, -6.800000000000001599e+00, -1.400000000000000178e+01, 2.986999999999999655e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 2.221000000000000085e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, -2.305999999999999606e+00, -1.010699999999999754e+01, -1.499999999999999778e+00, -4.500000000000000000e+00, -2.728999999999999648e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 2.221000000000000529e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.452000000000000401e+00, -1.018000000000000149e+01, 1.300000000000000044e+00, -9.000000000000000000e+00, -2.794999999999999929e+00, 1.000000000000000000e+00, -1.341999999999999860e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 2.612000000000000544e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 3.565000000000000391e+00, -5.399999999999999467e+00, 2.999999999999999889e-01, -9.000000000000000222e-01, -6.360000000000001208e-01, 2.160000000000000142e+00, 1.000000000000000000e+00, 2.612000000000000544e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000222e+00, -1.490000000000000036e+01, -2.220000000000000284e+01, -6.360000000000002318e-01, -2.500000000000000355e+01, -1.800000000000000355e+01, 1.000000000000000000e+00, 2.612000000000000099e+00, -1.000000000000000000e+00, 9.999999999999998890e-01, -2.257000000000000028e+01, 1.308000000000000007e+01, -5.399999999999999289e+01, -6.360000000000000098e-01, -3.019999999999999929e+01, 1.000000000000000000e+00, 2.708000000000000185e+00, -1.000000000000000000e+00, 1.000000000000000222e+00, 1.052999999999999936e+00, -3.799999999999999822e+00, -1.399999999999999911e+00, -5.000000000000000000e-01, -6.360000000000001208e-01, 2.160000000000000142e+00, 1.000000000000000000e+00, 2.707999999999999741e+00, -1.000000000000000222e+00, 1.000000000000000222e+00, 1.000000000000000222e+00, -1.490000000000000213e+01, -2.389999999999999858e+01, -6.360000000000002318e-01, -2.500000000000000355e+01, -1.800000000000000000e+01, 1.000000000000000222e+00, 2.708000000000000185e+00, -1.000000000000000000e+00, 9.999999999999998890e-01, -2.257000000000000028e+01, 1.308000000000000007e+01, -5.399999999999999289e+01, -6.360000000000000098e-01, -3.189999999999999503e+01, 1.000000000000000000e+00, 2.458000000000000629e+00, -9.999999999999998890e-01, 9.999999999999997780e-01, -1.632999999999999829e+01, -2.200000000000000000e+01, 1.499999999999999822e+01, -2.219999999999999929e+01, 9.999999999999998890e-01, 9.999999999999998890e-01, -2.999999999999999645e+01, 9.999999999999998890e-01, 2.458000000000000185e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -2.417999999999999972e+01, -6.100000000000000711e+01, -3.020000000000000284e+01, 1.000000000000000000e+00, 2.350999999999999801e+01, 1.000000000000000000e+00, 2.458000000000000185e+00, -9.999999999999997780e-01, 9.999999999999997780e-01, -1.333299999999999663e+01, -2.000000000000000111e-01, -9.999999999999998224e+00, -6.999999999999997335e-01, 9.999999999999997780e-01, 9.999999999999997780e-01, 2.458000000000000185e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, -1.823000000000000043e+01, 1.694999999999999929e+01, 1.000000000000000000e+00, 2.553999999999999382e+00, -9.999999999999998890e-01, 9.999999999999997780e-01, -1.632999999999999829e+01, -1.699999999999999289e+01, 1.499999999999999822e+01, -2.389999999999999858e+01, 9.999999999999998890e-01, 9.999999999999998890e-01, -2.999999999999999645e+01, 9.999999999999998890e-01, 2.553999999999999382e+00, -1.000000000000000222e+00, 1.000000000000000222e+00, -2.418000000000000327e+01, -5.600000000000000711e+01, -3.190000000000000924e+01, 1.000000000000000222e+00, 2.351000000000000156e+01, 1.000000000000000222e+00, 2.553999999999999826e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -2.447000000000000508e+00, -6.769999999999998685e+00, -1.900000000000000133e+00, -6.000000000000000000e+00, -6.999999999999998446e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.425000000000000044e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, -1.069999999999999929e+01, 7.000000000000000000e+00, -3.429999999999999716e+00, 4.000000000000000000e+00, 2.900000000000000355e+01, 1.425000000000000044e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -7.799999999999999822e+00, 2.000000000000000444e+00, -3.429999999999999272e+00, -6.000000000000000888e+00, -5.000000000000001110e-01, 1.600000000000000000e+01, 1.116999999999999993e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -5.000000000000000000e+00, 1.000000000000000000e+00, -6.699999999999998179e-01, -1.000000000000000000e+00, 1.116999999999999993e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -3.079999999999999627e+00, -5.000000000000000000e+00, 1.000000000000000000e+00, 2.410000000000000142e+00, -1.000000000000000000e+00, 1.116999999999999993e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 6.699999999999999289e-01, -9.999999999999998890e-01, 1.116999999999999993e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 6.699999999999999289e-01, -9.999999999999998890e-01, 2.458000000000000185e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, -7.000000000000000000e+00, -5.000000000000000000e-01, 9.999999999999998890e-01, -6.700000000000000400e-01, 1.000000000000000222e+00, 2.553999999999999826e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, -4.049999999999998934e+00, -5.000000000000000000e+00, -1.500000000000000000e+01, 9.999999999999998890e-01, 3.379999999999998561e+00, 9.999999999999998890e-01, 9.539999999999999591e-01, 1.000000000000000000e+00, -1.600000000000000355e+01, -4.459999999999999076e+00, 3.650000000000000799e+00, -1.030000000000000249e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.539999999999999591e-01, 1.000000000000000000e+00, -1.600000000000000355e+01, -1.340000000000000302e+00, 7.000000000000000666e-01, -1.030000000000000027e+00, 3.000000000000000444e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.539999999999999591e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, -9.999999999999998890e-01, -1.340000000000000302e+00, 6.999999999999998446e-01, -1.030000000000000249e+00, 3.000000000000000444e+00, 1.000000000000000000e+00, 9.539999999999999591e-01, 1.000000000000000000e+00, -1.600000000000000355e+01, -4.459999999999999076e+00, 3.650000000000000799e+00, -1.030000000000000249e+00, -7.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.539999999999999591e-01, 1.000000000000000000e+00, -1.600000000000000355e+01, -1.340000000000000302e+00, 7.000000000000000666e-01, -1.030000000000000027e+00, -4.000000000000000888e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.539999999999999591e-01, 9.999999999999998890e-01, 1.000000000000000000e+00, -9.999999999999998890e-01, -1.340000000000000080e+00, 6.999999999999998446e-01, -1.030000000000000027e+00, -4.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 5.110000000000000098e-01, 7.069999999999999618e-01, 3.029999999999999916e-01, 3.000000000000000062e-03, 8.999999999999999320e-03, 2.999999999999999889e-02, 1.019999999999999934e-01, 2.299999999999999961e-02, 4.499999999999999140e-02, 1.290000000000000036e-01, 6.300000000000000044e-02, 4.100000000000000866e-02, 1.700000000000000122e-02, 2.500000000000000139e-02, -2.599999999999999881e-02, 2.000000000000000042e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.829999999999998739e-01, 5.390000000000001457e-01, 7.070000000000000728e-01, 3.030000000000000471e-01, 2.000000000000000042e-03, 1.100000000000000110e-02, 5.700000000000000205e-02, 6.199999999999999956e-02, 2.300000000000000308e-02, 7.100000000000002143e-02, 8.200000000000000344e-02, 6.999999999999999278e-02, 4.099999999999999478e-02, 1.600000000000000033e-02, 2.400000000000000050e-02, -2.400000000000000050e-02, 2.000000000000000042e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.019999999999999796e+00, 4.839999999999999303e-01, 7.069999999999999618e-01, 3.029999999999999916e-01, 8.000000000000000167e-03, 5.000000000000000278e-02, 1.219999999999999973e-01, 4.700000000000000011e-02, 1.350000000000000089e-01, 6.300000000000000044e-02, 4.100000000000000866e-02, 2.000000000000000042e-02, 2.900000000000000147e-02, -2.500000000000000139e-02, 1.000000000000000021e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.829999999999998739e-01, 4.839999999999999303e-01, 7.069999999999999618e-01, 3.029999999999999916e-01, 8.000000000000000167e-03, 9.600000000000000200e-02, 7.599999999999999811e-02, 4.700000000000000011e-02, 1.350000000000000089e-01, 6.300000000000000044e-02, 4.100000000000000866e-02, 2.000000000000000042e-02, 2.900000000000000147e-02, -2.500000000000000139e-02, 1.000000000000000021e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.600000000000000200e-02, 9.829999999999998739e-01, -9.600000000000000200e-02, 5.530000000000000471e-01, 7.069999999999997398e-01, 3.029999999999999916e-01, 2.999999999999999629e-03, 9.999999999999998473e-03, 4.499999999999999833e-02, 9.399999999999998634e-02, 3.899999999999998607e-02, 1.080000000000000127e-01, 5.800000000000000294e-02, 4.100000000000000866e-02, 1.999999999999999695e-02, 2.599999999999999534e-02, -2.399999999999999356e-02, 2.999999999999999629e-03, 9.999999999999998890e-01, 9.999999999999998890e-01, 1.004999999999999671e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.500000000000000222e+00, 7.900000000000000355e-01, 4.700000000000000178e+00, 3.200000000000000178e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, -2.000000000000000042e-02, -6.899999999999998357e-01, 8.400000000000003908e+00, -4.599999999999999645e+00, -1.000000000000000000e+00, 9.999999999999998890e-01, 3.900000000000000133e-01, -1.100000000000000089e+00, -1.599999999999999867e+00, 4.399999999999999467e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -2.000000000000000736e-02, -1.729999999999999982e+00, 1.400000000000000133e+00, -8.030000000000001581e-01, 3.399999999999999023e+00, -1.000000000000000222e+00, 1.000000000000000000e+00, 3.900000000000000688e-01, -2.140000000000000124e+00, 1.040000000000000213e+01, -8.030000000000003801e-01, -6.599999999999999645e+00, -1.000000000000000000e+00, 9.999999999999998890e-01, -1.550000000000000266e+00, 8.400000000000003020e-01, -4.299999999999999822e+00, 5.500000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -3.699999999999999956e-01, -8.000000000000000444e-01, 2.039999999999999858e+01, -8.030000000000001581e-01, -2.160000000000000497e+01, -1.000000000000000000e+00, 9.999999999999998890e-01, -1.550000000000000044e+00, -2.000000000000000111e-01, 1.150000000000000000e+01, -8.030000000000002691e-01, -9.300000000000000711e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.499999999999999778e+00, -2.500000000000000000e-01, 9.199999999999999289e+00, -8.030000000000000471e-01, -2.999999999999999889e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, -2.309999999999999609e+00, 1.139999999999999680e+00, 2.149999999999999289e+01, -8.030000000000001581e-01, -2.430000000000000071e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, -2.259999999999999343e+00, 1.090000000000000080e+00, 1.919999999999999574e+01, -8.030000000000000471e-01, -1.530000000000000249e+01, -1.000000000000000000e+00, 9.999999999999998890e-01, -7.800000000000001377e-01, 1.090000000000000080e+00, 1.140000000000000036e+01, -8.030000000000002691e-01, -1.160000000000000142e+01, 5.530000000000000471e-01, 7.069999999999997398e-01, 3.029999999999999916e-01, 2.999999999999999629e-03, 9.999999999999998473e-03, 7.999999999999998779e-02, 5.899999999999999689e-02, 3.899999999999998607e-02, 1.080000000000000127e-01, 5.800000000000000294e-02, 4.100000000000000866e-02, 1.999999999999999695e-02, 2.599999999999999534e-02, -2.399999999999999356e-02, 2.999999999999999629e-03, 9.999999999999998890e-01, 9.999999999999998890e-01, 7.999999999999998779e-02, 1.004999999999999671e+00, -7.999999999999998779e-02, -7.000000000000000666e-02, -2.399999999999999911e-01, -3.200000000000000067e-01, -2.999999999999999889e-01, -7.000000000000000666e-02, 1.000000000000000000e+00, -1.000000000000000222e+00, 1.000000000000000000e+00, 9.429999999999999716e+00, -1.091000000000000014e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.261000000000000121e+01, -1.408999999999999808e+01, -1.000000000000000222e+00, 1.031300000000000106e+00, -9.999999999999998890e-01, 1.014799999999999702e+00, -8.600000000000000977e-01, -1.400000000000000133e-01, 1.000000000000000000e+00, -2.280000000000000693e+00, 2.600000000000000533e+00, 9.300000000000000711e+00, -3.169999999999999485e+00, -5.000000000000000000e+00, -8.799999999999998934e-01, -1.199999999999999956e-01, 9.999999999999998890e-01, -1.679999999999999938e+00, -1.700000000000000178e+00, 9.380000000000000782e+00, -3.169999999999999929e+00, -6.000000000000000000e+00, -9.200000000000000400e-01, -8.000000000000000167e-02, 1.000000000000000000e+00, -5.879999999999999005e+00, -7.200000000000001066e+00, 9.050000000000000711e+00, -3.240000000000000213e+00, 6.999999999999999112e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 4.200000000000000711e+01, 3.028999999999999559e+01, -4.214000000000000767e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 4.200000000000000711e+01, 3.028999999999999559e+01, -4.214000000000000767e+01, -9.999999999999997780e-01, -5.500000000000000722e-02, 9.999999999999997780e-01, -3.799999999999999378e+00, -3.000000000000000444e+00, -3.009999999999998899e+00, 7.000000000000000000e+00, -6.500000000000000000e+00, 9.999999999999997780e-01, 9.999999999999997780e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 4.375000000000000000e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 4.375000000000000000e-01, 1.000000000000000000e+00, 3.029999999999999916e-01, 7.069999999999998508e-01, 6.000000000000000125e-03, 3.500000000000000333e-02, 6.400000000000000133e-02, 5.900000000000001077e-02, 6.900000000000001965e-02, 2.179999999999999716e-01, 2.000000000000000042e-02, 3.800000000000000600e-02, 4.899999999999999911e-01, -2.599999999999999881e-02, 1.000000000000000021e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.014999999999999902e+00, 3.029999999999999916e-01, 7.069999999999998508e-01, 6.000000000000000125e-03, 6.900000000000001965e-02, 2.999999999999999889e-02, 5.900000000000001077e-02, 6.900000000000001965e-02, 2.179999999999999716e-01, 2.000000000000000042e-02, 3.800000000000000600e-02, 4.899999999999999911e-01, -2.599999999999999881e-02, 1.000000000000000021e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 6.900000000000001965e-02, 1.014999999999999902e+00, -6.900000000000001965e-02, 1.454999999999999849e+00, 1.010000000000000231e+00, 3.000000000000000062e-03, 1.030000000000000013e-02, 2.000000000000000042e-03, 4.440000000000000197e-02, 9.700000000000000289e-02, 4.750000000000000056e-02, 1.101000000000000034e-01, 7.069999999999999896e-02, 5.000000000000000104e-03, 5.050000000000000044e-01, 1.019999999999999934e-01, -1.700000000000000122e-02, 1.454999999999999849e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 3.000000000000000062e-03, 1.454999999999999849e+00, 1.010000000000000231e+00, 3.000000000000000062e-03, 1.030000000000000013e-02, 2.000000000000000042e-03, 4.440000000000000197e-02, 9.700000000000000289e-02, 4.750000000000000056e-02, 1.101000000000000034e-01, 7.069999999999999896e-02, 5.000000000000000104e-03, 2.169999999999999984e-01, 5.799999999999999600e-03, 2.518000000000000238e-01, 1.323999999999999622e-01, 2.879999999999999782e-01, -2.699999999999999623e-02, 1.454999999999999849e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 3.000000000000000062e-03, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 7.000000000000000666e-02, 4.590000000000000191e-01, 4.710000000000000853e-01, 1.000000000000000000e+00, -2.699999999999999969e-02, -1.000000000000000000e+00, 8.000000000000000167e-02, 5.370000000000000329e-01, 3.830000000000000071e-01, 1.000000000000000000e+00, -2.699999999999999969e-02, -1.000000000000000000e+00, 1.130000000000000171e-01, 5.250000000000000222e-01, 3.619999999999999885e-01, 1.006999999999999895e+00, -2.699999999999999623e-02, -9.999999999999998890e-01, 1.030000000000000027e+00, -9.999999999999997780e-01, 1.039999999999999813e+00, 2.553999999999999382e+00, 9.999999999999997780e-01, -4.799999999999999267e-01, -9.999999999999998890e-01, 1.000000000000000000e+00, -1.399999999999999645e+01, -5.000000000000000000e+00, 1.000000000000000000e+00};
pfloat lp_25fv47_b[821] = {0.0, 2.900000000000000000e+01, 5.999999999999999289e+01, 7.300000000000000000e+01, 7.700000000000000000e+01, 2.700000000000000000e+01, 4.400000000000000711e+01, 4.000000000000000000e+00, 2.300000000000000000e+01, 4.400000000000000000e+01, 1.640000000000000000e+02, 3.100000000000000000e+01, 7.900000000000000000e+01, 1.900000000000000000e+01, 1.000000000000000000e+00, 4.000000000000000000e+00, 8.600000000000000000e+01, 8.800000000000000000e+01, 2.000000000000000000e+01, 0.0, 0.0, 0.0, 0.0, 0.0, -6.250000000000000000e+01, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 8.000000000000000444e-01, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 2.000000000000000000e+00, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 2.419999999999999929e+00, 1.213000000000000078e+01, 1.219999999999999929e+01, 4.599999999999999645e+00, 0.0, 1.000000000000000000e+00, 3.100000000000000000e+01, 2.500000000000000355e+01, 7.000000000000000000e+00, 2.400000000000000000e+01, 0.0, 8.000000000000000000e+00, 5.000000000000000000e+00, 0.0, 0.0, 2.000000000000000000e+00, 6.829999800000000221e+01, 3.200000000000000000e+01, 5.000000000000000000e+00, 0.0, 1.900000000000000000e+01, 7.000000000000000000e+02, 3.500000000000000000e+02, 1.350000000000000000e+02, 2.300000000000000000e+02, 1.150000000000000000e+02, 4.500000000000000000e+01, 6.000000000000000000e+01, 3.500000000000000000e+01, 2.500000000000000000e+01, 1.330000000000000000e+02, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 8.000000000000000000e+01, 2.800000000000000000e+01, 0.0, 0.0, 0.0, 2.150000000000000000e+02, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 3.600000000000000089e+00, 0.0, 6.400000000000000355e+00, 0.0, 0.0, 2.200000000000000000e+01, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.200000000000000000e+01, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 5.000000000000000000e+00, 4.000000000000000000e+00, 5.000000000000000000e+00, 9.000000000000000000e+00, 0.0, 6.000000000000000000e+01, 0.0, 3.100000000000000000e+01, 1.000000000000000000e+01, 5.200000000000000000e+01, 6.000000000000000000e+00, 6.500000000000000000e+00, 1.199999999999999956e+00, 1.100000000000000089e+00, 7.000000000000000000e+00, 2.200000000000000000e+01, 8.000000000000000444e-01, 1.800000000000000044e+00, 0.0, 5.100000000000000000e+01, 3.300000000000000000e+01, 6.000000000000000000e+01, 0.0, 0.0, 3.000000000000000000e+01, 2.469999999999999929e+01, 4.000000000000000000e+00, 5.700000000000000000e+01, 0.0, 0.0, 0.0, 1.130000000000000000e+02, 2.300000000000000000e+01, 8.900000000000000000e+01, 0.0, 2.800000000000000000e+01, 2.800000000000000000e+01, 1.400000000000000000e+01, 9.670000000000000284e+01, 1.321899979000000030e+03, 8.812999879999999848e+02, 1.820999970000000019e+02, 1.105999989999999968e+02, 1.302999969999999905e+02, 2.350000000000000355e+01, 2.200000000000000000e+01, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.800000000000000000e+01, 5.000000000000000000e+01, 0.0, 1.376199965999999904e+03, 0.0, 0.0, 0.0, 0.0, 0.0, 3.400000000000000000e+01, 1.400000000000000000e+01, 9.800000000000000000e+01, 1.600000000000000000e+01, 1.100000000000000000e+01, 5.500000000000000000e+01, 1.000000000000000000e+00, 8.300000000000000000e+01, 0.0, 0.0, 0.0, 6.700000000000000000e+01, 4.299999999999999822e+00, 4.799999999999999822e+00, 1.500000000000000000e+00, 1.800000000000000044e+00, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 5.600000000000000000e+01, 0.0, 0.0, 1.700000000000000000e+01, 7.000000000000000000e+00, 0.0, 1.100000000000000000e+01, 1.800000000000000000e+01, 0.0, 5.000000000000000000e+00, 7.200000000000000000e+01, 0.0, 2.300000000000000000e+01, 0.0, 1.700000000000000000e+01, 0.0, -4.700000000000000178e+00, 4.000000000000000000e+02, -1.600000000000000000e+02, 2.800000000000000000e+02, 1.200000000000000000e+02, 1.050000000000000000e+02, 3.500000000000000000e+01, 9.339999999999999858e+00, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 4.000000000000000000e+00, 0.0, 1.972699965999999904e+03, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.939999999999999858e+01, 3.200000000000000178e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 4.000000000000000000e+00, 0.0, 0.0, 0.0, 0.0, -1.419999999999999929e+01, 0.0, 0.0, 0.0, 2.000000000000000111e-01, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, -1.600000000000000000e+01, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 4.429999999999999716e+01, 1.400000000000000000e+01, 0.0, 0.0, 0.0, 8.000000000000000000e+00, 0.0, 4.200000000000000000e+01, 0.0, 2.200000000000000000e+01, 2.680000000000000160e+00, 0.0, 4.030000000000000249e+00, 0.0, 3.000000000000000000e+01, 1.400000000000000000e+01, 3.000000000000000000e+01, 4.800000000000000000e+01, 0.0, 0.0, 7.300000000000000000e+01, 0.0, 0.0, 3.800000000000000000e+01, 3.000000000000000000e+01, 0.0, 8.900000000000000000e+01, 1.200000000000000000e+01, 0.0, 1.776999969999999962e+02, 4.900000000000000000e+01, 5.000000000000000000e+01, 0.0, 1.600000000000000000e+01, 2.630000000000000071e+01, 4.879999999999999893e+00, 8.000000000000000000e+01, 3.660000000000000142e+00, 6.000000000000000000e+01, 3.232999950000000240e+02, 9.800000000000000000e+01, 1.833999999999999986e+01, 3.903999939999999356e+02, 0.0, 1.341999989999999912e+02, 1.020000000000000018e+00, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 3.970000000000000195e+00, 1.097999989999999997e+02, 2.000000000000000000e+02, 4.575000000000000000e+01, 2.000000000000000000e+03, 6.000000000000000000e+01, 3.000000000000000000e+02, 9.863999860000000126e+02, 0.0, 2.600000000000000000e+02, 0.0, 7.300000000000000000e+01, 0.0, 0.0, 0.0, 0.0, 1.880000000000000071e+01, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.750000000000000000e+02, 0.0, 0.0, 0.0, 0.0, 1.300000000000000000e+02, 0.0, 0.0, 0.0, 4.709999999999999964e+00, 1.199999999999999956e+00, 4.099999999999999645e+00, 8.699999999999999289e+00, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 5.489999999999999858e+01, 3.500000000000000000e+01, 2.319999999999999929e+01, 1.100000000000000000e+01, -1.000000000000000000e+01, -5.999999999999999778e-01, 6.000000000000000000e+00, 0.0, 5.200000000000000000e+01, 0.0, 2.780000000000000071e+01, 0.0, 6.200000000000000000e+01, 1.500000000000000000e+01, 1.500000000000000000e+01, 3.000000000000000000e+00, 0.0, 3.600000000000000000e+01, 0.0, 4.900000000000000000e+01, 0.0, 0.0, 8.000000000000000000e+00, 0.0, 2.400000000000000000e+01, 6.100000000000000000e+01, 1.000000000000000000e+01, 0.0, 1.540000000000000000e+02, 4.400000000000000000e+01, 1.400000000000000000e+01, 6.358999860000000126e+02, 7.930000000000000000e+02, 8.235000000000000000e+02, 2.317999990000000139e+02, 1.299000000000000057e+02, 1.650000000000000000e+01, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 2.000000000000000000e+02, 0.0, 0.0, 2.400000000000000000e+01, 0.0, 0.0, 0.0, 0.0, 9.000000000000000222e-01, 4.000000000000000000e+00, 5.000000000000000000e+00, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 6.599999999999999645e+00, 3.600000000000000089e+00, 6.400000000000001243e+00, 1.600000000000000000e+02, 0.0, 4.400000000000000000e+01, 4.200000000000000000e+01, 1.700000000000000000e+01, -2.000000000000000000e+00, 3.100000000000000000e+01, 2.000000000000000000e+00, 2.200000000000000000e+01, 0.0, 0.0, 6.600000000000000000e+01, 5.600000000000000000e+01, 0.0, 1.930000000000000000e+02, 0.0, 1.700000000000000000e+01, 1.432299972999999909e+03, 6.900000000000000000e+01, 7.890000000000000568e+01, 9.759999899999999684e+01, 9.000000000000000000e+00, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 3.200000000000000000e+02, 1.800000000000000000e+02, 1.000000000000000000e+00, 0.0, 0.0, 2.400000000000000000e+01, 8.000000000000000000e+00, 1.000000000000000000e+01, 1.930000000000000000e+02, 4.000000000000000000e+00, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.350000000000000000e+01, 0.0, 0.0, 0.0, 0.0, 0.0, 2.080000000000000000e+02, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 4.500000000000000000e+00, 4.500000000000000000e+00, 1.800000000000000000e+01, 0.0, 3.000000000000000000e+01, 6.800000000000000000e+01, 8.100000000000000000e+01, 0.0, 1.000000000000000000e+02, 1.000000000000000000e+02, 5.000000000000000000e+01, 3.000000000000000000e+01, 1.000000000000000000e+02, 1.000000000000000000e+02, 1.000000000000000000e+02, 8.500000000000000000e+01, 1.500000000000000000e+01, 9.000000000000000000e+00, 1.500000000000000000e+01, 1.000000000000000000e+01, 2.200000000000000000e+01, 4.000000000000000000e+00, 1.600000000000000000e+01, 2.600000000000000000e+01, 7.000000000000000000e+00, 2.900000000000000000e+01, 0.0, 0.0, 5.180000000000000000e+02, 0.0, 4.000000000000000000e+00, 1.900000000000000000e+01, 2.300000000000000000e+01, 0.0, 4.300000000000000000e+01, 6.300000000000000000e+01, 3.000000000000000000e+01, 1.180000000000000000e+02, 5.060000000000000000e+02, 5.750000000000000000e+02, 9.660000000000000000e+02, 4.360000000000000000e+02, 2.720000000000000000e+02, 0.0, 2.000000000000000000e+02, 7.900000000000000000e+01, 1.480000000000000000e+02, 1.460000000000000000e+02, 2.470000000000000000e+02};
 
static char * test_lp_25fv47(){
pwork *mywork;
idxint exitflag;
 
/* print test name */
printf("====================================== lp_25fv47 ======================================\n");
 
/* set up data */
mywork = ECOS_setup(lp_25fv47_n, lp_25fv47_m, lp_25fv47_p, lp_25fv47_l, lp_25fv47_ncones, lp_25fv47_q, 0,
                    lp_25fv47_Gpr, lp_25fv47_Gjc, lp_25fv47_Gir,
                    lp_25fv47_Apr, lp_25fv47_Ajc, lp_25fv47_Air,
                    lp_25fv47_c, lp_25fv47_h, lp_25fv47_b);
if( mywork != NULL ){
/* solve */
exitflag = ECOS_solve(mywork); }
else exitflag = ECOS_FATAL;
 
/* clean up memory */
ECOS_cleanup(mywork, 0);
 
mu_assert("lp_25fv47: ECOS failed to produce outputflag OPTIMAL", exitflag == ECOS_OPTIMAL );
return 0;
}
