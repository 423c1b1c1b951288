#include "ecos.h"
#include "minunit.h"
idxint lp_adlittle_n = 138;
idxint lp_adlittle_m = 138;
idxint lp_adlittle_p = 56;
idxint lp_adlittle_l = 138;
idxint lp_adlittle_ncones = 0;
pfloat lp_adlittle_c[138] = {0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, -3.280000000000000000e+03, -3.280000000000000000e+03, 3.310000000000000000e+03, -1.890000000000000227e+03, 0.0, 0.0, -1.890000000000000000e+03, -9.030000000000000000e+02, 0.0, 4.320000000000000000e+02, 4.320000000000000000e+02, 4.320000000000000000e+02, 4.460000000000000000e+02, 4.460000000000000000e+02, 4.460000000000000000e+02, 4.500000000000000000e+02, 4.500000000000000000e+02, 4.500000000000000000e+02, 4.590000000000000000e+02, 4.590000000000000000e+02, 4.590000000000000000e+02, 4.830000000000000000e+02, 4.830000000000000000e+02, 4.830000000000000000e+02, 5.000000000000000000e+02, 5.000000000000000000e+02, 5.000000000000000000e+02, 4.930000000000000000e+02, 4.930000000000000000e+02, 4.930000000000000000e+02, -1.890000000000000000e+03, -9.030000000000000000e+02, 5.060000000000000000e+02, 0.0, 5.060000000000000000e+02, 5.060000000000000000e+02, 5.050000000000000000e+02, 5.050000000000000000e+02, 5.050000000000000000e+02, 4.990000000000000000e+02, 4.990000000000000000e+02, 4.990000000000000000e+02, 0.0, 0.0, 0.0, 5.120000000000000000e+02, 5.120000000000000000e+02, 5.120000000000000000e+02, 7.090000000000000568e+01, 3.979999999999999716e+01, 3.979999999999999716e+01, 2.040000000000000036e+00, 0.0, 1.800000000000000044e+00, 1.800000000000000044e+00, -2.600000000000000000e+03, -2.600000000000000000e+03, 1.040000000000000036e+01, 1.040000000000000036e+01, 2.880000000000000071e+01, 4.339999999999999858e+01, 3.040000000000000213e+01, 0.0, 0.0, -1.218000000000000000e+03, 0.0, 0.0, 0.0, -1.322000000000000000e+03, -1.322000000000000000e+03, -1.322000000000000000e+03, -1.660000000000000000e+03, -1.670000000000000000e+03, 1.480000000000000071e+01, 1.480000000000000071e+01, 2.880000000000000071e+01, 4.300000000000000000e+01, 3.000000000000000000e+01, -1.763000000000000000e+03, -1.722000000000000000e+03, -1.680000000000000000e+03, 0.0, -1.890000000000000000e+03, 1.780000000000000000e+03, 1.600000000000000000e+03, 9.030000000000001137e+02, 1.760000000000000000e+03, 2.100000000000000000e+03, 1.000000000000000000e+03, 9.999999999999998863e+02, -1.889999999999999773e+03, 9.209999999999999432e+01, -9.030000000000000000e+02, 7.870000000000000284e+01, -1.218000000000000000e+03, 1.559999999999999964e+01, 0.0};
idxint lp_adlittle_Gjc[139] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138};
idxint lp_adlittle_Gir[138] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137};
pfloat lp_adlittle_Gpr[138] = {-1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999996669e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00};
pfloat lp_adlittle_h[138] = {0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0};
idxint *lp_adlittle_q = NULL;
idxint lp_adlittle_Ajc[139] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 45, 49, 50, 56, 60, 64, 69, 71, 73, 75, 78, 81, 83, 85, 87, 90, 93, 96, 99, 102, 105, 108, 111, 114, 117, 120, 123, 126, 129, 132, 137, 139, 142, 144, 147, 150, 153, 156, 159, 162, 165, 168, 169, 175, 181, 184, 187, 190, 197, 203, 209, 213, 216, 219, 221, 225, 229, 237, 245, 253, 264, 275, 278, 281, 283, 285, 291, 297, 301, 305, 309, 315, 317, 325, 333, 341, 352, 363, 367, 371, 374, 377, 383, 386, 388, 390, 392, 394, 396, 398, 403, 410, 412, 413, 415, 422, 424};
idxint lp_adlittle_Air[424] = {0, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 25, 26, 28, 29, 33, 34, 36, 37, 38, 40, 44, 45, 46, 47, 50, 51, 52, 54, 55, 0, 3, 4, 54, 0, 3, 4, 54, 0, 4, 29, 48, 51, 52, 54, 33, 34, 39, 50, 34, 39, 45, 50, 5, 29, 48, 51, 52, 5, 37, 5, 49, 30, 41, 31, 42, 55, 32, 43, 55, 6, 30, 6, 31, 6, 32, 7, 30, 41, 7, 31, 42, 7, 32, 43, 8, 30, 41, 8, 31, 42, 8, 32, 43, 10, 30, 41, 10, 31, 42, 10, 32, 43, 11, 30, 41, 11, 31, 42, 11, 32, 43, 12, 30, 41, 12, 31, 42, 12, 32, 43, 13, 29, 48, 51, 52, 13, 37, 16, 30, 41, 13, 49, 16, 31, 42, 16, 32, 43, 14, 30, 41, 14, 31, 42, 14, 32, 43, 15, 30, 41, 15, 31, 42, 15, 32, 43, 9, 1, 2, 9, 27, 33, 53, 1, 2, 9, 27, 45, 53, 17, 30, 41, 17, 31, 42, 17, 32, 43, 0, 5, 13, 19, 27, 49, 53, 0, 13, 19, 27, 49, 53, 0, 13, 19, 27, 49, 53, 25, 27, 49, 53, 27, 49, 53, 2, 20, 49, 20, 36, 0, 13, 28, 54, 13, 28, 46, 54, 1, 2, 9, 21, 27, 33, 49, 53, 1, 2, 9, 21, 27, 45, 49, 53, 18, 27, 30, 33, 34, 49, 53, 54, 0, 5, 18, 26, 27, 31, 33, 34, 49, 53, 54, 0, 5, 23, 26, 27, 32, 33, 34, 49, 53, 54, 27, 33, 53, 27, 34, 53, 34, 47, 34, 49, 27, 33, 34, 35, 36, 53, 27, 34, 35, 36, 45, 53, 5, 34, 38, 54, 34, 38, 45, 54, 33, 34, 38, 54, 21, 27, 33, 40, 49, 53, 40, 45, 21, 27, 33, 34, 39, 49, 50, 53, 21, 27, 34, 39, 45, 49, 50, 53, 18, 27, 34, 41, 45, 49, 53, 54, 0, 5, 18, 26, 27, 34, 42, 45, 49, 53, 54, 0, 5, 23, 26, 27, 34, 43, 45, 49, 53, 54, 4, 44, 46, 54, 4, 44, 46, 54, 4, 44, 54, 27, 45, 53, 29, 46, 48, 51, 52, 54, 1, 2, 9, 27, 53, 27, 53, 35, 36, 39, 50, 48, 51, 48, 52, 29, 48, 51, 52, 54, 4, 22, 27, 46, 49, 53, 54, 37, 54, 54, 47, 54, 4, 24, 27, 46, 49, 53, 54, 49, 54};
pfloat lp_adlittle_Apr[424] = {1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 5.060000000000000053e-01, 1.000000000000000000e+00, 1.819999999999999951e-01, 3.119999999999999996e-01, 6.380000000000000115e-01, 1.000000000000000000e+00, 5.000000000000000278e-02, 3.119999999999999996e-01, -1.000000000000000000e+00, 9.199999999999999289e-01, 1.000000000000000000e+00, -9.500000000000000000e+00, -4.200000000000000261e-02, -6.300000000000000044e-02, 8.000000000000001554e-02, 8.249999999999998446e-01, 1.749999999999999889e-01, 9.999999999999998890e-01, 1.599999999999999822e+01, 1.749999999999999889e-01, 1.000000000000000000e+00, 8.250000000000001776e-01, 2.100000000000000355e+01, 1.000000000000000000e+00, 1.000000000000000000e+00, 3.600000000000000089e+00, -4.200000000000000955e-02, -6.300000000000000044e-02, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -8.000000000000000444e-01, -1.229999999999999982e+00, 2.300000000000000100e-01, -1.229999999999999982e+00, 2.300000000000000100e-01, 1.000000000000000000e+00, -1.229999999999999982e+00, 2.300000000000000100e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -9.499999999999999556e-01, -5.000000000000000278e-02, 1.000000000000000000e+00, -9.499999999999999556e-01, -5.000000000000000278e-02, 1.000000000000000000e+00, -9.499999999999999556e-01, -5.000000000000000278e-02, 1.000000000000000000e+00, -7.900000000000000355e-01, -2.099999999999999922e-01, 1.000000000000000000e+00, -7.900000000000000355e-01, -2.099999999999999922e-01, 1.000000000000000000e+00, -7.900000000000000355e-01, -2.099999999999999922e-01, 1.000000000000000000e+00, -4.199999999999999845e-01, -5.799999999999999600e-01, 1.000000000000000000e+00, -4.199999999999999845e-01, -5.799999999999999600e-01, 1.000000000000000000e+00, -4.199999999999999845e-01, -5.799999999999999600e-01, 1.000000000000000000e+00, -5.000000000000000278e-02, -9.499999999999999556e-01, 1.000000000000000000e+00, -5.000000000000000278e-02, -9.499999999999999556e-01, 1.000000000000000000e+00, -5.000000000000000278e-02, -9.499999999999999556e-01, 1.000000000000000000e+00, -2.600000000000000089e-01, -7.399999999999999911e-01, 1.000000000000000000e+00, -2.600000000000000089e-01, -7.399999999999999911e-01, 1.000000000000000000e+00, -2.600000000000000089e-01, -7.399999999999999911e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, -3.200000000000000178e+00, -4.199999999999999567e-02, -6.300000000000001432e-02, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 2.599999999999999534e-01, -1.259999999999999787e+00, 1.000000000000000000e+00, -8.000000000000000444e-01, 9.999999999999998890e-01, 2.599999999999999534e-01, -1.259999999999999787e+00, 9.999999999999998890e-01, 2.599999999999999534e-01, -1.259999999999999787e+00, 1.000000000000000000e+00, 1.600000000000000311e-01, -1.159999999999999920e+00, 1.000000000000000000e+00, 1.600000000000000311e-01, -1.159999999999999920e+00, 1.000000000000000000e+00, 1.600000000000000311e-01, -1.159999999999999920e+00, 1.000000000000000000e+00, -1.600000000000000033e-01, -8.399999999999999689e-01, 1.000000000000000000e+00, -1.600000000000000033e-01, -8.399999999999999689e-01, 1.000000000000000000e+00, -1.600000000000000033e-01, -8.399999999999999689e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 7.900000000000000355e-01, 3.700000000000000711e+01, 4.940000000000000502e-01, 5.060000000000000053e-01, 2.274239999999999817e+00, 9.999999999999998890e-01, 5.299999999999999156e-01, 4.699999999999999289e+01, 4.919999999999999374e-01, 5.080000000000000071e-01, 2.263199999999999878e+00, 1.000000000000000000e+00, 6.199999999999999956e-01, -1.620000000000000329e+00, 1.000000000000000000e+00, 6.199999999999999956e-01, -1.620000000000000329e+00, 1.000000000000000000e+00, 6.199999999999999956e-01, -1.620000000000000329e+00, -2.469999999999999973e-01, 1.726000000000000034e-01, -3.121999999999999775e-01, 1.782999999999999918e+00, 4.702999999999999403e-01, -9.280000000000000748e-02, 1.400150000000000006e+00, -1.570000000000000007e-01, -2.398999999999999744e-01, 1.000000000000000222e+00, 4.272999999999999576e-01, -3.609999999999999321e-02, 1.204039999999999777e+00, -1.570000000000000007e-01, -2.788999999999999813e-01, 1.000000000000000222e+00, 4.663000000000000478e-01, -3.610000000000000014e-02, 1.434980000000000144e+00, 1.000000000000000000e+00, 5.500000000000000444e-01, -5.200000000000000178e-01, 5.999999999999999778e-01, 9.999999999999998890e-01, -9.999999999999997780e-01, 1.799999999999999822e+00, -3.300000000000000155e-01, 1.000000000000000000e+00, 1.700000000000000122e-02, 1.000000000000000000e+00, -3.300000000000000155e-01, 2.000000000000000111e-01, 7.299999999999999822e-01, 1.000000000000000000e+00, 7.000000000000000666e-02, 7.199999999999999734e-01, 1.000000000000000000e+00, 2.000000000000000111e-01, 8.000000000000000167e-02, 9.999999999999998890e-01, 2.500000000000000555e-01, 4.500000000000000711e+01, 8.749999999999998890e-01, 3.675000000000001044e-01, 6.325000000000000622e-01, 2.535999999999999713e-02, 1.613999999999999879e+00, 1.000000000000000000e+00, 2.000000000000000111e-01, 5.500000000000000000e+01, 8.749999999999997780e-01, 3.649999999999999911e-01, 6.350000000000001199e-01, 2.537999999999999978e-02, 1.590000000000000080e+00, 1.000000000000000000e+00, -8.279999999999998472e-01, 9.999999999999997780e-01, -9.500000000000000111e-02, -1.999999999999999695e-02, 1.199999999999999852e-02, -1.419999999999999707e+00, -4.669999999999999846e-02, -2.200000000000000133e-03, -1.920000000000000179e-02, 1.000000000000000000e+00, 6.790000000000000480e-01, -8.080000000000000515e-01, 1.000000000000000000e+00, -9.500000000000002887e-02, -2.000000000000000042e-02, 2.050000000000000086e-02, -1.839999999999999858e+00, -4.670000000000000540e-02, -2.200000000000000133e-03, -1.920000000000000179e-02, 1.000000000000000000e+00, 6.790000000000000480e-01, -8.080000000000000515e-01, 1.000000000000000000e+00, -9.500000000000002887e-02, -2.000000000000000042e-02, 2.050000000000000086e-02, -1.839999999999999858e+00, -4.670000000000000540e-02, -1.000000000000000222e+00, 1.000000000000000000e+00, -5.200000000000001066e+00, -9.999999999999998890e-01, 1.000000000000000000e+00, -6.700000000000000178e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -8.000000000000000444e-01, 4.819999999999999840e-01, 4.980000000000000537e-01, 2.000000000000000389e-02, 1.000000000000000000e+00, 7.900000000000000355e-01, 2.217000000000000082e+00, 4.740000000000000324e-01, 2.000000000000000042e-02, 1.000000000000000000e+00, 5.300000000000000266e-01, 5.060000000000000053e-01, 2.179999999999999716e+00, 7.000000000000000666e-02, 1.000000000000000056e-01, 1.000000000000000000e+00, 8.299999999999999600e-01, 7.000000000000000666e-02, 1.000000000000000000e+00, 3.300000000000001266e-01, 5.999999999999999778e-01, 3.300000000000000155e-01, 7.000000000000000666e-02, 1.000000000000000000e+00, 5.999999999999999778e-01, 6.249999999999998890e-01, -1.250000000000000000e-01, 1.125000000000000000e+00, 1.000000000000000000e+00, 1.812000000000000069e-02, -6.500000000000000222e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.249999999999999778e+00, -2.499999999999999445e-01, 1.031250000000000000e+00, 2.187500000000000000e-01, 1.000000000000000000e+00, 3.624999999999999750e-02, 3.000000000000000355e+01, -1.365619999999999834e+00, 1.249999999999999778e+00, -2.499999999999999722e-01, 2.187500000000000000e-01, 1.000000000000000000e+00, 1.031250000000000000e+00, 3.624999999999999750e-02, 3.500000000000000000e+01, -1.383750000000000036e+00, 1.072000000000000064e+00, -7.059999999999999609e-01, -2.700000000000000316e-02, 1.000000000000000000e+00, -1.280000000000000027e-01, 1.290000000000000001e-02, -1.610000000000000320e+00, -1.203000000000000319e-01, -1.200000000000000112e-03, -1.590000000000000441e-02, 1.072000000000000508e+00, 5.340000000000000302e-01, -6.900000000000000577e-01, -2.700000000000000316e-02, 1.000000000000000000e+00, -1.280000000000000027e-01, 1.949999999999999650e-02, -1.840000000000000080e+00, -1.203000000000000180e-01, -1.200000000000000112e-03, -1.590000000000000094e-02, 1.000000000000000000e+00, 5.340000000000001412e-01, -6.899999999999999467e-01, -2.699999999999999969e-02, 1.000000000000000222e+00, -1.280000000000000304e-01, 1.949999999999999997e-02, -1.839999999999999858e+00, -1.203000000000000042e-01, 1.809999999999999942e-01, 1.000000000000000000e+00, 1.100000000000000006e-01, 7.089999999999999636e-01, 5.099999999999999672e-02, 1.000000000000000000e+00, 5.500000000000000028e-02, 8.940000000000000169e-01, 3.599999999999999728e-02, 1.000000000000000000e+00, 9.639999999999999680e-01, -9.999999999999998890e-01, 1.000000000000000000e+00, -5.299999999999998934e+00, 9.999999999999998890e-01, 9.199999999999999289e-01, -1.010000000000000142e+01, -4.200000000000000261e-02, -6.299999999999998657e-02, 8.000000000000001554e-02, 9.999999999999998890e-01, 4.000000000000000222e-01, 4.500000000000000711e+01, -9.999999999999998890e-01, -4.349999999999999645e+00, -1.000000000000000222e+00, -2.100000000000000089e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, 1.000000000000000222e+00, 2.400000000000000000e+01, -6.429999999999999716e+01, 1.000000000000000000e+00, -2.739999999999999858e+01, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.100000000000001421e+00, -4.200000000000000261e-02, -6.300000000000001432e-02, 1.000000000000000000e+00, -3.599999999999999867e-01, 1.000000000000000000e+00, -2.599999999999999881e-02, -1.340000000000000080e-01, -1.819999999999999674e-01, -1.741999999999999937e-01, 8.259999999999999565e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -3.960000000000000187e-01, 1.000000000000000000e+00, -2.900000000000000494e-02, -1.469999999999999918e-01, -1.189999999999999947e-01, -1.940000000000000058e-01, 8.100000000000000533e-01, -8.000000000000000444e-01, 1.000000000000000000e+00};
pfloat lp_adlittle_b[56] = {0.0, 5.260000000000000142e+01, 2.269999999999999929e+01, 2.339999999999999858e+01, 0.0, 0.0, 1.080000000000000000e+02, 5.000000000000000000e+01, 1.300000000000000000e+01, 2.366000000000000000e+03, 2.000000000000000000e+02, 2.650000000000000000e+02, 3.000000000000000000e+02, 0.0, 3.100000000000000000e+01, 6.000000000000000000e+01, 1.340000000000000000e+02, 3.400000000000000000e+01, 4.130000000000000000e+02, 4.150000000000000000e+01, 1.500000000000000000e+01, 2.060000000000000142e+01, 1.350000000000000000e+01, 4.400000000000000000e+02, 0.0, 1.600000000000000000e+01, 2.900000000000000000e+02, -5.248999999999999773e+02, 3.100000000000000089e+00, 9.099999999999999645e+00, 0.0, 0.0, 0.0, 0.0, 0.0, 4.300000000000000000e+01, 3.439999999999999858e+01, 1.559999999999999964e+01, 1.919999999999999929e+01, 4.489999999999999858e+01, 6.099999999999999645e+00, 0.0, 0.0, 0.0, 1.319999999999999929e+01, 0.0, 0.0, 3.119999999999999929e+01, 0.0, 2.500000000000000000e+00, 1.080000000000000000e+03, 0.0, 0.0, -1.231599999999999909e+03, 0.0, 1.070000000000000000e+02};
 
static char * test_lp_adlittle(){
pwork *mywork;
idxint exitflag;
 
/* print test name */
printf("===================================== lp_adlittle =====================================\n");
 
/* set up data */
mywork = ECOS_setup(lp_adlittle_n, lp_adlittle_m, lp_adlittle_p, lp_adlittle_l, lp_adlittle_ncones, lp_adlittle_q, 0,
                    lp_adlittle_Gpr, lp_adlittle_Gjc, lp_adlittle_Gir,
                    lp_adlittle_Apr, lp_adlittle_Ajc, lp_adlittle_Air,
                    lp_adlittle_c, lp_adlittle_h, lp_adlittle_b);
if( mywork != NULL ){
/* solve */
exitflag = ECOS_solve(mywork); }
else exitflag = ECOS_FATAL;
 
/* clean up memory */
ECOS_cleanup(mywork, 0);
 
mu_assert("lp_adlittle: ECOS failed to produce outputflag OPTIMAL", exitflag == ECOS_OPTIMAL );
return 0;
}
