#include "ecos.h"
#include "minunit.h"
idxint lp_beaconfd_n = 295;
idxint lp_beaconfd_m = 295;
idxint lp_beaconfd_p = 173;
idxint lp_beaconfd_l = 295;
idxint lp_beaconfd_ncones = 0;
pfloat lp_beaconfd_c[295] = {0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 2.399999999999999911e+00, 1.000000000000000000e+00, 2.899999999999999911e+00, 1.000000000000000000e+00, 5.590000000000000524e-01, 5.590000000000000524e-01, 2.069999999999999896e-01, 7.049999999999999822e+00, 0.0, 1.300000000000000044e-01, 6.390000000000000124e-01, 3.619999999999999885e-01, 2.500000000000000000e+00, 1.000000000000000000e+00, 2.930000000000000160e+00, 2.999999999999999889e-01, 1.820000000000000062e+00, 2.999999999999999889e-01, 3.060000000000000053e+00, 1.000000000000000000e+00, 5.660000000000000142e+00, 1.000000000000000000e+00, 2.549999999999999822e+00, 1.000000000000000000e+00, 2.479999999999999982e+00, 2.000000000000000111e-01, 3.599999999999999867e-01, 2.569999999999999840e+00, 1.000000000000000000e+00, 3.200000000000000067e-02, 5.299999999999999850e-02, 2.890000000000000124e+00, 1.000000000000000000e+00, 2.750000000000000000e+00, 1.000000000000000000e+00, 1.530000000000000027e+00, 1.000000000000000000e+00, 1.000000000000000000e+01, 3.399999999999999911e+00, 1.000000000000000000e+00, 1.701000000000000156e+01, 1.000000000000000000e+00, 3.799999999999999906e-02, 8.630000000000000782e+00, 2.000000000000000111e-01, 2.160000000000000142e+00, 2.999999999999999889e-01, 2.879999999999999893e+00, 1.000000000000000000e+00, 5.269999999999999574e+00, 1.000000000000000000e+00, 2.850000000000000089e+00, 1.000000000000000000e+00, 2.439999999999999947e-01, 3.589999999999999858e+00, 5.339999999999999858e+00, 1.000000000000000000e+00, 1.000000000000000000e+02, 5.450000000000000178e+00, 5.400000000000000355e+00, 2.000000000000000111e-01, 2.110000000000000209e-01, 2.629999999999999893e+00, 2.000000000000000111e-01, 2.790000000000000036e+00, 1.000000000000000000e+00, 9.299999999999999933e-02, 1.540000000000000036e+00, 2.999999999999999889e-01, 1.140000000000000180e-01, 2.830000000000000071e+00, 0.0, 3.379999999999999893e+00, 2.999999999999999889e-01, 6.400000000000000133e-01, 4.500000000000000000e+01, 3.629999999999999893e+00, 1.000000000000000000e+00, 1.090000000000000000e+02, 1.775000000000000000e+01, 4.730000000000000426e+00, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 8.199999999999999512e-01, 1.679999999999999938e+00, 1.010000000000000064e-01, 1.635000000000000142e+01, 1.000000000000000000e+01, 5.389999999999999680e+00, 1.000000000000000000e+00, 5.889999999999999680e+00, 2.589999999999999858e+00, 1.000000000000000000e+00, 1.100000000000000000e+01, 4.650000000000000355e+00, 1.000000000000000000e+00, 1.300000000000000044e-01, 9.400000000000000022e-02, 1.000000000000000056e-01, 4.800000000000000100e-02, 2.900000000000000147e-02, 1.859999999999999987e-01, 8.220000000000000639e+00, 1.880000000000000004e-01, 5.400000000000000633e-02, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0};
idxint lp_beaconfd_Gjc[296] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 261, 262, 263, 264, 265, 266, 267, 268, 269, 270, 271, 272, 273, 274, 275, 276, 277, 278, 279, 280, 281, 282, 283, 284, 285, 286, 287, 288, 289, 290, 291, 292, 293, 294, 295};
idxint lp_beaconfd_Gir[295] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 261, 262, 263, 264, 265, 266, 267, 268, 269, 270, 271, 272, 273, 274, 275, 276, 277, 278, 279, 280, 281, 282, 283, 284, 285, 286, 287, 288, 289, 290, 291, 292, 293, 294};
pfloat lp_beaconfd_Gpr[295] = {-1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999997780e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999996669e-01, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000222e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -9.999999999999998890e-01, -9.999999999999997780e-01, -1.000000000000000000e+00, -9.999999999999997780e-01, -9.999999999999998890e-01, -1.000000000000000222e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000222e+00, -1.000000000000000222e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -9.999999999999997780e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00};
pfloat lp_beaconfd_h[295] = {0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0};
idxint *lp_beaconfd_q = NULL;
idxint lp_beaconfd_Ajc[296] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 35, 36, 38, 39, 40, 41, 42, 44, 45, 46, 47, 48, 50, 51, 53, 54, 56, 57, 59, 60, 62, 63, 65, 66, 68, 69, 70, 72, 73, 74, 75, 77, 78, 80, 81, 83, 84, 85, 87, 88, 90, 91, 92, 94, 95, 97, 98, 100, 101, 103, 104, 106, 107, 108, 109, 111, 112, 113, 114, 116, 117, 118, 120, 121, 123, 124, 125, 127, 128, 129, 131, 132, 134, 135, 136, 137, 139, 140, 141, 142, 143, 166, 187, 207, 229, 251, 273, 294, 312, 329, 348, 369, 392, 413, 437, 459, 479, 495, 496, 497, 498, 500, 501, 503, 504, 505, 507, 508, 509, 511, 512, 513, 514, 515, 516, 517, 518, 519, 520, 521, 545, 569, 591, 614, 640, 663, 688, 711, 736, 759, 781, 806, 829, 852, 874, 897, 920, 942, 967, 990, 1012, 1035, 1062, 1085, 1110, 1136, 1161, 1185, 1209, 1232, 1255, 1279, 1304, 1323, 1344, 1364, 1385, 1401, 1418, 1422, 1431, 1456, 1481, 1506, 1530, 1555, 1579, 1604, 1629, 1654, 1677, 1703, 1727, 1747, 1768, 1788, 1809, 1833, 1856, 1878, 1901, 1921, 1940, 1959, 1978, 2000, 2020, 2042, 2062, 2085, 2094, 2115, 2134, 2156, 2175, 2196, 2215, 2235, 2254, 2273, 2292, 2312, 2331, 2350, 2369, 2389, 2409, 2429, 2449, 2470, 2493, 2516, 2539, 2563, 2588, 2613, 2639, 2665, 2689, 2713, 2737, 2762, 2783, 2804, 2819, 2831, 2847, 2862, 2876, 2898, 2920, 2943, 2959, 2975, 2992, 3009, 3025, 3041, 3056, 3071, 3085, 3099, 3114, 3129, 3150, 3171, 3189, 3206, 3223, 3245, 3266, 3283, 3299, 3317, 3338, 3359, 3382, 3400, 3402, 3404, 3406, 3408};
idxint lp_beaconfd_Air[3408] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 0, 33, 0, 1, 34, 1, 35, 36, 37, 2, 38, 2, 39, 40, 41, 3, 42, 3, 4, 43, 4, 5, 44, 5, 6, 45, 6, 7, 46, 7, 8, 47, 8, 9, 48, 9, 49, 10, 50, 10, 51, 52, 11, 53, 11, 12, 54, 12, 13, 55, 13, 56, 14, 57, 14, 15, 58, 15, 59, 16, 60, 16, 17, 61, 17, 18, 62, 18, 19, 63, 19, 20, 64, 20, 65, 66, 21, 67, 21, 68, 69, 22, 70, 22, 71, 23, 72, 23, 24, 73, 24, 74, 25, 75, 25, 76, 26, 77, 26, 27, 78, 27, 79, 80, 28, 81, 28, 82, 83, 84, 34, 38, 39, 42, 44, 49, 51, 53, 54, 59, 60, 63, 64, 70, 71, 72, 85, 89, 95, 96, 98, 102, 111, 34, 38, 39, 44, 49, 53, 54, 59, 60, 64, 70, 71, 72, 85, 89, 95, 96, 98, 99, 102, 112, 34, 38, 39, 44, 49, 51, 53, 59, 60, 64, 70, 71, 72, 85, 89, 95, 96, 98, 99, 112, 34, 38, 39, 42, 44, 49, 53, 54, 59, 60, 64, 70, 71, 72, 85, 89, 95, 96, 98, 99, 102, 112, 34, 38, 42, 44, 49, 50, 51, 53, 54, 58, 60, 63, 64, 70, 71, 72, 85, 89, 95, 96, 98, 113, 34, 38, 42, 44, 49, 50, 51, 54, 58, 60, 63, 64, 70, 71, 72, 81, 85, 89, 95, 96, 98, 113, 34, 38, 42, 44, 49, 50, 51, 53, 54, 58, 60, 64, 70, 71, 72, 85, 89, 95, 96, 98, 113, 34, 38, 44, 49, 51, 58, 60, 62, 70, 71, 72, 85, 89, 95, 96, 98, 102, 114, 34, 38, 44, 49, 51, 58, 60, 70, 71, 72, 81, 85, 89, 95, 96, 98, 114, 34, 38, 44, 49, 51, 58, 60, 70, 71, 72, 81, 85, 87, 89, 95, 96, 98, 99, 115, 34, 38, 41, 42, 44, 49, 51, 58, 62, 64, 70, 71, 72, 85, 87, 89, 91, 95, 96, 98, 116, 34, 38, 39, 42, 44, 49, 51, 53, 54, 58, 60, 64, 70, 71, 85, 87, 89, 95, 96, 98, 99, 102, 117, 34, 38, 39, 42, 44, 49, 51, 53, 54, 58, 60, 64, 70, 85, 87, 89, 95, 96, 98, 99, 117, 34, 38, 39, 42, 44, 49, 51, 53, 54, 58, 60, 64, 70, 71, 72, 85, 87, 89, 95, 96, 98, 99, 102, 118, 34, 38, 39, 44, 49, 51, 53, 58, 60, 64, 70, 71, 72, 85, 87, 89, 95, 96, 98, 99, 102, 118, 34, 38, 44, 49, 51, 58, 60, 70, 72, 79, 81, 85, 87, 89, 95, 96, 98, 99, 102, 119, 34, 38, 44, 49, 51, 58, 60, 69, 71, 85, 89, 95, 96, 98, 102, 120, 85, 86, 87, 29, 88, 29, 30, 89, 30, 90, 31, 91, 31, 92, 32, 93, 32, 94, 95, 96, 97, 98, 99, 100, 101, 102, 34, 36, 38, 41, 42, 44, 49, 51, 53, 54, 58, 60, 63, 64, 70, 72, 85, 87, 89, 95, 96, 98, 99, 107, 34, 36, 38, 41, 42, 44, 49, 51, 53, 54, 58, 60, 63, 70, 71, 81, 85, 87, 89, 95, 96, 98, 99, 107, 34, 36, 38, 41, 42, 44, 51, 53, 54, 58, 60, 63, 70, 71, 85, 87, 89, 95, 96, 98, 99, 107, 34, 38, 41, 42, 44, 49, 54, 58, 60, 62, 63, 64, 70, 71, 72, 77, 85, 87, 89, 95, 96, 98, 108, 34, 38, 41, 42, 44, 49, 51, 53, 54, 58, 60, 62, 63, 64, 70, 72, 77, 81, 85, 87, 89, 91, 95, 96, 98, 108, 34, 38, 41, 42, 44, 49, 54, 58, 60, 62, 63, 64, 70, 71, 72, 77, 85, 87, 89, 95, 96, 98, 108, 34, 38, 41, 42, 44, 48, 49, 54, 58, 60, 62, 64, 70, 71, 72, 77, 81, 85, 87, 89, 91, 95, 96, 98, 109, 34, 38, 41, 42, 44, 49, 53, 54, 58, 62, 70, 71, 72, 77, 81, 85, 87, 89, 91, 95, 96, 98, 109, 34, 38, 41, 42, 44, 48, 49, 54, 58, 60, 62, 64, 70, 71, 72, 77, 81, 85, 87, 89, 91, 95, 96, 98, 109, 34, 38, 41, 42, 44, 48, 49, 54, 58, 60, 62, 70, 71, 72, 77, 81, 85, 87, 89, 95, 96, 98, 109, 34, 38, 42, 44, 49, 51, 54, 58, 60, 62, 64, 70, 71, 72, 77, 85, 87, 89, 95, 96, 98, 110, 34, 38, 41, 42, 44, 49, 51, 54, 58, 60, 62, 63, 64, 70, 72, 77, 81, 85, 87, 89, 91, 95, 96, 98, 110, 34, 38, 42, 44, 49, 51, 53, 54, 58, 60, 62, 63, 70, 71, 72, 77, 85, 87, 89, 95, 96, 98, 110, 34, 38, 39, 42, 44, 49, 51, 53, 54, 59, 60, 63, 64, 70, 71, 72, 85, 89, 95, 96, 98, 102, 111, 34, 38, 39, 42, 44, 49, 51, 53, 54, 59, 60, 63, 64, 70, 72, 85, 89, 95, 96, 98, 102, 111, 34, 38, 39, 42, 44, 49, 51, 53, 54, 59, 60, 63, 64, 70, 71, 72, 85, 89, 95, 96, 98, 102, 111, 34, 38, 41, 44, 50, 51, 53, 58, 60, 63, 64, 66, 70, 79, 85, 87, 89, 95, 96, 98, 99, 102, 121, 34, 38, 41, 44, 50, 51, 53, 58, 60, 63, 66, 70, 71, 79, 85, 87, 89, 95, 96, 98, 99, 121, 34, 35, 38, 41, 44, 50, 51, 53, 54, 58, 60, 63, 66, 70, 71, 79, 85, 87, 89, 95, 96, 98, 99, 102, 121, 34, 38, 41, 44, 50, 51, 53, 54, 58, 60, 63, 64, 66, 70, 79, 85, 87, 89, 95, 96, 98, 102, 122, 34, 38, 41, 44, 50, 51, 53, 58, 60, 63, 66, 70, 71, 79, 85, 87, 89, 95, 96, 98, 102, 122, 34, 38, 41, 44, 49, 51, 53, 54, 58, 60, 63, 66, 70, 71, 79, 85, 87, 89, 95, 96, 98, 102, 122, 34, 35, 38, 41, 42, 44, 49, 50, 51, 53, 54, 58, 60, 63, 64, 66, 70, 71, 81, 85, 87, 89, 95, 96, 98, 102, 123, 34, 35, 38, 41, 42, 44, 49, 50, 51, 53, 58, 63, 66, 70, 71, 81, 85, 87, 89, 95, 96, 98, 123, 34, 35, 38, 41, 42, 44, 49, 50, 51, 53, 54, 58, 63, 66, 70, 71, 81, 85, 87, 89, 95, 96, 98, 102, 123, 34, 35, 38, 41, 42, 44, 49, 50, 51, 53, 58, 60, 63, 64, 70, 71, 72, 73, 81, 85, 87, 89, 95, 96, 98, 124, 34, 35, 38, 41, 42, 44, 50, 51, 53, 54, 58, 60, 63, 64, 66, 70, 71, 85, 87, 89, 95, 96, 98, 102, 125, 34, 35, 38, 41, 42, 44, 49, 50, 51, 53, 58, 60, 63, 66, 70, 71, 81, 85, 87, 89, 95, 96, 98, 125, 34, 35, 38, 41, 42, 44, 49, 50, 51, 53, 54, 58, 60, 66, 70, 71, 85, 87, 89, 95, 96, 98, 102, 125, 34, 35, 36, 38, 40, 44, 50, 51, 52, 53, 58, 60, 63, 70, 71, 79, 85, 87, 89, 95, 96, 98, 126, 34, 38, 42, 44, 49, 51, 53, 58, 60, 63, 64, 70, 72, 77, 80, 81, 82, 85, 89, 95, 96, 98, 127, 34, 38, 40, 44, 46, 50, 51, 52, 53, 58, 60, 63, 64, 70, 72, 77, 85, 87, 89, 95, 96, 98, 99, 128, 34, 38, 40, 44, 49, 51, 52, 53, 58, 60, 63, 70, 71, 72, 77, 81, 85, 87, 89, 91, 95, 96, 98, 99, 128, 34, 38, 41, 44, 49, 51, 58, 60, 63, 70, 72, 85, 87, 89, 95, 96, 98, 102, 129, 34, 38, 41, 44, 49, 51, 58, 60, 63, 70, 71, 72, 81, 85, 87, 89, 95, 96, 98, 102, 129, 34, 38, 41, 44, 49, 51, 58, 60, 63, 70, 71, 72, 85, 87, 89, 95, 96, 98, 102, 129, 34, 38, 41, 44, 49, 51, 58, 60, 63, 70, 72, 79, 85, 87, 89, 95, 96, 98, 99, 102, 130, 34, 38, 44, 49, 51, 58, 60, 70, 71, 85, 89, 95, 96, 98, 102, 131, 34, 38, 44, 49, 51, 58, 60, 63, 70, 71, 72, 85, 89, 95, 96, 98, 131, 42, 53, 78, 132, 33, 42, 53, 62, 75, 77, 85, 89, 133, 34, 38, 41, 44, 51, 53, 58, 60, 63, 70, 71, 72, 77, 79, 81, 85, 87, 89, 95, 96, 98, 99, 100, 102, 134, 34, 38, 41, 44, 51, 53, 58, 60, 62, 63, 70, 72, 77, 79, 81, 85, 87, 89, 95, 96, 98, 99, 100, 102, 134, 34, 38, 41, 44, 51, 53, 58, 60, 63, 70, 71, 72, 77, 79, 81, 85, 87, 89, 95, 96, 98, 99, 100, 102, 134, 34, 38, 41, 42, 44, 50, 51, 53, 54, 58, 60, 63, 64, 70, 77, 85, 87, 89, 95, 96, 98, 99, 102, 135, 34, 38, 41, 42, 44, 49, 50, 51, 53, 54, 58, 60, 62, 63, 70, 77, 81, 85, 87, 89, 95, 96, 98, 99, 135, 34, 38, 41, 42, 44, 50, 51, 53, 54, 58, 60, 63, 70, 71, 77, 85, 87, 89, 95, 96, 98, 99, 102, 135, 34, 38, 41, 42, 44, 49, 50, 51, 53, 54, 58, 63, 64, 70, 77, 81, 85, 87, 89, 95, 96, 97, 98, 102, 136, 34, 38, 41, 42, 44, 49, 50, 51, 53, 54, 58, 60, 63, 64, 70, 72, 77, 85, 87, 89, 95, 96, 98, 102, 136, 34, 38, 41, 42, 44, 49, 50, 51, 53, 54, 58, 63, 64, 70, 77, 81, 85, 87, 89, 95, 96, 97, 98, 102, 136, 34, 38, 41, 42, 44, 49, 50, 51, 53, 54, 58, 63, 70, 72, 77, 85, 87, 89, 95, 96, 98, 102, 136, 34, 38, 42, 44, 49, 50, 51, 53, 54, 58, 60, 70, 71, 72, 77, 79, 81, 85, 87, 89, 95, 96, 98, 99, 102, 137, 34, 38, 42, 44, 49, 51, 53, 58, 60, 70, 71, 72, 77, 79, 81, 85, 87, 89, 95, 96, 98, 99, 102, 137, 34, 38, 41, 42, 44, 50, 51, 53, 54, 59, 63, 70, 71, 85, 87, 89, 95, 96, 98, 138, 34, 38, 41, 42, 44, 50, 51, 53, 59, 63, 64, 70, 71, 81, 85, 87, 89, 95, 96, 98, 138, 34, 38, 41, 42, 44, 50, 51, 53, 54, 59, 63, 70, 71, 85, 87, 89, 95, 96, 98, 138, 34, 38, 41, 44, 46, 51, 58, 60, 63, 70, 71, 72, 85, 87, 89, 95, 96, 98, 99, 102, 139, 34, 42, 44, 49, 50, 51, 54, 59, 60, 62, 64, 70, 71, 72, 77, 81, 85, 89, 95, 96, 98, 99, 102, 140, 34, 42, 44, 49, 50, 51, 54, 59, 60, 62, 64, 70, 71, 72, 77, 85, 89, 95, 96, 98, 99, 102, 140, 34, 42, 44, 49, 50, 51, 54, 59, 60, 62, 70, 71, 72, 77, 85, 89, 95, 96, 98, 99, 102, 140, 34, 38, 42, 44, 50, 53, 54, 59, 60, 63, 64, 66, 70, 72, 85, 87, 89, 94, 95, 96, 98, 102, 141, 34, 38, 42, 44, 50, 53, 54, 59, 60, 66, 70, 72, 85, 87, 89, 94, 95, 96, 98, 141, 34, 42, 44, 49, 51, 54, 60, 62, 70, 71, 72, 77, 85, 91, 94, 96, 98, 99, 142, 34, 42, 44, 49, 51, 54, 60, 62, 63, 70, 72, 77, 81, 85, 89, 94, 96, 98, 142, 34, 42, 44, 49, 54, 60, 62, 70, 71, 72, 77, 81, 85, 91, 94, 96, 98, 99, 142, 34, 42, 44, 50, 53, 54, 59, 60, 63, 64, 66, 70, 72, 85, 87, 89, 94, 95, 96, 98, 102, 143, 34, 42, 44, 50, 53, 54, 59, 60, 66, 70, 72, 81, 85, 87, 89, 94, 95, 96, 98, 143, 34, 42, 46, 48, 49, 50, 54, 57, 61, 62, 64, 67, 72, 75, 77, 83, 85, 89, 95, 96, 101, 144, 34, 42, 46, 48, 54, 57, 61, 64, 67, 69, 72, 75, 77, 83, 85, 89, 95, 96, 101, 144, 34, 42, 46, 48, 49, 50, 54, 57, 61, 62, 64, 67, 72, 75, 77, 83, 85, 89, 95, 96, 99, 101, 144, 37, 46, 61, 84, 85, 96, 99, 101, 145, 42, 46, 47, 48, 49, 50, 54, 57, 61, 62, 64, 66, 67, 72, 75, 77, 85, 89, 96, 101, 146, 42, 46, 49, 50, 54, 57, 61, 62, 64, 66, 67, 72, 75, 77, 85, 89, 96, 101, 146, 42, 46, 47, 48, 49, 50, 54, 57, 61, 62, 64, 66, 67, 72, 75, 77, 85, 89, 96, 99, 101, 146, 42, 46, 48, 50, 54, 57, 61, 62, 64, 66, 67, 72, 75, 77, 85, 89, 96, 101, 147, 42, 46, 47, 48, 49, 50, 54, 57, 61, 62, 64, 66, 67, 72, 75, 77, 85, 89, 96, 101, 147, 42, 46, 48, 50, 54, 57, 61, 62, 64, 66, 67, 72, 75, 77, 85, 89, 96, 101, 147, 42, 46, 48, 50, 54, 57, 61, 62, 64, 66, 67, 72, 75, 77, 86, 89, 96, 99, 101, 147, 42, 46, 47, 48, 49, 54, 57, 61, 62, 64, 67, 72, 75, 77, 85, 89, 96, 101, 148, 42, 46, 47, 48, 49, 54, 57, 61, 62, 64, 67, 72, 75, 77, 85, 89, 96, 101, 148, 42, 46, 47, 48, 49, 54, 57, 61, 62, 64, 67, 72, 75, 77, 85, 89, 96, 101, 148, 42, 46, 47, 48, 49, 54, 57, 61, 62, 64, 67, 72, 75, 77, 85, 89, 96, 99, 101, 148, 42, 46, 47, 48, 49, 54, 57, 61, 62, 64, 67, 72, 75, 77, 85, 89, 96, 101, 149, 42, 46, 47, 48, 49, 54, 57, 61, 62, 64, 67, 72, 75, 77, 85, 89, 96, 101, 149, 42, 46, 47, 48, 49, 54, 57, 61, 62, 64, 67, 72, 75, 77, 85, 89, 96, 101, 149, 42, 46, 47, 48, 49, 54, 57, 61, 62, 64, 67, 72, 75, 77, 85, 89, 96, 99, 101, 149, 42, 46, 47, 48, 49, 53, 54, 57, 61, 62, 64, 67, 72, 75, 77, 85, 89, 96, 101, 150, 42, 46, 47, 48, 49, 53, 54, 57, 61, 62, 64, 67, 72, 75, 77, 85, 89, 96, 101, 150, 42, 46, 47, 48, 49, 53, 54, 57, 61, 62, 64, 67, 72, 75, 77, 85, 89, 96, 101, 150, 42, 46, 47, 48, 49, 53, 54, 57, 61, 62, 64, 67, 72, 75, 77, 85, 89, 96, 99, 101, 150, 42, 46, 47, 48, 49, 53, 54, 57, 61, 62, 64, 66, 67, 72, 75, 77, 85, 89, 91, 93, 96, 101, 151, 42, 46, 47, 48, 49, 53, 54, 57, 61, 62, 64, 66, 67, 72, 75, 77, 85, 89, 91, 93, 96, 101, 151, 42, 46, 47, 48, 49, 53, 54, 57, 61, 62, 64, 66, 67, 72, 75, 77, 85, 89, 91, 93, 96, 101, 151, 42, 46, 47, 48, 49, 53, 54, 57, 61, 62, 64, 66, 67, 72, 75, 77, 85, 89, 91, 93, 96, 99, 101, 151, 42, 45, 46, 47, 48, 49, 50, 54, 57, 61, 62, 64, 66, 67, 72, 75, 77, 85, 86, 89, 91, 93, 96, 101, 152, 42, 45, 46, 47, 48, 49, 50, 54, 57, 61, 62, 64, 66, 67, 72, 75, 77, 85, 86, 89, 91, 93, 96, 101, 152, 42, 45, 46, 47, 48, 49, 50, 54, 57, 61, 62, 64, 66, 67, 72, 75, 77, 85, 86, 89, 91, 93, 96, 99, 101, 152, 42, 45, 46, 47, 48, 49, 50, 54, 57, 61, 62, 64, 66, 67, 72, 75, 77, 85, 86, 89, 91, 93, 96, 99, 101, 152, 42, 45, 46, 47, 48, 49, 50, 54, 57, 61, 62, 64, 66, 67, 72, 75, 85, 86, 89, 91, 93, 96, 101, 153, 42, 45, 46, 47, 48, 49, 50, 54, 57, 61, 62, 64, 66, 67, 72, 75, 85, 86, 89, 91, 93, 96, 101, 153, 42, 45, 46, 47, 48, 49, 50, 54, 57, 61, 62, 64, 66, 67, 72, 75, 85, 86, 89, 91, 93, 96, 101, 153, 42, 45, 46, 47, 48, 49, 50, 54, 57, 61, 62, 64, 66, 67, 72, 75, 85, 86, 89, 91, 93, 96, 99, 101, 153, 34, 40, 42, 45, 46, 48, 49, 53, 61, 64, 67, 72, 75, 77, 85, 88, 89, 96, 100, 101, 154, 34, 40, 42, 45, 46, 48, 49, 53, 61, 64, 67, 72, 75, 77, 85, 88, 89, 96, 100, 101, 154, 33, 42, 45, 46, 48, 54, 61, 64, 75, 77, 85, 91, 96, 101, 155, 33, 42, 45, 46, 48, 61, 75, 77, 85, 96, 101, 155, 33, 42, 45, 46, 48, 54, 61, 64, 75, 77, 85, 91, 96, 99, 101, 155, 33, 46, 48, 49, 54, 61, 62, 75, 85, 86, 89, 91, 96, 101, 156, 33, 46, 48, 49, 54, 61, 62, 75, 85, 89, 91, 96, 101, 156, 34, 42, 46, 47, 48, 49, 50, 54, 57, 61, 62, 64, 66, 72, 75, 85, 89, 91, 93, 96, 101, 157, 34, 42, 46, 47, 48, 49, 50, 54, 57, 61, 62, 64, 66, 72, 75, 85, 89, 91, 93, 96, 101, 157, 34, 42, 46, 47, 48, 49, 50, 54, 57, 61, 62, 64, 66, 72, 75, 85, 89, 91, 93, 96, 99, 101, 157, 46, 48, 49, 57, 61, 62, 67, 72, 75, 85, 89, 91, 93, 96, 101, 158, 46, 48, 49, 57, 61, 62, 67, 72, 75, 85, 89, 91, 93, 96, 101, 158, 46, 47, 48, 49, 57, 61, 62, 64, 72, 75, 85, 89, 91, 93, 96, 101, 159, 46, 47, 48, 49, 57, 61, 62, 64, 72, 75, 85, 89, 91, 93, 96, 101, 159, 46, 48, 49, 57, 61, 62, 67, 72, 75, 85, 89, 91, 93, 96, 101, 160, 46, 48, 49, 57, 61, 62, 67, 72, 75, 85, 89, 91, 93, 96, 101, 160, 46, 48, 49, 57, 61, 62, 67, 72, 75, 85, 89, 91, 96, 101, 161, 46, 48, 49, 57, 61, 62, 67, 72, 75, 85, 89, 91, 96, 101, 161, 46, 48, 49, 57, 61, 62, 72, 75, 85, 89, 93, 96, 101, 162, 46, 48, 49, 57, 61, 62, 72, 75, 85, 89, 93, 96, 101, 162, 42, 46, 48, 53, 54, 61, 67, 74, 75, 77, 85, 95, 96, 101, 163, 42, 46, 48, 53, 54, 61, 67, 74, 75, 77, 85, 95, 96, 101, 163, 33, 45, 46, 48, 49, 50, 54, 61, 66, 67, 74, 75, 77, 85, 86, 89, 91, 95, 96, 101, 164, 33, 45, 46, 48, 49, 50, 54, 61, 66, 67, 74, 75, 77, 85, 86, 89, 91, 95, 96, 101, 164, 38, 39, 40, 46, 53, 60, 61, 76, 85, 88, 89, 92, 95, 96, 97, 101, 102, 165, 39, 41, 49, 53, 60, 61, 65, 69, 72, 85, 89, 95, 96, 97, 101, 102, 166, 39, 41, 46, 54, 60, 61, 65, 69, 72, 85, 89, 95, 96, 97, 101, 102, 166, 34, 39, 41, 42, 46, 49, 50, 54, 60, 61, 69, 72, 75, 85, 86, 89, 95, 96, 97, 101, 102, 167, 34, 39, 41, 42, 46, 49, 54, 60, 61, 69, 72, 75, 85, 86, 89, 95, 96, 97, 101, 102, 167, 34, 41, 46, 49, 60, 61, 69, 72, 75, 85, 89, 95, 96, 97, 101, 102, 168, 34, 46, 49, 60, 61, 69, 72, 75, 85, 89, 95, 96, 97, 101, 102, 169, 34, 38, 41, 46, 49, 60, 61, 69, 72, 75, 85, 89, 95, 96, 97, 101, 102, 169, 34, 40, 42, 46, 54, 60, 61, 64, 69, 72, 75, 77, 85, 86, 89, 95, 96, 97, 101, 102, 170, 34, 40, 42, 46, 53, 60, 61, 64, 69, 72, 75, 77, 85, 86, 89, 95, 96, 97, 101, 102, 170, 34, 42, 45, 48, 49, 51, 53, 58, 61, 63, 67, 72, 77, 81, 85, 87, 88, 89, 95, 96, 99, 101, 171, 34, 42, 44, 51, 67, 71, 72, 77, 81, 85, 87, 89, 91, 95, 96, 98, 99, 172, 45, 103, 53, 104, 77, 105, 89, 106};
pfloat lp_beaconfd_Apr[3408] = {1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 5.000000000000000278e-02, -1.000000000000000000e+00, -5.000000000000000278e-02, 5.000000000000000278e-02, -1.000000000000000000e+00, -5.000000000000000278e-02, -1.000000000000000000e+02, -1.000000000000000000e+02, -1.000000000000000000e+02, 5.000000000000000278e-02, -1.000000000000000000e+00, -5.000000000000000278e-02, -1.000000000000000000e+02, -1.000000000000000000e+02, -1.000000000000000000e+02, 5.000000000000000278e-02, -1.000000000000000000e+00, -5.000000000000000278e-02, 5.000000000000000278e-02, -1.000000000000000000e+00, -5.000000000000000278e-02, 5.000000000000000278e-02, -1.000000000000000000e+00, -5.000000000000000278e-02, 5.000000000000000278e-02, -1.000000000000000000e+00, -5.000000000000000278e-02, 5.000000000000000278e-02, -1.000000000000000000e+00, -5.000000000000000278e-02, 5.000000000000000278e-02, -1.000000000000000000e+00, -5.000000000000000278e-02, 5.000000000000000278e-02, -1.000000000000000000e+00, -5.000000000000000278e-02, -1.000000000000000000e+00, 5.000000000000000278e-02, -1.000000000000000000e+00, -5.000000000000000278e-02, -9.999999999999998579e+01, -1.000000000000000000e+02, 5.000000000000000278e-02, -1.000000000000000000e+00, -5.000000000000000278e-02, 5.000000000000000278e-02, -1.000000000000000000e+00, -5.000000000000000278e-02, 5.000000000000000278e-02, -1.000000000000000000e+00, -5.000000000000000278e-02, -1.000000000000000000e+00, 5.000000000000000278e-02, -1.000000000000000000e+00, -5.000000000000000278e-02, 5.000000000000000278e-02, -1.000000000000000000e+00, -5.000000000000000278e-02, -1.000000000000000000e+02, 5.000000000000000278e-02, -1.000000000000000000e+00, -5.000000000000000278e-02, 5.000000000000000278e-02, -1.000000000000000000e+00, -5.000000000000000278e-02, 5.000000000000000278e-02, -1.000000000000000000e+00, -5.000000000000000278e-02, 5.000000000000000278e-02, -1.000000000000000000e+00, -5.000000000000000278e-02, 5.000000000000000278e-02, -1.000000000000000000e+00, -5.000000000000000278e-02, -1.000000000000000000e+02, -1.000000000000000000e+00, 5.000000000000000278e-02, -1.000000000000000000e+00, -5.000000000000000278e-02, -1.000000000000000000e+00, -1.000000000000000000e+00, 5.000000000000000278e-02, -1.000000000000000000e+00, -5.000000000000000278e-02, -1.000000000000000000e+02, 5.000000000000000278e-02, -1.000000000000000000e+00, -5.000000000000000278e-02, 5.000000000000000278e-02, -1.000000000000000000e+00, -5.000000000000000278e-02, -1.000000000000000000e+02, 5.000000000000000278e-02, -1.000000000000000000e+00, -5.000000000000000278e-02, -1.000000000000000142e+02, 5.000000000000000278e-02, -1.000000000000000000e+00, -5.000000000000000278e-02, 5.000000000000000278e-02, -1.000000000000000000e+00, -5.000000000000000278e-02, -1.000000000000000000e+02, -1.000000000000000000e+00, 5.000000000000000278e-02, -1.000000000000000000e+00, -5.000000000000000278e-02, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.500000000000000118e-02, 2.500000000000000052e-03, 8.199999999999999289e+00, 9.000000000000001055e-02, 2.500000000000000052e-03, 6.500000000000000222e-02, 2.300000000000000000e+01, 2.977000000000000757e-01, 2.999999999999999889e-01, 2.269999999999999929e+01, 5.000000000000000104e-03, 1.250000000000000069e-02, 3.500000000000000333e-02, 4.750000000000000749e-02, 1.730000000000000071e+01, 2.500000000000000052e-03, 2.500000000000000052e-03, 1.200000000000000094e-01, 8.599999999999999645e+00, 5.099999999999998757e+00, 1.670000000000000284e+01, 2.700000000000000178e+00, 1.000000000000000000e+00, 1.499999999999999771e-02, 2.500000000000000486e-03, 8.199999999999999289e+00, 2.500000000000000486e-03, 5.750000000000000944e-02, 3.184000000000000719e-01, 1.499999999999999944e-01, 2.269999999999999929e+01, 2.999999999999999542e-02, 2.000000000000000111e-01, 6.500000000000000222e-02, 8.599999999999999645e+00, 2.999999999999999542e-02, 2.500000000000000486e-03, 1.250000000000000278e-01, 8.599999999999999645e+00, 5.499999999999999112e+00, 1.669999999999999574e+01, 1.400000000000000133e+00, 2.700000000000000622e+00, 1.000000000000000222e+00, 1.499999999999999771e-02, 2.500000000000000486e-03, 8.199999999999999289e+00, 2.500000000000000486e-03, 5.999999999999999084e-02, 2.899999999999999911e+00, 5.082999999999999741e-01, 2.269999999999999929e+01, 2.500000000000000486e-03, 1.499999999999999944e-01, 7.499999999999999722e-02, 1.330000000000000249e+01, 2.999999999999999542e-02, 2.500000000000000486e-03, 1.499999999999999944e-01, 8.599999999999999645e+00, 5.499999999999999112e+00, 1.669999999999999574e+01, 1.200000000000000400e+00, 1.000000000000000222e+00, 1.499999999999999771e-02, 2.500000000000000486e-03, 8.199999999999999289e+00, 2.750000000000000361e-02, 2.500000000000000486e-03, 6.750000000000001832e-02, 3.881999999999999895e-01, 1.499999999999999944e-01, 2.269999999999999929e+01, 2.500000000000000486e-03, 9.500000000000000111e-02, 6.500000000000000222e-02, 1.580000000000000249e+01, 2.500000000000000486e-03, 2.500000000000000486e-03, 1.775000000000000189e-01, 8.599999999999999645e+00, 5.499999999999999112e+00, 1.669999999999999574e+01, 1.400000000000000133e+00, 2.700000000000000622e+00, 1.000000000000000222e+00, 2.750000000000000014e-02, 2.499999999999999185e-03, 2.499999999999999185e-03, 2.499999999999999185e-03, 4.249999999999999611e-02, 5.000000000000000278e-02, 1.999999999999999645e+01, 3.259999999999999704e-02, 2.499999999999999722e-01, 2.499999999999999185e-03, 4.999999999999998369e-03, 4.999999999999998369e-03, 2.999999999999999889e-01, 1.499999999999999944e-01, 3.360000000000000142e+01, 7.499999999999998855e-03, 4.999999999999998369e-03, 1.125000000000000028e-01, 1.069999999999999751e+01, 9.999999999999998224e+00, 3.329999999999999716e+01, 9.999999999999998890e-01, 2.999999999999999889e-02, 7.499999999999999722e-03, 2.500000000000000052e-03, 2.500000000000000052e-03, 6.500000000000000222e-02, 5.000000000000000278e-02, 2.310000000000000497e+01, 2.727000000000000535e-01, 2.500000000000000052e-03, 5.000000000000000104e-03, 2.000000000000000042e-02, 2.575000000000000067e-01, 1.250000000000000069e-02, 2.590000000000000213e+01, 2.500000000000000052e-03, 2.500000000000000139e-02, 5.000000000000000104e-03, 2.375000000000000444e-01, 1.090000000000000391e+01, 1.000000000000000178e+01, 3.330000000000000426e+01, 1.000000000000000000e+00, 2.750000000000000361e-02, 2.500000000000000052e-03, 2.500000000000000052e-03, 2.500000000000000052e-03, 5.999999999999999778e-02, 5.000000000000000278e-02, 1.340000000000000213e+01, 5.279999999999999971e-02, 2.500000000000000000e-01, 2.500000000000000052e-03, 5.000000000000000104e-03, 2.675000000000000155e-01, 9.749999999999998945e-02, 3.000000000000000355e+01, 2.500000000000000052e-03, 5.000000000000000104e-03, 1.700000000000000400e-01, 1.109999999999999964e+01, 1.000000000000000178e+01, 3.330000000000000426e+01, 1.000000000000000000e+00, 4.000000000000000083e-02, 2.500000000000000052e-03, 7.500000000000000590e-03, 2.000000000000000111e-01, 5.639999999999999858e+01, 2.500000000000000052e-03, 1.250000000000000069e-02, 1.174999999999999795e-01, 1.424999999999999878e-01, 5.329999999999999716e+01, 1.554999999999999993e-01, 7.500000000000000590e-03, 3.074999999999999956e-01, 1.809999999999999787e+01, 1.350000000000000178e+01, 4.730000000000000426e+01, 1.359999999999999964e+01, 1.000000000000000222e+00, 4.000000000000000083e-02, 2.500000000000000052e-03, 7.500000000000000590e-03, 2.025000000000000133e-01, 5.739999999999999147e+01, 2.500000000000000052e-03, 1.250000000000000069e-02, 1.074999999999999983e-01, 2.269999999999999929e+01, 2.464000000000000079e-01, 7.500000000000000590e-03, 7.500000000000000590e-03, 3.599999999999999867e-01, 2.269999999999999929e+01, 1.419999999999999751e+01, 4.460000000000000142e+01, 9.999999999999997780e-01, 8.499999999999999223e-02, 2.499999999999999618e-03, 7.499999999999997988e-03, 1.875000000000000000e-01, 6.519999999999998863e+01, 7.499999999999997988e-03, 3.999999999999999389e-02, 1.174999999999999933e-01, 2.269999999999999574e+01, 2.417999999999999317e-01, 2.499999999999999618e-03, 7.499999999999997988e-03, 6.059999999999998721e+01, 2.949999999999999289e-01, 3.629999999999999716e+01, 2.200000000000000000e+01, 4.459999999999998721e+01, 5.700000000000000178e+00, 9.999999999999997780e-01, 2.999999999999999889e-02, 2.500000000000000486e-03, 4.600000000000000533e+00, 2.500000000000000486e-03, 5.000000000000000971e-03, 1.000000000000000194e-02, 1.400000000000000178e+01, 5.000000000000000971e-03, 2.000000000000000389e-01, 7.499999999999999722e-02, 1.000000000000000194e-01, 6.799999999999999822e+00, 2.022999999999999798e-01, 5.000000000000000971e-03, 4.540000000000000568e+01, 8.000000000000001554e-02, 2.800000000000000266e-01, 6.400000000000001243e+00, 1.000000000000000000e+01, 3.340000000000000568e+01, 1.000000000000000000e+00, 2.500000000000000139e-02, 2.500000000000000486e-03, 8.199999999999999289e+00, 2.500000000000000486e-03, 2.500000000000000486e-03, 7.000000000000000666e-02, 1.309999999999999964e+01, 1.928999999999999881e-01, 2.999999999999999889e-01, 2.500000000000000486e-03, 2.500000000000000139e-02, 2.275000000000000078e-01, 5.500000000000000722e-02, 5.700000000000001066e+00, 2.500000000000000486e-03, 2.269999999999999929e+01, 9.000000000000001055e-02, 1.489999999999999858e+01, 5.299999999999999822e+00, 2.000000000000000355e+01, 2.299999999999999822e+00, 2.700000000000000622e+00, 1.000000000000000222e+00, 2.500000000000000139e-02, 2.500000000000000486e-03, 8.199999999999999289e+00, 2.500000000000000486e-03, 2.500000000000000486e-03, 5.500000000000000722e-02, 8.199999999999999289e+00, 2.081999999999999962e-01, 2.999999999999999889e-01, 2.500000000000000486e-03, 2.500000000000000139e-02, 2.275000000000000078e-01, 3.500000000000000333e-02, 2.500000000000000486e-03, 2.269999999999999929e+01, 1.100000000000000144e-01, 1.409999999999999964e+01, 5.299999999999999822e+00, 2.000000000000000355e+01, 2.299999999999999822e+00, 1.000000000000000222e+00, 2.500000000000000139e-02, 2.500000000000000486e-03, 8.199999999999999289e+00, 2.500000000000000486e-03, 2.500000000000000486e-03, 5.500000000000000722e-02, 3.600000000000000533e+00, 2.703000000000000402e-01, 2.000000000000000111e-01, 2.500000000000000486e-03, 2.500000000000000139e-02, 2.000000000000000111e-01, 5.500000000000000722e-02, 1.009999999999999964e+01, 1.250000000000000069e-02, 2.500000000000000486e-03, 2.269999999999999929e+01, 1.425000000000000155e-01, 1.959999999999999787e+01, 8.199999999999999289e+00, 2.000000000000000355e+01, 4.500000000000000000e+00, 5.000000000000000888e+00, 1.000000000000000222e+00, 2.500000000000000139e-02, 2.500000000000000486e-03, 8.199999999999999289e+00, 2.500000000000000486e-03, 5.999999999999999084e-02, 1.800000000000000000e+01, 5.027000000000001467e-01, 2.500000000000000486e-03, 2.500000000000000139e-02, 1.499999999999999944e-01, 7.499999999999999722e-02, 3.500000000000000000e+00, 2.999999999999999542e-02, 2.500000000000000486e-03, 2.269999999999999929e+01, 1.199999999999999817e-01, 1.330000000000000249e+01, 7.000000000000000888e+00, 2.000000000000000355e+01, 5.700000000000001066e+00, 5.000000000000000888e+00, 1.000000000000000222e+00, 4.999999999999999584e-02, 2.500000000000000486e-03, 1.249999999999999896e-02, 9.999999999999999167e-02, 3.800000000000000711e+01, 5.000000000000000971e-03, 2.000000000000000389e-02, 2.499999999999999722e-01, 1.685999999999999721e-01, 2.699999999999999734e+00, 1.000000000000000194e-02, 1.000000000000000194e-02, 5.679999999999999005e+01, 3.649999999999999356e-01, 5.909999999999999432e+01, 2.650000000000000000e+01, 8.329999999999999716e+01, 1.129999999999999893e+01, 1.200000000000000178e+01, 1.000000000000000222e+00, 3.749999999999999861e-02, 5.000000000000000104e-03, 1.000000000000000021e-02, 2.500000000000000052e-03, 4.210000000000000142e+01, 2.500000000000000052e-03, 6.500000000000000222e-02, 1.699999999999999845e-01, 2.540000000000000213e+01, 1.000000000000000021e-02, 4.928000000000000158e-01, 3.740000000000000568e+01, 3.500000000000000000e+01, 6.670000000000000284e+01, 6.799999999999998934e+00, 9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+02, 5.000000000000000278e-02, -1.000000000000000000e+00, -5.000000000000000278e-02, 5.000000000000000278e-02, -1.000000000000000000e+00, -5.000000000000000278e-02, -1.000000000000000000e+00, 5.000000000000000278e-02, -1.000000000000000000e+00, -5.000000000000000278e-02, -1.000000000000000000e+00, 5.000000000000000278e-02, -1.000000000000000000e+00, -5.000000000000000278e-02, -1.000000000000000000e+02, -1.000000000000000000e+02, -1.000000000000000284e+02, -1.000000000000000000e+02, -1.000000000000000000e+02, -1.000000000000000000e+02, -1.000000000000000000e+00, -9.999999999999998579e+01, -1.000000000000000000e+02, 2.000000000000000042e-02, 1.450000000000000000e+01, 2.500000000000000052e-03, 2.299999999999999822e+00, 2.500000000000000052e-03, 2.500000000000000052e-03, 2.500000000000000052e-03, 7.510000000000000853e+01, 2.190999999999999615e-01, 2.000000000000000389e-01, 2.500000000000000052e-03, 8.999999999999999667e-02, 1.275000000000000022e-01, 2.000000000000000389e-01, 1.250000000000000243e-02, 2.750000000000000014e-02, 2.500000000000000052e-03, 2.269999999999999574e+01, 8.500000000000000611e-02, 1.090000000000000036e+01, 5.000000000000000000e+00, 1.669999999999999929e+01, 5.299999999999998934e+00, 9.999999999999998890e-01, 2.000000000000000042e-02, 1.449999999999999822e+01, 7.499999999999999722e-03, 2.300000000000000266e+00, 1.174999999999999933e-01, 2.500000000000000052e-03, 2.500000000000000052e-03, 2.230000000000000426e+01, 3.146999999999999797e-01, 1.999999999999999833e-01, 2.500000000000000052e-03, 2.499999999999999792e-02, 2.500000000000000052e-03, 2.500000000000000052e-03, 2.619999999999999929e+01, 1.499999999999999944e-02, 2.500000000000000052e-03, 2.269999999999999929e+01, 2.824999999999999178e-01, 1.080000000000000249e+01, 5.000000000000000000e+00, 1.669999999999999929e+01, 4.500000000000000000e+00, 1.000000000000000222e+00, 2.000000000000000389e-02, 1.450000000000000178e+01, 5.000000000000000971e-03, 2.300000000000000266e+00, 1.275000000000000022e-01, 2.500000000000000486e-03, 2.760000000000000497e+01, 3.293000000000000371e-01, 2.000000000000000111e-01, 2.500000000000000486e-03, 2.000000000000000389e-02, 2.500000000000000486e-03, 5.000000000000000278e-02, 3.720000000000000995e+01, 2.500000000000000486e-03, 2.270000000000000284e+01, 2.349999999999999867e-01, 1.180000000000000071e+01, 7.500000000000000888e+00, 1.670000000000000284e+01, 4.500000000000000888e+00, 1.000000000000000000e+00, 1.750000000000000167e-02, 2.500000000000000486e-03, 2.299999999999999822e+00, 2.500000000000000486e-03, 2.500000000000000486e-03, 2.500000000000000486e-03, 3.114000000000000101e-01, 2.500000000000000486e-03, 1.499999999999999771e-02, 1.000000000000000056e-01, 1.250000000000000069e-02, 2.999999999999999889e-01, 3.749999999999999861e-02, 2.899999999999999911e+00, 1.499999999999999944e-01, 2.500000000000000486e-03, 2.500000000000000486e-03, 2.269999999999999929e+01, 3.749999999999999861e-02, 2.500000000000000444e+00, 5.000000000000000000e+00, 1.669999999999999574e+01, 1.000000000000000222e+00, 2.000000000000000389e-02, 2.500000000000000486e-03, 2.299999999999999822e+00, 1.000000000000000056e-01, 2.500000000000000486e-03, 7.499999999999998855e-03, 6.599999999999999645e+00, 1.112000000000000072e-01, 2.999999999999999889e-01, 2.500000000000000486e-03, 5.000000000000000971e-03, 5.249999999999999806e-02, 2.500000000000000486e-03, 1.024999999999999939e-01, 2.750000000000000361e-02, 1.650000000000000078e-01, 2.500000000000000486e-03, 7.499999999999998855e-03, 2.500000000000000486e-03, 2.269999999999999929e+01, 8.000000000000001554e-02, 5.000000000000000971e-03, 4.899999999999999467e+00, 5.000000000000000000e+00, 1.669999999999999574e+01, 1.000000000000000222e+00, 1.750000000000000167e-02, 2.500000000000000486e-03, 2.299999999999999822e+00, 2.500000000000000555e-01, 2.500000000000000486e-03, 2.500000000000000486e-03, 3.013000000000000678e-01, 2.500000000000000486e-03, 5.000000000000000971e-03, 1.000000000000000056e-01, 2.500000000000000486e-03, 1.499999999999999944e-01, 4.750000000000000056e-02, 1.399999999999999689e+00, 5.750000000000000944e-02, 2.500000000000000486e-03, 2.500000000000000486e-03, 2.269999999999999929e+01, 5.249999999999999806e-02, 5.900000000000000355e+00, 5.000000000000000000e+00, 1.669999999999999574e+01, 1.000000000000000222e+00, 1.999999999999999695e-02, 2.499999999999999618e-03, 2.299999999999999822e+00, 1.275000000000000022e-01, 2.499999999999999618e-03, 3.499999999999999639e-02, 1.499999999999999944e-02, 1.983000000000000040e-01, 2.499999999999999618e-03, 4.999999999999999237e-03, 3.499999999999999639e-02, 2.049999999999999878e-01, 7.499999999999999722e-03, 2.939999999999999858e+01, 2.974999999999999867e-01, 2.499999999999999618e-03, 7.499999999999999722e-03, 2.499999999999999618e-03, 2.270000000000000284e+01, 2.249999999999999570e-02, 9.999999999999998473e-03, 6.999999999999998446e-01, 5.000000000000000888e+00, 1.669999999999999929e+01, 9.999999999999997780e-01, 1.499999999999999771e-02, 2.500000000000000486e-03, 2.299999999999999822e+00, 3.250000000000000111e-02, 2.500000000000000486e-03, 1.499999999999999771e-02, 1.761999999999999955e-01, 2.500000000000000555e-01, 2.500000000000000486e-03, 6.500000000000000222e-02, 2.500000000000000486e-03, 1.180000000000000071e+01, 2.999999999999999889e-01, 2.500000000000000486e-03, 1.250000000000000069e-02, 2.500000000000000486e-03, 2.269999999999999929e+01, 4.750000000000000056e-02, 7.000000000000000666e-02, 2.000000000000000000e+00, 5.000000000000000000e+00, 1.669999999999999574e+01, 1.000000000000000222e+00, 1.999999999999999695e-02, 2.499999999999999618e-03, 2.299999999999999822e+00, 1.275000000000000022e-01, 2.499999999999999618e-03, 3.499999999999999639e-02, 1.499999999999999944e-02, 1.983000000000000040e-01, 2.499999999999999618e-03, 4.999999999999999237e-03, 3.499999999999999639e-02, 2.049999999999999878e-01, 7.499999999999999722e-03, 2.939999999999999858e+01, 2.974999999999999867e-01, 2.499999999999999618e-03, 7.499999999999999722e-03, 2.499999999999999618e-03, 2.270000000000000284e+01, 2.249999999999999570e-02, 9.999999999999998473e-03, 6.999999999999998446e-01, 5.000000000000000888e+00, 1.669999999999999929e+01, 9.999999999999997780e-01, 1.750000000000000167e-02, 2.500000000000000052e-03, 2.299999999999999822e+00, 2.149999999999999689e-01, 2.500000000000000052e-03, 4.250000000000000305e-02, 1.499999999999999771e-02, 3.309000000000000274e-01, 2.500000000000000052e-03, 2.500000000000000052e-03, 2.000000000000000042e-02, 1.000000000000000021e-02, 2.400000000000000000e+01, 2.999999999999999889e-01, 2.500000000000000052e-03, 7.499999999999998855e-03, 2.500000000000000052e-03, 2.269999999999999929e+01, 2.500000000000000139e-02, 1.199999999999999956e+00, 4.999999999999999112e+00, 1.669999999999999929e+01, 1.000000000000000000e+00, 2.000000000000000389e-02, 2.500000000000000486e-03, 2.500000000000000486e-03, 2.500000000000000486e-03, 1.250000000000000069e-02, 4.999999999999999112e+00, 1.710000000000000409e-01, 5.000000000000000971e-03, 2.500000000000000486e-03, 2.250000000000000264e-02, 2.999999999999999889e-01, 8.749999999999999445e-02, 1.300000000000000000e+01, 2.999999999999999889e-01, 2.500000000000000486e-03, 5.000000000000000971e-03, 2.269999999999999929e+01, 6.250000000000001388e-02, 3.699999999999999734e+00, 8.199999999999999289e+00, 1.669999999999999574e+01, 1.000000000000000222e+00, 2.500000000000000139e-02, 5.000000000000000971e-03, 2.299999999999999822e+00, 9.249999999999999889e-02, 2.500000000000000486e-03, 2.750000000000000361e-02, 1.540000000000000036e+01, 1.499999999999999944e-01, 5.000000000000000971e-03, 2.500000000000000486e-03, 1.000000000000000056e-01, 5.750000000000000944e-02, 2.984999999999999876e-01, 2.500000000000000486e-03, 6.500000000000000222e-02, 2.500000000000000486e-03, 2.750000000000000361e-02, 5.000000000000000971e-03, 2.269999999999999929e+01, 1.224999999999999978e-01, 7.499999999999998855e-03, 2.899999999999999911e+00, 6.799999999999999822e+00, 1.669999999999999574e+01, 1.000000000000000222e+00, 2.000000000000000389e-02, 2.500000000000000486e-03, 2.500000000000000555e-01, 2.500000000000000486e-03, 7.499999999999998855e-03, 1.059999999999999964e+01, 5.110000000000000653e-02, 2.500000000000000555e-01, 5.000000000000000971e-03, 2.500000000000000486e-03, 1.000000000000000056e-01, 2.250000000000000264e-02, 9.500000000000000111e-02, 1.899999999999999911e+00, 1.524999999999999967e-01, 2.500000000000000486e-03, 5.000000000000000971e-03, 2.269999999999999929e+01, 2.999999999999999542e-02, 4.000000000000000000e+00, 7.199999999999999289e+00, 1.669999999999999574e+01, 1.000000000000000222e+00, 1.499999999999999771e-02, 2.500000000000000486e-03, 8.199999999999999289e+00, 2.500000000000000486e-03, 2.500000000000000486e-03, 6.500000000000000222e-02, 1.969999999999999929e+01, 2.302000000000000157e-01, 2.999999999999999889e-01, 2.269999999999999929e+01, 5.000000000000000971e-03, 1.000000000000000194e-02, 1.900000000000000022e-01, 4.500000000000000527e-02, 1.980000000000000071e+01, 2.500000000000000486e-03, 2.500000000000000486e-03, 1.250000000000000278e-01, 8.599999999999999645e+00, 5.000000000000000000e+00, 1.669999999999999574e+01, 2.700000000000000622e+00, 1.000000000000000222e+00, 1.500000000000000118e-02, 2.499999999999999618e-03, 8.199999999999999289e+00, 2.499999999999999618e-03, 2.499999999999999618e-03, 5.249999999999999806e-02, 2.769999999999999929e+01, 1.405000000000000138e-01, 2.999999999999999889e-01, 2.270000000000000284e+01, 4.750000000000000056e-02, 3.500000000000000333e-02, 2.999999999999999889e-01, 7.000000000000000666e-02, 2.499999999999999618e-03, 2.499999999999999618e-03, 2.500000000000000139e-02, 8.599999999999999645e+00, 5.000000000000000000e+00, 1.669999999999999929e+01, 2.699999999999999734e+00, 1.000000000000000000e+00, 1.500000000000000118e-02, 2.500000000000000052e-03, 8.199999999999999289e+00, 2.500000000000000052e-03, 2.500000000000000052e-03, 6.500000000000000222e-02, 2.300000000000000000e+01, 2.302000000000000157e-01, 2.999999999999999889e-01, 2.269999999999999929e+01, 5.000000000000000104e-03, 1.000000000000000021e-02, 1.900000000000000300e-01, 4.500000000000000527e-02, 1.980000000000000071e+01, 2.500000000000000052e-03, 2.500000000000000052e-03, 1.250000000000000000e-01, 8.599999999999999645e+00, 5.000000000000000000e+00, 1.670000000000000284e+01, 2.700000000000000178e+00, 1.000000000000000000e+00, 9.999999999999998473e-03, 1.749999999999999820e-02, 2.299999999999999378e+00, 2.499999999999999618e-03, 4.999999999999999584e-02, 7.050000000000000000e+01, 4.709999999999999187e-01, 2.499999999999999618e-03, 7.999999999999998779e-02, 7.249999999999998113e-02, 7.999999999999998779e-02, 8.299999999999998351e-03, 2.249999999999999917e-02, 9.000000000000000222e-01, 2.499999999999999618e-03, 2.269999999999999929e+01, 1.775000000000000189e-01, 2.519999999999999929e+01, 5.000000000000000000e+00, 1.669999999999999929e+01, 1.099999999999999867e+00, 2.299999999999999378e+00, 9.999999999999998890e-01, 1.000000000000000021e-02, 2.500000000000000486e-02, 2.299999999999999822e+00, 2.500000000000000052e-03, 5.000000000000000971e-02, 5.309999999999999432e+01, 5.385999999999999677e-01, 2.500000000000000052e-03, 2.999999999999999542e-02, 2.000000000000000042e-02, 8.300000000000000086e-03, 4.750000000000000056e-02, 1.060000000000000142e+01, 9.000000000000000222e-01, 2.500000000000000052e-03, 2.269999999999999929e+01, 2.600000000000000089e-01, 2.510000000000000497e+01, 6.299999999999998934e+00, 1.669999999999999929e+01, 1.100000000000000311e+00, 9.999999999999997780e-01, 1.000000000000000021e-02, 2.269999999999999929e+01, 2.750000000000000361e-02, 2.299999999999999822e+00, 2.500000000000000052e-03, 5.000000000000000278e-02, 6.310000000000000142e+01, 4.348000000000000753e-01, 1.000000000000000056e-01, 2.500000000000000052e-03, 3.000000000000000236e-02, 3.500000000000001027e-02, 8.300000000000000086e-03, 4.750000000000000056e-02, 3.550000000000000000e+01, 9.000000000000001332e-01, 2.500000000000000052e-03, 2.269999999999999929e+01, 2.450000000000000233e-01, 2.550000000000000000e+01, 6.000000000000000000e+00, 1.670000000000000284e+01, 1.100000000000000089e+00, 2.299999999999999822e+00, 9.999999999999997780e-01, 9.999999999999998473e-03, 2.249999999999999917e-02, 2.299999999999999822e+00, 2.499999999999999618e-03, 4.999999999999999584e-02, 8.099999999999998579e+01, 4.558999999999999719e-01, 7.249999999999999500e-02, 2.499999999999999618e-03, 9.500000000000000111e-02, 7.000000000000000666e-02, 9.999999999999999167e-02, 8.300000000000000086e-03, 1.499999999999999771e-02, 9.000000000000000222e-01, 2.499999999999999618e-03, 2.269999999999999574e+01, 8.999999999999999667e-02, 2.049999999999999289e+01, 5.000000000000000000e+00, 1.669999999999999574e+01, 2.299999999999999822e+00, 9.999999999999997780e-01, 1.000000000000000194e-02, 2.500000000000000486e-02, 2.299999999999999378e+00, 2.500000000000000486e-03, 5.000000000000000971e-02, 6.859999999999999432e+01, 5.806000000000000050e-01, 2.500000000000000486e-03, 2.000000000000000389e-02, 5.000000000000000971e-02, 8.300000000000000086e-03, 5.249999999999999112e-02, 2.430000000000000071e+01, 9.000000000000000222e-01, 2.500000000000000486e-03, 2.269999999999999929e+01, 1.924999999999999767e-01, 1.999999999999999645e+01, 5.799999999999999822e+00, 1.669999999999999929e+01, 2.299999999999999378e+00, 1.000000000000000000e+00, 1.499999999999999944e-02, 2.499999999999999792e-02, 2.299999999999999822e+00, 2.500000000000000052e-03, 4.999999999999999584e-02, 8.030000000000001137e+01, 5.032999999999999696e-01, 9.999999999999999167e-02, 2.500000000000000052e-03, 6.250000000000000000e-02, 5.750000000000000944e-02, 8.299999999999998351e-03, 3.250000000000000111e-02, 5.799999999999998934e+00, 8.999999999999999112e-01, 2.500000000000000052e-03, 2.269999999999999929e+01, 1.349999999999999811e-01, 2.039999999999999858e+01, 4.999999999999999112e+00, 1.669999999999999929e+01, 2.299999999999999822e+00, 1.000000000000000000e+00, 1.499999999999999944e-02, 2.269999999999999574e+01, 9.999999999999998473e-03, 2.299999999999999822e+00, 2.499999999999999618e-03, 2.499999999999999618e-03, 2.499999999999999618e-03, 5.000000000000000971e-02, 3.009999999999999787e+01, 6.314999999999999503e-01, 7.000000000000000666e-02, 2.499999999999999618e-03, 2.500000000000000486e-02, 3.250000000000000111e-02, 2.750000000000000014e-02, 8.300000000000000086e-03, 2.499999999999999618e-03, 1.509999999999999609e+01, 9.999999999999998473e-03, 2.499999999999999618e-03, 2.269999999999999574e+01, 1.024999999999999939e-01, 7.499999999999998224e+00, 5.000000000000000888e+00, 1.669999999999999574e+01, 2.299999999999999822e+00, 1.000000000000000000e+00, 1.000000000000000021e-02, 2.269999999999999796e-01, 1.250000000000000069e-02, 2.299999999999999378e+00, 2.500000000000000052e-03, 2.500000000000000052e-03, 1.000000000000000021e-02, 5.000000000000000278e-02, 3.100000000000000355e+01, 7.214000000000000412e-01, 2.500000000000000052e-03, 2.999999999999999889e-02, 8.300000000000000086e-03, 3.500000000000001027e-02, 2.039999999999999858e+01, 5.000000000000000104e-03, 2.500000000000000052e-03, 2.269999999999999929e+01, 1.049999999999999822e-01, 7.799999999999999822e+00, 5.000000000000000888e+00, 1.669999999999999574e+01, 1.000000000000000000e+00, 1.499999999999999944e-02, 2.269999999999999929e+01, 1.000000000000000194e-02, 2.300000000000000266e+00, 2.500000000000000486e-03, 2.500000000000000486e-03, 2.500000000000000486e-03, 5.000000000000000278e-02, 3.030000000000000071e+01, 6.662000000000000144e-01, 5.249999999999999806e-02, 2.500000000000000486e-03, 3.250000000000000805e-02, 8.300000000000000086e-03, 2.000000000000000389e-02, 2.760000000000000497e+01, 7.499999999999999722e-03, 2.500000000000000486e-03, 2.269999999999999929e+01, 1.225000000000000117e-01, 7.500000000000000000e+00, 5.000000000000000000e+00, 1.669999999999999929e+01, 2.300000000000000266e+00, 9.999999999999998890e-01, 2.500000000000000486e-03, 2.270000000000000284e+01, 2.249999999999999917e-02, 2.299999999999999822e+00, 2.500000000000000486e-03, 2.500000000000000486e-03, 5.000000000000000971e-03, 5.000000000000000278e-02, 9.799999999999998934e+00, 1.389000000000000234e-01, 2.500000000000000486e-03, 5.000000000000000971e-03, 2.500000000000000486e-03, 1.600000000000000311e-01, 4.000000000000000777e-02, 3.850000000000000711e+01, 2.500000000000000486e-03, 4.500000000000000111e-01, 2.500000000000000486e-03, 3.299999999999999982e-03, 2.270000000000000284e+01, 1.049999999999999822e-01, 8.800000000000002487e+00, 6.500000000000000000e+00, 1.670000000000000284e+01, 1.000000000000000000e+00, 1.000000000000000194e-02, 2.270000000000000284e+01, 1.250000000000000069e-02, 2.299999999999999822e+00, 2.500000000000000486e-03, 2.500000000000000486e-03, 5.000000000000000278e-02, 4.390000000000001279e+01, 5.007000000000000339e-01, 2.500000000000000139e-02, 5.000000000000000971e-03, 5.750000000000000944e-02, 2.999999999999999889e-02, 1.000000000000000056e-01, 8.300000000000000086e-03, 5.000000000000000278e-02, 2.059999999999999787e+01, 5.000000000000000971e-03, 2.270000000000000284e+01, 1.375000000000000111e-01, 1.780000000000000071e+01, 6.000000000000000000e+00, 1.670000000000000284e+01, 5.000000000000000000e+00, 1.000000000000000222e+00, 1.000000000000000021e-02, 2.269999999999999796e-01, 2.000000000000000042e-02, 2.299999999999999822e+00, 2.500000000000000139e-02, 2.500000000000000052e-03, 5.000000000000000104e-03, 5.000000000000000278e-02, 4.239999999999999858e+01, 5.506999999999999673e-01, 5.000000000000000104e-03, 2.000000000000000042e-02, 2.999999999999999542e-02, 8.299999999999998351e-03, 5.000000000000000104e-03, 2.669999999999999218e+01, 2.000000000000000042e-02, 5.000000000000000104e-03, 2.269999999999999218e+01, 2.399999999999999634e-01, 1.789999999999999858e+01, 5.599999999999998757e+00, 1.669999999999999574e+01, 1.000000000000000222e+00, 1.000000000000000021e-02, 2.269999999999999574e+01, 1.250000000000000069e-02, 2.299999999999999822e+00, 2.500000000000000052e-03, 2.500000000000000052e-03, 2.500000000000000052e-03, 5.000000000000000278e-02, 3.760000000000000853e+01, 5.728999999999999648e-01, 4.500000000000000527e-02, 5.000000000000000104e-03, 2.000000000000000042e-02, 8.300000000000000086e-03, 6.250000000000000000e-02, 4.120000000000000284e+01, 5.000000000000000104e-03, 2.269999999999999574e+01, 1.974999999999999811e-01, 1.780000000000000071e+01, 7.000000000000000000e+00, 1.669999999999999929e+01, 5.000000000000000000e+00, 1.000000000000000222e+00, 1.000000000000000021e-02, 2.269999999999999929e+01, 2.269999999999999929e+01, 2.000000000000000042e-02, 9.069999999999998863e+01, 2.500000000000000052e-03, 4.999999999999999584e-02, 9.999999999999998579e+01, 6.799999999999998579e+01, 5.662999999999999146e-01, 2.500000000000000052e-03, 2.499999999999999792e-02, 9.499999999999998723e-02, 2.999999999999999889e-02, 3.799999999999998934e+00, 9.999999999999998890e-01, 2.500000000000000052e-03, 2.269999999999999929e+01, 1.874999999999999722e-01, 2.250000000000000000e+01, 5.699999999999999289e+00, 3.339999999999999147e+01, 1.000000000000000000e+00, 2.000000000000000389e-02, 7.500000000000000590e-03, 2.500000000000000486e-03, 2.500000000000000486e-03, 1.750000000000000167e-02, 6.970000000000000284e+01, 2.615999999999999992e-01, 2.500000000000000486e-03, 5.000000000000000971e-03, 9.500000000000000111e-02, 1.499999999999999944e-01, 2.750000000000000708e-02, 2.225000000000000311e-01, 2.500000000000000486e-02, 5.000000000000000971e-03, 1.250000000000000243e-02, 4.000000000000000083e-03, 5.000000000000000971e-03, 1.325000000000000067e-01, 5.700000000000001066e+00, 1.100000000000000089e+00, 8.500000000000000000e+00, 1.000000000000000000e+00, 2.249999999999999917e-02, 4.999999999999999237e-03, 9.070000000000000284e+01, 2.499999999999999618e-03, 4.999999999999999237e-03, 5.000000000000000971e-02, 1.067999999999999829e+02, 3.400000000000000000e+01, 2.530000000000000027e-01, 2.499999999999999618e-03, 9.999999999999998473e-03, 7.499999999999999722e-02, 2.000000000000000389e-01, 2.249999999999999917e-02, 2.049999999999999878e-01, 2.499999999999999618e-03, 2.499999999999999618e-03, 2.269999999999999929e+01, 1.350000000000000089e-01, 1.680000000000000071e+01, 7.600000000000000533e+00, 3.330000000000000426e+01, 4.500000000000000888e+00, 9.999999999999998890e-01, 2.500000000000000139e-02, 5.000000000000000104e-03, 9.070000000000000284e+01, 2.500000000000000052e-03, 2.500000000000000052e-03, 8.609999999999998010e+01, 6.800000000000001421e+01, 4.224999999999999867e-01, 2.500000000000000052e-03, 1.000000000000000021e-02, 2.500000000000000052e-03, 1.000000000000000021e-02, 1.010000000000000142e+01, 2.700000000000000178e-01, 2.500000000000000052e-03, 2.500000000000000052e-03, 2.500000000000000052e-03, 2.270000000000000284e+01, 2.000000000000000111e-01, 3.250000000000000805e-02, 1.550000000000000000e+01, 9.500000000000000000e+00, 3.340000000000000568e+01, 4.500000000000000888e+00, 1.000000000000000222e+00, 1.250000000000000243e-02, 4.749999999999999362e-02, 6.799999999999998934e+00, 7.499999999999999722e-03, 2.500000000000000052e-03, 1.778000000000000114e+02, 7.499999999999999722e-03, 7.000000000000000666e-02, 1.874999999999999722e-01, 1.575000000000000011e-01, 5.999999999999999778e-02, 7.499999999999999722e-03, 5.670000000000000284e+01, 4.324999999999999956e-01, 3.260000000000000142e+01, 5.700000000000000178e+00, 5.670000000000000284e+01, 3.199999999999999734e+00, 1.000000000000000222e+00, 1.250000000000000069e-02, 5.249999999999999806e-02, 6.799999999999999822e+00, 7.499999999999998855e-03, 1.499999999999999771e-02, 1.420999999999999943e+02, 7.499999999999998855e-03, 4.000000000000000083e-02, 1.025000000000000078e-01, 1.275000000000000022e-01, 2.530000000000000426e+01, 5.020000000000000157e-02, 2.500000000000000052e-03, 7.499999999999998855e-03, 5.670000000000000284e+01, 5.675000000000001155e-01, 3.280000000000000426e+01, 6.100000000000000533e+00, 5.670000000000000284e+01, 3.199999999999999734e+00, 1.000000000000000000e+00, 1.250000000000000069e-02, 5.249999999999999806e-02, 6.799999999999999822e+00, 7.499999999999998855e-03, 1.250000000000000069e-02, 1.244000000000000057e+02, 7.499999999999998855e-03, 4.000000000000000083e-02, 6.500000000000000222e-02, 1.325000000000000067e-01, 3.190000000000000568e+01, 6.550000000000000266e-02, 7.499999999999998855e-03, 5.670000000000000284e+01, 5.899999999999999689e-01, 3.239999999999999858e+01, 7.600000000000000533e+00, 5.670000000000000284e+01, 3.200000000000000178e+00, 9.999999999999998890e-01, 3.750000000000000555e-02, 2.500000000000000052e-03, 1.130000000000000249e+01, 1.500000000000000118e-02, 9.000000000000001055e-02, 5.200000000000000711e+01, 5.000000000000000104e-03, 4.750000000000000749e-02, 2.500000000000000052e-03, 2.375000000000000167e-01, 2.000000000000000111e-01, 2.700000000000000178e+00, 1.500000000000000118e-02, 9.070000000000000284e+01, 3.400000000000000799e-01, 5.890000000000000568e+01, 2.380000000000000071e+01, 8.330000000000001137e+01, 9.099999999999999645e+00, 6.400000000000000355e+00, 1.000000000000000222e+00, 3.749999999999999861e-02, 5.000000000000000104e-03, 1.000000000000000021e-02, 2.024999999999999856e-01, 4.210000000000000142e+01, 2.500000000000000052e-03, 6.500000000000000222e-02, 1.699999999999999845e-01, 2.540000000000000213e+01, 1.000000000000000021e-02, 4.928000000000000158e-01, 3.740000000000000568e+01, 3.500000000000000000e+01, 6.670000000000000284e+01, 6.799999999999998934e+00, 9.999999999999997780e-01, 4.000000000000000083e-02, 5.000000000000000104e-03, 1.000000000000000021e-02, 1.850000000000000255e-01, 1.199000000000000199e+02, 2.500000000000000052e-03, 2.750000000000000014e-02, 2.000000000000000042e-02, 2.425000000000000488e-01, 5.350000000000000000e+01, 5.000000000000000104e-03, 1.000000000000000021e-02, 4.451000000000000512e-01, 4.830000000000000426e+01, 4.770000000000000284e+01, 6.670000000000001705e+01, 1.000000000000000000e+00, 7.499999999999999722e-02, 7.500000000000000000e-01, 1.749999999999999889e-01, 1.000000000000000000e+00, 5.000000000000000278e-02, 7.499999999999999722e-02, 5.649999999999999467e-01, 2.500000000000000139e-02, 8.999999999999999667e-02, 1.499999999999999944e-01, 5.000000000000000104e-03, 4.000000000000000083e-02, 1.000000000000000000e+00, 2.749999999999999667e-02, 7.500000000000000590e-03, 2.299999999999999822e+00, 5.000000000000000104e-03, 9.190000000000000568e+01, 3.798000000000000820e-01, 2.500000000000000052e-03, 2.499999999999999792e-02, 5.499999999999999334e-02, 2.249999999999999917e-02, 3.199999999999999645e+01, 9.500000000000000111e-02, 2.500000000000000052e-03, 8.999999999999999112e-01, 1.500000000000000118e-02, 2.500000000000000052e-03, 2.269999999999999929e+01, 3.499999999999999778e-01, 2.240000000000000213e+01, 8.199999999999999289e+00, 3.329999999999999005e+01, 1.590000000000000213e+01, 5.000000000000000104e-03, 5.700000000000001066e+00, 1.000000000000000000e+00, 2.749999999999999667e-02, 5.000000000000000104e-03, 2.299999999999999378e+00, 5.000000000000000104e-03, 1.012000000000000171e+02, 3.778000000000000247e-01, 2.500000000000000052e-03, 8.500000000000000611e-02, 2.500000000000000139e-02, 7.749999999999999944e-02, 2.500000000000000139e-02, 1.000000000000000056e-01, 2.500000000000000052e-03, 8.999999999999998002e-01, 5.000000000000000104e-03, 2.500000000000000052e-03, 2.269999999999999574e+01, 2.500000000000000000e-01, 2.209999999999999787e+01, 8.199999999999999289e+00, 3.329999999999999005e+01, 1.589999999999999858e+01, 5.000000000000000104e-03, 5.699999999999999289e+00, 1.000000000000000000e+00, 2.749999999999999667e-02, 7.500000000000000590e-03, 2.299999999999999822e+00, 5.000000000000000104e-03, 9.190000000000000568e+01, 3.798000000000000820e-01, 2.500000000000000052e-03, 2.499999999999999792e-02, 5.499999999999999334e-02, 2.249999999999999917e-02, 3.199999999999999645e+01, 9.500000000000000111e-02, 2.500000000000000052e-03, 8.999999999999999112e-01, 1.500000000000000118e-02, 2.500000000000000052e-03, 2.269999999999999929e+01, 3.499999999999999778e-01, 2.240000000000000213e+01, 8.199999999999999289e+00, 3.329999999999999005e+01, 1.590000000000000213e+01, 5.000000000000000104e-03, 5.700000000000001066e+00, 1.000000000000000000e+00, 2.000000000000000389e-02, 5.000000000000000971e-03, 2.300000000000000266e+00, 2.500000000000000486e-03, 5.000000000000000971e-03, 5.000000000000000278e-02, 7.670000000000000284e+01, 4.188999999999999946e-01, 6.250000000000000000e-02, 2.500000000000000486e-03, 3.250000000000000111e-02, 3.250000000000000111e-02, 1.499999999999999944e-01, 5.999999999999999084e-02, 2.500000000000000486e-03, 5.000000000000000971e-03, 2.269999999999999929e+01, 1.474999999999999645e-01, 1.309999999999999964e+01, 8.199999999999997513e+00, 2.500000000000000000e+01, 9.100000000000001421e+00, 5.700000000000000178e+00, 9.999999999999998890e-01, 2.000000000000000389e-02, 7.499999999999999722e-03, 2.299999999999999822e+00, 5.000000000000000278e-02, 5.000000000000000971e-03, 2.500000000000000486e-03, 5.000000000000000278e-02, 7.130000000000001137e+01, 4.592999999999999861e-01, 1.000000000000000056e-01, 2.500000000000000486e-03, 2.500000000000000139e-02, 7.499999999999999722e-03, 2.750000000000000361e-02, 5.000000000000000971e-03, 2.500000000000000486e-03, 1.499999999999999944e-02, 5.000000000000000971e-03, 2.269999999999999929e+01, 2.124999999999999944e-01, 1.290000000000000036e+01, 5.900000000000001243e+00, 2.499999999999999645e+01, 4.500000000000000888e+00, 1.000000000000000222e+00, 2.000000000000000389e-02, 5.000000000000000971e-03, 2.299999999999999822e+00, 5.750000000000000250e-02, 5.000000000000000971e-03, 5.000000000000000971e-02, 6.910000000000000853e+01, 4.788999999999999924e-01, 1.000000000000000194e-01, 2.500000000000000486e-03, 2.000000000000000389e-02, 2.500000000000000486e-03, 6.749999999999999056e-02, 9.099999999999997868e+00, 2.500000000000000486e-03, 5.000000000000000971e-03, 2.269999999999999574e+01, 1.799999999999999933e-01, 1.350000000000000178e+01, 8.199999999999997513e+00, 2.500000000000000000e+01, 9.099999999999997868e+00, 5.699999999999999289e+00, 9.999999999999998890e-01, 2.750000000000000361e-02, 2.500000000000000486e-03, 2.299999999999999822e+00, 2.500000000000000486e-03, 2.500000000000000486e-03, 5.000000000000000971e-03, 5.000000000000000278e-02, 5.850000000000000711e+01, 4.047000000000000597e-01, 2.000000000000000111e-01, 2.500000000000000486e-03, 5.000000000000000278e-02, 4.000000000000000777e-02, 2.500000000000000486e-03, 2.500000000000000486e-03, 1.750000000000000167e-02, 2.500000000000000486e-03, 2.270000000000000639e+01, 1.850000000000000255e-01, 9.099999999999999645e+00, 8.200000000000001066e+00, 2.899999999999999911e+00, 1.670000000000000284e+01, 5.700000000000001066e+00, 1.000000000000000000e+00, 2.750000000000000361e-02, 2.500000000000000486e-03, 2.299999999999999822e+00, 2.500000000000000486e-03, 2.500000000000000486e-03, 2.500000000000000486e-03, 5.000000000000000278e-02, 5.950000000000000711e+01, 2.772000000000000020e-01, 2.000000000000000111e-01, 2.500000000000000486e-03, 3.749999999999999861e-02, 5.999999999999999778e-02, 2.000000000000000111e-01, 4.000000000000000777e-02, 2.500000000000000486e-03, 2.500000000000000486e-03, 2.500000000000000486e-03, 2.269999999999999929e+01, 8.500000000000000611e-02, 9.800000000000000711e+00, 8.199999999999999289e+00, 1.669999999999999929e+01, 5.700000000000001066e+00, 9.999999999999998890e-01, 2.750000000000000361e-02, 2.500000000000000486e-03, 2.299999999999999822e+00, 2.500000000000000486e-03, 2.500000000000000486e-03, 5.000000000000000971e-03, 5.000000000000000278e-02, 5.850000000000000711e+01, 4.047000000000000597e-01, 2.000000000000000111e-01, 2.500000000000000486e-03, 5.000000000000000278e-02, 4.000000000000000777e-02, 2.500000000000000486e-03, 2.500000000000000486e-03, 1.750000000000000167e-02, 2.500000000000000486e-03, 2.270000000000000639e+01, 1.850000000000000255e-01, 9.099999999999999645e+00, 8.200000000000001066e+00, 2.899999999999999911e+00, 1.670000000000000284e+01, 5.700000000000001066e+00, 1.000000000000000000e+00, 2.750000000000000014e-02, 2.500000000000000052e-03, 2.299999999999999822e+00, 2.500000000000000052e-03, 2.500000000000000052e-03, 2.500000000000000052e-03, 4.999999999999999584e-02, 6.260000000000001563e+01, 4.321999999999999731e-01, 1.999999999999999833e-01, 2.500000000000000052e-03, 4.750000000000000056e-02, 5.999999999999999778e-02, 2.999999999999999889e-02, 2.500000000000000052e-03, 2.500000000000000052e-03, 2.270000000000000284e+01, 1.325000000000000067e-01, 9.300000000000000711e+00, 8.199999999999999289e+00, 1.669999999999999929e+01, 5.700000000000001066e+00, 9.999999999999998890e-01, 3.750000000000000555e-02, 5.000000000000000971e-03, 2.500000000000000486e-03, 5.000000000000000971e-03, 2.999999999999999889e-02, 5.000000000000000971e-02, 6.420000000000000284e+01, 4.055000000000001381e-01, 1.000000000000000194e-01, 2.500000000000000486e-03, 4.000000000000000777e-02, 1.000000000000000194e-02, 9.599999999999999645e+00, 7.000000000000000666e-02, 2.500000000000000486e-03, 9.000000000000001332e-01, 1.499999999999999944e-02, 5.000000000000000971e-03, 2.270000000000000284e+01, 2.150000000000000522e-01, 2.200000000000000711e+01, 1.230000000000000426e+01, 5.000000000000000000e+01, 1.810000000000000142e+01, 5.700000000000001066e+00, 1.000000000000000222e+00, 4.000000000000000083e-02, 5.000000000000000104e-03, 2.500000000000000052e-03, 5.000000000000000104e-03, 3.250000000000000111e-02, 6.310000000000000142e+01, 5.336000000000000743e-01, 2.500000000000000052e-03, 5.000000000000000278e-02, 2.500000000000000052e-03, 6.400000000000000355e+00, 9.000000000000001055e-02, 1.000000000000000021e-02, 1.000000000000000000e+00, 1.500000000000000118e-02, 5.000000000000000104e-03, 2.269999999999999929e+01, 2.025000000000000133e-01, 2.080000000000000071e+01, 8.199999999999999289e+00, 3.329999999999999716e+01, 1.810000000000000497e+01, 1.400000000000000133e+00, 9.999999999999998890e-01, 2.000000000000000042e-02, 2.500000000000000052e-03, 2.299999999999998934e+00, 2.500000000000000052e-03, 2.500000000000000052e-03, 9.999999999999999167e-02, 6.139999999999999858e+01, 3.567999999999999505e-01, 3.449999999999998623e-01, 2.269999999999999574e+01, 3.749999999999999167e-02, 5.749999999999999556e-02, 7.399999999999998579e+00, 5.000000000000000104e-03, 2.269999999999999574e+01, 6.750000000000000444e-02, 8.799999999999998934e+00, 4.999999999999999112e+00, 1.669999999999999574e+01, 9.999999999999997780e-01, 1.999999999999999695e-02, 4.999999999999999237e-03, 2.299999999999999822e+00, 2.499999999999999618e-03, 2.499999999999999618e-03, 5.000000000000000278e-02, 5.289999999999999858e+01, 7.094999999999999085e-01, 2.269999999999999929e+01, 4.499999999999999140e-02, 2.500000000000000139e-02, 4.250000000000000305e-02, 6.200000000000001066e+00, 4.999999999999999237e-03, 4.999999999999999237e-03, 2.269999999999999929e+01, 8.500000000000000611e-02, 8.500000000000000000e+00, 2.699999999999999734e+00, 1.670000000000000284e+01, 1.000000000000000000e+00, 2.000000000000000042e-02, 2.500000000000000052e-03, 2.299999999999998934e+00, 2.500000000000000052e-03, 2.500000000000000052e-03, 9.999999999999999167e-02, 6.139999999999999858e+01, 3.567999999999999505e-01, 3.449999999999998623e-01, 2.269999999999999574e+01, 3.749999999999999167e-02, 5.749999999999999556e-02, 7.399999999999998579e+00, 5.000000000000000104e-03, 2.269999999999999574e+01, 6.750000000000000444e-02, 8.799999999999998934e+00, 4.999999999999999112e+00, 1.669999999999999574e+01, 9.999999999999997780e-01, 2.999999999999999889e-02, 5.000000000000000104e-03, 1.150000000000000000e+01, 1.000000000000000021e-02, 2.500000000000000139e-02, 2.948000000000000114e+02, 7.499999999999999722e-03, 2.000000000000000042e-02, 2.999999999999999889e-02, 1.900000000000000022e-01, 3.660000000000000142e+01, 1.791999999999999982e-01, 1.499999999999999944e-02, 6.570000000000000284e+01, 4.749999999999999778e-01, 4.350000000000000000e+01, 1.730000000000000071e+01, 1.000000000000000000e+02, 1.140000000000000213e+01, 2.270000000000000284e+01, 9.999999999999998890e-01, 2.500000000000000139e-02, 2.500000000000000139e-02, 5.000000000000000104e-03, 5.500000000000000722e-02, 5.000000000000000278e-02, 2.320000000000000284e+01, 3.290000000000000702e-01, 3.410000000000000853e+01, 1.500000000000000118e-02, 8.500000000000001998e-02, 1.000000000000000056e-01, 2.500000000000000052e-03, 1.130000000000000071e+01, 1.575000000000000011e-01, 2.500000000000000052e-03, 1.750000000000000167e-02, 2.500000000000000052e-03, 1.250000000000000278e-01, 1.090000000000000213e+01, 2.280000000000000071e+01, 2.500000000000000355e+01, 5.700000000000000178e+00, 2.700000000000000622e+00, 1.000000000000000222e+00, 2.500000000000000833e-02, 5.000000000000000971e-03, 5.000000000000000971e-03, 4.499999999999999833e-02, 5.000000000000001665e-02, 3.540000000000000568e+01, 3.734000000000000097e-01, 3.410000000000000142e+01, 1.500000000000000118e-02, 5.000000000000000971e-03, 4.250000000000000999e-02, 6.000000000000000472e-02, 2.539999999999999858e+01, 2.999999999999999334e-01, 2.500000000000000486e-03, 2.500000000000000486e-03, 6.500000000000000222e-02, 1.069999999999999929e+01, 2.319999999999999929e+01, 2.509999999999999787e+01, 5.700000000000001954e+00, 2.700000000000000178e+00, 1.000000000000000000e+00, 2.500000000000000139e-02, 6.250000000000001388e-02, 5.000000000000000104e-03, 5.000000000000000278e-02, 5.000000000000000278e-02, 3.639999999999999858e+01, 3.860999999999999432e-01, 3.409999999999999432e+01, 1.499999999999999771e-02, 2.500000000000000139e-02, 6.250000000000001388e-02, 1.619999999999999574e+01, 2.474999999999999700e-01, 2.500000000000000052e-03, 2.500000000000000052e-03, 6.250000000000001388e-02, 1.079999999999999893e+01, 2.330000000000000071e+01, 2.499999999999999645e+01, 5.700000000000001066e+00, 2.699999999999999734e+00, 1.000000000000000000e+00, 5.000000000000000971e-03, 7.499999999999998855e-03, 2.500000000000000139e-02, 5.000000000000000971e-03, 1.000000000000000056e-01, 3.167000000000000370e-01, 1.300000000000000044e-01, 2.269999999999999929e+01, 1.000000000000000194e-02, 2.000000000000000389e-02, 1.000000000000000056e-01, 8.300000000000000086e-03, 6.500000000000000222e-02, 2.000000000000000389e-02, 2.500000000000000486e-03, 2.269999999999999929e+01, 1.825000000000000233e-01, 2.269999999999999929e+01, 1.440000000000000036e+01, 1.180000000000000249e+01, 1.669999999999999574e+01, 2.700000000000000622e+00, 1.000000000000000222e+00, 1.000000000000000194e-02, 5.000000000000000971e-03, 2.500000000000000139e-02, 5.000000000000000971e-03, 1.000000000000000056e-01, 3.492999999999999994e-01, 1.975000000000000366e-01, 2.269999999999999929e+01, 1.000000000000000194e-02, 8.300000000000000086e-03, 7.499999999999999722e-02, 2.500000000000000139e-02, 2.500000000000000486e-03, 2.269999999999999929e+01, 1.849999999999999978e-01, 2.269999999999999929e+01, 1.420000000000000107e+01, 1.059999999999999964e+01, 1.669999999999999574e+01, 1.000000000000000222e+00, 2.000000000000000042e-02, 2.500000000000000139e-02, 2.500000000000000052e-03, 1.250000000000000069e-02, 2.459999999999999787e+01, 4.726999999999999535e-01, 1.000000000000000021e-02, 1.750000000000000167e-02, 4.750000000000000056e-02, 3.129999999999999716e+01, 3.499999999999999778e-01, 2.500000000000000052e-03, 2.500000000000000052e-03, 3.500000000000000333e-02, 2.269999999999999574e+01, 4.700000000000000178e+00, 1.669999999999999929e+01, 5.699999999999999289e+00, 1.000000000000000000e+00, 2.000000000000000042e-02, 2.500000000000000139e-02, 2.500000000000000052e-03, 1.499999999999999944e-02, 1.450000000000000000e+01, 5.189000000000000279e-01, 1.000000000000000021e-02, 1.000000000000000056e-01, 1.499999999999999944e-02, 2.500000000000000052e-03, 2.224999999999999756e-01, 2.500000000000000052e-03, 1.499999999999999944e-02, 2.500000000000000052e-03, 4.749999999999998668e-02, 1.739999999999999503e+01, 3.299999999999998934e+00, 1.669999999999999929e+01, 1.000000000000000000e+00, 2.500000000000000139e-02, 2.999999999999999889e-01, 2.500000000000000486e-03, 1.499999999999999771e-02, 2.310000000000000386e-01, 1.000000000000000194e-02, 1.499999999999999771e-02, 2.999999999999999542e-02, 1.939999999999999858e+01, 3.499999999999999778e-01, 2.500000000000000486e-03, 7.499999999999998855e-03, 2.500000000000000486e-03, 7.499999999999998855e-03, 2.269999999999999929e+01, 4.200000000000001066e+00, 1.669999999999999574e+01, 5.700000000000001066e+00, 1.000000000000000000e+00, 5.000000000000000971e-03, 5.000000000000000971e-03, 2.500000000000000486e-03, 5.000000000000000278e-02, 3.036000000000000365e-01, 2.625000000000000111e-01, 2.269999999999999929e+01, 2.500000000000000486e-03, 1.250000000000000069e-02, 1.000000000000000056e-01, 1.670000000000000304e-02, 7.249999999999999500e-02, 2.500000000000000139e-02, 2.500000000000000486e-03, 2.269999999999999929e+01, 1.375000000000000111e-01, 2.269999999999999929e+01, 2.999999999999999556e+00, 9.000000000000000000e+00, 1.669999999999999574e+01, 2.700000000000000622e+00, 1.000000000000000222e+00, 5.000000000000000971e-03, 2.500000000000000139e-02, 2.500000000000000486e-03, 1.000000000000000056e-01, 3.562000000000000721e-01, 2.250000000000000056e-01, 2.269999999999999929e+01, 2.500000000000000486e-03, 1.670000000000000304e-02, 2.250000000000000264e-02, 2.500000000000000139e-02, 1.499999999999999771e-02, 2.500000000000000486e-03, 2.269999999999999929e+01, 2.000000000000000111e-01, 2.269999999999999929e+01, 2.999999999999999556e+00, 8.800000000000000711e+00, 1.669999999999999574e+01, 1.000000000000000222e+00, 1.000000000000000194e-02, 2.500000000000000486e-03, 2.249999999999999917e-02, 1.000000000000000056e-01, 2.500000000000000486e-03, 2.000000000000000389e-02, 2.500000000000000486e-03, 8.999999999999999667e-02, 5.000000000000000971e-03, 1.100000000000000006e-01, 1.000000000000000194e-02, 2.500000000000000486e-03, 5.302000000000000046e-01, 5.999999999999999778e-02, 2.500000000000000486e-03, 1.669999999999999957e-02, 1.000000000000000194e-02, 2.500000000000000486e-03, 5.700000000000000178e+00, 1.669999999999999929e+01, 3.399999999999999911e+00, 1.000000000000000000e+00, 1.499999999999999944e-02, 2.500000000000000486e-03, 1.499999999999999944e-02, 7.000000000000000666e-02, 2.099999999999999922e-01, 8.000000000000001554e-02, 5.000000000000000971e-03, 1.000000000000000194e-02, 2.000000000000000389e-02, 5.000000000000000971e-03, 2.601999999999999869e-01, 7.000000000000000666e-02, 1.300000000000000044e-01, 1.669999999999999957e-02, 1.000000000000000194e-02, 8.000000000000001554e-02, 5.700000000000000178e+00, 1.669999999999999929e+01, 3.399999999999999911e+00, 1.000000000000000000e+00, 1.000000000000000194e-02, 2.500000000000000486e-03, 2.249999999999999917e-02, 1.000000000000000056e-01, 2.500000000000000486e-03, 2.000000000000000389e-02, 2.500000000000000486e-03, 8.999999999999999667e-02, 5.000000000000000971e-03, 1.100000000000000006e-01, 1.000000000000000194e-02, 2.500000000000000486e-03, 5.300000000000001377e-01, 5.999999999999999778e-02, 2.500000000000000486e-03, 1.669999999999999957e-02, 1.000000000000000194e-02, 2.500000000000000486e-03, 5.700000000000000178e+00, 1.669999999999999929e+01, 1.140000000000000036e+01, 3.399999999999999911e+00, 1.000000000000000000e+00, 2.269999999999999929e+01, 7.500000000000000000e-01, 2.000000000000000389e-01, 1.499999999999999944e-02, 1.469999999999999953e-02, 5.000000000000000000e+02, 2.270000000000000000e+02, 1.710000000000000000e+02, 1.000000000000000000e+00, 2.500000000000000486e-03, 1.250000000000000069e-02, 5.000000000000000971e-03, 2.500000000000000486e-03, 5.000000000000000971e-03, 2.000000000000000389e-02, 2.200000000000000133e-03, 1.724999999999999867e-01, 2.500000000000000486e-03, 2.500000000000000486e-03, 1.492000000000000270e-01, 8.300000000000000086e-03, 2.500000000000000486e-03, 4.849999999999999867e-01, 5.000000000000000278e-02, 2.500000000000000486e-03, 1.000000000000000194e-02, 6.500000000000000222e-02, 1.000000000000000178e+01, 3.399999999999999911e+00, 1.000000000000000000e+00, 2.500000000000000486e-03, 1.000000000000000194e-02, 7.500000000000000590e-03, 6.000000000000000472e-02, 1.230000000000000121e-01, 1.900000000000000300e-01, 2.500000000000000486e-03, 7.249999999999999500e-02, 2.500000000000000486e-03, 4.200000000000000608e-03, 2.500000000000000486e-03, 4.000000000000000222e-01, 6.000000000000000472e-02, 2.500000000000000486e-03, 1.000000000000000194e-02, 5.000000000000000278e-02, 1.000000000000000178e+01, 3.399999999999999911e+00, 1.000000000000000000e+00, 2.500000000000000052e-03, 1.250000000000000069e-02, 5.000000000000000104e-03, 2.500000000000000052e-03, 5.000000000000000104e-03, 2.000000000000000042e-02, 2.200000000000000133e-03, 1.724999999999999867e-01, 2.500000000000000052e-03, 2.500000000000000052e-03, 1.491999999999999993e-01, 8.300000000000000086e-03, 2.500000000000000052e-03, 4.847999999999999532e-01, 5.000000000000000278e-02, 2.500000000000000052e-03, 1.000000000000000021e-02, 6.500000000000000222e-02, 1.000000000000000000e+01, 1.140000000000000213e+01, 3.399999999999999467e+00, 9.999999999999998890e-01, 2.500000000000000486e-03, 1.250000000000000069e-02, 2.500000000000000486e-03, 1.000000000000000056e-01, 4.700000000000001052e-03, 1.750000000000000167e-01, 2.500000000000000486e-03, 2.500000000000000486e-03, 7.499999999999999722e-02, 8.300000000000000086e-03, 2.500000000000000486e-03, 5.392000000000000126e-01, 5.500000000000000722e-02, 2.500000000000000486e-03, 1.000000000000000194e-02, 5.000000000000000971e-03, 1.010000000000000142e+01, 3.399999999999999911e+00, 1.000000000000000000e+00, 2.500000000000000486e-03, 1.000000000000000194e-02, 5.250000000000000500e-02, 2.500000000000000486e-03, 2.500000000000000486e-03, 2.000000000000000389e-02, 2.500000000000000486e-03, 4.250000000000000305e-02, 2.500000000000000486e-03, 2.500000000000000486e-03, 2.500000000000000000e-01, 8.300000000000000086e-03, 2.500000000000000486e-03, 4.713999999999999857e-01, 5.000000000000000278e-02, 2.500000000000000486e-03, 1.000000000000000194e-02, 6.500000000000000222e-02, 1.010000000000000142e+01, 3.399999999999999911e+00, 1.000000000000000000e+00, 2.500000000000000486e-03, 1.250000000000000069e-02, 2.500000000000000486e-03, 1.000000000000000056e-01, 5.470000000000000556e-02, 1.749999999999999889e-01, 2.500000000000000486e-03, 2.500000000000000486e-03, 2.500000000000000139e-02, 8.300000000000000086e-03, 2.500000000000000486e-03, 5.442000000000001281e-01, 5.000000000000000278e-02, 2.500000000000000486e-03, 1.000000000000000194e-02, 5.000000000000000971e-03, 1.000000000000000178e+01, 3.399999999999999911e+00, 1.000000000000000000e+00, 2.500000000000000052e-03, 1.250000000000000069e-02, 2.500000000000000052e-03, 1.000000000000000056e-01, 5.469999999999999862e-02, 1.749999999999999889e-01, 2.500000000000000052e-03, 2.500000000000000052e-03, 2.500000000000000139e-02, 8.300000000000000086e-03, 2.500000000000000052e-03, 5.440000000000000391e-01, 5.000000000000000278e-02, 2.500000000000000052e-03, 1.000000000000000021e-02, 5.000000000000000104e-03, 1.000000000000000000e+01, 1.140000000000000213e+01, 3.399999999999999467e+00, 9.999999999999998890e-01, 2.000000000000000389e-02, 1.250000000000000069e-02, 3.750000000000000555e-02, 5.250000000000001193e-02, 2.500000000000000486e-03, 7.199999999999999803e-03, 2.000000000000000111e-01, 2.500000000000000486e-03, 2.000000000000000111e-01, 5.500000000000000028e-02, 2.500000000000000486e-03, 1.500000000000000222e-01, 1.000000000000000056e-01, 1.000000000000000056e-01, 1.000000000000000194e-02, 4.750000000000000749e-02, 1.000000000000000178e+01, 3.399999999999999911e+00, 1.000000000000000000e+00, 2.500000000000000486e-03, 1.000000000000000194e-02, 1.750000000000000167e-02, 5.000000000000000278e-02, 2.500000000000000486e-03, 9.500000000000001499e-02, 1.200000000000000094e-01, 2.500000000000000486e-03, 6.250000000000000000e-02, 1.849999999999999978e-01, 5.000000000000000278e-02, 4.970000000000000806e-02, 1.100000000000000006e-01, 1.174999999999999933e-01, 1.000000000000000194e-02, 1.150000000000000050e-01, 1.000000000000000178e+01, 3.399999999999999911e+00, 1.000000000000000000e+00, 5.000000000000000278e-02, 1.250000000000000069e-02, 3.750000000000000555e-02, 5.250000000000001193e-02, 2.500000000000000486e-03, 7.199999999999999803e-03, 2.000000000000000111e-01, 2.500000000000000486e-03, 2.000000000000000111e-01, 5.500000000000000028e-02, 2.500000000000000486e-03, 1.500000000000000222e-01, 1.000000000000000056e-01, 7.000000000000000666e-02, 1.000000000000000194e-02, 4.750000000000000749e-02, 1.000000000000000178e+01, 3.399999999999999911e+00, 1.000000000000000000e+00, 5.000000000000000278e-02, 1.250000000000000069e-02, 3.749999999999999861e-02, 5.249999999999999806e-02, 2.500000000000000052e-03, 7.199999999999999803e-03, 2.000000000000000111e-01, 2.500000000000000052e-03, 2.000000000000000111e-01, 5.500000000000000028e-02, 2.500000000000000052e-03, 1.497999999999999610e-01, 1.000000000000000056e-01, 7.000000000000000666e-02, 1.000000000000000021e-02, 4.750000000000000056e-02, 1.000000000000000000e+01, 1.140000000000000213e+01, 3.399999999999999467e+00, 9.999999999999998890e-01, 2.000000000000000389e-02, 1.000000000000000194e-02, 1.750000000000000167e-02, 8.000000000000001554e-02, 2.500000000000000486e-03, 1.500000000000000222e-01, 1.500000000000000222e-01, 2.500000000000000486e-03, 4.250000000000000305e-02, 1.150000000000000050e-01, 2.500000000000000486e-03, 8.970000000000001583e-02, 1.100000000000000006e-01, 1.000000000000000056e-01, 1.000000000000000194e-02, 9.750000000000001721e-02, 1.000000000000000178e+01, 3.399999999999999911e+00, 1.000000000000000000e+00, 2.000000000000000389e-02, 1.250000000000000069e-02, 2.500000000000000486e-03, 1.200000000000000094e-01, 2.500000000000000486e-03, 4.700000000000000185e-03, 2.000000000000000111e-01, 2.500000000000000486e-03, 1.550000000000000266e-01, 1.150000000000000050e-01, 2.500000000000000486e-03, 1.500000000000000222e-01, 1.000000000000000056e-01, 1.000000000000000056e-01, 1.000000000000000194e-02, 2.500000000000000486e-03, 1.000000000000000178e+01, 3.399999999999999911e+00, 1.000000000000000000e+00, 5.000000000000000278e-02, 1.250000000000000069e-02, 2.500000000000000486e-03, 1.200000000000000094e-01, 2.500000000000000486e-03, 4.700000000000000185e-03, 2.000000000000000111e-01, 2.500000000000000486e-03, 1.550000000000000266e-01, 1.150000000000000050e-01, 2.500000000000000486e-03, 1.500000000000000222e-01, 1.000000000000000056e-01, 7.000000000000000666e-02, 1.000000000000000194e-02, 2.500000000000000486e-03, 1.000000000000000178e+01, 3.399999999999999911e+00, 1.000000000000000000e+00, 5.000000000000000278e-02, 1.250000000000000069e-02, 2.500000000000000052e-03, 1.199999999999999956e-01, 2.500000000000000052e-03, 4.700000000000000185e-03, 2.000000000000000111e-01, 2.500000000000000052e-03, 1.549999999999999711e-01, 1.150000000000000050e-01, 2.500000000000000052e-03, 1.497999999999999610e-01, 1.000000000000000056e-01, 7.000000000000000666e-02, 1.000000000000000021e-02, 2.500000000000000052e-03, 1.000000000000000000e+01, 1.140000000000000213e+01, 3.399999999999999467e+00, 9.999999999999998890e-01, 2.499999999999999618e-03, 9.999999999999998473e-03, 3.999999999999999389e-02, 3.130000000000000143e-02, 6.299999999999999177e-03, 8.999999999999999667e-02, 7.850000000000000033e-02, 1.150000000000000050e-01, 2.499999999999999618e-03, 8.129999999999999727e-02, 8.600000000000000006e-03, 1.199999999999999895e-03, 1.499999999999999944e-01, 7.000000000000000666e-02, 2.675000000000000155e-01, 9.999999999999998473e-03, 3.500000000000000333e-02, 8.949999999999999289e+00, 3.399999999999999911e+00, 1.000000000000000000e+00, 2.499999999999999618e-03, 9.999999999999998473e-03, 3.249999999999999417e-02, 5.129999999999999144e-02, 6.299999999999999177e-03, 1.299999999999999767e-01, 7.839999999999999747e-02, 1.400000000000000133e-01, 2.499999999999999618e-03, 8.119999999999998053e-02, 1.199999999999999895e-03, 1.299999999999999940e-03, 1.499999999999999944e-01, 7.000000000000000666e-02, 2.074999999999999900e-01, 9.999999999999998473e-03, 2.499999999999999792e-02, 8.949999999999999289e+00, 3.399999999999999911e+00, 1.000000000000000000e+00, 7.999999999999998779e-02, 9.999999999999998473e-03, 3.999999999999999389e-02, 3.130000000000000143e-02, 6.299999999999999177e-03, 8.999999999999999667e-02, 7.850000000000000033e-02, 1.150000000000000050e-01, 2.499999999999999618e-03, 8.129999999999999727e-02, 8.600000000000000006e-03, 1.199999999999999895e-03, 1.499999999999999944e-01, 7.000000000000000666e-02, 1.900000000000000300e-01, 9.999999999999998473e-03, 3.500000000000000333e-02, 8.949999999999999289e+00, 3.399999999999999911e+00, 1.000000000000000000e+00, 8.000000000000000167e-02, 1.000000000000000021e-02, 4.000000000000000083e-02, 3.130000000000000143e-02, 6.300000000000000044e-03, 8.999999999999999667e-02, 7.829999999999999460e-02, 1.150000000000000050e-01, 2.500000000000000052e-03, 8.130000000000001115e-02, 8.600000000000000006e-03, 1.199999999999999895e-03, 1.499999999999999944e-01, 7.000000000000000666e-02, 1.900000000000000022e-01, 1.000000000000000021e-02, 3.500000000000000333e-02, 8.949999999999999289e+00, 1.140000000000000213e+01, 3.399999999999999467e+00, 1.000000000000000000e+00, 7.149999999999999412e-02, 1.050000000000000065e-02, 4.499999999999999833e-02, 1.699999999999999845e-01, 4.499999999999999660e-03, 7.999999999999998779e-02, 1.299999999999999940e-03, 1.500000000000000031e-03, 3.000000000000000062e-03, 4.499999999999999833e-02, 7.499999999999999722e-02, 2.499999999999999618e-03, 1.500000000000000031e-03, 3.303999999999999715e-01, 5.999999999999999778e-02, 7.999999999999998779e-02, 6.000000000000000125e-03, 1.500000000000000031e-03, 1.500000000000000031e-03, 8.999999999999999320e-03, 1.008000000000000007e+01, 3.419999999999999485e+00, 9.999999999999997780e-01, 1.000000000000000021e-02, 1.499999999999999944e-02, 1.499999999999999944e-02, 1.160000000000000059e-01, 4.499999999999999660e-03, 8.000000000000000167e-02, 9.449999999999998679e-02, 6.750000000000000444e-02, 3.000000000000000062e-03, 1.500000000000000031e-03, 1.500000000000000031e-03, 2.500000000000000052e-03, 1.500000000000000031e-03, 3.286999999999999922e-01, 5.999999999999999778e-02, 1.400000000000000133e-01, 8.999999999999999320e-03, 1.500000000000000031e-03, 3.899999999999999994e-02, 8.999999999999999320e-03, 8.400000000000000355e+00, 2.850000000000000089e+00, 1.000000000000000000e+00, 1.015000000000000208e-01, 1.050000000000000065e-02, 4.499999999999999833e-02, 1.699999999999999845e-01, 4.499999999999999660e-03, 7.999999999999998779e-02, 1.299999999999999940e-03, 1.500000000000000031e-03, 3.000000000000000062e-03, 4.499999999999999833e-02, 7.499999999999999722e-02, 2.499999999999999618e-03, 1.500000000000000031e-03, 3.303999999999999715e-01, 5.999999999999999778e-02, 5.000000000000000971e-02, 6.000000000000000125e-03, 1.500000000000000031e-03, 1.500000000000000031e-03, 8.999999999999999320e-03, 1.008000000000000007e+01, 3.419999999999999485e+00, 9.999999999999997780e-01, 1.015000000000000069e-01, 1.050000000000000065e-02, 4.499999999999999833e-02, 1.700000000000000122e-01, 4.499999999999999660e-03, 8.000000000000000167e-02, 1.299999999999999940e-03, 1.500000000000000031e-03, 3.000000000000000062e-03, 4.499999999999999833e-02, 7.499999999999999722e-02, 2.500000000000000052e-03, 1.500000000000000031e-03, 3.301999999999999935e-01, 5.999999999999999778e-02, 5.000000000000000278e-02, 6.000000000000000125e-03, 1.500000000000000031e-03, 1.500000000000000031e-03, 8.999999999999999320e-03, 1.007999999999999829e+01, 1.140000000000000213e+01, 3.419999999999999485e+00, 9.999999999999997780e-01, 2.500000000000000052e-03, 2.500000000000000052e-03, 1.000000000000000021e-02, 5.500000000000000028e-02, 1.249999999999999861e-01, 2.500000000000000052e-03, 8.000000000000000167e-02, 2.200000000000000133e-03, 2.500000000000000052e-03, 2.500000000000000052e-03, 2.500000000000000052e-03, 2.499999999999999722e-01, 8.300000000000000086e-03, 2.500000000000000052e-03, 3.216999999999999860e-01, 5.000000000000000278e-02, 2.500000000000000052e-03, 1.000000000000000021e-02, 5.000000000000000278e-02, 2.500000000000000052e-03, 2.500000000000000052e-03, 1.250000000000000069e-02, 1.040000000000000213e+01, 3.399999999999999911e+00, 9.999999999999998890e-01, 2.500000000000000052e-03, 2.500000000000000052e-03, 1.000000000000000021e-02, 8.000000000000000167e-02, 6.249999999999999306e-02, 5.000000000000000104e-03, 5.000000000000000278e-02, 2.500000000000000052e-03, 2.500000000000000052e-03, 2.500000000000000052e-03, 2.500000000000000052e-03, 2.499999999999999722e-01, 8.300000000000000086e-03, 2.500000000000000052e-03, 3.764000000000000123e-01, 5.999999999999999084e-02, 2.500000000000000052e-03, 1.000000000000000021e-02, 5.000000000000000278e-02, 2.500000000000000052e-03, 2.500000000000000052e-03, 1.250000000000000069e-02, 1.040000000000000213e+01, 3.399999999999999911e+00, 9.999999999999998890e-01, 2.500000000000000052e-03, 2.500000000000000052e-03, 7.499999999999999722e-03, 1.400000000000000133e-01, 2.500000000000000052e-03, 2.500000000000000052e-03, 1.000000000000000056e-01, 9.470000000000000639e-02, 2.500000000000000052e-03, 2.500000000000000052e-03, 2.500000000000000052e-03, 2.500000000000000052e-03, 8.300000000000000086e-03, 2.500000000000000052e-03, 4.989000000000000101e-01, 5.000000000000000278e-02, 2.500000000000000052e-03, 1.000000000000000021e-02, 5.000000000000000278e-02, 2.500000000000000052e-03, 2.500000000000000052e-03, 1.000000000000000021e-02, 1.040000000000000036e+01, 1.140000000000000213e+01, 3.399999999999999467e+00, 1.000000000000000000e+00, 2.500000000000000052e-03, 2.500000000000000052e-03, 7.499999999999999722e-03, 1.400000000000000133e-01, 2.500000000000000052e-03, 2.500000000000000052e-03, 1.000000000000000056e-01, 9.470000000000000639e-02, 2.500000000000000052e-03, 2.500000000000000052e-03, 2.500000000000000052e-03, 2.500000000000000052e-03, 8.300000000000000086e-03, 2.500000000000000052e-03, 4.989000000000000101e-01, 5.000000000000000278e-02, 2.500000000000000052e-03, 1.000000000000000021e-02, 5.000000000000000278e-02, 2.500000000000000052e-03, 2.500000000000000052e-03, 1.000000000000000021e-02, 1.040000000000000036e+01, 1.140000000000000213e+01, 3.399999999999999467e+00, 1.000000000000000000e+00, 2.500000000000000486e-03, 2.500000000000000486e-03, 7.499999999999999722e-03, 1.474999999999999922e-01, 2.500000000000000486e-03, 7.499999999999999722e-03, 2.500000000000000486e-03, 4.700000000000000185e-03, 2.500000000000000486e-03, 2.500000000000000486e-03, 2.500000000000000486e-03, 2.500000000000000000e-01, 8.300000000000000086e-03, 2.500000000000000486e-03, 4.219000000000001083e-01, 5.000000000000000971e-02, 1.000000000000000194e-02, 5.000000000000000971e-02, 2.500000000000000486e-03, 7.499999999999999722e-03, 1.250000000000000243e-02, 3.299999999999999822e+00, 1.100000000000000089e+00, 1.000000000000000000e+00, 2.500000000000000486e-03, 2.500000000000000486e-03, 1.499999999999999944e-02, 2.500000000000000486e-03, 5.250000000000000500e-02, 5.000000000000000971e-03, 2.500000000000000486e-03, 2.200000000000000133e-03, 2.500000000000000486e-03, 2.500000000000000486e-03, 2.500000000000000486e-03, 1.925000000000000044e-01, 8.300000000000000086e-03, 2.500000000000000486e-03, 5.493999999999999995e-01, 5.000000000000000971e-02, 1.000000000000000194e-02, 2.500000000000000486e-02, 2.500000000000000486e-03, 5.750000000000001638e-02, 1.000000000000000194e-02, 3.299999999999999822e+00, 1.100000000000000089e+00, 1.000000000000000000e+00, 2.500000000000000486e-03, 2.500000000000000486e-03, 7.499999999999999722e-03, 1.150000000000000328e-01, 2.500000000000000486e-03, 7.499999999999999722e-03, 2.500000000000000486e-02, 1.372000000000000164e-01, 2.500000000000000486e-03, 2.500000000000000486e-03, 2.500000000000000486e-03, 2.500000000000000486e-03, 8.300000000000000086e-03, 2.500000000000000486e-03, 5.493999999999999995e-01, 5.000000000000000971e-02, 1.000000000000000194e-02, 5.000000000000000971e-02, 2.500000000000000486e-03, 7.499999999999999722e-03, 1.000000000000000194e-02, 3.299999999999999822e+00, 1.100000000000000089e+00, 1.000000000000000000e+00, 2.500000000000000052e-03, 2.500000000000000052e-03, 7.499999999999999722e-03, 1.150000000000000050e-01, 2.500000000000000052e-03, 7.499999999999999722e-03, 2.500000000000000139e-02, 1.371999999999999886e-01, 2.500000000000000052e-03, 2.500000000000000052e-03, 2.500000000000000052e-03, 2.500000000000000052e-03, 8.300000000000000086e-03, 2.500000000000000052e-03, 5.492000000000000215e-01, 5.000000000000000278e-02, 1.000000000000000021e-02, 5.000000000000000278e-02, 2.500000000000000052e-03, 7.499999999999999722e-03, 1.000000000000000021e-02, 3.299999999999999822e+00, 1.140000000000000213e+01, 1.100000000000000089e+00, 9.999999999999998890e-01, 1.000000000000000194e-02, 1.815000000000000213e+01, 2.500000000000000486e-03, 5.000000000000000971e-02, 7.499999999999998855e-03, 5.000000000000000971e-02, 8.699999999999999400e-03, 1.603999999999999870e-01, 5.000000000000000971e-03, 1.299999999999999940e-03, 5.000000000000000971e-02, 2.362000000000000210e-01, 5.999999999999999084e-02, 2.275000000000000078e-01, 1.000000000000000194e-02, 1.000000000000000194e-02, 1.037000000000000005e-01, 1.660000000000000497e+01, 5.000000000000000971e-03, 3.400000000000000355e+00, 1.000000000000000000e+00, 1.999999999999999695e-02, 1.814000000000000057e+01, 2.499999999999999618e-03, 4.999999999999999584e-02, 9.999999999999998473e-03, 4.999999999999999584e-02, 4.999999999999999237e-03, 2.099999999999999922e-01, 4.999999999999999237e-03, 4.999999999999999237e-03, 4.999999999999999584e-02, 1.042000000000000010e-01, 5.999999999999999778e-02, 2.274999999999999800e-01, 9.999999999999998473e-03, 9.999999999999998473e-03, 1.249999999999999861e-01, 9.999999999999998224e+00, 4.999999999999999237e-03, 3.399999999999999911e+00, 9.999999999999998890e-01, 1.849999999999999978e-01, 2.000000000000000389e-02, 2.000000000000000389e-02, 2.249999999999999917e-02, 1.799999999999999933e-01, 1.971999999999999864e-01, 5.000000000000000971e-03, 5.000000000000000278e-02, 1.575000000000000011e-01, 1.500000000000000222e-01, 1.000000000000000194e-02, 2.500000000000000486e-03, 1.000000000000000178e+01, 3.399999999999999911e+00, 1.000000000000000000e+00, 8.000000000000001554e-02, 6.000000000000000472e-02, 7.000000000000000666e-02, 1.000000000000000194e-02, 3.747000000000000330e-01, 5.000000000000000971e-03, 1.400000000000000133e-01, 2.500000000000000000e-01, 1.000000000000000194e-02, 1.000000000000000178e+01, 3.399999999999999911e+00, 1.000000000000000000e+00, 1.849999999999999978e-01, 2.000000000000000042e-02, 2.000000000000000042e-02, 2.249999999999999917e-02, 1.799999999999999933e-01, 1.970000000000000362e-01, 5.000000000000000104e-03, 5.000000000000000278e-02, 1.575000000000000011e-01, 1.499999999999999944e-01, 1.000000000000000021e-02, 2.500000000000000052e-03, 1.000000000000000000e+01, 1.140000000000000213e+01, 3.399999999999999467e+00, 9.999999999999998890e-01, 2.300000000000000100e-01, 7.500000000000000590e-03, 1.600000000000000311e-01, 1.250000000000000069e-02, 1.350000000000000089e-01, 2.500000000000000486e-03, 6.000000000000000472e-02, 1.799999999999999933e-01, 1.000000000000000194e-02, 8.999999999999999667e-02, 1.000000000000000194e-02, 1.022000000000000131e-01, 1.000000000000000178e+01, 3.399999999999999911e+00, 1.000000000000000000e+00, 1.799999999999999933e-01, 7.500000000000000590e-03, 1.000000000000000056e-01, 1.250000000000000069e-02, 1.550000000000000266e-01, 2.500000000000000486e-03, 6.000000000000000472e-02, 1.799999999999999933e-01, 2.000000000000000389e-02, 1.000000000000000194e-02, 2.721999999999999975e-01, 1.000000000000000178e+01, 3.399999999999999911e+00, 1.000000000000000000e+00, 2.000000000000000389e-02, 2.500000000000000486e-03, 1.000000000000000194e-02, 2.500000000000000486e-03, 3.750000000000000555e-02, 1.250000000000000069e-02, 2.000000000000000389e-02, 2.200000000000000133e-03, 2.000000000000000111e-01, 5.000000000000000971e-03, 2.500000000000000486e-03, 4.499999999999999833e-02, 8.300000000000000086e-03, 5.492000000000000215e-01, 5.000000000000000278e-02, 1.000000000000000194e-02, 2.500000000000000486e-03, 7.500000000000000590e-03, 1.250000000000000069e-02, 1.000000000000000178e+01, 3.399999999999999911e+00, 1.000000000000000000e+00, 2.000000000000000389e-02, 2.500000000000000486e-03, 1.000000000000000194e-02, 6.000000000000000472e-02, 2.500000000000000486e-03, 1.250000000000000069e-02, 2.000000000000000389e-02, 2.500000000000000486e-03, 2.500000000000000139e-02, 5.000000000000000971e-03, 2.500000000000000486e-03, 1.650000000000000078e-01, 8.300000000000000086e-03, 5.063999999999999613e-01, 5.000000000000000278e-02, 1.000000000000000194e-02, 8.250000000000000389e-02, 2.500000000000000486e-03, 1.250000000000000069e-02, 1.000000000000000178e+01, 3.399999999999999911e+00, 1.000000000000000000e+00, 2.000000000000000042e-02, 2.500000000000000052e-03, 1.000000000000000021e-02, 2.500000000000000052e-03, 3.749999999999999861e-02, 1.250000000000000069e-02, 2.000000000000000042e-02, 2.200000000000000133e-03, 2.000000000000000111e-01, 5.000000000000000104e-03, 2.500000000000000052e-03, 4.499999999999999833e-02, 8.300000000000000086e-03, 5.490000000000000435e-01, 5.000000000000000278e-02, 1.000000000000000021e-02, 2.500000000000000052e-03, 7.499999999999999722e-03, 1.250000000000000069e-02, 1.000000000000000000e+01, 1.140000000000000213e+01, 3.399999999999999467e+00, 9.999999999999998890e-01, 1.250000000000000069e-02, 1.000000000000000056e-01, 3.250000000000000805e-02, 1.875000000000000000e-01, 5.000000000000000971e-03, 2.500000000000000000e-01, 2.500000000000000486e-03, 2.595999999999999974e-01, 4.000000000000000777e-02, 2.999999999999999889e-02, 2.500000000000000486e-03, 5.000000000000000278e-02, 2.750000000000000361e-02, 1.500000000000000000e+01, 5.099999999999999645e+00, 1.000000000000000000e+00, 5.999999999999999778e-02, 2.000000000000000389e-01, 2.500000000000000052e-03, 2.049999999999999878e-01, 7.499999999999999722e-03, 2.999999999999999889e-01, 2.500000000000000052e-03, 2.749999999999999667e-02, 5.000000000000000971e-02, 2.999999999999999889e-02, 2.500000000000000052e-03, 8.410000000000000808e-02, 2.749999999999999667e-02, 3.000000000000000355e+01, 1.019999999999999929e+01, 1.000000000000000000e+00, 1.499999999999999944e-02, 2.500000000000000052e-03, 1.499999999999999944e-01, 3.500000000000000333e-02, 2.500000000000000052e-03, 5.000000000000000104e-03, 2.924999999999999822e-01, 2.500000000000000052e-03, 3.441000000000000725e-01, 5.000000000000000971e-02, 4.000000000000000083e-02, 2.500000000000000052e-03, 2.500000000000000052e-03, 5.499999999999999334e-02, 3.000000000000000355e+01, 1.019999999999999929e+01, 1.000000000000000000e+00, 2.000000000000000042e-02, 2.500000000000000052e-03, 2.500000000000000052e-03, 3.250000000000000111e-02, 2.500000000000000052e-03, 5.000000000000000104e-03, 7.499999999999999722e-03, 2.500000000000000052e-03, 5.491000000000001435e-01, 5.499999999999999334e-02, 4.000000000000000083e-02, 7.499999999999999722e-02, 1.499999999999999944e-01, 5.499999999999999334e-02, 3.000000000000000355e+01, 1.019999999999999929e+01, 1.000000000000000000e+00, 1.749999999999999820e-02, 7.749999999999999944e-02, 3.499999999999999639e-02, 2.999999999999999334e-01, 4.999999999999998369e-03, 2.999999999999999334e-01, 2.499999999999999185e-03, 4.939999999999999253e-02, 3.999999999999998695e-02, 3.999999999999998695e-02, 8.999999999999998279e-02, 2.499999999999999185e-03, 3.999999999999998695e-02, 1.999999999999999645e+01, 6.799999999999997158e+00, 9.999999999999998890e-01, 1.749999999999999820e-02, 9.999999999999997780e-02, 2.249999999999999570e-02, 2.999999999999999334e-01, 4.999999999999998369e-03, 4.999999999999998890e-02, 2.499999999999999185e-03, 2.643999999999999684e-01, 3.999999999999998695e-02, 3.999999999999998695e-02, 1.149999999999999772e-01, 2.499999999999999185e-03, 3.999999999999998695e-02, 1.999999999999999645e+01, 6.799999999999997158e+00, 9.999999999999998890e-01, 8.000000000000000167e-02, 1.674999999999999822e-01, 2.500000000000000052e-03, 1.200000000000000094e-01, 1.000000000000000021e-02, 2.500000000000000052e-03, 2.500000000000000052e-03, 1.299999999999999940e-03, 4.999999999999998890e-02, 4.000000000000000083e-02, 5.199999999999999067e-01, 2.500000000000000052e-03, 4.000000000000000000e+01, 1.359999999999999609e+01, 1.000000000000000000e+00, 8.000000000000000167e-02, 1.674999999999999822e-01, 2.500000000000000052e-03, 1.200000000000000094e-01, 1.000000000000000021e-02, 2.500000000000000052e-03, 2.500000000000000052e-03, 1.299999999999999940e-03, 4.999999999999998890e-02, 4.000000000000000083e-02, 5.199999999999999067e-01, 2.500000000000000052e-03, 4.000000000000000000e+01, 1.359999999999999609e+01, 1.000000000000000000e+00, 2.749999999999999667e-02, 1.499999999999999944e-01, 4.000000000000000083e-02, 2.500000000000000052e-03, 7.499999999999999722e-03, 2.999999999999999889e-01, 6.910000000000000864e-02, 2.999999999999999889e-02, 5.000000000000000971e-02, 2.525000000000000577e-01, 7.000000000000000666e-02, 3.000000000000000355e+01, 1.019999999999999929e+01, 1.000000000000000000e+00, 2.999999999999999889e-02, 2.500000000000000052e-03, 4.000000000000000083e-02, 2.500000000000000052e-03, 7.499999999999999722e-03, 1.925000000000000600e-01, 2.990999999999999770e-01, 4.000000000000000083e-02, 5.000000000000000971e-02, 2.650000000000000688e-01, 7.000000000000000666e-02, 3.000000000000000355e+01, 1.019999999999999929e+01, 1.000000000000000000e+00, 2.500000000000000486e-03, 1.000000000000000194e-02, 1.199999999999999817e-01, 5.000000000000000278e-02, 1.476000000000000090e-01, 7.499999999999998855e-03, 2.000000000000000389e-02, 9.079999999999999716e+01, 1.100000000000000006e-01, 5.200000000000000178e-01, 1.000000000000000194e-02, 5.700000000000000178e+00, 9.999999999999998224e+00, 3.399999999999999911e+00, 1.000000000000000222e+00, 2.500000000000000486e-03, 1.000000000000000194e-02, 1.000000000000000056e-01, 5.000000000000000278e-02, 1.476000000000000090e-01, 7.499999999999998855e-03, 2.000000000000000389e-02, 9.079999999999999716e+01, 1.000000000000000056e-01, 5.500000000000000444e-01, 1.000000000000000194e-02, 5.700000000000000178e+00, 9.999999999999998224e+00, 3.399999999999999911e+00, 1.000000000000000222e+00, 1.799999999999999933e-01, 2.000000000000000389e-02, 7.499999999999998855e-03, 1.943000000000000005e-01, 2.500000000000000486e-03, 5.000000000000000278e-02, 1.550999999999999601e-01, 5.000000000000000971e-03, 8.300000000000000086e-03, 1.000000000000000194e-02, 9.079999999999999716e+01, 5.000000000000000278e-02, 8.000000000000001554e-02, 1.000000000000000194e-02, 5.000000000000000278e-02, 2.500000000000000139e-02, 1.499999999999999944e-01, 5.000000000000000888e+00, 4.999999999999999112e+00, 1.699999999999999956e+00, 1.000000000000000222e+00, 1.199999999999999817e-01, 2.999999999999999542e-02, 7.499999999999998855e-03, 1.000000000000000056e-01, 2.500000000000000486e-03, 8.000000000000001554e-02, 2.293999999999999928e-01, 5.000000000000000971e-03, 8.300000000000000086e-03, 1.000000000000000194e-02, 9.079999999999999716e+01, 5.999999999999999084e-02, 8.000000000000001554e-02, 1.000000000000000194e-02, 5.000000000000000278e-02, 5.999999999999999084e-02, 1.449999999999999900e-01, 5.000000000000000888e+00, 4.999999999999999112e+00, 1.699999999999999956e+00, 1.000000000000000222e+00, 1.000000000000000021e-02, 8.200000000000001066e+00, 3.629999999999999716e+01, 1.499999999999999944e-02, 6.340999999999999970e-01, 2.500000000000000139e-02, 5.000000000000000104e-03, 1.361999999999999886e+02, 5.000000000000000104e-03, 8.000000000000000167e-02, 1.700000000000000122e-01, 5.000000000000000278e-02, 2.270000000000000284e+01, 3.329999999999999716e+01, 2.270000000000000284e+01, 6.999999999999999556e-01, 5.700000000000001066e+00, 1.000000000000000222e+00, 8.300000000000002487e+00, 1.130000000000000249e+01, 5.000000000000000104e-03, 5.726999999999999869e-01, 1.500000000000000118e-02, 5.000000000000000104e-03, 3.400000000000000000e+01, 2.500000000000000139e-02, 2.800000000000000266e-01, 5.000000000000000104e-03, 8.999999999999999667e-02, 1.509999999999999964e+01, 1.680000000000000426e+01, 1.059999999999999964e+01, 5.999999999999998668e-01, 5.700000000000001066e+00, 1.000000000000000000e+00, 8.300000000000002487e+00, 1.140000000000000213e+01, 1.000000000000000021e-02, 6.024000000000000465e-01, 1.000000000000000021e-02, 5.000000000000000104e-03, 3.400000000000000000e+01, 3.500000000000000333e-02, 2.200000000000000011e-01, 5.000000000000000104e-03, 1.100000000000000006e-01, 1.509999999999999964e+01, 1.680000000000000426e+01, 1.059999999999999964e+01, 5.999999999999998668e-01, 5.700000000000001066e+00, 1.000000000000000000e+00, 1.000000000000000021e-02, 8.199999999999999289e+00, 5.700000000000000178e+00, 5.999999999999999778e-02, 7.499999999999999722e-03, 2.500000000000000052e-03, 1.999999999999999833e-01, 3.316999999999999948e-01, 5.000000000000000104e-03, 2.500000000000000052e-03, 5.000000000000000104e-03, 1.999999999999999833e-01, 4.999999999999999584e-02, 5.000000000000000104e-03, 4.999999999999999584e-02, 6.999999999999999278e-02, 5.700000000000000178e+00, 3.299999999999998934e+00, 8.000000000000000000e+00, 6.999999999999999556e-01, 5.700000000000000178e+00, 9.999999999999997780e-01, 1.000000000000000021e-02, 8.199999999999999289e+00, 5.700000000000000178e+00, 2.600000000000000089e-01, 7.499999999999999722e-03, 2.500000000000000052e-03, 1.016999999999999987e-01, 5.000000000000000104e-03, 2.500000000000000052e-03, 5.000000000000000104e-03, 4.699999999999999734e-01, 4.999999999999999584e-02, 5.000000000000000104e-03, 4.999999999999999584e-02, 2.999999999999999889e-02, 5.700000000000000178e+00, 3.299999999999998934e+00, 8.000000000000000000e+00, 6.999999999999999556e-01, 5.700000000000000178e+00, 9.999999999999997780e-01, 4.000000000000000083e-02, 4.540000000000000568e+01, 1.750000000000000167e-02, 3.250000000000000111e-02, 1.000000000000000021e-02, 1.000000000000000021e-02, 2.099999999999999922e-01, 5.000000000000000278e-02, 3.000000000000000236e-02, 2.500000000000000139e-02, 5.709999999999999520e-01, 3.510000000000000142e+01, 3.329999999999999005e+01, 6.809999999999999432e+01, 2.299999999999999378e+00, 2.270000000000000284e+01, 9.999999999999998890e-01, 6.000000000000000472e-02, 1.750000000000000167e-02, 2.750000000000000014e-02, 2.500000000000000052e-03, 1.000000000000000021e-02, 1.774999999999999911e-01, 2.000000000000000111e-01, 3.000000000000000236e-02, 2.500000000000000139e-02, 4.465999999999999415e-01, 2.270000000000000284e+01, 4.000000000000000000e+01, 6.809999999999999432e+01, 2.299999999999999378e+00, 2.270000000000000284e+01, 9.999999999999998890e-01, 6.000000000000000472e-02, 1.000000000000000021e-02, 2.270000000000000284e+01, 1.750000000000000167e-02, 2.750000000000000014e-02, 2.000000000000000042e-02, 1.000000000000000021e-02, 1.600000000000000033e-01, 2.000000000000000111e-01, 2.000000000000000042e-02, 2.500000000000000139e-02, 4.460999999999999965e-01, 2.270000000000000284e+01, 4.000000000000000000e+01, 6.809999999999999432e+01, 2.299999999999999378e+00, 2.270000000000000284e+01, 9.999999999999998890e-01, 5.000000000000000278e-02, 4.700000000000000178e+00, 2.500000000000000486e-03, 1.000000000000000194e-02, 2.260000000000000342e-01, 2.000000000000000389e-02, 5.000000000000000971e-03, 2.500000000000000486e-03, 2.000000000000000389e-02, 3.499999999999999778e-01, 2.999999999999999542e-02, 1.475000000000000200e-01, 5.000000000000000971e-03, 1.199999999999999817e-01, 1.000000000000000194e-02, 1.710000000000000142e+01, 1.670000000000000284e+01, 2.269999999999999929e+01, 6.999999999999999556e-01, 5.700000000000001066e+00, 1.000000000000000222e+00, 5.000000000000000278e-02, 4.700000000000000178e+00, 1.000000000000000056e-01, 1.000000000000000194e-02, 1.000000000000000194e-02, 2.000000000000000389e-02, 5.000000000000000971e-03, 2.184999999999999720e-01, 2.000000000000000389e-02, 3.499999999999999778e-01, 2.999999999999999542e-02, 5.000000000000000278e-02, 5.000000000000000971e-03, 1.199999999999999817e-01, 1.000000000000000194e-02, 1.710000000000000142e+01, 1.670000000000000284e+01, 2.269999999999999929e+01, 6.999999999999999556e-01, 5.700000000000001066e+00, 1.000000000000000222e+00, 2.000000000000000111e-01, 5.000000000000000278e-02, 4.000000000000000777e-02, 7.000000000000000666e-02, 7.499999999999998855e-03, 1.199999999999999817e-01, 1.158999999999999891e-01, 5.700000000000000205e-02, 5.000000000000000971e-03, 1.000000000000000194e-02, 2.500000000000000486e-03, 1.675000000000000100e-01, 2.250000000000000056e-01, 1.000000000000000194e-02, 2.500000000000000486e-03, 2.269999999999999929e+01, 5.000000000000000971e-03, 8.749999999999999445e-02, 2.899999999999999911e+00, 1.600000000000000355e+01, 1.140000000000000213e+01, 1.799999999999999822e+00, 1.000000000000000222e+00, 2.500000000000000555e-01, 1.825000000000000233e-01, 2.500000000000000052e-03, 5.450000000000000711e+01, 2.500000000000000486e-02, 1.060000000000000142e+01, 1.243000000000000077e-01, 2.000000000000000389e-01, 7.500000000000000590e-03, 5.000000000000000104e-03, 2.269999999999999929e+01, 1.499999999999999944e-01, 5.000000000000000971e-02, 1.450000000000000000e+01, 1.140000000000000213e+01, 2.250000000000000000e+01, 1.019999999999999929e+01, 1.000000000000000222e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00};
pfloat lp_beaconfd_b[173] = {3.000000000000000000e+01, 6.600000000000000000e+01, 3.700000000000000000e+01, 4.870000000000000000e+02, 3.500000000000000000e+01, 1.300000000000000000e+01, 1.030000000000000000e+02, 7.000000000000000000e+01, 4.500000000000000000e+01, 3.800000000000000000e+01, 2.200000000000000000e+01, 6.300000000000000000e+01, 1.440000000000000000e+02, 5.600000000000000000e+01, 1.280000000000000000e+02, 3.700000000000000000e+01, 5.000000000000000000e+01, 2.400000000000000000e+01, 1.140000000000000000e+02, 4.700000000000000000e+01, 2.960000000000000000e+02, 1.300000000000000000e+01, 5.900000000000000000e+01, 5.730000000000000000e+02, 3.100000000000000000e+01, 1.283000000000000000e+03, 1.480000000000000000e+02, 3.200000000000000000e+01, 2.100000000000000000e+01, 7.000000000000000000e+00, 3.210000000000000000e+02, 5.400000000000000000e+01, 4.100000000000000000e+01, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.080000000000000000e+02, 0.0, 0.0, 0.0, 6.000000000000000000e+02, 1.199999999999999858e+02, 2.000000000000000000e+01, 1.120000000000000000e+03, 6.400000000000000000e+02, 5.600000000000000000e+01, 0.0, 0.0, 0.0, 0.0, 0.0, 4.000000000000000000e+01, 0.0, 3.600000000000000000e+02, 4.000000000000000000e+00, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 9.999999999999998863e+02, 1.920000000000000284e+02, 6.500000000000000000e+01, 0.0, 0.0, 9.000000000000000000e+01, 2.150000000000000000e+02, 1.400000000000000000e+02, 0.0, 0.0, 0.0, 0.0, 0.0, 1.600000000000000000e+02, 0.0, 2.400000000000000000e+01, 5.000000000000000000e+00, 6.000000000000000000e+01, 1.893000000000000000e+03, 1.650000000000000000e+02, 4.099999999999999432e+02, 4.450000000000000000e+02, 4.149999999999999432e+02, 1.160000000000000000e+03, 4.200000000000000000e+02, 5.999999999999999289e+01, 4.700000000000000711e+01, 0.0, 0.0, 0.0, 0.0, 4.000000000000000000e+01, 0.0, 0.0, 1.370000000000000000e+02, 1.000000000000000000e+00, 0.0, 0.0, 0.0, 3.000000000000000000e+00, 0.0, 0.0, 1.800000000000000000e+01, 0.0};
 
static char * test_lp_beaconfd(){
pwork *mywork;
idxint exitflag;
 
/* print test name */
printf("===================================== lp_beaconfd =====================================\n");
 
/* set up data */
mywork = ECOS_setup(lp_beaconfd_n, lp_beaconfd_m, lp_beaconfd_p, lp_beaconfd_l, lp_beaconfd_ncones, lp_beaconfd_q, 0,
                    lp_beaconfd_Gpr, lp_beaconfd_Gjc, lp_beaconfd_Gir,
                    lp_beaconfd_Apr, lp_beaconfd_Ajc, lp_beaconfd_Air,
                    lp_beaconfd_c, lp_beaconfd_h, lp_beaconfd_b);
if( mywork != NULL ){
/* solve */
exitflag = ECOS_solve(mywork); }
else exitflag = ECOS_FATAL;
 
/* clean up memory */
ECOS_cleanup(mywork, 0);
 
mu_assert("lp_beaconfd: ECOS failed to produce outputflag OPTIMAL", exitflag == ECOS_OPTIMAL );
return 0;
}
