#include "ecos.h"
#include "minunit.h"
idxint lp_bandm_n = 472;
idxint lp_bandm_m = 472;
idxint lp_bandm_p = 305;
idxint lp_bandm_l = 472;
idxint lp_bandm_ncones = 0;
pfloat lp_bandm_c[472] = {-1.000000000000000000e+00, -1.000000000000000000e+00, 9.499999999999999556e-01, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 8.000000000000000167e-02, 0.0, 0.0, 0.0, 5.000000000000000000e+00, 0.0, 0.0, 5.000000000000000000e+00, 0.0, 0.0, 0.0, 5.000000000000000000e+00, 0.0, 0.0, 0.0, 1.000000000000000000e+01, 1.000000000000000000e+01, 1.000000000000000000e+00, 1.000000000000000000e+00, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.370000000000000107e-01, 0.0, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -3.190000000000000058e-01, 1.000000000000000000e+00, -3.400000000000000244e-01, -2.570999999999999952e-01, -4.730000000000000426e+00, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, -5.940000000000000391e+00, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, -4.730000000000000426e+00, 0.0, 0.0, 0.0, 0.0, 0.0, -5.940000000000000391e+00, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, -5.700000000000000205e-03, 0.0, 0.0, -5.715900000000001313e+00, -6.006300000000000416e+00, 0.0, 0.0, 0.0, -3.000000000000000000e+00, -5.000000000000000278e-02, -6.999999999999999556e-01, 0.0, -7.499999999999999722e-02, -1.949999999999999956e+00, -4.309999999999999609e+00, 2.099999999999999922e-01, -1.929999999999999938e+00, -1.929999999999999938e+00, -1.929999999999999938e+00, -1.929999999999999938e+00, 0.0, -4.070000000000000284e+00, 0.0, -3.879999999999999893e+00, -2.790000000000000036e+00, 8.000000000000000167e-02, -3.359999999999999876e+00, -3.359999999999999876e+00, -3.359999999999999876e+00, -3.060000000000000053e+00, -3.060000000000000053e+00, 0.0, -3.149999999999999911e+00, -3.149999999999999911e+00, 8.000000000000000167e-02, -3.299999999999999822e+00, -6.250000000000000000e+00, -4.299999999999999822e+00, 8.596000000000000307e-01, 8.596000000000000307e-01, -2.259999999999999787e+00, -2.259999999999999787e+00, -2.259999999999999787e+00, 1.700000000000000122e-01, -3.359999999999999876e+00, -3.359999999999999876e+00, -3.359999999999999876e+00, -3.359999999999999876e+00, -3.359999999999999876e+00, 7.539999999999999480e-02, 0.0, 0.0, 0.0, 0.0, 0.0, -2.600000000000000089e+00, -4.000000000000000000e+00, -4.000000000000000000e+00, -4.000000000000000000e+00, -4.000000000000000000e+00, -4.000000000000000000e+00, -4.000000000000000000e+00, -4.000000000000000000e+00, 7.539999999999999480e-02, -3.359999999999999876e+00, -3.359999999999999876e+00, -3.359999999999999876e+00, -3.359999999999999876e+00, -3.359999999999999876e+00, 7.539999999999999480e-02, -3.850000000000000089e+00, -3.850000000000000089e+00, -3.850000000000000089e+00, -4.730000000000000426e+00, 0.0, 0.0, -5.940000000000000391e+00, 0.0, 0.0, 0.0, 0.0, 0.0, -4.730000000000000426e+00, 0.0, 0.0, 0.0, -5.940000000000000391e+00, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, -3.299999999999999822e+00, 0.0, -2.500000000000000000e+00, 1.000000000000000056e-01, 2.000000000000000111e-01, 0.0, 0.0, 0.0, 0.0, 3.120000000000000107e+00, 0.0, 0.0, -3.940000000000000391e+00, -3.939999999999999947e+00, -3.939999999999999947e+00, -3.939999999999999947e+00, -3.940000000000000391e+00, -3.939999999999999947e+00, -3.940000000000000391e+00, -3.802999999999999936e+00, -3.802999999999999936e+00, -3.802999999999999936e+00, -8.000000000000000167e-02, -3.940000000000000391e+00, -3.940000000000000391e+00, -3.940000000000000391e+00, -3.939999999999999947e+00, -3.940000000000000391e+00, -3.940000000000000391e+00, -3.939999999999999947e+00, 7.228999999999999870e-01, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.000000000000000048e-04, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 2.729999999999999982e+00, 2.729999999999999982e+00, 2.319999999999999840e+00, 2.729999999999999982e+00, 0.0, 0.0, 3.069999999999999840e+00, 3.209999999999999964e+00, 2.779999999999999805e+00, 2.240000000000000213e+00, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 5.000000000000000104e-03, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 2.000000000000000042e-03, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.260000000000000009e+00, 0.0, 0.0, 0.0, 0.0, 3.699999999999999956e-01, 3.699999999999999956e-01, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.600000000000000033e-01, 8.800000000000000044e-01, 5.999999999999999778e-01, -5.730000000000000426e+00, 0.0, -6.690000000000000391e+00, -6.440000000000000391e+00, -6.499999999999999112e+00, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.370000000000000107e-01, 1.139999999999999902e+00, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.370000000000000107e-01, 1.370000000000000107e-01, 1.370000000000000107e-01, 1.370000000000000107e-01, 0.0, 0.0, 0.0, 3.720000000000000195e+00, 1.542000000000000037e+00, 2.069999999999999840e+00, 1.979999999999999982e+00, 1.963000000000000023e-01, -3.568499999999999783e+00, -3.369299999999999962e+00, -8.464000000000000412e-01, 0.0, 0.0, 2.850000000000000103e-02, 2.850000000000000103e-02, 2.850000000000000103e-02, 2.850000000000000103e-02, 0.0, 0.0, 0.0, -2.500000000000000444e+00, -3.359999999999999876e+00, 2.189299999999999802e+00, 2.189299999999999802e+00, 3.720000000000000195e+00, 3.130000000000000143e-02, 3.130000000000000143e-02, 0.0, 2.911700000000000177e+00, 0.0, 1.000000000000000021e-02, 0.0, 0.0, 0.0, 2.520000000000000018e+00, 2.649999999999999911e+00, 2.790000000000000036e+00, 2.149999999999999911e+00, 1.919999999999999929e+00, 2.699999999999999969e-02, 2.699999999999999969e-02, 0.0, 0.0, 0.0, 0.0, 0.0};
idxint lp_bandm_Gjc[473] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 261, 262, 263, 264, 265, 266, 267, 268, 269, 270, 271, 272, 273, 274, 275, 276, 277, 278, 279, 280, 281, 282, 283, 284, 285, 286, 287, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 365, 366, 367, 368, 369, 370, 371, 372, 373, 374, 375, 376, 377, 378, 379, 380, 381, 382, 383, 384, 385, 386, 387, 388, 389, 390, 391, 392, 393, 394, 395, 396, 397, 398, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 432, 433, 434, 435, 436, 437, 438, 439, 440, 441, 442, 443, 444, 445, 446, 447, 448, 449, 450, 451, 452, 453, 454, 455, 456, 457, 458, 459, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472};
idxint lp_bandm_Gir[472] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 261, 262, 263, 264, 265, 266, 267, 268, 269, 270, 271, 272, 273, 274, 275, 276, 277, 278, 279, 280, 281, 282, 283, 284, 285, 286, 287, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 365, 366, 367, 368, 369, 370, 371, 372, 373, 374, 375, 376, 377, 378, 379, 380, 381, 382, 383, 384, 385, 386, 387, 388, 389, 390, 391, 392, 393, 394, 395, 396, 397, 398, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 432, 433, 434, 435, 436, 437, 438, 439, 440, 441, 442, 443, 444, 445, 446, 447, 448, 449, 450, 451, 452, 453, 454, 455, 456, 457, 458, 459, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471};
pfloat lp_bandm_Gpr[472] = {-1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000222e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000222e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999997780e-01, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999995559e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999996669e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000222e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00};
pfloat lp_bandm_h[472] = {0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0};
idxint *lp_bandm_q = NULL;
idxint lp_bandm_Ajc[473] = {0, 1, 2, 3, 4, 6, 7, 8, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 49, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 111, 112, 113, 114, 115, 116, 117, 118, 119, 123, 124, 125, 126, 127, 128, 129, 130, 134, 135, 136, 137, 138, 139, 140, 144, 145, 146, 147, 148, 149, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 176, 178, 181, 184, 185, 186, 187, 188, 189, 191, 192, 193, 195, 198, 200, 201, 204, 207, 209, 211, 213, 215, 219, 221, 223, 226, 230, 234, 237, 241, 243, 246, 250, 252, 254, 265, 273, 276, 279, 287, 294, 302, 304, 312, 319, 327, 335, 345, 346, 349, 352, 354, 356, 359, 363, 366, 369, 375, 381, 387, 393, 399, 400, 406, 412, 418, 424, 432, 433, 437, 442, 446, 453, 456, 458, 465, 469, 472, 474, 475, 476, 482, 485, 487, 490, 498, 502, 505, 509, 511, 512, 513, 518, 525, 533, 536, 540, 544, 548, 552, 556, 560, 570, 574, 578, 582, 586, 596, 605, 609, 613, 625, 629, 633, 635, 639, 643, 647, 659, 668, 672, 676, 680, 692, 695, 707, 728, 749, 752, 755, 758, 761, 765, 768, 771, 774, 778, 781, 784, 787, 790, 793, 796, 799, 806, 815, 826, 839, 840, 841, 853, 865, 872, 879, 885, 891, 897, 902, 905, 909, 927, 945, 958, 980, 989, 995, 1007, 1028, 1049, 1062, 1068, 1082, 1097, 1112, 1130, 1148, 1160, 1178, 1196, 1203, 1224, 1235, 1245, 1248, 1252, 1256, 1267, 1276, 1290, 1304, 1317, 1318, 1332, 1345, 1346, 1353, 1373, 1390, 1406, 1421, 1424, 1427, 1430, 1433, 1435, 1438, 1441, 1450, 1458, 1465, 1473, 1480, 1487, 1489, 1491, 1498, 1506, 1516, 1526, 1536, 1539, 1544, 1549, 1558, 1566, 1574, 1582, 1590, 1598, 1606, 1615, 1626, 1637, 1647, 1654, 1663, 1671, 1679, 1687, 1696, 1705, 1715, 1723, 1731, 1740, 1751, 1759, 1767, 1770, 1773, 1776, 1782, 1784, 1789, 1794, 1806, 1813, 1820, 1827, 1834, 1846, 1858, 1865, 1872, 1879, 1892, 1899, 1906, 1913, 1925, 1937, 1944, 1951, 1959, 1969, 1976, 1985, 1988, 1996, 2003, 2017, 2030, 2043, 2057, 2067, 2077, 2085, 2090, 2091, 2099, 2108, 2117, 2126, 2133, 2146, 2154, 2157, 2165, 2177, 2189, 2194, 2201, 2206, 2213, 2225, 2234, 2239, 2244, 2245, 2257, 2279, 2301, 2323, 2345, 2367, 2381, 2395, 2415, 2434, 2453, 2473, 2494};
idxint lp_bandm_Air[2494] = {0, 9, 74, 302, 3, 4, 3, 91, 74, 175, 175, 95, 96, 97, 98, 102, 86, 303, 103, 104, 73, 109, 82, 110, 80, 105, 106, 113, 114, 78, 49, 54, 140, 142, 34, 35, 40, 36, 57, 38, 32, 66, 54, 249, 68, 191, 192, 197, 198, 53, 55, 256, 193, 23, 62, 63, 26, 56, 24, 25, 28, 64, 27, 149, 29, 30, 31, 42, 51, 52, 150, 129, 131, 210, 137, 138, 139, 120, 297, 122, 123, 140, 141, 142, 142, 135, 136, 124, 125, 143, 153, 154, 151, 155, 157, 159, 160, 161, 162, 163, 164, 165, 168, 169, 170, 173, 174, 167, 148, 34, 51, 208, 199, 255, 250, 198, 227, 251, 256, 74, 223, 227, 304, 224, 218, 182, 183, 219, 220, 304, 88, 214, 225, 227, 226, 215, 180, 181, 216, 221, 175, 227, 229, 232, 233, 230, 184, 185, 231, 100, 177, 179, 227, 235, 236, 234, 186, 187, 237, 239, 240, 241, 293, 242, 243, 244, 294, 245, 246, 247, 295, 296, 248, 211, 198, 212, 156, 256, 69, 103, 119, 70, 72, 118, 197, 53, 253, 204, 254, 170, 252, 298, 259, 163, 262, 42, 44, 86, 86, 303, 206, 57, 58, 59, 58, 59, 65, 57, 59, 103, 104, 66, 103, 105, 106, 65, 66, 67, 105, 40, 302, 72, 73, 43, 72, 300, 43, 45, 72, 300, 43, 72, 299, 300, 40, 43, 79, 40, 43, 45, 79, 79, 80, 40, 43, 81, 40, 43, 45, 81, 81, 82, 189, 199, 28, 30, 83, 135, 136, 140, 197, 198, 199, 212, 299, 30, 32, 38, 42, 84, 136, 199, 292, 6, 35, 71, 6, 35, 76, 35, 36, 37, 38, 78, 206, 207, 208, 35, 36, 38, 78, 206, 207, 208, 35, 36, 38, 40, 78, 206, 207, 208, 109, 110, 65, 72, 245, 246, 247, 248, 295, 296, 66, 72, 245, 246, 248, 295, 296, 67, 72, 245, 246, 247, 248, 295, 296, 72, 245, 246, 247, 248, 249, 295, 296, 51, 72, 209, 245, 246, 247, 248, 249, 295, 296, 246, 51, 67, 209, 51, 68, 209, 58, 116, 57, 116, 57, 58, 116, 58, 59, 65, 115, 65, 66, 107, 65, 66, 107, 65, 108, 239, 240, 241, 293, 66, 108, 239, 240, 241, 293, 67, 108, 239, 240, 241, 293, 68, 108, 239, 240, 241, 293, 108, 239, 240, 241, 249, 293, 240, 65, 109, 242, 243, 244, 294, 66, 109, 242, 243, 244, 294, 67, 109, 242, 243, 244, 294, 68, 109, 242, 243, 244, 294, 51, 109, 209, 242, 243, 244, 249, 294, 243, 45, 85, 300, 301, 45, 85, 299, 300, 301, 45, 85, 299, 301, 74, 217, 219, 223, 224, 227, 304, 217, 224, 227, 217, 227, 88, 89, 213, 214, 225, 226, 227, 89, 213, 226, 227, 89, 213, 227, 213, 214, 214, 89, 175, 227, 228, 229, 232, 233, 227, 228, 233, 227, 228, 184, 228, 229, 100, 176, 177, 178, 179, 227, 235, 236, 176, 178, 227, 236, 176, 178, 227, 176, 178, 179, 186, 176, 177, 177, 178, 34, 35, 75, 199, 209, 22, 34, 35, 42, 43, 70, 209, 34, 35, 37, 40, 77, 206, 207, 208, 36, 38, 40, 37, 206, 207, 208, 35, 206, 207, 208, 36, 206, 207, 208, 38, 206, 207, 208, 40, 206, 207, 208, 8, 191, 192, 199, 21, 33, 34, 144, 188, 263, 264, 265, 266, 267, 74, 147, 197, 206, 55, 101, 237, 238, 62, 101, 237, 238, 63, 101, 237, 238, 53, 64, 101, 148, 149, 156, 237, 238, 255, 256, 53, 64, 101, 148, 156, 237, 238, 255, 256, 65, 101, 237, 238, 66, 101, 237, 238, 27, 101, 141, 143, 191, 192, 197, 198, 199, 212, 237, 238, 24, 101, 237, 238, 30, 101, 237, 238, 101, 102, 98, 192, 221, 222, 24, 98, 221, 222, 25, 98, 221, 222, 27, 98, 141, 143, 191, 192, 197, 198, 199, 212, 221, 222, 28, 98, 140, 197, 198, 199, 212, 221, 222, 30, 98, 221, 222, 42, 98, 221, 222, 12, 48, 49, 117, 20, 27, 123, 141, 191, 192, 197, 198, 199, 211, 212, 272, 20, 25, 297, 22, 28, 32, 122, 140, 197, 198, 199, 211, 212, 276, 277, 26, 27, 28, 32, 122, 123, 140, 141, 188, 191, 192, 197, 198, 199, 211, 212, 272, 273, 274, 275, 277, 21, 26, 27, 28, 32, 122, 123, 140, 141, 191, 192, 197, 198, 199, 211, 212, 272, 273, 274, 275, 277, 21, 24, 266, 24, 188, 263, 21, 33, 267, 33, 188, 264, 33, 34, 209, 265, 20, 22, 268, 22, 194, 269, 194, 195, 270, 34, 195, 209, 271, 30, 38, 290, 30, 38, 291, 30, 38, 292, 40, 201, 284, 29, 39, 285, 39, 201, 286, 40, 202, 287, 28, 32, 140, 197, 198, 199, 276, 27, 32, 122, 123, 141, 197, 198, 199, 273, 26, 27, 28, 122, 123, 140, 141, 191, 198, 199, 288, 26, 27, 28, 122, 123, 140, 141, 191, 192, 197, 198, 199, 289, 274, 275, 27, 28, 122, 123, 140, 141, 191, 192, 197, 198, 199, 274, 27, 28, 122, 123, 140, 141, 191, 192, 197, 198, 199, 275, 26, 27, 141, 197, 198, 199, 272, 28, 32, 140, 197, 198, 199, 277, 21, 34, 42, 43, 209, 278, 21, 34, 42, 43, 209, 279, 21, 34, 42, 43, 209, 282, 34, 42, 43, 209, 283, 42, 43, 280, 34, 43, 209, 281, 0, 24, 26, 33, 34, 35, 188, 191, 192, 193, 197, 198, 199, 209, 211, 263, 264, 265, 2, 21, 24, 26, 33, 34, 35, 191, 192, 193, 197, 198, 199, 209, 211, 265, 266, 267, 7, 21, 24, 33, 34, 35, 197, 199, 209, 211, 265, 266, 267, 3, 20, 22, 25, 26, 34, 35, 191, 192, 193, 194, 195, 197, 198, 199, 209, 211, 268, 269, 270, 271, 297, 4, 20, 22, 25, 34, 194, 195, 199, 209, 5, 34, 35, 196, 199, 209, 6, 24, 26, 33, 188, 192, 193, 197, 198, 199, 263, 264, 9, 21, 24, 26, 33, 34, 35, 188, 191, 192, 193, 197, 198, 199, 209, 211, 263, 264, 265, 266, 267, 1, 21, 24, 26, 33, 34, 35, 188, 191, 192, 193, 197, 198, 199, 209, 211, 263, 264, 265, 266, 267, 10, 21, 24, 26, 34, 189, 191, 192, 193, 197, 198, 199, 209, 28, 30, 38, 146, 199, 292, 29, 39, 40, 128, 129, 197, 198, 199, 200, 201, 202, 203, 204, 211, 29, 34, 39, 40, 126, 197, 198, 199, 200, 201, 202, 203, 204, 209, 211, 29, 34, 39, 40, 127, 197, 198, 199, 200, 201, 202, 203, 204, 209, 211, 29, 34, 39, 40, 128, 197, 198, 199, 200, 201, 202, 203, 204, 209, 211, 284, 285, 286, 29, 34, 39, 40, 129, 197, 198, 199, 200, 201, 202, 203, 204, 209, 211, 284, 285, 286, 29, 39, 40, 130, 131, 197, 199, 200, 201, 202, 204, 211, 29, 34, 39, 40, 130, 197, 198, 199, 200, 201, 202, 204, 210, 211, 284, 285, 286, 287, 29, 34, 39, 40, 131, 197, 198, 199, 200, 201, 202, 204, 210, 211, 284, 285, 286, 287, 190, 191, 192, 193, 197, 198, 200, 26, 27, 28, 39, 122, 123, 140, 141, 191, 192, 197, 198, 199, 211, 212, 272, 274, 275, 277, 288, 289, 30, 38, 124, 198, 199, 201, 211, 212, 290, 291, 292, 28, 30, 122, 124, 125, 140, 197, 198, 199, 212, 34, 203, 209, 40, 145, 202, 203, 202, 206, 207, 208, 29, 39, 40, 197, 199, 200, 201, 202, 204, 209, 210, 29, 39, 40, 199, 200, 201, 202, 204, 209, 23, 36, 37, 40, 41, 132, 197, 198, 199, 205, 206, 207, 208, 211, 23, 36, 37, 40, 41, 133, 197, 198, 199, 205, 206, 207, 208, 211, 23, 36, 37, 41, 132, 133, 197, 198, 199, 205, 206, 207, 208, 133, 23, 35, 36, 37, 41, 134, 197, 198, 199, 205, 206, 207, 208, 211, 23, 36, 37, 41, 196, 197, 198, 199, 205, 206, 207, 208, 211, 134, 190, 191, 192, 193, 197, 198, 205, 26, 27, 28, 32, 41, 122, 123, 140, 141, 191, 192, 197, 198, 199, 211, 212, 272, 274, 275, 277, 21, 33, 34, 42, 43, 120, 121, 197, 198, 199, 209, 211, 212, 278, 279, 280, 281, 21, 34, 42, 43, 120, 121, 194, 197, 198, 199, 209, 211, 212, 280, 281, 282, 34, 42, 43, 120, 121, 195, 197, 198, 199, 209, 211, 212, 280, 281, 283, 42, 43, 121, 42, 43, 121, 34, 194, 209, 34, 195, 209, 42, 43, 34, 43, 209, 21, 42, 300, 28, 45, 135, 140, 197, 198, 199, 212, 299, 30, 32, 38, 42, 44, 136, 199, 292, 30, 38, 42, 44, 136, 199, 292, 30, 32, 38, 136, 199, 292, 300, 301, 30, 38, 136, 199, 292, 300, 301, 28, 32, 140, 197, 198, 199, 212, 42, 44, 300, 301, 28, 140, 197, 198, 199, 212, 299, 26, 55, 190, 191, 192, 193, 197, 198, 30, 31, 38, 137, 190, 191, 193, 197, 199, 292, 30, 31, 38, 138, 190, 191, 193, 197, 199, 292, 30, 31, 38, 139, 190, 191, 193, 197, 199, 292, 191, 192, 199, 74, 87, 182, 217, 219, 99, 175, 184, 228, 231, 182, 183, 200, 205, 217, 218, 219, 220, 223, 182, 183, 192, 217, 218, 219, 220, 223, 25, 182, 183, 217, 218, 219, 220, 223, 24, 182, 183, 217, 218, 219, 220, 223, 26, 182, 183, 217, 218, 219, 220, 223, 23, 182, 183, 217, 218, 219, 220, 223, 29, 182, 183, 217, 218, 219, 220, 223, 30, 182, 183, 217, 218, 219, 220, 223, 304, 28, 182, 183, 197, 199, 217, 218, 219, 220, 223, 304, 28, 182, 183, 197, 199, 217, 218, 219, 220, 223, 304, 28, 182, 183, 197, 217, 218, 219, 220, 223, 304, 31, 183, 217, 218, 219, 220, 223, 89, 180, 181, 200, 205, 213, 215, 216, 225, 89, 180, 181, 192, 213, 215, 216, 225, 89, 180, 181, 193, 213, 215, 216, 225, 25, 89, 180, 181, 213, 215, 216, 225, 28, 89, 180, 181, 197, 213, 215, 216, 225, 28, 180, 181, 197, 199, 213, 215, 216, 225, 28, 89, 180, 181, 197, 199, 213, 215, 216, 225, 31, 89, 180, 181, 213, 215, 216, 225, 30, 89, 180, 181, 213, 215, 216, 225, 27, 89, 180, 181, 199, 213, 215, 216, 225, 27, 89, 180, 181, 191, 192, 197, 213, 215, 216, 225, 26, 89, 180, 181, 213, 215, 216, 225, 29, 89, 180, 181, 213, 215, 216, 225, 87, 88, 95, 74, 88, 96, 74, 88, 97, 25, 27, 31, 90, 193, 227, 90, 91, 25, 31, 92, 193, 227, 25, 31, 93, 193, 227, 26, 27, 28, 94, 141, 143, 191, 192, 197, 198, 199, 212, 55, 184, 185, 228, 230, 231, 232, 62, 184, 185, 228, 230, 231, 232, 63, 184, 185, 228, 230, 231, 232, 56, 184, 185, 228, 230, 231, 232, 53, 64, 148, 167, 184, 185, 228, 230, 231, 232, 255, 256, 53, 64, 148, 167, 184, 185, 228, 230, 231, 232, 255, 256, 64, 184, 185, 228, 230, 231, 232, 29, 184, 185, 228, 230, 231, 232, 30, 184, 185, 228, 230, 231, 232, 53, 64, 148, 149, 156, 184, 185, 228, 230, 231, 232, 255, 256, 55, 176, 178, 186, 187, 234, 235, 62, 176, 178, 186, 187, 234, 235, 56, 176, 178, 186, 187, 234, 235, 53, 64, 148, 167, 176, 178, 186, 187, 234, 235, 255, 256, 53, 64, 148, 167, 176, 178, 186, 187, 234, 235, 255, 256, 64, 176, 178, 186, 187, 234, 235, 29, 176, 178, 186, 187, 234, 235, 27, 176, 178, 186, 187, 199, 234, 235, 27, 176, 178, 186, 187, 191, 192, 197, 234, 235, 31, 176, 178, 186, 187, 234, 235, 51, 53, 65, 155, 156, 167, 209, 255, 256, 46, 66, 69, 48, 54, 60, 168, 172, 173, 174, 250, 13, 60, 168, 171, 173, 174, 250, 11, 49, 54, 60, 168, 169, 173, 174, 250, 251, 252, 253, 254, 298, 12, 54, 60, 168, 169, 173, 174, 250, 251, 252, 253, 254, 298, 19, 54, 60, 168, 169, 173, 174, 250, 251, 252, 253, 254, 298, 54, 60, 71, 168, 169, 173, 174, 250, 251, 252, 253, 254, 261, 298, 51, 52, 53, 59, 113, 114, 157, 209, 255, 260, 51, 52, 53, 59, 113, 114, 157, 209, 255, 260, 51, 52, 53, 59, 157, 209, 255, 260, 51, 54, 152, 165, 209, 152, 53, 54, 58, 61, 153, 255, 256, 258, 53, 54, 57, 58, 61, 154, 255, 256, 258, 53, 54, 58, 61, 153, 154, 255, 256, 258, 53, 54, 57, 58, 61, 154, 255, 256, 258, 51, 54, 58, 61, 209, 256, 258, 53, 55, 56, 61, 64, 65, 148, 155, 156, 167, 255, 256, 259, 53, 57, 65, 155, 156, 167, 255, 256, 46, 112, 257, 46, 47, 50, 57, 66, 111, 255, 257, 12, 46, 50, 51, 53, 63, 67, 68, 151, 209, 255, 258, 12, 47, 50, 51, 53, 63, 67, 68, 151, 209, 255, 258, 13, 50, 63, 255, 258, 48, 50, 63, 67, 68, 255, 258, 49, 67, 68, 255, 258, 151, 159, 160, 161, 162, 164, 255, 14, 50, 51, 52, 55, 62, 66, 151, 209, 249, 255, 258, 50, 53, 64, 148, 155, 156, 167, 255, 256, 159, 160, 161, 164, 165, 159, 160, 161, 165, 166, 166, 148, 155, 156, 158, 159, 160, 161, 162, 164, 167, 255, 256, 15, 51, 53, 55, 56, 64, 65, 148, 155, 156, 159, 160, 161, 162, 164, 165, 167, 209, 255, 256, 259, 262, 16, 51, 53, 55, 56, 64, 65, 148, 155, 156, 159, 160, 161, 162, 164, 165, 167, 209, 255, 256, 259, 262, 17, 51, 53, 55, 56, 64, 65, 148, 155, 156, 159, 160, 161, 162, 164, 165, 167, 209, 255, 256, 259, 262, 18, 51, 53, 55, 56, 64, 65, 148, 155, 156, 159, 160, 161, 162, 164, 165, 167, 209, 255, 256, 259, 262, 19, 51, 53, 55, 56, 64, 65, 148, 155, 156, 159, 160, 161, 162, 164, 165, 167, 209, 255, 256, 259, 262, 53, 55, 56, 60, 64, 65, 148, 155, 156, 165, 167, 255, 256, 259, 53, 55, 56, 64, 65, 148, 155, 156, 165, 167, 255, 256, 259, 261, 51, 52, 53, 55, 56, 64, 65, 148, 150, 155, 156, 159, 162, 164, 167, 209, 255, 256, 259, 262, 51, 53, 55, 56, 64, 65, 148, 155, 156, 159, 162, 164, 167, 209, 255, 256, 259, 260, 262, 51, 53, 55, 56, 59, 64, 65, 148, 155, 156, 159, 162, 164, 167, 209, 255, 256, 259, 262, 46, 51, 53, 55, 56, 64, 65, 148, 155, 156, 159, 162, 164, 167, 209, 255, 256, 257, 259, 262, 51, 53, 55, 56, 64, 65, 148, 155, 156, 159, 160, 161, 162, 164, 167, 209, 255, 256, 258, 259, 262};
pfloat lp_bandm_Apr[2494] = {1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+02, 1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+02, -1.000000000000000000e+02, -4.353000000000000114e+01, -1.000000000000000000e+02, 1.000000000000000000e+02, -4.353000000000000114e+01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.200000000000000011e-01, 2.200000000000000289e-01, -1.000000000000000000e+00, 1.000000000000000222e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000222e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999997780e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 9.999999999999998224e+00, 1.000000000000000000e+01, 1.000000000000000000e+00, 9.999999999999998224e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998224e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.600000000000000089e-01, -9.499999999999998446e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -2.994999999999999885e-01, 1.000000000000000000e+00, 9.999999999999998890e-01, 9.999999999999998890e-01, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.600000000000000089e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -3.220000000000000084e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000222e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -6.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -6.000000000000000000e+00, 1.369900000000000118e+00, 3.425000000000000266e-01, 1.000000000000000000e+00, 1.538500000000000201e+00, 5.384999999999999787e-01, 1.000000000000000000e+00, 1.000000000000000000e+02, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+02, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 7.999999999999999334e-01, 2.000000000000000111e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.600000000000000033e-01, 5.999999999999999778e-01, 2.399999999999999911e-01, 8.100000000000000533e-01, 8.999999999999999667e-02, 1.000000000000000056e-01, 2.682999999999999829e-01, 7.317000000000000171e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 7.199999999999999734e-01, 1.300000000000000044e-01, 1.499999999999999944e-01, 1.000000000000000000e+00, 1.000000000000000000e+02, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 7.500000000000000000e-01, 1.000000000000000000e+00, 2.499999999999999722e-01, 7.500000000000000000e-01, 1.499999999999999944e-01, 1.000000000000000000e+00, 1.000000000000000056e-01, 6.999999999999999556e-01, 1.000000000000000000e+00, 1.400000000000000133e-01, 1.600000000000000033e-01, 5.500000000000000711e+01, 4.500000000000001221e-01, 1.000000000000000222e+00, 5.500000000000000711e+01, 3.499999999999999778e-01, 1.000000000000000194e-01, 1.000000000000000222e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 3.500000000000000000e+01, 6.500000000000000222e-01, 1.000000000000000000e+00, 3.500000000000000000e+01, 5.999999999999999778e-01, 5.000000000000000971e-02, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.660000000000000142e+00, 1.941500000000000057e+02, -6.326000000000000512e+01, 9.999999999999998890e-01, 1.376799999999999802e+00, 1.569799999999999862e+00, -2.087600000000000566e+00, 1.311999999999999922e+01, 2.817999999999999616e+00, 2.056999999999999940e+00, 1.597000000000000197e+00, -4.400999999999999357e-01, -1.867000000000000171e+01, 2.777999999999999758e+01, -2.021999999999999631e-01, 1.111099999999999977e+00, 1.000000000000000000e+00, 9.200999999999999179e-01, -1.050000000000000044e+00, -3.889000000000000234e-01, 2.800000000000000266e-01, 7.199999999999999734e-01, -1.000000000000000000e+00, 2.800000000000000266e-01, 7.199999999999999734e-01, 1.000000000000000000e+00, 4.056000000000000716e-01, 2.099999999999999922e-01, 1.992999999999999616e+01, 1.399999999999999856e-01, 1.000000000000000000e+00, 4.510000000000000814e-02, -2.390000000000000568e+00, -1.217999999999999916e-01, 3.567000000000000171e-01, 3.622000000000000774e-01, 2.415000000000000202e-01, 1.000000000000000222e+00, 3.960000000000001019e-02, -2.099000000000000199e+00, -1.068999999999999811e-01, 3.567000000000000171e-01, 1.522000000000000297e-01, 1.015000000000000208e-01, 3.500000000000000000e+01, 1.000000000000000000e+00, 3.960000000000000325e-02, -2.099000000000000643e+00, -1.068999999999999811e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, -6.099999999999997868e+00, 1.099999999999999822e+01, 7.500000000000000000e+00, -3.499999999999999778e-01, 4.400000000000000000e+01, -1.500000000000000000e+01, 9.999999999999998890e-01, 9.999999999999998890e-01, -5.799999999999999822e+00, 3.099999999999999645e+00, -2.700000000000000178e-01, 3.700000000000000711e+01, -2.100000000000000000e+01, 9.999999999999997780e-01, 9.999999999999998890e-01, -6.400000000000000355e+00, 7.199999999999999289e+00, 3.300000000000000266e+00, 8.499999999999998668e-01, 3.400000000000000000e+01, -1.899999999999999645e+01, 1.000000000000000000e+00, 1.699999999999999956e+00, -2.399999999999999467e+00, -4.400000000000001243e+00, -1.499999999999999944e-01, 1.000000000000000000e+00, -3.500000000000000711e+01, 5.000000000000000888e+00, 3.116000000000000436e-01, 1.000000000000000000e+00, 2.800000000000000711e+00, 8.099999999999999645e+00, -1.399999999999999911e+00, -5.100000000000000533e+00, -5.000000000000000971e-02, 6.884000000000001229e-01, -4.200000000000000711e+01, 1.100000000000000000e+01, -3.199999999999999289e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -9.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -9.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.345999999999999863e-01, 2.000000000000000111e-01, 8.000000000000000444e-01, 1.000000000000000000e+00, 5.400000000000000355e-01, 1.000000000000000056e-01, 3.599999999999999867e-01, 1.000000000000000000e+00, 2.999999999999999334e-01, 6.999999999999999556e-01, 1.000000000000000000e+00, 5.999999999999998668e-01, 4.000000000000000222e-01, 1.000000000000000000e+00, 9.999999999999997780e-01, 9.999999999999998890e-01, -2.100000000000000533e+00, 3.999999999999999556e+00, -6.999999999999998446e-01, 7.999999999999999112e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, -1.800000000000000266e+00, -3.900000000000000799e+00, -6.199999999999998845e-01, 4.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.400000000000000355e+00, 2.000000000000000944e-01, 5.000000000000001110e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 9.000000000000001332e-01, -1.400000000000000133e+00, 1.300000000000000044e+00, -7.400000000000000000e+01, 9.999999999999997780e-01, 5.700000000000001066e+00, -9.399999999999998579e+00, -4.999999999999999445e-01, 1.000000000000000000e+00, -6.500000000000000000e+01, -3.000000000000000000e+00, 9.999999999999997780e-01, 9.999999999999998890e-01, -1.719999999999999929e+01, 7.999999999999999112e+00, -5.499999999999999334e-01, 3.199999999999999512e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, -1.690000000000000213e+01, 1.000000000000000056e-01, -4.699999999999998623e-01, 3.699999999999999956e-01, 9.999999999999997780e-01, 1.000000000000000000e+00, -1.750000000000000000e+01, 4.200000000000000178e+00, 6.499999999999998002e-01, 3.400000000000000244e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, -1.419999999999999929e+01, 2.599999999999999645e+00, 1.449999999999999734e+00, -2.200000000000000011e-01, 3.115999999999999326e-01, 9.999999999999998890e-01, 2.799999999999999378e+00, -3.000000000000000000e+00, -4.400000000000000355e+00, -2.499999999999999445e-01, 6.883999999999999009e-01, -8.000000000000000167e-02, -3.000000000000000000e+00, 2.000000000000000389e-01, 1.000000000000000000e+00, 2.000000000000000111e-01, 5.999999999999999778e-01, 1.799999999999999933e-01, 1.000000000000000000e+00, 1.400000000000000133e-01, 8.000000000000000167e-02, 5.999999999999999778e-01, 1.499999999999999944e-01, 1.000000000000000000e+00, 2.300000000000000100e-01, 6.199999999999999956e-01, 1.000000000000000000e+00, 1.300000000000000266e+00, -3.999999999999999667e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.760000000000000175e-01, -9.499999999999998446e-01, 1.350000000000000311e+00, 9.999999999999998890e-01, 6.300000000000000044e-02, 1.000000000000000222e+00, 3.230000000000000232e-02, 1.000000000000000000e+00, 5.648999999999999577e-01, 6.999999999999999556e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -2.097999999999999865e-01, 6.052499999999999547e-01, 7.500000000000000000e-01, 1.000000000000000000e+00, 6.729999999999999871e-02, 8.070000000000000506e-01, 1.000000000000000000e+00, 5.269999999999999685e-02, 2.999999999999999889e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.759999999999999898e-01, 1.900000000000000355e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 6.300000000000000044e-02, 2.100000000000000533e+00, 1.000000000000000000e+00, 2.400000000000000050e-02, 9.999999999999998890e-01, -4.999999999999999584e-02, 2.999999999999999889e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, -1.000000000000000000e+00, 7.299999999999999822e-01, -1.000000000000000000e+00, -2.323000000000000065e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 8.000000000000000444e-01, 7.199999999999999734e-01, 6.729999999999999871e-02, 1.000000000000000000e+00, 1.000000000000000000e+00, 8.699999999999999956e-01, 5.879999999999999810e-02, 2.999999999999999889e-01, 4.555999999999999495e-01, 1.000000000000000000e+00, 5.000000000000000278e-02, 4.000000000000000222e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 2.999999999999999889e-01, 6.999999999999999556e-01, 1.000000000000000000e+00, -5.899999999999999689e-01, -4.500000000000000111e-01, 1.000000000000000056e-01, 8.000000000000000167e-02, 5.799999999999999600e-01, 8.000000000000000167e-02, 2.500000000000000000e-01, -1.000000000000000000e+00, -1.199999999999999956e-01, 1.799999999999999933e-01, 3.932000000000000495e-01, 1.932000000000000028e+01, 1.900000000000000000e+01, 1.000000000000000222e+00, 4.359999999999999987e-02, -2.311000000000000387e+00, -1.177000000000000268e-01, -3.333999999999999186e-01, -6.665999999999999703e-01, 1.000000000000000000e+02, 1.000000000000000000e+02, -1.000000000000000000e+00, -1.040000000000000142e+02, -1.579999999999999538e+01, 1.000000000000000222e+00, -1.000000000000000222e+00, 5.900000000000000000e+01, -1.460000000000000187e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -6.900000000000000000e+01, -6.799999999999999822e+00, 9.999999999999998890e-01, -9.999999999999998890e-01, -9.900000000000000000e+01, -2.080000000000000071e+01, 1.000000000000000000e+02, -1.000000000000000000e+00, -8.900000000000000000e+01, -1.679999999999999716e+01, 1.000000000000000000e+00, -3.999999999999999289e+01, -6.000000000000000711e+01, -5.560000000000000497e-01, -7.099999999999998535e-01, -7.000000000000000000e+00, 8.000000000000000444e-01, 9.999999999999995559e-01, -2.900000000000000355e-01, -2.899999999999999800e-01, -2.899999999999999245e-01, -9.999999999999997780e-01, -7.099999999999998535e-01, -7.099999999999999645e-01, -1.000000000000000000e+00, 9.999999999999998890e-01, -5.832999999999999829e+01, -4.167000000000000148e-01, 1.000000000000000000e+02, 1.000000000000000000e+00, -3.399999999999999911e+00, 6.750000000000000000e+01, 9.999999999999998890e-01, 9.999999999999998890e-01, -1.800000000000000044e+00, 5.500000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.800000000000000266e+00, 8.500000000000000000e+00, 1.314999999999999858e+01, 8.684999999999999387e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 6.600000000000000311e-01, -1.800000000000000044e+00, -1.999999999999999556e-01, 1.574999999999999734e+00, 6.599999999999998757e+00, 1.119999999999999751e+01, 8.880000000000001226e-01, 9.999999999999998890e-01, -9.999999999999998890e-01, 7.250000000000000888e-01, -1.300000000000000044e+00, -1.799999999999999822e+00, 1.574999999999999956e+00, 6.600000000000000533e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 3.899999999999999911e+00, -2.500000000000000000e+00, 9.999999999999997780e-01, 9.999999999999997780e-01, 3.299999999999999378e+00, -2.499999999999999556e+00, 7.900000000000001421e+01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 9.599999999999999645e-01, 3.200000000000000622e-01, 1.972000000000000242e+01, 7.199999999999999734e-01, 2.238999999999999879e+00, 9.679999999999999716e-01, -1.599999999999999867e+00, -4.999999999999998335e-01, 1.000000000000000000e+02, 1.000000000000000000e+00, -2.599999999999999645e+00, 1.599999999999999867e+00, 1.000000000000000000e+02, 1.000000000000000000e+00, 1.199999999999999734e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+02, -4.700000000000001066e+00, 5.750000000000000000e+01, 1.000000000000000000e+02, 1.000000000000000000e+00, -2.700000000000000178e+00, 1.599999999999999867e+00, 1.000000000000000000e+02, 1.000000000000000000e+00, -2.700000000000000178e+00, 1.899999999999999689e+00, 7.900000000000001421e+01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 9.599999999999999645e-01, 3.200000000000000622e-01, 1.972000000000000242e+01, 7.199999999999999734e-01, 2.238999999999999879e+00, 9.679999999999999716e-01, -1.699999999999999956e+00, -4.999999999999999445e-01, 9.299999999999998579e+01, 1.000000000000000000e+00, -1.000000000000000000e+00, 6.999999999999999112e+00, 1.350000000000000089e+00, 2.027000000000000135e+00, 7.650000000000001243e-01, -7.000000000000000666e-01, -1.499999999999999778e+00, 1.000000000000000000e+02, 1.000000000000000000e+00, 1.100000000000000089e+00, -9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 1.800000000000000044e+00, -1.499999999999999778e+00, 1.000000000000000222e+00, -3.395000000000000240e-01, -1.156000000000000227e+01, 5.422000000000000153e-01, 9.999999999999996447e+00, -8.156999999999997897e+01, 9.999999999999997780e-01, 9.999999999999997780e-01, -6.899999999999997247e-01, -2.299999999999999267e-01, -1.750999999999999446e+01, -4.239999999999999325e+00, -2.611999999999999655e+00, -5.999999999999998390e-02, -1.056999999999999718e+00, -9.999999999999997780e-01, 9.999999999999998224e+00, -1.000000000000000000e+02, 1.000000000000000000e+00, 1.000000000000000000e+01, -9.029999999999999716e+01, -2.000000000000000444e+00, 9.999999999999998890e-01, 9.799999999999997602e-01, -7.700000000000001066e+00, -2.201000000000000068e+00, -2.384999999999999343e+00, -2.099999999999999922e-01, -8.429999999999999716e-01, -9.999999999999998890e-01, -9.999999999999996669e-01, -4.000000000000000000e+00, -3.539999999999999858e+01, -3.570000000000001705e+01, -5.300000000000001599e+00, 4.629999999999999671e-01, 5.370000000000000329e-01, 4.100000000000000311e-01, 4.969999999999999973e-01, 1.000000000000000178e+01, -8.399999999999999689e-01, -2.800000000000000822e-01, -1.848000000000000043e+01, -3.208000000000000185e+00, -2.329000000000000181e+00, -6.000000000000001166e-02, -6.620000000000001439e-01, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, 1.000000000000000178e+01, -4.000000000000000888e+00, -4.040000000000000568e+01, -3.780000000000000426e+01, -5.300000000000000711e+00, 4.630000000000000782e-01, 5.370000000000000329e-01, 4.099999999999999756e-01, 4.970000000000001084e-01, -3.600000000000000422e-01, -1.199999999999999956e-01, -1.201999999999999957e+01, -3.208000000000001073e+00, -2.329000000000000181e+00, -1.300000000000000044e-01, -9.350000000000002753e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000194e-02, 1.000000000000000056e-01, 1.000000000000000056e-01, 1.000000000000000056e-01, -1.000000000000000194e-02, 9.999999999999999167e-02, -1.000000000000000368e-02, 1.000000000000000194e-02, 2.000000000000000284e+02, 1.000000000000000194e-02, -1.000000000000000368e-02, 2.000000000000000284e+02, -7.000000000000000666e-02, 7.000000000000000146e-03, 7.000000000000000146e-03, 5.000000000000000000e-01, -6.999999999999999278e-03, 6.999999999999999278e-03, 6.669999999999999540e-02, 1.000000000000000021e-02, -1.000000000000000021e-02, 2.000000000000000111e-01, -1.000000000000000194e-02, 1.000000000000000194e-02, 2.000000000000000284e+02, -7.000000000000000146e-03, 7.000000000000000666e-02, -7.000000000000000146e-03, 3.332999999999999852e-01, -3.000000000000000000e+00, 2.999999999999999889e-02, 4.000000000000000222e-01, -8.000000000000000444e-01, 8.000000000000000167e-03, 2.000000000000000111e-01, -8.000000000000000444e-01, 8.000000000000000167e-03, 1.666999999999999871e-01, -2.000000000000000111e-01, 2.000000000000000111e-01, 2.000000000000000111e-01, -1.000000000000000056e-01, 1.000000000000000056e-01, 2.000000000000000111e-01, 1.010000000000000064e-01, -1.010000000000000064e-01, 4.000000000000000083e-02, -1.809999999999999665e-01, 1.809999999999999665e-01, 2.000000000000000284e+02, -1.199999999999999734e+00, 1.300000000000000044e+00, 1.299999999999999940e-02, -9.999999999999999167e-02, -1.800000000000000211e-02, -2.599999999999999881e-02, 2.000000000000000000e+00, 2.700000000000000178e-01, -3.300000000000000155e-01, 3.299999999999999982e-03, -3.299999999999999982e-03, -3.299999999999999982e-03, 5.999999999999999778e-02, 6.000000000000000125e-03, 7.000000000000000146e-03, 2.000000000000000284e+02, 1.199999999999999956e+00, 5.999999999999999778e-01, -1.899999999999999911e+00, 1.999999999999999695e-02, -1.999999999999999695e-02, 2.000000000000000389e-02, -8.000000000000000167e-03, 9.999999999999999167e-02, 3.200000000000000067e-02, -2.299999999999999961e-02, 2.000000000000000000e+00, -6.999999999999998446e-01, -1.299999999999999822e+00, 2.200000000000000178e+00, -2.299999999999999614e-02, 2.299999999999999614e-02, -2.299999999999999614e-02, 1.600000000000000033e-02, -1.199999999999999817e-01, -3.999999999999999389e-02, -3.999999999999999389e-02, -4.100000000000000172e-02, 1.099999999999999763e-02, 3.999999999999999667e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, -8.000000000000001776e+00, 9.199999999999999289e+00, -1.000000000000000194e-01, 1.000000000000000194e-01, -1.000000000000000333e-01, 1.000000000000000194e-01, -8.999999999999999667e-02, -2.999999999999999889e-02, -1.080000000000000071e+00, -2.010000000000000397e-01, -1.899999999999999606e-02, 4.000000000000000777e-01, 8.000000000000001776e+00, -9.199999999999999289e+00, 1.000000000000000194e-01, -1.000000000000000194e-01, 1.000000000000000333e-01, -1.000000000000000194e-01, 8.999999999999999667e-02, 2.999999999999999889e-02, 1.080000000000000071e+00, 2.010000000000000397e-01, 1.899999999999999606e-02, 4.000000000000000777e-01, -2.299999999999999378e+00, 2.000000000000000000e+00, -2.299999999999999961e-02, 2.999999999999999889e-01, 1.699999999999999775e-02, 5.099999999999999672e-02, 1.000000000000000000e+00, 2.199999999999999734e+00, -2.500000000000000444e+00, -2.500000000000000139e-02, 2.999999999999999889e-01, 3.400000000000000938e-02, 5.099999999999999672e-02, 6.666999999999999593e-01, -1.270000000000000018e-01, 1.799999999999999951e-03, -2.499999999999999792e-02, 3.590000000000000135e-02, 1.080000000000000057e-02, 2.000000000000000284e+02, 1.100000000000000110e-02, -1.799999999999999864e-02, 7.300000000000000065e-03, 9.599999999999999159e-03, -1.079999999999999988e-01, 4.999999999999999445e-01, -1.270000000000000018e-01, 3.000000000000000062e-03, -1.760000000000000453e-02, 2.730000000000000135e-02, 1.799999999999999864e-02, 2.000000000000000000e+00, 1.439999999999999891e-01, -2.699999999999999276e-02, -1.170000000000000068e-01, 8.639999999999998792e-01, 3.333299999999999930e+00, -3.699999999999999817e-02, 3.699999999999999817e-02, 1.000000000000000000e+00, 1.700000000000000122e-02, -1.700000000000000122e-02, 1.019999999999999934e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, -7.699999999999999289e+00, -1.800000000000000044e+00, -2.799999999999999822e+00, -2.099999999999999922e-01, -2.500000000000000000e-01, -1.109999999999999876e+00, -5.999999999999999778e-01, -1.800000000000000044e+00, -1.300000000000000044e+00, -1.699999999999999956e+00, -3.419999999999999707e-01, -4.279999999999999916e-01, -2.099999999999999645e-01, -3.699999999999999817e-02, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.199999999999999734e+00, -7.699999999999999289e+00, -5.999999999999999778e-01, -2.799999999999999822e+00, -2.510000000000000009e-01, -2.089999999999999913e-01, -7.999999999999999334e-01, -1.900000000000000133e+00, -1.300000000000000044e+00, -1.699999999999999956e+00, -1.279999999999999749e-01, -4.279999999999999916e-01, -2.510000000000000009e-01, -1.200000000000000025e-02, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -7.000000000000000666e-01, -4.000000000000000000e+00, -2.600000000000000089e+00, -3.130000000000000004e-01, -2.999999999999999889e-01, -1.699999999999999734e+00, -4.599999999999999090e-01, 3.130000000000000004e-01, -1.799999999999999864e-02, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -8.199999999999999512e-01, -5.799999999999998490e-01, -7.899999999999999467e+00, -5.999999999999999778e-01, -2.580000000000000071e-01, -2.089999999999999636e-01, -7.999999999999999334e-01, -1.899999999999999911e+00, -1.300000000000000044e+00, -1.439999999999999725e+00, -1.070000000000000062e+00, -1.699999999999999734e+00, -1.280000000000000027e-01, -6.800000000000000488e-01, -1.549999999999999815e-02, -7.799999999999998775e-03, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -2.999999999999999889e-02, 1.000000000000000000e+00, 6.800000000000001876e-02, 6.800000000000003264e-02, 1.360000000000000098e+00, -7.480000000000001925e-02, 2.039999999999999869e-01, 2.720000000000000751e-01, -3.400000000000001632e-02, 2.651999999999999913e-01, 1.000000000000000000e+00, 9.700000000000000289e-02, 2.089999999999999913e-01, -3.059999999999999387e-01, 7.300000000000000933e-02, -1.454999999999999905e-01, 1.000000000000000000e+00, -1.100000000000000000e+01, -2.500000000000000000e+00, -6.599999999999999201e-01, -7.240000000000001101e+00, -2.000000000000000444e+00, -3.500000000000000000e+00, -2.000000000000000444e+00, -8.699999999999999400e-02, -3.220000000000000084e-01, -2.499999999999999556e+00, -3.600000000000000089e+00, 9.999999999999998890e-01, -6.540000000000000258e-01, -1.119999999999999574e+01, -2.100000000000000089e+00, -3.599999999999999201e+00, -2.200000000000000011e-01, -8.000000000000000167e-02, -8.659999999999999920e-01, -4.999999999999999445e-01, -1.999999999999999778e+00, -1.299999999999999822e+00, -1.699999999999999734e+00, -4.269999999999999352e-01, -3.940000000000000169e-01, -1.760000000000000009e+00, -1.000000000000000021e-03, -5.699999999999999512e-01, -5.699999999999999512e-01, -9.999999999999997780e-01, -4.299999999999998823e-01, -4.300000000000001044e-01, 1.000000000000000000e+00, -2.929999999999999272e-01, -7.699999999999999289e+00, -1.399999999999999689e+00, -2.799999999999999822e+00, -2.099999999999999922e-01, -2.500000000000000000e-01, -8.770000000000001128e-01, -5.999999999999999778e-01, -1.499999999999999778e+00, -1.399999999999999689e+00, -1.699999999999999956e+00, -3.419999999999999707e-01, -4.279999999999999916e-01, -2.099999999999999645e-01, -2.500000000000000139e-02, -7.499999999999998890e-01, -7.499999999999998890e-01, -1.000000000000000000e+00, -2.500000000000000000e-01, -2.500000000000000000e-01, 1.000000000000000000e+00, -1.000000000000000194e-01, -1.000000000000000000e+01, -2.000000000000000111e-01, -1.766000000000000070e-01, -6.934000000000001274e-01, -1.000000000000000056e-01, -2.999999999999999889e-01, -2.999999999999999889e-01, -1.100000000000000089e+00, -8.700000000000000788e-02, -3.210000000000000075e-01, -1.942599999999999882e+00, 1.000000000000000000e+02, -1.500000000000000000e+01, -8.499999999999998668e-01, 1.000000000000000000e+00, -5.389999999999999236e-01, -1.000000000000000000e+00, -7.900000000000002132e+00, -1.520000000000000107e+01, 3.860000000000000853e+01, 1.000000000000000000e+00, 3.000000000000001332e+00, -3.000000000000000444e+00, -4.290000000000000036e+00, -3.500000000000000333e-01, -3.150000000000000355e+00, -3.450000000000000622e+00, -2.500000000000000444e+00, -2.500000000000000444e+00, -9.000000000000001332e-01, -4.300000000000001044e-01, -1.099000000000000021e+01, 1.000000000000000000e+00, -1.728000000000000469e+01, -3.910999999999999943e+01, 1.000000000000000222e+00, -5.100000000000001199e-01, -4.523000000000000576e+00, -1.699999999999999956e+00, -6.759999999999998899e+00, -4.129999999999999893e+00, -3.919999999999999929e+00, -1.374000000000000199e+01, -3.560000000000000053e+00, 3.000000000000000000e+00, -5.500000000000000444e-01, -8.800000000000000711e+00, 9.999999999999998890e-01, -1.411000000000000121e+01, -5.610999999999999233e+01, 1.000000000000000000e+00, -4.899999999999999911e-01, -1.674000000000000155e+00, -1.699999999999999956e+00, -4.620000000000000107e+00, -5.220000000000000639e+00, -3.919999999999999929e+00, -4.999999999999999112e+00, -1.729999999999999760e+00, 3.000000000000000000e+00, -5.500000000000000444e-01, -1.341999999999999815e+01, 9.999999999999998890e-01, -1.896000000000000085e+01, -3.741999999999999460e+01, 9.999999999999998890e-01, -4.400000000000000355e+00, -5.139999999999998792e+00, -1.824999999999999956e+00, -7.369999999999999218e+00, -9.310000000000000497e+00, -3.399999999999999467e+00, -3.399999999999999467e+00, -2.319999999999999840e+00, 2.999999999999999556e+00, -5.140000000000000124e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.930000000000000382e+00, 9.999999999999998890e-01, 2.089999999999999858e+00, -9.201999999999999602e+01, 9.999999999999998890e-01, -3.899999999999999023e-01, -1.028999999999999693e+00, -1.209999999999999964e+00, -1.489999999999999991e+00, -4.919999999999999929e+00, -7.000000000000000666e-02, -7.000000000000000666e-02, -1.199999999999999956e+00, 2.999999999999999556e+00, 2.829999999999999183e-02, -9.999999999999997780e-01, -9.999999999999997780e-01, -9.999999999999997780e-01, -4.679999999999999716e+00, -9.359999999999999432e+00, 2.092999999999999972e+01, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.040000000000000258e+00, 1.559999999999999998e-01, -5.200000000000000178e+00, -4.679999999999999716e+00, 6.759999999999998899e+00, -2.730000000000000426e+00, -1.690000000000000113e-01, -1.057000000000000028e+01, 1.000000000000000000e+00, -2.387999999999999901e+01, -2.160999999999999943e+01, 1.000000000000000000e+00, -4.000000000000000888e+00, -7.595000000000000639e+00, -1.980000000000000371e-01, -6.370000000000000995e+00, -8.930000000000001492e+00, -1.950000000000000000e+01, -5.140000000000000568e+00, -1.500000000000000222e+00, -6.530000000000000249e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -5.130000000000000782e+00, 9.999999999999998890e-01, -1.028000000000000114e+01, -4.745000000000000284e+01, 9.999999999999998890e-01, -1.280000000000000027e+00, -7.594999999999999751e+00, -4.050000000000001377e-01, -1.100000000000000311e+00, -3.490000000000000657e+00, -2.935999999999999943e+01, -1.910000000000000142e+00, -1.500000000000000000e+00, -4.319999999999999396e-01, -9.999999999999997780e-01, -9.999999999999997780e-01, -9.999999999999997780e-01, -1.000000000000000000e+00, -6.250000000000000000e+01, -1.729999999999999716e+01, -1.230000000000000071e+01, -6.099999999999999645e+00, -1.799999999999999822e+00, -6.950000000000000622e-01, 1.000000000000000000e+02, -1.399999999999999822e+01, -3.470000000000000284e+01, -4.300000000000000000e+01, 1.000000000000000000e+02, 4.499999999999999556e-01, 5.500000000000000444e-01, 4.500000000000000111e-01, 4.299999999999999378e-01, -3.599999999999999867e-01, -1.200000000000000094e-01, -7.820000000000000284e+00, -3.248000000000000220e+00, -2.259999999999999787e+00, -4.899999999999999911e-01, 5.399999999999999939e-02, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -7.000000000000000000e+01, -2.999999999999999889e-01, 1.000000000000000000e+00, -1.560000000000000053e+00, -5.390000000000000346e-01, 1.000000000000000000e+02, -7.299999999999999822e-01, 4.500000000000001221e-01, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -9.500000000000000000e+01, 1.000000000000000000e+02, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -5.000000000000000000e+00, -2.228000000000000203e+00, -1.887000000000000233e+00, -4.050000000000000266e-01, -1.000000000000000000e+00, 1.000000000000000000e+02, 4.000000000000000000e+00, -3.300000000000000711e+01, 1.000000000000000222e+00, 3.900000000000000711e+01, -6.000000000000000000e+00, 1.000000000000000000e+02, -1.000000000000000000e+00, -2.000000000000000000e+01, -8.000000000000000444e-01, -4.900000000000001021e-01, -7.299999999999998712e-01, -1.599999999999999867e+00, -1.000000000000000021e-02, -9.999999999999998040e-04, -8.499999999999998668e-01, -1.099999999999999867e-01, 4.000000000000000000e+00, -2.099999999999999645e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, -4.899999999999999911e-01, -7.300000000000000933e-01, 1.060000000000000053e+00, -1.000000000000000021e-03, -8.499999999999999778e-01, -1.099999999999999867e-01, 1.330000000000000071e+00, -2.099999999999999645e-01, 1.000000000000000000e+00, -1.416999999999999993e+01, -1.360000000000000098e-01, -4.540000000000000036e+00, 1.000000000000000000e+02, -2.585000000000000142e+01, 1.000000000000000000e+00, -7.960000000000000853e+00, -5.668000000000001037e+00, -1.570999999999999952e+00, -7.839999999999999858e+00, -2.604000000000000203e-01, 9.369999999999999218e+00, 2.395700000000000163e+00, -2.999999999999999889e-01, -6.429999999999999716e+00, -4.176000000000000822e-01, -1.384999999999999964e+01, 1.000000000000000000e+02, -1.921000000000000085e+01, 1.000000000000000000e+00, -1.520000000000000018e+00, -1.997000000000000108e+00, -6.670000000000001483e-01, -6.700000000000000178e+00, -1.053000000000000047e-01, 3.790000000000000480e+00, 9.687999999999999945e-01, -2.999999999999999889e-01, -7.739999999999999325e+00, 2.816000000000000170e-01, 9.310000000000000497e+00, -6.639999999999999680e+00, 9.999999999999998890e-01, 3.499999999999999556e+00, -6.440000000000000391e+00, -3.670999999999999375e+00, -9.039999999999999147e-01, -1.139999999999999902e+00, -1.550999999999999879e-01, 5.580000000000000071e+00, 1.426899999999999613e+00, 1.000000000000000000e+00, -6.639999999999999680e+00, 1.000000000000000222e+00, -1.460000000000000013e-02, -4.899999999999999356e-01, -1.623999999999999844e+01, 1.000000000000000222e+00, 5.799999999999999600e-01, -3.227000000000000313e+00, -1.569000000000000172e+00, -3.500000000000000444e+00, -7.225000000000001421e-01, 3.700999999999999801e+01, 2.441499999999999559e+00, -4.750000000000000333e-01, -7.299999999999999822e+00, -7.960000000000000409e-02, -2.640000000000000124e+00, -1.817999999999999972e+01, 1.000000000000000000e+00, 6.899999999999999467e-01, -3.624000000000000110e+00, -1.568999999999999950e+00, -4.460000000000000853e+00, -6.015000000000000346e-01, 2.164999999999999858e+01, 1.581799999999999873e+00, -4.116000000000000214e-01, 1.000000000000000000e+00, -3.689999999999999858e+01, -1.219999999999999929e+01, -4.589999999999999858e+01, -3.000000000000000000e+00, -2.000000000000000000e+00, -7.719999999999999085e-01, 1.000000000000000000e+02, -2.000000000000000000e+00, -2.069999999999999929e+01, -6.830000000000001137e+01, -2.000000000000000000e+00, 1.000000000000000000e+02, 7.399999999999999911e-01, 2.600000000000000089e-01, 7.199999999999998623e-01, 2.500000000000000000e-01, -1.799999999999999933e-01, -6.000000000000000472e-02, -6.759999999999999787e+00, -2.717000000000000526e+00, -2.411000000000000476e+00, -6.899999999999999467e-01, -2.810000000000000830e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -4.200000000000000400e-01, 1.000000000000000000e+01, -1.299999999999999940e-02, -4.659999999999999698e-01, -4.889999999999999902e-01, 1.000000000000000222e+00, 1.000000000000000222e+00, 1.000000000000000000e+00, -1.280000000000000027e-01, -7.010000000000000675e-01, -7.799999999999999989e-02, -7.800000000000000266e-01, 1.733000000000000096e-01, -1.000000000000000222e+00, -9.999999999999998890e-01, -1.000000000000000222e+00, -1.000000000000000222e+00, -6.800000000000001599e-01, -2.500000000000000139e-02, -5.709999999999999520e-01, -3.459999999999999742e-01, 1.000000000000000222e+00, 1.000000000000000222e+00, 1.000000000000000000e+01, 1.000000000000000000e+00, -1.280000000000000027e-01, -7.010000000000000675e-01, -1.499999999999999667e-01, -3.599999999999999867e-01, 1.400000000000000133e-01, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -9.199999999999999845e-02, -4.100000000000000311e-01, -5.080000000000000071e-01, 1.000000000000000222e+00, 1.000000000000000222e+00, 1.000000000000000000e+01, 1.000000000000000000e+00, -1.280000000000000027e-01, -7.010000000000000675e-01, -5.520000000000000462e-01, -7.900000000000000355e-01, 1.799999999999999933e-01, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.980000000000000093e-01, 1.980000000000000093e-01, 1.000000000000000000e+00, 1.980000000000000093e-01, -1.980000000000000093e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+01, -1.700000000000000000e+01, -1.000000000000000222e+00, 1.000000000000000000e+01, -1.000000000000000000e+01, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.300000000000000178e+01, 8.599999999999998757e-01, 9.999999999999998890e-01, -1.085999999999999854e+00, 5.639999999999999858e+01, -4.213999999999999968e-01, 4.213999999999999413e-01, -6.063999999999999391e-01, 3.739999999999999769e+00, 8.189999999999998392e-01, 8.169999999999998375e-01, 4.638999999999999790e-01, -1.799999999999999378e-01, -1.248000000000000043e+01, 3.000000000000000355e+01, -1.351999999999999869e-01, 7.000000000000000666e-01, -7.399999999999999911e-01, 5.579000000000000625e-01, -7.449999999999999956e-01, -2.600000000000000644e-01, -6.719999999999999751e+00, -7.280000000000000360e-02, 1.000000000000000222e+00, -8.599999999999999867e-01, 5.578999999999998405e-01, -6.800000000000000488e-01, -1.400000000000000411e-01, -1.392000000000000171e+01, 3.000000000000000355e+01, -1.508000000000000174e-01, 5.579000000000000625e-01, -7.610000000000000098e-01, -2.900000000000000355e-01, 6.999999999999999556e-01, -7.099999999999999645e-01, -8.160000000000000142e+00, -8.840000000000000635e-02, 5.578999999999998405e-01, -6.970000000000000639e-01, -1.700000000000000122e-01, 9.999999999999996669e-01, -8.299999999999998490e-01, 9.300000000000000000e+01, -1.000000000000000000e+02, -1.000000000000000000e+00, 6.999999999999999112e+00, 1.350000000000000089e+00, 2.027000000000000135e+00, 7.650000000000001243e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, -9.999999999999998890e-01, 1.000000000000000000e+00, -9.299999999999998579e+01, 1.000000000000000000e+00, -6.999999999999999112e+00, -1.350000000000000089e+00, -2.027000000000000135e+00, -7.650000000000001243e-01, 1.000000000000000000e+00, -4.000000000000000222e-01, 1.000000000000000000e+02, -3.720000000000000284e+01, -9.900000000000000355e+00, -4.789999999999999858e+01, -1.300000000000000044e+00, -3.299999999999999378e+00, -1.189999999999999947e+00, -4.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000194e-02, 1.000000000000000000e+00, 4.545000000000000284e+01, 5.864000000000000057e+01, 1.726999999999999957e+01, -1.635999999999999588e+01, -7.555000000000003268e+00, -5.000000000000000971e-02, -1.109999999999999787e+01, -1.000000000000000000e+00, -2.769999999999999893e-02, 1.000000000000000000e+00, 7.009999999999999432e+01, 6.590000000000000568e+01, 9.310000000000000497e+00, -3.144000000000000483e+01, -9.255000000000000782e+00, -1.386999999999999900e-01, -1.996000000000000085e+01, -1.000000000000000000e+00, -4.989999999999999991e-02, 1.000000000000000000e+00, 1.006200000000000045e+02, 7.489000000000001478e+01, -6.700000000000000400e-01, -4.989000000000000767e+01, -1.148499999999999943e+01, 2.495000000000000273e-01, -1.000000000000000000e+02, 1.000000000000000000e+02, -2.853000000000000647e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -3.499999999999999223e-01, -3.000000000000000444e+00, 5.000000000000000000e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, -2.999999999999999889e-01, -3.000000000000000000e+00, 5.000000000000000000e-01, 1.799999999999999600e+00, 6.550000000000000000e+01, 8.599999999999998579e+01, 1.399999999999999645e+01, -1.879999999999999716e+01, -4.500000000000000888e+00, 1.549999999999999822e+01, 1.130000000000000249e+01, -1.000000000000000000e+00, 1.800000000000000044e+00, 5.050000000000000711e+01, 1.000000000000000000e+02, -1.230000000000000071e+01, -4.499999999999999112e+00, -1.500000000000000000e+00, -2.700000000000000178e+00, -1.000000000000000000e+00, 1.000000000000000000e+02, 1.999999999999999556e-01, -5.100000000000000533e+00, 4.700000000000000178e+00, -4.499999999999999112e+00, -7.500000000000000000e+00, -2.700000000000000178e+00, -1.000000000000000000e+00, 1.000000000000000000e+02, 5.000000000000000000e-01, -5.400000000000000355e+00, 1.019999999999999929e+01, -4.499999999999999112e+00, -8.500000000000001776e+00, -2.700000000000000178e+00, -1.000000000000000000e+00, 1.000000000000000000e+02, 1.399999999999999911e+00, 5.500000000000000000e+00, 1.699999999999999734e+00, -4.499999999999999112e+00, -6.000000000000000000e+00, -2.700000000000000178e+00, -1.000000000000000000e+00, 1.000000000000000000e+02, 1.399999999999999911e+00, -5.000000000000000000e-01, -3.799999999999999822e+00, 3.500000000000000000e+00, 7.500000000000000000e+00, 5.299999999999999822e+00, -1.000000000000000000e+00, 1.000000000000000000e+02, 1.000000000000000000e+00, 1.100000000000000089e+00, -1.579999999999999893e+01, 2.250000000000000000e+01, 1.550000000000000355e+01, 1.130000000000000249e+01, -1.000000000000000000e+00, 1.000000000000000000e+02, -2.500000000000000000e+00, -7.500000000000000888e+00, -2.999999999999999334e-01, -1.500000000000000000e+00, -1.500000000000000000e+00, -2.100000000000000089e+00, -1.000000000000000000e+00, 5.000000000000000888e+00, 1.017500000000000142e+02, -1.330000000000000293e+00, -3.000000000000000444e+00, -1.750000000000000000e+00, -1.999999999999999833e-01, -9.400000000000000355e+00, -3.500000000000000888e+00, 2.000000000000000444e+00, -2.600000000000000533e+00, -1.000000000000000000e+00, 9.999999999999997780e-01, 1.031039999999999850e+02, -1.280000000000000249e+00, -2.000000000000000444e+00, -3.103999999999999648e+00, -3.999999999999999667e-01, -1.040000000000000036e+01, -3.500000000000000444e+00, 2.000000000000000444e+00, -2.600000000000000533e+00, -9.999999999999998890e-01, 9.999999999999997780e-01, 1.007600000000000193e+02, -1.379999999999999893e+00, -4.000000000000000888e+00, -7.600000000000000089e-01, -8.400000000000000355e+00, -3.500000000000000000e+00, 2.000000000000000444e+00, -2.599999999999999645e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -3.000000000000000888e+00, -1.140000000000000036e+01, -4.499999999999999112e+00, -5.000000000000001110e-01, -2.700000000000000178e+00, -1.000000000000000000e+00, 1.780999999999999917e+00, -2.069999999999999840e+00, 6.550000000000000000e+01, 8.599999999999998579e+01, 1.399999999999999645e+01, -1.799999999999999600e+00, -4.500000000000000000e+00, 1.130000000000000249e+01, -1.000000000000000000e+00, -2.184000000000000163e+00, -2.069999999999999840e+00, 5.050000000000000711e+01, 1.000000000000000000e+02, -1.800000000000000266e+00, -4.499999999999999112e+00, -2.699999999999999734e+00, -1.000000000000000000e+00, -2.686000000000000387e+00, -2.069999999999999840e+00, 1.050000000000000178e+01, 1.000000000000000000e+02, -2.800000000000000266e+00, -4.499999999999999112e+00, -2.699999999999999734e+00, -1.000000000000000000e+00, 1.000000000000000000e+02, 6.486499999999999488e+00, -4.699999999999999734e-01, -5.100000000000000533e+00, 9.699999999999999289e+00, -4.499999999999999112e+00, -2.699999999999999734e+00, -1.000000000000000000e+00, 1.007600000000000193e+02, 8.114000000000001211e-01, 1.109999999999999654e+00, -4.000000000000000888e+00, -7.600000000000000089e-01, 4.000000000000001332e-01, -3.499999999999999556e+00, -2.600000000000000533e+00, -1.000000000000000000e+00, 1.017500000000000142e+02, 1.060000000000000053e+00, -3.000000000000000444e+00, -1.750000000000000000e+00, -1.999999999999999833e-01, -6.000000000000000888e-01, -3.500000000000000000e+00, -2.600000000000000533e+00, -1.000000000000000000e+00, 1.031039999999999850e+02, -8.026000000000000911e-01, 1.009999999999999787e+00, -2.000000000000000444e+00, -3.103999999999999648e+00, -3.999999999999999667e-01, -1.600000000000000089e+00, -3.500000000000000000e+00, -2.600000000000000089e+00, -9.999999999999998890e-01, 1.000000000000000000e+00, -3.798000000000000487e+00, -2.700000000000000733e-01, -3.000000000000000000e+00, -3.799999999999999378e+00, -4.500000000000000000e+00, -2.699999999999999734e+00, -1.000000000000000000e+00, 1.000000000000000000e+02, 4.509000000000000341e+00, 1.430000000000000382e+00, -7.500000000000000888e+00, 5.700000000000001066e+00, -1.499999999999999778e+00, -2.100000000000000089e+00, -1.000000000000000000e+00, 1.000000000000000000e+02, -2.577999999999999847e+00, 4.799999999999999822e-01, -2.399999999999999911e+00, -2.999999999999999889e-01, -3.799999999999999822e+00, -3.999999999999999556e+00, -2.600000000000000089e+00, -1.000000000000000000e+00, 9.628000000000000114e+01, -1.367499999999999938e+00, 5.799999999999999600e-01, -2.400000000000000799e+00, 2.300000000000000377e-01, 8.000000000000000167e-02, 3.410000000000000586e+00, -2.299999999999999822e+00, -3.999999999999999556e+00, -2.599999999999999645e+00, -1.000000000000000000e+00, 1.000000000000000000e+02, 2.899500000000000188e+00, -1.670000000000000151e+00, 5.500000000000000000e+00, 6.200000000000001066e+00, -4.499999999999999112e+00, -2.699999999999999734e+00, -1.000000000000000000e+00, 1.000000000000000000e+02, 4.201999999999999957e+00, -1.270000000000000018e+00, 1.100000000000000089e+00, 1.200000000000000178e+00, 2.249999999999999645e+01, 1.130000000000000071e+01, -1.000000000000000000e+00, -5.999999999999999778e-01, -4.000000000000000222e-01, 1.000000000000000000e+00, -6.770000000000000462e-01, -3.230000000000000093e-01, 1.000000000000000000e+00, -5.999999999999999778e-01, -4.000000000000000222e-01, 1.000000000000000000e+00, 4.000000000000000000e+00, 1.199999999999999822e+01, 8.199999999999999512e-01, 9.999999999999998890e-01, 2.000000000000000000e+00, -3.968999999999999750e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 2.000000000000000000e+01, 7.600000000000000089e-01, 9.999999999999997780e-01, 4.000000000000000000e+00, -3.518000000000000016e-01, 7.100000000000000000e+01, 1.599999999999999756e-01, 1.000000000000000000e+00, 1.299999999999999822e+01, -4.510000000000000120e-02, 1.200000000000000000e+01, 5.055999999999999517e+01, 1.424999999999999822e+01, 1.000000000000000000e+00, -6.399999999999999023e-01, 6.399999999999999023e-01, 7.680000000000001270e-01, 1.000599999999999845e+01, 1.241600000000000037e+01, 4.610000000000000209e-01, 1.433000000000000052e+00, 6.195000000000000506e-01, 1.000000000000000000e+02, 1.350000000000000311e+00, 6.050000000000000711e+01, -1.180000000000000071e+01, -4.499999999999999112e+00, -2.999999999999999556e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 3.000000000000000444e-01, -1.500000000000000222e+00, 2.700000000000000178e+00, -4.500000000000000888e+00, -6.500000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 8.500000000000000888e-01, 1.500000000000000222e+00, 2.900000000000000355e+00, -4.299999999999999822e+00, -6.900000000000000355e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.229999999999999982e+00, 3.500000000000000000e+00, -2.799999999999999822e+00, 1.499999999999999556e+00, 3.499999999999999556e+00, -1.000000000000000000e+00, 2.429999999999999716e+00, 9.757000000000000117e-01, -1.844000000000000083e-01, -1.943999999999999895e-01, -1.425000000000000044e+00, -5.799999999999998934e+00, -2.800000000000000266e+00, -3.899999999999999911e+00, 1.300000000000000044e+00, -1.000000000000000000e+00, 2.289999999999999813e-01, 1.117000000000000215e+00, 1.889999999999999902e+00, 9.810999999999999721e-01, -1.854000000000000092e-01, -1.388999999999999957e-01, -1.390000000000000124e+00, -5.599999999999999645e+00, -3.800000000000000711e+00, -3.899999999999999467e+00, 1.399999999999999911e+00, -1.000000000000000000e+00, 1.950000000000000344e-01, 1.000999999999999668e+00, 1.000000000000000000e+00, -1.300000000000000488e+00, -5.000000000000000888e+00, -6.299999999999999822e+00, -3.899999999999999467e+00, 1.700000000000000400e+00, -1.000000000000000000e+00, 1.000000000000000000e+02, 9.500000000000001776e-01, 1.100000000000000089e+00, -1.180000000000000071e+01, 2.549999999999999645e+01, 1.600000000000000000e+01, -1.000000000000000000e+00, 1.000000000000000000e+02, -1.649999999999999911e+00, -7.500000000000000000e+00, 8.000000000000000444e-01, -2.500000000000000000e+00, 1.399999999999999689e+00, -1.000000000000000000e+00, 1.314999999999999858e+01, 8.685000000000000497e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 6.600000000000000311e-01, -1.299999999999999822e+00, -7.200000000000000178e+00, 1.220000000000000107e+01, -4.499999999999999112e+00, -8.999999999999998224e+00, -1.000000000000000000e+00, 1.574999999999999734e+00, 6.599999999999998757e+00, 1.000000000000000000e+02, -3.900000000000000355e+00, -4.703000000000000291e+00, -1.620000000000000329e+00, 6.050000000000000711e+01, -4.500000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.059999999999999964e+01, 5.931000000000000050e+00, -5.699999999999999512e-01, -1.500000000000000000e+00, -4.499999999999999112e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 5.099999999999999645e+00, 4.542500000000000426e+00, -1.500000000000000222e+00, 3.500000000000000444e+00, 1.500000000000000000e+00, -1.000000000000000000e+00, 1.890000000000000346e+00, 9.810999999999999721e-01, -1.854000000000000092e-01, -1.388999999999999957e-01, 4.099999999999999645e+00, 3.095000000000000639e+00, 1.120000000000000329e+00, -5.600000000000001421e+00, -3.899999999999999911e+00, -1.000000000000000000e+00, 1.950000000000000067e-01, 1.000999999999999890e+00, -2.680000000000000604e+00, 1.026799999999999935e+00, 6.216000000000000414e-01, 1.388999999999999957e-01, -8.999999999999998002e-01, -7.874999999999998668e-01, 9.499999999999999556e-01, -2.599999999999999645e+00, -3.899999999999999911e+00, -1.000000000000000000e+00, -4.369999999999999996e-01, -1.397000000000000242e+00, 9.999999999999998890e-01, 1.600000000000000089e+00, 1.169000000000000039e+00, 1.030000000000000027e+00, -5.000000000000000000e+00, -3.899999999999999467e+00, -1.000000000000000000e+00, 1.000000000000000000e+02, 2.100000000000000089e+00, 4.104000000000000981e+00, -1.220000000000000195e+00, 1.100000000000000089e+00, 2.550000000000000000e+01, -1.000000000000000000e+00, 1.000000000000000000e+02, -3.900000000000000355e+00, -3.177999999999999936e+00, 5.300000000000000266e-01, -2.399999999999999467e+00, -2.999999999999999889e-01, -4.000000000000000000e+00, -1.000000000000000000e+00, 9.628000000000000114e+01, -2.399999999999999467e+00, -1.967499999999999805e+00, 6.300000000000000044e-01, -2.399999999999999467e+00, 2.300000000000000377e-01, 8.000000000000000167e-02, 3.410000000000000586e+00, -4.000000000000000000e+00, -1.000000000000000000e+00, 9.999999999999998890e-01, -4.400000000000001243e+00, -6.631500000000000838e+00, -2.200000000000000011e-01, -3.000000000000000000e+00, -4.499999999999999112e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -4.000000000000000888e+00, 1.040000000000000258e+00, -1.000000000000000000e+00, -3.350000000000000200e-01, -2.500000000000000000e+00, -1.400000000000000000e+01, 2.869999999999999774e-01, -9.000000000000002442e-01, 7.500000000000000000e-01, 2.500000000000000000e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, -3.499999999999999223e-01, -6.500000000000000222e-01, 6.500000000000000222e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000056e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000056e-01, 9.459999999999999520e-01, 5.600000000000000533e-01, -5.466000000000000858e-01, -2.770000000000000240e-01, 1.439999999999999891e-01, 6.729000000000000536e-01, 3.529999999999999805e-01, 1.000000000000000000e+00, -1.000000000000000056e-01, -2.600000000000000089e-01, -1.219999999999999973e-01, -1.000000000000000056e-01, -6.999999999999999556e-01, -5.380000000000000338e-01, 1.000000000000000000e+00, -5.282000000000001139e-01, -3.740999999999999881e-01, 2.690000000000000169e-01, 5.907000000000000028e-01, 4.319999999999999951e-01, 1.000000000000000000e+00, -1.000000000000000056e-01, -1.940000000000000058e-01, -9.710000000000000575e-02, -3.400000000000000244e-01, -4.000000000000000222e-01, 2.399999999999999911e-01, 1.000000000000000000e+00, -7.680000000000000160e-01, -1.529999999999999971e-01, 4.399999999999999745e-02, 7.166000000000000147e-01, 3.109999999999999987e-01, 1.000000000000000000e+00, -1.000000000000000056e-01, -2.200000000000000011e-01, -7.099999999999999367e-02, 6.400000000000000133e-01, -1.600000000000000033e-01, 1.000000000000000056e-01, -4.139999999999999236e-01, -1.479999999999999927e-01, 1.000000000000000000e+00, 2.800000000000000266e-01, 7.488000000000000211e-01, 2.800000000000000266e-01, 1.000000000000000000e+00, -1.000000000000000056e-01, -3.200000000000000067e-01, -1.559999999999999998e-01, -2.500000000000000000e-01, -4.500000000000000111e-01, -2.800000000000000822e-01, 1.000000000000000000e+00, 7.370000000000000162e-02, 8.885999999999999455e-01, -2.899999999999999800e-01, -5.829999999999999627e-01, 2.963999999999999413e-01, 3.499999999999999639e-02, 4.169999999999999818e-01, 4.000000000000000222e-01, -3.177999999999999936e+00, -2.349999999999999645e+00, -3.520000000000000212e-02, 1.000000000000000000e+00, -3.200000000000000067e-01, -6.090000000000000968e-01, 2.777000000000000024e-01, 1.890000000000000013e-02, 3.910000000000000697e-01, -2.463999999999999801e-01, -3.071000000000000618e+00, -2.200000000000000178e+00, -3.129000000000000670e-01, 1.000000000000000000e+00, -3.200000000000000067e-01, -6.090000000000000968e-01, 3.910000000000000697e-01, -2.169400000000000439e+00, -3.071000000000000618e+00, -2.200000000000000178e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -4.000000000000000000e+00, 1.000000000000000000e+00, -6.299999999999999822e+00, 1.043099999999999916e+00, -4.099999999999999756e-01, -5.270000000000000240e-01, 1.000000000000000000e+00, -1.409999999999999698e+00, -5.219999999999999751e+00, -4.309999999999999609e+00, -2.999999999999999112e+00, 1.043099999999999916e+00, -5.999999999999998668e-01, -8.999999999999998279e-02, -2.799999999999999156e-01, 1.000000000000000000e+00, -8.749999999999998890e-01, -2.600000000000000089e+00, -4.309999999999998721e+00, -6.799999999999998934e+00, 1.043099999999999916e+00, -4.060000000000000830e-01, -5.260000000000000231e-01, 9.399999999999999467e-01, 8.169999999999999485e-02, -1.549999999999999822e+00, -5.400000000000000355e+00, -4.309999999999999609e+00, -1.999999999999999778e+00, 1.043099999999999916e+00, -5.599999999999999423e-01, -1.299999999999999767e-01, -2.899999999999999245e-01, 1.021700000000000053e+00, -1.010000000000000009e+00, -3.399999999999999023e+00, -4.309999999999998721e+00, 9.999999999999998890e-01, -1.043100000000000138e+00, -1.200000000000000094e-01, 1.199999999999999956e-01, -5.000000000000000000e+00, 8.000000000000000444e-01, 4.309999999999999609e+00, -1.129999999999999893e+00, -7.500000000000000000e+00, -2.129999999999999949e-01, 1.000000000000000222e+00, -4.090999999999999637e-01, -2.766000000000000125e-01, 4.638000000000000456e-01, 7.119999999999999662e-01, 1.851999999999999758e-01, 1.331599999999999895e+00, -1.014000000000000012e+00, -3.060999999999999499e+00, -1.500000000000000222e+00, -4.000000000000000000e+00, -1.000000000000000000e+00, 1.040000000000000036e+00, -1.000000000000000000e+00, -6.899999999999999467e-01, -4.000000000000000000e+00, 2.869999999999999774e-01, -9.000000000000001332e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.699999999999999734e+00, 2.217000000000000082e-01, 7.199999999999999734e-01, 5.999999999999999778e-01, 3.830000000000000071e-02, 1.400000000000000029e-02, 1.000000000000000000e+00, -1.037999999999999812e+00, -1.599999999999999867e+00, 1.047499999999999876e+00, -5.789999999999999591e-01, -1.219999999999999929e+01, -3.999999999999998695e-02, -4.999999999999998890e-01, -7.000000000000000666e-02, -1.229999999999999705e-01, -6.099999999999999173e-02, 1.145899999999999919e+00, -1.999999999999999695e-02, -3.920000000000000706e-01, -4.749999999999999112e+00, 1.047499999999999876e+00, -4.850000000000000422e-01, -1.219999999999999929e+01, -1.340000000000000080e-01, -4.999999999999998890e-01, -7.000000000000000666e-02, -1.229999999999999705e-01, -6.099999999999999173e-02, 1.367699999999999916e+00, -6.700000000000001787e-02, -3.920000000000000706e-01, -4.749999999999999112e+00, 1.000000000000000000e+00, -3.820000000000000284e+00, -9.165000000000000924e-01, -3.739999999999999991e-01, -4.530000000000000249e+00, 1.000000000000000000e+00, -1.671000000000000085e+01, -2.625000000000000666e-01, -2.863999999999999879e-01, -2.387000000000000233e-01, -3.740000000000000546e-01, -4.530000000000000249e+00, 1.000000000000000000e+02, -4.772999999999998910e-01, -4.773999999999999910e-01, -3.739999999999999991e-01, -4.530000000000000249e+00, 1.713000000000000078e+00, -1.376000000000000001e-01, -2.452999999999999903e-01, -3.565999999999999170e-01, -1.081000000000000016e-01, -1.333299999999999708e+00, -1.000000000000000222e+00, 1.012199999999999767e+00, -9.200000000000001066e+00, -1.430000000000000160e-01, -3.270000000000000129e-01, -1.300000000000000266e+00, -2.000000000000000389e-01, -1.250000000000000000e-01, 1.000000000000000222e+00, -1.215500000000000025e+00, -9.400000000000000022e-02, -3.920000000000000151e-01, -1.219999999999999973e+00, 1.000000000000000000e+02, -1.180000000000000249e+01, -8.820000000000001172e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, -8.169999999999998375e-01, 1.000000000000000056e-01, -1.861999999999999877e+00, -6.599999999999998757e+00, 2.670000000000000151e-01, 5.330000000000000293e-01, 2.000000000000000111e-01, 9.999999999999998890e-01, -1.000000000000000000e+00, 2.500000000000000000e-01, 5.500000000000000444e-01, 2.000000000000000111e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 3.921000000000000041e-01, 4.319999999999999396e-01, -1.028000000000000025e-01, 1.000000000000000000e+00, 1.759999999999999898e-01, 2.869999999999999774e-01, 4.799999999999999822e-01, 8.999999999999999667e-02, 9.999999999999997780e-01, 3.534999999999999809e-01, -1.545999999999999819e+00, -2.588000000000000522e+00, 1.000000000000000222e+00, -5.920000000000000817e-01, -3.390000000000000124e+00, -3.999999999999999667e-01, -4.000000000000000083e-02, -2.202000000000000068e-01, -5.099999999999998285e-02, 2.496000000000000163e-01, 2.889999999999999791e-01, -6.119999999999999746e-02, 2.350000000000000144e-01, 3.645999999999999797e-01, 4.767000000000001236e-01, 3.100000000000000533e-01, 1.333299999999999930e+00, -3.333000000000000407e-01, 2.670000000000000151e-01, -1.184000000000000163e+00, -1.283000000000000140e+00, -3.517000000000000792e+00, -9.000000000000001055e-02, -5.800000000000000294e-02, 1.000000000000000222e+00, -5.540000000000001590e-01, -3.749999999999999556e+00, -5.000000000000001110e-01, -4.800000000000000100e-02, -2.311999999999999333e-01, -5.719999999999999390e-02, 2.620999999999999996e-01, 3.069999999999999951e-01, -6.319999999999999230e-02, 2.690000000000000724e-01, 3.575999999999999734e-01, 4.267000000000000792e-01, 3.699999999999999956e-01, 1.333299999999999930e+00, -3.332999999999999852e-01, 2.909999999999999809e-01, -2.216000000000000636e+00, -1.310000000000000053e+00, -3.929999999999999716e+00, -1.100000000000000144e-01, -6.600000000000000311e-02, 1.000000000000000000e+00, -5.639999999999998348e-01, -3.499999999999999556e+00, -1.000000000000000000e+00, -6.599999999999998923e-02, -2.000000000000000389e-01, -5.819999999999999479e-02, 2.266999999999999571e-01, 2.739999999999999658e-01, -5.219999999999999640e-02, 2.919999999999999818e-01, 3.245999999999999441e-01, 4.866999999999999660e-01, 3.599999999999999867e-01, 1.333299999999999486e+00, -3.332999999999999852e-01, 2.770000000000000240e-01, -2.819999999999999396e+00, -1.250999999999999890e+00, -3.695999999999998842e+00, -8.000000000000000167e-02, -6.599999999999998923e-02, 1.000000000000000222e+00, -6.149999999999999911e-01, -3.609999999999999876e+00, -8.000000000000000444e-01, -5.000000000000000278e-02, -1.393999999999999961e-01, -6.240000000000000407e-02, 1.581000000000000183e-01, 2.120000000000000218e-01, -3.009999999999999828e-02, 2.919999999999999818e-01, 2.446000000000000396e-01, 4.467000000000000970e-01, 5.200000000000000178e-01, 1.333299999999999930e+00, -3.332999999999999297e-01, 2.560000000000000053e-01, -6.150000000000001021e-01, -1.120999999999999996e+00, -4.013000000000000789e+00, -1.100000000000000144e-01, -8.800000000000000877e-02, 1.000000000000000000e+00, -6.219999999999998863e-01, -4.129999999999999893e+00, -7.999999999999998224e-01, -4.199999999999999567e-02, -1.146999999999999686e-01, -5.719999999999999390e-02, 1.300000000000000044e-01, 1.799999999999999656e-01, -2.309999999999999901e-02, 2.790000000000000258e-01, 2.175999999999999601e-01, 4.666999999999999482e-01, 5.399999999999999245e-01, 1.333299999999999930e+00, -3.332999999999999297e-01, 2.275000000000000078e-01, 1.243999999999999995e+00, -1.065999999999999837e+00, -4.707999999999999297e+00, -1.799999999999999933e-01, -1.129999999999999893e-01, -3.419999999999999929e+00, -5.000000000000000000e+00, -2.000000000000000111e-01, 1.000000000000000000e+00, -5.229000000000000314e-01, -1.872000000000000608e-01, 5.927999999999999936e-01, 7.500000000000000000e-01, -1.137000000000000094e-01, 1.000000000000000000e+00, 5.879999999999999671e-01, -2.009999999999999787e+00, -3.912000000000000366e+00, -5.699999999999999512e-01, -1.353000000000000291e+01, -2.000000000000000444e+00, -1.300000000000000322e-01, -6.097000000000001307e-01, -1.000000000000000194e-01, 7.299999999999999822e-01, 8.300000000000000711e-01, -1.747000000000000219e-01, 1.000000000000000000e+00, 4.920000000000000484e-01, -2.220000000000000195e+00, -4.818000000000000504e+00, -5.000000000000001110e-01, 1.000000000000000222e+00, -4.990000000000000546e-01, 1.000000000000000000e+00, -6.139999999999999680e+00, -1.499999999999999778e+00, -7.499999999999999722e-02, -1.312000000000000388e-01, -4.700000000000000011e-02, 1.486999999999999711e-01, 9.999999999999998890e-01, 1.879999999999999727e-01, -3.169999999999999901e-02, 2.780000000000000249e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 2.064999999999999891e-01, -1.995999999999999996e+00, -1.138000000000000123e+00, -4.235000000000000320e+00, -1.400000000000000133e-01, -1.700000000000000122e-01, -9.150000000000000355e-01, -4.099999999999999201e-01, -4.000000000000000222e-01, -2.100000000000000477e-02, -3.490000000000000047e-02, -1.250000000000000069e-02, 3.950000000000000733e-02, 5.000000000000000278e-02, -8.399999999999999481e-03, 7.499999999999999722e-02, 1.000000000000000000e+00, 9.999999999999997780e-01, 5.499999999999999334e-02, -2.745000000000000551e+00, -8.799999999999998934e-01, -4.809999999999999831e-01, -4.999999999999999584e-02, 1.000000000000000000e+02, -8.000000000000000167e-03, -3.680000000000000493e-01, -7.740000000000001101e+00, -1.900000000000000355e+00, -9.500000000000001499e-02, 9.999999999999998890e-01, -1.642000000000000404e-01, -5.929999999999999161e-02, 1.862000000000000044e-01, 2.359999999999999876e-01, -3.960000000000000325e-02, 3.499999999999999778e-01, 9.999999999999998890e-01, 1.000000000000000000e+00, 2.605000000000000648e-01, 1.839999999999999858e+00, -1.185999999999999943e+00, -8.599000000000000199e+00, -2.099999999999999922e-01, -2.149999999999999967e-01, 1.000000000000000000e+00, -1.859999999999999987e-01, -8.589999999999999858e+00, -2.700000000000000178e+00, -1.340000000000000080e-01, -2.321000000000000008e-01, -8.320000000000001006e-02, 2.631000000000000005e-01, 3.330000000000000182e-01, -5.600000000000000117e-02, 4.939999999999999947e-01, 1.000000000000000000e+00, 9.999999999999997780e-01, 3.665000000000000480e-01, 1.116000000000000103e+00, -1.346999999999999975e+00, -1.009600000000000186e+01, 1.000000000000000000e+02, -7.800000000000000266e-01, -2.439999999999999947e-01, -4.499999999999999556e-01, -2.779999999999999805e+00, -2.000000000000000000e+00, -1.000000000000000056e-01, -3.027000000000000801e-01, -7.799999999999998601e-02, 3.432000000000000606e-01, 4.050000000000000266e-01, -8.189999999999998670e-02, 2.049999999999999600e-01, 3.200000000000000067e-01, 4.699999999999999734e-01, 5.000000000000000278e-02, 9.999999999999997780e-01, 3.900000000000000133e-01, -3.600000000000000533e+00, -1.483000000000000096e+00, -2.814999999999999947e+00, 1.000000000000000000e+02, -1.499999999999999944e-01, -2.000000000000000042e-02};
pfloat lp_bandm_b[305] = {0.0, 1.946000000000000085e+01, 3.281000000000000139e+00, 6.531699999999999307e+01, 5.317000000000000171e+00, 1.147000000000000020e+00, 2.450000000000000178e+00, 1.437000000000000055e+00, 3.499999999999999778e-01, 0.0, 7.630000000000000115e-01, 1.247700000000000031e+01, 6.487000000000000099e+00, 7.950000000000000400e-01, 2.494099999999999895e+01, 3.387999999999999901e+00, 2.230000000000000038e-01, 3.449999999999999734e-01, 2.793000000000000593e+00, 1.046100000000000030e+01, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.200099999999999945e+01, 1.191999999999999948e+00, 2.746900000000000119e+01, 2.580000000000000071e+00, 1.588000000000000078e+00, 1.278999999999999915e+00, 4.891000000000000014e+00, 3.423000000000000043e+00, 0.0, 1.280999999999999917e+00, 3.379000000000000004e+00, 5.779999999999999583e-01, 6.400000000000000133e-01, 4.081999999999999851e+00, 4.435999999999999943e+00, 1.717000000000000082e+00, 1.723600000000000065e+01, 8.618000000000000327e+00, 1.848000000000000087e+00, 1.889999999999999902e+00, 5.180000000000000160e-01, 2.279999999999999805e-01, 1.380000000000000115e-01, 1.000000000000000000e+00, 1.445999999999999952e+00, 0.0, 0.0, 1.543999999999999817e+00, 6.387999999999999901e+00, 5.600000000000000533e-01, 7.860999999999999766e+00, 1.879999999999999893e+00, 0.0, 7.379999999999999893e-01, 9.729999999999999760e-01, 2.049999999999999878e-01, 5.669999999999999485e-01, 6.939999999999999503e-01, 0.0, 1.282000000000000028e+00, 1.559999999999999998e-01, 2.596000000000000085e+00, 2.670000000000000151e-01, 4.460000000000000075e-01, 2.000000000000000000e+00, 8.870000000000000107e-01, 9.300000000000000488e-01, 1.449999999999999900e-01, 2.161799999999999855e+01, 1.879799999999999827e+01, 1.602400000000000091e+01, 1.542099999999999937e+01, 4.216999999999999638e+00, 2.200000000000000178e+00, 3.940000000000000169e-01, 1.529999999999999971e-01, 1.095100000000000051e+01, 5.474999999999999645e+00, 2.770499999999999829e+01, 3.693999999999999950e+00, 4.405999999999999694e+00, 6.166999999999999815e+00, 1.731099999999999994e+01, 2.475000000000000089e+00, 5.067999999999998728e+00, 2.962000000000000188e+00, 8.850000000000000089e-01, 4.809999999999999831e-01, 1.036899999999999977e+01, 1.269999999999999929e+01, 3.991000000000000103e+00, 3.174999999999999822e+00, 6.870000000000000551e-01, 1.368999999999999995e+00, 2.829999999999999738e-01, 1.600000000000000089e+00, 1.002800000000000047e+01, 3.544999999999999929e+00, 2.000000000000000111e-01, 4.239999999999999858e+01, 2.000000000000000000e+00, 1.093399999999999928e+01, 1.901999999999999913e+00, 1.683999999999999986e+01, -9.529999999999999583e-01, 3.833000000000000185e+00, 4.800000000000000377e-01, 7.043000000000000149e+00, 6.003000000000000114e+00, 7.421000000000000263e+00, 1.389700000000000024e+01, 2.597999999999999865e+00, 2.505199999999999960e+01, 1.199999999999999956e+00, 3.309000000000000163e+00, 1.484600000000000009e+01, 5.293999999999999595e+00, 1.663700000000000045e+01, 3.048999999999999932e+00, 3.739999999999999991e-01, 2.899999999999999800e-01, 9.452999999999999403e+00, 2.646900000000000119e+01, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 3.420000000000000262e-01, 1.596000000000000085e+00, 0.0};
 
static char * test_lp_bandm(){
pwork *mywork;
idxint exitflag;
 
/* print test name */
printf("====================================== lp_bandm ======================================\n");
 
/* set up data */
mywork = ECOS_setup(lp_bandm_n, lp_bandm_m, lp_bandm_p, lp_bandm_l, lp_bandm_ncones, lp_bandm_q, 0,
                    lp_bandm_Gpr, lp_bandm_Gjc, lp_bandm_Gir,
                    lp_bandm_Apr, lp_bandm_Ajc, lp_bandm_Air,
                    lp_bandm_c, lp_bandm_h, lp_bandm_b);
if( mywork != NULL ){
/* solve */
exitflag = ECOS_solve(mywork); }
else exitflag = ECOS_FATAL;
 
/* clean up memory */
ECOS_cleanup(mywork, 0);
 
mu_assert("lp_bandm: ECOS failed to produce outputflag OPTIMAL", exitflag == ECOS_OPTIMAL );
return 0;
}
