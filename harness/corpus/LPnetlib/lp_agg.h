#include "ecos.h"
#include "minunit.h"
idxint lp_agg_n = 615;
idxint lp_agg_m = 615;
idxint lp_agg_p = 488;
idxint lp_agg_l = 615;
idxint lp_agg_ncones = 0;
pfloat lp_agg_c[615] = {0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, -3.108999999999999986e+01, -2.951999999999999957e+01, -2.803000000000000114e+01, -2.660999999999999943e+01, -2.526000000000000156e+01, -3.114999999999999858e+01, -2.957000000000000028e+01, -2.807999999999999829e+01, -2.666000000000000014e+01, -2.530999999999999872e+01, -2.546000000000000085e+01, -3.003999999999999915e+01, -2.851999999999999957e+01, -2.707999999999999829e+01, -2.570999999999999730e+01, -2.542000000000000171e+01, -3.000000000000000000e+01, -2.848000000000000043e+01, -2.703999999999999915e+01, -2.567000000000000526e+01, -3.321000000000000085e+01, -2.873999999999999844e+01, -2.728000000000000114e+01, -2.589999999999999858e+01, -3.321000000000000085e+01, -2.873999999999999844e+01, -2.728000000000000114e+01, -2.589999999999999858e+01, -8.706999999999999318e+01, -8.265999999999999659e+01, -7.848000000000000398e+01, -7.451000000000000512e+01, -4.059999999999999609e+00, -3.859999999999999876e+00, -3.660000000000000142e+00, -3.479999999999999982e+00, -3.299999999999999822e+00, -4.059999999999999609e+00, -3.859999999999999876e+00, -3.660000000000000142e+00, -3.479999999999999982e+00, -3.299999999999999822e+00, -3.310000000000000142e+01, -3.142000000000000171e+01, -2.982999999999999829e+01, -2.832000000000000028e+01, -3.310000000000000142e+01, -3.142000000000000171e+01, -2.982999999999999829e+01, -2.832000000000000028e+01, -5.599999999999999645e+00, -5.320000000000000284e+00, -5.049999999999999822e+00, -4.790000000000000036e+00, -4.549999999999999822e+00, -5.620000000000000107e+00, -5.339999999999999858e+00, -5.070000000000000284e+00, -4.809999999999999609e+00, -4.570000000000000284e+00, -5.459999999999999964e+00, -5.179999999999999716e+00, -4.919999999999999929e+00, -4.669999999999999929e+00, -4.440000000000000391e+00, -5.459999999999999964e+00, -5.179999999999999716e+00, -4.919999999999999929e+00, -4.669999999999999929e+00, -4.440000000000000391e+00, -3.990000000000000213e+00, -3.790000000000000036e+00, -3.589999999999999858e+00, -3.410000000000000142e+00, -3.240000000000000213e+00, -3.970000000000000195e+00, -3.770000000000000018e+00, -3.580000000000000071e+00, -3.399999999999999911e+00, -3.220000000000000195e+00, -3.930000000000000160e+00, -3.729999999999999982e+00, -3.540000000000000036e+00, -3.359999999999999876e+00, -3.189999999999999947e+00, -3.669999999999999929e+00, -3.490000000000000213e+00, -3.310000000000000053e+00, -3.140000000000000124e+00, -2.990000000000000213e+00, -3.649999999999999911e+00, -3.459999999999999964e+00, -3.290000000000000036e+00, -3.120000000000000107e+00, -2.959999999999999964e+00, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02};
idxint lp_agg_Gjc[616] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 261, 262, 263, 264, 265, 266, 267, 268, 269, 270, 271, 272, 273, 274, 275, 276, 277, 278, 279, 280, 281, 282, 283, 284, 285, 286, 287, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 365, 366, 367, 368, 369, 370, 371, 372, 373, 374, 375, 376, 377, 378, 379, 380, 381, 382, 383, 384, 385, 386, 387, 388, 389, 390, 391, 392, 393, 394, 395, 396, 397, 398, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 432, 433, 434, 435, 436, 437, 438, 439, 440, 441, 442, 443, 444, 445, 446, 447, 448, 449, 450, 451, 452, 453, 454, 455, 456, 457, 458, 459, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472, 473, 474, 475, 476, 477, 478, 479, 480, 481, 482, 483, 484, 485, 486, 487, 488, 489, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 506, 507, 508, 509, 510, 511, 512, 513, 514, 515, 516, 517, 518, 519, 520, 521, 522, 523, 524, 525, 526, 527, 528, 529, 530, 531, 532, 533, 534, 535, 536, 537, 538, 539, 540, 541, 542, 543, 544, 545, 546, 547, 548, 549, 550, 551, 552, 553, 554, 555, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614, 615};
idxint lp_agg_Gir[615] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 261, 262, 263, 264, 265, 266, 267, 268, 269, 270, 271, 272, 273, 274, 275, 276, 277, 278, 279, 280, 281, 282, 283, 284, 285, 286, 287, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 365, 366, 367, 368, 369, 370, 371, 372, 373, 374, 375, 376, 377, 378, 379, 380, 381, 382, 383, 384, 385, 386, 387, 388, 389, 390, 391, 392, 393, 394, 395, 396, 397, 398, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 432, 433, 434, 435, 436, 437, 438, 439, 440, 441, 442, 443, 444, 445, 446, 447, 448, 449, 450, 451, 452, 453, 454, 455, 456, 457, 458, 459, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472, 473, 474, 475, 476, 477, 478, 479, 480, 481, 482, 483, 484, 485, 486, 487, 488, 489, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 506, 507, 508, 509, 510, 511, 512, 513, 514, 515, 516, 517, 518, 519, 520, 521, 522, 523, 524, 525, 526, 527, 528, 529, 530, 531, 532, 533, 534, 535, 536, 537, 538, 539, 540, 541, 542, 543, 544, 545, 546, 547, 548, 549, 550, 551, 552, 553, 554, 555, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614};
pfloat lp_agg_Gpr[615] = {-1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000222e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000222e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -9.999999999999997780e-01, -9.999999999999997780e-01, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00};
pfloat lp_agg_h[615] = {0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0};
idxint *lp_agg_q = NULL;
idxint lp_agg_Ajc[616] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 261, 262, 263, 264, 265, 266, 267, 268, 269, 270, 271, 272, 273, 274, 275, 276, 277, 278, 279, 280, 281, 282, 283, 284, 285, 286, 287, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 365, 366, 367, 368, 369, 370, 371, 372, 373, 374, 375, 376, 377, 378, 379, 380, 381, 382, 383, 384, 385, 386, 387, 388, 389, 390, 391, 392, 393, 394, 395, 396, 397, 398, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 432, 433, 434, 435, 436, 437, 438, 439, 440, 441, 442, 443, 444, 445, 446, 447, 448, 449, 450, 451, 452, 470, 486, 500, 512, 522, 540, 556, 570, 582, 592, 610, 626, 640, 652, 662, 680, 696, 710, 722, 732, 748, 761, 773, 783, 802, 816, 827, 835, 851, 865, 877, 890, 908, 924, 938, 950, 960, 978, 994, 1008, 1020, 1030, 1046, 1059, 1071, 1082, 1098, 1111, 1123, 1134, 1152, 1168, 1182, 1194, 1204, 1222, 1238, 1252, 1264, 1274, 1294, 1312, 1328, 1342, 1354, 1374, 1391, 1407, 1421, 1433, 1451, 1467, 1481, 1493, 1503, 1521, 1537, 1551, 1563, 1573, 1591, 1607, 1620, 1632, 1642, 1662, 1680, 1696, 1710, 1721, 1741, 1759, 1775, 1789, 1801, 1819, 1837, 1855, 1874, 1898, 1921, 1944, 1968, 1998, 2027, 2056, 2086, 2124, 2159, 2194, 2228, 2258, 2287, 2316, 2346, 2384, 2419, 2454, 2488, 2529, 2569, 2610, 2653, 2692, 2727, 2762, 2796, 2798, 2800, 2802, 2804, 2806, 2807, 2809, 2811, 2813, 2815, 2817, 2818, 2820, 2822, 2824, 2826, 2828, 2829, 2831, 2833, 2835, 2837, 2839, 2840, 2842, 2844, 2846, 2848, 2850, 2851, 2853, 2855, 2857, 2859, 2861, 2862};
idxint lp_agg_Air[2862] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 261, 262, 263, 264, 265, 266, 267, 268, 269, 270, 271, 272, 273, 274, 275, 276, 277, 278, 279, 280, 281, 282, 283, 284, 285, 286, 287, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 365, 366, 367, 368, 369, 370, 371, 372, 373, 374, 375, 376, 377, 378, 379, 380, 381, 382, 383, 384, 385, 386, 387, 388, 389, 390, 391, 392, 393, 394, 395, 396, 397, 398, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 432, 433, 434, 435, 436, 437, 438, 439, 440, 441, 442, 443, 444, 445, 446, 447, 448, 449, 450, 451, 13, 14, 31, 46, 47, 95, 358, 359, 372, 373, 392, 393, 412, 413, 432, 433, 454, 460, 46, 47, 95, 111, 112, 160, 372, 373, 392, 393, 412, 413, 432, 433, 460, 466, 111, 112, 160, 176, 177, 225, 392, 393, 412, 413, 432, 433, 466, 472, 176, 177, 225, 241, 242, 290, 412, 413, 432, 433, 472, 478, 241, 242, 290, 306, 307, 355, 432, 433, 478, 484, 0, 2, 31, 33, 35, 95, 358, 359, 372, 373, 392, 393, 412, 413, 432, 433, 454, 460, 33, 35, 95, 98, 100, 160, 372, 373, 392, 393, 412, 413, 432, 433, 460, 466, 98, 100, 160, 163, 165, 225, 392, 393, 412, 413, 432, 433, 466, 472, 163, 165, 225, 228, 230, 290, 412, 413, 432, 433, 472, 478, 228, 230, 290, 293, 295, 355, 432, 433, 478, 484, 3, 4, 31, 36, 37, 95, 360, 361, 374, 375, 394, 395, 414, 415, 434, 435, 454, 460, 36, 37, 95, 101, 102, 160, 374, 375, 394, 395, 414, 415, 434, 435, 460, 466, 101, 102, 160, 166, 167, 225, 394, 395, 414, 415, 434, 435, 466, 472, 166, 167, 225, 231, 232, 290, 414, 415, 434, 435, 472, 478, 231, 232, 290, 296, 297, 355, 434, 435, 478, 484, 15, 16, 31, 48, 49, 95, 360, 361, 374, 375, 394, 395, 414, 415, 434, 435, 454, 460, 48, 49, 95, 113, 114, 160, 374, 375, 394, 395, 414, 415, 434, 435, 460, 466, 113, 114, 160, 178, 179, 225, 394, 395, 414, 415, 434, 435, 466, 472, 178, 179, 225, 243, 244, 290, 414, 415, 434, 435, 472, 478, 243, 244, 290, 308, 309, 355, 434, 435, 478, 484, 3, 4, 36, 37, 92, 157, 376, 377, 396, 397, 416, 417, 436, 437, 454, 460, 36, 101, 102, 157, 222, 396, 397, 416, 417, 436, 437, 460, 466, 101, 166, 167, 222, 232, 287, 416, 417, 436, 437, 466, 472, 231, 287, 296, 297, 352, 436, 437, 472, 478, 484, 15, 16, 48, 49, 92, 113, 114, 157, 376, 377, 396, 397, 416, 417, 436, 437, 454, 460, 466, 113, 114, 157, 178, 179, 222, 396, 397, 416, 417, 436, 437, 466, 472, 178, 179, 243, 244, 287, 416, 417, 436, 437, 472, 478, 243, 244, 287, 308, 309, 352, 436, 437, 0, 1, 33, 34, 96, 161, 378, 379, 398, 399, 418, 419, 438, 439, 457, 463, 33, 34, 98, 99, 161, 226, 398, 399, 418, 419, 438, 439, 463, 469, 98, 99, 163, 164, 226, 291, 418, 419, 438, 439, 469, 475, 163, 164, 228, 229, 291, 293, 294, 356, 438, 439, 475, 481, 487, 1, 5, 32, 34, 38, 97, 362, 363, 380, 381, 400, 401, 420, 421, 440, 441, 452, 458, 34, 38, 97, 99, 103, 162, 380, 381, 400, 401, 420, 421, 440, 441, 458, 464, 99, 103, 162, 164, 168, 227, 400, 401, 420, 421, 440, 441, 464, 470, 164, 168, 227, 229, 233, 292, 420, 421, 440, 441, 470, 476, 229, 233, 292, 294, 298, 357, 440, 441, 476, 482, 9, 10, 32, 42, 43, 97, 362, 363, 380, 381, 400, 401, 420, 421, 440, 441, 452, 458, 42, 43, 97, 107, 108, 162, 380, 381, 400, 401, 420, 421, 440, 441, 458, 464, 107, 108, 162, 172, 173, 227, 400, 401, 420, 421, 440, 441, 464, 470, 172, 173, 227, 237, 238, 292, 420, 421, 440, 441, 470, 476, 237, 238, 292, 302, 303, 357, 440, 441, 476, 482, 9, 11, 42, 44, 92, 157, 382, 383, 402, 403, 422, 423, 442, 443, 453, 459, 44, 107, 109, 157, 222, 402, 403, 422, 423, 442, 443, 459, 465, 109, 172, 174, 222, 237, 287, 422, 423, 442, 443, 465, 471, 237, 239, 287, 302, 304, 352, 442, 443, 471, 477, 483, 4, 6, 37, 39, 92, 157, 382, 383, 402, 403, 422, 423, 442, 443, 453, 459, 39, 102, 104, 157, 222, 402, 403, 422, 423, 442, 443, 459, 465, 104, 167, 169, 222, 232, 287, 422, 423, 442, 443, 465, 471, 232, 234, 287, 297, 299, 352, 442, 443, 471, 477, 483, 9, 11, 31, 42, 44, 95, 364, 365, 384, 385, 404, 405, 424, 425, 444, 445, 455, 461, 42, 44, 95, 107, 109, 160, 384, 385, 404, 405, 424, 425, 444, 445, 461, 467, 107, 109, 160, 172, 174, 225, 404, 405, 424, 425, 444, 445, 467, 473, 172, 174, 225, 237, 239, 290, 424, 425, 444, 445, 473, 479, 237, 239, 290, 302, 304, 355, 444, 445, 479, 485, 4, 6, 31, 37, 39, 95, 364, 365, 384, 385, 404, 405, 424, 425, 444, 445, 455, 461, 37, 39, 95, 102, 104, 160, 384, 385, 404, 405, 424, 425, 444, 445, 461, 467, 102, 104, 160, 167, 169, 225, 404, 405, 424, 425, 444, 445, 467, 473, 167, 169, 225, 232, 234, 290, 424, 425, 444, 445, 473, 479, 232, 234, 290, 297, 299, 355, 444, 445, 479, 485, 9, 11, 29, 30, 42, 44, 93, 94, 366, 367, 386, 387, 406, 407, 426, 427, 446, 447, 456, 462, 42, 44, 93, 94, 107, 109, 158, 159, 386, 387, 406, 407, 426, 427, 446, 447, 462, 468, 107, 109, 158, 159, 172, 174, 223, 224, 406, 407, 426, 427, 446, 447, 468, 474, 172, 174, 223, 224, 237, 239, 288, 289, 426, 427, 446, 447, 474, 480, 237, 239, 288, 289, 302, 304, 353, 354, 446, 447, 480, 486, 4, 6, 29, 30, 37, 39, 93, 94, 366, 367, 386, 387, 406, 407, 426, 427, 446, 447, 456, 462, 37, 39, 94, 102, 104, 158, 159, 386, 387, 406, 407, 426, 427, 446, 447, 462, 468, 102, 104, 158, 159, 167, 169, 223, 224, 406, 407, 426, 427, 446, 447, 468, 474, 167, 169, 223, 224, 232, 234, 288, 289, 426, 427, 446, 447, 474, 480, 232, 234, 288, 289, 297, 299, 353, 354, 446, 447, 480, 486, 0, 7, 31, 33, 40, 95, 368, 369, 388, 389, 408, 409, 428, 429, 448, 449, 455, 461, 33, 40, 95, 98, 105, 160, 388, 389, 408, 409, 428, 429, 448, 449, 461, 467, 98, 105, 160, 163, 170, 225, 408, 409, 428, 429, 448, 449, 467, 473, 163, 170, 225, 228, 235, 290, 428, 429, 448, 449, 473, 479, 228, 235, 290, 293, 300, 355, 448, 449, 479, 485, 8, 12, 31, 41, 45, 95, 368, 369, 388, 389, 408, 409, 428, 429, 448, 449, 455, 461, 41, 45, 95, 106, 110, 160, 388, 389, 408, 409, 428, 429, 448, 449, 461, 467, 106, 110, 160, 171, 175, 225, 408, 409, 428, 429, 448, 449, 467, 473, 171, 175, 225, 236, 240, 290, 428, 429, 448, 449, 473, 479, 236, 240, 290, 301, 305, 355, 448, 449, 479, 485, 13, 17, 31, 46, 50, 95, 368, 369, 388, 389, 408, 409, 428, 429, 448, 449, 455, 461, 46, 50, 95, 111, 115, 160, 388, 389, 408, 409, 428, 429, 448, 449, 461, 467, 111, 160, 176, 180, 225, 408, 409, 428, 429, 448, 449, 467, 473, 176, 180, 225, 241, 245, 290, 428, 429, 448, 449, 473, 479, 241, 245, 290, 306, 310, 355, 448, 449, 479, 485, 8, 12, 29, 30, 41, 45, 93, 94, 370, 371, 390, 391, 410, 411, 430, 431, 450, 451, 456, 462, 41, 45, 93, 94, 106, 110, 158, 159, 390, 391, 410, 411, 430, 431, 450, 451, 462, 468, 106, 110, 158, 159, 171, 175, 223, 224, 410, 411, 430, 431, 450, 451, 468, 474, 171, 175, 223, 224, 236, 240, 288, 289, 430, 431, 450, 451, 474, 480, 236, 240, 288, 289, 301, 305, 353, 450, 451, 480, 486, 13, 17, 29, 30, 46, 50, 93, 94, 370, 371, 390, 391, 410, 411, 430, 431, 450, 451, 456, 462, 46, 50, 93, 94, 111, 115, 158, 159, 390, 391, 410, 411, 430, 431, 450, 451, 462, 468, 111, 115, 158, 159, 176, 180, 223, 224, 410, 411, 430, 431, 450, 451, 468, 474, 176, 180, 223, 224, 241, 245, 288, 289, 430, 431, 450, 451, 474, 480, 241, 245, 288, 289, 306, 310, 353, 354, 450, 451, 480, 486, 18, 20, 21, 22, 51, 52, 53, 57, 59, 60, 63, 116, 117, 118, 124, 125, 128, 464, 52, 57, 59, 63, 116, 117, 118, 122, 124, 125, 128, 181, 182, 183, 189, 190, 193, 470, 117, 122, 124, 128, 181, 182, 183, 187, 189, 190, 193, 246, 247, 248, 254, 255, 258, 476, 182, 187, 189, 193, 246, 247, 248, 252, 254, 255, 258, 311, 312, 313, 317, 319, 320, 323, 482, 18, 20, 21, 22, 51, 52, 53, 55, 57, 58, 59, 60, 63, 64, 116, 117, 118, 120, 123, 124, 125, 128, 129, 465, 52, 57, 59, 116, 117, 118, 120, 122, 123, 124, 125, 128, 129, 181, 182, 183, 185, 188, 189, 190, 193, 194, 471, 117, 122, 124, 181, 182, 183, 185, 187, 188, 189, 190, 193, 194, 246, 247, 248, 250, 253, 254, 255, 258, 259, 477, 182, 187, 189, 246, 247, 248, 250, 252, 253, 254, 255, 258, 259, 311, 312, 313, 315, 317, 318, 319, 320, 323, 324, 483, 18, 19, 20, 21, 51, 52, 53, 54, 56, 57, 58, 59, 60, 61, 62, 63, 64, 116, 117, 118, 119, 121, 123, 124, 125, 126, 127, 128, 129, 466, 52, 57, 59, 116, 117, 118, 119, 121, 122, 123, 124, 125, 126, 127, 128, 129, 181, 182, 183, 184, 186, 188, 189, 190, 191, 192, 193, 194, 472, 117, 122, 124, 181, 182, 183, 184, 186, 187, 188, 189, 190, 191, 192, 193, 194, 246, 247, 248, 249, 251, 253, 254, 255, 256, 257, 258, 259, 478, 182, 187, 189, 246, 247, 248, 249, 251, 252, 253, 254, 255, 256, 257, 258, 259, 311, 312, 313, 314, 316, 317, 318, 319, 320, 321, 322, 323, 324, 484, 23, 25, 27, 65, 66, 69, 70, 72, 73, 74, 75, 76, 77, 78, 79, 81, 82, 83, 85, 86, 130, 131, 134, 135, 137, 138, 139, 140, 141, 142, 143, 144, 146, 147, 148, 150, 151, 466, 130, 131, 134, 135, 137, 138, 139, 140, 141, 142, 143, 144, 146, 147, 148, 150, 151, 195, 196, 199, 200, 202, 203, 204, 205, 206, 207, 208, 209, 211, 212, 213, 215, 216, 472, 195, 196, 199, 200, 202, 203, 204, 205, 206, 207, 208, 209, 211, 212, 213, 215, 216, 260, 261, 264, 265, 267, 268, 269, 270, 271, 272, 273, 274, 276, 277, 278, 280, 281, 478, 260, 261, 264, 265, 267, 268, 269, 270, 271, 272, 273, 274, 276, 277, 278, 280, 281, 325, 326, 329, 330, 332, 333, 334, 335, 336, 337, 338, 339, 341, 342, 343, 345, 346, 18, 19, 20, 21, 51, 52, 53, 54, 56, 57, 58, 59, 60, 61, 62, 63, 64, 116, 117, 118, 119, 121, 123, 124, 125, 126, 127, 128, 129, 467, 52, 57, 59, 116, 117, 118, 119, 121, 122, 123, 124, 125, 126, 127, 128, 129, 181, 182, 183, 184, 186, 188, 189, 190, 191, 192, 193, 194, 473, 117, 122, 124, 181, 182, 183, 184, 186, 187, 188, 189, 190, 191, 192, 193, 194, 246, 247, 248, 249, 251, 253, 254, 255, 256, 257, 258, 259, 479, 182, 187, 189, 246, 247, 248, 249, 251, 252, 253, 254, 255, 256, 257, 258, 259, 311, 312, 313, 314, 316, 317, 318, 319, 320, 321, 322, 323, 324, 485, 23, 25, 27, 65, 66, 69, 70, 72, 73, 74, 75, 76, 77, 78, 79, 81, 82, 83, 85, 86, 130, 131, 134, 135, 137, 138, 139, 140, 141, 142, 143, 144, 146, 147, 148, 150, 151, 467, 130, 131, 134, 135, 137, 138, 139, 140, 141, 142, 143, 144, 146, 147, 148, 150, 151, 195, 196, 199, 200, 202, 203, 204, 205, 206, 207, 208, 209, 211, 212, 213, 215, 216, 473, 195, 196, 199, 200, 202, 203, 204, 205, 206, 207, 208, 209, 211, 212, 213, 215, 216, 260, 261, 264, 265, 267, 268, 269, 270, 271, 272, 273, 274, 276, 277, 278, 280, 281, 479, 260, 261, 264, 265, 267, 268, 269, 270, 271, 272, 273, 274, 276, 277, 278, 280, 281, 325, 326, 329, 330, 332, 333, 334, 335, 336, 337, 338, 339, 341, 342, 343, 345, 346, 23, 24, 25, 26, 27, 28, 65, 66, 67, 69, 70, 71, 73, 74, 75, 76, 78, 83, 85, 86, 87, 88, 89, 90, 91, 130, 131, 132, 135, 136, 139, 140, 141, 148, 150, 151, 153, 154, 155, 156, 468, 65, 69, 73, 78, 87, 130, 131, 132, 134, 135, 136, 138, 139, 140, 141, 143, 148, 150, 151, 152, 153, 154, 155, 156, 195, 196, 197, 200, 201, 204, 205, 206, 213, 215, 216, 218, 219, 220, 221, 474, 130, 134, 138, 143, 152, 195, 196, 197, 199, 200, 201, 203, 204, 205, 206, 208, 213, 215, 216, 217, 218, 219, 220, 221, 260, 261, 262, 264, 265, 266, 269, 270, 271, 278, 280, 281, 283, 284, 285, 286, 480, 195, 203, 208, 217, 260, 261, 262, 264, 265, 266, 268, 269, 270, 271, 273, 278, 280, 281, 282, 283, 284, 285, 286, 325, 326, 327, 329, 330, 331, 333, 334, 335, 336, 338, 343, 345, 346, 347, 348, 349, 350, 351, 486, 23, 24, 25, 27, 65, 68, 69, 73, 75, 76, 78, 80, 81, 82, 83, 84, 86, 88, 89, 90, 91, 130, 133, 134, 138, 140, 141, 143, 145, 146, 147, 148, 149, 151, 153, 154, 155, 156, 469, 130, 133, 134, 138, 140, 141, 143, 145, 146, 147, 148, 149, 151, 153, 154, 155, 156, 195, 198, 199, 203, 205, 206, 208, 210, 211, 212, 213, 214, 216, 218, 219, 220, 221, 475, 195, 198, 199, 203, 205, 206, 208, 210, 211, 212, 213, 214, 216, 218, 219, 220, 221, 260, 263, 264, 268, 270, 271, 273, 275, 276, 277, 278, 279, 281, 283, 284, 285, 286, 481, 260, 263, 264, 268, 270, 271, 273, 275, 276, 277, 278, 279, 281, 283, 284, 285, 286, 325, 328, 329, 333, 335, 336, 338, 340, 341, 342, 343, 344, 346, 348, 349, 350, 351, 452, 458, 458, 464, 464, 470, 470, 476, 476, 482, 482, 453, 459, 459, 465, 465, 471, 471, 477, 477, 483, 483, 454, 460, 460, 466, 466, 472, 472, 478, 478, 484, 484, 455, 461, 461, 467, 467, 473, 473, 479, 479, 485, 485, 456, 462, 462, 468, 468, 474, 474, 480, 480, 486, 486, 457, 463, 463, 469, 469, 475, 475, 481, 481, 487, 487};
pfloat lp_agg_Apr[2862] = {1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.772999999999999576e-02, 1.774999999999999842e-02, 1.409999999999999795e-03, 1.300999999999999900e-02, 1.247999999999999804e-02, 1.319999999999999993e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.140500000000000069e+00, -7.682899999999999174e-01, 1.636000000000000301e-02, 1.638999999999999485e-02, 1.299999999999999940e-03, 1.438000000000000216e-02, 1.384999999999999946e-02, 1.430000000000000064e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.052769999999999984e+00, -8.560200000000001141e-01, 1.636000000000000301e-02, 1.638999999999999485e-02, 1.299999999999999940e-03, 1.438000000000000216e-02, 1.384999999999999946e-02, 1.430000000000000064e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.052769999999999984e+00, -8.560200000000001141e-01, 1.575999999999999970e-02, 1.577999999999999889e-02, 1.250000000000000026e-03, 1.498000000000000026e-02, 1.446000000000000063e-02, 1.469999999999999736e-03, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, -1.013779999999999903e+00, -8.950099999999997502e-01, 1.702000000000000041e-02, 1.703999999999999612e-02, 1.350000000000000071e-03, 3.073999999999999649e-02, 3.023999999999999605e-02, 2.720000000000000195e-03, 9.999999999999998890e-01, 9.999999999999998890e-01, -1.094880000000000075e+00, -1.908789999999999987e+00, 2.083000000000000476e-02, 2.059000000000000066e-02, 1.410000000000000012e-03, 1.175999999999999962e-02, 9.650000000000000591e-03, 1.319999999999999993e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.379099999999999993e+00, -5.296899999999999942e-01, 1.923000000000000057e-02, 1.899999999999999953e-02, 1.299999999999999940e-03, 1.336000000000000208e-02, 1.123000000000000040e-02, 1.429999999999999848e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.273019999999999818e+00, -6.357800000000000118e-01, 1.923000000000000057e-02, 1.899999999999999953e-02, 1.299999999999999940e-03, 1.336000000000000208e-02, 1.123000000000000040e-02, 1.429999999999999848e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.273020000000000040e+00, -6.357800000000000118e-01, 1.851999999999999827e-02, 1.830000000000000029e-02, 1.250000000000000026e-03, 1.408000000000000050e-02, 1.193999999999999923e-02, 1.470000000000000169e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.225870000000000015e+00, -6.829200000000000825e-01, 2.000000000000000042e-02, 1.975999999999999979e-02, 1.350000000000000071e-03, 3.259000000000000091e-02, 3.023999999999999605e-02, 2.720000000000000195e-03, 9.999999999999998890e-01, 9.999999999999998890e-01, -1.323939999999999673e+00, -1.908789999999999987e+00, 1.426000000000000184e-02, 1.455000000000000217e-02, 1.499999999999999869e-04, 4.610999999999999821e-02, 6.022999999999999188e-02, 1.650000000000000208e-03, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, -6.778699999999999726e-01, -1.761239999999999695e+00, 1.315999999999999982e-02, 1.342999999999999923e-02, 1.399999999999999877e-04, 4.719999999999999890e-02, 6.135000000000000869e-02, 1.660000000000000017e-03, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, -6.257300000000001194e-01, -1.813390000000000502e+00, 1.315999999999999982e-02, 1.342999999999999923e-02, 1.399999999999999877e-04, 4.719999999999999890e-02, 6.135000000000000869e-02, 1.660000000000000017e-03, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, -6.257300000000000084e-01, -1.813390000000000502e+00, 1.268000000000000203e-02, 1.293000000000000052e-02, 1.299999999999999886e-04, 4.769000000000000322e-02, 6.184000000000000608e-02, 1.670000000000000260e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -6.025499999999999190e-01, -1.836560000000000414e+00, 1.368999999999999904e-02, 1.396999999999999978e-02, 1.399999999999999877e-04, 6.037000000000000005e-02, 7.477999999999999925e-02, 1.799999999999999734e-03, 9.999999999999998890e-01, 9.999999999999998890e-01, -6.507500000000001616e-01, -2.439109999999999445e+00, 8.600000000000000006e-03, 9.280000000000000054e-03, 1.499999999999999869e-04, 5.176999999999998964e-02, 6.099999999999999867e-02, 1.649999999999999991e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -3.729799999999999782e-01, -2.066129999999999800e+00, 7.939999999999999142e-03, 8.569999999999999493e-03, 1.399999999999999877e-04, 5.242999999999999050e-02, 6.171000000000000096e-02, 1.660000000000000017e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -3.442900000000000404e-01, -2.094819999999999904e+00, 7.939999999999999142e-03, 8.569999999999999493e-03, 1.399999999999999877e-04, 5.242999999999999050e-02, 6.171000000000000096e-02, 1.660000000000000017e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -3.442899999999999849e-01, -2.094819999999999904e+00, 7.649999999999999682e-03, 8.250000000000000389e-03, 1.299999999999999886e-04, 5.272000000000000297e-02, 6.203000000000000180e-02, 1.670000000000000043e-03, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, -3.315400000000000014e-01, -2.107580000000000009e+00, 8.259999999999999981e-03, 8.909999999999997783e-03, 1.399999999999999877e-04, 6.037000000000000005e-02, 7.027999999999999525e-02, 1.799999999999999734e-03, 9.999999999999998890e-01, 9.999999999999998890e-01, -3.580599999999999894e-01, -2.439109999999999445e+00, 4.009999999999999676e-03, 3.310000000000000442e-03, 3.074000000000000690e-02, 3.973000000000000143e-02, 2.249999999999999830e-03, 1.240000000000000000e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.160000000000000253e-01, -1.188010000000000232e+00, 1.339999999999999828e-03, 3.341000000000000220e-02, 4.304000000000000187e-02, 2.249999999999999396e-03, 1.240000000000000000e-03, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, -1.080000000000000127e-01, -1.296010000000000106e+00, 1.289999999999999914e-03, 3.345999999999999669e-02, 4.145000000000000073e-02, 2.160000000000000028e-03, 1.590000000000000050e-03, 1.330000000000000236e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.039999999999999952e-01, -1.300010000000000110e+00, 3.752999999999999392e-02, 2.339999999999999632e-03, 3.475000000000000311e-02, 4.304000000000000187e-02, 3.489999999999999613e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, -5.616000000000000159e-02, -1.516329999999999956e+00, -1.404009999999999980e+00, 1.000000000000000021e-03, 7.799999999999999859e-04, 3.207999999999999741e-02, 3.733999999999999125e-02, 2.249999999999999396e-03, 1.670000000000000043e-03, 2.330000000000000040e-03, 1.240000000000000000e-03, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, -5.399999999999999939e-02, -1.296010000000000328e+00, -5.399999999999999939e-02, 3.307999999999999829e-02, 3.812000000000000111e-02, 2.249999999999999830e-03, 1.670000000000000043e-03, 2.330000000000000474e-03, 1.239999999999999783e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.350009999999999710e+00, -5.400000000000000633e-02, 3.185000000000000331e-02, 3.670999999999999958e-02, 2.899999999999999800e-03, 3.749999999999999428e-03, 1.330000000000000019e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.300010000000000110e+00, -1.404009999999999980e+00, 3.440000000000000002e-02, 3.964999999999999775e-02, 2.340000000000000066e-03, 3.475000000000000311e-02, 4.046000000000000291e-02, 3.490000000000000047e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 2.170000000000000054e-03, 2.639999999999999986e-03, 1.192000000000000004e-02, 1.110000000000000049e-02, 1.000000000000000021e-03, 8.999999999999999754e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -3.724299999999999833e-01, -1.241419999999999746e+00, 1.079999999999999797e-03, 1.590000000000000267e-03, 1.301000000000000073e-02, 1.214999999999999934e-02, 1.000000000000000021e-03, 8.999999999999998669e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.482800000000000007e-01, -1.365559999999999885e+00, 1.039999999999999909e-03, 1.529999999999999893e-03, 1.305000000000000084e-02, 1.221000000000000037e-02, 9.700000000000001590e-04, 9.399999999999999719e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.390899999999999970e-01, -1.374759999999999982e+00, 5.599999999999999509e-04, 1.100000000000000066e-03, 1.522000000000000089e-02, 1.484000000000000076e-02, 1.039999999999999909e-03, 1.409000000000000009e-02, 1.374000000000000048e-02, 1.910000000000000022e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.936600000000000266e-01, -1.742960000000000065e+00, -1.613850000000000451e+00, 2.409999999999999816e-03, 1.267000000000000071e-02, 3.299999999999999982e-04, 4.009999999999999676e-03, 1.773999999999999883e-02, 2.299999999999999961e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -5.415699999999999958e-01, -6.400400000000000533e-01, 2.220000000000000185e-03, 1.170000000000000033e-02, 2.999999999999999737e-04, 4.199999999999999740e-03, 1.872000000000000053e-02, 2.320000000000000014e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -4.999100000000000210e-01, -6.816900000000000182e-01, 2.220000000000000185e-03, 1.170000000000000033e-02, 2.999999999999999737e-04, 4.199999999999999740e-03, 1.872000000000000053e-02, 2.320000000000000014e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -4.999100000000000765e-01, -6.816900000000000182e-01, 2.139999999999999975e-03, 1.125999999999999918e-02, 2.900000000000000017e-04, 4.279999999999999950e-03, 1.915000000000000036e-02, 2.330000000000000040e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -4.813899999999999846e-01, -7.002099999999999991e-01, 2.309999999999999987e-03, 1.216999999999999853e-02, 3.099999999999999457e-04, 6.419999999999998624e-03, 3.040999999999999259e-02, 2.619999999999999499e-03, 9.999999999999998890e-01, 9.999999999999998890e-01, -5.199099999999998722e-01, -1.181599999999999984e+00, 2.409999999999999816e-03, 1.267000000000000071e-02, 3.299999999999999982e-04, 4.009999999999999676e-03, 1.773999999999999883e-02, 2.299999999999999961e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -5.415699999999999958e-01, -6.400400000000000533e-01, 2.220000000000000185e-03, 1.170000000000000033e-02, 2.999999999999999737e-04, 4.199999999999999740e-03, 1.872000000000000053e-02, 2.320000000000000014e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -4.999100000000000210e-01, -6.816900000000000182e-01, 2.220000000000000185e-03, 1.170000000000000033e-02, 2.999999999999999737e-04, 4.199999999999999740e-03, 1.872000000000000053e-02, 2.320000000000000014e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -4.999100000000000765e-01, -6.816900000000000182e-01, 2.139999999999999975e-03, 1.125999999999999918e-02, 2.900000000000000017e-04, 4.279999999999999950e-03, 1.915000000000000036e-02, 2.330000000000000040e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -4.813899999999999846e-01, -7.002099999999999991e-01, 2.309999999999999987e-03, 1.216999999999999853e-02, 3.099999999999999457e-04, 6.419999999999998624e-03, 3.040999999999999259e-02, 2.619999999999999499e-03, 9.999999999999998890e-01, 9.999999999999998890e-01, -5.199099999999998722e-01, -1.181599999999999984e+00, 1.149999999999999981e-03, 1.299999999999999940e-03, 1.383000000000000028e-02, 9.950000000000000511e-03, 6.989999999999998818e-03, 3.839999999999999664e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.241100000000000037e-01, -1.232599999999999696e+00, 4.300000000000000436e-04, 1.498000000000000199e-02, 1.081999999999999976e-02, 6.990000000000000553e-03, 3.840000000000000531e-03, 1.000000000000000222e+00, 1.000000000000000222e+00, 1.000000000000000222e+00, 1.000000000000000222e+00, 1.000000000000000222e+00, 1.000000000000000222e+00, -1.120500000000000107e-01, -1.344660000000000188e+00, 4.200000000000000716e-04, 1.442999999999999838e-02, 1.082999999999999935e-02, 6.739999999999999464e-03, 5.500000000000000331e-04, 4.099999999999999478e-03, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, -1.078999999999999820e-01, -1.348809999999999842e+00, 1.557999999999999663e-02, 1.214999999999999761e-02, 7.269999999999999553e-03, 1.497999999999999853e-02, 1.124999999999999958e-02, 1.084000000000000068e-02, 9.999999999999998890e-01, 9.999999999999998890e-01, -5.826999999999999541e-02, -1.573250000000000037e+00, -1.456709999999999949e+00, 1.149999999999999981e-03, 1.299999999999999940e-03, 1.383000000000000028e-02, 9.950000000000000511e-03, 6.989999999999998818e-03, 3.839999999999999664e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.241100000000000037e-01, -1.232599999999999696e+00, 4.300000000000000436e-04, 1.498000000000000199e-02, 1.081999999999999976e-02, 6.990000000000000553e-03, 3.840000000000000531e-03, 1.000000000000000222e+00, 1.000000000000000222e+00, 1.000000000000000222e+00, 1.000000000000000222e+00, 1.000000000000000222e+00, 1.000000000000000222e+00, -1.120500000000000107e-01, -1.344660000000000188e+00, 4.200000000000000716e-04, 1.442999999999999838e-02, 1.082999999999999935e-02, 6.739999999999999464e-03, 5.500000000000000331e-04, 4.099999999999999478e-03, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, -1.078999999999999820e-01, -1.348809999999999842e+00, 1.557999999999999663e-02, 1.214999999999999761e-02, 7.269999999999999553e-03, 1.497999999999999853e-02, 1.124999999999999958e-02, 1.084000000000000068e-02, 9.999999999999998890e-01, 9.999999999999998890e-01, -5.826999999999999541e-02, -1.573250000000000037e+00, -1.456709999999999949e+00, 1.979999999999999989e-03, 1.860000000000000108e-03, 2.000000000000000164e-05, 9.900000000000000813e-03, 7.060000000000000303e-03, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.886900000000000022e-01, -8.660600000000000520e-01, 1.830000000000000029e-03, 1.709999999999999932e-03, 2.000000000000000164e-05, 1.004999999999999991e-02, 7.199999999999999803e-03, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.664799999999999947e-01, -8.882700000000000040e-01, 1.830000000000000029e-03, 1.709999999999999932e-03, 2.000000000000000164e-05, 1.004999999999999991e-02, 7.199999999999999803e-03, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.664799999999999947e-01, -8.882700000000000040e-01, 1.760000000000000063e-03, 1.649999999999999991e-03, 2.000000000000000164e-05, 1.012000000000000052e-02, 7.270000000000000420e-03, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.566100000000000048e-01, -8.981400000000000494e-01, 1.899999999999999996e-03, 1.779999999999999898e-03, 2.000000000000000502e-05, 1.188000000000000167e-02, 8.919999999999999110e-03, 4.200000000000000174e-04, 9.999999999999998890e-01, 9.999999999999998890e-01, -2.771399999999999975e-01, -1.154749999999999943e+00, 1.979999999999999989e-03, 1.860000000000000108e-03, 2.000000000000000164e-05, 9.900000000000000813e-03, 7.060000000000000303e-03, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.886900000000000022e-01, -8.660600000000000520e-01, 1.830000000000000029e-03, 1.709999999999999932e-03, 2.000000000000000164e-05, 1.004999999999999991e-02, 7.199999999999999803e-03, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.664799999999999947e-01, -8.882700000000000040e-01, 1.830000000000000029e-03, 1.709999999999999932e-03, 2.000000000000000164e-05, 1.004999999999999991e-02, 7.199999999999999803e-03, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.664799999999999947e-01, -8.882700000000000040e-01, 1.760000000000000063e-03, 1.649999999999999991e-03, 2.000000000000000164e-05, 1.012000000000000052e-02, 7.270000000000000420e-03, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.566100000000000048e-01, -8.981400000000000494e-01, 1.899999999999999996e-03, 1.779999999999999898e-03, 2.000000000000000502e-05, 1.188000000000000167e-02, 8.919999999999999110e-03, 4.200000000000000174e-04, 9.999999999999998890e-01, 9.999999999999998890e-01, -2.771399999999999975e-01, -1.154749999999999943e+00, 4.120000000000000398e-03, 3.480000000000000020e-03, 6.000000000000000152e-05, 8.300000000000000086e-04, 8.240000000000000796e-03, 5.799999999999999600e-03, 6.599999999999999964e-04, 4.420000000000000318e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -5.010000000000000009e-01, -7.014000000000000234e-01, 3.799999999999999992e-03, 3.210000000000000180e-03, 6.000000000000000152e-05, 7.699999999999999597e-04, 8.559999999999999901e-03, 6.069999999999999875e-03, 6.700000000000000226e-04, 4.490000000000000067e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -4.624599999999999822e-01, -7.399400000000000421e-01, 3.799999999999999992e-03, 3.210000000000000180e-03, 6.000000000000000152e-05, 7.699999999999999597e-04, 8.559999999999999901e-03, 6.069999999999999875e-03, 6.700000000000000226e-04, 4.490000000000000067e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -4.624599999999999822e-01, -7.399400000000000421e-01, 3.660000000000000059e-03, 3.099999999999999891e-03, 5.000000000000000240e-05, 7.399999999999999894e-04, 8.699999999999999400e-03, 6.190000000000000190e-03, 6.700000000000000226e-04, 4.519999999999999712e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -4.453400000000000136e-01, -7.570700000000000207e-01, 3.959999999999999978e-03, 3.340000000000000521e-03, 6.000000000000000152e-05, 8.000000000000001468e-04, 1.237000000000000079e-02, 9.290000000000001382e-03, 7.200000000000001538e-04, 5.250000000000001193e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, -4.809599999999999986e-01, -1.202409999999999979e+00, 4.120000000000000398e-03, 3.480000000000000020e-03, 6.000000000000000152e-05, 8.300000000000000086e-04, 8.240000000000000796e-03, 5.799999999999999600e-03, 6.599999999999999964e-04, 4.420000000000000318e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -5.010000000000000009e-01, -7.014000000000000234e-01, 3.799999999999999992e-03, 3.210000000000000180e-03, 7.699999999999999597e-04, 8.559999999999999901e-03, 6.069999999999999875e-03, 6.700000000000000226e-04, 4.490000000000000067e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -4.624599999999999822e-01, -7.399400000000000421e-01, 3.799999999999999992e-03, 3.210000000000000180e-03, 6.000000000000000152e-05, 7.699999999999999597e-04, 8.559999999999999901e-03, 6.069999999999999875e-03, 6.700000000000000226e-04, 4.490000000000000067e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -4.624599999999999822e-01, -7.399400000000000421e-01, 3.660000000000000059e-03, 3.099999999999999891e-03, 5.000000000000000240e-05, 7.399999999999999894e-04, 8.699999999999999400e-03, 6.190000000000000190e-03, 6.700000000000000226e-04, 4.519999999999999712e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -4.453400000000000136e-01, -7.570700000000000207e-01, 3.959999999999999978e-03, 3.340000000000000521e-03, 6.000000000000000152e-05, 8.000000000000001468e-04, 1.237000000000000079e-02, 9.290000000000001382e-03, 7.200000000000001538e-04, 5.250000000000001193e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, -4.809599999999999986e-01, -1.202409999999999979e+00, 1.309999999999999967e-03, 1.700000000000000122e-04, 2.000000000000000164e-05, 6.539999999999999807e-03, 6.300000000000000261e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.886900000000000022e-01, -8.660600000000000520e-01, 1.209999999999999921e-03, 1.499999999999999869e-04, 2.000000000000000164e-05, 6.640000000000000069e-03, 6.499999999999999702e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.664799999999999947e-01, -8.882700000000000040e-01, 1.209999999999999921e-03, 1.499999999999999869e-04, 2.000000000000000164e-05, 6.640000000000000069e-03, 6.499999999999999702e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.664799999999999947e-01, -8.882700000000000040e-01, 1.160000000000000007e-03, 1.499999999999999869e-04, 2.000000000000000164e-05, 6.680000000000000174e-03, 6.499999999999999702e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.566100000000000048e-01, -8.981400000000000494e-01, 1.250000000000000026e-03, 1.600000000000000402e-04, 2.000000000000000502e-05, 7.839999999999999747e-03, 8.000000000000000383e-04, 4.200000000000000174e-04, 9.999999999999998890e-01, 9.999999999999998890e-01, -2.771399999999999975e-01, -1.154749999999999943e+00, 1.309999999999999967e-03, 1.700000000000000122e-04, 2.000000000000000164e-05, 6.539999999999999807e-03, 6.300000000000000261e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.886900000000000022e-01, -8.660600000000000520e-01, 1.209999999999999921e-03, 1.499999999999999869e-04, 2.000000000000000164e-05, 6.640000000000000069e-03, 6.499999999999999702e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.664799999999999947e-01, -8.882700000000000040e-01, 1.209999999999999921e-03, 1.499999999999999869e-04, 2.000000000000000164e-05, 6.640000000000000069e-03, 6.499999999999999702e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.664799999999999947e-01, -8.882700000000000040e-01, 1.160000000000000007e-03, 1.499999999999999869e-04, 2.000000000000000164e-05, 6.680000000000000174e-03, 6.499999999999999702e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.566100000000000048e-01, -8.981400000000000494e-01, 1.250000000000000026e-03, 1.600000000000000402e-04, 2.000000000000000502e-05, 7.839999999999999747e-03, 8.000000000000000383e-04, 4.200000000000000174e-04, 9.999999999999998890e-01, 9.999999999999998890e-01, -2.771399999999999975e-01, -1.154749999999999943e+00, 7.699999999999999597e-04, 9.000000000000000567e-05, 2.000000000000000164e-05, 6.620000000000000016e-03, 7.100000000000000191e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.443399999999999961e-01, -1.010399999999999965e+00, 7.100000000000000191e-04, 8.000000000000002010e-05, 2.000000000000000502e-05, 6.680000000000000174e-03, 7.200000000000000453e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.332400000000000251e-01, -1.021510000000000140e+00, 7.100000000000000191e-04, 2.000000000000000502e-05, 6.680000000000000174e-03, 7.200000000000000453e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.332400000000000251e-01, -1.021510000000000140e+00, 6.799999999999999404e-04, 8.000000000000002010e-05, 2.000000000000000502e-05, 6.709999999999999819e-03, 7.200000000000000453e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.283100000000000074e-01, -1.026440000000000019e+00, 7.399999999999999894e-04, 9.000000000000001922e-05, 2.000000000000000502e-05, 7.389999999999999868e-03, 8.000000000000000383e-04, 4.200000000000000174e-04, 9.999999999999998890e-01, 9.999999999999998890e-01, -1.385699999999999987e-01, -1.154749999999999943e+00, 2.720000000000000195e-03, 3.099999999999999999e-04, 6.000000000000000152e-05, 8.300000000000000086e-04, 5.440000000000000391e-03, 5.199999999999999544e-04, 6.599999999999999964e-04, 4.420000000000000318e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -5.010000000000000009e-01, -7.014000000000000234e-01, 2.510000000000000078e-03, 2.900000000000000017e-04, 6.000000000000000152e-05, 7.699999999999999597e-04, 5.649999999999999641e-03, 5.400000000000000069e-04, 6.700000000000000226e-04, 4.490000000000000067e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -4.624599999999999822e-01, -7.399400000000000421e-01, 2.510000000000000078e-03, 2.900000000000000017e-04, 6.000000000000000152e-05, 7.699999999999999597e-04, 5.649999999999999641e-03, 5.400000000000000069e-04, 6.700000000000000226e-04, 4.490000000000000067e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -4.624599999999999822e-01, -7.399400000000000421e-01, 2.419999999999999842e-03, 2.799999999999999755e-04, 5.000000000000000240e-05, 7.399999999999999894e-04, 5.749999999999999903e-03, 5.599999999999999509e-04, 6.700000000000000226e-04, 4.519999999999999712e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -4.453400000000000136e-01, -7.570700000000000207e-01, 2.609999999999999907e-03, 3.000000000000000279e-04, 6.000000000000000152e-05, 8.000000000000001468e-04, 8.170000000000000179e-03, 8.300000000000000086e-04, 7.200000000000001538e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, -4.809599999999999986e-01, -1.202409999999999979e+00, 2.089999999999999844e-03, 2.300000000000000070e-04, 6.000000000000000152e-05, 8.300000000000000086e-04, 5.610000000000000403e-03, 5.999999999999999474e-04, 6.599999999999999964e-04, 4.420000000000000318e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -3.507000000000000117e-01, -8.517099999999999671e-01, 1.920000000000000049e-03, 2.200000000000000078e-04, 6.000000000000000152e-05, 7.699999999999999597e-04, 5.769999999999999955e-03, 6.199999999999999999e-04, 6.700000000000000226e-04, 4.490000000000000067e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -3.237300000000000177e-01, -8.786800000000000166e-01, 1.920000000000000049e-03, 2.200000000000000078e-04, 6.000000000000000152e-05, 7.699999999999999597e-04, 5.769999999999999955e-03, 6.199999999999999999e-04, 6.700000000000000226e-04, 4.490000000000000067e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -3.237300000000000177e-01, -8.786800000000000166e-01, 1.850000000000000082e-03, 2.100000000000000087e-04, 5.000000000000000240e-05, 7.399999999999999894e-04, 5.850000000000000165e-03, 6.199999999999999999e-04, 6.700000000000000226e-04, 4.519999999999999712e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -3.117400000000000171e-01, -8.906699999999999617e-01, 2.000000000000000042e-03, 2.200000000000000078e-04, 6.000000000000000152e-05, 8.000000000000001468e-04, 7.700000000000001114e-03, 8.300000000000000086e-04, 7.200000000000001538e-04, 5.250000000000001193e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, -3.366699999999999693e-01, -1.202409999999999979e+00, 7.200000000000000453e-04, 2.939999999999999905e-03, 3.559999999999999797e-03, 3.299999999999999982e-03, 1.285000000000000031e-02, 9.360000000000000264e-03, 5.459999999999999576e-03, 1.240999999999999916e-02, 1.001299999999999968e-01, 6.479000000000000037e-02, 8.414000000000000645e-02, 2.109000000000000111e-02, 1.299999999999999940e-03, 6.769999999999999976e-03, 4.825000000000000122e-02, 1.141999999999999960e-02, 3.950000000000000039e-02, 2.800000000000000000e+02, 4.200000000000000174e-04, 2.109999999999999896e-03, 2.259999999999999856e-03, 2.099999999999999870e-03, 1.226000000000000006e-02, 9.469999999999999252e-03, 5.210000000000000221e-03, 1.324000000000000003e-02, 9.783999999999999642e-02, 6.185000000000000220e-02, 8.240999999999999714e-02, 2.166999999999999829e-02, 1.490000000000000005e-03, 7.020000000000000198e-03, 5.183000000000000801e-02, 1.437000000000000083e-02, 4.241999999999999937e-02, 2.800000000000000000e+02, 1.600000000000000131e-04, 1.410000000000000012e-03, 1.129999999999999928e-03, 1.049999999999999935e-03, 1.226000000000000006e-02, 9.730000000000000801e-03, 5.210000000000000221e-03, 1.393999999999999927e-02, 9.897000000000000242e-02, 6.185000000000000220e-02, 8.346000000000000640e-02, 2.166999999999999829e-02, 1.490000000000000005e-03, 7.020000000000000198e-03, 5.183000000000000801e-02, 1.437000000000000083e-02, 4.241999999999999937e-02, 2.800000000000000000e+02, 1.600000000000000131e-04, 1.479999999999999979e-03, 1.190000000000000085e-03, 1.100000000000000066e-03, 1.285000000000000031e-02, 1.035999999999999942e-02, 5.459999999999999576e-03, 1.608000000000000054e-02, 1.048700000000000049e-01, 6.479000000000000037e-02, 8.853999999999999371e-02, 3.394000000000000489e-02, 1.139000000000000082e-02, 1.222999999999999955e-02, 1.535000000000000080e-02, 1.519300000000000095e-01, 7.620999999999999996e-02, 1.269399999999999973e-01, 2.800000000000000000e+02, 7.899999999999999037e-04, 2.959999999999999958e-03, 3.329999999999999627e-03, 8.000000000000000654e-05, 1.768000000000000127e-02, 9.799999999999999684e-03, 7.659999999999999275e-03, 1.550999999999999775e-02, 1.161000000000000053e-02, 2.372999999999999762e-02, 8.607999999999998986e-02, 1.721999999999999920e-02, 6.879000000000000392e-02, 2.504999999999999588e-02, 1.491999999999999750e-02, 5.100000000000000366e-04, 4.590000000000001197e-03, 2.059999999999999679e-02, 2.156999999999999543e-02, 2.094000000000000028e-02, 3.419999999999999863e-03, 3.081999999999999670e-02, 1.486999999999999780e-02, 7.499999999999998579e+01, 5.000000000000000104e-04, 2.160000000000000028e-03, 2.170000000000000054e-03, 1.687999999999999917e-02, 9.870000000000000301e-03, 7.309999999999998790e-03, 1.481000000000000025e-02, 1.240999999999999916e-02, 2.264999999999999999e-02, 8.418000000000000482e-02, 1.643999999999999628e-02, 6.573999999999999289e-02, 2.391000000000000070e-02, 1.572000000000000133e-02, 7.299999999999999632e-04, 4.939999999999999947e-03, 2.130999999999999908e-02, 2.264999999999999999e-02, 2.400000000000000050e-02, 4.199999999999999740e-03, 3.395000000000000101e-02, 1.600999999999999993e-02, 7.499999999999998579e+01, 2.500000000000000052e-04, 1.500000000000000031e-03, 1.170000000000000033e-03, 1.687999999999999917e-02, 1.012000000000000052e-02, 7.309999999999998790e-03, 1.481000000000000025e-02, 1.307000000000000002e-02, 2.264999999999999999e-02, 8.519000000000000183e-02, 1.643999999999999628e-02, 6.573999999999999289e-02, 2.391000000000000070e-02, 1.572000000000000133e-02, 7.299999999999999632e-04, 4.939999999999999947e-03, 2.130999999999999908e-02, 2.264999999999999999e-02, 2.400000000000000050e-02, 4.199999999999999740e-03, 3.395000000000000101e-02, 1.600999999999999993e-02, 7.499999999999998579e+01, 2.599999999999999772e-04, 1.569999999999999998e-03, 1.219999999999999947e-03, 1.768000000000000127e-02, 1.085999999999999986e-02, 7.659999999999999275e-03, 1.550999999999999775e-02, 1.525999999999999752e-02, 2.372999999999999762e-02, 9.046999999999999487e-02, 1.721999999999999920e-02, 6.887000000000000066e-02, 2.504999999999999588e-02, 3.259999999999999010e-02, 1.109999999999999876e-02, 1.225000000000000047e-02, 3.611000000000000321e-02, 1.456999999999999788e-02, 4.528999999999999693e-02, 1.103599999999999859e-01, 2.063999999999999863e-02, 9.969000000000000083e-02, 3.991999999999999021e-02, 7.499999999999998579e+01, 7.899999999999997953e-04, 7.699999999999998512e-04, 2.850000000000000103e-03, 5.759999999999998628e-03, 1.254999999999999866e-02, 9.769999999999999171e-03, 2.041000000000000106e-02, 1.234899999999999748e-01, 1.362999999999999802e-02, 1.186999999999999687e-02, 1.608000000000000054e-02, 1.103399999999999659e-01, 1.663999999999999854e-02, 1.592999999999999972e-02, 9.979999999999997554e-03, 5.939999999999999100e-03, 1.830999999999999989e-02, 1.978999999999999856e-02, 5.400000000000000069e-04, 2.972999999999999254e-02, 2.512999999999999609e-02, 8.369999999999998969e-03, 2.799999999999999364e-02, 2.004999999999999838e-02, 3.919999999999999006e-03, 7.189999999999999343e-03, 1.076999999999999659e-02, 1.197999999999999760e-02, 2.076999999999999680e-02, 4.299999999999999289e+01, 5.000000000000000104e-04, 2.049999999999999739e-03, 3.759999999999999020e-03, 1.197999999999999760e-02, 9.829999999999998461e-03, 1.947999999999999732e-02, 1.186099999999999655e-01, 1.300999999999999900e-02, 1.265999999999999764e-02, 1.534999999999999906e-02, 1.082999999999999796e-01, 1.588999999999999788e-02, 1.519999999999999997e-02, 9.529999999999998542e-03, 5.669999999999998826e-03, 1.747999999999999554e-02, 2.035999999999999616e-02, 7.699999999999998512e-04, 3.065999999999999628e-02, 3.077999999999999486e-02, 8.989999999999997993e-03, 2.872999999999999513e-02, 2.408999999999999683e-02, 4.669999999999998805e-03, 7.910000000000000364e-03, 1.122000000000000081e-02, 1.224999999999999700e-02, 2.160000000000000114e-02, 4.299999999999999289e+01, 2.500000000000000052e-04, 1.379999999999999933e-03, 2.529999999999999263e-03, 1.197999999999999760e-02, 1.008999999999999828e-02, 1.947999999999999732e-02, 1.186099999999999655e-01, 1.300999999999999900e-02, 1.332999999999999810e-02, 1.534999999999999906e-02, 1.095399999999999985e-01, 1.588999999999999788e-02, 1.519999999999999997e-02, 9.529999999999998542e-03, 5.669999999999998826e-03, 1.747999999999999554e-02, 2.035999999999999616e-02, 7.699999999999998512e-04, 3.065999999999999628e-02, 3.077999999999999486e-02, 8.989999999999997993e-03, 2.872999999999999513e-02, 2.408999999999999683e-02, 4.669999999999998805e-03, 7.910000000000000364e-03, 1.122000000000000081e-02, 1.224999999999999700e-02, 2.160000000000000114e-02, 4.299999999999999289e+01, 2.599999999999999772e-04, 1.449999999999999900e-03, 2.650000000000000012e-03, 1.255000000000000039e-02, 1.082999999999999935e-02, 2.041000000000000106e-02, 1.242500000000000132e-01, 1.362999999999999975e-02, 1.542000000000000141e-02, 1.608000000000000054e-02, 1.174000000000000044e-01, 1.663999999999999854e-02, 1.592999999999999972e-02, 9.979999999999999288e-03, 5.939999999999999968e-03, 1.830999999999999989e-02, 3.234000000000000069e-02, 1.110000000000000049e-02, 5.013999999999999707e-02, 1.493899999999999950e-01, 2.200999999999999832e-02, 1.471999999999999871e-02, 4.408000000000000113e-02, 1.361600000000000033e-01, 2.055999999999999842e-02, 2.312000000000000166e-02, 2.075000000000000108e-02, 1.793000000000000149e-02, 3.907999999999999668e-02, 4.300000000000000000e+01, 6.000000000000000830e-05, 4.699999999999999859e-04, 2.700000000000000035e-04, 1.548000000000000070e-02, 2.557999999999999857e-02, 3.303999999999999992e-02, 2.733000000000000013e-02, 1.620999999999999872e-02, 1.170000000000000033e-02, 1.125999999999999918e-02, 2.743000000000000299e-02, 5.210000000000000221e-03, 2.251999999999999835e-02, 1.566000000000000031e-02, 1.004000000000000031e-02, 1.393000000000000141e-02, 1.633000000000000076e-02, 1.319999999999999993e-02, 1.148000000000000062e-02, 7.860000000000000667e-03, 2.550000000000000183e-03, 3.191999999999999699e-02, 3.619999999999999954e-03, 1.705999999999999878e-02, 2.556000000000000286e-02, 5.000000000000000104e-04, 2.392999999999999988e-02, 5.760000000000000363e-03, 1.285999999999999817e-02, 1.687999999999999917e-02, 1.039999999999999909e-03, 1.583000000000000032e-02, 4.309999999999999595e-03, 6.850000000000000186e-03, 4.389999999999999805e-03, 5.910000000000000323e-03, 1.089000000000000037e-02, 1.530000000000000000e+02, 1.553999999999999999e-02, 2.557999999999999857e-02, 3.303999999999999992e-02, 2.733000000000000013e-02, 1.620999999999999872e-02, 1.217000000000000200e-02, 1.125999999999999918e-02, 2.743000000000000299e-02, 5.210000000000000221e-03, 2.251999999999999835e-02, 1.592999999999999972e-02, 1.004000000000000031e-02, 1.393000000000000141e-02, 1.633000000000000076e-02, 1.319999999999999993e-02, 1.148000000000000062e-02, 7.860000000000000667e-03, 2.550000000000000183e-03, 3.191999999999999699e-02, 3.619999999999999954e-03, 1.705999999999999878e-02, 2.556000000000000286e-02, 5.000000000000000104e-04, 2.392999999999999988e-02, 5.760000000000000363e-03, 1.285999999999999817e-02, 1.687999999999999917e-02, 1.039999999999999909e-03, 1.583000000000000032e-02, 4.309999999999999595e-03, 6.850000000000000186e-03, 4.389999999999999805e-03, 5.910000000000000323e-03, 1.089000000000000037e-02, 1.530000000000000000e+02, 1.495999999999999934e-02, 2.463999999999999524e-02, 3.180999999999999800e-02, 2.631999999999999965e-02, 1.560999999999999888e-02, 1.171999999999999952e-02, 1.084000000000000068e-02, 2.641999999999999557e-02, 5.020000000000000157e-03, 2.169000000000000095e-02, 1.534000000000000120e-02, 9.669999999999999776e-03, 1.341000000000000178e-02, 1.573000000000000093e-02, 1.271000000000000255e-02, 1.106000000000000039e-02, 7.570000000000000340e-03, 3.130000000000000403e-03, 3.287000000000000338e-02, 4.850000000000000144e-03, 1.806999999999999926e-02, 2.615999999999999923e-02, 9.499999999999999981e-04, 2.435000000000000012e-02, 6.779999999999998701e-03, 1.306000000000000216e-02, 1.771999999999999964e-02, 1.630000000000000155e-03, 1.619999999999999912e-02, 4.830000000000000092e-03, 7.449999999999999158e-03, 4.879999999999999789e-03, 6.340000000000000149e-03, 1.118000000000000070e-02, 1.530000000000000000e+02, 1.616000000000000075e-02, 2.661000000000000171e-02, 3.436000000000000165e-02, 2.843000000000000041e-02, 1.685999999999999999e-02, 1.265999999999999938e-02, 1.170999999999999992e-02, 2.852999999999999980e-02, 5.420000000000000338e-03, 2.341999999999999985e-02, 1.655999999999999833e-02, 1.043999999999999963e-02, 1.447999999999999982e-02, 1.699000000000000163e-02, 1.372999999999999915e-02, 1.193999999999999923e-02, 8.170000000000000179e-03, 1.808999999999999844e-02, 5.750999999999999862e-02, 3.665999999999999814e-02, 4.438999999999999890e-02, 4.177000000000000157e-02, 1.267000000000000071e-02, 3.518999999999999906e-02, 3.318999999999999728e-02, 1.807999999999999885e-02, 3.939999999999999752e-02, 1.695999999999999938e-02, 2.586000000000000104e-02, 1.823999999999999927e-02, 2.317999999999999922e-02, 1.759000000000000147e-02, 1.739999999999999880e-02, 1.874999999999999931e-02, 7.899999999999999037e-04, 7.699999999999999597e-04, 2.850000000000000536e-03, 5.759999999999999495e-03, 1.255000000000000039e-02, 9.769999999999999171e-03, 2.041000000000000453e-02, 1.234900000000000025e-01, 1.362999999999999975e-02, 1.187000000000000034e-02, 1.608000000000000401e-02, 1.103399999999999936e-01, 1.664000000000000201e-02, 1.592999999999999972e-02, 9.979999999999999288e-03, 5.939999999999999968e-03, 1.831000000000000336e-02, 1.978999999999999856e-02, 5.400000000000001153e-04, 2.972999999999999601e-02, 2.512999999999999956e-02, 8.370000000000002438e-03, 2.800000000000000058e-02, 2.004999999999999838e-02, 3.919999999999999873e-03, 7.190000000000000210e-03, 1.077000000000000006e-02, 1.197999999999999760e-02, 2.077000000000000027e-02, 4.300000000000000000e+01, 5.000000000000000104e-04, 2.050000000000000173e-03, 3.759999999999999887e-03, 1.197999999999999760e-02, 9.830000000000000196e-03, 1.947999999999999732e-02, 1.186099999999999932e-01, 1.301000000000000247e-02, 1.265999999999999938e-02, 1.535000000000000080e-02, 1.082999999999999935e-01, 1.589000000000000135e-02, 1.520000000000000170e-02, 9.530000000000000276e-03, 5.670000000000000560e-03, 1.747999999999999901e-02, 2.035999999999999963e-02, 7.699999999999999597e-04, 3.065999999999999975e-02, 3.077999999999999833e-02, 8.989999999999999727e-03, 2.873000000000000206e-02, 2.409000000000000030e-02, 4.669999999999999672e-03, 7.910000000000000364e-03, 1.122000000000000254e-02, 1.225000000000000047e-02, 2.160000000000000114e-02, 4.300000000000000000e+01, 2.500000000000000052e-04, 1.380000000000000150e-03, 2.530000000000000131e-03, 1.197999999999999760e-02, 1.009000000000000175e-02, 1.947999999999999732e-02, 1.186099999999999932e-01, 1.301000000000000247e-02, 1.332999999999999984e-02, 1.535000000000000080e-02, 1.095400000000000124e-01, 1.589000000000000135e-02, 1.520000000000000170e-02, 9.530000000000000276e-03, 5.670000000000000560e-03, 1.747999999999999901e-02, 2.035999999999999963e-02, 7.699999999999999597e-04, 3.065999999999999975e-02, 3.077999999999999833e-02, 8.989999999999999727e-03, 2.873000000000000206e-02, 2.409000000000000030e-02, 4.669999999999999672e-03, 7.910000000000000364e-03, 1.122000000000000254e-02, 1.225000000000000047e-02, 2.160000000000000114e-02, 4.300000000000000000e+01, 2.599999999999999772e-04, 1.449999999999999900e-03, 2.650000000000000012e-03, 1.255000000000000039e-02, 1.082999999999999935e-02, 2.041000000000000106e-02, 1.242500000000000132e-01, 1.362999999999999975e-02, 1.542000000000000141e-02, 1.608000000000000054e-02, 1.174000000000000044e-01, 1.663999999999999854e-02, 1.592999999999999972e-02, 9.979999999999999288e-03, 5.939999999999999968e-03, 1.830999999999999989e-02, 3.234000000000000069e-02, 1.110000000000000049e-02, 5.013999999999999707e-02, 1.493899999999999950e-01, 2.200999999999999832e-02, 1.471999999999999871e-02, 4.408000000000000113e-02, 1.361600000000000033e-01, 2.055999999999999842e-02, 2.312000000000000166e-02, 2.075000000000000108e-02, 1.793000000000000149e-02, 3.907999999999999668e-02, 4.300000000000000000e+01, 6.000000000000000152e-05, 4.699999999999999317e-04, 2.700000000000000035e-04, 1.548000000000000070e-02, 2.557999999999999857e-02, 3.303999999999999992e-02, 2.733000000000000360e-02, 1.620999999999999872e-02, 1.170000000000000033e-02, 1.125999999999999918e-02, 2.742999999999999952e-02, 5.210000000000000221e-03, 2.251999999999999835e-02, 1.566000000000000031e-02, 1.004000000000000031e-02, 1.392999999999999794e-02, 1.633000000000000076e-02, 1.319999999999999819e-02, 1.148000000000000062e-02, 7.860000000000000667e-03, 2.550000000000000183e-03, 3.191999999999999699e-02, 3.619999999999999954e-03, 1.705999999999999878e-02, 2.555999999999999939e-02, 5.000000000000000104e-04, 2.392999999999999988e-02, 5.760000000000000363e-03, 1.286000000000000164e-02, 1.687999999999999917e-02, 1.039999999999999909e-03, 1.583000000000000032e-02, 4.309999999999999595e-03, 6.849999999999999319e-03, 4.389999999999999805e-03, 5.910000000000000323e-03, 1.089000000000000037e-02, 1.430000000000000000e+02, 1.553999999999999826e-02, 2.557999999999999857e-02, 3.303999999999999992e-02, 2.733000000000000360e-02, 1.620999999999999872e-02, 1.217000000000000026e-02, 1.125999999999999918e-02, 2.742999999999999952e-02, 5.210000000000000221e-03, 2.251999999999999835e-02, 1.592999999999999972e-02, 1.004000000000000031e-02, 1.392999999999999794e-02, 1.633000000000000076e-02, 1.319999999999999819e-02, 1.148000000000000062e-02, 7.860000000000000667e-03, 2.550000000000000183e-03, 3.191999999999999699e-02, 3.619999999999999954e-03, 1.705999999999999878e-02, 2.555999999999999939e-02, 5.000000000000000104e-04, 2.392999999999999988e-02, 5.760000000000000363e-03, 1.286000000000000164e-02, 1.687999999999999917e-02, 1.039999999999999909e-03, 1.583000000000000032e-02, 4.309999999999999595e-03, 6.849999999999999319e-03, 4.389999999999999805e-03, 5.910000000000000323e-03, 1.089000000000000037e-02, 1.430000000000000000e+02, 1.495999999999999934e-02, 2.463999999999999871e-02, 3.180999999999999800e-02, 2.631999999999999965e-02, 1.561000000000000061e-02, 1.171999999999999778e-02, 1.084000000000000068e-02, 2.642000000000000251e-02, 5.020000000000000157e-03, 2.169000000000000095e-02, 1.533999999999999947e-02, 9.669999999999999776e-03, 1.341000000000000004e-02, 1.573000000000000093e-02, 1.271000000000000081e-02, 1.106000000000000039e-02, 7.570000000000000340e-03, 3.129999999999999970e-03, 3.287000000000000338e-02, 4.850000000000000144e-03, 1.806999999999999926e-02, 2.615999999999999576e-02, 9.500000000000001065e-04, 2.435000000000000359e-02, 6.779999999999998701e-03, 1.306000000000000043e-02, 1.771999999999999964e-02, 1.629999999999999939e-03, 1.619999999999999912e-02, 4.830000000000000092e-03, 7.450000000000000025e-03, 4.879999999999999789e-03, 6.340000000000000149e-03, 1.118000000000000070e-02, 1.430000000000000000e+02, 1.616000000000000075e-02, 2.661000000000000171e-02, 3.436000000000000165e-02, 2.843000000000000041e-02, 1.685999999999999999e-02, 1.265999999999999938e-02, 1.170999999999999992e-02, 2.852999999999999980e-02, 5.420000000000000338e-03, 2.341999999999999985e-02, 1.655999999999999833e-02, 1.043999999999999963e-02, 1.447999999999999982e-02, 1.699000000000000163e-02, 1.372999999999999915e-02, 1.193999999999999923e-02, 8.170000000000000179e-03, 1.808999999999999844e-02, 5.750999999999999862e-02, 3.665999999999999814e-02, 4.438999999999999890e-02, 4.177000000000000157e-02, 1.267000000000000071e-02, 3.518999999999999906e-02, 3.318999999999999728e-02, 1.807999999999999885e-02, 3.939999999999999752e-02, 1.695999999999999938e-02, 2.586000000000000104e-02, 1.823999999999999927e-02, 2.317999999999999922e-02, 1.759000000000000147e-02, 1.739999999999999880e-02, 1.874999999999999931e-02, 9.300000000000000541e-04, 2.599999999999999881e-03, 2.030000000000000120e-03, 1.200000000000000030e-04, 2.579999999999999828e-03, 2.289999999999999935e-03, 1.961999999999999855e-02, 3.130000000000000143e-02, 1.463000000000000064e-02, 2.510000000000000078e-02, 1.944999999999999854e-02, 9.690000000000000696e-03, 1.116000000000000152e-02, 9.780000000000000498e-03, 2.908000000000000168e-02, 4.959999999999999999e-03, 1.477999999999999974e-02, 8.619999999999999191e-03, 1.822000000000000008e-02, 5.420000000000000338e-03, 1.259000000000000050e-02, 2.266000000000000306e-02, 1.024000000000000084e-02, 1.935999999999999527e-02, 1.455000000000000043e-02, 3.759999999999999887e-03, 4.853999999999999981e-02, 3.477000000000000229e-02, 2.270000000000000143e-02, 7.900000000000000772e-03, 2.440000000000000155e-02, 3.959999999999999978e-03, 1.298999999999999981e-02, 5.390000000000000693e-03, 1.976999999999999938e-02, 1.247000000000000018e-02, 1.208000000000000046e-02, 2.434000000000000052e-02, 1.677000000000000018e-02, 2.055000000000000229e-02, 4.239999999999998863e+02, 4.499999999999999877e-04, 4.699999999999999859e-04, 1.010000000000000047e-03, 1.250000000000000026e-03, 1.139999999999999954e-03, 2.009999999999999634e-02, 3.130000000000000143e-02, 1.463000000000000064e-02, 2.723000000000000073e-02, 1.944999999999999854e-02, 9.690000000000000696e-03, 1.217999999999999985e-02, 9.780000000000000498e-03, 2.920000000000000026e-02, 4.959999999999999999e-03, 1.611999999999999891e-02, 8.619999999999999191e-03, 1.822000000000000008e-02, 5.420000000000000338e-03, 1.374000000000000048e-02, 2.266000000000000306e-02, 1.024000000000000084e-02, 1.935999999999999527e-02, 1.455000000000000043e-02, 3.759999999999999887e-03, 4.853999999999999981e-02, 3.477000000000000229e-02, 2.270000000000000143e-02, 7.900000000000000772e-03, 2.440000000000000155e-02, 3.959999999999999978e-03, 1.298999999999999981e-02, 5.390000000000000693e-03, 1.976999999999999938e-02, 1.247000000000000018e-02, 1.208000000000000046e-02, 2.434000000000000052e-02, 1.677000000000000018e-02, 2.055000000000000229e-02, 4.239999999999998863e+02, 4.299999999999999894e-04, 4.499999999999999877e-04, 9.799999999999999684e-04, 1.199999999999999678e-03, 1.100000000000000066e-03, 1.958000000000000018e-02, 3.013999999999999665e-02, 1.408999999999999836e-02, 2.667999999999999886e-02, 1.872999999999999665e-02, 9.329999999999999752e-03, 1.221000000000000037e-02, 9.419999999999999554e-03, 2.811999999999999916e-02, 4.769999999999999934e-03, 1.616000000000000075e-02, 8.300000000000000086e-03, 1.754999999999999963e-02, 5.219999999999999814e-03, 1.378000000000000058e-02, 2.181999999999999912e-02, 9.860000000000000708e-03, 1.864000000000000032e-02, 1.400999999999999988e-02, 4.290000000000000410e-03, 4.969999999999999418e-02, 3.530999999999999417e-02, 5.699999999999999772e-04, 2.342000000000000332e-02, 8.259999999999999981e-03, 2.476000000000000076e-02, 5.040000000000000209e-03, 1.316999999999999942e-02, 5.709999999999999798e-03, 2.043999999999999984e-02, 1.267000000000000071e-02, 1.292000000000000093e-02, 2.471999999999999892e-02, 1.748999999999999860e-02, 2.109000000000000111e-02, 4.239999999999998863e+02, 2.199999999999999807e-04, 5.299999999999999807e-04, 5.999999999999998390e-04, 5.999999999999998390e-04, 2.162000000000000033e-02, 3.255000000000000254e-02, 1.521999999999999915e-02, 2.929999999999999966e-02, 2.023000000000000145e-02, 1.007000000000000083e-02, 1.425000000000000051e-02, 1.017000000000000196e-02, 3.037000000000000116e-02, 5.150000000000000064e-03, 1.874999999999999584e-02, 8.969999999999998808e-03, 1.895000000000000157e-02, 5.640000000000000048e-03, 1.607000000000000095e-02, 2.356000000000000108e-02, 1.064999999999999974e-02, 2.013000000000000206e-02, 1.512999999999999935e-02, 2.429999999999999521e-02, 7.983999999999998043e-02, 4.939999999999999947e-02, 2.769999999999999893e-02, 4.214999999999999997e-02, 1.759000000000000147e-02, 1.319000000000000034e-02, 3.418000000000000205e-02, 3.316000000000000197e-02, 1.794999999999999721e-02, 1.736000000000000043e-02, 1.400999999999999988e-02, 3.798999999999999599e-02, 1.788999999999999965e-02, 1.488000000000000086e-02, 3.474000000000000005e-02, 3.457999999999999963e-02, 3.613000000000000239e-02, 3.509999999999999926e-02, 4.239999999999998863e+02, 3.299999999999999982e-04, 8.099999999999999561e-04, 9.799999999999999684e-04, 9.699999999999999421e-04, 1.518000000000000078e-02, 3.148999999999999716e-02, 5.747000000000000025e-02, 1.196000000000000188e-02, 3.241999999999999743e-02, 5.290000000000000431e-03, 1.598000000000000115e-02, 1.307000000000000002e-02, 1.363999999999999935e-02, 1.034000000000000023e-02, 2.245000000000000120e-02, 1.958000000000000018e-02, 6.790000000000000029e-03, 3.388000000000000039e-02, 1.308999999999999921e-02, 2.611000000000000126e-02, 1.835000000000000173e-02, 2.710000000000000169e-03, 1.933999999999999955e-02, 3.969999999999999571e-03, 2.000000000000000502e-05, 4.890000000000000249e-03, 1.289000000000000042e-02, 3.699999999999999947e-04, 4.939999999999999947e-03, 4.530000000000000172e-03, 6.779999999999999569e-03, 6.919999999999999936e-03, 3.230000000000000232e-02, 1.150999999999999940e-02, 8.980000000000000135e-03, 2.475999999999999729e-02, 1.412999999999999846e-02, 2.062999999999999903e-02, 2.600000000000000355e+01, 1.549999999999999989e-02, 3.148999999999999716e-02, 5.827999999999999847e-02, 1.294000000000000185e-02, 3.241999999999999743e-02, 5.290000000000000431e-03, 1.694999999999999979e-02, 1.307000000000000002e-02, 1.363999999999999935e-02, 1.034000000000000023e-02, 2.245000000000000120e-02, 1.958000000000000018e-02, 6.790000000000000029e-03, 3.388000000000000039e-02, 1.308999999999999921e-02, 2.611000000000000126e-02, 1.835000000000000173e-02, 2.710000000000000169e-03, 1.933999999999999955e-02, 3.969999999999999571e-03, 2.000000000000000502e-05, 4.890000000000000249e-03, 1.289000000000000042e-02, 3.699999999999999947e-04, 4.939999999999999947e-03, 4.530000000000000172e-03, 6.779999999999999569e-03, 6.919999999999999936e-03, 3.230000000000000232e-02, 1.150999999999999940e-02, 8.980000000000000135e-03, 2.475999999999999729e-02, 1.412999999999999846e-02, 2.062999999999999903e-02, 2.600000000000000355e+01, 1.493000000000000056e-02, 3.033000000000000279e-02, 5.612000000000000322e-02, 1.246000000000000059e-02, 3.121999999999999775e-02, 5.100000000000000366e-03, 1.632000000000000117e-02, 1.257999999999999917e-02, 1.312999999999999931e-02, 9.960000000000000103e-03, 2.161000000000000421e-02, 1.885999999999999829e-02, 6.539999999999999807e-03, 3.262000000000000316e-02, 1.260000000000000009e-02, 2.514999999999999875e-02, 1.767000000000000168e-02, 3.280000000000000363e-03, 2.050000000000000086e-02, 6.129999999999999165e-03, 5.000000000000000104e-04, 6.089999999999999927e-03, 1.308999999999999921e-02, 9.899999999999999946e-04, 5.420000000000000338e-03, 5.029999999999999749e-03, 7.170000000000000158e-03, 7.759999999999999537e-03, 3.302999999999999686e-02, 1.175999999999999789e-02, 1.024000000000000257e-02, 2.525000000000000161e-02, 1.510000000000000057e-02, 2.130999999999999908e-02, 2.600000000000000355e+01, 1.611999999999999891e-02, 3.275000000000000133e-02, 6.060999999999999721e-02, 1.345999999999999974e-02, 3.371999999999999997e-02, 5.510000000000000141e-03, 1.762999999999999984e-02, 1.358999999999999965e-02, 1.417999999999999990e-02, 1.076000000000000047e-02, 2.333999999999999964e-02, 2.036999999999999922e-02, 7.069999999999999896e-03, 3.522999999999999743e-02, 1.361000000000000057e-02, 2.716000000000000011e-02, 1.907999999999999974e-02, 1.821000000000000049e-02, 5.083000000000000018e-02, 6.226000000000000284e-02, 1.295999999999999930e-02, 3.731000000000000288e-02, 1.818000000000000171e-02, 1.731999999999999859e-02, 1.799999999999999864e-02, 1.816999999999999865e-02, 1.712999999999999939e-02, 2.937000000000000027e-02, 5.188999999999999863e-02, 1.830999999999999989e-02, 4.286000000000000226e-02, 3.785000000000000170e-02, 4.025000000000000105e-02, 3.898000000000000076e-02, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 9.999999999999998890e-01, -9.999999999999998890e-01, 9.999999999999998890e-01, -9.999999999999998890e-01, 9.999999999999998890e-01, -9.999999999999998890e-01, 9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00};
pfloat lp_agg_b[488] = {2.399579999999999927e+04, 2.133000000000000000e+03, 6.398899999999999636e+03, 7.998600000000000364e+03, 2.932809999999999854e+04, 7.465300000000000182e+03, 1.173129999999999927e+04, 1.599700000000000045e+03, 4.082400000000000000e+04, 2.721600000000000000e+04, 6.237000000000000000e+03, 2.835000000000000000e+03, 1.701000000000000000e+03, 6.479699999999999818e+03, 5.400000000000000000e+02, 5.400000000000000000e+02, 5.400000000000000000e+02, 1.080000000000000000e+03, 9.936000000000000227e+02, 4.416000000000000227e+02, 5.520000000000000000e+02, 2.550199999999999818e+03, 7.286000000000000227e+02, 1.296000000000000000e+03, 3.013199999999999818e+03, 7.517000000000000455e+02, 1.224700000000000045e+03, 1.503400000000000091e+03, 1.769000000000000000e+03, 3.864000000000000000e+03, 1.449000000000000000e+03, 3.732699999999999818e+03, 2.649599999999999909e+03, 2.132959999999999854e+04, 1.896000000000000000e+03, 5.687899999999999636e+03, 7.109899999999999636e+03, 2.606950000000000000e+04, 6.635899999999999636e+03, 1.042779999999999927e+04, 1.422000000000000000e+03, 3.628800000000000000e+04, 2.419200000000000000e+04, 5.544000000000000000e+03, 2.520000000000000000e+03, 1.512000000000000000e+03, 5.759800000000000182e+03, 4.800000000000000000e+02, 4.800000000000000000e+02, 4.800000000000000000e+02, 9.600000000000000000e+02, 6.527999999999999545e+02, 8.640000000000000000e+02, 8.597000000000000455e+02, 3.840000000000000000e+02, 5.731000000000000227e+02, 5.760000000000000000e+02, 4.800000000000000000e+02, 1.488000000000000000e+03, 2.217599999999999909e+03, 1.392000000000000000e+03, 4.320000000000000000e+02, 4.800000000000000000e+02, 6.336000000000000227e+02, 1.219200000000000045e+03, 1.152000000000000000e+03, 2.102400000000000091e+03, 1.152000000000000028e+02, 1.209599999999999909e+03, 2.678400000000000091e+03, 1.157799999999999955e+03, 2.995000000000000000e+02, 3.283000000000000114e+02, 6.682000000000000455e+02, 1.036799999999999955e+03, 1.088599999999999909e+03, 3.628999999999999773e+02, 1.002200000000000045e+03, 1.336299999999999955e+03, 1.336299999999999955e+03, 6.682000000000000455e+02, 6.682000000000000455e+02, 6.682000000000000455e+02, 6.797000000000000455e+02, 1.670400000000000091e+03, 5.760000000000000000e+02, 7.257999999999999545e+02, 1.572500000000000000e+03, 9.850000000000000000e+02, 8.986000000000000227e+02, 9.850000000000000000e+02, 6.738999999999999773e+02, 3.960000000000000000e+03, 3.360000000000000000e+03, 1.260000000000000000e+03, 3.317900000000000091e+03, 1.728000000000000000e+03, 2.304000000000000000e+03, 2.310700000000000000e+04, 2.054000000000000000e+03, 6.161899999999999636e+03, 7.702300000000000182e+03, 2.824190000000000146e+04, 7.188899999999999636e+03, 1.129679999999999927e+04, 1.540500000000000000e+03, 3.931200000000000000e+04, 2.620800000000000000e+04, 6.006000000000000000e+03, 2.730000000000000000e+03, 1.638000000000000000e+03, 6.239699999999999818e+03, 5.200000000000000000e+02, 5.200000000000000000e+02, 5.200000000000000000e+02, 1.040000000000000000e+03, 6.853999999999999773e+02, 9.072000000000000455e+02, 9.027000000000000455e+02, 4.031999999999999886e+02, 6.017999999999999545e+02, 6.047999999999999545e+02, 5.040000000000000000e+02, 1.562400000000000091e+03, 2.328500000000000000e+03, 1.461599999999999909e+03, 4.536000000000000227e+02, 5.040000000000000000e+02, 6.652999999999999545e+02, 1.280200000000000045e+03, 1.248000000000000000e+03, 2.277599999999999909e+03, 1.247999999999999972e+02, 1.310400000000000091e+03, 2.901599999999999909e+03, 1.254200000000000045e+03, 3.245000000000000000e+02, 3.556999999999999886e+02, 7.237999999999999545e+02, 1.123200000000000045e+03, 1.179400000000000091e+03, 3.931000000000000227e+02, 1.085799999999999955e+03, 1.447700000000000045e+03, 1.447700000000000045e+03, 7.237999999999999545e+02, 7.237999999999999545e+02, 7.237999999999999545e+02, 7.362999999999999545e+02, 1.809599999999999909e+03, 6.240000000000000000e+02, 7.862000000000000455e+02, 1.703500000000000000e+03, 1.067000000000000000e+03, 9.733999999999999773e+02, 1.067000000000000000e+03, 7.301000000000000227e+02, 4.158000000000000000e+03, 3.528000000000000000e+03, 1.323000000000000000e+03, 3.594400000000000091e+03, 1.814400000000000091e+03, 2.419199999999999818e+03, 2.310700000000000000e+04, 2.054000000000000000e+03, 6.161899999999999636e+03, 7.702300000000000182e+03, 2.824190000000000146e+04, 7.188899999999999636e+03, 1.129679999999999927e+04, 1.540500000000000000e+03, 3.931200000000000000e+04, 2.620800000000000000e+04, 6.006000000000000000e+03, 2.730000000000000000e+03, 1.638000000000000000e+03, 6.239699999999999818e+03, 5.200000000000000000e+02, 5.200000000000000000e+02, 5.200000000000000000e+02, 1.040000000000000000e+03, 7.181000000000000227e+02, 9.503999999999999773e+02, 9.456000000000000227e+02, 4.223999999999999773e+02, 6.303999999999999773e+02, 6.336000000000000227e+02, 5.280000000000000000e+02, 1.636799999999999955e+03, 2.439400000000000091e+03, 1.531200000000000045e+03, 4.751999999999999886e+02, 5.280000000000000000e+02, 6.970000000000000000e+02, 1.341099999999999909e+03, 1.248000000000000000e+03, 2.277599999999999909e+03, 1.247999999999999972e+02, 1.310400000000000091e+03, 2.901599999999999909e+03, 1.254200000000000045e+03, 3.245000000000000000e+02, 3.556999999999999886e+02, 7.237999999999999545e+02, 1.123200000000000045e+03, 1.179400000000000091e+03, 3.931000000000000227e+02, 1.085799999999999955e+03, 1.447700000000000045e+03, 1.447700000000000045e+03, 7.237999999999999545e+02, 7.237999999999999545e+02, 7.237999999999999545e+02, 7.362999999999999545e+02, 1.809599999999999909e+03, 6.240000000000000000e+02, 7.862000000000000455e+02, 1.703500000000000000e+03, 1.067000000000000000e+03, 9.733999999999999773e+02, 1.067000000000000000e+03, 7.301000000000000227e+02, 4.356000000000000000e+03, 3.696000000000000000e+03, 1.386000000000000000e+03, 3.594400000000000091e+03, 1.900799999999999955e+03, 2.534400000000000091e+03, 2.399579999999999927e+04, 2.133000000000000000e+03, 6.398899999999999636e+03, 7.998600000000000364e+03, 2.932809999999999854e+04, 7.465300000000000182e+03, 1.173129999999999927e+04, 1.599700000000000045e+03, 4.082400000000000000e+04, 2.721600000000000000e+04, 6.237000000000000000e+03, 2.835000000000000000e+03, 1.701000000000000000e+03, 6.479699999999999818e+03, 5.400000000000000000e+02, 5.400000000000000000e+02, 5.400000000000000000e+02, 1.080000000000000000e+03, 7.181000000000000227e+02, 9.503999999999999773e+02, 9.456000000000000227e+02, 4.223999999999999773e+02, 6.303999999999999773e+02, 6.336000000000000227e+02, 5.280000000000000000e+02, 1.636799999999999955e+03, 2.439400000000000091e+03, 1.531200000000000045e+03, 4.751999999999999886e+02, 5.280000000000000000e+02, 6.970000000000000000e+02, 1.341099999999999909e+03, 1.296000000000000000e+03, 2.365199999999999818e+03, 1.295999999999999943e+02, 1.360799999999999955e+03, 3.013199999999999818e+03, 1.302500000000000000e+03, 3.370000000000000000e+02, 3.693999999999999773e+02, 7.517000000000000455e+02, 1.166400000000000091e+03, 1.224700000000000045e+03, 4.081999999999999886e+02, 1.127500000000000000e+03, 1.503400000000000091e+03, 1.503400000000000091e+03, 7.517000000000000455e+02, 7.517000000000000455e+02, 7.517000000000000455e+02, 7.646000000000000227e+02, 1.879200000000000045e+03, 6.480000000000000000e+02, 8.165000000000000000e+02, 1.769000000000000000e+03, 1.108099999999999909e+03, 1.010899999999999977e+03, 1.108099999999999909e+03, 7.582000000000000455e+02, 4.356000000000000000e+03, 3.696000000000000000e+03, 1.386000000000000000e+03, 3.732699999999999818e+03, 1.900799999999999955e+03, 2.534400000000000091e+03, 2.221829999999999927e+04, 1.975000000000000000e+03, 5.924899999999999636e+03, 7.406100000000000364e+03, 2.715570000000000073e+04, 6.912399999999999636e+03, 1.086229999999999927e+04, 1.481200000000000045e+03, 3.780000000000000000e+04, 2.520000000000000000e+04, 5.775000000000000000e+03, 2.625000000000000000e+03, 1.575000000000000000e+03, 1.999900000000000091e+03, 1.666999999999999886e+02, 1.666999999999999886e+02, 1.666999999999999886e+02, 3.333000000000000114e+02, 6.853999999999999773e+02, 9.072000000000000455e+02, 9.027000000000000455e+02, 4.031999999999999886e+02, 6.017999999999999545e+02, 6.047999999999999545e+02, 5.040000000000000000e+02, 1.562400000000000091e+03, 2.328500000000000000e+03, 1.461599999999999909e+03, 4.536000000000000227e+02, 5.040000000000000000e+02, 6.652999999999999545e+02, 1.280200000000000045e+03, 1.200000000000000000e+03, 2.190000000000000000e+03, 1.200000000000000000e+02, 1.260000000000000000e+03, 2.790000000000000000e+03, 1.206000000000000000e+03, 3.120000000000000000e+02, 3.420000000000000000e+02, 6.960000000000000000e+02, 1.080000000000000000e+03, 1.134000000000000000e+03, 3.780000000000000000e+02, 1.044000000000000000e+03, 1.392000000000000000e+03, 1.392000000000000000e+03, 6.960000000000000000e+02, 6.960000000000000000e+02, 6.960000000000000000e+02, 7.080000000000000000e+02, 1.740000000000000000e+03, 6.000000000000000000e+02, 7.560000000000000000e+02, 1.638000000000000000e+03, 1.026000000000000000e+03, 9.360000000000000000e+02, 1.026000000000000000e+03, 7.020000000000000000e+02, 4.158000000000000000e+03, 3.528000000000000000e+03, 1.323000000000000000e+03, 3.456199999999999818e+03, 1.814400000000000091e+03, 2.419199999999999818e+03, 0.0, 5.620000000000000000e+04, 0.0, 2.457140000000000000e+05, 0.0, 1.201600000000000000e+06, 0.0, 7.800000000000000000e+04, 0.0, 1.800000000000000000e+05, 0.0, 1.391199000000000000e+06, 0.0, 4.500000000000000000e+05, 0.0, 9.820000000000000000e+04, 0.0, 3.771430000000000000e+05, 0.0, 1.428240000000000000e+05, 0.0, 1.600000000000000000e+04, 0.0, 1.984799000000000000e+06, 0.0, 3.420000000000000000e+04, 0.0, 1.552000000000000000e+05, 0.0, 2.580000000000000000e+05, 0.0, 2.414999000000000000e+06, 0.0, 7.060000000000000000e+05, 8.909100000000000000e+04, 2.322000000000000000e+05, 0.0, 4.914280000000000000e+05, 1.364000000000000000e+04, 2.887060000000000000e+05, 0.0, 2.040000000000000000e+04, 4.339080000000000000e+05, 2.669599000000000000e+06, 0.0, 5.420000000000000000e+04, 9.989000000000000000e+04, 2.144000000000000000e+05, 1.499850000000000000e+05, 3.360000000000000000e+05, 6.853700000000000000e+04, 3.635799000000000000e+06, 1.180710000000000000e+05, 9.660000000000000000e+05, 1.290870000000000000e+05, 3.662000000000000000e+05, 1.507910000000000000e+05, 4.925710000000000000e+05, 2.007880000000000000e+05, 4.863530000000000000e+05, 1.169900000000000000e+04, 2.540000000000000000e+04, 8.842460000000000000e+05, 3.241599000000000000e+06, 2.409600000000000000e+04, 6.820000000000000000e+04, 1.251870000000000000e+05, 2.736000000000000000e+05, 1.799820000000000000e+05, 4.140000000000000000e+05, 1.849407000000000000e+06, 4.798598000000000000e+06, 3.344080000000000000e+05, 1.226000000000000000e+06, 1.690830000000000000e+05, 5.002000000000000000e+05, 1.507910000000000000e+05, 4.937140000000000000e+05, 2.331840000000000000e+05, 7.028230000000000000e+05, 1.169900000000000000e+04, 3.080000000000000000e+04, 1.301415000000000000e+06, 3.817599000000000000e+06, 3.009600000000000000e+04, 8.020000000000000000e+04, 1.251870000000000000e+05, 3.452000000000000000e+05, 2.099790000000000000e+05, 4.920000000000000000e+05, 1.849407000000000000e+06, 6.141396000000000000e+06, 6.449320000000000000e+05, 1.486000000000000000e+06, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0};
 
static char * test_lp_agg(){
pwork *mywork;
idxint exitflag;
 
/* print test name */
printf("======================================= lp_agg =======================================\n");
 
/* set up data */
mywork = ECOS_setup(lp_agg_n, lp_agg_m, lp_agg_p, lp_agg_l, lp_agg_ncones, lp_agg_q, 0,
                    lp_agg_Gpr, lp_agg_Gjc, lp_agg_Gir,
                    lp_agg_Apr, lp_agg_Ajc, lp_agg_Air,
                    lp_agg_c, lp_agg_h, lp_agg_b);
if( mywork != NULL ){
/* solve */
exitflag = ECOS_solve(mywork); }
else exitflag = ECOS_FATAL;
 
/* clean up memory */
ECOS_cleanup(mywork, 0);
 
mu_assert("lp_agg: ECOS failed to produce outputflag OPTIMAL", exitflag == ECOS_OPTIMAL );
return 0;
}
