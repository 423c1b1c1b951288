#include "ecos.h"
#include "minunit.h"
idxint lp_agg3_n = 758;
idxint lp_agg3_m = 758;
idxint lp_agg3_p = 516;
idxint lp_agg3_l = 758;
idxint lp_agg3_ncones = 0;
pfloat lp_agg3_c[758] = {0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, -3.109299999999999997e+01, -2.951899999999999835e+01, -2.802599999999999980e+01, -2.660699999999999932e+01, -2.526099999999999923e+01, -3.114999999999999858e+01, -2.957300000000000040e+01, -2.807699999999999818e+01, -2.665599999999999881e+01, -2.530699999999999861e+01, -2.541500000000000270e+01, -2.999699999999999989e+01, -2.847899999999999920e+01, -2.703800000000000026e+01, -2.567000000000000526e+01, -2.546300000000000097e+01, -3.004200000000000159e+01, -2.852199999999999847e+01, -2.707900000000000063e+01, -2.570799999999999841e+01, -3.320600000000000307e+01, -2.873600000000000065e+01, -2.728200000000000003e+01, -2.590099999999999980e+01, -3.712100000000000222e+01, -3.320600000000000307e+01, -2.873600000000000065e+01, -2.728200000000000003e+01, -2.590099999999999980e+01, -8.707099999999999795e+01, -8.266500000000000625e+01, -7.848199999999999932e+01, -7.451000000000000512e+01, -4.062999999999999723e+00, -3.858000000000000096e+00, -3.662999999999999812e+00, -3.476999999999999869e+00, -3.301000000000000156e+00, -4.062999999999999723e+00, -3.858000000000000096e+00, -3.662999999999999812e+00, -3.476999999999999869e+00, -3.301000000000000156e+00, -3.309799999999999898e+01, -3.142299999999999827e+01, -2.983299999999999841e+01, -2.832300000000000040e+01, -3.309799999999999898e+01, -3.142299999999999827e+01, -2.983299999999999841e+01, -2.832300000000000040e+01, -4.737000000000000099e+00, -4.498000000000000220e+00, -4.269999999999999574e+00, -4.054000000000000270e+00, -3.849000000000000199e+00, -4.719000000000000306e+00, -4.480000000000000426e+00, -4.253000000000000114e+00, -4.038000000000000256e+00, -3.834000000000000075e+00, -4.719000000000000306e+00, -4.480000000000000426e+00, -4.253000000000000114e+00, -4.038000000000000256e+00, -3.834000000000000075e+00, -4.737000000000000099e+00, -4.498000000000000220e+00, -4.269999999999999574e+00, -4.054000000000000270e+00, -3.849000000000000199e+00, -6.493999999999999773e+00, -6.165000000000000036e+00, -5.852999999999999758e+00, -5.557000000000000384e+00, -5.275999999999999801e+00, -6.512999999999999901e+00, -6.182999999999999829e+00, -5.870000000000000107e+00, -5.573000000000000398e+00, -5.291000000000000369e+00, -6.493999999999999773e+00, -6.165000000000000036e+00, -5.852999999999999758e+00, -5.557000000000000384e+00, -5.275999999999999801e+00, -6.512999999999999901e+00, -6.182999999999999829e+00, -5.870000000000000107e+00, -5.573000000000000398e+00, -5.291000000000000369e+00, -5.458999999999999631e+00, -5.182999999999999829e+00, -4.921000000000000263e+00, -4.671999999999999709e+00, -4.434999999999999609e+00, -5.458999999999999631e+00, -5.182999999999999829e+00, -4.921000000000000263e+00, -4.671999999999999709e+00, -4.434999999999999609e+00, -3.579000000000000181e+00, -3.398000000000000131e+00, -3.225999999999999979e+00, -3.063000000000000167e+00, -2.907999999999999918e+00, -3.636000000000000121e+00, -3.451999999999999957e+00, -3.278000000000000025e+00, -3.112000000000000099e+00, -2.954000000000000181e+00, -3.616999999999999993e+00, -3.434000000000000163e+00, -3.259999999999999787e+00, -3.095000000000000195e+00, -2.939000000000000057e+00, -3.616999999999999993e+00, -3.434000000000000163e+00, -3.259999999999999787e+00, -3.095000000000000195e+00, -2.939000000000000057e+00, -3.579000000000000181e+00, -3.398000000000000131e+00, -3.225999999999999979e+00, -3.063000000000000167e+00, -2.907999999999999918e+00, -3.636000000000000121e+00, -3.451999999999999957e+00, -3.278000000000000025e+00, -3.112000000000000099e+00, -2.954000000000000181e+00, -4.282000000000000028e+00, -4.065000000000000391e+00, -3.858999999999999986e+00, -3.664000000000000146e+00, -3.479000000000000092e+00, -4.339000000000000412e+00, -4.118999999999999773e+00, -3.911000000000000032e+00, -3.713000000000000078e+00, -3.524999999999999911e+00, -4.320000000000000284e+00, -4.100999999999999979e+00, -3.894000000000000128e+00, -3.697000000000000064e+00, -3.509999999999999787e+00, -4.320000000000000284e+00, -4.100999999999999979e+00, -3.894000000000000128e+00, -3.697000000000000064e+00, -3.509999999999999787e+00, -4.282000000000000028e+00, -4.065000000000000391e+00, -3.858999999999999986e+00, -3.664000000000000146e+00, -3.479000000000000092e+00, -4.339000000000000412e+00, -4.118999999999999773e+00, -3.911000000000000032e+00, -3.713000000000000078e+00, -3.524999999999999911e+00, -3.673999999999999932e+00, -3.487999999999999989e+00, -3.311999999999999833e+00, -3.144000000000000128e+00, -2.984999999999999432e+00, -3.645999999999999908e+00, -3.460999999999999854e+00, -3.286000000000000032e+00, -3.120000000000000107e+00, -2.962000000000000188e+00, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02, 1.000799999999999983e+02};
idxint lp_agg3_Gjc[759] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 261, 262, 263, 264, 265, 266, 267, 268, 269, 270, 271, 272, 273, 274, 275, 276, 277, 278, 279, 280, 281, 282, 283, 284, 285, 286, 287, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 365, 366, 367, 368, 369, 370, 371, 372, 373, 374, 375, 376, 377, 378, 379, 380, 381, 382, 383, 384, 385, 386, 387, 388, 389, 390, 391, 392, 393, 394, 395, 396, 397, 398, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 432, 433, 434, 435, 436, 437, 438, 439, 440, 441, 442, 443, 444, 445, 446, 447, 448, 449, 450, 451, 452, 453, 454, 455, 456, 457, 458, 459, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472, 473, 474, 475, 476, 477, 478, 479, 480, 481, 482, 483, 484, 485, 486, 487, 488, 489, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 506, 507, 508, 509, 510, 511, 512, 513, 514, 515, 516, 517, 518, 519, 520, 521, 522, 523, 524, 525, 526, 527, 528, 529, 530, 531, 532, 533, 534, 535, 536, 537, 538, 539, 540, 541, 542, 543, 544, 545, 546, 547, 548, 549, 550, 551, 552, 553, 554, 555, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614, 615, 616, 617, 618, 619, 620, 621, 622, 623, 624, 625, 626, 627, 628, 629, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 643, 644, 645, 646, 647, 648, 649, 650, 651, 652, 653, 654, 655, 656, 657, 658, 659, 660, 661, 662, 663, 664, 665, 666, 667, 668, 669, 670, 671, 672, 673, 674, 675, 676, 677, 678, 679, 680, 681, 682, 683, 684, 685, 686, 687, 688, 689, 690, 691, 692, 693, 694, 695, 696, 697, 698, 699, 700, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 716, 717, 718, 719, 720, 721, 722, 723, 724, 725, 726, 727, 728, 729, 730, 731, 732, 733, 734, 735, 736, 737, 738, 739, 740, 741, 742, 743, 744, 745, 746, 747, 748, 749, 750, 751, 752, 753, 754, 755, 756, 757, 758};
idxint lp_agg3_Gir[758] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 261, 262, 263, 264, 265, 266, 267, 268, 269, 270, 271, 272, 273, 274, 275, 276, 277, 278, 279, 280, 281, 282, 283, 284, 285, 286, 287, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 365, 366, 367, 368, 369, 370, 371, 372, 373, 374, 375, 376, 377, 378, 379, 380, 381, 382, 383, 384, 385, 386, 387, 388, 389, 390, 391, 392, 393, 394, 395, 396, 397, 398, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 432, 433, 434, 435, 436, 437, 438, 439, 440, 441, 442, 443, 444, 445, 446, 447, 448, 449, 450, 451, 452, 453, 454, 455, 456, 457, 458, 459, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472, 473, 474, 475, 476, 477, 478, 479, 480, 481, 482, 483, 484, 485, 486, 487, 488, 489, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 506, 507, 508, 509, 510, 511, 512, 513, 514, 515, 516, 517, 518, 519, 520, 521, 522, 523, 524, 525, 526, 527, 528, 529, 530, 531, 532, 533, 534, 535, 536, 537, 538, 539, 540, 541, 542, 543, 544, 545, 546, 547, 548, 549, 550, 551, 552, 553, 554, 555, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614, 615, 616, 617, 618, 619, 620, 621, 622, 623, 624, 625, 626, 627, 628, 629, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 643, 644, 645, 646, 647, 648, 649, 650, 651, 652, 653, 654, 655, 656, 657, 658, 659, 660, 661, 662, 663, 664, 665, 666, 667, 668, 669, 670, 671, 672, 673, 674, 675, 676, 677, 678, 679, 680, 681, 682, 683, 684, 685, 686, 687, 688, 689, 690, 691, 692, 693, 694, 695, 696, 697, 698, 699, 700, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 716, 717, 718, 719, 720, 721, 722, 723, 724, 725, 726, 727, 728, 729, 730, 731, 732, 733, 734, 735, 736, 737, 738, 739, 740, 741, 742, 743, 744, 745, 746, 747, 748, 749, 750, 751, 752, 753, 754, 755, 756, 757};
pfloat lp_agg3_Gpr[758] = {-1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000222e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000222e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -9.999999999999997780e-01, -9.999999999999997780e-01, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999995559e-01, -9.999999999999995559e-01, -9.999999999999995559e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -9.999999999999997780e-01, -9.999999999999997780e-01, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999995559e-01, -9.999999999999995559e-01, -9.999999999999995559e-01, -1.000000000000000000e+00, -9.999999999999997780e-01, -9.999999999999997780e-01, -9.999999999999997780e-01, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00};
pfloat lp_agg3_h[758] = {0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0};
idxint *lp_agg3_q = NULL;
idxint lp_agg3_Ajc[759] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 261, 262, 263, 264, 265, 266, 267, 268, 269, 270, 271, 272, 273, 274, 275, 276, 277, 278, 279, 280, 281, 282, 283, 284, 285, 286, 287, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 365, 366, 367, 368, 369, 370, 371, 372, 373, 374, 375, 376, 377, 378, 379, 380, 381, 382, 383, 384, 385, 386, 387, 388, 389, 390, 391, 392, 393, 394, 395, 396, 397, 398, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 432, 433, 434, 435, 436, 437, 438, 439, 440, 441, 442, 443, 444, 445, 446, 447, 448, 449, 450, 451, 452, 453, 454, 455, 456, 469, 481, 492, 502, 511, 524, 536, 547, 557, 566, 579, 591, 602, 612, 621, 634, 646, 657, 667, 676, 688, 698, 708, 718, 728, 743, 754, 764, 771, 783, 794, 804, 816, 829, 841, 852, 861, 870, 883, 895, 906, 916, 925, 937, 947, 957, 967, 979, 989, 999, 1009, 1022, 1034, 1045, 1055, 1064, 1077, 1089, 1100, 1110, 1119, 1132, 1144, 1155, 1165, 1174, 1187, 1199, 1210, 1220, 1229, 1242, 1254, 1265, 1274, 1283, 1296, 1307, 1318, 1328, 1337, 1350, 1362, 1373, 1383, 1392, 1405, 1417, 1428, 1438, 1447, 1462, 1476, 1489, 1501, 1512, 1527, 1541, 1554, 1566, 1577, 1590, 1602, 1613, 1623, 1632, 1645, 1657, 1668, 1678, 1687, 1700, 1712, 1723, 1733, 1742, 1755, 1767, 1778, 1788, 1797, 1810, 1822, 1833, 1843, 1852, 1865, 1877, 1888, 1898, 1907, 1920, 1932, 1943, 1953, 1962, 1975, 1987, 1998, 2008, 2017, 2030, 2042, 2053, 2063, 2072, 2085, 2097, 2108, 2118, 2127, 2140, 2152, 2163, 2173, 2182, 2195, 2206, 2217, 2227, 2235, 2250, 2264, 2277, 2289, 2300, 2315, 2329, 2342, 2354, 2365, 2383, 2401, 2419, 2438, 2462, 2485, 2508, 2532, 2562, 2591, 2620, 2650, 2683, 2721, 2756, 2791, 2825, 2855, 2884, 2913, 2943, 2976, 3014, 3049, 3084, 3118, 3148, 3177, 3206, 3236, 3267, 3297, 3327, 3358, 3391, 3429, 3464, 3499, 3533, 3567, 3606, 3642, 3678, 3712, 3742, 3771, 3800, 3830, 3861, 3891, 3921, 3952, 3985, 4023, 4058, 4093, 4127, 4161, 4200, 4236, 4272, 4306, 4347, 4387, 4428, 4471, 4503, 4542, 4577, 4612, 4646, 4648, 4650, 4652, 4654, 4656, 4657, 4659, 4661, 4663, 4665, 4667, 4668, 4670, 4672, 4674, 4676, 4678, 4679, 4681, 4683, 4685, 4687, 4689, 4690, 4692, 4694, 4696, 4698, 4700, 4701, 4703, 4705, 4707, 4709, 4711, 4712, 4714, 4716, 4718, 4720, 4722, 4723, 4725, 4727, 4729, 4731, 4733, 4734, 4736, 4738, 4740, 4742, 4744, 4745, 4747, 4749, 4751, 4753, 4755, 4756};
idxint lp_agg3_Air[4756] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 261, 262, 263, 264, 265, 266, 267, 268, 269, 270, 271, 272, 273, 274, 275, 276, 277, 278, 279, 280, 281, 282, 283, 284, 285, 286, 287, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 365, 366, 367, 368, 369, 370, 371, 372, 373, 374, 375, 376, 377, 378, 379, 380, 381, 382, 383, 384, 385, 386, 387, 388, 389, 390, 391, 392, 393, 394, 395, 396, 397, 398, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 432, 433, 434, 435, 436, 437, 438, 439, 440, 441, 442, 443, 444, 445, 446, 447, 448, 449, 450, 451, 452, 453, 454, 455, 13, 14, 51, 66, 67, 115, 378, 392, 408, 424, 440, 474, 475, 66, 67, 115, 131, 132, 180, 392, 408, 424, 440, 475, 476, 131, 132, 180, 196, 197, 245, 408, 424, 440, 476, 477, 196, 197, 245, 261, 262, 310, 424, 440, 477, 478, 261, 262, 310, 326, 327, 375, 440, 478, 479, 0, 2, 51, 53, 55, 115, 378, 392, 408, 424, 440, 474, 475, 53, 55, 115, 118, 120, 180, 392, 408, 424, 440, 475, 476, 118, 120, 180, 183, 185, 245, 408, 424, 440, 476, 477, 183, 185, 245, 248, 250, 310, 424, 440, 477, 478, 248, 250, 310, 313, 315, 375, 440, 478, 479, 15, 16, 51, 68, 69, 115, 379, 393, 409, 425, 441, 468, 469, 68, 69, 115, 133, 134, 180, 393, 409, 425, 441, 469, 470, 133, 134, 180, 198, 199, 245, 409, 425, 441, 470, 471, 198, 199, 245, 263, 264, 310, 425, 441, 471, 472, 263, 264, 310, 328, 329, 375, 441, 472, 473, 3, 4, 51, 56, 57, 115, 379, 393, 409, 425, 441, 468, 469, 56, 57, 115, 121, 122, 180, 393, 409, 425, 441, 469, 470, 121, 122, 180, 186, 187, 245, 409, 425, 441, 470, 471, 186, 187, 245, 251, 252, 310, 425, 441, 471, 472, 251, 252, 310, 316, 317, 375, 441, 472, 473, 3, 4, 56, 57, 112, 177, 394, 410, 426, 442, 474, 475, 56, 121, 122, 177, 242, 410, 426, 442, 475, 476, 121, 186, 187, 242, 252, 307, 426, 442, 476, 477, 251, 252, 307, 316, 317, 372, 442, 477, 478, 479, 15, 16, 48, 112, 380, 394, 410, 426, 442, 474, 15, 16, 68, 69, 112, 133, 134, 177, 394, 410, 426, 442, 474, 475, 476, 133, 134, 177, 198, 199, 242, 410, 426, 442, 476, 477, 198, 199, 242, 263, 264, 307, 426, 442, 477, 478, 263, 264, 307, 328, 329, 372, 442, 0, 1, 53, 54, 116, 181, 395, 411, 427, 443, 510, 511, 53, 54, 118, 119, 181, 246, 411, 427, 443, 511, 512, 118, 119, 183, 184, 246, 311, 427, 443, 512, 513, 183, 184, 248, 249, 311, 313, 314, 376, 443, 513, 514, 515, 9, 10, 52, 62, 63, 117, 381, 396, 412, 428, 444, 456, 457, 62, 63, 117, 127, 128, 182, 396, 412, 428, 444, 457, 458, 127, 128, 182, 192, 193, 247, 412, 428, 444, 458, 459, 193, 247, 257, 258, 312, 428, 444, 459, 460, 257, 258, 312, 322, 323, 377, 444, 460, 461, 1, 5, 52, 54, 58, 117, 381, 396, 412, 428, 444, 456, 457, 54, 58, 117, 119, 123, 182, 396, 412, 428, 444, 457, 458, 119, 123, 182, 184, 188, 247, 412, 428, 444, 458, 459, 184, 188, 247, 249, 253, 312, 428, 444, 459, 460, 249, 253, 312, 314, 318, 377, 444, 460, 461, 9, 11, 62, 64, 112, 177, 397, 413, 429, 445, 462, 463, 64, 127, 129, 177, 242, 413, 429, 445, 463, 464, 129, 192, 194, 242, 257, 307, 429, 445, 464, 465, 257, 259, 307, 322, 324, 372, 445, 465, 466, 467, 4, 6, 57, 59, 112, 177, 397, 413, 429, 445, 462, 463, 59, 122, 124, 177, 242, 413, 429, 445, 463, 464, 124, 187, 189, 242, 252, 307, 429, 445, 464, 465, 252, 254, 307, 317, 319, 372, 445, 465, 466, 467, 4, 6, 51, 57, 59, 115, 382, 398, 414, 430, 446, 480, 482, 57, 59, 115, 122, 124, 180, 398, 414, 430, 446, 482, 484, 122, 124, 180, 187, 189, 245, 414, 430, 446, 484, 486, 187, 189, 245, 252, 254, 310, 430, 446, 486, 488, 252, 254, 310, 317, 319, 375, 446, 488, 490, 9, 11, 51, 62, 64, 115, 382, 398, 414, 430, 446, 480, 482, 62, 64, 115, 127, 129, 180, 398, 414, 430, 446, 482, 484, 127, 129, 180, 192, 194, 245, 414, 430, 446, 484, 486, 192, 194, 245, 257, 259, 310, 430, 446, 486, 488, 257, 259, 310, 322, 324, 375, 446, 488, 490, 9, 11, 51, 62, 64, 115, 383, 399, 415, 431, 447, 492, 494, 62, 64, 115, 127, 129, 180, 399, 415, 431, 447, 494, 496, 127, 129, 180, 192, 194, 245, 415, 431, 447, 496, 498, 192, 194, 245, 257, 259, 310, 431, 447, 498, 500, 257, 259, 310, 322, 324, 375, 447, 500, 502, 4, 6, 51, 57, 59, 115, 383, 399, 415, 431, 447, 492, 494, 57, 59, 115, 122, 124, 180, 399, 415, 431, 447, 494, 496, 122, 124, 180, 187, 189, 245, 415, 431, 447, 496, 498, 187, 189, 245, 252, 254, 310, 431, 447, 498, 500, 252, 254, 310, 317, 319, 375, 447, 500, 502, 9, 11, 51, 62, 64, 115, 384, 400, 416, 432, 448, 481, 483, 62, 64, 115, 127, 129, 180, 400, 416, 432, 448, 483, 485, 127, 129, 180, 192, 194, 245, 416, 432, 448, 485, 487, 192, 194, 245, 257, 259, 432, 448, 487, 489, 257, 259, 310, 322, 324, 375, 448, 489, 491, 4, 6, 51, 57, 59, 115, 384, 400, 416, 432, 448, 481, 483, 57, 115, 122, 124, 180, 400, 416, 432, 448, 483, 485, 122, 124, 180, 187, 189, 245, 416, 432, 448, 485, 487, 187, 189, 245, 252, 254, 310, 432, 448, 487, 489, 252, 254, 310, 317, 319, 375, 448, 489, 491, 9, 11, 51, 62, 64, 115, 385, 401, 417, 433, 449, 493, 495, 62, 64, 115, 127, 129, 180, 401, 417, 433, 449, 495, 497, 127, 129, 180, 192, 194, 245, 417, 433, 449, 497, 499, 192, 194, 245, 257, 259, 310, 433, 449, 499, 501, 257, 259, 310, 322, 324, 375, 449, 501, 503, 4, 6, 51, 57, 59, 115, 385, 401, 417, 433, 449, 493, 495, 57, 59, 115, 122, 124, 180, 401, 417, 433, 449, 495, 497, 122, 124, 180, 187, 189, 245, 417, 433, 449, 497, 499, 187, 189, 245, 252, 254, 310, 433, 449, 499, 501, 252, 254, 310, 317, 319, 375, 449, 501, 503, 4, 6, 49, 50, 57, 59, 113, 114, 386, 402, 418, 434, 450, 504, 505, 57, 59, 113, 114, 122, 124, 178, 179, 402, 418, 434, 450, 505, 506, 122, 124, 178, 179, 187, 189, 243, 244, 418, 434, 450, 506, 507, 187, 189, 243, 244, 252, 254, 308, 309, 434, 450, 507, 508, 252, 254, 308, 309, 317, 319, 373, 374, 450, 508, 509, 9, 11, 49, 50, 62, 64, 113, 114, 386, 402, 418, 434, 450, 504, 505, 62, 64, 113, 114, 127, 129, 178, 179, 402, 418, 434, 450, 505, 506, 127, 129, 178, 179, 192, 194, 243, 244, 418, 434, 450, 506, 507, 192, 194, 243, 244, 257, 259, 308, 309, 434, 450, 507, 508, 257, 259, 308, 309, 322, 324, 373, 374, 450, 508, 509, 13, 17, 51, 66, 70, 115, 387, 403, 419, 435, 451, 480, 482, 66, 70, 115, 131, 135, 180, 403, 419, 435, 451, 482, 484, 131, 135, 180, 196, 200, 245, 419, 435, 451, 484, 486, 196, 200, 245, 261, 265, 310, 435, 451, 486, 488, 261, 265, 310, 326, 330, 375, 451, 488, 490, 0, 7, 51, 53, 60, 115, 387, 403, 419, 435, 451, 480, 482, 53, 60, 115, 118, 125, 180, 403, 419, 435, 451, 482, 484, 118, 125, 180, 183, 190, 245, 419, 435, 451, 484, 486, 183, 190, 245, 248, 255, 310, 435, 451, 486, 488, 248, 255, 310, 313, 320, 375, 451, 488, 490, 8, 12, 51, 61, 65, 115, 387, 403, 419, 435, 451, 480, 482, 61, 65, 115, 126, 130, 180, 403, 419, 435, 451, 482, 484, 126, 130, 180, 191, 195, 245, 419, 435, 451, 484, 486, 191, 195, 245, 256, 260, 310, 435, 451, 486, 488, 256, 260, 310, 321, 325, 375, 451, 488, 490, 8, 12, 51, 61, 65, 115, 388, 404, 420, 436, 452, 492, 494, 61, 65, 115, 126, 130, 180, 404, 420, 436, 452, 494, 496, 126, 130, 180, 191, 195, 245, 420, 436, 452, 496, 498, 191, 195, 245, 256, 260, 310, 436, 452, 498, 500, 256, 260, 310, 321, 325, 375, 452, 500, 502, 13, 17, 51, 66, 70, 115, 388, 404, 420, 436, 452, 492, 494, 66, 70, 115, 131, 135, 180, 404, 420, 436, 452, 494, 496, 131, 135, 180, 196, 200, 245, 420, 436, 452, 496, 498, 196, 200, 245, 261, 265, 310, 436, 452, 498, 500, 261, 265, 310, 326, 330, 375, 452, 500, 502, 0, 7, 51, 53, 60, 115, 388, 404, 420, 436, 452, 492, 494, 53, 60, 115, 118, 125, 180, 404, 420, 436, 452, 494, 496, 118, 125, 180, 183, 190, 245, 420, 436, 452, 496, 498, 183, 190, 245, 248, 255, 310, 436, 452, 498, 500, 248, 255, 310, 313, 320, 375, 452, 500, 502, 13, 17, 51, 66, 70, 115, 389, 405, 421, 437, 453, 481, 483, 66, 70, 115, 131, 135, 180, 405, 421, 437, 453, 483, 485, 131, 135, 180, 196, 200, 245, 421, 437, 453, 485, 487, 196, 200, 245, 261, 265, 310, 437, 453, 487, 489, 261, 265, 310, 326, 330, 375, 453, 489, 491, 0, 7, 51, 53, 60, 115, 389, 405, 421, 437, 453, 481, 483, 53, 60, 115, 118, 125, 180, 405, 421, 437, 453, 483, 485, 118, 125, 180, 183, 190, 245, 421, 437, 453, 485, 487, 183, 190, 245, 248, 255, 310, 437, 453, 487, 489, 248, 255, 310, 313, 320, 375, 453, 489, 491, 8, 12, 51, 61, 65, 115, 389, 405, 421, 437, 453, 481, 483, 61, 65, 115, 126, 130, 180, 405, 421, 437, 453, 483, 485, 126, 130, 180, 191, 195, 245, 421, 437, 453, 485, 487, 191, 195, 245, 256, 260, 310, 437, 453, 487, 489, 256, 260, 310, 321, 325, 375, 453, 489, 491, 8, 12, 51, 61, 65, 115, 390, 406, 422, 438, 454, 493, 495, 61, 65, 115, 126, 130, 180, 406, 422, 438, 454, 495, 497, 126, 130, 180, 191, 195, 245, 422, 438, 454, 497, 499, 191, 195, 245, 256, 260, 310, 438, 454, 499, 501, 256, 260, 310, 321, 325, 375, 454, 501, 503, 13, 17, 51, 66, 70, 115, 390, 406, 422, 438, 454, 493, 495, 66, 70, 115, 131, 135, 180, 406, 422, 438, 454, 495, 497, 131, 135, 180, 196, 200, 245, 422, 438, 454, 497, 499, 196, 200, 245, 261, 265, 310, 438, 454, 499, 501, 261, 265, 310, 326, 330, 375, 454, 501, 503, 0, 7, 51, 53, 60, 115, 390, 406, 422, 438, 454, 493, 495, 53, 60, 115, 118, 180, 406, 422, 438, 454, 495, 497, 118, 125, 180, 183, 190, 245, 422, 438, 454, 497, 499, 183, 190, 245, 248, 255, 310, 438, 454, 499, 501, 248, 255, 310, 313, 320, 454, 501, 503, 8, 12, 49, 50, 61, 65, 113, 114, 391, 407, 423, 439, 455, 504, 505, 61, 65, 113, 114, 126, 130, 178, 179, 407, 423, 439, 455, 505, 506, 126, 130, 178, 179, 191, 195, 243, 244, 423, 439, 455, 506, 507, 191, 195, 243, 244, 256, 260, 308, 309, 439, 455, 507, 508, 256, 260, 308, 309, 321, 325, 373, 374, 455, 508, 509, 13, 17, 49, 50, 66, 70, 113, 114, 391, 407, 423, 439, 455, 504, 505, 66, 70, 113, 114, 131, 135, 178, 179, 407, 423, 439, 455, 505, 506, 131, 135, 178, 179, 196, 200, 243, 244, 423, 439, 455, 506, 507, 196, 200, 243, 244, 261, 265, 308, 309, 439, 455, 507, 508, 261, 265, 308, 309, 326, 330, 373, 374, 455, 508, 509, 18, 20, 21, 22, 71, 72, 73, 77, 79, 80, 83, 136, 137, 138, 144, 145, 148, 458, 72, 77, 79, 83, 136, 137, 138, 142, 144, 145, 148, 201, 202, 203, 209, 210, 213, 459, 137, 142, 144, 148, 201, 202, 203, 207, 209, 210, 213, 266, 267, 268, 274, 275, 278, 460, 202, 207, 209, 213, 266, 267, 268, 272, 274, 275, 278, 331, 332, 333, 337, 339, 340, 343, 461, 18, 20, 21, 22, 71, 72, 73, 75, 77, 78, 79, 80, 83, 84, 136, 137, 138, 140, 143, 144, 145, 148, 149, 464, 72, 77, 79, 136, 137, 138, 140, 142, 143, 144, 145, 148, 149, 201, 202, 203, 205, 208, 209, 210, 213, 214, 465, 137, 142, 144, 201, 202, 203, 205, 207, 208, 209, 210, 213, 214, 266, 267, 268, 270, 273, 274, 275, 278, 279, 466, 202, 207, 209, 266, 267, 268, 270, 272, 273, 274, 275, 278, 279, 331, 332, 333, 335, 337, 338, 339, 340, 343, 344, 467, 18, 19, 20, 21, 71, 72, 73, 74, 76, 77, 78, 79, 80, 81, 82, 83, 84, 136, 137, 138, 139, 141, 143, 144, 145, 146, 147, 148, 149, 470, 72, 77, 79, 136, 137, 138, 139, 141, 142, 143, 144, 145, 146, 147, 148, 149, 201, 202, 203, 204, 206, 208, 209, 210, 211, 212, 213, 214, 471, 137, 142, 144, 201, 202, 203, 204, 206, 207, 208, 209, 210, 211, 212, 213, 214, 266, 267, 268, 269, 271, 273, 274, 275, 276, 277, 278, 279, 472, 202, 207, 209, 266, 267, 268, 269, 271, 272, 273, 274, 275, 276, 277, 278, 279, 331, 332, 333, 334, 336, 337, 338, 339, 340, 341, 342, 343, 344, 473, 23, 24, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 37, 38, 39, 41, 42, 85, 86, 89, 90, 92, 94, 95, 96, 97, 99, 101, 102, 103, 105, 106, 469, 23, 29, 34, 85, 86, 89, 90, 92, 93, 94, 95, 96, 97, 98, 99, 101, 102, 103, 105, 106, 150, 151, 154, 155, 157, 158, 159, 160, 161, 162, 163, 164, 166, 167, 168, 170, 171, 470, 150, 151, 154, 155, 157, 158, 159, 160, 161, 162, 163, 164, 166, 167, 168, 170, 171, 215, 216, 219, 220, 222, 223, 224, 225, 226, 227, 228, 229, 231, 232, 233, 235, 236, 471, 215, 216, 219, 220, 222, 223, 224, 225, 226, 227, 228, 229, 231, 232, 233, 235, 236, 280, 281, 284, 285, 287, 288, 289, 290, 291, 292, 293, 294, 296, 297, 298, 300, 301, 472, 280, 281, 284, 285, 287, 288, 289, 290, 291, 292, 293, 294, 296, 297, 298, 300, 301, 345, 346, 349, 350, 352, 353, 354, 355, 356, 357, 358, 359, 361, 362, 363, 365, 366, 18, 19, 20, 21, 71, 72, 73, 74, 76, 77, 78, 79, 80, 81, 82, 83, 84, 136, 137, 138, 139, 141, 143, 144, 145, 146, 147, 148, 149, 476, 72, 77, 79, 136, 137, 138, 139, 141, 142, 143, 144, 145, 146, 147, 148, 149, 201, 202, 203, 204, 206, 208, 209, 210, 211, 212, 213, 214, 477, 137, 142, 144, 201, 202, 203, 204, 206, 207, 208, 209, 210, 211, 212, 213, 214, 266, 267, 268, 269, 271, 273, 274, 275, 276, 277, 278, 279, 478, 202, 207, 209, 266, 267, 268, 269, 271, 272, 273, 274, 275, 276, 277, 278, 279, 331, 332, 333, 334, 336, 337, 338, 339, 340, 341, 342, 343, 344, 479, 23, 24, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 37, 38, 39, 41, 42, 85, 86, 89, 90, 92, 94, 95, 96, 97, 99, 101, 102, 103, 105, 106, 475, 23, 29, 34, 85, 86, 89, 90, 92, 93, 94, 95, 96, 97, 98, 99, 101, 102, 103, 105, 106, 150, 151, 154, 155, 157, 158, 159, 160, 161, 162, 163, 164, 166, 167, 168, 170, 171, 476, 150, 151, 154, 155, 157, 158, 159, 160, 161, 162, 163, 164, 166, 167, 168, 170, 171, 215, 216, 219, 220, 222, 223, 224, 225, 226, 227, 228, 229, 231, 232, 233, 235, 236, 477, 215, 216, 219, 220, 222, 223, 224, 225, 226, 227, 228, 229, 231, 232, 233, 235, 236, 280, 281, 284, 285, 287, 288, 289, 290, 291, 292, 293, 294, 296, 297, 298, 300, 301, 478, 280, 281, 284, 285, 287, 288, 289, 290, 291, 292, 293, 294, 296, 297, 298, 300, 301, 345, 346, 349, 350, 352, 353, 354, 355, 356, 357, 358, 359, 361, 362, 363, 365, 366, 18, 19, 20, 21, 71, 72, 73, 74, 76, 77, 78, 79, 80, 81, 82, 83, 84, 136, 137, 138, 139, 141, 143, 144, 145, 146, 147, 148, 149, 484, 72, 77, 79, 136, 137, 138, 139, 141, 142, 143, 144, 145, 146, 147, 148, 149, 201, 202, 203, 204, 206, 208, 209, 210, 211, 212, 213, 214, 486, 137, 142, 144, 201, 202, 203, 204, 206, 207, 208, 209, 210, 211, 212, 213, 214, 266, 267, 268, 269, 271, 273, 274, 275, 276, 277, 278, 279, 488, 202, 207, 209, 266, 267, 268, 269, 271, 272, 273, 274, 275, 276, 277, 278, 279, 331, 332, 333, 334, 336, 337, 338, 339, 340, 341, 342, 343, 344, 490, 18, 19, 20, 21, 71, 72, 73, 74, 76, 77, 78, 79, 80, 81, 82, 83, 84, 136, 137, 138, 139, 141, 143, 144, 145, 146, 147, 148, 149, 484, 485, 72, 77, 79, 136, 137, 138, 139, 141, 142, 143, 144, 145, 146, 147, 148, 149, 201, 202, 203, 204, 206, 208, 209, 210, 211, 212, 213, 214, 486, 487, 137, 142, 144, 201, 202, 203, 204, 206, 207, 208, 209, 210, 211, 212, 213, 214, 266, 267, 268, 269, 271, 273, 274, 275, 276, 277, 278, 279, 488, 489, 202, 207, 209, 266, 267, 268, 269, 271, 272, 273, 274, 275, 276, 277, 278, 279, 331, 332, 333, 334, 336, 337, 338, 339, 340, 341, 342, 343, 344, 490, 491, 23, 24, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 37, 38, 39, 41, 42, 85, 86, 89, 90, 92, 94, 95, 96, 97, 99, 101, 102, 103, 105, 106, 482, 23, 29, 34, 85, 86, 89, 90, 92, 93, 94, 95, 96, 97, 98, 99, 101, 102, 103, 105, 106, 150, 151, 154, 155, 157, 158, 159, 160, 161, 162, 163, 164, 166, 167, 168, 170, 171, 484, 150, 151, 154, 155, 157, 158, 159, 160, 161, 162, 163, 164, 166, 167, 168, 170, 171, 215, 216, 219, 220, 222, 223, 224, 225, 226, 227, 228, 229, 231, 232, 233, 235, 236, 486, 215, 216, 219, 220, 222, 223, 224, 225, 226, 227, 228, 229, 231, 232, 233, 235, 236, 280, 281, 284, 285, 287, 288, 289, 290, 291, 292, 293, 294, 296, 297, 298, 300, 301, 488, 280, 281, 284, 285, 287, 288, 289, 290, 291, 292, 293, 294, 296, 297, 298, 300, 301, 345, 346, 349, 350, 352, 353, 354, 355, 356, 357, 358, 359, 361, 362, 363, 365, 366, 23, 24, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 37, 38, 39, 41, 42, 85, 86, 89, 90, 92, 94, 95, 96, 97, 99, 101, 102, 103, 105, 106, 482, 483, 23, 29, 34, 85, 86, 89, 90, 92, 93, 94, 95, 96, 97, 98, 99, 101, 102, 103, 105, 106, 150, 151, 154, 155, 157, 158, 159, 160, 161, 162, 163, 164, 166, 167, 168, 170, 171, 484, 485, 150, 151, 154, 155, 157, 158, 159, 160, 161, 162, 163, 164, 166, 167, 168, 170, 171, 215, 216, 219, 220, 222, 223, 224, 225, 226, 227, 228, 229, 231, 232, 233, 235, 236, 486, 487, 215, 216, 219, 220, 222, 223, 224, 225, 226, 227, 228, 229, 231, 232, 233, 235, 236, 280, 281, 284, 285, 287, 288, 289, 290, 291, 292, 293, 294, 296, 297, 298, 300, 301, 488, 489, 280, 281, 284, 285, 287, 288, 289, 290, 291, 292, 293, 294, 296, 297, 298, 300, 301, 345, 346, 349, 350, 352, 353, 354, 355, 356, 357, 358, 359, 361, 362, 363, 365, 366, 18, 19, 20, 21, 71, 72, 73, 74, 76, 77, 78, 79, 80, 81, 82, 83, 84, 136, 137, 138, 139, 141, 143, 144, 145, 146, 147, 148, 149, 496, 72, 77, 79, 136, 137, 138, 139, 141, 142, 143, 144, 145, 146, 147, 148, 149, 201, 202, 203, 204, 206, 208, 209, 210, 211, 212, 213, 214, 498, 137, 142, 144, 201, 202, 203, 204, 206, 207, 208, 209, 210, 211, 212, 213, 214, 266, 267, 268, 269, 271, 273, 274, 275, 276, 277, 278, 279, 500, 202, 207, 209, 266, 267, 268, 269, 271, 272, 273, 274, 275, 276, 277, 278, 279, 331, 332, 333, 334, 336, 337, 338, 339, 340, 341, 342, 343, 344, 502, 18, 19, 20, 21, 71, 72, 73, 74, 76, 77, 78, 79, 80, 81, 82, 83, 84, 136, 137, 138, 139, 141, 143, 144, 145, 146, 147, 148, 149, 496, 497, 72, 77, 79, 136, 137, 138, 139, 141, 142, 143, 144, 145, 146, 147, 148, 149, 201, 202, 203, 204, 206, 208, 209, 210, 211, 212, 213, 214, 498, 499, 137, 142, 144, 201, 202, 203, 204, 206, 207, 208, 209, 210, 211, 212, 213, 214, 266, 267, 268, 269, 271, 273, 274, 275, 276, 277, 278, 279, 500, 501, 202, 207, 209, 266, 267, 268, 269, 271, 272, 273, 274, 275, 276, 277, 278, 279, 331, 332, 333, 334, 336, 337, 338, 339, 340, 341, 342, 343, 344, 502, 503, 23, 24, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 37, 38, 39, 41, 42, 85, 86, 89, 90, 92, 94, 95, 96, 97, 99, 101, 102, 103, 105, 106, 494, 23, 29, 34, 85, 86, 89, 90, 92, 93, 94, 95, 96, 97, 98, 99, 101, 102, 103, 105, 106, 150, 151, 154, 155, 157, 158, 159, 160, 161, 162, 163, 164, 166, 167, 168, 170, 171, 496, 150, 151, 154, 155, 157, 158, 159, 160, 161, 162, 163, 164, 166, 167, 168, 170, 171, 215, 216, 219, 220, 222, 223, 224, 225, 226, 227, 228, 229, 231, 232, 233, 235, 236, 498, 215, 216, 219, 220, 222, 223, 224, 225, 226, 227, 228, 229, 231, 232, 233, 235, 236, 280, 281, 284, 285, 287, 288, 289, 290, 291, 292, 293, 294, 296, 297, 298, 300, 301, 500, 280, 281, 284, 285, 287, 288, 289, 290, 291, 292, 293, 294, 296, 297, 298, 300, 301, 345, 346, 349, 350, 352, 353, 354, 355, 356, 357, 358, 359, 361, 362, 363, 365, 366, 23, 24, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 37, 38, 39, 41, 42, 85, 86, 89, 90, 92, 94, 95, 96, 97, 99, 101, 102, 103, 105, 106, 494, 495, 23, 29, 34, 85, 86, 89, 90, 92, 93, 94, 95, 96, 97, 98, 99, 101, 102, 103, 105, 106, 150, 151, 154, 155, 157, 158, 159, 160, 161, 162, 163, 164, 166, 167, 168, 170, 171, 496, 497, 150, 151, 154, 155, 157, 158, 159, 160, 161, 162, 163, 164, 166, 167, 168, 170, 171, 215, 216, 219, 220, 222, 223, 224, 225, 226, 227, 228, 229, 231, 232, 233, 235, 236, 498, 499, 215, 216, 219, 220, 222, 223, 224, 225, 226, 227, 228, 229, 231, 232, 233, 235, 236, 280, 281, 284, 285, 287, 288, 289, 290, 291, 292, 293, 294, 296, 297, 298, 300, 301, 500, 501, 280, 281, 284, 285, 287, 288, 289, 290, 291, 292, 293, 294, 296, 297, 298, 300, 301, 345, 346, 349, 350, 352, 353, 354, 355, 356, 357, 358, 359, 361, 362, 363, 365, 366, 23, 26, 29, 31, 34, 43, 85, 86, 87, 89, 90, 91, 93, 94, 95, 96, 98, 103, 105, 106, 107, 108, 109, 110, 111, 150, 151, 152, 155, 156, 159, 160, 161, 168, 170, 171, 173, 174, 175, 176, 506, 85, 89, 93, 98, 107, 150, 151, 152, 154, 155, 156, 158, 159, 160, 161, 163, 168, 170, 171, 172, 173, 174, 175, 176, 215, 216, 217, 220, 221, 224, 225, 226, 233, 235, 236, 238, 239, 240, 241, 507, 150, 154, 158, 163, 172, 215, 216, 217, 219, 220, 221, 223, 224, 225, 226, 228, 233, 235, 236, 237, 238, 239, 240, 241, 280, 281, 282, 284, 285, 286, 289, 290, 291, 298, 300, 301, 303, 304, 305, 306, 508, 215, 223, 228, 237, 280, 281, 282, 284, 285, 286, 288, 289, 290, 291, 293, 298, 300, 301, 302, 303, 304, 305, 306, 345, 346, 347, 349, 350, 351, 353, 354, 355, 356, 358, 363, 365, 366, 367, 368, 369, 370, 371, 509, 23, 25, 26, 29, 31, 32, 34, 36, 37, 38, 39, 40, 42, 44, 45, 46, 47, 85, 88, 95, 96, 100, 101, 102, 103, 104, 106, 108, 109, 110, 111, 511, 23, 26, 29, 34, 85, 88, 89, 93, 95, 96, 98, 100, 101, 102, 103, 104, 106, 108, 109, 110, 111, 150, 153, 154, 158, 160, 161, 163, 165, 166, 167, 168, 169, 171, 173, 174, 175, 176, 512, 150, 153, 154, 158, 160, 161, 163, 165, 166, 167, 168, 169, 171, 173, 174, 175, 176, 215, 218, 219, 223, 225, 226, 228, 230, 231, 232, 233, 234, 236, 238, 239, 240, 241, 513, 215, 218, 219, 223, 225, 226, 228, 230, 231, 232, 233, 234, 236, 238, 239, 240, 241, 280, 283, 284, 288, 290, 291, 293, 295, 296, 297, 298, 299, 301, 303, 304, 305, 306, 514, 280, 283, 284, 288, 290, 291, 293, 295, 296, 297, 298, 299, 301, 303, 304, 305, 306, 345, 348, 349, 353, 355, 356, 358, 360, 361, 362, 363, 364, 366, 368, 369, 370, 371, 456, 457, 457, 458, 458, 459, 459, 460, 460, 461, 461, 462, 463, 463, 464, 464, 465, 465, 466, 466, 467, 467, 468, 469, 469, 470, 470, 471, 471, 472, 472, 473, 473, 474, 475, 475, 476, 476, 477, 477, 478, 478, 479, 479, 480, 482, 482, 484, 484, 486, 486, 488, 488, 490, 490, 481, 483, 483, 485, 485, 487, 487, 489, 489, 491, 491, 492, 494, 494, 496, 496, 498, 498, 500, 500, 502, 502, 493, 495, 495, 497, 497, 499, 499, 501, 501, 503, 503, 504, 505, 505, 506, 506, 507, 507, 508, 508, 509, 509, 510, 511, 511, 512, 512, 513, 513, 514, 514, 515, 515};
pfloat lp_agg3_Apr[4756] = {1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.772999999999999576e-02, 1.774999999999999842e-02, 1.409999999999999795e-03, 1.300999999999999900e-02, 1.247999999999999804e-02, 1.319999999999999993e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.140500000000000069e+00, -7.682900000000000285e-01, 1.636000000000000301e-02, 1.638999999999999485e-02, 1.299999999999999940e-03, 1.438000000000000216e-02, 1.384999999999999946e-02, 1.430000000000000064e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.052769999999999984e+00, -8.560200000000001141e-01, 1.636000000000000301e-02, 1.638999999999999485e-02, 1.299999999999999940e-03, 1.438000000000000216e-02, 1.384999999999999946e-02, 1.430000000000000064e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.052769999999999984e+00, -8.560200000000001141e-01, 1.575999999999999970e-02, 1.577999999999999889e-02, 1.250000000000000026e-03, 1.498000000000000026e-02, 1.446000000000000063e-02, 1.469999999999999736e-03, 9.999999999999998890e-01, 9.999999999999998890e-01, -1.013779999999999681e+00, -8.950099999999999723e-01, 1.702000000000000041e-02, 1.703999999999999612e-02, 1.350000000000000071e-03, 3.073999999999999649e-02, 3.023999999999999605e-02, 2.720000000000000195e-03, 9.999999999999998890e-01, -1.094880000000000075e+00, -1.908789999999999987e+00, 2.083000000000000129e-02, 2.059000000000000066e-02, 1.410000000000000012e-03, 1.176000000000000136e-02, 9.650000000000002326e-03, 1.320000000000000210e-03, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, -1.379099999999999993e+00, -5.296899999999999942e-01, 1.923000000000000057e-02, 1.899999999999999953e-02, 1.299999999999999940e-03, 1.336000000000000208e-02, 1.123000000000000040e-02, 1.429999999999999848e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.273020000000000040e+00, -6.357800000000000118e-01, 1.923000000000000057e-02, 1.899999999999999953e-02, 1.299999999999999940e-03, 1.336000000000000208e-02, 1.123000000000000040e-02, 1.429999999999999848e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.273020000000000040e+00, -6.357800000000000118e-01, 1.851999999999999827e-02, 1.830000000000000029e-02, 1.250000000000000026e-03, 1.408000000000000050e-02, 1.193999999999999923e-02, 1.470000000000000169e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.225870000000000015e+00, -6.829199999999998605e-01, 2.000000000000000042e-02, 1.975999999999999979e-02, 1.350000000000000071e-03, 3.259000000000000091e-02, 3.023999999999999605e-02, 2.720000000000000195e-03, 9.999999999999998890e-01, -1.323939999999999895e+00, -1.908789999999999987e+00, 8.600000000000000006e-03, 9.279999999999998320e-03, 1.499999999999999869e-04, 5.176999999999998964e-02, 6.099999999999999867e-02, 1.649999999999999991e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -3.729799999999999782e-01, -2.066130000000000244e+00, 7.939999999999999142e-03, 8.569999999999999493e-03, 1.399999999999999877e-04, 5.242999999999999050e-02, 6.171000000000000096e-02, 1.660000000000000017e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -3.442900000000000404e-01, -2.094819999999999904e+00, 7.939999999999999142e-03, 8.569999999999999493e-03, 1.399999999999999877e-04, 5.242999999999999050e-02, 6.171000000000000096e-02, 1.660000000000000017e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -3.442900000000000404e-01, -2.094819999999999904e+00, 7.649999999999999682e-03, 8.250000000000000389e-03, 1.299999999999999886e-04, 5.272000000000000297e-02, 6.203000000000000180e-02, 1.670000000000000043e-03, 9.999999999999998890e-01, 9.999999999999998890e-01, -3.315400000000000014e-01, -2.107580000000000009e+00, 8.259999999999999981e-03, 8.909999999999997783e-03, 1.399999999999999877e-04, 6.037000000000000005e-02, 7.027999999999999525e-02, 1.799999999999999734e-03, 9.999999999999998890e-01, -3.580599999999999339e-01, -2.439109999999999445e+00, 1.426000000000000011e-02, 1.455000000000000043e-02, 1.499999999999999869e-04, 4.610999999999999821e-02, 6.022999999999999188e-02, 1.649999999999999991e-03, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, -6.778699999999999726e-01, -1.761239999999999917e+00, 1.315999999999999982e-02, 1.342999999999999923e-02, 1.399999999999999877e-04, 4.719999999999999890e-02, 6.135000000000000869e-02, 1.660000000000000017e-03, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, -6.257300000000001194e-01, -1.813390000000000057e+00, 1.315999999999999982e-02, 1.342999999999999923e-02, 1.399999999999999877e-04, 4.719999999999999890e-02, 6.135000000000000869e-02, 1.660000000000000017e-03, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, -6.257300000000001194e-01, -1.813390000000000057e+00, 1.268000000000000203e-02, 1.293000000000000052e-02, 1.299999999999999886e-04, 4.769000000000000322e-02, 6.184000000000000608e-02, 1.670000000000000260e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, -6.025500000000001410e-01, -1.836560000000000192e+00, 1.368999999999999904e-02, 1.396999999999999978e-02, 1.399999999999999877e-04, 6.037000000000000005e-02, 7.477999999999999925e-02, 1.799999999999999734e-03, 9.999999999999998890e-01, -6.507500000000001616e-01, -2.439109999999999445e+00, 4.009999999999999676e-03, 3.310000000000000442e-03, 3.074000000000000690e-02, 3.973000000000000143e-02, 2.249999999999999830e-03, 1.240000000000000000e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.160000000000000253e-01, -1.188010000000000010e+00, 1.339999999999999828e-03, 3.341000000000000220e-02, 4.304000000000000187e-02, 2.249999999999999396e-03, 1.240000000000000000e-03, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, -1.079999999999999849e-01, -1.296010000000000106e+00, 1.289999999999999914e-03, 3.345999999999999669e-02, 4.145000000000000073e-02, 2.160000000000000028e-03, 1.590000000000000050e-03, 1.330000000000000236e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.039999999999999952e-01, -1.300009999999999888e+00, 3.752999999999999392e-02, 4.476999999999999036e-02, 2.339999999999999632e-03, 3.475000000000000311e-02, 4.304000000000000187e-02, 3.489999999999999613e-03, 1.000000000000000000e+00, -5.615999999999999465e-02, -1.516330000000000178e+00, -1.404009999999999980e+00, 3.475000000000000311e-02, 4.045999999999999597e-02, 2.429999999999999868e-03, 1.059999999999999961e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.404009999999999980e+00, 1.000000000000000021e-03, 7.799999999999999859e-04, 3.207999999999999741e-02, 3.733999999999999125e-02, 2.249999999999999396e-03, 1.670000000000000043e-03, 2.330000000000000040e-03, 1.240000000000000000e-03, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, -5.399999999999999939e-02, -1.296010000000000106e+00, -5.399999999999999245e-02, 3.307999999999999829e-02, 3.812000000000000111e-02, 2.249999999999999830e-03, 1.670000000000000043e-03, 2.330000000000000474e-03, 1.239999999999999783e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.350009999999999932e+00, -5.400000000000000633e-02, 3.185000000000000331e-02, 3.670999999999999958e-02, 2.160000000000000028e-03, 2.899999999999999800e-03, 3.749999999999999428e-03, 1.330000000000000019e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.300010000000000110e+00, -1.404009999999999980e+00, 3.440000000000000002e-02, 3.964999999999999775e-02, 2.340000000000000066e-03, 3.475000000000000311e-02, 4.046000000000000291e-02, 3.490000000000000047e-03, 1.000000000000000000e+00, 2.170000000000000054e-03, 2.639999999999999552e-03, 1.191999999999999831e-02, 1.109999999999999876e-02, 1.000000000000000021e-03, 8.999999999999998669e-04, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, -3.724299999999999278e-01, -1.241419999999999746e+00, 1.079999999999999797e-03, 1.590000000000000267e-03, 1.301000000000000073e-02, 1.214999999999999934e-02, 1.000000000000000021e-03, 8.999999999999998669e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.482800000000000284e-01, -1.365559999999999885e+00, 1.039999999999999909e-03, 1.529999999999999893e-03, 1.305000000000000084e-02, 1.221000000000000037e-02, 9.700000000000001590e-04, 9.399999999999999719e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.390899999999999970e-01, -1.374759999999999982e+00, 5.599999999999999509e-04, 1.100000000000000066e-03, 1.522000000000000089e-02, 1.484000000000000076e-02, 1.039999999999999909e-03, 1.409000000000000009e-02, 1.374000000000000048e-02, 1.910000000000000022e-03, 1.000000000000000000e+00, -1.936600000000000266e-01, -1.742960000000000065e+00, -1.613850000000000451e+00, 2.409999999999999816e-03, 1.267000000000000071e-02, 3.299999999999999982e-04, 4.009999999999999676e-03, 1.773999999999999883e-02, 2.299999999999999961e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -5.415699999999999958e-01, -6.400400000000000533e-01, 2.220000000000000185e-03, 1.170000000000000033e-02, 2.999999999999999737e-04, 4.199999999999999740e-03, 1.872000000000000053e-02, 2.320000000000000014e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -4.999100000000000210e-01, -6.816900000000000182e-01, 2.220000000000000185e-03, 1.170000000000000033e-02, 2.999999999999999737e-04, 4.199999999999999740e-03, 1.872000000000000053e-02, 2.320000000000000014e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -4.999100000000000765e-01, -6.816900000000000182e-01, 1.125999999999999918e-02, 2.900000000000000017e-04, 4.279999999999999950e-03, 1.915000000000000036e-02, 2.330000000000000040e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, -4.813899999999999846e-01, -7.002099999999999991e-01, 2.309999999999999987e-03, 1.216999999999999853e-02, 3.099999999999999457e-04, 6.419999999999998624e-03, 3.040999999999999259e-02, 2.619999999999999499e-03, 9.999999999999998890e-01, -5.199099999999998722e-01, -1.181599999999999984e+00, 2.409999999999999816e-03, 1.267000000000000071e-02, 3.299999999999999982e-04, 4.009999999999999676e-03, 1.773999999999999883e-02, 2.299999999999999961e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -5.415699999999999958e-01, -6.400400000000000533e-01, 2.220000000000000185e-03, 1.170000000000000033e-02, 2.999999999999999737e-04, 4.199999999999999740e-03, 1.872000000000000053e-02, 2.320000000000000014e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -4.999100000000000210e-01, -6.816900000000000182e-01, 2.220000000000000185e-03, 1.170000000000000033e-02, 2.999999999999999737e-04, 4.199999999999999740e-03, 1.872000000000000053e-02, 2.320000000000000014e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -4.999100000000000765e-01, -6.816900000000000182e-01, 2.139999999999999975e-03, 1.125999999999999918e-02, 2.900000000000000017e-04, 4.279999999999999950e-03, 1.915000000000000036e-02, 2.330000000000000040e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, -4.813899999999999846e-01, -7.002099999999999991e-01, 2.309999999999999987e-03, 1.216999999999999853e-02, 3.099999999999999457e-04, 6.419999999999998624e-03, 3.040999999999999259e-02, 2.619999999999999499e-03, 9.999999999999998890e-01, -5.199099999999998722e-01, -1.181599999999999984e+00, 1.149999999999999981e-03, 1.299999999999999940e-03, 1.383000000000000028e-02, 9.950000000000000511e-03, 6.989999999999998818e-03, 3.839999999999999664e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.241100000000000037e-01, -1.232599999999999696e+00, 4.300000000000000436e-04, 1.498000000000000199e-02, 1.081999999999999976e-02, 6.990000000000000553e-03, 3.840000000000000531e-03, 1.000000000000000222e+00, 1.000000000000000222e+00, 1.000000000000000222e+00, -1.120500000000000107e-01, -1.344660000000000188e+00, 4.200000000000000716e-04, 1.442999999999999838e-02, 1.082999999999999935e-02, 6.739999999999999464e-03, 5.500000000000000331e-04, 4.099999999999999478e-03, 9.999999999999998890e-01, 9.999999999999998890e-01, -1.078999999999999820e-01, -1.348809999999999842e+00, 1.557999999999999663e-02, 1.214999999999999761e-02, 7.269999999999999553e-03, 1.497999999999999853e-02, 1.124999999999999958e-02, 1.084000000000000068e-02, 9.999999999999998890e-01, -5.826999999999999541e-02, -1.573250000000000037e+00, -1.456709999999999949e+00, 1.149999999999999981e-03, 1.299999999999999940e-03, 1.383000000000000028e-02, 9.950000000000000511e-03, 6.989999999999998818e-03, 3.839999999999999664e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.241100000000000037e-01, -1.232599999999999696e+00, 4.300000000000000436e-04, 1.498000000000000199e-02, 1.081999999999999976e-02, 6.990000000000000553e-03, 3.840000000000000531e-03, 1.000000000000000222e+00, 1.000000000000000222e+00, 1.000000000000000222e+00, -1.120500000000000107e-01, -1.344660000000000188e+00, 4.200000000000000716e-04, 1.442999999999999838e-02, 1.082999999999999935e-02, 6.739999999999999464e-03, 5.500000000000000331e-04, 4.099999999999999478e-03, 9.999999999999998890e-01, 9.999999999999998890e-01, -1.078999999999999820e-01, -1.348809999999999842e+00, 1.557999999999999663e-02, 1.214999999999999761e-02, 7.269999999999999553e-03, 1.497999999999999853e-02, 1.124999999999999958e-02, 1.084000000000000068e-02, 9.999999999999998890e-01, -5.826999999999999541e-02, -1.573250000000000037e+00, -1.456709999999999949e+00, 1.979999999999999989e-03, 1.860000000000000108e-03, 2.000000000000000164e-05, 9.900000000000000813e-03, 7.060000000000000303e-03, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.886900000000000022e-01, -8.660600000000000520e-01, 1.830000000000000029e-03, 1.709999999999999932e-03, 2.000000000000000164e-05, 1.004999999999999991e-02, 7.199999999999999803e-03, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.664799999999999947e-01, -8.882700000000001150e-01, 1.830000000000000029e-03, 1.709999999999999932e-03, 2.000000000000000164e-05, 1.004999999999999991e-02, 7.199999999999999803e-03, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.664799999999999947e-01, -8.882700000000001150e-01, 1.760000000000000063e-03, 1.649999999999999991e-03, 2.000000000000000164e-05, 1.012000000000000052e-02, 7.270000000000000420e-03, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.566100000000000048e-01, -8.981399999999999384e-01, 1.899999999999999996e-03, 1.779999999999999898e-03, 2.000000000000000502e-05, 1.188000000000000167e-02, 8.919999999999999110e-03, 4.200000000000000174e-04, 9.999999999999998890e-01, -2.771399999999999419e-01, -1.154749999999999721e+00, 1.979999999999999989e-03, 1.860000000000000108e-03, 2.000000000000000164e-05, 9.900000000000000813e-03, 7.060000000000000303e-03, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.886900000000000022e-01, -8.660600000000000520e-01, 1.830000000000000029e-03, 1.709999999999999932e-03, 2.000000000000000164e-05, 1.004999999999999991e-02, 7.199999999999999803e-03, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.664799999999999947e-01, -8.882700000000001150e-01, 1.830000000000000029e-03, 1.709999999999999932e-03, 2.000000000000000164e-05, 1.004999999999999991e-02, 7.199999999999999803e-03, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.664799999999999947e-01, -8.882700000000001150e-01, 1.760000000000000063e-03, 1.649999999999999991e-03, 2.000000000000000164e-05, 1.012000000000000052e-02, 7.270000000000000420e-03, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.566100000000000048e-01, -8.981399999999999384e-01, 1.899999999999999996e-03, 1.779999999999999898e-03, 2.000000000000000502e-05, 1.188000000000000167e-02, 8.919999999999999110e-03, 4.200000000000000174e-04, 9.999999999999998890e-01, -2.771399999999999419e-01, -1.154749999999999721e+00, 1.979999999999999989e-03, 1.860000000000000108e-03, 2.000000000000000164e-05, 9.900000000000000813e-03, 7.060000000000000303e-03, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.886900000000000022e-01, -8.660600000000000520e-01, 1.830000000000000029e-03, 1.709999999999999932e-03, 2.000000000000000164e-05, 1.004999999999999991e-02, 7.199999999999999803e-03, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.664799999999999947e-01, -8.882700000000001150e-01, 1.830000000000000029e-03, 1.709999999999999932e-03, 2.000000000000000164e-05, 1.004999999999999991e-02, 7.199999999999999803e-03, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.664799999999999947e-01, -8.882700000000001150e-01, 1.760000000000000063e-03, 1.649999999999999991e-03, 2.000000000000000164e-05, 1.012000000000000052e-02, 7.270000000000000420e-03, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.566100000000000048e-01, -8.981399999999999384e-01, 1.899999999999999996e-03, 1.779999999999999898e-03, 2.000000000000000502e-05, 1.188000000000000167e-02, 8.919999999999999110e-03, 4.200000000000000174e-04, 9.999999999999998890e-01, -2.771399999999999419e-01, -1.154749999999999721e+00, 1.979999999999999989e-03, 1.860000000000000108e-03, 2.000000000000000164e-05, 9.900000000000000813e-03, 7.060000000000000303e-03, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.886900000000000022e-01, -8.660600000000000520e-01, 1.830000000000000029e-03, 1.709999999999999932e-03, 2.000000000000000164e-05, 1.004999999999999991e-02, 7.199999999999999803e-03, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.664799999999999947e-01, -8.882700000000001150e-01, 1.830000000000000029e-03, 1.709999999999999932e-03, 2.000000000000000164e-05, 1.004999999999999991e-02, 7.199999999999999803e-03, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.664799999999999947e-01, -8.882700000000001150e-01, 1.760000000000000063e-03, 1.649999999999999991e-03, 2.000000000000000164e-05, 1.012000000000000052e-02, 7.270000000000000420e-03, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.566100000000000048e-01, -8.981399999999999384e-01, 1.899999999999999996e-03, 1.779999999999999898e-03, 2.000000000000000502e-05, 1.188000000000000167e-02, 8.919999999999999110e-03, 4.200000000000000174e-04, 9.999999999999998890e-01, -2.771399999999999419e-01, -1.154749999999999721e+00, 1.979999999999999989e-03, 1.860000000000000108e-03, 2.000000000000000164e-05, 9.900000000000000813e-03, 7.060000000000000303e-03, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.886900000000000022e-01, -8.660600000000000520e-01, 1.830000000000000029e-03, 1.709999999999999932e-03, 2.000000000000000164e-05, 1.004999999999999991e-02, 7.199999999999999803e-03, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.664799999999999947e-01, -8.882699999999998930e-01, 1.830000000000000029e-03, 1.709999999999999932e-03, 2.000000000000000164e-05, 1.004999999999999991e-02, 7.199999999999999803e-03, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.664799999999999947e-01, -8.882699999999998930e-01, 1.760000000000000063e-03, 1.649999999999999991e-03, 2.000000000000000164e-05, 1.012000000000000052e-02, 7.270000000000000420e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.566100000000000048e-01, -8.981400000000000494e-01, 1.899999999999999996e-03, 1.779999999999999898e-03, 2.000000000000000502e-05, 1.188000000000000167e-02, 8.919999999999999110e-03, 4.200000000000000174e-04, 9.999999999999998890e-01, -2.771399999999999975e-01, -1.154749999999999721e+00, 1.979999999999999989e-03, 1.860000000000000108e-03, 2.000000000000000164e-05, 9.900000000000000813e-03, 7.060000000000000303e-03, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.886900000000000022e-01, -8.660600000000000520e-01, 1.830000000000000029e-03, 2.000000000000000164e-05, 1.004999999999999991e-02, 7.199999999999999803e-03, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.664799999999999947e-01, -8.882699999999998930e-01, 1.830000000000000029e-03, 1.709999999999999932e-03, 2.000000000000000164e-05, 1.004999999999999991e-02, 7.199999999999999803e-03, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.664799999999999947e-01, -8.882699999999998930e-01, 1.760000000000000063e-03, 1.649999999999999991e-03, 2.000000000000000164e-05, 1.012000000000000052e-02, 7.270000000000000420e-03, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.566100000000000048e-01, -8.981400000000000494e-01, 1.899999999999999996e-03, 1.779999999999999898e-03, 2.000000000000000502e-05, 1.188000000000000167e-02, 8.919999999999999110e-03, 4.200000000000000174e-04, 9.999999999999998890e-01, -2.771399999999999975e-01, -1.154749999999999721e+00, 1.979999999999999989e-03, 1.860000000000000108e-03, 2.000000000000000164e-05, 9.900000000000000813e-03, 7.060000000000000303e-03, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.886900000000000022e-01, -8.660600000000000520e-01, 1.830000000000000029e-03, 1.709999999999999932e-03, 2.000000000000000164e-05, 1.004999999999999991e-02, 7.199999999999999803e-03, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.664799999999999947e-01, -8.882699999999998930e-01, 1.830000000000000029e-03, 1.709999999999999932e-03, 2.000000000000000164e-05, 1.004999999999999991e-02, 7.199999999999999803e-03, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.664799999999999947e-01, -8.882699999999998930e-01, 1.760000000000000063e-03, 1.649999999999999991e-03, 2.000000000000000164e-05, 1.012000000000000052e-02, 7.270000000000000420e-03, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.566100000000000048e-01, -8.981400000000000494e-01, 1.899999999999999996e-03, 1.779999999999999898e-03, 2.000000000000000502e-05, 1.188000000000000167e-02, 8.919999999999999110e-03, 4.200000000000000174e-04, 9.999999999999998890e-01, -2.771399999999999975e-01, -1.154749999999999721e+00, 1.979999999999999989e-03, 1.860000000000000108e-03, 2.000000000000000164e-05, 9.900000000000000813e-03, 7.060000000000000303e-03, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.886900000000000022e-01, -8.660600000000000520e-01, 1.830000000000000029e-03, 1.709999999999999932e-03, 2.000000000000000164e-05, 1.004999999999999991e-02, 7.199999999999999803e-03, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.664799999999999947e-01, -8.882699999999998930e-01, 1.830000000000000029e-03, 1.709999999999999932e-03, 2.000000000000000164e-05, 1.004999999999999991e-02, 7.199999999999999803e-03, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.664799999999999947e-01, -8.882699999999998930e-01, 1.760000000000000063e-03, 1.649999999999999991e-03, 2.000000000000000164e-05, 1.012000000000000052e-02, 7.270000000000000420e-03, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.566100000000000048e-01, -8.981400000000000494e-01, 1.899999999999999996e-03, 1.779999999999999898e-03, 2.000000000000000502e-05, 1.188000000000000167e-02, 8.919999999999999110e-03, 4.200000000000000174e-04, 9.999999999999998890e-01, -2.771399999999999975e-01, -1.154749999999999721e+00, 4.120000000000000398e-03, 3.480000000000000020e-03, 6.000000000000000152e-05, 8.300000000000000086e-04, 8.240000000000000796e-03, 5.799999999999999600e-03, 6.599999999999999964e-04, 4.420000000000000318e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -5.010000000000000009e-01, -7.014000000000000234e-01, 3.799999999999999992e-03, 3.210000000000000180e-03, 6.000000000000000152e-05, 7.699999999999999597e-04, 8.559999999999999901e-03, 6.069999999999999875e-03, 6.700000000000000226e-04, 4.490000000000000067e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -4.624599999999999822e-01, -7.399400000000000421e-01, 3.799999999999999992e-03, 3.210000000000000180e-03, 6.000000000000000152e-05, 7.699999999999999597e-04, 8.559999999999999901e-03, 6.069999999999999875e-03, 6.700000000000000226e-04, 4.490000000000000067e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -4.624599999999999822e-01, -7.399400000000000421e-01, 3.660000000000000059e-03, 3.099999999999999891e-03, 5.000000000000000240e-05, 7.399999999999999894e-04, 8.699999999999999400e-03, 6.190000000000000190e-03, 6.700000000000000226e-04, 4.519999999999999712e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, -4.453400000000000136e-01, -7.570700000000000207e-01, 3.959999999999999978e-03, 3.340000000000000521e-03, 6.000000000000000152e-05, 8.000000000000001468e-04, 1.237000000000000079e-02, 9.290000000000001382e-03, 7.200000000000001538e-04, 5.250000000000001193e-03, 1.000000000000000000e+00, -4.809599999999999986e-01, -1.202409999999999979e+00, 4.120000000000000398e-03, 3.480000000000000020e-03, 6.000000000000000152e-05, 8.300000000000000086e-04, 8.240000000000000796e-03, 5.799999999999999600e-03, 6.599999999999999964e-04, 4.420000000000000318e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -5.010000000000000009e-01, -7.014000000000000234e-01, 3.799999999999999992e-03, 3.210000000000000180e-03, 6.000000000000000152e-05, 7.699999999999999597e-04, 8.559999999999999901e-03, 6.069999999999999875e-03, 6.700000000000000226e-04, 4.490000000000000067e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -4.624599999999999822e-01, -7.399400000000000421e-01, 3.799999999999999992e-03, 3.210000000000000180e-03, 6.000000000000000152e-05, 7.699999999999999597e-04, 8.559999999999999901e-03, 6.069999999999999875e-03, 6.700000000000000226e-04, 4.490000000000000067e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -4.624599999999999822e-01, -7.399400000000000421e-01, 3.660000000000000059e-03, 3.099999999999999891e-03, 5.000000000000000240e-05, 7.399999999999999894e-04, 8.699999999999999400e-03, 6.190000000000000190e-03, 6.700000000000000226e-04, 4.519999999999999712e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, -4.453400000000000136e-01, -7.570700000000000207e-01, 3.959999999999999978e-03, 3.340000000000000521e-03, 6.000000000000000152e-05, 8.000000000000001468e-04, 1.237000000000000079e-02, 9.290000000000001382e-03, 7.200000000000001538e-04, 5.250000000000001193e-03, 1.000000000000000000e+00, -4.809599999999999986e-01, -1.202409999999999979e+00, 7.699999999999998512e-04, 8.999999999999999212e-05, 2.000000000000000164e-05, 6.619999999999999149e-03, 7.099999999999999107e-04, 3.999999999999999650e-04, 9.999999999999997780e-01, 9.999999999999997780e-01, 9.999999999999997780e-01, 9.999999999999997780e-01, 9.999999999999997780e-01, -1.443399999999999683e-01, -1.010399999999999743e+00, 7.100000000000000191e-04, 8.000000000000002010e-05, 2.000000000000000502e-05, 6.680000000000000174e-03, 7.200000000000000453e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.332400000000000251e-01, -1.021510000000000140e+00, 7.100000000000000191e-04, 8.000000000000002010e-05, 2.000000000000000502e-05, 6.680000000000000174e-03, 7.200000000000000453e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.332399999999999973e-01, -1.021510000000000140e+00, 6.799999999999999404e-04, 8.000000000000002010e-05, 2.000000000000000502e-05, 6.709999999999999819e-03, 7.200000000000000453e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.283100000000000074e-01, -1.026440000000000019e+00, 7.399999999999999894e-04, 9.000000000000001922e-05, 2.000000000000000502e-05, 7.389999999999999868e-03, 8.000000000000000383e-04, 4.200000000000000174e-04, 9.999999999999998890e-01, -1.385699999999999710e-01, -1.154749999999999721e+00, 1.309999999999999967e-03, 1.700000000000000122e-04, 2.000000000000000164e-05, 6.539999999999999807e-03, 6.300000000000000261e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.886900000000000022e-01, -8.660600000000000520e-01, 1.209999999999999921e-03, 1.499999999999999869e-04, 2.000000000000000164e-05, 6.640000000000000069e-03, 6.499999999999999702e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.664799999999999947e-01, -8.882700000000001150e-01, 1.209999999999999921e-03, 1.499999999999999869e-04, 2.000000000000000164e-05, 6.640000000000000069e-03, 6.499999999999999702e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.664799999999999947e-01, -8.882700000000001150e-01, 1.160000000000000007e-03, 1.499999999999999869e-04, 2.000000000000000164e-05, 6.680000000000000174e-03, 6.499999999999999702e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.566100000000000048e-01, -8.981399999999999384e-01, 1.250000000000000026e-03, 1.600000000000000402e-04, 2.000000000000000502e-05, 7.839999999999999747e-03, 8.000000000000000383e-04, 4.200000000000000174e-04, 9.999999999999998890e-01, -2.771399999999999419e-01, -1.154749999999999721e+00, 1.309999999999999967e-03, 1.700000000000000122e-04, 2.000000000000000164e-05, 6.539999999999999807e-03, 6.300000000000000261e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.886900000000000022e-01, -8.660600000000000520e-01, 1.209999999999999921e-03, 1.499999999999999869e-04, 2.000000000000000164e-05, 6.640000000000000069e-03, 6.499999999999999702e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.664799999999999947e-01, -8.882700000000001150e-01, 1.209999999999999921e-03, 1.499999999999999869e-04, 2.000000000000000164e-05, 6.640000000000000069e-03, 6.499999999999999702e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.664799999999999947e-01, -8.882700000000001150e-01, 1.160000000000000007e-03, 1.499999999999999869e-04, 2.000000000000000164e-05, 6.680000000000000174e-03, 6.499999999999999702e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.566100000000000048e-01, -8.981399999999999384e-01, 1.250000000000000026e-03, 1.600000000000000402e-04, 2.000000000000000502e-05, 7.839999999999999747e-03, 8.000000000000000383e-04, 4.200000000000000174e-04, 9.999999999999998890e-01, -2.771399999999999419e-01, -1.154749999999999721e+00, 1.309999999999999967e-03, 1.700000000000000122e-04, 2.000000000000000164e-05, 6.539999999999999807e-03, 6.300000000000000261e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.886900000000000022e-01, -8.660600000000000520e-01, 1.209999999999999921e-03, 1.499999999999999869e-04, 2.000000000000000164e-05, 6.640000000000000069e-03, 6.499999999999999702e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.664799999999999947e-01, -8.882700000000001150e-01, 1.209999999999999921e-03, 1.499999999999999869e-04, 2.000000000000000164e-05, 6.640000000000000069e-03, 6.499999999999999702e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.664799999999999947e-01, -8.882700000000001150e-01, 1.160000000000000007e-03, 1.499999999999999869e-04, 2.000000000000000164e-05, 6.680000000000000174e-03, 6.499999999999999702e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.566100000000000048e-01, -8.981399999999999384e-01, 1.250000000000000026e-03, 1.600000000000000402e-04, 2.000000000000000502e-05, 7.839999999999999747e-03, 8.000000000000000383e-04, 4.200000000000000174e-04, 9.999999999999998890e-01, -2.771399999999999419e-01, -1.154749999999999721e+00, 7.699999999999998512e-04, 8.999999999999999212e-05, 2.000000000000000164e-05, 6.619999999999999149e-03, 7.099999999999999107e-04, 3.999999999999999650e-04, 9.999999999999997780e-01, 9.999999999999997780e-01, 9.999999999999997780e-01, 9.999999999999997780e-01, 9.999999999999997780e-01, -1.443399999999999683e-01, -1.010399999999999743e+00, 7.100000000000000191e-04, 8.000000000000002010e-05, 2.000000000000000502e-05, 6.680000000000000174e-03, 7.200000000000000453e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.332400000000000251e-01, -1.021510000000000140e+00, 7.100000000000000191e-04, 8.000000000000002010e-05, 2.000000000000000502e-05, 6.680000000000000174e-03, 7.200000000000000453e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.332399999999999973e-01, -1.021510000000000140e+00, 6.799999999999999404e-04, 8.000000000000002010e-05, 2.000000000000000502e-05, 6.709999999999999819e-03, 7.200000000000000453e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.283100000000000074e-01, -1.026440000000000019e+00, 7.399999999999999894e-04, 9.000000000000001922e-05, 2.000000000000000502e-05, 7.389999999999999868e-03, 8.000000000000000383e-04, 4.200000000000000174e-04, 9.999999999999998890e-01, -1.385699999999999710e-01, -1.154749999999999721e+00, 1.309999999999999967e-03, 1.700000000000000122e-04, 2.000000000000000164e-05, 6.539999999999999807e-03, 6.300000000000000261e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.886900000000000022e-01, -8.660600000000000520e-01, 1.209999999999999921e-03, 1.499999999999999869e-04, 2.000000000000000164e-05, 6.640000000000000069e-03, 6.499999999999999702e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.664799999999999947e-01, -8.882700000000001150e-01, 1.209999999999999921e-03, 1.499999999999999869e-04, 2.000000000000000164e-05, 6.640000000000000069e-03, 6.499999999999999702e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.664799999999999947e-01, -8.882700000000001150e-01, 1.160000000000000007e-03, 1.499999999999999869e-04, 2.000000000000000164e-05, 6.680000000000000174e-03, 6.499999999999999702e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.566100000000000048e-01, -8.981399999999999384e-01, 1.250000000000000026e-03, 1.600000000000000402e-04, 2.000000000000000502e-05, 7.839999999999999747e-03, 8.000000000000000383e-04, 4.200000000000000174e-04, 9.999999999999998890e-01, -2.771399999999999419e-01, -1.154749999999999721e+00, 7.699999999999998512e-04, 8.999999999999999212e-05, 2.000000000000000164e-05, 6.619999999999999149e-03, 7.099999999999999107e-04, 3.999999999999999650e-04, 9.999999999999997780e-01, 9.999999999999997780e-01, 9.999999999999997780e-01, 9.999999999999997780e-01, 9.999999999999997780e-01, -1.443399999999999683e-01, -1.010399999999999743e+00, 7.100000000000000191e-04, 8.000000000000002010e-05, 2.000000000000000502e-05, 6.680000000000000174e-03, 7.200000000000000453e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.332399999999999973e-01, -1.021509999999999918e+00, 7.100000000000000191e-04, 8.000000000000002010e-05, 2.000000000000000502e-05, 6.680000000000000174e-03, 7.200000000000000453e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.332399999999999973e-01, -1.021509999999999918e+00, 6.799999999999999404e-04, 8.000000000000002010e-05, 2.000000000000000502e-05, 6.709999999999999819e-03, 7.200000000000000453e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.283100000000000351e-01, -1.026439999999999797e+00, 7.399999999999999894e-04, 9.000000000000001922e-05, 2.000000000000000502e-05, 7.389999999999999868e-03, 8.000000000000000383e-04, 4.200000000000000174e-04, 9.999999999999998890e-01, -1.385699999999999987e-01, -1.154749999999999721e+00, 1.309999999999999967e-03, 1.700000000000000122e-04, 2.000000000000000164e-05, 6.539999999999999807e-03, 6.300000000000000261e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.886900000000000022e-01, -8.660600000000000520e-01, 1.209999999999999921e-03, 1.499999999999999869e-04, 2.000000000000000164e-05, 6.640000000000000069e-03, 6.499999999999999702e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.664799999999999947e-01, -8.882699999999998930e-01, 1.209999999999999921e-03, 1.499999999999999869e-04, 2.000000000000000164e-05, 6.640000000000000069e-03, 6.499999999999999702e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.664799999999999947e-01, -8.882699999999998930e-01, 1.160000000000000007e-03, 1.499999999999999869e-04, 2.000000000000000164e-05, 6.680000000000000174e-03, 6.499999999999999702e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.566100000000000048e-01, -8.981400000000000494e-01, 1.250000000000000026e-03, 1.600000000000000402e-04, 2.000000000000000502e-05, 7.839999999999999747e-03, 8.000000000000000383e-04, 4.200000000000000174e-04, 9.999999999999998890e-01, -2.771399999999999975e-01, -1.154749999999999721e+00, 1.309999999999999967e-03, 1.700000000000000122e-04, 2.000000000000000164e-05, 6.539999999999999807e-03, 6.300000000000000261e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.886900000000000022e-01, -8.660600000000000520e-01, 1.209999999999999921e-03, 1.499999999999999869e-04, 2.000000000000000164e-05, 6.640000000000000069e-03, 6.499999999999999702e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.664799999999999947e-01, -8.882699999999998930e-01, 1.209999999999999921e-03, 1.499999999999999869e-04, 2.000000000000000164e-05, 6.640000000000000069e-03, 6.499999999999999702e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.664799999999999947e-01, -8.882699999999998930e-01, 1.160000000000000007e-03, 1.499999999999999869e-04, 2.000000000000000164e-05, 6.680000000000000174e-03, 6.499999999999999702e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.566100000000000048e-01, -8.981400000000000494e-01, 1.250000000000000026e-03, 1.600000000000000402e-04, 2.000000000000000502e-05, 7.839999999999999747e-03, 8.000000000000000383e-04, 4.200000000000000174e-04, 9.999999999999998890e-01, -2.771399999999999975e-01, -1.154749999999999721e+00, 1.309999999999999967e-03, 1.700000000000000122e-04, 2.000000000000000164e-05, 6.539999999999999807e-03, 6.300000000000000261e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.886900000000000022e-01, -8.660600000000000520e-01, 1.209999999999999921e-03, 1.499999999999999869e-04, 2.000000000000000164e-05, 6.640000000000000069e-03, 6.499999999999999702e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.664799999999999947e-01, -8.882699999999998930e-01, 1.209999999999999921e-03, 1.499999999999999869e-04, 2.000000000000000164e-05, 6.640000000000000069e-03, 6.499999999999999702e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.664799999999999947e-01, -8.882699999999998930e-01, 1.160000000000000007e-03, 1.499999999999999869e-04, 2.000000000000000164e-05, 6.680000000000000174e-03, 6.499999999999999702e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.566100000000000048e-01, -8.981400000000000494e-01, 1.250000000000000026e-03, 1.600000000000000402e-04, 2.000000000000000502e-05, 7.839999999999999747e-03, 8.000000000000000383e-04, 4.200000000000000174e-04, 9.999999999999998890e-01, -2.771399999999999975e-01, -1.154749999999999721e+00, 7.699999999999998512e-04, 8.999999999999999212e-05, 2.000000000000000164e-05, 6.619999999999999149e-03, 7.099999999999999107e-04, 3.999999999999999650e-04, 9.999999999999997780e-01, 9.999999999999997780e-01, 9.999999999999997780e-01, 9.999999999999997780e-01, 9.999999999999997780e-01, -1.443399999999999683e-01, -1.010399999999999743e+00, 7.100000000000000191e-04, 8.000000000000002010e-05, 2.000000000000000502e-05, 6.680000000000000174e-03, 7.200000000000000453e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.332399999999999973e-01, -1.021509999999999918e+00, 7.100000000000000191e-04, 8.000000000000002010e-05, 2.000000000000000502e-05, 6.680000000000000174e-03, 7.200000000000000453e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.332399999999999973e-01, -1.021509999999999918e+00, 6.799999999999999404e-04, 8.000000000000002010e-05, 2.000000000000000502e-05, 6.709999999999999819e-03, 7.200000000000000453e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.283100000000000351e-01, -1.026439999999999797e+00, 7.399999999999999894e-04, 9.000000000000001922e-05, 2.000000000000000502e-05, 7.389999999999999868e-03, 8.000000000000000383e-04, 4.200000000000000174e-04, 9.999999999999998890e-01, -1.385699999999999987e-01, -1.154749999999999721e+00, 1.309999999999999967e-03, 1.700000000000000122e-04, 2.000000000000000164e-05, 6.539999999999999807e-03, 6.300000000000000261e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.886900000000000022e-01, -8.660600000000000520e-01, 1.209999999999999921e-03, 1.499999999999999869e-04, 2.000000000000000164e-05, 6.640000000000000069e-03, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.664799999999999947e-01, -8.882699999999998930e-01, 1.209999999999999921e-03, 1.499999999999999869e-04, 2.000000000000000164e-05, 6.640000000000000069e-03, 6.499999999999999702e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.664799999999999947e-01, -8.882699999999998930e-01, 1.160000000000000007e-03, 1.499999999999999869e-04, 2.000000000000000164e-05, 6.680000000000000174e-03, 6.499999999999999702e-04, 4.000000000000000192e-04, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.566100000000000048e-01, -8.981400000000000494e-01, 1.250000000000000026e-03, 1.600000000000000402e-04, 2.000000000000000502e-05, 7.839999999999999747e-03, 8.000000000000000383e-04, 9.999999999999998890e-01, -2.771399999999999975e-01, -1.154749999999999721e+00, 2.720000000000000195e-03, 3.099999999999999999e-04, 6.000000000000000152e-05, 8.300000000000000086e-04, 5.440000000000000391e-03, 5.199999999999999544e-04, 6.599999999999999964e-04, 4.420000000000000318e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -5.010000000000000009e-01, -7.014000000000000234e-01, 2.510000000000000078e-03, 2.900000000000000017e-04, 6.000000000000000152e-05, 7.699999999999999597e-04, 5.649999999999999641e-03, 5.400000000000000069e-04, 6.700000000000000226e-04, 4.490000000000000067e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -4.624599999999999822e-01, -7.399400000000000421e-01, 2.510000000000000078e-03, 2.900000000000000017e-04, 6.000000000000000152e-05, 7.699999999999999597e-04, 5.649999999999999641e-03, 5.400000000000000069e-04, 6.700000000000000226e-04, 4.490000000000000067e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -4.624599999999999822e-01, -7.399400000000000421e-01, 2.419999999999999842e-03, 2.799999999999999755e-04, 5.000000000000000240e-05, 7.399999999999999894e-04, 5.749999999999999903e-03, 5.599999999999999509e-04, 6.700000000000000226e-04, 4.519999999999999712e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, -4.453400000000000136e-01, -7.570700000000000207e-01, 2.609999999999999907e-03, 3.000000000000000279e-04, 6.000000000000000152e-05, 8.000000000000001468e-04, 8.170000000000000179e-03, 8.300000000000000086e-04, 7.200000000000001538e-04, 5.250000000000001193e-03, 1.000000000000000000e+00, -4.809599999999999986e-01, -1.202409999999999979e+00, 2.089999999999999844e-03, 2.300000000000000070e-04, 6.000000000000000152e-05, 8.300000000000000086e-04, 5.610000000000000403e-03, 5.999999999999999474e-04, 6.599999999999999964e-04, 4.420000000000000318e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -3.507000000000000117e-01, -8.517099999999999671e-01, 1.920000000000000049e-03, 2.200000000000000078e-04, 6.000000000000000152e-05, 7.699999999999999597e-04, 5.769999999999999955e-03, 6.199999999999999999e-04, 6.700000000000000226e-04, 4.490000000000000067e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -3.237300000000000177e-01, -8.786800000000000166e-01, 1.920000000000000049e-03, 2.200000000000000078e-04, 6.000000000000000152e-05, 7.699999999999999597e-04, 5.769999999999999955e-03, 6.199999999999999999e-04, 6.700000000000000226e-04, 4.490000000000000067e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -3.237300000000000177e-01, -8.786800000000000166e-01, 1.850000000000000082e-03, 2.100000000000000087e-04, 5.000000000000000240e-05, 7.399999999999999894e-04, 5.850000000000000165e-03, 6.199999999999999999e-04, 6.700000000000000226e-04, 4.519999999999999712e-03, 1.000000000000000000e+00, 1.000000000000000000e+00, -3.117400000000000171e-01, -8.906699999999999617e-01, 2.000000000000000042e-03, 2.200000000000000078e-04, 6.000000000000000152e-05, 8.000000000000001468e-04, 7.700000000000001114e-03, 8.300000000000000086e-04, 7.200000000000001538e-04, 5.250000000000001193e-03, 1.000000000000000000e+00, -3.366699999999999693e-01, -1.202409999999999979e+00, 7.200000000000000453e-04, 2.939999999999999905e-03, 3.559999999999999797e-03, 3.299999999999999982e-03, 1.285000000000000031e-02, 9.360000000000000264e-03, 5.459999999999999576e-03, 1.240999999999999916e-02, 1.001299999999999968e-01, 6.479000000000000037e-02, 8.414000000000000645e-02, 2.109000000000000111e-02, 1.299999999999999940e-03, 6.769999999999999976e-03, 4.825000000000000122e-02, 1.141999999999999960e-02, 3.950000000000000039e-02, 2.800000000000000000e+02, 4.200000000000000174e-04, 2.109999999999999896e-03, 2.259999999999999856e-03, 2.099999999999999870e-03, 1.226000000000000006e-02, 9.469999999999999252e-03, 5.210000000000000221e-03, 1.324000000000000003e-02, 9.783999999999999642e-02, 6.185000000000000220e-02, 8.240999999999999714e-02, 2.166999999999999829e-02, 1.490000000000000005e-03, 7.020000000000000198e-03, 5.183000000000000801e-02, 1.437000000000000083e-02, 4.241999999999999937e-02, 2.800000000000000000e+02, 1.600000000000000131e-04, 1.410000000000000012e-03, 1.129999999999999928e-03, 1.049999999999999935e-03, 1.226000000000000006e-02, 9.730000000000000801e-03, 5.210000000000000221e-03, 1.393999999999999927e-02, 9.897000000000000242e-02, 6.185000000000000220e-02, 8.346000000000000640e-02, 2.166999999999999829e-02, 1.490000000000000005e-03, 7.020000000000000198e-03, 5.183000000000000801e-02, 1.437000000000000083e-02, 4.241999999999999937e-02, 2.800000000000000000e+02, 1.600000000000000131e-04, 1.479999999999999979e-03, 1.190000000000000085e-03, 1.100000000000000066e-03, 1.285000000000000031e-02, 1.035999999999999942e-02, 5.459999999999999576e-03, 1.608000000000000054e-02, 1.048700000000000049e-01, 6.479000000000000037e-02, 8.853999999999999371e-02, 3.394000000000000489e-02, 1.139000000000000082e-02, 1.222999999999999955e-02, 1.535000000000000080e-02, 1.519300000000000095e-01, 7.620999999999999996e-02, 1.269399999999999973e-01, 2.800000000000000000e+02, 7.899999999999999037e-04, 2.959999999999999958e-03, 3.329999999999999627e-03, 8.000000000000000654e-05, 1.768000000000000127e-02, 9.799999999999999684e-03, 7.659999999999999275e-03, 1.550999999999999775e-02, 1.161000000000000053e-02, 2.372999999999999762e-02, 8.607999999999998986e-02, 1.721999999999999920e-02, 6.879000000000000392e-02, 2.504999999999999588e-02, 1.491999999999999750e-02, 5.100000000000000366e-04, 4.590000000000001197e-03, 2.059999999999999679e-02, 2.156999999999999543e-02, 2.094000000000000028e-02, 3.419999999999999863e-03, 3.081999999999999670e-02, 1.486999999999999780e-02, 7.499999999999998579e+01, 5.000000000000000104e-04, 2.160000000000000028e-03, 2.170000000000000054e-03, 1.687999999999999917e-02, 9.870000000000000301e-03, 7.309999999999998790e-03, 1.481000000000000025e-02, 1.240999999999999916e-02, 2.264999999999999999e-02, 8.418000000000000482e-02, 1.643999999999999628e-02, 6.573999999999999289e-02, 2.391000000000000070e-02, 1.572000000000000133e-02, 7.299999999999999632e-04, 4.939999999999999947e-03, 2.130999999999999908e-02, 2.264999999999999999e-02, 2.400000000000000050e-02, 4.199999999999999740e-03, 3.395000000000000101e-02, 1.600999999999999993e-02, 7.499999999999998579e+01, 2.500000000000000052e-04, 1.500000000000000031e-03, 1.170000000000000033e-03, 1.687999999999999917e-02, 1.012000000000000052e-02, 7.309999999999998790e-03, 1.481000000000000025e-02, 1.307000000000000002e-02, 2.264999999999999999e-02, 8.519000000000000183e-02, 1.643999999999999628e-02, 6.573999999999999289e-02, 2.391000000000000070e-02, 1.572000000000000133e-02, 7.299999999999999632e-04, 4.939999999999999947e-03, 2.130999999999999908e-02, 2.264999999999999999e-02, 2.400000000000000050e-02, 4.199999999999999740e-03, 3.395000000000000101e-02, 1.600999999999999993e-02, 7.499999999999998579e+01, 2.599999999999999772e-04, 1.569999999999999998e-03, 1.219999999999999947e-03, 1.768000000000000127e-02, 1.085999999999999986e-02, 7.659999999999999275e-03, 1.550999999999999775e-02, 1.525999999999999752e-02, 2.372999999999999762e-02, 9.046999999999999487e-02, 1.721999999999999920e-02, 6.887000000000000066e-02, 2.504999999999999588e-02, 3.259999999999999010e-02, 1.109999999999999876e-02, 1.225000000000000047e-02, 3.611000000000000321e-02, 1.456999999999999788e-02, 4.528999999999999693e-02, 1.103599999999999859e-01, 2.063999999999999863e-02, 9.969000000000000083e-02, 3.991999999999999021e-02, 7.499999999999998579e+01, 7.900000000000000121e-04, 7.699999999999999597e-04, 2.850000000000000103e-03, 5.760000000000000363e-03, 1.255000000000000039e-02, 9.769999999999999171e-03, 2.041000000000000106e-02, 1.234899999999999887e-01, 1.362999999999999975e-02, 1.187000000000000034e-02, 1.608000000000000054e-02, 1.103399999999999798e-01, 1.663999999999999854e-02, 1.592999999999999972e-02, 9.979999999999999288e-03, 5.939999999999999968e-03, 1.830999999999999989e-02, 1.978999999999999856e-02, 5.400000000000000069e-04, 2.972999999999999601e-02, 2.512999999999999956e-02, 8.370000000000000703e-03, 2.799999999999999711e-02, 2.004999999999999838e-02, 3.919999999999999873e-03, 7.190000000000000210e-03, 1.077000000000000006e-02, 1.197999999999999933e-02, 2.077000000000000027e-02, 4.300000000000000000e+01, 5.000000000000000104e-04, 2.050000000000000173e-03, 3.759999999999999887e-03, 1.197999999999999933e-02, 9.830000000000000196e-03, 1.948000000000000079e-02, 1.186099999999999932e-01, 1.301000000000000247e-02, 1.265999999999999938e-02, 1.535000000000000080e-02, 1.082999999999999935e-01, 1.589000000000000135e-02, 1.520000000000000170e-02, 9.530000000000000276e-03, 5.669999999999999693e-03, 1.747999999999999901e-02, 2.035999999999999963e-02, 7.699999999999999597e-04, 3.065999999999999975e-02, 3.077999999999999833e-02, 8.989999999999999727e-03, 2.873000000000000206e-02, 2.409000000000000030e-02, 4.669999999999999672e-03, 7.910000000000000364e-03, 1.122000000000000081e-02, 1.225000000000000047e-02, 2.160000000000000114e-02, 4.300000000000000000e+01, 2.500000000000000052e-04, 1.379999999999999933e-03, 2.530000000000000131e-03, 1.197999999999999933e-02, 1.009000000000000001e-02, 1.948000000000000079e-02, 1.186099999999999932e-01, 1.301000000000000247e-02, 1.332999999999999810e-02, 1.535000000000000080e-02, 1.095400000000000124e-01, 1.589000000000000135e-02, 1.520000000000000170e-02, 9.530000000000000276e-03, 5.669999999999999693e-03, 1.747999999999999901e-02, 2.035999999999999963e-02, 7.699999999999999597e-04, 3.065999999999999975e-02, 3.077999999999999833e-02, 8.989999999999999727e-03, 2.873000000000000206e-02, 2.409000000000000030e-02, 4.669999999999999672e-03, 7.910000000000000364e-03, 1.122000000000000081e-02, 1.225000000000000047e-02, 2.160000000000000114e-02, 4.300000000000000000e+01, 2.599999999999999772e-04, 1.449999999999999900e-03, 2.650000000000000012e-03, 1.255000000000000039e-02, 1.082999999999999935e-02, 2.041000000000000106e-02, 1.242500000000000132e-01, 1.362999999999999975e-02, 1.542000000000000141e-02, 1.608000000000000054e-02, 1.174000000000000044e-01, 1.663999999999999854e-02, 1.592999999999999972e-02, 9.979999999999999288e-03, 5.939999999999999968e-03, 1.830999999999999989e-02, 3.234000000000000069e-02, 1.110000000000000049e-02, 5.013999999999999707e-02, 1.493899999999999950e-01, 2.200999999999999832e-02, 1.471999999999999871e-02, 4.408000000000000113e-02, 1.361600000000000033e-01, 2.055999999999999842e-02, 2.312000000000000166e-02, 2.075000000000000108e-02, 1.793000000000000149e-02, 3.907999999999999668e-02, 4.300000000000000000e+01, 1.676000000000000059e-02, 2.772000000000000158e-02, 3.579000000000000237e-02, 2.961000000000000437e-02, 1.755999999999999922e-02, 1.267000000000000071e-02, 1.220000000000000077e-02, 2.971999999999999989e-02, 5.649999999999999641e-03, 2.440000000000000155e-02, 1.695999999999999938e-02, 1.086999999999999945e-02, 1.508999999999999925e-02, 1.769000000000000086e-02, 1.430000000000000021e-02, 1.243999999999999967e-02, 8.510000000000000203e-03, 1.330000000000000019e-03, 2.979000000000000051e-02, 8.700000000000000051e-04, 1.477999999999999800e-02, 2.420999999999999888e-02, 2.299000000000000002e-02, 3.469999999999999994e-03, 1.243000000000000008e-02, 1.501000000000000077e-02, 1.498999999999999812e-02, 3.150000000000000022e-03, 5.490000000000000088e-03, 3.289999999999999956e-03, 4.959999999999999999e-03, 1.022999999999999951e-02, 4.300000000000000000e+01, 6.000000000000000152e-05, 4.699999999999999859e-04, 2.700000000000000035e-04, 1.548000000000000070e-02, 2.557999999999999857e-02, 3.303999999999999992e-02, 2.732999999999999666e-02, 1.620999999999999872e-02, 1.170000000000000033e-02, 1.125999999999999918e-02, 2.742999999999999952e-02, 5.210000000000000221e-03, 2.251999999999999835e-02, 1.566000000000000031e-02, 1.004000000000000031e-02, 1.392999999999999967e-02, 1.633000000000000076e-02, 1.319999999999999993e-02, 1.148000000000000062e-02, 7.860000000000000667e-03, 2.550000000000000183e-03, 3.191999999999999699e-02, 3.620000000000000388e-03, 1.705999999999999878e-02, 2.555999999999999939e-02, 5.000000000000000104e-04, 2.392999999999999988e-02, 5.760000000000000363e-03, 1.285999999999999817e-02, 1.687999999999999917e-02, 1.039999999999999909e-03, 1.583000000000000032e-02, 4.309999999999999595e-03, 6.850000000000000186e-03, 4.389999999999999805e-03, 5.910000000000000323e-03, 1.089000000000000037e-02, 4.300000000000000000e+01, 1.553999999999999999e-02, 2.557999999999999857e-02, 3.303999999999999992e-02, 2.732999999999999666e-02, 1.620999999999999872e-02, 1.217000000000000026e-02, 1.125999999999999918e-02, 2.742999999999999952e-02, 5.210000000000000221e-03, 2.251999999999999835e-02, 1.592999999999999972e-02, 1.004000000000000031e-02, 1.392999999999999967e-02, 1.633000000000000076e-02, 1.319999999999999993e-02, 1.148000000000000062e-02, 7.860000000000000667e-03, 2.550000000000000183e-03, 3.191999999999999699e-02, 3.620000000000000388e-03, 1.705999999999999878e-02, 2.555999999999999939e-02, 5.000000000000000104e-04, 2.392999999999999988e-02, 5.760000000000000363e-03, 1.285999999999999817e-02, 1.687999999999999917e-02, 1.039999999999999909e-03, 1.583000000000000032e-02, 4.309999999999999595e-03, 6.850000000000000186e-03, 4.389999999999999805e-03, 5.910000000000000323e-03, 1.089000000000000037e-02, 4.300000000000000000e+01, 1.496000000000000107e-02, 2.463999999999999871e-02, 3.180999999999999800e-02, 2.631999999999999965e-02, 1.561000000000000235e-02, 1.171999999999999952e-02, 1.084000000000000068e-02, 2.641999999999999904e-02, 5.020000000000000157e-03, 2.169000000000000095e-02, 1.533999999999999947e-02, 9.669999999999999776e-03, 1.341000000000000004e-02, 1.573000000000000093e-02, 1.271000000000000081e-02, 1.106000000000000039e-02, 7.570000000000001207e-03, 3.129999999999999970e-03, 3.287000000000000338e-02, 4.850000000000000144e-03, 1.806999999999999926e-02, 2.615999999999999576e-02, 9.500000000000001065e-04, 2.435000000000000012e-02, 6.780000000000000436e-03, 1.305999999999999869e-02, 1.771999999999999964e-02, 1.630000000000000155e-03, 1.619999999999999912e-02, 4.830000000000000092e-03, 7.450000000000000025e-03, 4.879999999999999789e-03, 6.340000000000000149e-03, 1.118000000000000070e-02, 4.300000000000000000e+01, 1.616000000000000075e-02, 2.661000000000000171e-02, 3.436000000000000165e-02, 2.843000000000000041e-02, 1.685999999999999999e-02, 1.265999999999999938e-02, 1.170999999999999992e-02, 2.852999999999999980e-02, 5.420000000000000338e-03, 2.341999999999999985e-02, 1.655999999999999833e-02, 1.043999999999999963e-02, 1.447999999999999982e-02, 1.699000000000000163e-02, 1.372999999999999915e-02, 1.193999999999999923e-02, 8.170000000000000179e-03, 1.808999999999999844e-02, 5.750999999999999862e-02, 3.665999999999999814e-02, 4.438999999999999890e-02, 4.177000000000000157e-02, 1.267000000000000071e-02, 3.518999999999999906e-02, 3.318999999999999728e-02, 1.807999999999999885e-02, 3.939999999999999752e-02, 1.695999999999999938e-02, 2.586000000000000104e-02, 1.823999999999999927e-02, 2.317999999999999922e-02, 1.759000000000000147e-02, 1.739999999999999880e-02, 1.874999999999999931e-02, 7.900000000000000121e-04, 7.699999999999999597e-04, 2.850000000000000103e-03, 5.760000000000000363e-03, 1.255000000000000039e-02, 9.769999999999999171e-03, 2.041000000000000106e-02, 1.234899999999999887e-01, 1.362999999999999975e-02, 1.187000000000000034e-02, 1.608000000000000054e-02, 1.103399999999999798e-01, 1.663999999999999854e-02, 1.592999999999999972e-02, 9.979999999999999288e-03, 5.939999999999999968e-03, 1.830999999999999989e-02, 1.978999999999999856e-02, 5.400000000000000069e-04, 2.972999999999999601e-02, 2.512999999999999956e-02, 8.370000000000000703e-03, 2.799999999999999711e-02, 2.004999999999999838e-02, 3.919999999999999873e-03, 7.190000000000000210e-03, 1.077000000000000006e-02, 1.197999999999999933e-02, 2.077000000000000027e-02, 4.300000000000000000e+01, 5.000000000000000104e-04, 2.050000000000000173e-03, 3.759999999999999887e-03, 1.197999999999999933e-02, 9.830000000000000196e-03, 1.948000000000000079e-02, 1.186099999999999932e-01, 1.301000000000000247e-02, 1.265999999999999938e-02, 1.535000000000000080e-02, 1.082999999999999935e-01, 1.589000000000000135e-02, 1.520000000000000170e-02, 9.530000000000000276e-03, 5.669999999999999693e-03, 1.747999999999999901e-02, 2.035999999999999963e-02, 7.699999999999999597e-04, 3.065999999999999975e-02, 3.077999999999999833e-02, 8.989999999999999727e-03, 2.873000000000000206e-02, 2.409000000000000030e-02, 4.669999999999999672e-03, 7.910000000000000364e-03, 1.122000000000000081e-02, 1.225000000000000047e-02, 2.160000000000000114e-02, 4.300000000000000000e+01, 2.500000000000000052e-04, 1.379999999999999933e-03, 2.530000000000000131e-03, 1.197999999999999933e-02, 1.009000000000000001e-02, 1.948000000000000079e-02, 1.186099999999999932e-01, 1.301000000000000247e-02, 1.332999999999999810e-02, 1.535000000000000080e-02, 1.095400000000000124e-01, 1.589000000000000135e-02, 1.520000000000000170e-02, 9.530000000000000276e-03, 5.669999999999999693e-03, 1.747999999999999901e-02, 2.035999999999999963e-02, 7.699999999999999597e-04, 3.065999999999999975e-02, 3.077999999999999833e-02, 8.989999999999999727e-03, 2.873000000000000206e-02, 2.409000000000000030e-02, 4.669999999999999672e-03, 7.910000000000000364e-03, 1.122000000000000081e-02, 1.225000000000000047e-02, 2.160000000000000114e-02, 4.300000000000000000e+01, 2.599999999999999772e-04, 1.449999999999999900e-03, 2.650000000000000012e-03, 1.255000000000000039e-02, 1.082999999999999935e-02, 2.041000000000000106e-02, 1.242500000000000132e-01, 1.362999999999999975e-02, 1.542000000000000141e-02, 1.608000000000000054e-02, 1.174000000000000044e-01, 1.663999999999999854e-02, 1.592999999999999972e-02, 9.979999999999999288e-03, 5.939999999999999968e-03, 1.830999999999999989e-02, 3.234000000000000069e-02, 1.110000000000000049e-02, 5.013999999999999707e-02, 1.493899999999999950e-01, 2.200999999999999832e-02, 1.471999999999999871e-02, 4.408000000000000113e-02, 1.361600000000000033e-01, 2.055999999999999842e-02, 2.312000000000000166e-02, 2.075000000000000108e-02, 1.793000000000000149e-02, 3.907999999999999668e-02, 4.300000000000000000e+01, 1.676000000000000059e-02, 2.772000000000000158e-02, 3.579000000000000237e-02, 2.961000000000000437e-02, 1.755999999999999922e-02, 1.267000000000000071e-02, 1.220000000000000077e-02, 2.971999999999999989e-02, 5.649999999999999641e-03, 2.440000000000000155e-02, 1.695999999999999938e-02, 1.086999999999999945e-02, 1.508999999999999925e-02, 1.769000000000000086e-02, 1.430000000000000021e-02, 1.243999999999999967e-02, 8.510000000000000203e-03, 1.330000000000000019e-03, 2.979000000000000051e-02, 8.700000000000000051e-04, 1.477999999999999800e-02, 2.420999999999999888e-02, 2.299000000000000002e-02, 3.469999999999999994e-03, 1.243000000000000008e-02, 1.501000000000000077e-02, 1.498999999999999812e-02, 3.150000000000000022e-03, 5.490000000000000088e-03, 3.289999999999999956e-03, 4.959999999999999999e-03, 1.022999999999999951e-02, 4.300000000000000000e+01, 6.000000000000000152e-05, 4.699999999999999859e-04, 2.700000000000000035e-04, 1.548000000000000070e-02, 2.557999999999999857e-02, 3.303999999999999992e-02, 2.732999999999999666e-02, 1.620999999999999872e-02, 1.170000000000000033e-02, 1.125999999999999918e-02, 2.742999999999999952e-02, 5.210000000000000221e-03, 2.251999999999999835e-02, 1.566000000000000031e-02, 1.004000000000000031e-02, 1.392999999999999967e-02, 1.633000000000000076e-02, 1.319999999999999993e-02, 1.148000000000000062e-02, 7.860000000000000667e-03, 2.550000000000000183e-03, 3.191999999999999699e-02, 3.620000000000000388e-03, 1.705999999999999878e-02, 2.555999999999999939e-02, 5.000000000000000104e-04, 2.392999999999999988e-02, 5.760000000000000363e-03, 1.285999999999999817e-02, 1.687999999999999917e-02, 1.039999999999999909e-03, 1.583000000000000032e-02, 4.309999999999999595e-03, 6.850000000000000186e-03, 4.389999999999999805e-03, 5.910000000000000323e-03, 1.089000000000000037e-02, 4.300000000000000000e+01, 1.553999999999999999e-02, 2.557999999999999857e-02, 3.303999999999999992e-02, 2.732999999999999666e-02, 1.620999999999999872e-02, 1.217000000000000026e-02, 1.125999999999999918e-02, 2.742999999999999952e-02, 5.210000000000000221e-03, 2.251999999999999835e-02, 1.592999999999999972e-02, 1.004000000000000031e-02, 1.392999999999999967e-02, 1.633000000000000076e-02, 1.319999999999999993e-02, 1.148000000000000062e-02, 7.860000000000000667e-03, 2.550000000000000183e-03, 3.191999999999999699e-02, 3.620000000000000388e-03, 1.705999999999999878e-02, 2.555999999999999939e-02, 5.000000000000000104e-04, 2.392999999999999988e-02, 5.760000000000000363e-03, 1.285999999999999817e-02, 1.687999999999999917e-02, 1.039999999999999909e-03, 1.583000000000000032e-02, 4.309999999999999595e-03, 6.850000000000000186e-03, 4.389999999999999805e-03, 5.910000000000000323e-03, 1.089000000000000037e-02, 4.300000000000000000e+01, 1.496000000000000107e-02, 2.463999999999999871e-02, 3.180999999999999800e-02, 2.631999999999999965e-02, 1.561000000000000235e-02, 1.171999999999999952e-02, 1.084000000000000068e-02, 2.641999999999999904e-02, 5.020000000000000157e-03, 2.169000000000000095e-02, 1.533999999999999947e-02, 9.669999999999999776e-03, 1.341000000000000004e-02, 1.573000000000000093e-02, 1.271000000000000081e-02, 1.106000000000000039e-02, 7.570000000000001207e-03, 3.129999999999999970e-03, 3.287000000000000338e-02, 4.850000000000000144e-03, 1.806999999999999926e-02, 2.615999999999999576e-02, 9.500000000000001065e-04, 2.435000000000000012e-02, 6.780000000000000436e-03, 1.305999999999999869e-02, 1.771999999999999964e-02, 1.630000000000000155e-03, 1.619999999999999912e-02, 4.830000000000000092e-03, 7.450000000000000025e-03, 4.879999999999999789e-03, 6.340000000000000149e-03, 1.118000000000000070e-02, 4.300000000000000000e+01, 1.616000000000000075e-02, 2.661000000000000171e-02, 3.436000000000000165e-02, 2.843000000000000041e-02, 1.685999999999999999e-02, 1.265999999999999938e-02, 1.170999999999999992e-02, 2.852999999999999980e-02, 5.420000000000000338e-03, 2.341999999999999985e-02, 1.655999999999999833e-02, 1.043999999999999963e-02, 1.447999999999999982e-02, 1.699000000000000163e-02, 1.372999999999999915e-02, 1.193999999999999923e-02, 8.170000000000000179e-03, 1.808999999999999844e-02, 5.750999999999999862e-02, 3.665999999999999814e-02, 4.438999999999999890e-02, 4.177000000000000157e-02, 1.267000000000000071e-02, 3.518999999999999906e-02, 3.318999999999999728e-02, 1.807999999999999885e-02, 3.939999999999999752e-02, 1.695999999999999938e-02, 2.586000000000000104e-02, 1.823999999999999927e-02, 2.317999999999999922e-02, 1.759000000000000147e-02, 1.739999999999999880e-02, 1.874999999999999931e-02, 7.900000000000000121e-04, 7.699999999999998512e-04, 2.850000000000000103e-03, 5.760000000000000363e-03, 1.255000000000000039e-02, 9.769999999999999171e-03, 2.041000000000000106e-02, 1.234900000000000025e-01, 1.362999999999999975e-02, 1.187000000000000034e-02, 1.608000000000000054e-02, 1.103399999999999798e-01, 1.663999999999999854e-02, 1.592999999999999972e-02, 9.979999999999999288e-03, 5.939999999999999968e-03, 1.830999999999999989e-02, 1.978999999999999856e-02, 5.400000000000000069e-04, 2.973000000000000295e-02, 2.513000000000000303e-02, 8.370000000000000703e-03, 2.800000000000000058e-02, 2.004999999999999838e-02, 3.919999999999999873e-03, 7.189999999999999343e-03, 1.077000000000000006e-02, 1.197999999999999933e-02, 2.077000000000000027e-02, 1.530000000000000000e+02, 5.000000000000000104e-04, 2.050000000000000173e-03, 3.759999999999999887e-03, 1.197999999999999933e-02, 9.830000000000000196e-03, 1.948000000000000079e-02, 1.186099999999999793e-01, 1.301000000000000073e-02, 1.265999999999999938e-02, 1.534999999999999906e-02, 1.082999999999999935e-01, 1.589000000000000135e-02, 1.519999999999999997e-02, 9.530000000000000276e-03, 5.669999999999999693e-03, 1.747999999999999901e-02, 2.035999999999999963e-02, 7.699999999999998512e-04, 3.065999999999999628e-02, 3.077999999999999833e-02, 8.989999999999999727e-03, 2.872999999999999859e-02, 2.409000000000000030e-02, 4.669999999999999672e-03, 7.910000000000000364e-03, 1.122000000000000081e-02, 1.224999999999999874e-02, 2.160000000000000114e-02, 1.530000000000000000e+02, 2.500000000000000052e-04, 1.379999999999999933e-03, 2.530000000000000131e-03, 1.197999999999999933e-02, 1.009000000000000001e-02, 1.948000000000000079e-02, 1.186099999999999793e-01, 1.301000000000000073e-02, 1.332999999999999984e-02, 1.534999999999999906e-02, 1.095399999999999985e-01, 1.589000000000000135e-02, 1.519999999999999997e-02, 9.530000000000000276e-03, 5.669999999999999693e-03, 1.747999999999999901e-02, 2.035999999999999963e-02, 7.699999999999998512e-04, 3.065999999999999628e-02, 3.077999999999999833e-02, 8.989999999999999727e-03, 2.872999999999999859e-02, 2.409000000000000030e-02, 4.669999999999999672e-03, 7.910000000000000364e-03, 1.122000000000000081e-02, 1.224999999999999874e-02, 2.160000000000000114e-02, 1.530000000000000000e+02, 2.599999999999999772e-04, 1.449999999999999900e-03, 2.650000000000000012e-03, 1.255000000000000039e-02, 1.082999999999999935e-02, 2.041000000000000106e-02, 1.242499999999999993e-01, 1.362999999999999975e-02, 1.541999999999999794e-02, 1.608000000000000054e-02, 1.174000000000000044e-01, 1.663999999999999854e-02, 1.592999999999999972e-02, 9.979999999999999288e-03, 5.939999999999999968e-03, 1.830999999999999989e-02, 3.234000000000000069e-02, 1.110000000000000049e-02, 5.013999999999999013e-02, 1.493899999999999950e-01, 2.200999999999999832e-02, 1.472000000000000045e-02, 4.408000000000000113e-02, 1.361600000000000033e-01, 2.055999999999999842e-02, 2.312000000000000166e-02, 2.075000000000000108e-02, 1.793000000000000149e-02, 3.907999999999999668e-02, 1.530000000000000000e+02, 7.900000000000000121e-04, 7.699999999999999597e-04, 2.850000000000000103e-03, 5.760000000000000363e-03, 1.255000000000000213e-02, 9.769999999999999171e-03, 2.041000000000000106e-02, 1.234900000000000025e-01, 1.362999999999999802e-02, 1.187000000000000034e-02, 1.608000000000000054e-02, 1.103399999999999936e-01, 1.663999999999999854e-02, 1.592999999999999972e-02, 9.979999999999999288e-03, 5.939999999999999968e-03, 1.830999999999999989e-02, 1.978999999999999856e-02, 5.400000000000000069e-04, 2.972999999999999601e-02, 2.512999999999999956e-02, 8.370000000000000703e-03, 2.800000000000000058e-02, 2.004999999999999838e-02, 3.919999999999999873e-03, 7.190000000000000210e-03, 1.077000000000000006e-02, 1.197999999999999760e-02, 2.077000000000000027e-02, 1.529998999999999931e+01, 1.376999800000000391e+02, 5.000000000000000104e-04, 2.050000000000000173e-03, 3.759999999999999887e-03, 1.197999999999999760e-02, 9.830000000000000196e-03, 1.948000000000000079e-02, 1.186099999999999932e-01, 1.301000000000000073e-02, 1.265999999999999938e-02, 1.534999999999999906e-02, 1.082999999999999935e-01, 1.589000000000000135e-02, 1.519999999999999997e-02, 9.530000000000000276e-03, 5.669999999999999693e-03, 1.747999999999999901e-02, 2.035999999999999963e-02, 7.699999999999999597e-04, 3.066000000000000322e-02, 3.077999999999999833e-02, 8.989999999999999727e-03, 2.872999999999999859e-02, 2.408999999999999683e-02, 4.669999999999999672e-03, 7.910000000000000364e-03, 1.122000000000000081e-02, 1.225000000000000047e-02, 2.160000000000000114e-02, 1.529998999999999931e+01, 1.376999800000000391e+02, 2.500000000000000052e-04, 1.379999999999999933e-03, 2.530000000000000131e-03, 1.197999999999999760e-02, 1.009000000000000001e-02, 1.948000000000000079e-02, 1.186099999999999932e-01, 1.301000000000000073e-02, 1.333000000000000157e-02, 1.534999999999999906e-02, 1.095400000000000124e-01, 1.589000000000000135e-02, 1.519999999999999997e-02, 9.530000000000000276e-03, 5.669999999999999693e-03, 1.747999999999999901e-02, 2.035999999999999963e-02, 7.699999999999999597e-04, 3.066000000000000322e-02, 3.077999999999999833e-02, 8.989999999999999727e-03, 2.872999999999999859e-02, 2.408999999999999683e-02, 4.669999999999999672e-03, 7.910000000000000364e-03, 1.122000000000000081e-02, 1.225000000000000047e-02, 2.160000000000000114e-02, 1.529998999999999931e+01, 1.376999800000000391e+02, 2.599999999999999772e-04, 1.450000000000000117e-03, 2.650000000000000012e-03, 1.255000000000000213e-02, 1.082999999999999935e-02, 2.041000000000000106e-02, 1.242500000000000132e-01, 1.362999999999999802e-02, 1.541999999999999968e-02, 1.608000000000000054e-02, 1.174000000000000044e-01, 1.663999999999999854e-02, 1.592999999999999972e-02, 9.979999999999999288e-03, 5.939999999999999968e-03, 1.830999999999999989e-02, 3.234000000000000069e-02, 1.110000000000000049e-02, 5.013999999999999707e-02, 1.493899999999999950e-01, 2.200999999999999832e-02, 1.472000000000000045e-02, 4.408000000000000113e-02, 1.361600000000000033e-01, 2.055999999999999842e-02, 2.312000000000000166e-02, 2.075000000000000108e-02, 1.793000000000000149e-02, 3.907999999999999668e-02, 1.529998999999999931e+01, 1.376999800000000391e+02, 1.676000000000000059e-02, 2.772000000000000505e-02, 3.579000000000000237e-02, 2.961000000000000090e-02, 1.755999999999999922e-02, 1.267000000000000071e-02, 1.220000000000000077e-02, 2.971999999999999989e-02, 5.649999999999999641e-03, 2.440000000000000155e-02, 1.695999999999999938e-02, 1.086999999999999945e-02, 1.508999999999999925e-02, 1.769000000000000086e-02, 1.430000000000000021e-02, 1.243999999999999967e-02, 8.510000000000000203e-03, 1.330000000000000019e-03, 2.979000000000000398e-02, 8.700000000000000051e-04, 1.477999999999999974e-02, 2.420999999999999888e-02, 2.299000000000000002e-02, 3.469999999999999994e-03, 1.243000000000000008e-02, 1.501000000000000077e-02, 1.498999999999999985e-02, 3.149999999999999589e-03, 5.490000000000000088e-03, 3.289999999999999956e-03, 4.959999999999999999e-03, 1.022999999999999951e-02, 1.430000000000000000e+02, 6.000000000000000152e-05, 4.699999999999999317e-04, 2.699999999999999492e-04, 1.548000000000000244e-02, 2.557999999999999510e-02, 3.303999999999999299e-02, 2.733000000000000013e-02, 1.620999999999999872e-02, 1.170000000000000033e-02, 1.125999999999999744e-02, 2.742999999999999605e-02, 5.210000000000000221e-03, 2.251999999999999488e-02, 1.566000000000000031e-02, 1.003999999999999858e-02, 1.392999999999999794e-02, 1.633000000000000076e-02, 1.319999999999999819e-02, 1.147999999999999889e-02, 7.860000000000000667e-03, 2.550000000000000183e-03, 3.191999999999999005e-02, 3.619999999999999520e-03, 1.705999999999999878e-02, 2.556000000000000286e-02, 4.999999999999999020e-04, 2.392999999999999641e-02, 5.759999999999999495e-03, 1.285999999999999990e-02, 1.687999999999999570e-02, 1.039999999999999909e-03, 1.582999999999999685e-02, 4.309999999999999595e-03, 6.849999999999999319e-03, 4.389999999999998938e-03, 5.910000000000000323e-03, 1.088999999999999864e-02, 1.429999999999999716e+02, 1.553999999999999652e-02, 2.557999999999999510e-02, 3.303999999999999299e-02, 2.733000000000000013e-02, 1.620999999999999872e-02, 1.217000000000000026e-02, 1.125999999999999744e-02, 2.742999999999999605e-02, 5.210000000000000221e-03, 2.251999999999999488e-02, 1.592999999999999972e-02, 1.003999999999999858e-02, 1.392999999999999794e-02, 1.633000000000000076e-02, 1.319999999999999819e-02, 1.147999999999999889e-02, 7.860000000000000667e-03, 2.550000000000000183e-03, 3.191999999999999005e-02, 3.619999999999999520e-03, 1.705999999999999878e-02, 2.556000000000000286e-02, 4.999999999999999020e-04, 2.392999999999999641e-02, 5.759999999999999495e-03, 1.285999999999999990e-02, 1.687999999999999570e-02, 1.039999999999999909e-03, 1.582999999999999685e-02, 4.309999999999999595e-03, 6.849999999999999319e-03, 4.389999999999998938e-03, 5.910000000000000323e-03, 1.088999999999999864e-02, 1.429999999999999716e+02, 1.495999999999999934e-02, 2.463999999999999524e-02, 3.180999999999999106e-02, 2.631999999999999618e-02, 1.560999999999999888e-02, 1.171999999999999952e-02, 1.084000000000000068e-02, 2.641999999999999557e-02, 5.019999999999999289e-03, 2.169000000000000095e-02, 1.533999999999999773e-02, 9.669999999999999776e-03, 1.341000000000000004e-02, 1.573000000000000093e-02, 1.270999999999999908e-02, 1.105999999999999865e-02, 7.569999999999999472e-03, 3.130000000000000403e-03, 3.286999999999999644e-02, 4.850000000000000144e-03, 1.806999999999999926e-02, 2.615999999999999229e-02, 9.499999999999998897e-04, 2.435000000000000359e-02, 6.779999999999997834e-03, 1.305999999999999869e-02, 1.771999999999999617e-02, 1.629999999999999722e-03, 1.619999999999999912e-02, 4.829999999999999225e-03, 7.449999999999998290e-03, 4.879999999999999789e-03, 6.339999999999998415e-03, 1.118000000000000070e-02, 1.429999999999999716e+02, 1.616000000000000075e-02, 2.661000000000000171e-02, 3.436000000000000165e-02, 2.843000000000000041e-02, 1.685999999999999999e-02, 1.265999999999999938e-02, 1.170999999999999992e-02, 2.852999999999999980e-02, 5.420000000000000338e-03, 2.341999999999999985e-02, 1.655999999999999833e-02, 1.043999999999999963e-02, 1.447999999999999982e-02, 1.699000000000000163e-02, 1.372999999999999915e-02, 1.193999999999999923e-02, 8.170000000000000179e-03, 1.808999999999999844e-02, 5.750999999999999862e-02, 3.665999999999999814e-02, 4.438999999999999890e-02, 4.177000000000000157e-02, 1.267000000000000071e-02, 3.518999999999999906e-02, 3.318999999999999728e-02, 1.807999999999999885e-02, 3.939999999999999752e-02, 1.695999999999999938e-02, 2.586000000000000104e-02, 1.823999999999999927e-02, 2.317999999999999922e-02, 1.759000000000000147e-02, 1.739999999999999880e-02, 1.874999999999999931e-02, 1.676000000000000059e-02, 2.771999999999999811e-02, 3.579000000000000237e-02, 2.960999999999999743e-02, 1.755999999999999922e-02, 1.267000000000000071e-02, 1.220000000000000077e-02, 2.971999999999999642e-02, 5.649999999999999641e-03, 2.440000000000000155e-02, 1.695999999999999938e-02, 1.086999999999999945e-02, 1.508999999999999925e-02, 1.769000000000000086e-02, 1.429999999999999848e-02, 1.244000000000000140e-02, 8.510000000000000203e-03, 1.330000000000000019e-03, 2.979000000000000398e-02, 8.700000000000001135e-04, 1.477999999999999974e-02, 2.420999999999999888e-02, 2.299000000000000349e-02, 3.469999999999999994e-03, 1.243000000000000008e-02, 1.501000000000000077e-02, 1.498999999999999985e-02, 3.150000000000000022e-03, 5.490000000000000088e-03, 3.289999999999999956e-03, 4.959999999999999999e-03, 1.022999999999999951e-02, 1.429999000000000109e+01, 1.286999800000000107e+02, 5.999999999999999474e-05, 4.699999999999999859e-04, 2.699999999999999492e-04, 1.547999999999999897e-02, 2.557999999999999857e-02, 3.303999999999999992e-02, 2.733000000000000013e-02, 1.620999999999999525e-02, 1.170000000000000033e-02, 1.125999999999999918e-02, 2.742999999999999952e-02, 5.209999999999999354e-03, 2.251999999999999835e-02, 1.566000000000000031e-02, 1.004000000000000031e-02, 1.392999999999999620e-02, 1.633000000000000076e-02, 1.319999999999999819e-02, 1.147999999999999889e-02, 7.860000000000000667e-03, 2.549999999999999750e-03, 3.191999999999999699e-02, 3.619999999999999520e-03, 1.705999999999999531e-02, 2.555999999999999592e-02, 4.999999999999999020e-04, 2.393000000000000335e-02, 5.759999999999998628e-03, 1.285999999999999817e-02, 1.687999999999999917e-02, 1.039999999999999909e-03, 1.582999999999999685e-02, 4.309999999999998728e-03, 6.849999999999999319e-03, 4.389999999999999805e-03, 5.910000000000001190e-03, 1.088999999999999864e-02, 1.429998999999999931e+01, 1.286999799999999823e+02, 1.553999999999999652e-02, 2.557999999999999857e-02, 3.303999999999999992e-02, 2.733000000000000013e-02, 1.620999999999999525e-02, 1.216999999999999853e-02, 1.125999999999999918e-02, 2.742999999999999952e-02, 5.209999999999999354e-03, 2.251999999999999835e-02, 1.592999999999999972e-02, 1.004000000000000031e-02, 1.392999999999999620e-02, 1.633000000000000076e-02, 1.319999999999999819e-02, 1.147999999999999889e-02, 7.860000000000000667e-03, 2.549999999999999750e-03, 3.191999999999999699e-02, 3.619999999999999520e-03, 1.705999999999999531e-02, 2.555999999999999592e-02, 4.999999999999999020e-04, 2.393000000000000335e-02, 5.759999999999998628e-03, 1.285999999999999817e-02, 1.687999999999999917e-02, 1.039999999999999909e-03, 1.582999999999999685e-02, 4.309999999999998728e-03, 6.849999999999999319e-03, 4.389999999999999805e-03, 5.910000000000001190e-03, 1.088999999999999864e-02, 1.429998999999999931e+01, 1.286999799999999823e+02, 1.495999999999999587e-02, 2.463999999999999871e-02, 3.180999999999999800e-02, 2.631999999999999618e-02, 1.561000000000000061e-02, 1.171999999999999778e-02, 1.084000000000000068e-02, 2.641999999999999904e-02, 5.020000000000000157e-03, 2.168999999999999748e-02, 1.533999999999999773e-02, 9.669999999999999776e-03, 1.340999999999999831e-02, 1.572999999999999746e-02, 1.270999999999999908e-02, 1.105999999999999692e-02, 7.569999999999999472e-03, 3.129999999999999536e-03, 3.287000000000000338e-02, 4.850000000000000144e-03, 1.806999999999999926e-02, 2.615999999999999229e-02, 9.499999999999999981e-04, 2.435000000000000012e-02, 6.779999999999999569e-03, 1.305999999999999696e-02, 1.771999999999999964e-02, 1.629999999999999722e-03, 1.619999999999999565e-02, 4.829999999999999225e-03, 7.450000000000000025e-03, 4.879999999999998922e-03, 6.340000000000001017e-03, 1.117999999999999897e-02, 1.429998999999999931e+01, 1.286999799999999823e+02, 1.616000000000000075e-02, 2.661000000000000171e-02, 3.436000000000000165e-02, 2.843000000000000041e-02, 1.685999999999999999e-02, 1.265999999999999938e-02, 1.170999999999999992e-02, 2.852999999999999980e-02, 5.420000000000000338e-03, 2.341999999999999985e-02, 1.655999999999999833e-02, 1.043999999999999963e-02, 1.447999999999999982e-02, 1.699000000000000163e-02, 1.372999999999999915e-02, 1.193999999999999923e-02, 8.170000000000000179e-03, 1.808999999999999844e-02, 5.750999999999999862e-02, 3.665999999999999814e-02, 4.438999999999999890e-02, 4.177000000000000157e-02, 1.267000000000000071e-02, 3.518999999999999906e-02, 3.318999999999999728e-02, 1.807999999999999885e-02, 3.939999999999999752e-02, 1.695999999999999938e-02, 2.586000000000000104e-02, 1.823999999999999927e-02, 2.317999999999999922e-02, 1.759000000000000147e-02, 1.739999999999999880e-02, 1.874999999999999931e-02, 7.900000000000000121e-04, 7.699999999999998512e-04, 2.850000000000000103e-03, 5.760000000000000363e-03, 1.255000000000000039e-02, 9.769999999999999171e-03, 2.041000000000000106e-02, 1.234900000000000025e-01, 1.362999999999999975e-02, 1.187000000000000034e-02, 1.608000000000000054e-02, 1.103399999999999798e-01, 1.663999999999999854e-02, 1.592999999999999972e-02, 9.979999999999999288e-03, 5.939999999999999968e-03, 1.830999999999999989e-02, 1.978999999999999856e-02, 5.400000000000000069e-04, 2.973000000000000295e-02, 2.513000000000000303e-02, 8.370000000000000703e-03, 2.800000000000000058e-02, 2.004999999999999838e-02, 3.919999999999999873e-03, 7.189999999999999343e-03, 1.077000000000000006e-02, 1.197999999999999933e-02, 2.077000000000000027e-02, 1.530000000000000000e+02, 5.000000000000000104e-04, 2.050000000000000173e-03, 3.759999999999999887e-03, 1.197999999999999933e-02, 9.830000000000000196e-03, 1.948000000000000079e-02, 1.186099999999999793e-01, 1.301000000000000073e-02, 1.265999999999999938e-02, 1.534999999999999906e-02, 1.082999999999999935e-01, 1.589000000000000135e-02, 1.519999999999999997e-02, 9.530000000000000276e-03, 5.669999999999999693e-03, 1.747999999999999901e-02, 2.035999999999999963e-02, 7.699999999999998512e-04, 3.065999999999999628e-02, 3.077999999999999833e-02, 8.989999999999999727e-03, 2.872999999999999859e-02, 2.409000000000000030e-02, 4.669999999999999672e-03, 7.910000000000000364e-03, 1.122000000000000081e-02, 1.224999999999999874e-02, 2.160000000000000114e-02, 1.530000000000000000e+02, 2.500000000000000052e-04, 1.379999999999999933e-03, 2.530000000000000131e-03, 1.197999999999999933e-02, 1.009000000000000001e-02, 1.948000000000000079e-02, 1.186099999999999793e-01, 1.301000000000000073e-02, 1.332999999999999984e-02, 1.534999999999999906e-02, 1.095399999999999985e-01, 1.589000000000000135e-02, 1.519999999999999997e-02, 9.530000000000000276e-03, 5.669999999999999693e-03, 1.747999999999999901e-02, 2.035999999999999963e-02, 7.699999999999998512e-04, 3.065999999999999628e-02, 3.077999999999999833e-02, 8.989999999999999727e-03, 2.872999999999999859e-02, 2.409000000000000030e-02, 4.669999999999999672e-03, 7.910000000000000364e-03, 1.122000000000000081e-02, 1.224999999999999874e-02, 2.160000000000000114e-02, 1.530000000000000000e+02, 2.599999999999999772e-04, 1.449999999999999900e-03, 2.650000000000000012e-03, 1.255000000000000039e-02, 1.082999999999999935e-02, 2.041000000000000106e-02, 1.242499999999999993e-01, 1.362999999999999975e-02, 1.541999999999999794e-02, 1.608000000000000054e-02, 1.174000000000000044e-01, 1.663999999999999854e-02, 1.592999999999999972e-02, 9.979999999999999288e-03, 5.939999999999999968e-03, 1.830999999999999989e-02, 3.234000000000000069e-02, 1.110000000000000049e-02, 5.013999999999999013e-02, 1.493899999999999950e-01, 2.200999999999999832e-02, 1.472000000000000045e-02, 4.408000000000000113e-02, 1.361600000000000033e-01, 2.055999999999999842e-02, 2.312000000000000166e-02, 2.075000000000000108e-02, 1.793000000000000149e-02, 3.907999999999999668e-02, 1.530000000000000000e+02, 7.900000000000000121e-04, 7.699999999999999597e-04, 2.850000000000000103e-03, 5.760000000000000363e-03, 1.255000000000000213e-02, 9.769999999999999171e-03, 2.041000000000000106e-02, 1.234900000000000025e-01, 1.362999999999999802e-02, 1.187000000000000034e-02, 1.608000000000000054e-02, 1.103399999999999936e-01, 1.663999999999999854e-02, 1.592999999999999972e-02, 9.979999999999999288e-03, 5.939999999999999968e-03, 1.830999999999999989e-02, 1.978999999999999856e-02, 5.400000000000000069e-04, 2.972999999999999601e-02, 2.512999999999999956e-02, 8.370000000000000703e-03, 2.800000000000000058e-02, 2.004999999999999838e-02, 3.919999999999999873e-03, 7.190000000000000210e-03, 1.077000000000000006e-02, 1.197999999999999760e-02, 2.077000000000000027e-02, 1.529998999999999931e+01, 1.376999800000000391e+02, 5.000000000000000104e-04, 2.050000000000000173e-03, 3.759999999999999887e-03, 1.197999999999999760e-02, 9.830000000000000196e-03, 1.948000000000000079e-02, 1.186099999999999932e-01, 1.301000000000000073e-02, 1.265999999999999938e-02, 1.534999999999999906e-02, 1.082999999999999935e-01, 1.589000000000000135e-02, 1.519999999999999997e-02, 9.530000000000000276e-03, 5.669999999999999693e-03, 1.747999999999999901e-02, 2.035999999999999963e-02, 7.699999999999999597e-04, 3.066000000000000322e-02, 3.077999999999999833e-02, 8.989999999999999727e-03, 2.872999999999999859e-02, 2.408999999999999683e-02, 4.669999999999999672e-03, 7.910000000000000364e-03, 1.122000000000000081e-02, 1.225000000000000047e-02, 2.160000000000000114e-02, 1.529998999999999931e+01, 1.376999800000000391e+02, 2.500000000000000052e-04, 1.379999999999999933e-03, 2.530000000000000131e-03, 1.197999999999999760e-02, 1.009000000000000001e-02, 1.948000000000000079e-02, 1.186099999999999932e-01, 1.301000000000000073e-02, 1.333000000000000157e-02, 1.534999999999999906e-02, 1.095400000000000124e-01, 1.589000000000000135e-02, 1.519999999999999997e-02, 9.530000000000000276e-03, 5.669999999999999693e-03, 1.747999999999999901e-02, 2.035999999999999963e-02, 7.699999999999999597e-04, 3.066000000000000322e-02, 3.077999999999999833e-02, 8.989999999999999727e-03, 2.872999999999999859e-02, 2.408999999999999683e-02, 4.669999999999999672e-03, 7.910000000000000364e-03, 1.122000000000000081e-02, 1.225000000000000047e-02, 2.160000000000000114e-02, 1.529998999999999931e+01, 1.376999800000000391e+02, 2.599999999999999772e-04, 1.450000000000000117e-03, 2.650000000000000012e-03, 1.255000000000000213e-02, 1.082999999999999935e-02, 2.041000000000000106e-02, 1.242500000000000132e-01, 1.362999999999999802e-02, 1.541999999999999968e-02, 1.608000000000000054e-02, 1.174000000000000044e-01, 1.663999999999999854e-02, 1.592999999999999972e-02, 9.979999999999999288e-03, 5.939999999999999968e-03, 1.830999999999999989e-02, 3.234000000000000069e-02, 1.110000000000000049e-02, 5.013999999999999707e-02, 1.493899999999999950e-01, 2.200999999999999832e-02, 1.472000000000000045e-02, 4.408000000000000113e-02, 1.361600000000000033e-01, 2.055999999999999842e-02, 2.312000000000000166e-02, 2.075000000000000108e-02, 1.793000000000000149e-02, 3.907999999999999668e-02, 1.529998999999999931e+01, 1.376999800000000391e+02, 1.676000000000000059e-02, 2.772000000000000505e-02, 3.579000000000000237e-02, 2.961000000000000090e-02, 1.755999999999999922e-02, 1.267000000000000071e-02, 1.220000000000000077e-02, 2.971999999999999989e-02, 5.649999999999999641e-03, 2.440000000000000155e-02, 1.695999999999999938e-02, 1.086999999999999945e-02, 1.508999999999999925e-02, 1.769000000000000086e-02, 1.430000000000000021e-02, 1.243999999999999967e-02, 8.510000000000000203e-03, 1.330000000000000019e-03, 2.979000000000000398e-02, 8.700000000000000051e-04, 1.477999999999999974e-02, 2.420999999999999888e-02, 2.299000000000000002e-02, 3.469999999999999994e-03, 1.243000000000000008e-02, 1.501000000000000077e-02, 1.498999999999999985e-02, 3.149999999999999589e-03, 5.490000000000000088e-03, 3.289999999999999956e-03, 4.959999999999999999e-03, 1.022999999999999951e-02, 1.430000000000000000e+02, 6.000000000000000152e-05, 4.699999999999999317e-04, 2.699999999999999492e-04, 1.548000000000000244e-02, 2.557999999999999510e-02, 3.303999999999999299e-02, 2.733000000000000013e-02, 1.620999999999999872e-02, 1.170000000000000033e-02, 1.125999999999999744e-02, 2.742999999999999605e-02, 5.210000000000000221e-03, 2.251999999999999488e-02, 1.566000000000000031e-02, 1.003999999999999858e-02, 1.392999999999999794e-02, 1.633000000000000076e-02, 1.319999999999999819e-02, 1.147999999999999889e-02, 7.860000000000000667e-03, 2.550000000000000183e-03, 3.191999999999999005e-02, 3.619999999999999520e-03, 1.705999999999999878e-02, 2.556000000000000286e-02, 4.999999999999999020e-04, 2.392999999999999641e-02, 5.759999999999999495e-03, 1.285999999999999990e-02, 1.687999999999999570e-02, 1.039999999999999909e-03, 1.582999999999999685e-02, 4.309999999999999595e-03, 6.849999999999999319e-03, 4.389999999999998938e-03, 5.910000000000000323e-03, 1.088999999999999864e-02, 1.429999999999999716e+02, 1.553999999999999652e-02, 2.557999999999999510e-02, 3.303999999999999299e-02, 2.733000000000000013e-02, 1.620999999999999872e-02, 1.217000000000000026e-02, 1.125999999999999744e-02, 2.742999999999999605e-02, 5.210000000000000221e-03, 2.251999999999999488e-02, 1.592999999999999972e-02, 1.003999999999999858e-02, 1.392999999999999794e-02, 1.633000000000000076e-02, 1.319999999999999819e-02, 1.147999999999999889e-02, 7.860000000000000667e-03, 2.550000000000000183e-03, 3.191999999999999005e-02, 3.619999999999999520e-03, 1.705999999999999878e-02, 2.556000000000000286e-02, 4.999999999999999020e-04, 2.392999999999999641e-02, 5.759999999999999495e-03, 1.285999999999999990e-02, 1.687999999999999570e-02, 1.039999999999999909e-03, 1.582999999999999685e-02, 4.309999999999999595e-03, 6.849999999999999319e-03, 4.389999999999998938e-03, 5.910000000000000323e-03, 1.088999999999999864e-02, 1.429999999999999716e+02, 1.495999999999999934e-02, 2.463999999999999524e-02, 3.180999999999999106e-02, 2.631999999999999618e-02, 1.560999999999999888e-02, 1.171999999999999952e-02, 1.084000000000000068e-02, 2.641999999999999557e-02, 5.019999999999999289e-03, 2.169000000000000095e-02, 1.533999999999999773e-02, 9.669999999999999776e-03, 1.341000000000000004e-02, 1.573000000000000093e-02, 1.270999999999999908e-02, 1.105999999999999865e-02, 7.569999999999999472e-03, 3.130000000000000403e-03, 3.286999999999999644e-02, 4.850000000000000144e-03, 1.806999999999999926e-02, 2.615999999999999229e-02, 9.499999999999998897e-04, 2.435000000000000359e-02, 6.779999999999997834e-03, 1.305999999999999869e-02, 1.771999999999999617e-02, 1.629999999999999722e-03, 1.619999999999999912e-02, 4.829999999999999225e-03, 7.449999999999998290e-03, 4.879999999999999789e-03, 6.339999999999998415e-03, 1.118000000000000070e-02, 1.429999999999999716e+02, 1.616000000000000075e-02, 2.661000000000000171e-02, 3.436000000000000165e-02, 2.843000000000000041e-02, 1.685999999999999999e-02, 1.265999999999999938e-02, 1.170999999999999992e-02, 2.852999999999999980e-02, 5.420000000000000338e-03, 2.341999999999999985e-02, 1.655999999999999833e-02, 1.043999999999999963e-02, 1.447999999999999982e-02, 1.699000000000000163e-02, 1.372999999999999915e-02, 1.193999999999999923e-02, 8.170000000000000179e-03, 1.808999999999999844e-02, 5.750999999999999862e-02, 3.665999999999999814e-02, 4.438999999999999890e-02, 4.177000000000000157e-02, 1.267000000000000071e-02, 3.518999999999999906e-02, 3.318999999999999728e-02, 1.807999999999999885e-02, 3.939999999999999752e-02, 1.695999999999999938e-02, 2.586000000000000104e-02, 1.823999999999999927e-02, 2.317999999999999922e-02, 1.759000000000000147e-02, 1.739999999999999880e-02, 1.874999999999999931e-02, 1.676000000000000059e-02, 2.771999999999999811e-02, 3.579000000000000237e-02, 2.960999999999999743e-02, 1.755999999999999922e-02, 1.267000000000000071e-02, 1.220000000000000077e-02, 2.971999999999999642e-02, 5.649999999999999641e-03, 2.440000000000000155e-02, 1.695999999999999938e-02, 1.086999999999999945e-02, 1.508999999999999925e-02, 1.769000000000000086e-02, 1.429999999999999848e-02, 1.244000000000000140e-02, 8.510000000000000203e-03, 1.330000000000000019e-03, 2.979000000000000398e-02, 8.700000000000001135e-04, 1.477999999999999974e-02, 2.420999999999999888e-02, 2.299000000000000349e-02, 3.469999999999999994e-03, 1.243000000000000008e-02, 1.501000000000000077e-02, 1.498999999999999985e-02, 3.150000000000000022e-03, 5.490000000000000088e-03, 3.289999999999999956e-03, 4.959999999999999999e-03, 1.022999999999999951e-02, 1.429999000000000109e+01, 1.286999800000000107e+02, 5.999999999999999474e-05, 4.699999999999999859e-04, 2.699999999999999492e-04, 1.547999999999999897e-02, 2.557999999999999857e-02, 3.303999999999999992e-02, 2.733000000000000013e-02, 1.620999999999999525e-02, 1.170000000000000033e-02, 1.125999999999999918e-02, 2.742999999999999952e-02, 5.209999999999999354e-03, 2.251999999999999835e-02, 1.566000000000000031e-02, 1.004000000000000031e-02, 1.392999999999999620e-02, 1.633000000000000076e-02, 1.319999999999999819e-02, 1.147999999999999889e-02, 7.860000000000000667e-03, 2.549999999999999750e-03, 3.191999999999999699e-02, 3.619999999999999520e-03, 1.705999999999999531e-02, 2.555999999999999592e-02, 4.999999999999999020e-04, 2.393000000000000335e-02, 5.759999999999998628e-03, 1.285999999999999817e-02, 1.687999999999999917e-02, 1.039999999999999909e-03, 1.582999999999999685e-02, 4.309999999999998728e-03, 6.849999999999999319e-03, 4.389999999999999805e-03, 5.910000000000001190e-03, 1.088999999999999864e-02, 1.429998999999999931e+01, 1.286999799999999823e+02, 1.553999999999999652e-02, 2.557999999999999857e-02, 3.303999999999999992e-02, 2.733000000000000013e-02, 1.620999999999999525e-02, 1.216999999999999853e-02, 1.125999999999999918e-02, 2.742999999999999952e-02, 5.209999999999999354e-03, 2.251999999999999835e-02, 1.592999999999999972e-02, 1.004000000000000031e-02, 1.392999999999999620e-02, 1.633000000000000076e-02, 1.319999999999999819e-02, 1.147999999999999889e-02, 7.860000000000000667e-03, 2.549999999999999750e-03, 3.191999999999999699e-02, 3.619999999999999520e-03, 1.705999999999999531e-02, 2.555999999999999592e-02, 4.999999999999999020e-04, 2.393000000000000335e-02, 5.759999999999998628e-03, 1.285999999999999817e-02, 1.687999999999999917e-02, 1.039999999999999909e-03, 1.582999999999999685e-02, 4.309999999999998728e-03, 6.849999999999999319e-03, 4.389999999999999805e-03, 5.910000000000001190e-03, 1.088999999999999864e-02, 1.429998999999999931e+01, 1.286999799999999823e+02, 1.495999999999999587e-02, 2.463999999999999871e-02, 3.180999999999999800e-02, 2.631999999999999618e-02, 1.561000000000000061e-02, 1.171999999999999778e-02, 1.084000000000000068e-02, 2.641999999999999904e-02, 5.020000000000000157e-03, 2.168999999999999748e-02, 1.533999999999999773e-02, 9.669999999999999776e-03, 1.340999999999999831e-02, 1.572999999999999746e-02, 1.270999999999999908e-02, 1.105999999999999692e-02, 7.569999999999999472e-03, 3.129999999999999536e-03, 3.287000000000000338e-02, 4.850000000000000144e-03, 1.806999999999999926e-02, 2.615999999999999229e-02, 9.499999999999999981e-04, 2.435000000000000012e-02, 6.779999999999999569e-03, 1.305999999999999696e-02, 1.771999999999999964e-02, 1.629999999999999722e-03, 1.619999999999999565e-02, 4.829999999999999225e-03, 7.450000000000000025e-03, 4.879999999999998922e-03, 6.340000000000001017e-03, 1.117999999999999897e-02, 1.429998999999999931e+01, 1.286999799999999823e+02, 1.616000000000000075e-02, 2.661000000000000171e-02, 3.436000000000000165e-02, 2.843000000000000041e-02, 1.685999999999999999e-02, 1.265999999999999938e-02, 1.170999999999999992e-02, 2.852999999999999980e-02, 5.420000000000000338e-03, 2.341999999999999985e-02, 1.655999999999999833e-02, 1.043999999999999963e-02, 1.447999999999999982e-02, 1.699000000000000163e-02, 1.372999999999999915e-02, 1.193999999999999923e-02, 8.170000000000000179e-03, 1.808999999999999844e-02, 5.750999999999999862e-02, 3.665999999999999814e-02, 4.438999999999999890e-02, 4.177000000000000157e-02, 1.267000000000000071e-02, 3.518999999999999906e-02, 3.318999999999999728e-02, 1.807999999999999885e-02, 3.939999999999999752e-02, 1.695999999999999938e-02, 2.586000000000000104e-02, 1.823999999999999927e-02, 2.317999999999999922e-02, 1.759000000000000147e-02, 1.739999999999999880e-02, 1.874999999999999931e-02, 9.300000000000000541e-04, 2.599999999999999881e-03, 2.030000000000000120e-03, 1.200000000000000030e-04, 2.579999999999999828e-03, 2.289999999999999935e-03, 1.961999999999999855e-02, 3.130000000000000143e-02, 1.463000000000000064e-02, 2.510000000000000078e-02, 1.944999999999999854e-02, 9.690000000000000696e-03, 1.116000000000000152e-02, 9.780000000000000498e-03, 2.908000000000000168e-02, 4.959999999999999999e-03, 1.477999999999999974e-02, 8.619999999999999191e-03, 1.822000000000000008e-02, 5.420000000000000338e-03, 1.259000000000000050e-02, 2.266000000000000306e-02, 1.024000000000000084e-02, 1.935999999999999527e-02, 1.455000000000000043e-02, 3.759999999999999887e-03, 4.853999999999999981e-02, 3.477000000000000229e-02, 2.270000000000000143e-02, 7.900000000000000772e-03, 2.440000000000000155e-02, 3.959999999999999978e-03, 1.298999999999999981e-02, 5.390000000000000693e-03, 1.976999999999999938e-02, 1.247000000000000018e-02, 1.208000000000000046e-02, 2.434000000000000052e-02, 1.677000000000000018e-02, 2.055000000000000229e-02, 4.239999999999998863e+02, 4.499999999999999877e-04, 4.699999999999999859e-04, 1.010000000000000047e-03, 1.250000000000000026e-03, 1.139999999999999954e-03, 2.009999999999999634e-02, 3.130000000000000143e-02, 1.463000000000000064e-02, 2.723000000000000073e-02, 1.944999999999999854e-02, 9.690000000000000696e-03, 1.217999999999999985e-02, 9.780000000000000498e-03, 2.920000000000000026e-02, 4.959999999999999999e-03, 1.611999999999999891e-02, 8.619999999999999191e-03, 1.822000000000000008e-02, 5.420000000000000338e-03, 1.374000000000000048e-02, 2.266000000000000306e-02, 1.024000000000000084e-02, 1.935999999999999527e-02, 1.455000000000000043e-02, 3.759999999999999887e-03, 4.853999999999999981e-02, 3.477000000000000229e-02, 2.270000000000000143e-02, 7.900000000000000772e-03, 2.440000000000000155e-02, 3.959999999999999978e-03, 1.298999999999999981e-02, 5.390000000000000693e-03, 1.976999999999999938e-02, 1.247000000000000018e-02, 1.208000000000000046e-02, 2.434000000000000052e-02, 1.677000000000000018e-02, 2.055000000000000229e-02, 4.239999999999998863e+02, 4.299999999999999894e-04, 4.499999999999999877e-04, 9.799999999999999684e-04, 1.199999999999999678e-03, 1.100000000000000066e-03, 1.958000000000000018e-02, 3.013999999999999665e-02, 1.408999999999999836e-02, 2.667999999999999886e-02, 1.872999999999999665e-02, 9.329999999999999752e-03, 1.221000000000000037e-02, 9.419999999999999554e-03, 2.811999999999999916e-02, 4.769999999999999934e-03, 1.616000000000000075e-02, 8.300000000000000086e-03, 1.754999999999999963e-02, 5.219999999999999814e-03, 1.378000000000000058e-02, 2.181999999999999912e-02, 9.860000000000000708e-03, 1.864000000000000032e-02, 1.400999999999999988e-02, 4.290000000000000410e-03, 4.969999999999999418e-02, 3.530999999999999417e-02, 5.699999999999999772e-04, 2.342000000000000332e-02, 8.259999999999999981e-03, 2.476000000000000076e-02, 5.040000000000000209e-03, 1.316999999999999942e-02, 5.709999999999999798e-03, 2.043999999999999984e-02, 1.267000000000000071e-02, 1.292000000000000093e-02, 2.471999999999999892e-02, 1.748999999999999860e-02, 2.109000000000000111e-02, 4.239999999999998863e+02, 2.199999999999999807e-04, 5.299999999999999807e-04, 5.999999999999998390e-04, 5.999999999999998390e-04, 2.162000000000000033e-02, 3.255000000000000254e-02, 1.521999999999999915e-02, 2.929999999999999966e-02, 2.023000000000000145e-02, 1.007000000000000083e-02, 1.425000000000000051e-02, 1.017000000000000196e-02, 3.037000000000000116e-02, 5.150000000000000064e-03, 1.874999999999999584e-02, 8.969999999999998808e-03, 1.895000000000000157e-02, 5.640000000000000048e-03, 1.607000000000000095e-02, 2.356000000000000108e-02, 1.064999999999999974e-02, 2.013000000000000206e-02, 1.512999999999999935e-02, 2.429999999999999521e-02, 7.983999999999998043e-02, 4.939999999999999947e-02, 2.769999999999999893e-02, 4.214999999999999997e-02, 1.759000000000000147e-02, 1.319000000000000034e-02, 3.418000000000000205e-02, 3.316000000000000197e-02, 1.794999999999999721e-02, 1.736000000000000043e-02, 1.400999999999999988e-02, 3.798999999999999599e-02, 1.788999999999999965e-02, 1.488000000000000086e-02, 3.474000000000000005e-02, 3.457999999999999963e-02, 3.613000000000000239e-02, 3.509999999999999926e-02, 4.239999999999998863e+02, 1.643999999999999975e-02, 3.411999999999999755e-02, 6.226000000000000284e-02, 1.295999999999999930e-02, 3.511999999999999844e-02, 5.740000000000000310e-03, 1.731999999999999859e-02, 1.414999999999999938e-02, 1.477000000000000014e-02, 1.119999999999999989e-02, 2.432000000000000134e-02, 2.120999999999999969e-02, 7.359999999999999355e-03, 3.670000000000000345e-02, 1.417999999999999990e-02, 2.828999999999999918e-02, 1.987999999999999837e-02, 1.770000000000000089e-03, 1.670999999999999916e-02, 2.190000000000000106e-03, 1.244999999999999926e-02, 3.850000000000000557e-03, 3.389999999999999784e-03, 5.919999999999999915e-03, 5.049999999999998934e-03, 3.066999999999999935e-02, 1.094999999999999966e-02, 6.160000000000000545e-03, 2.367000000000000007e-02, 1.196000000000000188e-02, 1.909999999999999892e-02, 2.600000000000000355e+01, 3.299999999999999982e-04, 8.099999999999999561e-04, 9.799999999999999684e-04, 9.699999999999999421e-04, 1.518000000000000078e-02, 3.148999999999999716e-02, 5.747000000000000025e-02, 1.196000000000000188e-02, 3.241999999999999743e-02, 5.290000000000000431e-03, 1.598000000000000115e-02, 1.307000000000000002e-02, 1.363999999999999935e-02, 1.034000000000000023e-02, 2.245000000000000120e-02, 1.958000000000000018e-02, 6.790000000000000029e-03, 3.388000000000000039e-02, 1.308999999999999921e-02, 2.611000000000000126e-02, 1.835000000000000173e-02, 2.710000000000000169e-03, 1.933999999999999955e-02, 3.969999999999999571e-03, 2.000000000000000502e-05, 4.890000000000000249e-03, 1.289000000000000042e-02, 3.699999999999999947e-04, 4.939999999999999947e-03, 4.530000000000000172e-03, 6.779999999999999569e-03, 6.919999999999999936e-03, 3.230000000000000232e-02, 1.150999999999999940e-02, 8.980000000000000135e-03, 2.475999999999999729e-02, 1.412999999999999846e-02, 2.062999999999999903e-02, 2.600000000000000355e+01, 1.549999999999999989e-02, 3.148999999999999716e-02, 5.827999999999999847e-02, 1.294000000000000185e-02, 3.241999999999999743e-02, 5.290000000000000431e-03, 1.694999999999999979e-02, 1.307000000000000002e-02, 1.363999999999999935e-02, 1.034000000000000023e-02, 2.245000000000000120e-02, 1.958000000000000018e-02, 6.790000000000000029e-03, 3.388000000000000039e-02, 1.308999999999999921e-02, 2.611000000000000126e-02, 1.835000000000000173e-02, 2.710000000000000169e-03, 1.933999999999999955e-02, 3.969999999999999571e-03, 2.000000000000000502e-05, 4.890000000000000249e-03, 1.289000000000000042e-02, 3.699999999999999947e-04, 4.939999999999999947e-03, 4.530000000000000172e-03, 6.779999999999999569e-03, 6.919999999999999936e-03, 3.230000000000000232e-02, 1.150999999999999940e-02, 8.980000000000000135e-03, 2.475999999999999729e-02, 1.412999999999999846e-02, 2.062999999999999903e-02, 2.600000000000000355e+01, 1.493000000000000056e-02, 3.033000000000000279e-02, 5.612000000000000322e-02, 1.246000000000000059e-02, 3.121999999999999775e-02, 5.100000000000000366e-03, 1.632000000000000117e-02, 1.257999999999999917e-02, 1.312999999999999931e-02, 9.960000000000000103e-03, 2.161000000000000421e-02, 1.885999999999999829e-02, 6.539999999999999807e-03, 3.262000000000000316e-02, 1.260000000000000009e-02, 2.514999999999999875e-02, 1.767000000000000168e-02, 3.280000000000000363e-03, 2.050000000000000086e-02, 6.129999999999999165e-03, 5.000000000000000104e-04, 6.089999999999999927e-03, 1.308999999999999921e-02, 9.899999999999999946e-04, 5.420000000000000338e-03, 5.029999999999999749e-03, 7.170000000000000158e-03, 7.759999999999999537e-03, 3.302999999999999686e-02, 1.175999999999999789e-02, 1.024000000000000257e-02, 2.525000000000000161e-02, 1.510000000000000057e-02, 2.130999999999999908e-02, 2.600000000000000355e+01, 1.611999999999999891e-02, 3.275000000000000133e-02, 6.060999999999999721e-02, 1.345999999999999974e-02, 3.371999999999999997e-02, 5.510000000000000141e-03, 1.762999999999999984e-02, 1.358999999999999965e-02, 1.417999999999999990e-02, 1.076000000000000047e-02, 2.333999999999999964e-02, 2.036999999999999922e-02, 7.069999999999999896e-03, 3.522999999999999743e-02, 1.361000000000000057e-02, 2.716000000000000011e-02, 1.907999999999999974e-02, 1.821000000000000049e-02, 5.083000000000000018e-02, 6.226000000000000284e-02, 1.295999999999999930e-02, 3.731000000000000288e-02, 1.818000000000000171e-02, 1.731999999999999859e-02, 1.799999999999999864e-02, 1.816999999999999865e-02, 1.712999999999999939e-02, 2.937000000000000027e-02, 5.188999999999999863e-02, 1.830999999999999989e-02, 4.286000000000000226e-02, 3.785000000000000170e-02, 4.025000000000000105e-02, 3.898000000000000076e-02, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 9.999999999999998890e-01, -9.999999999999998890e-01, 9.999999999999998890e-01, -9.999999999999998890e-01, 9.999999999999998890e-01, -9.999999999999998890e-01, 9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00};
pfloat lp_agg3_b[516] = {2.140235199999999895e+04, 1.109564000000000078e+03, 6.398867000000000189e+03, 4.994207000000000335e+03, 2.547379300000000148e+04, 2.976585999999999785e+03, 1.173125799999999981e+04, 1.349467000000000098e+03, 4.082400000000000000e+04, 2.653527699999999822e+04, 6.237000000000000000e+03, 2.349025000000000091e+03, 1.701000000000000000e+03, 5.820909999999999854e+03, 4.517719999999999914e+02, 5.399779999999999518e+02, 5.399779999999999518e+02, 1.019816000000000031e+03, 9.767190000000000509e+02, 4.416000000000000227e+02, 5.300819999999999936e+02, 2.349458000000000084e+03, 5.600950000000000273e+02, 1.280882000000000062e+03, 2.206436999999999898e+03, 1.360799999999999955e+03, 2.989773999999999887e+03, 1.215201999999999998e+03, 2.430070000000000050e+02, 7.470910000000000082e+02, 1.048788999999999987e+03, 1.191971999999999980e+03, 3.451600000000000250e+02, 1.041932000000000016e+03, 1.495486000000000104e+03, 1.425113000000000056e+03, 7.516799999999999500e+02, 7.283509999999999991e+02, 7.156960000000000264e+02, 7.410689999999999600e+02, 1.879199000000000069e+03, 6.173780000000000427e+02, 7.624800000000000182e+02, 1.769039999999999964e+03, 1.108079999999999927e+03, 1.010879999999999995e+03, 1.108079999999999927e+03, 7.581599999999999682e+02, 4.445167999999999665e+03, 3.762829999999999927e+03, 7.664800000000000182e+02, 3.491335000000000036e+03, 2.103447000000000116e+03, 2.132955900000000111e+04, 1.895961000000000013e+03, 5.687882999999999811e+03, 7.109851999999999862e+03, 2.606946099999999933e+04, 6.635863000000000284e+03, 1.042778499999999985e+04, 1.421971000000000004e+03, 3.628800000000000000e+04, 2.419200000000000000e+04, 5.544000000000000000e+03, 2.520000000000000000e+03, 1.512000000000000000e+03, 5.759765999999999622e+03, 4.799809999999999945e+02, 4.799809999999999945e+02, 4.799809999999999945e+02, 9.599610000000000127e+02, 6.224980000000000473e+02, 8.624279999999999973e+02, 8.500850000000000364e+02, 3.840000000000000000e+02, 5.713350000000000364e+02, 5.760000000000000000e+02, 4.800000000000000000e+02, 1.486164999999999964e+03, 2.153096000000000004e+03, 1.380153000000000020e+03, 4.320000000000000000e+02, 4.800000000000000000e+02, 5.796109999999999900e+02, 1.217972999999999956e+03, 1.152000000000000000e+03, 2.102398999999999887e+03, 1.152000000000000028e+02, 1.209599999999999909e+03, 2.678400000000000091e+03, 1.157759999999999991e+03, 2.995199999999999818e+02, 3.283199999999999932e+02, 6.681599999999999682e+02, 1.036799999999999955e+03, 1.088640000000000100e+03, 3.628799999999999955e+02, 1.002240000000000009e+03, 1.336318999999999960e+03, 1.336318999999999960e+03, 6.681599999999999682e+02, 6.681599999999999682e+02, 6.681599999999999682e+02, 6.796799999999999500e+02, 1.670398999999999887e+03, 5.760000000000000000e+02, 7.257599999999999909e+02, 1.572480000000000018e+03, 9.849589999999999463e+02, 8.985599999999999454e+02, 9.849589999999999463e+02, 6.739199999999999591e+02, 3.922547999999999774e+03, 3.360000000000000000e+03, 1.260000000000000000e+03, 3.317931999999999789e+03, 1.726686999999999898e+03, 2.303998999999999796e+03, 2.310702699999999822e+04, 2.053958000000000084e+03, 6.161871000000000095e+03, 7.702340000000000146e+03, 2.824192199999999866e+04, 7.188851999999999862e+03, 1.129676599999999962e+04, 1.540469000000000051e+03, 3.931200000000000000e+04, 2.620800000000000000e+04, 6.006000000000000000e+03, 2.730000000000000000e+03, 1.638000000000000000e+03, 6.239746000000000095e+03, 5.199790000000000418e+02, 5.199790000000000418e+02, 5.199790000000000418e+02, 1.039958000000000084e+03, 6.854400000000000546e+02, 9.072000000000000455e+02, 9.026639999999999873e+02, 4.031999999999999886e+02, 6.017759999999999536e+02, 6.047999999999999545e+02, 5.040000000000000000e+02, 1.562398999999999887e+03, 2.328478999999999814e+03, 1.461598999999999933e+03, 4.536000000000000227e+02, 5.040000000000000000e+02, 6.652799999999999727e+02, 1.280159000000000106e+03, 1.248000000000000000e+03, 2.277599000000000160e+03, 1.247999999999999972e+02, 1.310398999999999887e+03, 2.901599000000000160e+03, 1.254240000000000009e+03, 3.244800000000000182e+02, 3.556800000000000068e+02, 7.238400000000000318e+02, 1.123199000000000069e+03, 1.179359999999999900e+03, 3.931200000000000045e+02, 1.085759999999999991e+03, 1.447680000000000064e+03, 1.447680000000000064e+03, 7.238400000000000318e+02, 7.238400000000000318e+02, 7.238400000000000318e+02, 7.363200000000000500e+02, 1.809599999999999909e+03, 6.240000000000000000e+02, 7.862400000000000091e+02, 1.703519999999999982e+03, 1.067039999999999964e+03, 9.734400000000000546e+02, 1.067039999999999964e+03, 7.300800000000000409e+02, 4.157996000000000095e+03, 3.528000000000000000e+03, 1.323000000000000000e+03, 3.594427000000000135e+03, 1.814398999999999887e+03, 2.419199999999999818e+03, 2.310702699999999822e+04, 2.053958000000000084e+03, 6.161871000000000095e+03, 7.702340000000000146e+03, 2.824192199999999866e+04, 7.188851999999999862e+03, 1.129676599999999962e+04, 1.540469000000000051e+03, 3.931200000000000000e+04, 2.620800000000000000e+04, 6.006000000000000000e+03, 2.730000000000000000e+03, 1.638000000000000000e+03, 6.239746000000000095e+03, 5.199790000000000418e+02, 5.199790000000000418e+02, 5.199790000000000418e+02, 1.039958000000000084e+03, 7.180800000000000409e+02, 9.503999999999999773e+02, 9.456470000000000482e+02, 4.223999999999999773e+02, 6.304320000000000164e+02, 6.336000000000000227e+02, 5.280000000000000000e+02, 1.636798999999999978e+03, 2.439360000000000127e+03, 1.531200000000000045e+03, 4.751999999999999886e+02, 5.280000000000000000e+02, 6.969600000000000364e+02, 1.341118999999999915e+03, 1.248000000000000000e+03, 2.277599000000000160e+03, 1.247999999999999972e+02, 1.310398999999999887e+03, 2.901599000000000160e+03, 1.254240000000000009e+03, 3.244800000000000182e+02, 3.556800000000000068e+02, 7.238400000000000318e+02, 1.123199000000000069e+03, 1.179359999999999900e+03, 3.931200000000000045e+02, 1.085759999999999991e+03, 1.447680000000000064e+03, 1.447680000000000064e+03, 7.238400000000000318e+02, 7.238400000000000318e+02, 7.238400000000000318e+02, 7.363200000000000500e+02, 1.809599999999999909e+03, 6.240000000000000000e+02, 7.862400000000000091e+02, 1.703519999999999982e+03, 1.067039999999999964e+03, 9.734400000000000546e+02, 1.067039999999999964e+03, 7.300800000000000409e+02, 4.355996000000000095e+03, 3.696000000000000000e+03, 1.386000000000000000e+03, 3.594427000000000135e+03, 1.900799999999999955e+03, 2.534398999999999887e+03, 2.399575400000000081e+04, 2.132956000000000131e+03, 6.398867000000000189e+03, 7.998582000000000335e+03, 2.932814500000000044e+04, 7.465344000000000051e+03, 1.173125799999999981e+04, 1.599717000000000098e+03, 4.082400000000000000e+04, 2.721600000000000000e+04, 6.237000000000000000e+03, 2.835000000000000000e+03, 1.701000000000000000e+03, 6.479738000000000284e+03, 5.399779999999999518e+02, 5.399779999999999518e+02, 5.399779999999999518e+02, 1.079957000000000107e+03, 7.180800000000000409e+02, 9.503999999999999773e+02, 9.456470000000000482e+02, 4.223999999999999773e+02, 6.304320000000000164e+02, 6.336000000000000227e+02, 5.280000000000000000e+02, 1.636798999999999978e+03, 2.439360000000000127e+03, 1.531200000000000045e+03, 4.751999999999999886e+02, 5.280000000000000000e+02, 6.969600000000000364e+02, 1.341118999999999915e+03, 1.296000000000000000e+03, 2.365199000000000069e+03, 1.295999999999999943e+02, 1.360799999999999955e+03, 3.013199000000000069e+03, 1.302480000000000018e+03, 3.369599999999999795e+02, 3.693600000000000136e+02, 7.516799999999999500e+02, 1.166398999999999887e+03, 1.224720000000000027e+03, 4.082400000000000091e+02, 1.127519999999999982e+03, 1.503358999999999924e+03, 1.503358999999999924e+03, 7.516799999999999500e+02, 7.516799999999999500e+02, 7.516799999999999500e+02, 7.646399999999999864e+02, 1.879199000000000069e+03, 6.480000000000000000e+02, 8.164800000000000182e+02, 1.769039999999999964e+03, 1.108079999999999927e+03, 1.010879999999999995e+03, 1.108079999999999927e+03, 7.581599999999999682e+02, 4.355996000000000095e+03, 3.696000000000000000e+03, 1.386000000000000000e+03, 3.732672999999999774e+03, 1.900799999999999955e+03, 2.534398999999999887e+03, 2.221828499999999985e+04, 1.974959000000000060e+03, 5.924875000000000000e+03, 7.406094000000000051e+03, 2.715568400000000111e+04, 6.912354999999999563e+03, 1.086227299999999923e+04, 1.481219000000000051e+03, 3.780000000000000000e+04, 2.520000000000000000e+04, 5.775000000000000000e+03, 2.625000000000000000e+03, 1.575000000000000000e+03, 1.999920000000000073e+03, 1.666599999999999966e+02, 1.666599999999999966e+02, 1.666599999999999966e+02, 3.333199999999999932e+02, 6.854400000000000546e+02, 9.072000000000000455e+02, 9.026639999999999873e+02, 4.031999999999999886e+02, 6.017759999999999536e+02, 6.047999999999999545e+02, 5.040000000000000000e+02, 1.562398999999999887e+03, 2.328478999999999814e+03, 1.461598999999999933e+03, 4.536000000000000227e+02, 5.040000000000000000e+02, 6.652799999999999727e+02, 1.280159000000000106e+03, 1.200000000000000000e+03, 2.189998999999999796e+03, 1.200000000000000000e+02, 1.259999000000000024e+03, 2.789998999999999796e+03, 1.205999000000000024e+03, 3.120000000000000000e+02, 3.420000000000000000e+02, 6.960000000000000000e+02, 1.079999000000000024e+03, 1.133999000000000024e+03, 3.780000000000000000e+02, 1.043999000000000024e+03, 1.391999000000000024e+03, 1.391999000000000024e+03, 6.960000000000000000e+02, 6.960000000000000000e+02, 6.960000000000000000e+02, 7.080000000000000000e+02, 1.739999000000000024e+03, 6.000000000000000000e+02, 7.560000000000000000e+02, 1.637999000000000024e+03, 1.025999000000000024e+03, 9.360000000000000000e+02, 1.025999000000000024e+03, 7.020000000000000000e+02, 4.157996000000000095e+03, 3.528000000000000000e+03, 1.323000000000000000e+03, 3.456177999999999884e+03, 1.814398999999999887e+03, 2.419199999999999818e+03, 2.200000000000000000e+04, 8.000000000000000000e+04, 0.0, 3.500000000000000000e+05, 1.400000000000000000e+04, 7.000000000000000000e+03, 6.999900000000000091e+02, 3.000000000000000000e+02, 3.600000000000000000e+04, 6.669992999999999302e+04, 3.330000000000000000e+04, 1.353000000000000000e+05, 6.769992999999999302e+04, 1.280000000000000000e+05, 4.300000000000000000e+04, 1.228569299999999930e+05, 3.471200000000000000e+04, 1.600000000000000000e+03, 7.000000000000000000e+05, 5.000000000000000000e+03, 3.400000000000000000e+04, 1.700000000000000000e+04, 4.399989999999999782e+03, 2.199989999999999782e+03, 6.600000000000000000e+04, 1.266999299999999930e+05, 6.330000000000000000e+04, 3.353000000000000000e+05, 1.676999299999999930e+05, 2.480000000000000000e+05, 8.300000000000000000e+04, 1.442859299999999930e+05, 9.353600000000000000e+04, 3.400000000000000000e+03, 1.000000000000000000e+06, 1.200000000000000000e+04, 4.730000000000000000e+04, 2.369999000000000160e+04, 7.999989999999999782e+03, 3.899989999999999782e+03, 9.600000000000000000e+04, 2.266999299999999930e+05, 1.133000000000000000e+05, 5.486000000000000000e+05, 2.743998699999999953e+05, 3.480000000000000000e+05, 1.230000000000000000e+05, 1.448568699999999953e+05, 1.641239299999999930e+05, 5.299989999999999782e+03, 1.200000000000000000e+06, 1.900000000000000000e+04, 6.060000000000000000e+04, 3.039999000000000160e+04, 1.159998999999999978e+04, 5.599989999999999782e+03, 1.260000000000000000e+05, 3.266999299999999930e+05, 1.633000000000000000e+05, 7.486000000000000000e+05, 3.743998699999999953e+05, 4.480000000000000000e+05, 1.630000000000000000e+05, 1.454278099999999977e+05, 2.347118699999999953e+05, 7.299989999999999782e+03, 1.400000000000000000e+06, 2.500000000000000000e+04, 7.390000000000000000e+04, 3.709998000000000320e+04, 1.489998999999999978e+04, 7.299989999999999782e+03, 1.560000000000000000e+05, 4.599999299999999930e+05, 2.299999299999999930e+05, 9.486000000000000000e+05, 4.743998699999999953e+05, 5.480000000000000000e+05, -2.907068700000000172e+04, -3.976000000000000000e+05, 0.0, 0.0, 0.0, 0.0, -1.009995999999999981e+03, -6.749996000000000095e+03, 0.0, 0.0, 0.0, 0.0, -5.416062500000000000e+04, 0.0, 0.0, 0.0, 0.0, 0.0, -3.216913699999999517e+04, 0.0, 0.0, 0.0, 0.0, 0.0, -1.215182500000000000e+05, -1.191831870000000054e+05, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, -6.080408999999999651e+04, -5.954670700000000215e+04, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, -1.272767500000000000e+05, 0.0, 0.0, 0.0, 0.0, 0.0, -2.259400000000000091e+03, 0.0, 0.0, 0.0, 0.0, 0.0};
 
static char * test_lp_agg3(){
pwork *mywork;
idxint exitflag;
 
/* print test name */
printf("======================================= lp_agg3 =======================================\n");
 
/* set up data */
mywork = ECOS_setup(lp_agg3_n, lp_agg3_m, lp_agg3_p, lp_agg3_l, lp_agg3_ncones, lp_agg3_q, 0,
                    lp_agg3_Gpr, lp_agg3_Gjc, lp_agg3_Gir,
                    lp_agg3_Apr, lp_agg3_Ajc, lp_agg3_Air,
                    lp_agg3_c, lp_agg3_h, lp_agg3_b);
if( mywork != NULL ){
/* solve */
exitflag = ECOS_solve(mywork); }
else exitflag = ECOS_FATAL;
 
/* clean up memory */
ECOS_cleanup(mywork, 0);
 
mu_assert("lp_agg3: ECOS failed to produce outputflag OPTIMAL", exitflag == ECOS_OPTIMAL );
return 0;
}
