#include "ecos.h"
#include "minunit.h"
idxint lp_bnl1_n = 1586;
idxint lp_bnl1_m = 1586;
idxint lp_bnl1_p = 643;
idxint lp_bnl1_l = 1586;
idxint lp_bnl1_ncones = 0;
pfloat lp_bnl1_c[1586] = {0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 2.899999999999999800e-01, 0.0, 3.699999999999999956e-01, 0.0, 4.299999999999999933e-01, 0.0, 1.100000000000000089e+00, 0.0, 1.100000000000000311e+00, 0.0, 4.600000000000000200e-01, 0.0, 0.0, 0.0, 1.600000000000000033e-02, 1.600000000000000033e-02, 1.000000000000000021e-03, 8.000000000000000383e-04, 1.699999999999999905e-03, 1.699999999999999905e-03, 1.060000000000000053e+00, 1.060000000000000053e+00, 1.060000000000000053e+00, 1.060000000000000053e+00, 1.060000000000000053e+00, 1.060000000000000053e+00, 1.060000000000000053e+00, 1.060000000000000053e+00, 1.060000000000000053e+00, 1.060000000000000053e+00, 1.060000000000000053e+00, 1.060000000000000053e+00, 2.330000000000000071e+00, 2.330000000000000071e+00, 2.330000000000000071e+00, 2.330000000000000071e+00, 2.330000000000000071e+00, 2.330000000000000071e+00, 2.330000000000000071e+00, 2.330000000000000071e+00, 2.330000000000000071e+00, 2.330000000000000071e+00, 2.330000000000000071e+00, 2.330000000000000071e+00, -2.100000000000000200e-01, -2.100000000000000200e-01, -2.099999999999999922e-01, -2.100000000000000200e-01, -2.100000000000000200e-01, -2.100000000000000200e-01, -2.100000000000000200e-01, -2.099999999999999922e-01, -2.100000000000000200e-01, -2.100000000000000200e-01, -2.100000000000000200e-01, -2.100000000000000200e-01, 1.840000000000000080e+00, 1.840000000000000080e+00, 1.840000000000000080e+00, 1.840000000000000080e+00, 1.840000000000000080e+00, 1.840000000000000080e+00, 1.840000000000000080e+00, 1.840000000000000080e+00, 1.840000000000000080e+00, 1.840000000000000080e+00, 1.840000000000000080e+00, 1.840000000000000080e+00, 1.840000000000000080e+00, 1.139999999999999902e+00, 1.139999999999999902e+00, 1.139999999999999902e+00, 1.139999999999999902e+00, 1.139999999999999902e+00, 1.139999999999999902e+00, 1.139999999999999902e+00, 1.139999999999999902e+00, 1.139999999999999902e+00, 1.139999999999999902e+00, 1.139999999999999902e+00, 1.139999999999999902e+00, 2.540000000000000036e+00, 2.540000000000000036e+00, 0.0, 0.0, 2.540000000000000036e+00, 1.360000000000000098e+00, 1.360000000000000098e+00, 1.360000000000000098e+00, 1.360000000000000098e+00, 1.360000000000000098e+00, 1.360000000000000098e+00, 1.360000000000000098e+00, 1.360000000000000098e+00, 1.360000000000000098e+00, 1.360000000000000098e+00, 1.360000000000000098e+00, 1.360000000000000098e+00, 1.310000000000000053e+00, 1.310000000000000053e+00, 1.310000000000000053e+00, 1.310000000000000053e+00, 1.310000000000000053e+00, 1.310000000000000053e+00, 1.310000000000000053e+00, 1.310000000000000053e+00, 1.310000000000000053e+00, 1.310000000000000053e+00, 1.310000000000000053e+00, 1.310000000000000053e+00, 7.600000000000000089e-01, 7.600000000000000089e-01, 7.600000000000000089e-01, 7.600000000000000089e-01, 7.600000000000000089e-01, 7.600000000000000089e-01, 7.600000000000000089e-01, 7.600000000000000089e-01, 7.600000000000000089e-01, 7.600000000000000089e-01, 7.600000000000000089e-01, 7.600000000000000089e-01, 1.120000000000000107e+00, 1.120000000000000107e+00, 1.120000000000000107e+00, 1.120000000000000107e+00, 1.120000000000000107e+00, 1.120000000000000107e+00, 1.120000000000000107e+00, 1.120000000000000107e+00, 1.120000000000000107e+00, 1.120000000000000107e+00, 1.120000000000000107e+00, 1.120000000000000107e+00, 0.0, 0.0, 0.0, 7.600000000000000089e-01, 2.450000000000000178e+00, 2.450000000000000178e+00, 2.450000000000000178e+00, 7.000000000000000666e-02, 7.000000000000000666e-02, 0.0, 4.600000000000000200e-01, 4.600000000000000200e-01, 2.700000000000000178e-01, 7.900000000000000355e-01, 1.139999999999999902e+00, 2.450000000000000178e+00, 2.450000000000000178e+00, 2.450000000000000178e+00, 7.000000000000000666e-02, 7.000000000000000666e-02, 0.0, 4.600000000000000200e-01, 4.600000000000000200e-01, 2.700000000000000178e-01, 7.900000000000000355e-01, 1.139999999999999902e+00, 2.669999999999999929e+00, 2.669999999999999929e+00, 2.669999999999999929e+00, 3.699999999999999956e-01, 3.699999999999999956e-01, 4.699999999999999734e-01, 7.600000000000000089e-01, 7.600000000000000089e-01, 5.799999999999999600e-01, 1.100000000000000089e+00, 1.479999999999999982e+00, 3.229999999999999982e+00, 3.229999999999999982e+00, 3.229999999999999982e+00, 2.099999999999999922e-01, 2.099999999999999922e-01, 2.099999999999999922e-01, 8.199999999999999512e-01, 8.199999999999999512e-01, 8.100000000000000533e-01, 2.020000000000000018e+00, 2.020000000000000018e+00, 4.059999999999999609e+00, 4.059999999999999609e+00, 4.059999999999999609e+00, 4.500000000000000111e-01, 4.500000000000000111e-01, 4.500000000000000111e-01, 1.060000000000000053e+00, 1.060000000000000053e+00, 1.050000000000000044e+00, 2.259999999999999787e+00, 2.259999999999999787e+00, 3.520000000000000018e+00, 3.520000000000000018e+00, 3.520000000000000018e+00, 3.400000000000000244e-01, 3.400000000000000244e-01, 3.400000000000000244e-01, 9.499999999999999556e-01, 9.499999999999999556e-01, 9.399999999999999467e-01, 2.149999999999999911e+00, 2.149999999999999911e+00, 2.099999999999999922e-01, 7.000000000000000666e-02, 7.800000000000000266e-01, 2.099999999999999922e-01, 8.599999999999999867e-01, 1.409999999999999920e+00, 1.409999999999999920e+00, 1.409999999999999920e+00, 1.199999999999999956e-01, 1.199999999999999956e-01, 7.900000000000000355e-01, 7.900000000000000355e-01, 1.919999999999999929e+00, 8.800000000000000044e-01, 8.800000000000000044e-01, 1.449999999999999956e+00, 1.449999999999999956e+00, 1.449999999999999956e+00, 1.449999999999999956e+00, 7.700000000000000178e-01, 1.449999999999999956e+00, 1.449999999999999956e+00, 1.449999999999999956e+00, 1.449999999999999956e+00, 2.069999999999999840e+00, 2.069999999999999840e+00, 2.490000000000000213e+00, 2.490000000000000213e+00, 2.490000000000000213e+00, 1.010000000000000009e+00, 1.010000000000000009e+00, 1.679999999999999938e+00, 1.679999999999999938e+00, 2.810000000000000053e+00, 1.469999999999999973e+00, 1.469999999999999973e+00, 0.0, 1.814000000000000057e-01, 0.0, 2.316999999999999615e-01, 0.0, 3.336000000000000076e-01, 0.0, 8.672999999999999599e-01, 0.0, 8.672999999999998488e-01, 0.0, 3.518000000000000016e-01, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.213099999999999942e-02, 1.213099999999999942e-02, 5.999999999999999474e-04, 5.000000000000000104e-04, 1.000000000000000021e-03, 1.000000000000000021e-03, 0.0, 6.429000000000000270e-01, 6.429000000000000270e-01, 6.429000000000000270e-01, 6.429000000000000270e-01, 6.429000000000000270e-01, 6.429000000000000270e-01, 6.429000000000000270e-01, 6.429000000000000270e-01, 6.429000000000000270e-01, 6.429000000000000270e-01, 6.429000000000000270e-01, 6.429000000000000270e-01, 1.413200000000000012e+00, 1.413200000000000012e+00, 1.413200000000000012e+00, 1.413200000000000012e+00, 1.413200000000000012e+00, 1.413200000000000012e+00, 1.413200000000000012e+00, 1.413200000000000012e+00, 1.413200000000000012e+00, 1.413200000000000012e+00, 1.413200000000000012e+00, 1.413200000000000012e+00, -2.829999999999999738e-01, -2.829999999999999738e-01, -2.829999999999999738e-01, -2.829999999999999738e-01, -2.829999999999999738e-01, -2.829999999999999738e-01, -2.829999999999999738e-01, -2.829999999999999738e-01, -2.829999999999999738e-01, -2.829999999999999738e-01, -2.829999999999999738e-01, -2.829999999999999738e-01, 1.043199999999999905e+00, 1.043199999999999905e+00, 1.043199999999999905e+00, 1.043199999999999905e+00, 1.043199999999999905e+00, 1.043199999999999905e+00, 1.043199999999999905e+00, 1.043199999999999905e+00, 1.043199999999999905e+00, 1.043199999999999905e+00, 1.043199999999999905e+00, 1.043199999999999905e+00, 7.217999999999999972e-01, 6.914000000000000146e-01, 6.914000000000000146e-01, 6.914000000000000146e-01, 6.914000000000000146e-01, 6.914000000000000146e-01, 6.914000000000000146e-01, 6.914000000000000146e-01, 6.914000000000000146e-01, 6.914000000000000146e-01, 6.914000000000000146e-01, 6.914000000000000146e-01, 6.914000000000000146e-01, 1.409200000000000008e+00, 1.409200000000000008e+00, 0.0, 0.0, 1.409200000000000008e+00, 8.694000000000000616e-01, 8.694000000000000616e-01, 8.694000000000000616e-01, 8.694000000000000616e-01, 8.694000000000000616e-01, 8.694000000000000616e-01, 8.694000000000000616e-01, 8.694000000000000616e-01, 8.694000000000000616e-01, 8.694000000000000616e-01, 8.694000000000000616e-01, 8.694000000000000616e-01, 8.106999999999999762e-01, 8.106999999999999762e-01, 8.106999999999999762e-01, 8.106999999999999762e-01, 8.106999999999999762e-01, 8.106999999999999762e-01, 8.106999999999999762e-01, 8.106999999999999762e-01, 8.106999999999999762e-01, 8.106999999999999762e-01, 8.106999999999999762e-01, 8.106999999999999762e-01, 7.439999999999999947e-01, 7.439999999999999947e-01, 7.439999999999999947e-01, 7.439999999999999947e-01, 7.439999999999999947e-01, 7.439999999999999947e-01, 7.439999999999999947e-01, 7.439999999999999947e-01, 7.439999999999999947e-01, 7.439999999999999947e-01, 7.439999999999999947e-01, 7.439999999999999947e-01, 4.610000000000000209e-01, 4.610000000000000209e-01, 4.609999999999999654e-01, 4.610000000000000209e-01, 4.610000000000000209e-01, 4.610000000000000209e-01, 4.610000000000000209e-01, 4.610000000000000209e-01, 4.610000000000000209e-01, 4.610000000000000209e-01, 4.610000000000000209e-01, 4.610000000000000209e-01, 6.793000000000000149e-01, 6.793000000000000149e-01, 6.793000000000000149e-01, 6.793000000000000149e-01, 6.793000000000000149e-01, 6.793000000000000149e-01, 6.793000000000000149e-01, 6.793000000000000149e-01, 6.793000000000000149e-01, 6.793000000000000149e-01, 6.793000000000000149e-01, 6.793000000000000149e-01, 0.0, 0.0, 0.0, 4.609999999999999654e-01, 1.419300000000000006e+00, 1.419300000000000006e+00, 1.419300000000000006e+00, 1.209999999999999964e-02, 1.209999999999999964e-02, 0.0, 2.810000000000000275e-01, 2.810000000000000275e-01, 1.414999999999999869e-01, 3.820999999999999952e-01, 6.914000000000000146e-01, 1.419300000000000006e+00, 1.419300000000000006e+00, 1.419300000000000006e+00, 1.209999999999999964e-02, 1.209999999999999964e-02, 0.0, 2.810000000000000275e-01, 2.810000000000000275e-01, 1.414999999999999869e-01, 3.820999999999999952e-01, 6.914000000000000146e-01, 1.718499999999999694e+00, 1.718499999999999694e+00, 1.718499999999999694e+00, 2.587999999999999745e-01, 2.587999999999999745e-01, 2.851000000000000201e-01, 4.953000000000000180e-01, 4.953000000000000180e-01, 3.941999999999999948e-01, 6.328000000000000291e-01, 9.644000000000000350e-01, 1.959100000000000064e+00, 1.959100000000000064e+00, 1.959100000000000064e+00, 1.274000000000000132e-01, 1.274000000000000132e-01, 1.274000000000000132e-01, 4.974000000000000088e-01, 4.974000000000000088e-01, 4.913000000000000145e-01, 1.225200000000000067e+00, 1.225200000000000067e+00, 2.466600000000000126e+00, 2.466600000000000126e+00, 2.466600000000000126e+00, 2.728999999999999759e-01, 2.728999999999999759e-01, 2.728999999999999759e-01, 6.429000000000000270e-01, 6.429000000000000270e-01, 6.368999999999999106e-01, 1.370800000000000018e+00, 1.370800000000000018e+00, 2.175399999999999778e+00, 2.175399999999999778e+00, 2.175399999999999778e+00, 2.223999999999999866e-01, 2.223999999999999866e-01, 2.223999999999999866e-01, 5.924000000000000377e-01, 5.924000000000000377e-01, 5.863000000000000433e-01, 1.320200000000000040e+00, 1.320200000000000040e+00, 1.274000000000000132e-01, 4.250000000000000305e-02, 4.913000000000000145e-01, 1.274000000000000132e-01, 5.397999999999999465e-01, 8.551999999999998492e-01, 8.551999999999998492e-01, 8.551999999999998492e-01, 7.280000000000000360e-02, 7.280000000000000360e-02, 4.792000000000000148e-01, 4.792000000000000148e-01, 1.164500000000000091e+00, 5.336999999999999522e-01, 5.336999999999999522e-01, 1.120100000000000096e+00, 1.120100000000000096e+00, 1.120100000000000096e+00, 1.120100000000000096e+00, 4.791999999999999593e-01, 1.120100000000000096e+00, 1.120100000000000096e+00, 1.120100000000000096e+00, 1.120100000000000096e+00, 1.324300000000000033e+00, 1.324300000000000033e+00, 1.494099999999999984e+00, 1.494099999999999984e+00, 1.494099999999999984e+00, 8.066999999999999726e-01, 8.066999999999999726e-01, 1.010899999999999910e+00, 1.010899999999999910e+00, 1.700299999999999923e+00, 8.834999999999999520e-01, 8.834999999999999520e-01, 1.284880000000000067e+01, 1.176950000000000074e+01, 1.049629999999999974e+01, 8.607400000000000162e+00, 7.216700000000000337e+00, 9.762900000000000134e+00, 3.812399999999999789e+00, 1.411500000000000021e+01, 1.681350000000000122e+01, 1.405279999999999951e+01, 9.188599999999999213e+00, 7.915499999999999758e+00, 2.409939999999999927e+01, 8.406800000000000495e+00, 6.088999999999999968e-01, 3.189700000000000202e+00, 1.383799999999999919e+00, 2.304100000000000037e+00, 6.178799999999999848e+00, 2.442499999999999893e+00, 1.798999999999999932e+00, 1.038000000000000034e-01, 7.355000000000000426e+00, 8.517500000000000071e+00, 0.0, 1.136999999999999955e-01, 0.0, 1.449000000000000010e-01, 0.0, 2.575000000000000067e-01, 0.0, 6.768999999999999462e-01, 0.0, 6.768999999999999462e-01, 0.0, 2.686000000000000054e-01, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 9.197000000000000314e-03, 9.197000000000000314e-03, 4.000000000000000192e-04, 2.999999999999999737e-04, 5.999999999999999474e-04, 5.999999999999999474e-04, 0.0, 0.0, 3.900000000000000133e-01, 3.900000000000000133e-01, 3.900000000000000133e-01, 3.900000000000000133e-01, 3.900000000000000133e-01, 3.900000000000000133e-01, 3.900000000000000133e-01, 3.900000000000000133e-01, 3.900000000000000133e-01, 3.900000000000000133e-01, 3.900000000000000133e-01, 3.900000000000000133e-01, 8.571999999999999620e-01, 8.571999999999999620e-01, 8.571999999999999620e-01, 8.571999999999999620e-01, 8.571999999999999620e-01, 8.571999999999999620e-01, 8.571999999999999620e-01, 8.571999999999999620e-01, 8.571999999999999620e-01, 8.571999999999999620e-01, 8.571999999999999620e-01, 8.571999999999999620e-01, -2.661000000000000032e-01, -2.661000000000000032e-01, -2.661000000000000032e-01, -2.661000000000000032e-01, -2.661000000000000032e-01, -2.661000000000000032e-01, -2.661000000000000032e-01, -2.661000000000000032e-01, -2.661000000000000032e-01, -2.661000000000000032e-01, -2.661000000000000032e-01, -2.661000000000000032e-01, 5.886000000000000121e-01, 5.886000000000000121e-01, 5.886000000000000121e-01, 5.886000000000000121e-01, 5.886000000000000121e-01, 5.886000000000000121e-01, 5.886000000000000121e-01, 5.886000000000000121e-01, 5.886000000000000121e-01, 5.886000000000000121e-01, 5.886000000000000121e-01, 5.886000000000000121e-01, 1.986999999999999877e-01, 4.193999999999999950e-01, 4.193999999999999950e-01, 4.193999999999999950e-01, 4.193999999999999950e-01, 4.193999999999999950e-01, 4.193999999999999950e-01, 4.193999999999999950e-01, 4.193999999999999950e-01, 4.193999999999999950e-01, 4.193999999999999950e-01, 4.193999999999999950e-01, 4.193999999999999950e-01, 7.750000000000000222e-01, 7.750000000000000222e-01, 0.0, 0.0, 7.750000000000000222e-01, 5.543000000000000149e-01, 5.543000000000000149e-01, 5.543000000000000149e-01, 5.543000000000000149e-01, 5.543000000000000149e-01, 5.543000000000000149e-01, 5.543000000000000149e-01, 5.543000000000000149e-01, 5.543000000000000149e-01, 5.543000000000000149e-01, 5.543000000000000149e-01, 5.543000000000000149e-01, 5.089000000000000190e-01, 5.089000000000000190e-01, 5.089000000000000190e-01, 5.089000000000000190e-01, 5.089000000000000190e-01, 5.089000000000000190e-01, 5.089000000000000190e-01, 5.089000000000000190e-01, 5.089000000000000190e-01, 5.089000000000000190e-01, 5.089000000000000190e-01, 5.089000000000000190e-01, 4.205999999999999739e-01, 4.205999999999999739e-01, 4.205999999999999739e-01, 4.205999999999999739e-01, 4.205999999999999739e-01, 4.205999999999999739e-01, 4.205999999999999739e-01, 4.205999999999999739e-01, 4.205999999999999739e-01, 4.205999999999999739e-01, 4.205999999999999739e-01, 4.205999999999999739e-01, 2.796000000000000152e-01, 2.796000000000000152e-01, 2.796000000000000152e-01, 2.796000000000000152e-01, 2.796000000000000152e-01, 2.796000000000000152e-01, 2.796000000000000152e-01, 2.796000000000000152e-01, 2.796000000000000152e-01, 2.796000000000000152e-01, 2.796000000000000152e-01, 2.796000000000000152e-01, 4.119999999999999774e-01, 4.119999999999999774e-01, 4.119999999999999774e-01, 4.119999999999999774e-01, 4.119999999999999774e-01, 4.119999999999999774e-01, 4.119999999999999774e-01, 4.119999999999999774e-01, 4.119999999999999774e-01, 4.119999999999999774e-01, 4.119999999999999774e-01, 4.119999999999999774e-01, 0.0, 0.0, 0.0, 2.796000000000000152e-01, 8.204000000000000181e-01, 8.204000000000000181e-01, 8.204000000000000181e-01, -1.099999999999999936e-02, -1.099999999999999936e-02, 0.0, 1.716999999999999915e-01, 1.716999999999999915e-01, 7.230000000000000315e-02, 1.728999999999999981e-01, 4.193999999999999950e-01, 8.204000000000000181e-01, 8.204000000000000181e-01, 8.204000000000000181e-01, -1.099999999999999936e-02, -1.099999999999999936e-02, 0.0, 1.716999999999999915e-01, 1.716999999999999915e-01, 7.230000000000000315e-02, 1.728999999999999981e-01, 4.193999999999999950e-01, 1.102400000000000047e+00, 1.102400000000000047e+00, 1.102400000000000047e+00, 1.778000000000000136e-01, 1.778000000000000136e-01, 1.728999999999999981e-01, 3.212999999999999745e-01, 3.212999999999999745e-01, 2.649000000000000243e-01, 3.629999999999999893e-01, 6.253999999999999559e-01, 1.188299999999999912e+00, 1.188299999999999912e+00, 1.188299999999999912e+00, 7.729999999999999372e-02, 7.729999999999999372e-02, 7.729999999999999372e-02, 3.017000000000000237e-01, 3.017000000000000237e-01, 2.979999999999999871e-01, 7.430999999999999828e-01, 7.430999999999999828e-01, 1.498499999999999943e+00, 1.498499999999999943e+00, 1.498499999999999943e+00, 1.655000000000000082e-01, 1.655000000000000082e-01, 1.655000000000000082e-01, 3.900000000000000133e-01, 3.900000000000000133e-01, 3.863000000000000322e-01, 8.314000000000000279e-01, 8.314000000000000279e-01, 1.344000000000000083e+00, 1.344000000000000083e+00, 1.344000000000000083e+00, 1.447000000000000230e-01, 1.447000000000000230e-01, 1.446999999999999953e-01, 3.690999999999999837e-01, 3.690999999999999837e-01, 3.654000000000000026e-01, 8.105999999999999872e-01, 8.105999999999999872e-01, 7.729999999999999372e-02, 2.580000000000000002e-02, 3.089999999999999969e-01, 7.729999999999999372e-02, 3.383999999999999786e-01, 5.187000000000000499e-01, 5.187000000000000499e-01, 5.187000000000000499e-01, 4.410000000000000031e-02, 4.410000000000000031e-02, 2.906000000000000250e-01, 2.906000000000000250e-01, 7.063000000000000389e-01, 3.236999999999999877e-01, 3.236999999999999877e-01, 8.253000000000000336e-01, 8.253000000000000336e-01, 8.253000000000000336e-01, 8.253000000000000336e-01, 2.979999999999999871e-01, 8.253000000000000336e-01, 8.253000000000000336e-01, 8.253000000000000336e-01, 8.253000000000000336e-01, 8.448999999999999844e-01, 8.448999999999999844e-01, 8.963999999999998636e-01, 8.963999999999998636e-01, 8.963999999999998636e-01, 6.069999999999999840e-01, 6.069999999999999840e-01, 6.081999999999999629e-01, 6.081999999999999629e-01, 1.028799999999999937e+00, 5.310000000000000275e-01, 5.310000000000000275e-01, 6.638399999999999856e+00, 6.064400000000000013e+00, 5.469000000000000306e+00, 4.474300000000000388e+00, 3.757699999999999818e+00, 5.069700000000000095e+00, 2.021500000000000075e+00, 7.315699999999999648e+00, 8.738200000000000855e+00, 7.308600000000000207e+00, 4.773799999999999599e+00, 4.117799999999999905e+00, 1.162250000000000050e+01, 4.392299999999999649e+00, 3.136999999999999789e-01, 2.064200000000000035e+00, 7.129999999999999671e-01, 1.187200000000000033e+00, 3.183699999999999974e+00, 1.258499999999999952e+00, 9.268999999999999462e-01, 5.349999999999999895e-02, 3.789800000000000058e+00, 4.388700000000000045e+00, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 7.099999999999999367e-02, 0.0, 9.059999999999999998e-02, 0.0, 2.008000000000000063e-01, 0.0, 5.376999999999999558e-01, 0.0, 5.376999999999999558e-01, 0.0, 2.053000000000000103e-01, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 6.694000000000000297e-03, 6.694000000000000297e-03, 2.000000000000000096e-04, 2.000000000000000096e-04, 4.000000000000000192e-04, 4.000000000000000192e-04, 0.0, 0.0, 2.364999999999999880e-01, 2.364999999999999880e-01, 2.364999999999999603e-01, 2.364999999999999880e-01, 2.364999999999999880e-01, 2.364999999999999880e-01, 2.364999999999999880e-01, 2.364999999999999880e-01, 2.364999999999999880e-01, 2.364999999999999880e-01, 2.364999999999999880e-01, 2.364999999999999880e-01, 5.199000000000000288e-01, 5.199000000000000288e-01, 5.199000000000000288e-01, 5.199000000000000288e-01, 5.199000000000000288e-01, 5.199000000000000288e-01, 5.199000000000000288e-01, 5.199000000000000288e-01, 5.199000000000000288e-01, 5.199000000000000288e-01, 5.199000000000000288e-01, 5.199000000000000288e-01, -2.187000000000000055e-01, -2.187000000000000055e-01, -2.187000000000000055e-01, -2.187000000000000055e-01, -2.187000000000000055e-01, -2.187000000000000055e-01, -2.187000000000000055e-01, -2.187000000000000055e-01, -2.187000000000000055e-01, -2.187000000000000055e-01, -2.187000000000000055e-01, -2.187000000000000055e-01, 3.301999999999999935e-01, 3.301999999999999935e-01, 3.301999999999999935e-01, 3.301999999999999935e-01, 3.301999999999999935e-01, 3.301999999999999935e-01, 3.301999999999999935e-01, 3.301999999999999935e-01, 3.301999999999999935e-01, 3.301999999999999935e-01, 3.301999999999999935e-01, 3.301999999999999935e-01, -2.450000000000000094e-02, 2.544000000000000150e-01, 2.544000000000000150e-01, 2.544000000000000150e-01, 2.544000000000000150e-01, 2.544000000000000150e-01, 2.544000000000000150e-01, 2.544000000000000150e-01, 2.544000000000000150e-01, 2.544000000000000150e-01, 2.544000000000000150e-01, 2.544000000000000150e-01, 2.544000000000000150e-01, 4.217000000000000193e-01, 4.217000000000000193e-01, 0.0, 0.0, 4.217000000000000193e-01, 3.524999999999999800e-01, 3.524999999999999800e-01, 3.524999999999999800e-01, 3.524999999999999800e-01, 3.524999999999999800e-01, 3.524999999999999800e-01, 3.524999999999999800e-01, 3.524999999999999800e-01, 3.524999999999999800e-01, 3.524999999999999800e-01, 3.524999999999999800e-01, 3.524999999999999800e-01, 3.190999999999999948e-01, 3.190999999999999948e-01, 3.190999999999999948e-01, 3.190999999999999948e-01, 3.190999999999999948e-01, 3.190999999999999948e-01, 3.190999999999999948e-01, 3.190999999999999948e-01, 3.190999999999999948e-01, 3.190999999999999948e-01, 3.190999999999999948e-01, 3.190999999999999948e-01, 2.364999999999999880e-01, 2.364999999999999880e-01, 2.364999999999999603e-01, 2.364999999999999880e-01, 2.364999999999999880e-01, 2.364999999999999603e-01, 2.364999999999999880e-01, 2.364999999999999880e-01, 2.364999999999999880e-01, 2.364999999999999880e-01, 2.364999999999999880e-01, 2.364999999999999880e-01, 1.696000000000000008e-01, 1.696000000000000008e-01, 1.696000000000000285e-01, 1.696000000000000008e-01, 1.696000000000000008e-01, 1.696000000000000008e-01, 1.696000000000000008e-01, 1.696000000000000008e-01, 1.696000000000000008e-01, 1.696000000000000008e-01, 1.696000000000000008e-01, 1.696000000000000008e-01, 2.499000000000000110e-01, 2.499000000000000110e-01, 2.499000000000000110e-01, 2.499000000000000110e-01, 2.499000000000000110e-01, 2.498999999999999833e-01, 2.499000000000000110e-01, 2.499000000000000388e-01, 2.499000000000000110e-01, 2.499000000000000110e-01, 2.499000000000000110e-01, 2.499000000000000110e-01, 0.0, 0.0, 0.0, 1.696000000000000008e-01, 4.729999999999999760e-01, 4.729999999999999760e-01, 4.729999999999999760e-01, -1.789999999999999925e-02, -1.789999999999999925e-02, 0.0, 1.048999999999999932e-01, 1.048999999999999932e-01, 3.570000000000000256e-02, 6.919999999999999762e-02, 2.544000000000000150e-01, 4.729999999999999760e-01, 4.729999999999999760e-01, 4.729999999999999760e-01, -1.789999999999999925e-02, -1.789999999999999925e-02, 0.0, 1.048999999999999932e-01, 1.048999999999999932e-01, 3.570000000000000256e-02, 6.919999999999999762e-02, 2.544000000000000150e-01, 7.050999999999999490e-01, 7.050999999999999490e-01, 7.050999999999999490e-01, 1.204999999999999960e-01, 1.204999999999999960e-01, 1.048999999999999932e-01, 2.074999999999999900e-01, 2.074999999999999900e-01, 1.763000000000000123e-01, 2.074999999999999900e-01, 4.038999999999999813e-01, 7.207000000000001183e-01, 7.207000000000001183e-01, 7.207000000000000073e-01, 4.689999999999999725e-02, 4.689999999999999725e-02, 4.689999999999999725e-02, 1.829999999999999960e-01, 1.829999999999999960e-01, 1.806999999999999995e-01, 4.506999999999999895e-01, 4.506999999999999895e-01, 9.103999999999999870e-01, 9.103999999999999870e-01, 9.103999999999999870e-01, 1.004000000000000031e-01, 1.004000000000000031e-01, 1.004000000000000031e-01, 2.364999999999999880e-01, 2.364999999999999880e-01, 2.343000000000000083e-01, 5.042999999999999705e-01, 5.042999999999999705e-01, 8.299999999999999600e-01, 8.299999999999999600e-01, 8.299999999999999600e-01, 9.370000000000000551e-02, 9.370000000000000551e-02, 9.370000000000000551e-02, 2.298000000000000043e-01, 2.298000000000000043e-01, 2.275999999999999690e-01, 4.975999999999999868e-01, 4.975999999999999868e-01, 4.689999999999999725e-02, 1.559999999999999928e-02, 1.940999999999999948e-01, 4.689999999999999725e-02, 2.119999999999999940e-01, 3.145999999999999908e-01, 3.145999999999999908e-01, 3.145999999999999908e-01, 2.680000000000000090e-02, 2.680000000000000090e-02, 1.763000000000000123e-01, 1.763000000000000123e-01, 4.284000000000000030e-01, 1.963999999999999913e-01, 1.963999999999999913e-01, 5.890999999999999570e-01, 5.890999999999999570e-01, 5.890999999999999570e-01, 5.890999999999999570e-01, 1.852000000000000035e-01, 5.890999999999999570e-01, 5.890999999999999570e-01, 5.890999999999999570e-01, 5.890999999999999570e-01, 5.376999999999999558e-01, 5.376999999999999558e-01, 5.376999999999999558e-01, 5.376999999999999558e-01, 5.376999999999999558e-01, 4.395999999999999908e-01, 4.395999999999999908e-01, 3.659000000000000030e-01, 3.659000000000000030e-01, 6.225000000000000533e-01, 3.191000000000000503e-01, 3.191000000000000503e-01, 2.646799999999999820e+00, 2.410200000000000120e+00, 2.197700000000000209e+00, 1.795299999999999896e+00, 1.501900000000000013e+00, 2.030499999999999972e+00, 8.288999999999999702e-01, 2.918899999999999828e+00, 3.513999999999999790e+00, 2.918899999999999828e+00, 1.912900000000000045e+00, 1.652099999999999902e+00, 4.303200000000000358e+00, 1.769700000000000051e+00, 1.247000000000000053e-01, 1.030100000000000016e+00, 2.833999999999999853e-01, 4.717999999999999972e-01, 1.265300000000000091e+00, 5.001999999999999780e-01, 3.684000000000000052e-01, 2.129999999999999949e-02, 1.506199999999999983e+00, 1.744199999999999973e+00, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0};
idxint lp_bnl1_Gjc[1587] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 261, 262, 263, 264, 265, 266, 267, 268, 269, 270, 271, 272, 273, 274, 275, 276, 277, 278, 279, 280, 281, 282, 283, 284, 285, 286, 287, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 365, 366, 367, 368, 369, 370, 371, 372, 373, 374, 375, 376, 377, 378, 379, 380, 381, 382, 383, 384, 385, 386, 387, 388, 389, 390, 391, 392, 393, 394, 395, 396, 397, 398, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 432, 433, 434, 435, 436, 437, 438, 439, 440, 441, 442, 443, 444, 445, 446, 447, 448, 449, 450, 451, 452, 453, 454, 455, 456, 457, 458, 459, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472, 473, 474, 475, 476, 477, 478, 479, 480, 481, 482, 483, 484, 485, 486, 487, 488, 489, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 506, 507, 508, 509, 510, 511, 512, 513, 514, 515, 516, 517, 518, 519, 520, 521, 522, 523, 524, 525, 526, 527, 528, 529, 530, 531, 532, 533, 534, 535, 536, 537, 538, 539, 540, 541, 542, 543, 544, 545, 546, 547, 548, 549, 550, 551, 552, 553, 554, 555, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614, 615, 616, 617, 618, 619, 620, 621, 622, 623, 624, 625, 626, 627, 628, 629, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 643, 644, 645, 646, 647, 648, 649, 650, 651, 652, 653, 654, 655, 656, 657, 658, 659, 660, 661, 662, 663, 664, 665, 666, 667, 668, 669, 670, 671, 672, 673, 674, 675, 676, 677, 678, 679, 680, 681, 682, 683, 684, 685, 686, 687, 688, 689, 690, 691, 692, 693, 694, 695, 696, 697, 698, 699, 700, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 716, 717, 718, 719, 720, 721, 722, 723, 724, 725, 726, 727, 728, 729, 730, 731, 732, 733, 734, 735, 736, 737, 738, 739, 740, 741, 742, 743, 744, 745, 746, 747, 748, 749, 750, 751, 752, 753, 754, 755, 756, 757, 758, 759, 760, 761, 762, 763, 764, 765, 766, 767, 768, 769, 770, 771, 772, 773, 774, 775, 776, 777, 778, 779, 780, 781, 782, 783, 784, 785, 786, 787, 788, 789, 790, 791, 792, 793, 794, 795, 796, 797, 798, 799, 800, 801, 802, 803, 804, 805, 806, 807, 808, 809, 810, 811, 812, 813, 814, 815, 816, 817, 818, 819, 820, 821, 822, 823, 824, 825, 826, 827, 828, 829, 830, 831, 832, 833, 834, 835, 836, 837, 838, 839, 840, 841, 842, 843, 844, 845, 846, 847, 848, 849, 850, 851, 852, 853, 854, 855, 856, 857, 858, 859, 860, 861, 862, 863, 864, 865, 866, 867, 868, 869, 870, 871, 872, 873, 874, 875, 876, 877, 878, 879, 880, 881, 882, 883, 884, 885, 886, 887, 888, 889, 890, 891, 892, 893, 894, 895, 896, 897, 898, 899, 900, 901, 902, 903, 904, 905, 906, 907, 908, 909, 910, 911, 912, 913, 914, 915, 916, 917, 918, 919, 920, 921, 922, 923, 924, 925, 926, 927, 928, 929, 930, 931, 932, 933, 934, 935, 936, 937, 938, 939, 940, 941, 942, 943, 944, 945, 946, 947, 948, 949, 950, 951, 952, 953, 954, 955, 956, 957, 958, 959, 960, 961, 962, 963, 964, 965, 966, 967, 968, 969, 970, 971, 972, 973, 974, 975, 976, 977, 978, 979, 980, 981, 982, 983, 984, 985, 986, 987, 988, 989, 990, 991, 992, 993, 994, 995, 996, 997, 998, 999, 1000, 1001, 1002, 1003, 1004, 1005, 1006, 1007, 1008, 1009, 1010, 1011, 1012, 1013, 1014, 1015, 1016, 1017, 1018, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1027, 1028, 1029, 1030, 1031, 1032, 1033, 1034, 1035, 1036, 1037, 1038, 1039, 1040, 1041, 1042, 1043, 1044, 1045, 1046, 1047, 1048, 1049, 1050, 1051, 1052, 1053, 1054, 1055, 1056, 1057, 1058, 1059, 1060, 1061, 1062, 1063, 1064, 1065, 1066, 1067, 1068, 1069, 1070, 1071, 1072, 1073, 1074, 1075, 1076, 1077, 1078, 1079, 1080, 1081, 1082, 1083, 1084, 1085, 1086, 1087, 1088, 1089, 1090, 1091, 1092, 1093, 1094, 1095, 1096, 1097, 1098, 1099, 1100, 1101, 1102, 1103, 1104, 1105, 1106, 1107, 1108, 1109, 1110, 1111, 1112, 1113, 1114, 1115, 1116, 1117, 1118, 1119, 1120, 1121, 1122, 1123, 1124, 1125, 1126, 1127, 1128, 1129, 1130, 1131, 1132, 1133, 1134, 1135, 1136, 1137, 1138, 1139, 1140, 1141, 1142, 1143, 1144, 1145, 1146, 1147, 1148, 1149, 1150, 1151, 1152, 1153, 1154, 1155, 1156, 1157, 1158, 1159, 1160, 1161, 1162, 1163, 1164, 1165, 1166, 1167, 1168, 1169, 1170, 1171, 1172, 1173, 1174, 1175, 1176, 1177, 1178, 1179, 1180, 1181, 1182, 1183, 1184, 1185, 1186, 1187, 1188, 1189, 1190, 1191, 1192, 1193, 1194, 1195, 1196, 1197, 1198, 1199, 1200, 1201, 1202, 1203, 1204, 1205, 1206, 1207, 1208, 1209, 1210, 1211, 1212, 1213, 1214, 1215, 1216, 1217, 1218, 1219, 1220, 1221, 1222, 1223, 1224, 1225, 1226, 1227, 1228, 1229, 1230, 1231, 1232, 1233, 1234, 1235, 1236, 1237, 1238, 1239, 1240, 1241, 1242, 1243, 1244, 1245, 1246, 1247, 1248, 1249, 1250, 1251, 1252, 1253, 1254, 1255, 1256, 1257, 1258, 1259, 1260, 1261, 1262, 1263, 1264, 1265, 1266, 1267, 1268, 1269, 1270, 1271, 1272, 1273, 1274, 1275, 1276, 1277, 1278, 1279, 1280, 1281, 1282, 1283, 1284, 1285, 1286, 1287, 1288, 1289, 1290, 1291, 1292, 1293, 1294, 1295, 1296, 1297, 1298, 1299, 1300, 1301, 1302, 1303, 1304, 1305, 1306, 1307, 1308, 1309, 1310, 1311, 1312, 1313, 1314, 1315, 1316, 1317, 1318, 1319, 1320, 1321, 1322, 1323, 1324, 1325, 1326, 1327, 1328, 1329, 1330, 1331, 1332, 1333, 1334, 1335, 1336, 1337, 1338, 1339, 1340, 1341, 1342, 1343, 1344, 1345, 1346, 1347, 1348, 1349, 1350, 1351, 1352, 1353, 1354, 1355, 1356, 1357, 1358, 1359, 1360, 1361, 1362, 1363, 1364, 1365, 1366, 1367, 1368, 1369, 1370, 1371, 1372, 1373, 1374, 1375, 1376, 1377, 1378, 1379, 1380, 1381, 1382, 1383, 1384, 1385, 1386, 1387, 1388, 1389, 1390, 1391, 1392, 1393, 1394, 1395, 1396, 1397, 1398, 1399, 1400, 1401, 1402, 1403, 1404, 1405, 1406, 1407, 1408, 1409, 1410, 1411, 1412, 1413, 1414, 1415, 1416, 1417, 1418, 1419, 1420, 1421, 1422, 1423, 1424, 1425, 1426, 1427, 1428, 1429, 1430, 1431, 1432, 1433, 1434, 1435, 1436, 1437, 1438, 1439, 1440, 1441, 1442, 1443, 1444, 1445, 1446, 1447, 1448, 1449, 1450, 1451, 1452, 1453, 1454, 1455, 1456, 1457, 1458, 1459, 1460, 1461, 1462, 1463, 1464, 1465, 1466, 1467, 1468, 1469, 1470, 1471, 1472, 1473, 1474, 1475, 1476, 1477, 1478, 1479, 1480, 1481, 1482, 1483, 1484, 1485, 1486, 1487, 1488, 1489, 1490, 1491, 1492, 1493, 1494, 1495, 1496, 1497, 1498, 1499, 1500, 1501, 1502, 1503, 1504, 1505, 1506, 1507, 1508, 1509, 1510, 1511, 1512, 1513, 1514, 1515, 1516, 1517, 1518, 1519, 1520, 1521, 1522, 1523, 1524, 1525, 1526, 1527, 1528, 1529, 1530, 1531, 1532, 1533, 1534, 1535, 1536, 1537, 1538, 1539, 1540, 1541, 1542, 1543, 1544, 1545, 1546, 1547, 1548, 1549, 1550, 1551, 1552, 1553, 1554, 1555, 1556, 1557, 1558, 1559, 1560, 1561, 1562, 1563, 1564, 1565, 1566, 1567, 1568, 1569, 1570, 1571, 1572, 1573, 1574, 1575, 1576, 1577, 1578, 1579, 1580, 1581, 1582, 1583, 1584, 1585, 1586};
idxint lp_bnl1_Gir[1586] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 261, 262, 263, 264, 265, 266, 267, 268, 269, 270, 271, 272, 273, 274, 275, 276, 277, 278, 279, 280, 281, 282, 283, 284, 285, 286, 287, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 365, 366, 367, 368, 369, 370, 371, 372, 373, 374, 375, 376, 377, 378, 379, 380, 381, 382, 383, 384, 385, 386, 387, 388, 389, 390, 391, 392, 393, 394, 395, 396, 397, 398, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 419, 420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 432, 433, 434, 435, 436, 437, 438, 439, 440, 441, 442, 443, 444, 445, 446, 447, 448, 449, 450, 451, 452, 453, 454, 455, 456, 457, 458, 459, 460, 461, 462, 463, 464, 465, 466, 467, 468, 469, 470, 471, 472, 473, 474, 475, 476, 477, 478, 479, 480, 481, 482, 483, 484, 485, 486, 487, 488, 489, 490, 491, 492, 493, 494, 495, 496, 497, 498, 499, 500, 501, 502, 503, 504, 505, 506, 507, 508, 509, 510, 511, 512, 513, 514, 515, 516, 517, 518, 519, 520, 521, 522, 523, 524, 525, 526, 527, 528, 529, 530, 531, 532, 533, 534, 535, 536, 537, 538, 539, 540, 541, 542, 543, 544, 545, 546, 547, 548, 549, 550, 551, 552, 553, 554, 555, 556, 557, 558, 559, 560, 561, 562, 563, 564, 565, 566, 567, 568, 569, 570, 571, 572, 573, 574, 575, 576, 577, 578, 579, 580, 581, 582, 583, 584, 585, 586, 587, 588, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 600, 601, 602, 603, 604, 605, 606, 607, 608, 609, 610, 611, 612, 613, 614, 615, 616, 617, 618, 619, 620, 621, 622, 623, 624, 625, 626, 627, 628, 629, 630, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 643, 644, 645, 646, 647, 648, 649, 650, 651, 652, 653, 654, 655, 656, 657, 658, 659, 660, 661, 662, 663, 664, 665, 666, 667, 668, 669, 670, 671, 672, 673, 674, 675, 676, 677, 678, 679, 680, 681, 682, 683, 684, 685, 686, 687, 688, 689, 690, 691, 692, 693, 694, 695, 696, 697, 698, 699, 700, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 716, 717, 718, 719, 720, 721, 722, 723, 724, 725, 726, 727, 728, 729, 730, 731, 732, 733, 734, 735, 736, 737, 738, 739, 740, 741, 742, 743, 744, 745, 746, 747, 748, 749, 750, 751, 752, 753, 754, 755, 756, 757, 758, 759, 760, 761, 762, 763, 764, 765, 766, 767, 768, 769, 770, 771, 772, 773, 774, 775, 776, 777, 778, 779, 780, 781, 782, 783, 784, 785, 786, 787, 788, 789, 790, 791, 792, 793, 794, 795, 796, 797, 798, 799, 800, 801, 802, 803, 804, 805, 806, 807, 808, 809, 810, 811, 812, 813, 814, 815, 816, 817, 818, 819, 820, 821, 822, 823, 824, 825, 826, 827, 828, 829, 830, 831, 832, 833, 834, 835, 836, 837, 838, 839, 840, 841, 842, 843, 844, 845, 846, 847, 848, 849, 850, 851, 852, 853, 854, 855, 856, 857, 858, 859, 860, 861, 862, 863, 864, 865, 866, 867, 868, 869, 870, 871, 872, 873, 874, 875, 876, 877, 878, 879, 880, 881, 882, 883, 884, 885, 886, 887, 888, 889, 890, 891, 892, 893, 894, 895, 896, 897, 898, 899, 900, 901, 902, 903, 904, 905, 906, 907, 908, 909, 910, 911, 912, 913, 914, 915, 916, 917, 918, 919, 920, 921, 922, 923, 924, 925, 926, 927, 928, 929, 930, 931, 932, 933, 934, 935, 936, 937, 938, 939, 940, 941, 942, 943, 944, 945, 946, 947, 948, 949, 950, 951, 952, 953, 954, 955, 956, 957, 958, 959, 960, 961, 962, 963, 964, 965, 966, 967, 968, 969, 970, 971, 972, 973, 974, 975, 976, 977, 978, 979, 980, 981, 982, 983, 984, 985, 986, 987, 988, 989, 990, 991, 992, 993, 994, 995, 996, 997, 998, 999, 1000, 1001, 1002, 1003, 1004, 1005, 1006, 1007, 1008, 1009, 1010, 1011, 1012, 1013, 1014, 1015, 1016, 1017, 1018, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1027, 1028, 1029, 1030, 1031, 1032, 1033, 1034, 1035, 1036, 1037, 1038, 1039, 1040, 1041, 1042, 1043, 1044, 1045, 1046, 1047, 1048, 1049, 1050, 1051, 1052, 1053, 1054, 1055, 1056, 1057, 1058, 1059, 1060, 1061, 1062, 1063, 1064, 1065, 1066, 1067, 1068, 1069, 1070, 1071, 1072, 1073, 1074, 1075, 1076, 1077, 1078, 1079, 1080, 1081, 1082, 1083, 1084, 1085, 1086, 1087, 1088, 1089, 1090, 1091, 1092, 1093, 1094, 1095, 1096, 1097, 1098, 1099, 1100, 1101, 1102, 1103, 1104, 1105, 1106, 1107, 1108, 1109, 1110, 1111, 1112, 1113, 1114, 1115, 1116, 1117, 1118, 1119, 1120, 1121, 1122, 1123, 1124, 1125, 1126, 1127, 1128, 1129, 1130, 1131, 1132, 1133, 1134, 1135, 1136, 1137, 1138, 1139, 1140, 1141, 1142, 1143, 1144, 1145, 1146, 1147, 1148, 1149, 1150, 1151, 1152, 1153, 1154, 1155, 1156, 1157, 1158, 1159, 1160, 1161, 1162, 1163, 1164, 1165, 1166, 1167, 1168, 1169, 1170, 1171, 1172, 1173, 1174, 1175, 1176, 1177, 1178, 1179, 1180, 1181, 1182, 1183, 1184, 1185, 1186, 1187, 1188, 1189, 1190, 1191, 1192, 1193, 1194, 1195, 1196, 1197, 1198, 1199, 1200, 1201, 1202, 1203, 1204, 1205, 1206, 1207, 1208, 1209, 1210, 1211, 1212, 1213, 1214, 1215, 1216, 1217, 1218, 1219, 1220, 1221, 1222, 1223, 1224, 1225, 1226, 1227, 1228, 1229, 1230, 1231, 1232, 1233, 1234, 1235, 1236, 1237, 1238, 1239, 1240, 1241, 1242, 1243, 1244, 1245, 1246, 1247, 1248, 1249, 1250, 1251, 1252, 1253, 1254, 1255, 1256, 1257, 1258, 1259, 1260, 1261, 1262, 1263, 1264, 1265, 1266, 1267, 1268, 1269, 1270, 1271, 1272, 1273, 1274, 1275, 1276, 1277, 1278, 1279, 1280, 1281, 1282, 1283, 1284, 1285, 1286, 1287, 1288, 1289, 1290, 1291, 1292, 1293, 1294, 1295, 1296, 1297, 1298, 1299, 1300, 1301, 1302, 1303, 1304, 1305, 1306, 1307, 1308, 1309, 1310, 1311, 1312, 1313, 1314, 1315, 1316, 1317, 1318, 1319, 1320, 1321, 1322, 1323, 1324, 1325, 1326, 1327, 1328, 1329, 1330, 1331, 1332, 1333, 1334, 1335, 1336, 1337, 1338, 1339, 1340, 1341, 1342, 1343, 1344, 1345, 1346, 1347, 1348, 1349, 1350, 1351, 1352, 1353, 1354, 1355, 1356, 1357, 1358, 1359, 1360, 1361, 1362, 1363, 1364, 1365, 1366, 1367, 1368, 1369, 1370, 1371, 1372, 1373, 1374, 1375, 1376, 1377, 1378, 1379, 1380, 1381, 1382, 1383, 1384, 1385, 1386, 1387, 1388, 1389, 1390, 1391, 1392, 1393, 1394, 1395, 1396, 1397, 1398, 1399, 1400, 1401, 1402, 1403, 1404, 1405, 1406, 1407, 1408, 1409, 1410, 1411, 1412, 1413, 1414, 1415, 1416, 1417, 1418, 1419, 1420, 1421, 1422, 1423, 1424, 1425, 1426, 1427, 1428, 1429, 1430, 1431, 1432, 1433, 1434, 1435, 1436, 1437, 1438, 1439, 1440, 1441, 1442, 1443, 1444, 1445, 1446, 1447, 1448, 1449, 1450, 1451, 1452, 1453, 1454, 1455, 1456, 1457, 1458, 1459, 1460, 1461, 1462, 1463, 1464, 1465, 1466, 1467, 1468, 1469, 1470, 1471, 1472, 1473, 1474, 1475, 1476, 1477, 1478, 1479, 1480, 1481, 1482, 1483, 1484, 1485, 1486, 1487, 1488, 1489, 1490, 1491, 1492, 1493, 1494, 1495, 1496, 1497, 1498, 1499, 1500, 1501, 1502, 1503, 1504, 1505, 1506, 1507, 1508, 1509, 1510, 1511, 1512, 1513, 1514, 1515, 1516, 1517, 1518, 1519, 1520, 1521, 1522, 1523, 1524, 1525, 1526, 1527, 1528, 1529, 1530, 1531, 1532, 1533, 1534, 1535, 1536, 1537, 1538, 1539, 1540, 1541, 1542, 1543, 1544, 1545, 1546, 1547, 1548, 1549, 1550, 1551, 1552, 1553, 1554, 1555, 1556, 1557, 1558, 1559, 1560, 1561, 1562, 1563, 1564, 1565, 1566, 1567, 1568, 1569, 1570, 1571, 1572, 1573, 1574, 1575, 1576, 1577, 1578, 1579, 1580, 1581, 1582, 1583, 1584, 1585};
pfloat lp_bnl1_Gpr[1586] = {-1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000222e+00, -1.000000000000000222e+00, -9.999999999999998890e-01, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999997780e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000222e+00, -1.000000000000000222e+00, -9.999999999999998890e-01, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999997780e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000222e+00, -1.000000000000000222e+00, -9.999999999999998890e-01, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999997780e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000222e+00, -1.000000000000000222e+00, -9.999999999999998890e-01, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999997780e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000222e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999997780e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -9.999999999999998890e-01, -9.999999999999998890e-01, -9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00};
pfloat lp_bnl1_h[1586] = {0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0};
idxint *lp_bnl1_q = NULL;
idxint lp_bnl1_Ajc[1587] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 261, 262, 263, 264, 265, 266, 267, 268, 269, 270, 271, 272, 273, 274, 275, 276, 277, 278, 279, 280, 281, 282, 283, 284, 285, 286, 287, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 319, 320, 321, 322, 323, 324, 325, 326, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 365, 366, 367, 368, 369, 370, 371, 372, 373, 374, 375, 376, 377, 378, 379, 380, 381, 382, 383, 384, 385, 386, 387, 388, 389, 390, 391, 392, 393, 394, 395, 396, 397, 398, 399, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 413, 417, 419, 423, 425, 429, 431, 435, 437, 441, 443, 447, 450, 453, 455, 458, 461, 466, 470, 475, 479, 484, 490, 496, 500, 506, 511, 515, 520, 525, 529, 535, 540, 545, 551, 557, 561, 567, 572, 576, 581, 586, 590, 596, 601, 607, 614, 621, 626, 633, 639, 644, 650, 656, 661, 668, 674, 680, 687, 694, 699, 706, 712, 717, 723, 729, 734, 741, 747, 754, 759, 765, 771, 775, 781, 786, 790, 795, 800, 804, 810, 815, 822, 830, 832, 834, 840, 846, 853, 860, 865, 872, 878, 883, 889, 895, 900, 907, 913, 919, 926, 933, 938, 945, 951, 956, 962, 968, 973, 980, 986, 990, 995, 1000, 1003, 1008, 1012, 1015, 1019, 1023, 1026, 1031, 1035, 1039, 1044, 1049, 1052, 1057, 1061, 1064, 1068, 1072, 1075, 1080, 1084, 1088, 1092, 1094, 1099, 1104, 1109, 1115, 1119, 1123, 1127, 1131, 1135, 1139, 1143, 1147, 1152, 1157, 1163, 1167, 1171, 1175, 1179, 1183, 1187, 1191, 1195, 1201, 1207, 1214, 1219, 1224, 1229, 1234, 1239, 1244, 1249, 1254, 1257, 1260, 1264, 1266, 1268, 1271, 1273, 1275, 1277, 1279, 1281, 1285, 1289, 1294, 1297, 1300, 1304, 1307, 1310, 1313, 1316, 1319, 1323, 1327, 1332, 1335, 1338, 1342, 1345, 1348, 1351, 1354, 1357, 1361, 1364, 1368, 1372, 1376, 1380, 1384, 1389, 1392, 1395, 1398, 1401, 1404, 1407, 1410, 1414, 1419, 1424, 1429, 1432, 1434, 1438, 1443, 1445, 1448, 1451, 1455, 1459, 1464, 1467, 1470, 1473, 1476, 1479, 1482, 1485, 1487, 1492, 1494, 1499, 1501, 1505, 1507, 1512, 1514, 1519, 1521, 1526, 1530, 1532, 1533, 1537, 1538, 1542, 1545, 1548, 1551, 1553, 1557, 1561, 1567, 1571, 1576, 1580, 1583, 1588, 1594, 1600, 1604, 1610, 1615, 1619, 1624, 1629, 1633, 1639, 1644, 1649, 1655, 1661, 1665, 1671, 1676, 1680, 1685, 1690, 1694, 1700, 1705, 1711, 1718, 1725, 1730, 1737, 1743, 1748, 1754, 1760, 1765, 1772, 1778, 1784, 1791, 1798, 1803, 1810, 1816, 1821, 1827, 1833, 1838, 1845, 1851, 1858, 1863, 1869, 1875, 1879, 1885, 1890, 1894, 1899, 1904, 1908, 1914, 1919, 1926, 1934, 1936, 1938, 1944, 1950, 1957, 1964, 1969, 1976, 1982, 1987, 1993, 1999, 2004, 2011, 2017, 2023, 2030, 2037, 2042, 2049, 2055, 2060, 2066, 2072, 2077, 2084, 2090, 2096, 2103, 2110, 2115, 2122, 2128, 2133, 2139, 2145, 2150, 2157, 2163, 2167, 2172, 2177, 2180, 2185, 2189, 2192, 2196, 2200, 2203, 2208, 2212, 2216, 2221, 2226, 2229, 2234, 2238, 2241, 2245, 2249, 2252, 2257, 2261, 2265, 2269, 2271, 2276, 2281, 2286, 2292, 2296, 2300, 2304, 2308, 2312, 2316, 2320, 2324, 2329, 2334, 2340, 2344, 2348, 2352, 2356, 2360, 2364, 2368, 2372, 2378, 2384, 2391, 2396, 2401, 2406, 2411, 2416, 2421, 2426, 2431, 2434, 2437, 2441, 2443, 2445, 2448, 2450, 2452, 2454, 2456, 2458, 2462, 2466, 2471, 2474, 2477, 2481, 2484, 2487, 2490, 2493, 2496, 2500, 2504, 2509, 2512, 2515, 2519, 2522, 2525, 2528, 2531, 2534, 2538, 2541, 2545, 2549, 2553, 2557, 2561, 2566, 2569, 2572, 2575, 2578, 2581, 2584, 2587, 2591, 2596, 2601, 2606, 2609, 2611, 2615, 2620, 2622, 2625, 2628, 2632, 2636, 2641, 2644, 2647, 2650, 2653, 2656, 2659, 2662, 2666, 2670, 2674, 2678, 2682, 2686, 2690, 2695, 2700, 2705, 2709, 2713, 2717, 2721, 2724, 2727, 2730, 2733, 2736, 2739, 2742, 2745, 2748, 2751, 2753, 2758, 2760, 2765, 2767, 2771, 2773, 2778, 2780, 2785, 2787, 2792, 2796, 2798, 2802, 2804, 2808, 2810, 2814, 2818, 2821, 2824, 2826, 2830, 2834, 2840, 2844, 2849, 2853, 2856, 2860, 2865, 2871, 2877, 2881, 2887, 2892, 2896, 2901, 2906, 2910, 2916, 2921, 2926, 2932, 2938, 2942, 2948, 2953, 2957, 2962, 2967, 2971, 2977, 2982, 2988, 2995, 3002, 3007, 3014, 3020, 3025, 3031, 3037, 3042, 3049, 3055, 3061, 3068, 3075, 3080, 3087, 3093, 3098, 3104, 3110, 3115, 3122, 3128, 3135, 3140, 3146, 3152, 3156, 3162, 3167, 3171, 3176, 3181, 3185, 3191, 3196, 3203, 3211, 3213, 3215, 3221, 3227, 3234, 3241, 3246, 3253, 3259, 3264, 3270, 3276, 3281, 3288, 3294, 3300, 3307, 3314, 3319, 3326, 3332, 3337, 3343, 3349, 3354, 3361, 3367, 3373, 3380, 3387, 3392, 3399, 3405, 3410, 3416, 3422, 3427, 3434, 3440, 3444, 3449, 3454, 3457, 3462, 3466, 3469, 3473, 3477, 3480, 3485, 3489, 3493, 3498, 3503, 3506, 3511, 3515, 3518, 3522, 3526, 3529, 3534, 3538, 3542, 3546, 3548, 3553, 3558, 3563, 3569, 3573, 3577, 3581, 3585, 3589, 3593, 3597, 3601, 3606, 3611, 3617, 3621, 3625, 3629, 3633, 3637, 3641, 3645, 3649, 3655, 3661, 3668, 3673, 3678, 3683, 3688, 3693, 3698, 3703, 3708, 3711, 3714, 3718, 3720, 3722, 3725, 3727, 3729, 3731, 3733, 3735, 3739, 3743, 3748, 3751, 3754, 3758, 3761, 3764, 3767, 3770, 3773, 3777, 3781, 3786, 3789, 3792, 3796, 3799, 3802, 3805, 3808, 3811, 3815, 3818, 3822, 3826, 3830, 3834, 3838, 3843, 3846, 3849, 3852, 3855, 3858, 3861, 3864, 3868, 3873, 3878, 3883, 3886, 3888, 3892, 3897, 3899, 3902, 3905, 3909, 3913, 3918, 3921, 3924, 3927, 3930, 3933, 3936, 3939, 3943, 3947, 3951, 3955, 3959, 3963, 3967, 3972, 3977, 3982, 3986, 3990, 3994, 3998, 4001, 4004, 4007, 4010, 4013, 4016, 4019, 4022, 4025, 4028, 4033, 4038, 4043, 4048, 4053, 4058, 4063, 4068, 4073, 4078, 4083, 4088, 4093, 4098, 4102, 4106, 4110, 4114, 4118, 4122, 4126, 4130, 4134, 4138, 4141, 4145, 4148, 4152, 4155, 4158, 4161, 4165, 4168, 4172, 4175, 4179, 4183, 4185, 4189, 4191, 4193, 4194, 4198, 4202, 4205, 4208, 4211, 4213, 4216, 4219, 4222, 4228, 4232, 4237, 4241, 4244, 4248, 4253, 4259, 4265, 4269, 4275, 4280, 4284, 4289, 4294, 4298, 4304, 4309, 4314, 4320, 4326, 4330, 4336, 4341, 4345, 4350, 4355, 4359, 4365, 4370, 4376, 4383, 4390, 4395, 4402, 4408, 4413, 4419, 4425, 4430, 4437, 4443, 4449, 4456, 4463, 4468, 4475, 4481, 4486, 4492, 4498, 4503, 4510, 4516, 4523, 4528, 4534, 4540, 4544, 4550, 4555, 4559, 4564, 4569, 4573, 4579, 4584, 4591, 4599, 4601, 4603, 4609, 4614, 4620, 4626, 4630, 4636, 4641, 4645, 4650, 4655, 4659, 4665, 4670, 4675, 4681, 4687, 4691, 4697, 4702, 4706, 4711, 4716, 4720, 4726, 4731, 4736, 4742, 4748, 4752, 4758, 4763, 4767, 4772, 4777, 4781, 4787, 4792, 4796, 4801, 4806, 4809, 4814, 4818, 4821, 4825, 4829, 4832, 4837, 4841, 4845, 4850, 4855, 4858, 4863, 4867, 4870, 4874, 4878, 4881, 4886, 4890, 4894, 4898, 4900, 4905, 4910, 4915, 4921, 4925, 4929, 4933, 4937, 4941, 4945, 4949, 4953, 4958, 4963, 4969, 4973, 4977, 4981, 4985, 4989, 4993, 4997, 5001, 5007, 5013, 5020, 5025, 5030, 5035, 5040, 5045, 5050, 5055, 5060, 5063, 5066, 5070, 5072, 5074, 5077, 5079, 5081, 5083, 5085, 5087, 5091, 5095, 5100, 5103, 5106, 5110, 5113, 5116, 5119, 5122, 5125, 5129, 5133, 5138, 5141, 5144, 5148, 5151, 5154, 5157, 5160, 5163, 5167, 5170, 5174, 5178, 5182, 5186, 5190, 5195, 5198, 5201, 5204, 5207, 5210, 5213, 5216, 5220, 5225, 5230, 5235, 5238, 5240, 5244, 5249, 5251, 5254, 5257, 5261, 5265, 5270, 5273, 5276, 5279, 5282, 5285, 5288, 5291, 5294, 5297, 5300, 5303, 5306, 5309, 5312, 5317, 5321, 5326, 5329, 5332, 5335, 5338, 5340, 5342, 5344, 5346, 5348, 5350, 5352, 5354, 5356, 5358, 5362, 5366, 5370, 5374, 5378, 5382, 5386, 5390, 5394, 5398, 5402, 5406, 5410, 5414, 5417, 5420, 5423, 5426, 5429, 5432, 5435, 5438, 5441, 5444, 5448, 5452, 5456, 5460, 5464, 5468, 5472, 5476, 5480, 5484, 5488, 5492, 5496, 5500, 5503, 5506, 5509, 5512, 5515, 5518, 5521, 5524, 5527, 5530, 5532};
idxint lp_bnl1_Air[5532] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 23, 25, 26, 27, 28, 29, 30, 31, 32, 33, 35, 38, 39, 43, 45, 46, 54, 55, 56, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 78, 79, 81, 83, 84, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 99, 100, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 128, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 141, 142, 145, 146, 147, 151, 155, 157, 160, 161, 163, 164, 165, 168, 175, 176, 177, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 199, 200, 202, 204, 205, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 221, 222, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 261, 262, 263, 264, 265, 266, 267, 268, 269, 270, 271, 272, 273, 274, 275, 276, 277, 280, 282, 283, 284, 285, 286, 287, 288, 289, 290, 291, 317, 318, 321, 322, 323, 327, 328, 332, 333, 335, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 355, 356, 357, 360, 368, 369, 370, 379, 380, 381, 382, 383, 384, 385, 386, 387, 388, 389, 392, 393, 395, 397, 398, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 414, 415, 418, 419, 420, 421, 422, 423, 424, 425, 426, 427, 428, 429, 430, 431, 432, 433, 434, 435, 436, 437, 438, 439, 440, 441, 442, 443, 444, 445, 446, 447, 448, 449, 450, 453, 455, 456, 457, 458, 459, 460, 461, 462, 463, 464, 514, 515, 518, 519, 520, 527, 528, 529, 530, 532, 533, 534, 539, 540, 541, 543, 544, 546, 548, 549, 550, 551, 552, 553, 554, 555, 556, 557, 558, 559, 560, 561, 562, 563, 565, 566, 567, 570, 578, 579, 580, 589, 590, 591, 592, 593, 594, 595, 596, 597, 598, 599, 602, 603, 605, 607, 608, 610, 611, 612, 613, 614, 615, 616, 617, 618, 619, 620, 621, 622, 623, 624, 625, 627, 628, 631, 632, 633, 634, 635, 636, 637, 638, 639, 640, 641, 642, 34, 140, 34, 35, 36, 142, 37, 144, 36, 37, 38, 146, 40, 156, 40, 41, 103, 157, 42, 159, 42, 43, 49, 161, 44, 162, 44, 46, 49, 165, 47, 166, 47, 48, 49, 168, 153, 154, 219, 148, 149, 151, 98, 220, 98, 101, 225, 98, 102, 225, 39, 99, 101, 154, 219, 39, 99, 101, 153, 39, 100, 102, 149, 151, 39, 100, 102, 148, 0, 19, 36, 53, 80, 0, 19, 36, 52, 72, 80, 0, 19, 36, 55, 72, 80, 19, 36, 72, 77, 0, 19, 36, 58, 72, 80, 0, 19, 36, 50, 66, 0, 19, 36, 100, 19, 36, 51, 66, 80, 19, 36, 57, 72, 83, 0, 19, 36, 99, 0, 19, 36, 72, 80, 82, 19, 36, 54, 61, 72, 1, 20, 36, 53, 80, 1, 20, 36, 52, 80, 92, 1, 20, 36, 55, 80, 92, 20, 36, 77, 92, 1, 20, 36, 58, 80, 92, 1, 20, 36, 50, 91, 1, 20, 36, 100, 20, 36, 51, 80, 91, 20, 36, 57, 83, 92, 1, 20, 36, 99, 1, 20, 36, 80, 82, 92, 20, 36, 54, 61, 92, 2, 21, 45, 49, 53, 80, 2, 21, 45, 49, 52, 70, 80, 2, 21, 45, 49, 55, 70, 80, 21, 45, 49, 70, 77, 2, 21, 45, 49, 58, 70, 80, 2, 21, 45, 49, 50, 64, 2, 21, 45, 49, 100, 21, 45, 49, 51, 64, 80, 21, 45, 49, 57, 70, 83, 2, 21, 45, 49, 99, 2, 21, 45, 49, 70, 80, 82, 21, 45, 49, 54, 61, 70, 3, 22, 45, 49, 53, 80, 3, 22, 45, 49, 52, 80, 94, 3, 22, 45, 49, 55, 80, 94, 22, 45, 49, 77, 94, 3, 22, 45, 49, 58, 80, 94, 3, 22, 45, 49, 50, 93, 3, 22, 45, 49, 100, 22, 45, 49, 51, 80, 93, 22, 45, 49, 57, 83, 94, 3, 22, 45, 49, 99, 3, 22, 45, 49, 80, 82, 94, 22, 45, 49, 54, 61, 94, 4, 23, 45, 49, 55, 75, 80, 5, 24, 41, 53, 80, 5, 24, 41, 52, 80, 86, 5, 24, 41, 55, 80, 86, 24, 41, 77, 86, 5, 24, 41, 58, 80, 86, 5, 24, 41, 50, 85, 5, 24, 41, 100, 24, 41, 51, 80, 85, 24, 41, 57, 83, 86, 5, 24, 41, 99, 5, 24, 41, 80, 82, 86, 24, 41, 54, 61, 86, 6, 25, 45, 49, 53, 78, 81, 6, 25, 45, 49, 52, 78, 79, 81, 50, 78, 51, 81, 45, 49, 61, 78, 79, 81, 7, 26, 53, 80, 154, 170, 7, 26, 52, 73, 80, 154, 170, 7, 26, 55, 73, 80, 154, 170, 26, 73, 77, 154, 170, 7, 26, 58, 73, 80, 154, 170, 7, 26, 50, 67, 154, 170, 7, 26, 100, 154, 170, 26, 51, 67, 80, 154, 170, 26, 57, 73, 83, 154, 170, 7, 26, 99, 154, 170, 7, 26, 73, 80, 82, 154, 170, 26, 54, 61, 73, 154, 170, 8, 27, 53, 80, 149, 150, 8, 27, 52, 80, 96, 149, 150, 8, 27, 55, 80, 96, 149, 150, 27, 77, 96, 149, 150, 8, 27, 58, 80, 96, 149, 150, 8, 27, 50, 95, 149, 150, 8, 27, 100, 149, 150, 27, 51, 80, 95, 149, 150, 27, 57, 83, 96, 149, 150, 8, 27, 99, 149, 150, 8, 27, 80, 82, 96, 149, 150, 27, 54, 61, 96, 149, 150, 9, 28, 53, 80, 9, 28, 52, 80, 88, 9, 28, 55, 80, 88, 28, 77, 88, 9, 28, 58, 80, 88, 9, 28, 50, 87, 9, 28, 100, 28, 51, 80, 87, 28, 57, 83, 88, 9, 28, 99, 9, 28, 80, 82, 88, 28, 54, 61, 88, 10, 29, 53, 80, 10, 29, 52, 71, 80, 10, 29, 55, 71, 80, 29, 71, 77, 10, 29, 58, 71, 80, 10, 29, 50, 65, 10, 29, 100, 29, 51, 65, 80, 29, 57, 71, 83, 10, 29, 99, 10, 29, 71, 80, 82, 29, 54, 61, 71, 11, 30, 53, 80, 11, 30, 52, 80, 57, 84, 12, 31, 55, 77, 80, 32, 43, 45, 49, 53, 32, 43, 45, 49, 52, 32, 43, 45, 49, 55, 80, 43, 45, 49, 58, 43, 45, 49, 62, 43, 49, 63, 76, 43, 45, 49, 50, 43, 45, 49, 57, 43, 45, 49, 59, 43, 45, 49, 60, 43, 45, 49, 61, 32, 45, 46, 49, 53, 32, 45, 46, 49, 52, 32, 45, 46, 49, 55, 80, 45, 46, 49, 58, 45, 46, 49, 62, 46, 49, 63, 76, 45, 46, 49, 50, 45, 46, 49, 57, 45, 46, 49, 59, 45, 46, 49, 60, 45, 46, 49, 61, 13, 32, 45, 48, 49, 53, 13, 32, 45, 48, 49, 52, 13, 32, 45, 48, 49, 55, 80, 13, 45, 48, 49, 58, 13, 45, 48, 49, 62, 13, 48, 49, 63, 76, 13, 45, 48, 49, 50, 13, 45, 48, 49, 57, 13, 45, 48, 49, 59, 13, 45, 48, 49, 60, 13, 45, 48, 49, 61, 32, 41, 53, 32, 41, 52, 32, 41, 55, 80, 41, 58, 41, 62, 41, 63, 76, 41, 50, 41, 57, 41, 59, 41, 60, 41, 61, 14, 32, 49, 53, 14, 32, 49, 52, 14, 32, 49, 55, 80, 14, 49, 58, 14, 49, 62, 14, 49, 63, 76, 14, 49, 50, 14, 49, 57, 14, 49, 59, 14, 49, 60, 14, 49, 61, 15, 32, 36, 53, 15, 32, 36, 52, 15, 32, 36, 55, 80, 15, 36, 58, 15, 36, 62, 15, 36, 63, 76, 15, 36, 50, 15, 36, 57, 15, 36, 59, 15, 36, 60, 15, 36, 61, 36, 38, 56, 58, 36, 38, 62, 36, 38, 63, 76, 35, 36, 56, 58, 35, 36, 63, 76, 16, 33, 53, 77, 16, 33, 52, 77, 16, 33, 55, 77, 80, 16, 58, 77, 16, 62, 77, 16, 50, 77, 16, 57, 77, 16, 59, 77, 16, 60, 77, 16, 61, 77, 17, 36, 53, 80, 17, 36, 52, 80, 90, 17, 36, 55, 80, 90, 17, 36, 58, 80, 90, 17, 36, 62, 17, 36, 17, 36, 50, 89, 17, 36, 57, 83, 90, 17, 36, 17, 36, 60, 17, 36, 61, 18, 33, 36, 53, 18, 33, 36, 52, 18, 33, 36, 55, 80, 18, 36, 58, 18, 36, 62, 18, 36, 50, 18, 36, 57, 18, 36, 59, 18, 36, 60, 18, 36, 61, 140, 316, 140, 141, 142, 143, 318, 144, 320, 143, 144, 145, 146, 322, 156, 334, 156, 157, 158, 335, 159, 337, 159, 160, 161, 169, 339, 162, 354, 162, 164, 165, 169, 357, 166, 358, 166, 167, 168, 169, 360, 155, 170, 331, 333, 152, 170, 333, 155, 331, 333, 363, 152, 330, 331, 333, 412, 154, 219, 330, 324, 325, 327, 149, 151, 324, 220, 413, 220, 223, 225, 418, 220, 224, 225, 418, 147, 221, 223, 331, 333, 412, 147, 221, 223, 330, 147, 222, 224, 325, 327, 147, 222, 224, 324, 150, 325, 328, 104, 124, 143, 174, 201, 104, 124, 143, 173, 193, 201, 104, 124, 143, 176, 193, 201, 124, 143, 193, 198, 104, 124, 143, 179, 193, 201, 104, 124, 143, 171, 187, 104, 124, 143, 222, 124, 143, 172, 187, 201, 124, 143, 178, 193, 204, 104, 124, 143, 221, 104, 124, 143, 193, 201, 203, 124, 143, 175, 182, 193, 105, 125, 143, 174, 201, 105, 125, 143, 173, 201, 213, 105, 125, 143, 176, 201, 213, 125, 143, 198, 213, 105, 125, 143, 179, 201, 213, 105, 125, 143, 171, 212, 105, 125, 143, 222, 125, 143, 172, 201, 212, 125, 143, 178, 204, 213, 105, 125, 143, 221, 105, 125, 143, 201, 203, 213, 125, 143, 175, 182, 213, 106, 126, 163, 169, 174, 201, 106, 126, 163, 169, 173, 191, 201, 106, 126, 163, 169, 176, 191, 201, 126, 163, 169, 191, 198, 106, 126, 163, 169, 179, 191, 201, 106, 126, 163, 169, 171, 185, 106, 126, 163, 169, 222, 126, 163, 169, 172, 185, 201, 126, 163, 169, 178, 191, 204, 106, 126, 163, 169, 221, 106, 126, 163, 169, 191, 201, 203, 126, 163, 169, 175, 182, 191, 107, 127, 163, 169, 174, 201, 107, 127, 163, 169, 173, 201, 215, 107, 127, 163, 169, 176, 201, 215, 127, 163, 169, 198, 215, 107, 127, 163, 169, 179, 201, 215, 107, 127, 163, 169, 171, 214, 107, 127, 163, 169, 222, 127, 163, 169, 172, 201, 214, 127, 163, 169, 178, 204, 215, 107, 127, 163, 169, 221, 107, 127, 163, 169, 201, 203, 215, 127, 163, 169, 175, 182, 215, 108, 128, 163, 169, 176, 196, 201, 109, 129, 158, 174, 201, 109, 129, 158, 173, 201, 207, 109, 129, 158, 176, 201, 207, 129, 158, 198, 207, 109, 129, 158, 179, 201, 207, 109, 129, 158, 171, 206, 109, 129, 158, 222, 129, 158, 172, 201, 206, 129, 158, 178, 204, 207, 109, 129, 158, 221, 109, 129, 158, 201, 203, 207, 129, 158, 175, 182, 207, 110, 130, 163, 169, 174, 199, 202, 110, 130, 163, 169, 173, 199, 200, 202, 171, 199, 172, 202, 163, 169, 182, 199, 200, 202, 111, 131, 174, 201, 331, 362, 111, 131, 173, 194, 201, 331, 362, 111, 131, 176, 194, 201, 331, 362, 131, 194, 198, 331, 362, 111, 131, 179, 194, 201, 331, 362, 111, 131, 171, 188, 331, 362, 111, 131, 222, 331, 362, 131, 172, 188, 201, 331, 362, 131, 178, 194, 204, 331, 362, 111, 131, 221, 331, 362, 111, 131, 194, 201, 203, 331, 362, 131, 175, 182, 194, 331, 362, 112, 132, 152, 174, 201, 362, 112, 132, 152, 173, 195, 201, 362, 112, 132, 152, 176, 195, 201, 362, 132, 152, 195, 198, 362, 112, 132, 152, 179, 195, 201, 362, 112, 132, 152, 171, 189, 362, 112, 132, 152, 222, 362, 132, 152, 172, 189, 201, 362, 132, 152, 178, 195, 204, 362, 112, 132, 152, 221, 362, 112, 132, 152, 195, 201, 203, 362, 132, 152, 175, 182, 195, 362, 113, 133, 174, 201, 325, 326, 113, 133, 173, 201, 217, 325, 326, 113, 133, 176, 201, 217, 325, 326, 133, 198, 217, 325, 326, 113, 133, 179, 201, 217, 325, 326, 113, 133, 171, 216, 325, 326, 113, 133, 222, 325, 326, 133, 172, 201, 216, 325, 326, 133, 178, 204, 217, 325, 326, 113, 133, 221, 325, 326, 113, 133, 201, 203, 217, 325, 326, 133, 175, 182, 217, 325, 326, 114, 134, 174, 201, 114, 134, 173, 201, 209, 114, 134, 176, 201, 209, 134, 198, 209, 114, 134, 179, 201, 209, 114, 134, 171, 208, 114, 134, 222, 134, 172, 201, 208, 134, 178, 204, 209, 114, 134, 221, 114, 134, 201, 203, 209, 134, 175, 182, 209, 115, 135, 174, 201, 115, 135, 173, 192, 201, 115, 135, 176, 192, 201, 135, 192, 198, 115, 135, 179, 192, 201, 115, 135, 171, 186, 115, 135, 222, 135, 172, 186, 201, 135, 178, 192, 204, 115, 135, 221, 115, 135, 192, 201, 203, 135, 175, 182, 192, 116, 136, 174, 201, 116, 136, 173, 201, 178, 205, 117, 137, 176, 198, 201, 138, 160, 163, 169, 174, 138, 160, 163, 169, 173, 138, 160, 163, 169, 176, 201, 160, 163, 169, 179, 160, 163, 169, 183, 160, 169, 184, 197, 160, 163, 169, 171, 160, 163, 169, 178, 160, 163, 169, 180, 160, 163, 169, 181, 160, 163, 169, 182, 138, 163, 164, 169, 174, 138, 163, 164, 169, 173, 138, 163, 164, 169, 176, 201, 163, 164, 169, 179, 163, 164, 169, 183, 164, 169, 184, 197, 163, 164, 169, 171, 163, 164, 169, 178, 163, 164, 169, 180, 163, 164, 169, 181, 163, 164, 169, 182, 118, 138, 163, 167, 169, 174, 118, 138, 163, 167, 169, 173, 118, 138, 163, 167, 169, 176, 201, 118, 163, 167, 169, 179, 118, 163, 167, 169, 183, 118, 167, 169, 184, 197, 118, 163, 167, 169, 171, 118, 163, 167, 169, 178, 118, 163, 167, 169, 180, 118, 163, 167, 169, 181, 118, 163, 167, 169, 182, 138, 158, 174, 138, 158, 173, 138, 158, 176, 201, 158, 179, 158, 183, 158, 184, 197, 158, 171, 158, 178, 158, 180, 158, 181, 158, 182, 119, 138, 169, 174, 119, 138, 169, 173, 119, 138, 169, 176, 201, 119, 169, 179, 119, 169, 183, 119, 169, 184, 197, 119, 169, 171, 119, 169, 178, 119, 169, 180, 119, 169, 181, 119, 169, 182, 120, 138, 143, 174, 120, 138, 143, 173, 120, 138, 143, 176, 201, 120, 143, 179, 120, 143, 183, 120, 143, 184, 197, 120, 143, 171, 120, 143, 178, 120, 143, 180, 120, 143, 181, 120, 143, 182, 143, 145, 177, 179, 143, 145, 183, 143, 145, 184, 197, 141, 143, 177, 179, 141, 143, 184, 197, 121, 139, 174, 198, 121, 139, 173, 198, 121, 139, 176, 198, 201, 121, 179, 198, 121, 183, 198, 121, 171, 198, 121, 178, 198, 121, 180, 198, 121, 181, 198, 121, 182, 198, 122, 143, 174, 201, 122, 143, 173, 201, 211, 122, 143, 176, 201, 211, 122, 143, 179, 201, 211, 122, 143, 183, 122, 143, 122, 143, 171, 210, 122, 143, 178, 204, 211, 122, 143, 122, 143, 181, 122, 143, 182, 123, 139, 143, 174, 123, 139, 143, 173, 123, 139, 143, 176, 201, 123, 143, 179, 123, 143, 183, 123, 143, 171, 123, 143, 178, 123, 143, 180, 123, 143, 181, 123, 143, 182, 104, 124, 245, 292, 105, 125, 246, 293, 106, 126, 231, 294, 107, 127, 232, 295, 108, 128, 233, 296, 109, 129, 226, 297, 110, 130, 234, 298, 111, 131, 153, 227, 299, 112, 132, 152, 228, 300, 113, 133, 148, 229, 301, 114, 134, 235, 302, 115, 135, 236, 303, 116, 136, 237, 304, 117, 137, 238, 305, 163, 239, 306, 118, 240, 307, 119, 241, 308, 120, 247, 309, 121, 242, 310, 122, 248, 311, 123, 249, 312, 147, 230, 313, 138, 243, 314, 139, 244, 315, 316, 513, 316, 317, 318, 319, 515, 320, 517, 319, 320, 321, 322, 519, 334, 542, 334, 335, 336, 544, 337, 547, 337, 338, 339, 361, 549, 354, 564, 354, 356, 357, 361, 567, 358, 568, 358, 359, 360, 361, 570, 332, 362, 537, 540, 329, 362, 332, 363, 537, 540, 329, 363, 332, 537, 540, 573, 329, 573, 535, 537, 540, 624, 331, 333, 412, 535, 521, 523, 527, 325, 327, 521, 413, 626, 413, 416, 418, 633, 413, 417, 418, 633, 323, 414, 416, 537, 540, 624, 323, 414, 416, 535, 323, 415, 417, 523, 527, 323, 415, 417, 521, 326, 523, 529, 325, 328, 523, 529, 256, 276, 319, 367, 394, 256, 276, 319, 366, 386, 394, 256, 276, 319, 369, 386, 394, 276, 319, 386, 391, 256, 276, 319, 372, 386, 394, 256, 276, 319, 364, 380, 256, 276, 319, 415, 276, 319, 365, 380, 394, 276, 319, 371, 386, 397, 256, 276, 319, 414, 256, 276, 319, 386, 394, 396, 276, 319, 368, 375, 386, 257, 277, 319, 367, 394, 257, 277, 319, 366, 394, 406, 257, 277, 319, 369, 394, 406, 277, 319, 391, 406, 257, 277, 319, 372, 394, 406, 257, 277, 319, 364, 405, 257, 277, 319, 415, 277, 319, 365, 394, 405, 277, 319, 371, 397, 406, 257, 277, 319, 414, 257, 277, 319, 394, 396, 406, 277, 319, 368, 375, 406, 258, 278, 355, 361, 367, 394, 258, 278, 355, 361, 366, 384, 394, 258, 278, 355, 361, 369, 384, 394, 278, 355, 361, 384, 391, 258, 278, 355, 361, 372, 384, 394, 258, 278, 355, 361, 364, 378, 258, 278, 355, 361, 415, 278, 355, 361, 365, 378, 394, 278, 355, 361, 371, 384, 397, 258, 278, 355, 361, 414, 258, 278, 355, 361, 384, 394, 396, 278, 355, 361, 368, 375, 384, 259, 279, 355, 361, 367, 394, 259, 279, 355, 361, 366, 394, 408, 259, 279, 355, 361, 369, 394, 408, 279, 355, 361, 391, 408, 259, 279, 355, 361, 372, 394, 408, 259, 279, 355, 361, 364, 407, 259, 279, 355, 361, 415, 279, 355, 361, 365, 394, 407, 279, 355, 361, 371, 397, 408, 259, 279, 355, 361, 414, 259, 279, 355, 361, 394, 396, 408, 279, 355, 361, 368, 375, 408, 260, 280, 355, 361, 369, 389, 394, 261, 281, 336, 367, 394, 261, 281, 336, 366, 394, 400, 261, 281, 336, 369, 394, 400, 281, 336, 391, 400, 261, 281, 336, 372, 394, 400, 261, 281, 336, 364, 399, 261, 281, 336, 415, 281, 336, 365, 394, 399, 281, 336, 371, 397, 400, 261, 281, 336, 414, 261, 281, 336, 394, 396, 400, 281, 336, 368, 375, 400, 262, 282, 355, 361, 367, 392, 395, 262, 282, 355, 361, 366, 392, 393, 395, 364, 392, 365, 395, 355, 361, 375, 392, 393, 395, 263, 283, 367, 394, 537, 572, 263, 283, 366, 387, 394, 537, 572, 263, 283, 369, 387, 394, 537, 572, 283, 387, 391, 537, 572, 263, 283, 372, 387, 394, 537, 572, 263, 283, 364, 381, 537, 572, 263, 283, 415, 537, 572, 283, 365, 381, 394, 537, 572, 283, 371, 387, 397, 537, 572, 263, 283, 414, 537, 572, 263, 283, 387, 394, 396, 537, 572, 283, 368, 375, 387, 537, 572, 264, 284, 329, 367, 394, 572, 264, 284, 329, 366, 388, 394, 572, 264, 284, 329, 369, 388, 394, 572, 284, 329, 388, 391, 572, 264, 284, 329, 372, 388, 394, 572, 264, 284, 329, 364, 382, 572, 264, 284, 329, 415, 572, 284, 329, 365, 382, 394, 572, 284, 329, 371, 388, 397, 572, 264, 284, 329, 414, 572, 264, 284, 329, 388, 394, 396, 572, 284, 329, 368, 375, 388, 572, 265, 285, 367, 394, 523, 525, 265, 285, 366, 394, 410, 523, 525, 265, 285, 369, 394, 410, 523, 525, 285, 391, 410, 523, 525, 265, 285, 372, 394, 410, 523, 525, 265, 285, 364, 409, 523, 525, 265, 285, 415, 523, 525, 285, 365, 394, 409, 523, 525, 285, 371, 397, 410, 523, 525, 265, 285, 414, 523, 525, 265, 285, 394, 396, 410, 523, 525, 285, 368, 375, 410, 523, 525, 266, 286, 367, 394, 266, 286, 366, 394, 402, 266, 286, 369, 394, 402, 286, 391, 402, 266, 286, 372, 394, 402, 266, 286, 364, 401, 266, 286, 415, 286, 365, 394, 401, 286, 371, 397, 402, 266, 286, 414, 266, 286, 394, 396, 402, 286, 368, 375, 402, 267, 287, 367, 394, 267, 287, 366, 385, 394, 267, 287, 369, 385, 394, 287, 385, 391, 267, 287, 372, 385, 394, 267, 287, 364, 379, 267, 287, 415, 287, 365, 379, 394, 287, 371, 385, 397, 267, 287, 414, 267, 287, 385, 394, 396, 287, 368, 375, 385, 268, 288, 367, 394, 268, 288, 366, 394, 371, 398, 269, 289, 369, 391, 394, 290, 338, 355, 361, 367, 290, 338, 355, 361, 366, 290, 338, 355, 361, 369, 394, 338, 355, 361, 372, 338, 355, 361, 376, 338, 361, 377, 390, 338, 355, 361, 364, 338, 355, 361, 371, 338, 355, 361, 373, 338, 355, 361, 374, 338, 355, 361, 375, 290, 355, 356, 361, 367, 290, 355, 356, 361, 366, 290, 355, 356, 361, 369, 394, 355, 356, 361, 372, 355, 356, 361, 376, 356, 361, 377, 390, 355, 356, 361, 364, 355, 356, 361, 371, 355, 356, 361, 373, 355, 356, 361, 374, 355, 356, 361, 375, 270, 290, 355, 359, 361, 367, 270, 290, 355, 359, 361, 366, 270, 290, 355, 359, 361, 369, 394, 270, 355, 359, 361, 372, 270, 355, 359, 361, 376, 270, 359, 361, 377, 390, 270, 355, 359, 361, 364, 270, 355, 359, 361, 371, 270, 355, 359, 361, 373, 270, 355, 359, 361, 374, 270, 355, 359, 361, 375, 290, 336, 367, 290, 336, 366, 290, 336, 369, 394, 336, 372, 336, 376, 336, 377, 390, 336, 364, 336, 371, 336, 373, 336, 374, 336, 375, 271, 290, 361, 367, 271, 290, 361, 366, 271, 290, 361, 369, 394, 271, 361, 372, 271, 361, 376, 271, 361, 377, 390, 271, 361, 364, 271, 361, 371, 271, 361, 373, 271, 361, 374, 271, 361, 375, 272, 290, 319, 367, 272, 290, 319, 366, 272, 290, 319, 369, 394, 272, 319, 372, 272, 319, 376, 272, 319, 377, 390, 272, 319, 364, 272, 319, 371, 272, 319, 373, 272, 319, 374, 272, 319, 375, 319, 321, 370, 372, 319, 321, 376, 319, 321, 377, 390, 317, 319, 370, 372, 317, 319, 377, 390, 273, 291, 367, 391, 273, 291, 366, 391, 273, 291, 369, 391, 394, 273, 372, 391, 273, 376, 391, 273, 364, 391, 273, 371, 391, 273, 373, 391, 273, 374, 391, 273, 375, 391, 274, 319, 367, 394, 274, 319, 366, 394, 404, 274, 319, 369, 394, 404, 274, 319, 372, 394, 404, 274, 319, 376, 274, 319, 274, 319, 364, 403, 274, 319, 371, 397, 404, 274, 319, 274, 319, 374, 274, 319, 375, 275, 291, 319, 367, 275, 291, 319, 366, 275, 291, 319, 369, 394, 275, 319, 372, 275, 319, 376, 275, 319, 364, 275, 319, 371, 275, 319, 373, 275, 319, 374, 275, 319, 375, 250, 256, 276, 465, 251, 257, 277, 466, 258, 278, 340, 467, 259, 279, 341, 468, 260, 280, 342, 469, 252, 261, 281, 470, 262, 282, 343, 471, 263, 283, 330, 419, 472, 264, 284, 329, 420, 473, 265, 285, 324, 421, 474, 266, 286, 344, 475, 267, 287, 345, 476, 268, 288, 346, 477, 269, 289, 347, 478, 348, 355, 479, 270, 349, 480, 271, 350, 481, 253, 272, 482, 273, 351, 483, 254, 274, 484, 255, 275, 485, 323, 422, 486, 290, 352, 487, 291, 353, 488, 250, 256, 276, 292, 489, 251, 257, 277, 293, 490, 258, 278, 294, 340, 491, 259, 279, 295, 341, 492, 260, 280, 296, 342, 493, 252, 261, 281, 297, 494, 262, 282, 298, 343, 495, 263, 283, 299, 419, 496, 264, 284, 300, 420, 497, 265, 285, 301, 421, 498, 266, 286, 302, 344, 499, 267, 287, 303, 345, 500, 268, 288, 304, 346, 501, 269, 289, 305, 347, 502, 306, 348, 355, 503, 270, 307, 349, 504, 271, 308, 350, 505, 253, 272, 309, 506, 273, 310, 351, 507, 254, 274, 311, 508, 255, 275, 312, 509, 313, 323, 422, 510, 290, 314, 352, 511, 291, 315, 353, 512, 513, 622, 623, 513, 514, 515, 516, 517, 636, 638, 516, 517, 518, 519, 542, 543, 546, 542, 544, 545, 532, 547, 634, 547, 548, 549, 571, 533, 564, 635, 564, 566, 567, 571, 534, 568, 637, 568, 569, 570, 571, 538, 539, 541, 572, 531, 572, 538, 539, 541, 573, 531, 573, 539, 541, 531, 536, 538, 541, 625, 536, 537, 540, 624, 538, 541, 625, 522, 524, 528, 522, 523, 527, 524, 528, 626, 631, 632, 626, 629, 633, 626, 630, 633, 520, 538, 541, 625, 627, 629, 520, 536, 627, 629, 520, 524, 528, 628, 630, 520, 522, 628, 630, 524, 525, 530, 523, 524, 529, 530, 429, 449, 516, 577, 604, 429, 449, 516, 576, 596, 604, 429, 449, 516, 579, 596, 604, 449, 516, 596, 601, 429, 449, 516, 582, 596, 604, 429, 449, 516, 574, 590, 429, 449, 516, 628, 449, 516, 575, 590, 604, 449, 516, 581, 596, 607, 429, 449, 516, 627, 429, 449, 516, 596, 604, 606, 449, 516, 578, 585, 596, 430, 450, 516, 577, 604, 430, 450, 516, 576, 604, 616, 430, 450, 516, 579, 604, 616, 450, 516, 601, 616, 430, 450, 516, 582, 604, 616, 430, 450, 516, 574, 615, 430, 450, 516, 628, 450, 516, 575, 604, 615, 450, 516, 581, 607, 616, 430, 450, 516, 627, 430, 450, 516, 604, 606, 616, 450, 516, 578, 585, 616, 431, 451, 565, 571, 577, 604, 431, 451, 565, 571, 576, 594, 604, 431, 451, 565, 571, 579, 594, 604, 451, 565, 571, 594, 601, 431, 451, 565, 571, 582, 594, 604, 431, 451, 565, 571, 574, 588, 431, 451, 565, 571, 628, 451, 565, 571, 575, 588, 604, 451, 565, 571, 581, 594, 607, 431, 451, 565, 571, 627, 431, 451, 565, 571, 594, 604, 606, 451, 565, 571, 578, 585, 594, 432, 452, 565, 571, 577, 604, 432, 452, 565, 571, 576, 604, 618, 432, 452, 565, 571, 579, 604, 618, 452, 565, 571, 601, 618, 432, 452, 565, 571, 582, 604, 618, 432, 452, 565, 571, 574, 617, 432, 452, 565, 571, 628, 452, 565, 571, 575, 604, 617, 452, 565, 571, 581, 607, 618, 432, 452, 565, 571, 627, 432, 452, 565, 571, 604, 606, 618, 452, 565, 571, 578, 585, 618, 433, 453, 565, 571, 579, 599, 604, 434, 454, 545, 577, 604, 434, 454, 545, 576, 604, 610, 434, 454, 545, 579, 604, 610, 454, 545, 601, 610, 434, 454, 545, 582, 604, 610, 434, 454, 545, 574, 609, 434, 454, 545, 628, 454, 545, 575, 604, 609, 454, 545, 581, 607, 610, 434, 454, 545, 627, 434, 454, 545, 604, 606, 610, 454, 545, 578, 585, 610, 435, 455, 565, 571, 577, 602, 605, 435, 455, 565, 571, 576, 602, 603, 605, 574, 602, 575, 605, 565, 571, 585, 602, 603, 605, 436, 456, 538, 577, 604, 436, 456, 538, 576, 597, 604, 436, 456, 538, 579, 597, 604, 456, 538, 597, 601, 436, 456, 538, 582, 597, 604, 436, 456, 538, 574, 591, 436, 456, 538, 628, 456, 538, 575, 591, 604, 456, 538, 581, 597, 607, 436, 456, 538, 627, 436, 456, 538, 597, 604, 606, 456, 538, 578, 585, 597, 437, 457, 531, 577, 604, 437, 457, 531, 576, 598, 604, 437, 457, 531, 579, 598, 604, 457, 531, 598, 601, 437, 457, 531, 582, 598, 604, 437, 457, 531, 574, 592, 437, 457, 531, 628, 457, 531, 575, 592, 604, 457, 531, 581, 598, 607, 437, 457, 531, 627, 437, 457, 531, 598, 604, 606, 457, 531, 578, 585, 598, 438, 458, 524, 577, 604, 438, 458, 524, 576, 604, 620, 438, 458, 524, 579, 604, 620, 458, 524, 601, 620, 438, 458, 524, 582, 604, 620, 438, 458, 524, 574, 619, 438, 458, 524, 628, 458, 524, 575, 604, 619, 458, 524, 581, 607, 620, 438, 458, 524, 627, 438, 458, 524, 604, 606, 620, 458, 524, 578, 585, 620, 439, 459, 577, 604, 439, 459, 576, 604, 612, 439, 459, 579, 604, 612, 459, 601, 612, 439, 459, 582, 604, 612, 439, 459, 574, 611, 439, 459, 628, 459, 575, 604, 611, 459, 581, 607, 612, 439, 459, 627, 439, 459, 604, 606, 612, 459, 578, 585, 612, 440, 460, 577, 604, 440, 460, 576, 595, 604, 440, 460, 579, 595, 604, 460, 595, 601, 440, 460, 582, 595, 604, 440, 460, 574, 589, 440, 460, 628, 460, 575, 589, 604, 460, 581, 595, 607, 440, 460, 627, 440, 460, 595, 604, 606, 460, 578, 585, 595, 441, 461, 577, 604, 441, 461, 576, 604, 581, 608, 442, 462, 579, 601, 604, 463, 548, 565, 571, 577, 463, 548, 565, 571, 576, 463, 548, 565, 571, 579, 604, 548, 565, 571, 582, 548, 565, 571, 586, 548, 571, 587, 600, 548, 565, 571, 574, 548, 565, 571, 581, 548, 565, 571, 583, 548, 565, 571, 584, 548, 565, 571, 585, 463, 565, 566, 571, 577, 463, 565, 566, 571, 576, 463, 565, 566, 571, 579, 604, 565, 566, 571, 582, 565, 566, 571, 586, 566, 571, 587, 600, 565, 566, 571, 574, 565, 566, 571, 581, 565, 566, 571, 583, 565, 566, 571, 584, 565, 566, 571, 585, 443, 463, 565, 569, 571, 577, 443, 463, 565, 569, 571, 576, 443, 463, 565, 569, 571, 579, 604, 443, 565, 569, 571, 582, 443, 565, 569, 571, 586, 443, 569, 571, 587, 600, 443, 565, 569, 571, 574, 443, 565, 569, 571, 581, 443, 565, 569, 571, 583, 443, 565, 569, 571, 584, 443, 565, 569, 571, 585, 463, 545, 577, 463, 545, 576, 463, 545, 579, 604, 545, 582, 545, 586, 545, 587, 600, 545, 574, 545, 581, 545, 583, 545, 584, 545, 585, 444, 463, 571, 577, 444, 463, 571, 576, 444, 463, 571, 579, 604, 444, 571, 582, 444, 571, 586, 444, 571, 587, 600, 444, 571, 574, 444, 571, 581, 444, 571, 583, 444, 571, 584, 444, 571, 585, 445, 463, 516, 577, 445, 463, 516, 576, 445, 463, 516, 579, 604, 445, 516, 582, 445, 516, 586, 445, 516, 587, 600, 445, 516, 574, 445, 516, 581, 445, 516, 583, 445, 516, 584, 445, 516, 585, 516, 518, 580, 582, 516, 518, 586, 516, 518, 587, 600, 514, 516, 580, 582, 514, 516, 587, 600, 446, 464, 577, 601, 446, 464, 576, 601, 446, 464, 579, 601, 604, 446, 582, 601, 446, 586, 601, 446, 574, 601, 446, 581, 601, 446, 583, 601, 446, 584, 601, 446, 585, 601, 447, 516, 577, 604, 447, 516, 576, 604, 614, 447, 516, 579, 604, 614, 447, 516, 582, 604, 614, 447, 516, 586, 447, 516, 447, 516, 574, 613, 447, 516, 581, 607, 614, 447, 516, 447, 516, 584, 447, 516, 585, 448, 464, 516, 577, 448, 464, 516, 576, 448, 464, 516, 579, 604, 448, 516, 582, 448, 516, 586, 448, 516, 574, 448, 516, 581, 448, 516, 583, 448, 516, 584, 448, 516, 585, 423, 429, 449, 424, 430, 450, 431, 451, 550, 432, 452, 551, 433, 453, 552, 425, 434, 454, 435, 455, 553, 436, 456, 535, 536, 639, 437, 457, 531, 640, 438, 458, 521, 522, 641, 439, 459, 554, 440, 460, 555, 441, 461, 556, 442, 462, 557, 558, 565, 443, 559, 444, 560, 426, 445, 446, 561, 427, 447, 428, 448, 520, 642, 463, 562, 464, 563, 423, 429, 449, 465, 424, 430, 450, 466, 431, 451, 467, 550, 432, 452, 468, 551, 433, 453, 469, 552, 425, 434, 454, 470, 435, 455, 471, 553, 436, 456, 472, 639, 437, 457, 473, 640, 438, 458, 474, 641, 439, 459, 475, 554, 440, 460, 476, 555, 441, 461, 477, 556, 442, 462, 478, 557, 479, 558, 565, 443, 480, 559, 444, 481, 560, 426, 445, 482, 446, 483, 561, 427, 447, 484, 428, 448, 485, 486, 520, 642, 463, 487, 562, 464, 488, 563, 423, 429, 449, 489, 424, 430, 450, 490, 431, 451, 491, 550, 432, 452, 492, 551, 433, 453, 493, 552, 425, 434, 454, 494, 435, 455, 495, 553, 436, 456, 496, 639, 437, 457, 497, 640, 438, 458, 498, 641, 439, 459, 499, 554, 440, 460, 500, 555, 441, 461, 501, 556, 442, 462, 502, 557, 503, 558, 565, 443, 504, 559, 444, 505, 560, 426, 445, 506, 446, 507, 561, 427, 447, 508, 428, 448, 509, 510, 520, 642, 463, 511, 562, 464, 512, 563, 524, 530};
pfloat lp_bnl1_Apr[5532] = {-1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000222e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000222e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000222e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000222e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.280000000000000027e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.110000000000000098e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000222e+00, 1.000000000000000000e+00, -1.060000000000000053e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.199999999999999956e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.149999999999999911e+00, -9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 3.640000000000000180e-02, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.500000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.500000000000000000e+00, 2.443999999999999992e-02, 1.600000000000000077e-03, 2.350000000000000144e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.778000000000000067e-02, 1.100000000000000066e-03, 2.240000000000000324e-01, 9.999999999999998890e-01, 4.000000000000000083e-02, 2.099999999999999870e-03, 2.590000000000000635e-01, 3.640000000000000180e-02, -1.000000000000000000e+00, 4.000000000000000083e-02, 2.099999999999999870e-03, 2.590000000000000635e-01, 1.000000000000000000e+00, -2.747000000000001108e-01, -2.198000000000000231e-01, -3.149999999999999911e+00, 1.050000000000000044e+00, 5.000000000000000278e-02, -4.396000000000000463e-01, -2.198000000000000231e-01, -3.149999999999999911e+00, 1.100000000000000311e+00, -5.999999999999999778e-01, 1.000000000000000056e-01, -2.197800000000000420e+00, -2.197999999999999676e-01, -3.149999999999999911e+00, 1.000000000000000000e+00, -6.999999999999998224e+00, -9.999999999999996669e-01, -2.198000000000000231e-01, -3.149999999999999911e+00, 9.999999999999998890e-01, -1.000000000000000000e+00, -2.930000000000000382e-01, -2.198000000000000231e-01, -3.149999999999999911e+00, 1.050000000000000044e+00, -7.000000000000000666e-02, 5.000000000000000278e-02, -5.233000000000003205e-01, -2.198000000000000231e-01, -3.149999999999999911e+00, 1.600000000000000089e+00, -9.999999999999997780e-01, -2.747000000000001108e-01, -2.198000000000000231e-01, -3.149999999999999911e+00, -1.000000000000000000e+00, -2.197999999999999954e-01, -3.149999999999999911e+00, 3.600000000000000533e+00, 1.250000000000000000e+00, 1.999999999999999833e-01, -2.198000000000000231e-01, -3.149999999999999911e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, -2.747000000000001108e-01, -2.198000000000000231e-01, -3.149999999999999911e+00, -1.000000000000000000e+00, -4.396000000000000463e-01, -2.198000000000000231e-01, -3.149999999999999911e+00, -5.999999999999999778e-01, 1.000000000000000056e-01, 1.000000000000000000e+00, -2.198000000000000231e-01, -3.149999999999999911e+00, 5.999999999999999778e-01, 6.000000000000000888e-01, 9.999999999999998890e-01, -2.746999999999999997e-01, -2.197999999999999954e-01, -3.240000000000000213e+00, 1.050000000000000044e+00, 5.000000000000000971e-02, -4.395999999999999353e-01, -2.197999999999999954e-01, -3.240000000000000213e+00, 1.100000000000000089e+00, 1.000000000000000194e-01, -6.000000000000000888e-01, -2.197800000000000420e+00, -2.197999999999999676e-01, -3.240000000000000657e+00, 1.000000000000000000e+00, -9.999999999999996669e-01, -6.999999999999998224e+00, -2.197999999999999954e-01, -3.240000000000000213e+00, -9.999999999999998890e-01, 1.000000000000000000e+00, -2.929999999999999827e-01, -2.197999999999999954e-01, -3.240000000000000213e+00, 1.050000000000000044e+00, 5.000000000000000971e-02, -7.000000000000002054e-02, -5.233000000000000984e-01, -2.197999999999999954e-01, -3.240000000000000213e+00, 1.600000000000000089e+00, -1.000000000000000000e+00, -2.746999999999999997e-01, -2.197999999999999954e-01, -3.240000000000000213e+00, -1.000000000000000222e+00, -2.197999999999999954e-01, -3.239999999999999769e+00, 3.600000000000000533e+00, 1.999999999999999833e-01, 1.250000000000000000e+00, -2.197999999999999954e-01, -3.240000000000000213e+00, 1.000000000000000222e+00, 1.000000000000000222e+00, 1.000000000000000000e+00, -2.746999999999999997e-01, -2.197999999999999954e-01, -3.240000000000000213e+00, -1.000000000000000222e+00, -4.395999999999999353e-01, -2.197999999999999954e-01, -3.240000000000000213e+00, 1.000000000000000194e-01, 1.000000000000000222e+00, -6.000000000000000888e-01, -2.197999999999999954e-01, -3.240000000000000213e+00, 5.999999999999999778e-01, 5.999999999999998668e-01, 1.000000000000000000e+00, -2.746999999999999997e-01, -2.197999999999999121e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 1.049999999999999822e+00, 4.999999999999999584e-02, -4.395999999999999353e-01, -2.197999999999999121e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 1.100000000000000089e+00, -5.999999999999999778e-01, 9.999999999999999167e-02, -2.197800000000000420e+00, -2.198000000000000231e-01, 7.066999999999998838e-01, -3.180000000000000604e+00, 1.000000000000000000e+00, -6.999999999999998224e+00, -9.999999999999996669e-01, -2.197999999999999121e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 9.999999999999997780e-01, -9.999999999999997780e-01, -2.929999999999999827e-01, -2.197999999999999121e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 1.049999999999999822e+00, -6.999999999999999278e-02, 4.999999999999999584e-02, -5.232999999999999874e-01, -2.197999999999999121e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 1.599999999999999867e+00, -9.999999999999998890e-01, -2.746999999999999997e-01, -2.197999999999999121e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, -9.999999999999998890e-01, -2.198000000000000231e-01, 7.066999999999998838e-01, -3.179999999999999716e+00, 3.600000000000000533e+00, 1.250000000000000000e+00, 1.999999999999999833e-01, -2.197999999999999121e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 9.999999999999998890e-01, 9.999999999999997780e-01, 9.999999999999998890e-01, -2.746999999999999997e-01, -2.197999999999999121e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, -9.999999999999998890e-01, -4.395999999999999353e-01, -2.197999999999999121e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, -5.999999999999999778e-01, 9.999999999999999167e-02, 9.999999999999998890e-01, -2.197999999999999121e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 5.999999999999998668e-01, 5.999999999999998668e-01, 9.999999999999997780e-01, -2.746999999999999997e-01, -2.197999999999999121e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 1.049999999999999822e+00, 4.999999999999999584e-02, -4.395999999999999353e-01, -2.197999999999999121e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 1.100000000000000089e+00, 9.999999999999999167e-02, -5.999999999999999778e-01, -2.197800000000000420e+00, -2.198000000000000231e-01, 7.066999999999998838e-01, -3.180000000000000604e+00, 1.000000000000000000e+00, -9.999999999999996669e-01, -6.999999999999998224e+00, -2.197999999999999121e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, -9.999999999999997780e-01, 9.999999999999997780e-01, -2.929999999999999827e-01, -2.197999999999999121e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 1.049999999999999822e+00, 4.999999999999999584e-02, -6.999999999999999278e-02, -5.232999999999999874e-01, -2.197999999999999121e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 1.599999999999999867e+00, -9.999999999999995559e-01, -2.746999999999999997e-01, -2.197999999999999121e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, -9.999999999999998890e-01, -2.198000000000000231e-01, 7.066999999999998838e-01, -3.179999999999999716e+00, 3.600000000000000533e+00, 1.999999999999999833e-01, 1.250000000000000000e+00, -2.197999999999999121e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999997780e-01, -2.746999999999999997e-01, -2.197999999999999121e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, -9.999999999999998890e-01, -4.395999999999999353e-01, -2.197999999999999121e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 9.999999999999999167e-02, 9.999999999999998890e-01, -5.999999999999999778e-01, -2.197999999999999121e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 5.999999999999998668e-01, 5.999999999999998668e-01, 9.999999999999997780e-01, -2.197800000000000420e+00, -2.197999999999999676e-01, 1.073299999999999921e+00, -4.830000000000000071e+00, -1.000000000000000000e+00, -6.999999999999998224e+00, -9.999999999999996669e-01, -2.747000000000000552e-01, -2.198000000000000231e-01, -3.180000000000000604e+00, 1.050000000000000044e+00, 5.000000000000000971e-02, -4.396000000000000463e-01, -2.198000000000000231e-01, -3.180000000000000604e+00, 1.100000000000000311e+00, 1.000000000000000194e-01, -6.000000000000001998e-01, -2.197800000000000420e+00, -2.197999999999999954e-01, -3.180000000000000604e+00, 1.000000000000000000e+00, -9.999999999999996669e-01, -6.999999999999998224e+00, -2.198000000000000231e-01, -3.180000000000000604e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -2.929999999999999827e-01, -2.198000000000000231e-01, -3.180000000000000604e+00, 1.050000000000000044e+00, 5.000000000000000971e-02, -7.000000000000000666e-02, -5.233000000000000984e-01, -2.198000000000000231e-01, -3.180000000000000604e+00, 1.600000000000000089e+00, -9.999999999999998890e-01, -2.747000000000000552e-01, -2.198000000000000231e-01, -3.180000000000000604e+00, -1.000000000000000222e+00, -2.197999999999999954e-01, -3.179999999999999716e+00, 3.600000000000000533e+00, 1.999999999999999833e-01, 1.250000000000000000e+00, -2.198000000000000231e-01, -3.180000000000000604e+00, 1.000000000000000222e+00, 1.000000000000000222e+00, 1.000000000000000000e+00, -2.747000000000000552e-01, -2.198000000000000231e-01, -3.180000000000000604e+00, -1.000000000000000222e+00, -4.396000000000000463e-01, -2.198000000000000231e-01, -3.180000000000000604e+00, 1.000000000000000194e-01, 1.000000000000000222e+00, -6.000000000000001998e-01, -2.198000000000000231e-01, -3.180000000000000604e+00, 6.000000000000000888e-01, 5.999999999999999778e-01, 1.000000000000000000e+00, -2.746999999999999997e-01, -2.197999999999999954e-01, 9.778000000000002245e-01, -4.400000000000001243e+00, 1.000000000000000222e+00, -2.000000000000000000e+00, -2.000000000000000888e+00, -4.395999999999999908e-01, -2.197999999999999954e-01, 9.778000000000002245e-01, -4.400000000000001243e+00, 1.000000000000000000e+00, -2.000000000000000000e+00, -8.000000000000000444e-01, -2.000000000000000888e+00, 1.000000000000000000e+00, 2.000000000000000000e+00, 1.500000000000000000e+00, 2.500000000000000000e+00, 9.778000000000002245e-01, -4.400000000000001243e+00, 5.999999999999999778e-01, -2.000000000000000000e+00, 1.000000000000000000e+00, -2.000000000000000888e+00, -2.747000000000000552e-01, -2.197999999999999954e-01, 1.050000000000000044e+00, 4.999999999999999584e-02, -3.550000000000000711e+01, -5.849999999999998757e+00, -4.396000000000000463e-01, -2.197999999999999954e-01, 1.100000000000000311e+00, -5.999999999999999778e-01, 9.999999999999999167e-02, -3.550000000000000711e+01, -5.849999999999998757e+00, -2.197799999999999976e+00, -2.197999999999999954e-01, 1.000000000000000000e+00, -6.999999999999999112e+00, -9.999999999999997780e-01, -3.550000000000000711e+01, -5.849999999999998757e+00, -2.197999999999999954e-01, 1.000000000000000000e+00, -9.999999999999998890e-01, -3.550000000000000711e+01, -5.849999999999998757e+00, -2.930000000000000382e-01, -2.197999999999999954e-01, 1.050000000000000044e+00, -7.000000000000000666e-02, 4.999999999999999584e-02, -3.550000000000000711e+01, -5.849999999999998757e+00, -5.233000000000000984e-01, -2.197999999999999954e-01, 1.600000000000000089e+00, -9.999999999999998890e-01, -3.550000000000000711e+01, -5.849999999999998757e+00, -2.747000000000000552e-01, -2.197999999999999954e-01, -1.000000000000000000e+00, -3.550000000000000711e+01, -5.849999999999998757e+00, -2.197999999999999954e-01, 3.600000000000000089e+00, 1.250000000000000000e+00, 1.999999999999999833e-01, -3.550000000000000711e+01, -5.849999999999998757e+00, -2.197999999999999954e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -3.550000000000000711e+01, -5.849999999999998757e+00, -2.747000000000000552e-01, -2.197999999999999954e-01, -1.000000000000000000e+00, -3.550000000000000711e+01, -5.849999999999998757e+00, -4.396000000000000463e-01, -2.197999999999999954e-01, -5.999999999999999778e-01, 9.999999999999999167e-02, 1.000000000000000000e+00, -3.550000000000000711e+01, -5.849999999999998757e+00, -2.197999999999999954e-01, 5.999999999999999778e-01, 5.999999999999999778e-01, 1.000000000000000000e+00, -3.550000000000000711e+01, -5.849999999999998757e+00, -2.746999999999999997e-01, -2.197999999999999676e-01, 1.049999999999999822e+00, 4.999999999999998890e-02, -9.999999999999998890e-01, -9.999999999999998890e-01, -4.396000000000001018e-01, -2.197999999999999954e-01, 1.100000000000000089e+00, 9.999999999999999167e-02, -5.999999999999999778e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -2.197800000000000420e+00, -2.197999999999999676e-01, 1.000000000000000000e+00, -9.999999999999996669e-01, -6.999999999999998224e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -2.197999999999999954e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -2.930000000000000382e-01, -2.197999999999999676e-01, 1.049999999999999822e+00, 4.999999999999998890e-02, -6.999999999999999278e-02, -9.999999999999998890e-01, -9.999999999999998890e-01, -5.233000000000000984e-01, -2.197999999999999954e-01, 1.600000000000000089e+00, -9.999999999999996669e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -2.747000000000000552e-01, -2.197999999999999954e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -2.197999999999999954e-01, 3.600000000000000533e+00, 1.999999999999999833e-01, 1.250000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -2.197999999999999954e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -2.747000000000000552e-01, -2.197999999999999954e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -4.396000000000000463e-01, -2.197999999999999954e-01, 9.999999999999999167e-02, 1.000000000000000000e+00, -5.999999999999999778e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -2.197999999999999954e-01, 5.999999999999999778e-01, 5.999999999999999778e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -2.746999999999999997e-01, -2.197999999999999676e-01, 1.049999999999999822e+00, 4.999999999999998890e-02, -4.396000000000001018e-01, -2.197999999999999954e-01, 1.100000000000000089e+00, 9.999999999999999167e-02, -5.999999999999999778e-01, -2.197800000000000420e+00, -2.197999999999999676e-01, 1.000000000000000000e+00, -9.999999999999996669e-01, -6.999999999999998224e+00, -2.197999999999999954e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, -2.930000000000000382e-01, -2.197999999999999676e-01, 1.049999999999999822e+00, 4.999999999999998890e-02, -6.999999999999999278e-02, -5.233000000000000984e-01, -2.197999999999999954e-01, 1.600000000000000089e+00, -9.999999999999996669e-01, -2.747000000000000552e-01, -2.197999999999999954e-01, -1.000000000000000000e+00, -2.197999999999999954e-01, 3.600000000000000533e+00, 1.999999999999999833e-01, 1.250000000000000000e+00, -2.197999999999999954e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.747000000000000552e-01, -2.197999999999999954e-01, -1.000000000000000000e+00, -4.396000000000000463e-01, -2.197999999999999954e-01, 9.999999999999999167e-02, 1.000000000000000000e+00, -5.999999999999999778e-01, -2.197999999999999954e-01, 5.999999999999999778e-01, 5.999999999999999778e-01, 1.000000000000000000e+00, -2.746999999999999997e-01, -2.197999999999999676e-01, 1.049999999999999822e+00, 4.999999999999998890e-02, -4.396000000000001018e-01, -2.197999999999999954e-01, 1.100000000000000089e+00, -5.999999999999999778e-01, 9.999999999999999167e-02, -2.197800000000000420e+00, -2.197999999999999676e-01, 1.000000000000000000e+00, -6.999999999999998224e+00, -9.999999999999996669e-01, -2.197999999999999954e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, -2.930000000000000382e-01, -2.197999999999999676e-01, 1.049999999999999822e+00, -6.999999999999999278e-02, 4.999999999999998890e-02, -5.233000000000000984e-01, -2.197999999999999954e-01, 1.600000000000000089e+00, -9.999999999999996669e-01, -2.747000000000000552e-01, -2.197999999999999954e-01, -1.000000000000000000e+00, -2.197999999999999954e-01, 3.600000000000000533e+00, 1.250000000000000000e+00, 1.999999999999999833e-01, -2.197999999999999954e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.747000000000000552e-01, -2.197999999999999954e-01, -1.000000000000000000e+00, -4.396000000000000463e-01, -2.197999999999999954e-01, -5.999999999999999778e-01, 9.999999999999999167e-02, 1.000000000000000000e+00, -2.197999999999999954e-01, 5.999999999999999778e-01, 5.999999999999999778e-01, 1.000000000000000000e+00, -2.746999999999999997e-01, -2.197999999999999676e-01, 1.049999999999999822e+00, 4.999999999999998890e-02, -4.395999999999999908e-01, -2.197999999999999954e-01, 1.100000000000000089e+00, 9.999999999999999167e-02, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.197799999999999976e+00, -2.197999999999999954e-01, -1.000000000000000000e+00, 1.470000000000000195e+00, -9.999999999999997780e-01, 3.419000000000000372e-01, -2.439999999999999947e+00, 5.422000000000000153e-01, -2.439999999999999947e+00, 1.000000000000000000e+00, 6.172999999999999599e-01, -2.439999999999999947e+00, 5.422000000000000153e-01, -2.439999999999999947e+00, 1.000000000000000000e+00, 2.222199999999999953e+00, -2.439999999999999947e+00, 5.422000000000000153e-01, -2.439999999999999947e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.099999999999999867e+00, 2.443999999999999229e-01, -1.099999999999999867e+00, 6.999999999999998446e-01, -1.099999999999999867e+00, 2.443999999999999229e-01, -1.099999999999999867e+00, 1.000000000000000000e+00, -1.099999999999999867e+00, -1.099999999999999867e+00, 1.000000000000000000e+00, 9.999999999999997780e-01, -1.099999999999999867e+00, 2.443999999999999229e-01, -1.099999999999999867e+00, 7.000000000000000666e-01, -1.099999999999999867e+00, 2.443999999999999229e-01, -1.099999999999999867e+00, 6.999999999999999556e-01, -1.099999999999999867e+00, 2.443999999999999229e-01, -1.099999999999999867e+00, 2.000000000000000111e-01, -1.099999999999999867e+00, 2.443999999999999229e-01, -1.099999999999999867e+00, 2.000000000000000111e-01, -1.099999999999999867e+00, 2.443999999999999229e-01, -1.099999999999999867e+00, 2.400000000000000189e-01, 3.419000000000000372e-01, 5.422000000000000153e-01, -2.439999999999999947e+00, -2.439999999999999947e+00, 1.000000000000000000e+00, 6.172999999999999599e-01, 5.422000000000000153e-01, -2.439999999999999947e+00, -2.439999999999999947e+00, 1.000000000000000000e+00, 2.222199999999999953e+00, 5.422000000000000153e-01, -2.439999999999999947e+00, -2.439999999999999947e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 2.443999999999999229e-01, -1.099999999999999867e+00, -1.099999999999999867e+00, 6.999999999999998446e-01, 2.443999999999999229e-01, -1.099999999999999867e+00, -1.099999999999999867e+00, 1.000000000000000000e+00, -1.099999999999999867e+00, -1.099999999999999867e+00, 1.000000000000000000e+00, 9.999999999999997780e-01, 2.443999999999999229e-01, -1.099999999999999867e+00, -1.099999999999999867e+00, 7.000000000000000666e-01, 2.443999999999999229e-01, -1.099999999999999867e+00, -1.099999999999999867e+00, 6.999999999999999556e-01, 2.443999999999999229e-01, -1.099999999999999867e+00, -1.099999999999999867e+00, 2.000000000000000111e-01, 2.443999999999999229e-01, -1.099999999999999867e+00, -1.099999999999999867e+00, 2.000000000000000111e-01, 2.443999999999999229e-01, -1.099999999999999867e+00, -1.099999999999999867e+00, 2.400000000000000189e-01, -5.422000000000000153e-01, 3.419000000000000372e-01, 6.421999999999998820e-01, -2.890000000000000124e+00, -2.889999999999999680e+00, 9.999999999999998890e-01, -5.422000000000000153e-01, 6.172999999999999599e-01, 6.421999999999998820e-01, -2.890000000000000124e+00, -2.889999999999999680e+00, 1.000000000000000000e+00, -5.422000000000000153e-01, 2.222199999999999953e+00, 6.421999999999998820e-01, -2.890000000000000124e+00, -2.889999999999999680e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -2.444000000000000339e-01, 2.889000000000000457e-01, -1.300000000000000044e+00, -1.300000000000000266e+00, 6.999999999999999556e-01, -2.444000000000000339e-01, 2.889000000000000457e-01, -1.300000000000000044e+00, -1.300000000000000266e+00, 1.000000000000000000e+00, -2.444000000000000339e-01, -1.300000000000000044e+00, -1.300000000000000266e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, -2.444000000000000339e-01, 2.889000000000000457e-01, -1.300000000000000044e+00, -1.300000000000000266e+00, 6.999999999999999556e-01, -2.444000000000000339e-01, 2.889000000000000457e-01, -1.300000000000000044e+00, -1.300000000000000266e+00, 6.999999999999998446e-01, -2.444000000000000339e-01, 2.889000000000000457e-01, -1.300000000000000044e+00, -1.300000000000000266e+00, 2.000000000000000666e-01, -2.444000000000000339e-01, 2.889000000000000457e-01, -1.300000000000000044e+00, -1.300000000000000266e+00, 2.000000000000000389e-01, -2.444000000000000339e-01, 2.889000000000000457e-01, -1.300000000000000044e+00, -1.300000000000000266e+00, 2.400000000000000189e-01, 3.419000000000000372e-01, -2.440000000000000391e+00, 1.000000000000000222e+00, 6.172999999999999599e-01, -2.440000000000000391e+00, 1.000000000000000000e+00, 2.222200000000000397e+00, -2.439999999999999947e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.099999999999999867e+00, 7.999999999999999334e-01, -1.099999999999999867e+00, 1.000000000000000000e+00, -1.099999999999999867e+00, 9.999999999999998890e-01, -5.570000000000000284e+00, -1.099999999999999867e+00, 8.000000000000000444e-01, -1.099999999999999867e+00, 5.999999999999999778e-01, -1.099999999999999867e+00, 2.000000000000000111e-01, -1.099999999999999867e+00, 2.000000000000000111e-01, -1.099999999999999867e+00, 2.000000000000000111e-01, -4.889000000000000012e-01, 3.418999999999999817e-01, -2.799999999999999822e+00, 1.000000000000000000e+00, -4.889000000000000012e-01, 6.173000000000000709e-01, -2.799999999999999822e+00, 9.999999999999998890e-01, -4.889000000000000012e-01, 2.222199999999999953e+00, -2.799999999999999378e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -2.221999999999999809e-01, -1.260000000000000009e+00, 8.000000000000000444e-01, -2.221999999999999809e-01, -1.260000000000000009e+00, 1.000000000000000000e+00, -2.221999999999999809e-01, -1.260000000000000231e+00, 9.999999999999998890e-01, -5.570000000000000284e+00, -2.221999999999999809e-01, -1.260000000000000009e+00, 7.999999999999999334e-01, -2.221999999999999809e-01, -1.260000000000000009e+00, 5.999999999999998668e-01, -2.221999999999999809e-01, -1.260000000000000009e+00, 2.000000000000000389e-01, -2.221999999999999809e-01, -1.260000000000000009e+00, 2.000000000000000111e-01, -2.221999999999999809e-01, -1.260000000000000009e+00, 2.000000000000000111e-01, -4.937999999999999057e-01, 3.418999999999999262e-01, -3.299999999999998934e+00, 9.999999999999998890e-01, -4.937999999999999057e-01, 6.172999999999998488e-01, -3.299999999999998934e+00, 1.000000000000000000e+00, -4.938000000000000167e-01, 2.222199999999999953e+00, -3.299999999999999822e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -2.222000000000000086e-01, -1.499999999999999778e+00, 7.999999999999999334e-01, -2.222000000000000086e-01, -1.499999999999999778e+00, 9.999999999999998890e-01, -2.221999999999999809e-01, -1.500000000000000000e+00, 9.999999999999998890e-01, -5.570000000000000284e+00, -2.222000000000000086e-01, -1.499999999999999778e+00, 7.999999999999999334e-01, -2.222000000000000086e-01, -1.499999999999999778e+00, 5.999999999999999778e-01, -2.222000000000000086e-01, -1.499999999999999778e+00, 2.000000000000000666e-01, -2.222000000000000086e-01, -1.499999999999999778e+00, 1.999999999999999833e-01, -2.222000000000000086e-01, -1.499999999999999778e+00, 2.000000000000000111e-01, -1.030000000000000027e+00, -1.029999999999999805e+00, 9.999999999999998890e-01, 6.999999999999998446e-01, -1.239999999999999991e+00, -1.239999999999999547e+00, 8.300000000000000711e-01, -1.030000000000000027e+00, -1.029999999999999805e+00, 6.500000000000000222e-01, 6.500000000000001332e-01, -1.030000000000000027e+00, -1.030000000000000027e+00, 1.000000000000000000e+00, 6.999999999999999556e-01, -1.030000000000000027e+00, -1.030000000000000027e+00, 6.500000000000000222e-01, 6.500000000000000222e-01, -4.022000000000000575e-01, 3.418999999999999817e-01, 1.000000000000000000e+00, 2.419999999999999929e+00, -4.022000000000000575e-01, 6.173000000000000709e-01, 1.000000000000000000e+00, 2.419999999999999929e+00, -4.022000000000000575e-01, 2.222199999999999509e+00, -1.000000000000000000e+00, 2.419999999999999929e+00, -9.999999999999998890e-01, -2.221999999999999809e-01, 7.999999999999998224e-01, 1.330000000000000071e+00, -2.221999999999999809e-01, 2.700000000000000178e-01, 1.330000000000000071e+00, -2.221999999999999809e-01, 8.000000000000000444e-01, 1.330000000000000071e+00, -2.221999999999999809e-01, 5.999999999999998668e-01, 1.330000000000000071e+00, -2.221999999999999809e-01, 2.000000000000000111e-01, 1.330000000000000071e+00, -2.221999999999999809e-01, 2.500000000000000000e-01, 1.330000000000000071e+00, -2.221999999999999809e-01, 2.499999999999999722e-01, 1.330000000000000071e+00, -6.349000000000000199e-01, -5.780000000000000249e+00, 1.049999999999999822e+00, 5.000000000000000278e-02, -6.349000000000000199e-01, -5.780000000000000249e+00, 1.100000000000000311e+00, 1.000000000000000056e-01, -5.999999999999999778e-01, -6.348999999999999089e-01, -5.780000000000000249e+00, -1.000000000000000000e+00, -9.999999999999996669e-01, -6.999999999999998224e+00, -6.349000000000000199e-01, -5.780000000000000249e+00, 1.049999999999999822e+00, 5.000000000000000278e-02, -7.000000000000000666e-02, -2.221999999999999809e-01, -1.999999999999999778e+00, 2.699999999999999623e-01, -6.349000000000000199e-01, -5.780000000000000249e+00, -6.349000000000000199e-01, -5.780000000000000249e+00, 1.600000000000000089e+00, -1.000000000000000000e+00, -6.349000000000000199e-01, -5.780000000000000249e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -6.349000000000000199e-01, -5.780000000000000249e+00, -2.221999999999999809e-01, -1.999999999999999778e+00, 2.000000000000000389e-01, -2.221999999999999809e-01, -1.999999999999999778e+00, 2.000000000000000389e-01, -4.040000000000000258e-01, 3.418999999999999262e-01, -2.839999999999999858e+00, 1.000000000000000222e+00, -4.040000000000000258e-01, 6.172999999999999599e-01, -2.839999999999999858e+00, 1.000000000000000000e+00, -4.040000000000000258e-01, 2.222199999999999953e+00, -2.839999999999999858e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -2.221999999999999809e-01, -1.559999999999999609e+00, 7.999999999999998224e-01, -2.221999999999999809e-01, -1.559999999999999609e+00, 2.699999999999999623e-01, -2.221999999999999809e-01, -1.559999999999999609e+00, 8.000000000000000444e-01, -2.221999999999999809e-01, -1.559999999999999609e+00, 5.999999999999999778e-01, -2.221999999999999809e-01, -1.559999999999999609e+00, 2.000000000000000111e-01, -2.221999999999999809e-01, -1.559999999999999609e+00, 2.500000000000000555e-01, -2.221999999999999809e-01, -1.559999999999999609e+00, 2.499999999999999445e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.280000000000000027e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.110000000000000098e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000222e+00, -1.060000000000000053e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.199999999999999956e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.149999999999999911e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999997780e-01, -3.569999999999999840e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -3.569999999999999840e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, 3.569999999999999840e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 9.999999999999998890e-01, -1.000000000000000000e+00, 3.640000000000000180e-02, -1.000000000000000000e+00, -3.640000000000000180e-02, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000222e+00, -1.500000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000222e+00, -1.500000000000000000e+00, 2.443999999999999992e-02, 1.600000000000000077e-03, 2.350000000000000144e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.778000000000000067e-02, 1.100000000000000066e-03, 2.240000000000000324e-01, 9.999999999999998890e-01, 4.000000000000000083e-02, 2.099999999999999870e-03, 2.590000000000000635e-01, 3.640000000000000180e-02, -1.000000000000000000e+00, 4.000000000000000083e-02, 2.099999999999999870e-03, 2.590000000000000635e-01, 1.000000000000000000e+00, 1.063999999999999946e-01, 3.640000000000000180e-02, 1.000000000000000000e+00, -2.747000000000001108e-01, -2.198000000000000231e-01, -3.149999999999999911e+00, 1.050000000000000044e+00, 5.000000000000000278e-02, -4.396000000000000463e-01, -2.198000000000000231e-01, -3.149999999999999911e+00, 1.100000000000000311e+00, -5.999999999999999778e-01, 1.000000000000000056e-01, -2.197800000000000420e+00, -2.197999999999999676e-01, -3.149999999999999911e+00, 1.000000000000000000e+00, -6.999999999999998224e+00, -9.999999999999996669e-01, -2.198000000000000231e-01, -3.149999999999999911e+00, 9.999999999999998890e-01, -1.000000000000000000e+00, -2.930000000000000382e-01, -2.198000000000000231e-01, -3.149999999999999911e+00, 1.050000000000000044e+00, -7.000000000000000666e-02, 5.000000000000000278e-02, -5.233000000000003205e-01, -2.198000000000000231e-01, -3.149999999999999911e+00, 1.600000000000000089e+00, -9.999999999999997780e-01, -2.747000000000001108e-01, -2.198000000000000231e-01, -3.149999999999999911e+00, -1.000000000000000000e+00, -2.197999999999999954e-01, -3.149999999999999911e+00, 3.600000000000000533e+00, 1.250000000000000000e+00, 1.999999999999999833e-01, -2.198000000000000231e-01, -3.149999999999999911e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, -2.747000000000001108e-01, -2.198000000000000231e-01, -3.149999999999999911e+00, -1.000000000000000000e+00, -4.396000000000000463e-01, -2.198000000000000231e-01, -3.149999999999999911e+00, -5.999999999999999778e-01, 1.000000000000000056e-01, 1.000000000000000000e+00, -2.198000000000000231e-01, -3.149999999999999911e+00, 5.999999999999999778e-01, 6.000000000000000888e-01, 9.999999999999998890e-01, -2.746999999999999997e-01, -2.197999999999999954e-01, -3.240000000000000213e+00, 1.050000000000000044e+00, 5.000000000000000971e-02, -4.395999999999999353e-01, -2.197999999999999954e-01, -3.240000000000000213e+00, 1.100000000000000089e+00, 1.000000000000000194e-01, -6.000000000000000888e-01, -2.197800000000000420e+00, -2.197999999999999676e-01, -3.240000000000000657e+00, 1.000000000000000000e+00, -9.999999999999996669e-01, -6.999999999999998224e+00, -2.197999999999999954e-01, -3.240000000000000213e+00, -9.999999999999998890e-01, 1.000000000000000000e+00, -2.929999999999999827e-01, -2.197999999999999954e-01, -3.240000000000000213e+00, 1.050000000000000044e+00, 5.000000000000000971e-02, -7.000000000000002054e-02, -5.233000000000000984e-01, -2.197999999999999954e-01, -3.240000000000000213e+00, 1.600000000000000089e+00, -1.000000000000000000e+00, -2.746999999999999997e-01, -2.197999999999999954e-01, -3.240000000000000213e+00, -1.000000000000000222e+00, -2.197999999999999954e-01, -3.239999999999999769e+00, 3.600000000000000533e+00, 1.999999999999999833e-01, 1.250000000000000000e+00, -2.197999999999999954e-01, -3.240000000000000213e+00, 1.000000000000000222e+00, 1.000000000000000222e+00, 1.000000000000000000e+00, -2.746999999999999997e-01, -2.197999999999999954e-01, -3.240000000000000213e+00, -1.000000000000000222e+00, -4.395999999999999353e-01, -2.197999999999999954e-01, -3.240000000000000213e+00, 1.000000000000000194e-01, 1.000000000000000222e+00, -6.000000000000000888e-01, -2.197999999999999954e-01, -3.240000000000000213e+00, 5.999999999999999778e-01, 5.999999999999998668e-01, 1.000000000000000000e+00, -2.746999999999999997e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 1.049999999999999822e+00, 4.999999999999999584e-02, -4.395999999999999353e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 1.100000000000000089e+00, -5.999999999999999778e-01, 9.999999999999999167e-02, -2.197800000000000420e+00, -2.198000000000000509e-01, 7.066999999999998838e-01, -3.180000000000000604e+00, 1.000000000000000000e+00, -6.999999999999998224e+00, -9.999999999999996669e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 9.999999999999997780e-01, -9.999999999999997780e-01, -2.929999999999999827e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 1.049999999999999822e+00, -6.999999999999999278e-02, 4.999999999999999584e-02, -5.232999999999999874e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 1.599999999999999867e+00, -9.999999999999998890e-01, -2.746999999999999997e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, -9.999999999999998890e-01, -2.198000000000000231e-01, 7.066999999999998838e-01, -3.179999999999999716e+00, 3.600000000000000533e+00, 1.250000000000000000e+00, 1.999999999999999833e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 9.999999999999998890e-01, 9.999999999999997780e-01, 9.999999999999998890e-01, -2.746999999999999997e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, -9.999999999999998890e-01, -4.395999999999999353e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, -5.999999999999999778e-01, 9.999999999999999167e-02, 9.999999999999998890e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 5.999999999999998668e-01, 5.999999999999998668e-01, 9.999999999999997780e-01, -2.746999999999999997e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 1.049999999999999822e+00, 4.999999999999999584e-02, -4.395999999999999353e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 1.100000000000000089e+00, 9.999999999999999167e-02, -5.999999999999999778e-01, -2.197800000000000420e+00, -2.198000000000000509e-01, 7.066999999999998838e-01, -3.180000000000000604e+00, 1.000000000000000000e+00, -9.999999999999996669e-01, -6.999999999999998224e+00, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, -9.999999999999997780e-01, 9.999999999999997780e-01, -2.929999999999999827e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 1.049999999999999822e+00, 4.999999999999999584e-02, -6.999999999999999278e-02, -5.232999999999999874e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 1.599999999999999867e+00, -9.999999999999995559e-01, -2.746999999999999997e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, -9.999999999999998890e-01, -2.198000000000000231e-01, 7.066999999999998838e-01, -3.179999999999999716e+00, 3.600000000000000533e+00, 1.999999999999999833e-01, 1.250000000000000000e+00, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999997780e-01, -2.746999999999999997e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, -9.999999999999998890e-01, -4.395999999999999353e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 9.999999999999999167e-02, 9.999999999999998890e-01, -5.999999999999999778e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 5.999999999999998668e-01, 5.999999999999998668e-01, 9.999999999999997780e-01, -2.197800000000000420e+00, -2.197999999999999676e-01, 1.073299999999999921e+00, -4.830000000000000071e+00, -1.000000000000000000e+00, -6.999999999999998224e+00, -9.999999999999996669e-01, -2.747000000000000552e-01, -2.198000000000000231e-01, -3.180000000000000604e+00, 1.050000000000000044e+00, 5.000000000000000971e-02, -4.396000000000000463e-01, -2.198000000000000231e-01, -3.180000000000000604e+00, 1.100000000000000311e+00, 1.000000000000000194e-01, -6.000000000000001998e-01, -2.197800000000000420e+00, -2.198000000000000509e-01, -3.180000000000000604e+00, 1.000000000000000000e+00, -9.999999999999996669e-01, -6.999999999999998224e+00, -2.198000000000000231e-01, -3.180000000000000604e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -2.929999999999999827e-01, -2.198000000000000231e-01, -3.180000000000000604e+00, 1.050000000000000044e+00, 5.000000000000000971e-02, -7.000000000000000666e-02, -5.233000000000000984e-01, -2.198000000000000231e-01, -3.180000000000000604e+00, 1.600000000000000089e+00, -9.999999999999998890e-01, -2.747000000000000552e-01, -2.198000000000000231e-01, -3.180000000000000604e+00, -1.000000000000000222e+00, -2.198000000000000231e-01, -3.179999999999999716e+00, 3.600000000000000533e+00, 1.999999999999999833e-01, 1.250000000000000000e+00, -2.198000000000000231e-01, -3.180000000000000604e+00, 1.000000000000000222e+00, 1.000000000000000222e+00, 1.000000000000000000e+00, -2.747000000000000552e-01, -2.198000000000000231e-01, -3.180000000000000604e+00, -1.000000000000000222e+00, -4.396000000000000463e-01, -2.198000000000000231e-01, -3.180000000000000604e+00, 1.000000000000000194e-01, 1.000000000000000222e+00, -6.000000000000001998e-01, -2.198000000000000231e-01, -3.180000000000000604e+00, 6.000000000000000888e-01, 5.999999999999999778e-01, 1.000000000000000000e+00, -2.746999999999999997e-01, -2.197999999999999954e-01, 9.778000000000002245e-01, -4.400000000000001243e+00, 1.000000000000000222e+00, -2.000000000000000000e+00, -2.000000000000000888e+00, -4.395999999999999908e-01, -2.197999999999999954e-01, 9.778000000000002245e-01, -4.400000000000001243e+00, 1.000000000000000000e+00, -2.000000000000000000e+00, -8.000000000000000444e-01, -2.000000000000000888e+00, 1.000000000000000000e+00, 2.000000000000000000e+00, 1.500000000000000000e+00, 2.500000000000000000e+00, 9.778000000000002245e-01, -4.400000000000001243e+00, 5.999999999999999778e-01, -2.000000000000000000e+00, 1.000000000000000000e+00, -2.000000000000000888e+00, -2.747000000000000552e-01, -2.197999999999999954e-01, 1.050000000000000044e+00, 4.999999999999999584e-02, -3.550000000000000711e+01, -5.849999999999999645e+00, -4.396000000000000463e-01, -2.197999999999999954e-01, 1.100000000000000311e+00, -5.999999999999999778e-01, 9.999999999999999167e-02, -3.550000000000000711e+01, -5.849999999999999645e+00, -2.197799999999999976e+00, -2.197999999999999954e-01, 1.000000000000000000e+00, -6.999999999999999112e+00, -9.999999999999997780e-01, -3.550000000000000711e+01, -5.849999999999999645e+00, -2.197999999999999954e-01, 1.000000000000000000e+00, -9.999999999999998890e-01, -3.550000000000000711e+01, -5.849999999999999645e+00, -2.930000000000000382e-01, -2.197999999999999954e-01, 1.050000000000000044e+00, -7.000000000000000666e-02, 4.999999999999999584e-02, -3.550000000000000711e+01, -5.849999999999999645e+00, -5.233000000000000984e-01, -2.197999999999999954e-01, 1.600000000000000089e+00, -9.999999999999998890e-01, -3.550000000000000711e+01, -5.849999999999999645e+00, -2.747000000000000552e-01, -2.197999999999999954e-01, -1.000000000000000000e+00, -3.550000000000000711e+01, -5.849999999999999645e+00, -2.197999999999999954e-01, 3.600000000000000089e+00, 1.250000000000000000e+00, 1.999999999999999833e-01, -3.550000000000000711e+01, -5.849999999999999645e+00, -2.197999999999999954e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -3.550000000000000711e+01, -5.849999999999999645e+00, -2.747000000000000552e-01, -2.197999999999999954e-01, -1.000000000000000000e+00, -3.550000000000000711e+01, -5.849999999999999645e+00, -4.396000000000000463e-01, -2.197999999999999954e-01, -5.999999999999999778e-01, 9.999999999999999167e-02, 1.000000000000000000e+00, -3.550000000000000711e+01, -5.849999999999999645e+00, -2.197999999999999954e-01, 5.999999999999999778e-01, 5.999999999999999778e-01, 1.000000000000000000e+00, -3.550000000000000711e+01, -5.849999999999999645e+00, -2.746999999999999997e-01, -2.198000000000000231e-01, -3.100000000000000355e+01, 1.049999999999999822e+00, 5.000000000000000971e-02, -3.570000000000000995e+01, -4.396000000000000463e-01, -2.198000000000000231e-01, -3.100000000000000355e+01, 1.100000000000000089e+00, -5.999999999999998668e-01, 1.000000000000000194e-01, -3.570000000000000995e+01, -2.197799999999999976e+00, -2.198000000000000231e-01, -3.100000000000000355e+01, 1.000000000000000000e+00, -6.999999999999998224e+00, -1.000000000000000000e+00, -3.570000000000000995e+01, -2.198000000000000231e-01, -3.100000000000000355e+01, 1.000000000000000000e+00, -1.000000000000000000e+00, -3.570000000000000995e+01, -2.929999999999999827e-01, -2.198000000000000231e-01, -3.100000000000000355e+01, 1.049999999999999822e+00, -7.000000000000000666e-02, 5.000000000000000971e-02, -3.570000000000000995e+01, -5.233000000000000984e-01, -2.198000000000000231e-01, -3.100000000000000355e+01, 1.600000000000000089e+00, -1.000000000000000000e+00, -3.570000000000000995e+01, -2.746999999999999997e-01, -2.198000000000000231e-01, -3.100000000000000355e+01, -1.000000000000000000e+00, -3.570000000000000995e+01, -2.198000000000000231e-01, -3.100000000000000355e+01, 3.599999999999999645e+00, 1.250000000000000000e+00, 2.000000000000000389e-01, -3.570000000000000995e+01, -2.198000000000000231e-01, -3.100000000000000355e+01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -3.570000000000000995e+01, -2.746999999999999997e-01, -2.198000000000000231e-01, -3.100000000000000355e+01, -1.000000000000000000e+00, -3.570000000000000995e+01, -4.396000000000000463e-01, -2.198000000000000231e-01, -3.100000000000000355e+01, -5.999999999999998668e-01, 1.000000000000000194e-01, 1.000000000000000000e+00, -3.570000000000000995e+01, -2.198000000000000231e-01, -3.100000000000000355e+01, 5.999999999999999778e-01, 5.999999999999998668e-01, 1.000000000000000000e+00, -3.570000000000000995e+01, -2.746999999999999997e-01, -2.197999999999999676e-01, 1.049999999999999822e+00, 4.999999999999998890e-02, -9.999999999999998890e-01, -9.999999999999998890e-01, -4.396000000000001018e-01, -2.197999999999999954e-01, 1.100000000000000089e+00, 9.999999999999999167e-02, -5.999999999999999778e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -2.197800000000000420e+00, -2.197999999999999676e-01, 1.000000000000000000e+00, -9.999999999999996669e-01, -6.999999999999998224e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -2.197999999999999954e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -2.930000000000000382e-01, -2.197999999999999676e-01, 1.049999999999999822e+00, 4.999999999999998890e-02, -6.999999999999999278e-02, -9.999999999999998890e-01, -9.999999999999998890e-01, -5.233000000000000984e-01, -2.197999999999999954e-01, 1.600000000000000089e+00, -9.999999999999996669e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -2.747000000000000552e-01, -2.197999999999999954e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -2.197999999999999954e-01, 3.600000000000000533e+00, 1.999999999999999833e-01, 1.250000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -2.197999999999999954e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -2.747000000000000552e-01, -2.197999999999999954e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -4.396000000000000463e-01, -2.197999999999999954e-01, 9.999999999999999167e-02, 1.000000000000000000e+00, -5.999999999999999778e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -2.197999999999999954e-01, 5.999999999999999778e-01, 5.999999999999999778e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -2.746999999999999997e-01, -2.197999999999999676e-01, 1.049999999999999822e+00, 4.999999999999998890e-02, -4.396000000000001018e-01, -2.197999999999999954e-01, 1.100000000000000089e+00, 9.999999999999999167e-02, -5.999999999999999778e-01, -2.197800000000000420e+00, -2.197999999999999676e-01, 1.000000000000000000e+00, -9.999999999999996669e-01, -6.999999999999998224e+00, -2.197999999999999954e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, -2.930000000000000382e-01, -2.197999999999999676e-01, 1.049999999999999822e+00, 4.999999999999998890e-02, -6.999999999999999278e-02, -5.233000000000000984e-01, -2.197999999999999954e-01, 1.600000000000000089e+00, -9.999999999999996669e-01, -2.747000000000000552e-01, -2.197999999999999954e-01, -1.000000000000000000e+00, -2.197999999999999954e-01, 3.600000000000000533e+00, 1.999999999999999833e-01, 1.250000000000000000e+00, -2.197999999999999954e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.747000000000000552e-01, -2.197999999999999954e-01, -1.000000000000000000e+00, -4.396000000000000463e-01, -2.197999999999999954e-01, 9.999999999999999167e-02, 1.000000000000000000e+00, -5.999999999999999778e-01, -2.197999999999999954e-01, 5.999999999999999778e-01, 5.999999999999999778e-01, 1.000000000000000000e+00, -2.746999999999999997e-01, -2.197999999999999676e-01, 1.049999999999999822e+00, 4.999999999999998890e-02, -4.396000000000001018e-01, -2.197999999999999954e-01, 1.100000000000000089e+00, -5.999999999999999778e-01, 9.999999999999999167e-02, -2.197800000000000420e+00, -2.197999999999999676e-01, 1.000000000000000000e+00, -6.999999999999998224e+00, -9.999999999999996669e-01, -2.197999999999999954e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, -2.930000000000000382e-01, -2.197999999999999676e-01, 1.049999999999999822e+00, -6.999999999999999278e-02, 4.999999999999998890e-02, -5.233000000000000984e-01, -2.197999999999999954e-01, 1.600000000000000089e+00, -9.999999999999996669e-01, -2.747000000000000552e-01, -2.197999999999999954e-01, -1.000000000000000000e+00, -2.197999999999999954e-01, 3.600000000000000533e+00, 1.250000000000000000e+00, 1.999999999999999833e-01, -2.197999999999999954e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.747000000000000552e-01, -2.197999999999999954e-01, -1.000000000000000000e+00, -4.396000000000000463e-01, -2.197999999999999954e-01, -5.999999999999999778e-01, 9.999999999999999167e-02, 1.000000000000000000e+00, -2.197999999999999954e-01, 5.999999999999999778e-01, 5.999999999999999778e-01, 1.000000000000000000e+00, -2.746999999999999997e-01, -2.197999999999999676e-01, 1.049999999999999822e+00, 4.999999999999998890e-02, -4.395999999999999908e-01, -2.197999999999999954e-01, 1.100000000000000089e+00, 9.999999999999999167e-02, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.197799999999999976e+00, -2.197999999999999954e-01, -1.000000000000000000e+00, 1.470000000000000195e+00, -9.999999999999997780e-01, 3.419000000000000372e-01, -2.439999999999999947e+00, 5.422000000000000153e-01, -2.439999999999999947e+00, 1.000000000000000000e+00, 6.172999999999999599e-01, -2.439999999999999947e+00, 5.422000000000000153e-01, -2.439999999999999947e+00, 1.000000000000000000e+00, 2.222199999999999953e+00, -2.439999999999999947e+00, 5.422000000000000153e-01, -2.439999999999999947e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.099999999999999867e+00, 2.443999999999999229e-01, -1.099999999999999867e+00, 6.999999999999998446e-01, -1.099999999999999867e+00, 2.443999999999999229e-01, -1.099999999999999867e+00, 1.000000000000000000e+00, -1.099999999999999867e+00, -1.099999999999999867e+00, 1.000000000000000000e+00, 9.999999999999997780e-01, -1.099999999999999867e+00, 2.443999999999999229e-01, -1.099999999999999867e+00, 7.000000000000000666e-01, -1.099999999999999867e+00, 2.443999999999999229e-01, -1.099999999999999867e+00, 6.999999999999999556e-01, -1.099999999999999867e+00, 2.443999999999999229e-01, -1.099999999999999867e+00, 2.000000000000000111e-01, -1.099999999999999867e+00, 2.443999999999999229e-01, -1.099999999999999867e+00, 2.000000000000000111e-01, -1.099999999999999867e+00, 2.443999999999999229e-01, -1.099999999999999867e+00, 2.400000000000000189e-01, 3.419000000000000372e-01, 5.422000000000000153e-01, -2.439999999999999947e+00, -2.439999999999999947e+00, 1.000000000000000000e+00, 6.172999999999999599e-01, 5.422000000000000153e-01, -2.439999999999999947e+00, -2.439999999999999947e+00, 1.000000000000000000e+00, 2.222199999999999953e+00, 5.422000000000000153e-01, -2.439999999999999947e+00, -2.439999999999999947e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 2.443999999999999229e-01, -1.099999999999999867e+00, -1.099999999999999867e+00, 6.999999999999998446e-01, 2.443999999999999229e-01, -1.099999999999999867e+00, -1.099999999999999867e+00, 1.000000000000000000e+00, -1.099999999999999867e+00, -1.099999999999999867e+00, 1.000000000000000000e+00, 9.999999999999997780e-01, 2.443999999999999229e-01, -1.099999999999999867e+00, -1.099999999999999867e+00, 7.000000000000000666e-01, 2.443999999999999229e-01, -1.099999999999999867e+00, -1.099999999999999867e+00, 6.999999999999999556e-01, 2.443999999999999229e-01, -1.099999999999999867e+00, -1.099999999999999867e+00, 2.000000000000000111e-01, 2.443999999999999229e-01, -1.099999999999999867e+00, -1.099999999999999867e+00, 2.000000000000000111e-01, 2.443999999999999229e-01, -1.099999999999999867e+00, -1.099999999999999867e+00, 2.400000000000000189e-01, -5.422000000000000153e-01, 3.419000000000000372e-01, 6.421999999999998820e-01, -2.890000000000000124e+00, -2.889999999999999680e+00, 9.999999999999998890e-01, -5.422000000000000153e-01, 6.172999999999999599e-01, 6.421999999999998820e-01, -2.890000000000000124e+00, -2.889999999999999680e+00, 1.000000000000000000e+00, -5.422000000000000153e-01, 2.222199999999999953e+00, 6.421999999999998820e-01, -2.890000000000000124e+00, -2.889999999999999680e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -2.444000000000000339e-01, 2.889000000000000457e-01, -1.300000000000000044e+00, -1.300000000000000266e+00, 6.999999999999999556e-01, -2.444000000000000339e-01, 2.889000000000000457e-01, -1.300000000000000044e+00, -1.300000000000000266e+00, 1.000000000000000000e+00, -2.444000000000000339e-01, -1.300000000000000044e+00, -1.300000000000000266e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, -2.444000000000000339e-01, 2.889000000000000457e-01, -1.300000000000000044e+00, -1.300000000000000266e+00, 6.999999999999999556e-01, -2.444000000000000339e-01, 2.889000000000000457e-01, -1.300000000000000044e+00, -1.300000000000000266e+00, 6.999999999999998446e-01, -2.444000000000000339e-01, 2.889000000000000457e-01, -1.300000000000000044e+00, -1.300000000000000266e+00, 2.000000000000000666e-01, -2.444000000000000339e-01, 2.889000000000000457e-01, -1.300000000000000044e+00, -1.300000000000000266e+00, 2.000000000000000389e-01, -2.444000000000000339e-01, 2.889000000000000457e-01, -1.300000000000000044e+00, -1.300000000000000266e+00, 2.400000000000000189e-01, 3.419000000000000372e-01, -2.440000000000000391e+00, 1.000000000000000222e+00, 6.172999999999999599e-01, -2.440000000000000391e+00, 1.000000000000000000e+00, 2.222200000000000397e+00, -2.439999999999999947e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.099999999999999867e+00, 7.999999999999999334e-01, -1.099999999999999867e+00, 1.000000000000000000e+00, -1.099999999999999867e+00, 9.999999999999998890e-01, -5.570000000000000284e+00, -1.099999999999999867e+00, 8.000000000000000444e-01, -1.099999999999999867e+00, 5.999999999999999778e-01, -1.099999999999999867e+00, 2.000000000000000111e-01, -1.099999999999999867e+00, 2.000000000000000111e-01, -1.099999999999999867e+00, 2.000000000000000111e-01, -4.889000000000000012e-01, 3.418999999999999817e-01, -2.799999999999999822e+00, 1.000000000000000000e+00, -4.889000000000000012e-01, 6.173000000000000709e-01, -2.799999999999999822e+00, 9.999999999999998890e-01, -4.889000000000000012e-01, 2.222199999999999953e+00, -2.799999999999999378e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -2.221999999999999809e-01, -1.260000000000000009e+00, 8.000000000000000444e-01, -2.221999999999999809e-01, -1.260000000000000009e+00, 1.000000000000000000e+00, -2.221999999999999809e-01, -1.260000000000000231e+00, 9.999999999999998890e-01, -5.570000000000000284e+00, -2.221999999999999809e-01, -1.260000000000000009e+00, 7.999999999999999334e-01, -2.221999999999999809e-01, -1.260000000000000009e+00, 5.999999999999998668e-01, -2.221999999999999809e-01, -1.260000000000000009e+00, 2.000000000000000389e-01, -2.221999999999999809e-01, -1.260000000000000009e+00, 2.000000000000000111e-01, -2.221999999999999809e-01, -1.260000000000000009e+00, 2.000000000000000111e-01, -4.937999999999999057e-01, 3.418999999999999262e-01, -3.299999999999998934e+00, 9.999999999999998890e-01, -4.937999999999999057e-01, 6.172999999999998488e-01, -3.299999999999998934e+00, 1.000000000000000000e+00, -4.938000000000000167e-01, 2.222199999999999953e+00, -3.299999999999999822e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -2.222000000000000086e-01, -1.499999999999999778e+00, 7.999999999999999334e-01, -2.222000000000000086e-01, -1.499999999999999778e+00, 9.999999999999998890e-01, -2.221999999999999809e-01, -1.500000000000000000e+00, 9.999999999999998890e-01, -5.570000000000000284e+00, -2.222000000000000086e-01, -1.499999999999999778e+00, 7.999999999999999334e-01, -2.222000000000000086e-01, -1.499999999999999778e+00, 5.999999999999999778e-01, -2.222000000000000086e-01, -1.499999999999999778e+00, 2.000000000000000666e-01, -2.222000000000000086e-01, -1.499999999999999778e+00, 1.999999999999999833e-01, -2.222000000000000086e-01, -1.499999999999999778e+00, 2.000000000000000111e-01, -1.030000000000000027e+00, -1.029999999999999805e+00, 9.999999999999998890e-01, 6.999999999999998446e-01, -1.239999999999999991e+00, -1.239999999999999547e+00, 8.300000000000000711e-01, -1.030000000000000027e+00, -1.029999999999999805e+00, 6.500000000000000222e-01, 6.500000000000001332e-01, -1.030000000000000027e+00, -1.030000000000000027e+00, 1.000000000000000000e+00, 6.999999999999999556e-01, -1.030000000000000027e+00, -1.030000000000000027e+00, 6.500000000000000222e-01, 6.500000000000000222e-01, -4.022000000000000575e-01, 3.418999999999999817e-01, 1.000000000000000000e+00, 2.419999999999999929e+00, -4.022000000000000575e-01, 6.173000000000000709e-01, 1.000000000000000000e+00, 2.419999999999999929e+00, -4.022000000000000575e-01, 2.222199999999999509e+00, -1.000000000000000000e+00, 2.419999999999999929e+00, -9.999999999999998890e-01, -2.221999999999999809e-01, 7.999999999999998224e-01, 1.330000000000000071e+00, -2.221999999999999809e-01, 2.700000000000000178e-01, 1.330000000000000071e+00, -2.221999999999999809e-01, 8.000000000000000444e-01, 1.330000000000000071e+00, -2.221999999999999809e-01, 5.999999999999998668e-01, 1.330000000000000071e+00, -2.221999999999999809e-01, 2.000000000000000111e-01, 1.330000000000000071e+00, -2.221999999999999809e-01, 2.500000000000000000e-01, 1.330000000000000071e+00, -2.221999999999999809e-01, 2.499999999999999722e-01, 1.330000000000000071e+00, -6.349000000000000199e-01, -5.780000000000000249e+00, 1.049999999999999822e+00, 5.000000000000000278e-02, -6.349000000000000199e-01, -5.780000000000000249e+00, 1.100000000000000311e+00, 1.000000000000000056e-01, -5.999999999999999778e-01, -6.348999999999999089e-01, -5.780000000000000249e+00, -1.000000000000000000e+00, -9.999999999999996669e-01, -6.999999999999998224e+00, -6.349000000000000199e-01, -5.780000000000000249e+00, 1.049999999999999822e+00, 5.000000000000000278e-02, -7.000000000000000666e-02, -2.221999999999999809e-01, -1.999999999999999778e+00, 2.699999999999999623e-01, -6.349000000000000199e-01, -5.780000000000000249e+00, -6.349000000000000199e-01, -5.780000000000000249e+00, 1.600000000000000089e+00, -1.000000000000000000e+00, -6.349000000000000199e-01, -5.780000000000000249e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -6.349000000000000199e-01, -5.780000000000000249e+00, -2.221999999999999809e-01, -1.999999999999999778e+00, 2.000000000000000389e-01, -2.221999999999999809e-01, -1.999999999999999778e+00, 2.000000000000000389e-01, -4.040000000000000258e-01, 3.418999999999999262e-01, -2.839999999999999858e+00, 1.000000000000000222e+00, -4.040000000000000258e-01, 6.172999999999999599e-01, -2.839999999999999858e+00, 1.000000000000000000e+00, -4.040000000000000258e-01, 2.222199999999999953e+00, -2.839999999999999858e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -2.221999999999999809e-01, -1.559999999999999609e+00, 7.999999999999998224e-01, -2.221999999999999809e-01, -1.559999999999999609e+00, 2.699999999999999623e-01, -2.221999999999999809e-01, -1.559999999999999609e+00, 8.000000000000000444e-01, -2.221999999999999809e-01, -1.559999999999999609e+00, 5.999999999999999778e-01, -2.221999999999999809e-01, -1.559999999999999609e+00, 2.000000000000000111e-01, -2.221999999999999809e-01, -1.559999999999999609e+00, 2.500000000000000555e-01, -2.221999999999999809e-01, -1.559999999999999609e+00, 2.499999999999999445e-01, 1.000000000000000000e+00, 8.000000000000000444e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 6.500000000000001332e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 6.500000000000001332e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 6.500000000000001332e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, -7.799999999999998579e+01, 9.999999999999998890e-01, -9.999999999999998890e-01, 1.000000000000000222e+00, 8.000000000000000444e-01, -6.210000000000000853e+01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, -5.900000000000000711e+01, 1.000000000000000000e+00, -1.000000000000000222e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.280000000000000027e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.110000000000000098e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000222e+00, -1.060000000000000053e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.199999999999999956e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.149999999999999911e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999997780e-01, -3.569999999999999840e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 9.999999999999997780e-01, -3.569999999999999840e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, 3.569999999999999840e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 9.999999999999998890e-01, -1.000000000000000000e+00, 3.640000000000000180e-02, -1.000000000000000000e+00, -3.640000000000000180e-02, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000222e+00, -1.500000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000222e+00, -1.500000000000000000e+00, 2.443999999999999992e-02, 1.600000000000000077e-03, 2.350000000000000144e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.778000000000000067e-02, 1.100000000000000066e-03, 2.240000000000000324e-01, 9.999999999999998890e-01, 4.000000000000000083e-02, 2.099999999999999870e-03, 2.590000000000000635e-01, 3.640000000000000180e-02, -1.000000000000000000e+00, 4.000000000000000083e-02, 2.099999999999999870e-03, 2.590000000000000635e-01, 1.000000000000000000e+00, 1.063999999999999946e-01, 3.640000000000000180e-02, 1.000000000000000000e+00, -3.640000000000000180e-02, -1.000000000000000000e+00, 3.640000000000000180e-02, 1.000000000000000000e+00, -2.747000000000001108e-01, -2.198000000000000231e-01, -3.149999999999999911e+00, 1.050000000000000044e+00, 5.000000000000000278e-02, -4.396000000000000463e-01, -2.198000000000000231e-01, -3.149999999999999911e+00, 1.100000000000000311e+00, -5.999999999999999778e-01, 1.000000000000000056e-01, -2.197800000000000420e+00, -2.197999999999999676e-01, -3.149999999999999911e+00, 1.000000000000000000e+00, -6.999999999999998224e+00, -9.999999999999996669e-01, -2.198000000000000231e-01, -3.149999999999999911e+00, 9.999999999999998890e-01, -1.000000000000000000e+00, -2.930000000000000382e-01, -2.198000000000000231e-01, -3.149999999999999911e+00, 1.050000000000000044e+00, -7.000000000000000666e-02, 5.000000000000000278e-02, -5.233000000000003205e-01, -2.198000000000000231e-01, -3.149999999999999911e+00, 1.600000000000000089e+00, -9.999999999999997780e-01, -2.747000000000001108e-01, -2.198000000000000231e-01, -3.149999999999999911e+00, -1.000000000000000000e+00, -2.197999999999999954e-01, -3.149999999999999911e+00, 3.600000000000000533e+00, 1.250000000000000000e+00, 1.999999999999999833e-01, -2.198000000000000231e-01, -3.149999999999999911e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, -2.747000000000001108e-01, -2.198000000000000231e-01, -3.149999999999999911e+00, -1.000000000000000000e+00, -4.396000000000000463e-01, -2.198000000000000231e-01, -3.149999999999999911e+00, -5.999999999999999778e-01, 1.000000000000000056e-01, 1.000000000000000000e+00, -2.198000000000000231e-01, -3.149999999999999911e+00, 5.999999999999999778e-01, 6.000000000000000888e-01, 9.999999999999998890e-01, -2.746999999999999997e-01, -2.197999999999999954e-01, -3.240000000000000213e+00, 1.050000000000000044e+00, 5.000000000000000971e-02, -4.395999999999999353e-01, -2.197999999999999954e-01, -3.240000000000000213e+00, 1.100000000000000089e+00, 1.000000000000000194e-01, -6.000000000000000888e-01, -2.197800000000000420e+00, -2.197999999999999676e-01, -3.240000000000000657e+00, 1.000000000000000000e+00, -9.999999999999996669e-01, -6.999999999999998224e+00, -2.197999999999999954e-01, -3.240000000000000213e+00, -9.999999999999998890e-01, 1.000000000000000000e+00, -2.929999999999999827e-01, -2.197999999999999954e-01, -3.240000000000000213e+00, 1.050000000000000044e+00, 5.000000000000000971e-02, -7.000000000000002054e-02, -5.233000000000000984e-01, -2.197999999999999954e-01, -3.240000000000000213e+00, 1.600000000000000089e+00, -1.000000000000000000e+00, -2.746999999999999997e-01, -2.197999999999999954e-01, -3.240000000000000213e+00, -1.000000000000000222e+00, -2.197999999999999954e-01, -3.239999999999999769e+00, 3.600000000000000533e+00, 1.999999999999999833e-01, 1.250000000000000000e+00, -2.197999999999999954e-01, -3.240000000000000213e+00, 1.000000000000000222e+00, 1.000000000000000222e+00, 1.000000000000000000e+00, -2.746999999999999997e-01, -2.197999999999999954e-01, -3.240000000000000213e+00, -1.000000000000000222e+00, -4.395999999999999353e-01, -2.197999999999999954e-01, -3.240000000000000213e+00, 1.000000000000000194e-01, 1.000000000000000222e+00, -6.000000000000000888e-01, -2.197999999999999954e-01, -3.240000000000000213e+00, 5.999999999999999778e-01, 5.999999999999998668e-01, 1.000000000000000000e+00, -2.746999999999999997e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 1.049999999999999822e+00, 4.999999999999999584e-02, -4.395999999999999353e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 1.100000000000000089e+00, -5.999999999999999778e-01, 9.999999999999999167e-02, -2.197800000000000420e+00, -2.198000000000000509e-01, 7.066999999999998838e-01, -3.180000000000000604e+00, 1.000000000000000000e+00, -6.999999999999998224e+00, -9.999999999999996669e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 9.999999999999997780e-01, -9.999999999999997780e-01, -2.929999999999999827e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 1.049999999999999822e+00, -6.999999999999999278e-02, 4.999999999999999584e-02, -5.232999999999999874e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 1.599999999999999867e+00, -9.999999999999998890e-01, -2.746999999999999997e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, -9.999999999999998890e-01, -2.198000000000000231e-01, 7.066999999999998838e-01, -3.179999999999999716e+00, 3.600000000000000533e+00, 1.250000000000000000e+00, 1.999999999999999833e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 9.999999999999998890e-01, 9.999999999999997780e-01, 9.999999999999998890e-01, -2.746999999999999997e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, -9.999999999999998890e-01, -4.395999999999999353e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, -5.999999999999999778e-01, 9.999999999999999167e-02, 9.999999999999998890e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 5.999999999999998668e-01, 5.999999999999998668e-01, 9.999999999999997780e-01, -2.746999999999999997e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 1.049999999999999822e+00, 4.999999999999999584e-02, -4.395999999999999353e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 1.100000000000000089e+00, 9.999999999999999167e-02, -5.999999999999999778e-01, -2.197800000000000420e+00, -2.198000000000000509e-01, 7.066999999999998838e-01, -3.180000000000000604e+00, 1.000000000000000000e+00, -9.999999999999996669e-01, -6.999999999999998224e+00, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, -9.999999999999997780e-01, 9.999999999999997780e-01, -2.929999999999999827e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 1.049999999999999822e+00, 4.999999999999999584e-02, -6.999999999999999278e-02, -5.232999999999999874e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 1.599999999999999867e+00, -9.999999999999995559e-01, -2.746999999999999997e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, -9.999999999999998890e-01, -2.198000000000000231e-01, 7.066999999999998838e-01, -3.179999999999999716e+00, 3.600000000000000533e+00, 1.999999999999999833e-01, 1.250000000000000000e+00, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999997780e-01, -2.746999999999999997e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, -9.999999999999998890e-01, -4.395999999999999353e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 9.999999999999999167e-02, 9.999999999999998890e-01, -5.999999999999999778e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 5.999999999999998668e-01, 5.999999999999998668e-01, 9.999999999999997780e-01, -2.197800000000000420e+00, -2.197999999999999676e-01, 1.073299999999999921e+00, -4.830000000000000071e+00, -1.000000000000000000e+00, -6.999999999999998224e+00, -9.999999999999996669e-01, -2.747000000000000552e-01, -2.198000000000000231e-01, -3.180000000000000604e+00, 1.050000000000000044e+00, 5.000000000000000971e-02, -4.396000000000000463e-01, -2.198000000000000231e-01, -3.180000000000000604e+00, 1.100000000000000311e+00, 1.000000000000000194e-01, -6.000000000000001998e-01, -2.197800000000000420e+00, -2.198000000000000509e-01, -3.180000000000000604e+00, 1.000000000000000000e+00, -9.999999999999996669e-01, -6.999999999999998224e+00, -2.198000000000000231e-01, -3.180000000000000604e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -2.929999999999999827e-01, -2.198000000000000231e-01, -3.180000000000000604e+00, 1.050000000000000044e+00, 5.000000000000000971e-02, -7.000000000000000666e-02, -5.233000000000000984e-01, -2.198000000000000231e-01, -3.180000000000000604e+00, 1.600000000000000089e+00, -9.999999999999998890e-01, -2.747000000000000552e-01, -2.198000000000000231e-01, -3.180000000000000604e+00, -1.000000000000000222e+00, -2.198000000000000231e-01, -3.179999999999999716e+00, 3.600000000000000533e+00, 1.999999999999999833e-01, 1.250000000000000000e+00, -2.198000000000000231e-01, -3.180000000000000604e+00, 1.000000000000000222e+00, 1.000000000000000222e+00, 1.000000000000000000e+00, -2.747000000000000552e-01, -2.198000000000000231e-01, -3.180000000000000604e+00, -1.000000000000000222e+00, -4.396000000000000463e-01, -2.198000000000000231e-01, -3.180000000000000604e+00, 1.000000000000000194e-01, 1.000000000000000222e+00, -6.000000000000001998e-01, -2.198000000000000231e-01, -3.180000000000000604e+00, 6.000000000000000888e-01, 5.999999999999999778e-01, 1.000000000000000000e+00, -2.746999999999999997e-01, -2.197999999999999954e-01, 9.778000000000002245e-01, -4.400000000000001243e+00, 1.000000000000000222e+00, -2.000000000000000000e+00, -2.000000000000000888e+00, -4.395999999999999908e-01, -2.197999999999999954e-01, 9.778000000000002245e-01, -4.400000000000001243e+00, 1.000000000000000000e+00, -2.000000000000000000e+00, -8.000000000000000444e-01, -2.000000000000000888e+00, 1.000000000000000000e+00, 2.000000000000000000e+00, 1.500000000000000000e+00, 2.500000000000000000e+00, 9.778000000000002245e-01, -4.400000000000001243e+00, 5.999999999999999778e-01, -2.000000000000000000e+00, 1.000000000000000000e+00, -2.000000000000000888e+00, -2.747000000000000552e-01, -2.197999999999999954e-01, 1.050000000000000044e+00, 4.999999999999999584e-02, -3.550000000000000711e+01, -5.849999999999999645e+00, -4.396000000000000463e-01, -2.197999999999999954e-01, 1.100000000000000311e+00, -5.999999999999999778e-01, 9.999999999999999167e-02, -3.550000000000000711e+01, -5.849999999999999645e+00, -2.197799999999999976e+00, -2.197999999999999954e-01, 1.000000000000000000e+00, -6.999999999999999112e+00, -9.999999999999997780e-01, -3.550000000000000711e+01, -5.849999999999999645e+00, -2.197999999999999954e-01, 1.000000000000000000e+00, -9.999999999999998890e-01, -3.550000000000000711e+01, -5.849999999999999645e+00, -2.930000000000000382e-01, -2.197999999999999954e-01, 1.050000000000000044e+00, -7.000000000000000666e-02, 4.999999999999999584e-02, -3.550000000000000711e+01, -5.849999999999999645e+00, -5.233000000000000984e-01, -2.197999999999999954e-01, 1.600000000000000089e+00, -9.999999999999998890e-01, -3.550000000000000711e+01, -5.849999999999999645e+00, -2.747000000000000552e-01, -2.197999999999999954e-01, -1.000000000000000000e+00, -3.550000000000000711e+01, -5.849999999999999645e+00, -2.197999999999999954e-01, 3.600000000000000089e+00, 1.250000000000000000e+00, 1.999999999999999833e-01, -3.550000000000000711e+01, -5.849999999999999645e+00, -2.197999999999999954e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -3.550000000000000711e+01, -5.849999999999999645e+00, -2.747000000000000552e-01, -2.197999999999999954e-01, -1.000000000000000000e+00, -3.550000000000000711e+01, -5.849999999999999645e+00, -4.396000000000000463e-01, -2.197999999999999954e-01, -5.999999999999999778e-01, 9.999999999999999167e-02, 1.000000000000000000e+00, -3.550000000000000711e+01, -5.849999999999999645e+00, -2.197999999999999954e-01, 5.999999999999999778e-01, 5.999999999999999778e-01, 1.000000000000000000e+00, -3.550000000000000711e+01, -5.849999999999999645e+00, -2.746999999999999997e-01, -2.198000000000000231e-01, -3.100000000000000355e+01, 1.049999999999999822e+00, 5.000000000000000971e-02, -3.570000000000000995e+01, -4.396000000000000463e-01, -2.198000000000000231e-01, -3.100000000000000355e+01, 1.100000000000000089e+00, -5.999999999999998668e-01, 1.000000000000000194e-01, -3.570000000000000995e+01, -2.197799999999999976e+00, -2.198000000000000231e-01, -3.100000000000000355e+01, 1.000000000000000000e+00, -6.999999999999998224e+00, -1.000000000000000000e+00, -3.570000000000000995e+01, -2.198000000000000231e-01, -3.100000000000000355e+01, 1.000000000000000000e+00, -1.000000000000000000e+00, -3.570000000000000995e+01, -2.929999999999999827e-01, -2.198000000000000231e-01, -3.100000000000000355e+01, 1.049999999999999822e+00, -7.000000000000000666e-02, 5.000000000000000971e-02, -3.570000000000000995e+01, -5.233000000000000984e-01, -2.198000000000000231e-01, -3.100000000000000355e+01, 1.600000000000000089e+00, -1.000000000000000000e+00, -3.570000000000000995e+01, -2.746999999999999997e-01, -2.198000000000000231e-01, -3.100000000000000355e+01, -1.000000000000000000e+00, -3.570000000000000995e+01, -2.198000000000000231e-01, -3.100000000000000355e+01, 3.599999999999999645e+00, 1.250000000000000000e+00, 2.000000000000000389e-01, -3.570000000000000995e+01, -2.198000000000000231e-01, -3.100000000000000355e+01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -3.570000000000000995e+01, -2.746999999999999997e-01, -2.198000000000000231e-01, -3.100000000000000355e+01, -1.000000000000000000e+00, -3.570000000000000995e+01, -4.396000000000000463e-01, -2.198000000000000231e-01, -3.100000000000000355e+01, -5.999999999999998668e-01, 1.000000000000000194e-01, 1.000000000000000000e+00, -3.570000000000000995e+01, -2.198000000000000231e-01, -3.100000000000000355e+01, 5.999999999999999778e-01, 5.999999999999998668e-01, 1.000000000000000000e+00, -3.570000000000000995e+01, -2.746999999999999997e-01, -2.197999999999999676e-01, 1.049999999999999822e+00, 4.999999999999998890e-02, -9.999999999999998890e-01, -9.999999999999998890e-01, -4.396000000000001018e-01, -2.197999999999999954e-01, 1.100000000000000089e+00, 9.999999999999999167e-02, -5.999999999999999778e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -2.197800000000000420e+00, -2.197999999999999676e-01, 1.000000000000000000e+00, -9.999999999999996669e-01, -6.999999999999998224e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -2.197999999999999954e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -2.930000000000000382e-01, -2.197999999999999676e-01, 1.049999999999999822e+00, 4.999999999999998890e-02, -6.999999999999999278e-02, -9.999999999999998890e-01, -9.999999999999998890e-01, -5.233000000000000984e-01, -2.197999999999999954e-01, 1.600000000000000089e+00, -9.999999999999996669e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -2.747000000000000552e-01, -2.197999999999999954e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -2.197999999999999954e-01, 3.600000000000000533e+00, 1.999999999999999833e-01, 1.250000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -2.197999999999999954e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -2.747000000000000552e-01, -2.197999999999999954e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -4.396000000000000463e-01, -2.197999999999999954e-01, 9.999999999999999167e-02, 1.000000000000000000e+00, -5.999999999999999778e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -2.197999999999999954e-01, 5.999999999999999778e-01, 5.999999999999999778e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -2.746999999999999997e-01, -2.197999999999999676e-01, 1.049999999999999822e+00, 4.999999999999998890e-02, -4.396000000000001018e-01, -2.197999999999999954e-01, 1.100000000000000089e+00, 9.999999999999999167e-02, -5.999999999999999778e-01, -2.197800000000000420e+00, -2.197999999999999676e-01, 1.000000000000000000e+00, -9.999999999999996669e-01, -6.999999999999998224e+00, -2.197999999999999954e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, -2.930000000000000382e-01, -2.197999999999999676e-01, 1.049999999999999822e+00, 4.999999999999998890e-02, -6.999999999999999278e-02, -5.233000000000000984e-01, -2.197999999999999954e-01, 1.600000000000000089e+00, -9.999999999999996669e-01, -2.747000000000000552e-01, -2.197999999999999954e-01, -1.000000000000000000e+00, -2.197999999999999954e-01, 3.600000000000000533e+00, 1.999999999999999833e-01, 1.250000000000000000e+00, -2.197999999999999954e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.747000000000000552e-01, -2.197999999999999954e-01, -1.000000000000000000e+00, -4.396000000000000463e-01, -2.197999999999999954e-01, 9.999999999999999167e-02, 1.000000000000000000e+00, -5.999999999999999778e-01, -2.197999999999999954e-01, 5.999999999999999778e-01, 5.999999999999999778e-01, 1.000000000000000000e+00, -2.746999999999999997e-01, -2.197999999999999676e-01, 1.049999999999999822e+00, 4.999999999999998890e-02, -4.396000000000001018e-01, -2.197999999999999954e-01, 1.100000000000000089e+00, -5.999999999999999778e-01, 9.999999999999999167e-02, -2.197800000000000420e+00, -2.197999999999999676e-01, 1.000000000000000000e+00, -6.999999999999998224e+00, -9.999999999999996669e-01, -2.197999999999999954e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, -2.930000000000000382e-01, -2.197999999999999676e-01, 1.049999999999999822e+00, -6.999999999999999278e-02, 4.999999999999998890e-02, -5.233000000000000984e-01, -2.197999999999999954e-01, 1.600000000000000089e+00, -9.999999999999996669e-01, -2.747000000000000552e-01, -2.197999999999999954e-01, -1.000000000000000000e+00, -2.197999999999999954e-01, 3.600000000000000533e+00, 1.250000000000000000e+00, 1.999999999999999833e-01, -2.197999999999999954e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.747000000000000552e-01, -2.197999999999999954e-01, -1.000000000000000000e+00, -4.396000000000000463e-01, -2.197999999999999954e-01, -5.999999999999999778e-01, 9.999999999999999167e-02, 1.000000000000000000e+00, -2.197999999999999954e-01, 5.999999999999999778e-01, 5.999999999999999778e-01, 1.000000000000000000e+00, -2.746999999999999997e-01, -2.197999999999999676e-01, 1.049999999999999822e+00, 4.999999999999998890e-02, -4.395999999999999908e-01, -2.197999999999999954e-01, 1.100000000000000089e+00, 9.999999999999999167e-02, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.197799999999999976e+00, -2.197999999999999954e-01, -1.000000000000000000e+00, 1.470000000000000195e+00, -9.999999999999997780e-01, 3.419000000000000372e-01, -2.439999999999999947e+00, 5.422000000000000153e-01, -2.439999999999999947e+00, 1.000000000000000000e+00, 6.172999999999999599e-01, -2.439999999999999947e+00, 5.422000000000000153e-01, -2.439999999999999947e+00, 1.000000000000000000e+00, 2.222199999999999953e+00, -2.439999999999999947e+00, 5.422000000000000153e-01, -2.439999999999999947e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.099999999999999867e+00, 2.443999999999999229e-01, -1.099999999999999867e+00, 6.999999999999998446e-01, -1.099999999999999867e+00, 2.443999999999999229e-01, -1.099999999999999867e+00, 1.000000000000000000e+00, -1.099999999999999867e+00, -1.099999999999999867e+00, 1.000000000000000000e+00, 9.999999999999997780e-01, -1.099999999999999867e+00, 2.443999999999999229e-01, -1.099999999999999867e+00, 7.000000000000000666e-01, -1.099999999999999867e+00, 2.443999999999999229e-01, -1.099999999999999867e+00, 6.999999999999999556e-01, -1.099999999999999867e+00, 2.443999999999999229e-01, -1.099999999999999867e+00, 2.000000000000000111e-01, -1.099999999999999867e+00, 2.443999999999999229e-01, -1.099999999999999867e+00, 2.000000000000000111e-01, -1.099999999999999867e+00, 2.443999999999999229e-01, -1.099999999999999867e+00, 2.400000000000000189e-01, 3.419000000000000372e-01, 5.422000000000000153e-01, -2.439999999999999947e+00, -2.439999999999999947e+00, 1.000000000000000000e+00, 6.172999999999999599e-01, 5.422000000000000153e-01, -2.439999999999999947e+00, -2.439999999999999947e+00, 1.000000000000000000e+00, 2.222199999999999953e+00, 5.422000000000000153e-01, -2.439999999999999947e+00, -2.439999999999999947e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 2.443999999999999229e-01, -1.099999999999999867e+00, -1.099999999999999867e+00, 6.999999999999998446e-01, 2.443999999999999229e-01, -1.099999999999999867e+00, -1.099999999999999867e+00, 1.000000000000000000e+00, -1.099999999999999867e+00, -1.099999999999999867e+00, 1.000000000000000000e+00, 9.999999999999997780e-01, 2.443999999999999229e-01, -1.099999999999999867e+00, -1.099999999999999867e+00, 7.000000000000000666e-01, 2.443999999999999229e-01, -1.099999999999999867e+00, -1.099999999999999867e+00, 6.999999999999999556e-01, 2.443999999999999229e-01, -1.099999999999999867e+00, -1.099999999999999867e+00, 2.000000000000000111e-01, 2.443999999999999229e-01, -1.099999999999999867e+00, -1.099999999999999867e+00, 2.000000000000000111e-01, 2.443999999999999229e-01, -1.099999999999999867e+00, -1.099999999999999867e+00, 2.400000000000000189e-01, -5.422000000000000153e-01, 3.419000000000000372e-01, 6.421999999999998820e-01, -2.890000000000000124e+00, -2.889999999999999680e+00, 9.999999999999998890e-01, -5.422000000000000153e-01, 6.172999999999999599e-01, 6.421999999999998820e-01, -2.890000000000000124e+00, -2.889999999999999680e+00, 1.000000000000000000e+00, -5.422000000000000153e-01, 2.222199999999999953e+00, 6.421999999999998820e-01, -2.890000000000000124e+00, -2.889999999999999680e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -2.444000000000000339e-01, 2.889000000000000457e-01, -1.300000000000000044e+00, -1.300000000000000266e+00, 6.999999999999999556e-01, -2.444000000000000339e-01, 2.889000000000000457e-01, -1.300000000000000044e+00, -1.300000000000000266e+00, 1.000000000000000000e+00, -2.444000000000000339e-01, -1.300000000000000044e+00, -1.300000000000000266e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, -2.444000000000000339e-01, 2.889000000000000457e-01, -1.300000000000000044e+00, -1.300000000000000266e+00, 6.999999999999999556e-01, -2.444000000000000339e-01, 2.889000000000000457e-01, -1.300000000000000044e+00, -1.300000000000000266e+00, 6.999999999999998446e-01, -2.444000000000000339e-01, 2.889000000000000457e-01, -1.300000000000000044e+00, -1.300000000000000266e+00, 2.000000000000000666e-01, -2.444000000000000339e-01, 2.889000000000000457e-01, -1.300000000000000044e+00, -1.300000000000000266e+00, 2.000000000000000389e-01, -2.444000000000000339e-01, 2.889000000000000457e-01, -1.300000000000000044e+00, -1.300000000000000266e+00, 2.400000000000000189e-01, 3.419000000000000372e-01, -2.440000000000000391e+00, 1.000000000000000222e+00, 6.172999999999999599e-01, -2.440000000000000391e+00, 1.000000000000000000e+00, 2.222200000000000397e+00, -2.439999999999999947e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.099999999999999867e+00, 7.999999999999999334e-01, -1.099999999999999867e+00, 1.000000000000000000e+00, -1.099999999999999867e+00, 9.999999999999998890e-01, -5.570000000000000284e+00, -1.099999999999999867e+00, 8.000000000000000444e-01, -1.099999999999999867e+00, 5.999999999999999778e-01, -1.099999999999999867e+00, 2.000000000000000111e-01, -1.099999999999999867e+00, 2.000000000000000111e-01, -1.099999999999999867e+00, 2.000000000000000111e-01, -4.889000000000000012e-01, 3.418999999999999817e-01, -2.799999999999999822e+00, 1.000000000000000000e+00, -4.889000000000000012e-01, 6.173000000000000709e-01, -2.799999999999999822e+00, 9.999999999999998890e-01, -4.889000000000000012e-01, 2.222199999999999953e+00, -2.799999999999999378e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -2.221999999999999809e-01, -1.260000000000000009e+00, 8.000000000000000444e-01, -2.221999999999999809e-01, -1.260000000000000009e+00, 1.000000000000000000e+00, -2.221999999999999809e-01, -1.260000000000000231e+00, 9.999999999999998890e-01, -5.570000000000000284e+00, -2.221999999999999809e-01, -1.260000000000000009e+00, 7.999999999999999334e-01, -2.221999999999999809e-01, -1.260000000000000009e+00, 5.999999999999998668e-01, -2.221999999999999809e-01, -1.260000000000000009e+00, 2.000000000000000389e-01, -2.221999999999999809e-01, -1.260000000000000009e+00, 2.000000000000000111e-01, -2.221999999999999809e-01, -1.260000000000000009e+00, 2.000000000000000111e-01, -4.937999999999999057e-01, 3.418999999999999262e-01, -3.299999999999998934e+00, 9.999999999999998890e-01, -4.937999999999999057e-01, 6.172999999999998488e-01, -3.299999999999998934e+00, 1.000000000000000000e+00, -4.938000000000000167e-01, 2.222199999999999953e+00, -3.299999999999999822e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -2.222000000000000086e-01, -1.499999999999999778e+00, 7.999999999999999334e-01, -2.222000000000000086e-01, -1.499999999999999778e+00, 9.999999999999998890e-01, -2.221999999999999809e-01, -1.500000000000000000e+00, 9.999999999999998890e-01, -5.570000000000000284e+00, -2.222000000000000086e-01, -1.499999999999999778e+00, 7.999999999999999334e-01, -2.222000000000000086e-01, -1.499999999999999778e+00, 5.999999999999999778e-01, -2.222000000000000086e-01, -1.499999999999999778e+00, 2.000000000000000666e-01, -2.222000000000000086e-01, -1.499999999999999778e+00, 1.999999999999999833e-01, -2.222000000000000086e-01, -1.499999999999999778e+00, 2.000000000000000111e-01, -1.030000000000000027e+00, -1.029999999999999805e+00, 9.999999999999998890e-01, 6.999999999999998446e-01, -1.239999999999999991e+00, -1.239999999999999547e+00, 8.300000000000000711e-01, -1.030000000000000027e+00, -1.029999999999999805e+00, 6.500000000000000222e-01, 6.500000000000001332e-01, -1.030000000000000027e+00, -1.030000000000000027e+00, 1.000000000000000000e+00, 6.999999999999999556e-01, -1.030000000000000027e+00, -1.030000000000000027e+00, 6.500000000000000222e-01, 6.500000000000000222e-01, -4.022000000000000575e-01, 3.418999999999999817e-01, 1.000000000000000000e+00, 2.419999999999999929e+00, -4.022000000000000575e-01, 6.173000000000000709e-01, 1.000000000000000000e+00, 2.419999999999999929e+00, -4.022000000000000575e-01, 2.222199999999999509e+00, -1.000000000000000000e+00, 2.419999999999999929e+00, -9.999999999999998890e-01, -2.221999999999999809e-01, 7.999999999999998224e-01, 1.330000000000000071e+00, -2.221999999999999809e-01, 2.700000000000000178e-01, 1.330000000000000071e+00, -2.221999999999999809e-01, 8.000000000000000444e-01, 1.330000000000000071e+00, -2.221999999999999809e-01, 5.999999999999998668e-01, 1.330000000000000071e+00, -2.221999999999999809e-01, 2.000000000000000111e-01, 1.330000000000000071e+00, -2.221999999999999809e-01, 2.500000000000000000e-01, 1.330000000000000071e+00, -2.221999999999999809e-01, 2.499999999999999722e-01, 1.330000000000000071e+00, -6.349000000000000199e-01, -5.780000000000000249e+00, 1.049999999999999822e+00, 5.000000000000000278e-02, -6.349000000000000199e-01, -5.780000000000000249e+00, 1.100000000000000311e+00, 1.000000000000000056e-01, -5.999999999999999778e-01, -6.348999999999999089e-01, -5.780000000000000249e+00, -1.000000000000000000e+00, -9.999999999999996669e-01, -6.999999999999998224e+00, -6.349000000000000199e-01, -5.780000000000000249e+00, 1.049999999999999822e+00, 5.000000000000000278e-02, -7.000000000000000666e-02, -2.221999999999999809e-01, -1.999999999999999778e+00, 2.699999999999999623e-01, -6.349000000000000199e-01, -5.780000000000000249e+00, -6.349000000000000199e-01, -5.780000000000000249e+00, 1.600000000000000089e+00, -1.000000000000000000e+00, -6.349000000000000199e-01, -5.780000000000000249e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -6.349000000000000199e-01, -5.780000000000000249e+00, -2.221999999999999809e-01, -1.999999999999999778e+00, 2.000000000000000389e-01, -2.221999999999999809e-01, -1.999999999999999778e+00, 2.000000000000000389e-01, -4.040000000000000258e-01, 3.418999999999999262e-01, -2.839999999999999858e+00, 1.000000000000000222e+00, -4.040000000000000258e-01, 6.172999999999999599e-01, -2.839999999999999858e+00, 1.000000000000000000e+00, -4.040000000000000258e-01, 2.222199999999999953e+00, -2.839999999999999858e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -2.221999999999999809e-01, -1.559999999999999609e+00, 7.999999999999998224e-01, -2.221999999999999809e-01, -1.559999999999999609e+00, 2.699999999999999623e-01, -2.221999999999999809e-01, -1.559999999999999609e+00, 8.000000000000000444e-01, -2.221999999999999809e-01, -1.559999999999999609e+00, 5.999999999999999778e-01, -2.221999999999999809e-01, -1.559999999999999609e+00, 2.000000000000000111e-01, -2.221999999999999809e-01, -1.559999999999999609e+00, 2.500000000000000555e-01, -2.221999999999999809e-01, -1.559999999999999609e+00, 2.499999999999999445e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 6.500000000000001332e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 6.500000000000001332e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 6.500000000000001332e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, -7.799999999999998579e+01, -9.999999999999998890e-01, -9.999999999999998890e-01, 1.000000000000000222e+00, 8.000000000000000444e-01, -6.210000000000000853e+01, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, -5.900000000000000711e+01, -1.000000000000000222e+00, -1.000000000000000222e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 2.200000000000000011e-01, 1.000000000000000000e+00, 8.000000000000000444e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.730000000000000204e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 6.500000000000001332e-01, 1.000000000000000000e+00, -1.199999999999999956e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 6.500000000000001332e-01, 1.000000000000000000e+00, 2.600000000000000089e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, 1.000000000000000000e+00, 1.499999999999999944e-01, -1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000000e+00, 6.500000000000001332e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, 1.000000000000000000e+00, 1.149999999999999689e+00, -9.999999999999998890e-01, 1.000000000000000000e+00, 8.000000000000000444e-01, 1.000000000000000000e+00, 5.000000000000000000e-01, -1.000000000000000000e+00, 1.000000000000000222e+00, 8.000000000000000444e-01, 9.999999999999997780e-01, 5.400000000000000355e+00, -9.999999999999997780e-01, 1.000000000000000222e+00, 8.000000000000000444e-01, 1.000000000000000000e+00, 1.179999999999999938e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, 1.000000000000000000e+00, 1.000000000000000056e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, 1.000000000000000000e+00, 2.500000000000000000e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, 1.000000000000000000e+00, 3.499999999999999778e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, 1.000000000000000000e+00, 1.700000000000000122e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.199999999999999956e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.149999999999999689e+00, -9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.129999999999999893e+00, -9.999999999999998890e-01, 4.799999999999999822e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.149999999999999689e+00, -9.999999999999998890e-01, 1.149999999999999689e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -9.999999999999998890e-01, 1.149999999999999689e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -9.999999999999998890e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 6.999999999999999556e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000222e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 9.999999999999997780e-01, 1.000000000000000000e+00, -3.569999999999999840e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999997780e-01, 1.000000000000000000e+00, -3.569999999999999840e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 3.569999999999999840e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 3.640000000000000180e-02, -1.000000000000000000e+00, 1.000000000000000000e+00, -3.640000000000000180e-02, 1.000000000000000000e+00, -3.640000000000000180e-02, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 2.443999999999999992e-02, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.600000000000000077e-03, 2.349999999999999867e-01, 1.778000000000000067e-02, 9.999999999999998890e-01, 1.100000000000000066e-03, 2.240000000000000047e-01, 4.000000000000000083e-02, 3.640000000000000180e-02, -1.000000000000000000e+00, 2.099999999999999870e-03, 2.590000000000000080e-01, 4.000000000000000083e-02, 1.000000000000000000e+00, 2.099999999999999870e-03, 2.590000000000000080e-01, 3.640000000000000180e-02, 1.063999999999999946e-01, 1.000000000000000000e+00, -3.640000000000000180e-02, 3.640000000000000180e-02, -1.000000000000000000e+00, 1.000000000000000000e+00, -2.747000000000001108e-01, -2.198000000000000231e-01, -3.149999999999999911e+00, 1.050000000000000044e+00, 5.000000000000000278e-02, -4.396000000000000463e-01, -2.198000000000000231e-01, -3.149999999999999911e+00, 1.100000000000000311e+00, -5.999999999999999778e-01, 1.000000000000000056e-01, -2.197800000000000420e+00, -2.197999999999999676e-01, -3.149999999999999911e+00, 1.000000000000000000e+00, -6.999999999999998224e+00, -9.999999999999996669e-01, -2.198000000000000231e-01, -3.149999999999999911e+00, 9.999999999999998890e-01, -1.000000000000000000e+00, -2.930000000000000382e-01, -2.198000000000000231e-01, -3.149999999999999911e+00, 1.050000000000000044e+00, -7.000000000000000666e-02, 5.000000000000000278e-02, -5.233000000000003205e-01, -2.198000000000000231e-01, -3.149999999999999911e+00, 1.600000000000000089e+00, -9.999999999999997780e-01, -2.747000000000001108e-01, -2.198000000000000231e-01, -3.149999999999999911e+00, -1.000000000000000000e+00, -2.197999999999999954e-01, -3.149999999999999911e+00, 3.600000000000000533e+00, 1.250000000000000000e+00, 1.999999999999999833e-01, -2.198000000000000231e-01, -3.149999999999999911e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, -2.747000000000001108e-01, -2.198000000000000231e-01, -3.149999999999999911e+00, -1.000000000000000000e+00, -4.396000000000000463e-01, -2.198000000000000231e-01, -3.149999999999999911e+00, -5.999999999999999778e-01, 1.000000000000000056e-01, 1.000000000000000000e+00, -2.198000000000000231e-01, -3.149999999999999911e+00, 5.999999999999999778e-01, 6.000000000000000888e-01, 9.999999999999998890e-01, -2.746999999999999997e-01, -2.197999999999999954e-01, -3.240000000000000213e+00, 1.050000000000000044e+00, 5.000000000000000971e-02, -4.395999999999999353e-01, -2.197999999999999954e-01, -3.240000000000000213e+00, 1.100000000000000089e+00, 1.000000000000000194e-01, -6.000000000000000888e-01, -2.197800000000000420e+00, -2.197999999999999676e-01, -3.240000000000000657e+00, 1.000000000000000000e+00, -9.999999999999996669e-01, -6.999999999999998224e+00, -2.197999999999999954e-01, -3.240000000000000213e+00, -9.999999999999998890e-01, 1.000000000000000000e+00, -2.929999999999999827e-01, -2.197999999999999954e-01, -3.240000000000000213e+00, 1.050000000000000044e+00, 5.000000000000000971e-02, -7.000000000000002054e-02, -5.233000000000000984e-01, -2.197999999999999954e-01, -3.240000000000000213e+00, 1.600000000000000089e+00, -1.000000000000000000e+00, -2.746999999999999997e-01, -2.197999999999999954e-01, -3.240000000000000213e+00, -1.000000000000000222e+00, -2.197999999999999954e-01, -3.239999999999999769e+00, 3.600000000000000533e+00, 1.999999999999999833e-01, 1.250000000000000000e+00, -2.197999999999999954e-01, -3.240000000000000213e+00, 1.000000000000000222e+00, 1.000000000000000222e+00, 1.000000000000000000e+00, -2.746999999999999997e-01, -2.197999999999999954e-01, -3.240000000000000213e+00, -1.000000000000000222e+00, -4.395999999999999353e-01, -2.197999999999999954e-01, -3.240000000000000213e+00, 1.000000000000000194e-01, 1.000000000000000222e+00, -6.000000000000000888e-01, -2.197999999999999954e-01, -3.240000000000000213e+00, 5.999999999999999778e-01, 5.999999999999998668e-01, 1.000000000000000000e+00, -2.746999999999999997e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 1.049999999999999822e+00, 4.999999999999999584e-02, -4.395999999999999353e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 1.100000000000000089e+00, -5.999999999999999778e-01, 9.999999999999999167e-02, -2.197800000000000420e+00, -2.198000000000000509e-01, 7.066999999999998838e-01, -3.180000000000000604e+00, 1.000000000000000000e+00, -6.999999999999998224e+00, -9.999999999999996669e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 9.999999999999997780e-01, -9.999999999999997780e-01, -2.929999999999999827e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 1.049999999999999822e+00, -6.999999999999999278e-02, 4.999999999999999584e-02, -5.232999999999999874e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 1.599999999999999867e+00, -9.999999999999998890e-01, -2.746999999999999997e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, -9.999999999999998890e-01, -2.198000000000000231e-01, 7.066999999999998838e-01, -3.179999999999999716e+00, 3.600000000000000533e+00, 1.250000000000000000e+00, 1.999999999999999833e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 9.999999999999998890e-01, 9.999999999999997780e-01, 9.999999999999998890e-01, -2.746999999999999997e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, -9.999999999999998890e-01, -4.395999999999999353e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, -5.999999999999999778e-01, 9.999999999999999167e-02, 9.999999999999998890e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 5.999999999999998668e-01, 5.999999999999998668e-01, 9.999999999999997780e-01, -2.746999999999999997e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 1.049999999999999822e+00, 4.999999999999999584e-02, -4.395999999999999353e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 1.100000000000000089e+00, 9.999999999999999167e-02, -5.999999999999999778e-01, -2.197800000000000420e+00, -2.198000000000000509e-01, 7.066999999999998838e-01, -3.180000000000000604e+00, 1.000000000000000000e+00, -9.999999999999996669e-01, -6.999999999999998224e+00, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, -9.999999999999997780e-01, 9.999999999999997780e-01, -2.929999999999999827e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 1.049999999999999822e+00, 4.999999999999999584e-02, -6.999999999999999278e-02, -5.232999999999999874e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 1.599999999999999867e+00, -9.999999999999995559e-01, -2.746999999999999997e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, -9.999999999999998890e-01, -2.198000000000000231e-01, 7.066999999999998838e-01, -3.179999999999999716e+00, 3.600000000000000533e+00, 1.999999999999999833e-01, 1.250000000000000000e+00, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 9.999999999999998890e-01, 9.999999999999998890e-01, 9.999999999999997780e-01, -2.746999999999999997e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, -9.999999999999998890e-01, -4.395999999999999353e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 9.999999999999999167e-02, 9.999999999999998890e-01, -5.999999999999999778e-01, -2.197999999999999954e-01, 7.066999999999999948e-01, -3.180000000000000160e+00, 5.999999999999998668e-01, 5.999999999999998668e-01, 9.999999999999997780e-01, -2.197800000000000420e+00, -2.197999999999999676e-01, 1.073299999999999921e+00, -4.830000000000000071e+00, -1.000000000000000000e+00, -6.999999999999998224e+00, -9.999999999999996669e-01, -2.747000000000000552e-01, -2.198000000000000231e-01, -3.180000000000000604e+00, 1.050000000000000044e+00, 5.000000000000000971e-02, -4.396000000000000463e-01, -2.198000000000000231e-01, -3.180000000000000604e+00, 1.100000000000000311e+00, 1.000000000000000194e-01, -6.000000000000001998e-01, -2.197800000000000420e+00, -2.198000000000000509e-01, -3.180000000000000604e+00, 1.000000000000000000e+00, -9.999999999999996669e-01, -6.999999999999998224e+00, -2.198000000000000231e-01, -3.180000000000000604e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -2.929999999999999827e-01, -2.198000000000000231e-01, -3.180000000000000604e+00, 1.050000000000000044e+00, 5.000000000000000971e-02, -7.000000000000000666e-02, -5.233000000000000984e-01, -2.198000000000000231e-01, -3.180000000000000604e+00, 1.600000000000000089e+00, -9.999999999999998890e-01, -2.747000000000000552e-01, -2.198000000000000231e-01, -3.180000000000000604e+00, -1.000000000000000222e+00, -2.198000000000000231e-01, -3.179999999999999716e+00, 3.600000000000000533e+00, 1.999999999999999833e-01, 1.250000000000000000e+00, -2.198000000000000231e-01, -3.180000000000000604e+00, 1.000000000000000222e+00, 1.000000000000000222e+00, 1.000000000000000000e+00, -2.747000000000000552e-01, -2.198000000000000231e-01, -3.180000000000000604e+00, -1.000000000000000222e+00, -4.396000000000000463e-01, -2.198000000000000231e-01, -3.180000000000000604e+00, 1.000000000000000194e-01, 1.000000000000000222e+00, -6.000000000000001998e-01, -2.198000000000000231e-01, -3.180000000000000604e+00, 6.000000000000000888e-01, 5.999999999999999778e-01, 1.000000000000000000e+00, -2.746999999999999997e-01, -2.197999999999999954e-01, 9.778000000000002245e-01, -4.400000000000001243e+00, 1.000000000000000222e+00, -2.000000000000000000e+00, -2.000000000000000888e+00, -4.395999999999999908e-01, -2.197999999999999954e-01, 9.778000000000002245e-01, -4.400000000000001243e+00, 1.000000000000000000e+00, -2.000000000000000000e+00, -8.000000000000000444e-01, -2.000000000000000888e+00, 1.000000000000000000e+00, 2.000000000000000000e+00, 1.500000000000000000e+00, 2.500000000000000000e+00, 9.778000000000002245e-01, -4.400000000000001243e+00, 5.999999999999999778e-01, -2.000000000000000000e+00, 1.000000000000000000e+00, -2.000000000000000888e+00, -2.747000000000000552e-01, -2.197999999999999954e-01, -3.550000000000000711e+01, 1.050000000000000044e+00, 4.999999999999999584e-02, -4.396000000000000463e-01, -2.197999999999999954e-01, -3.550000000000000711e+01, 1.100000000000000311e+00, -5.999999999999999778e-01, 9.999999999999999167e-02, -2.197799999999999976e+00, -2.197999999999999954e-01, -3.550000000000000711e+01, 1.000000000000000000e+00, -6.999999999999999112e+00, -9.999999999999997780e-01, -2.197999999999999954e-01, -3.550000000000000711e+01, 1.000000000000000000e+00, -9.999999999999998890e-01, -2.930000000000000382e-01, -2.197999999999999954e-01, -3.550000000000000711e+01, 1.050000000000000044e+00, -7.000000000000000666e-02, 4.999999999999999584e-02, -5.233000000000000984e-01, -2.197999999999999954e-01, -3.550000000000000711e+01, 1.600000000000000089e+00, -9.999999999999998890e-01, -2.747000000000000552e-01, -2.197999999999999954e-01, -3.550000000000000711e+01, -1.000000000000000000e+00, -2.197999999999999954e-01, -3.550000000000000711e+01, 3.600000000000000089e+00, 1.250000000000000000e+00, 1.999999999999999833e-01, -2.197999999999999954e-01, -3.550000000000000711e+01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.747000000000000552e-01, -2.197999999999999954e-01, -3.550000000000000711e+01, -1.000000000000000000e+00, -4.396000000000000463e-01, -2.197999999999999954e-01, -3.550000000000000711e+01, -5.999999999999999778e-01, 9.999999999999999167e-02, 1.000000000000000000e+00, -2.197999999999999954e-01, -3.550000000000000711e+01, 5.999999999999999778e-01, 5.999999999999999778e-01, 1.000000000000000000e+00, -2.747000000000000552e-01, -2.198000000000000231e-01, -3.100000000000000355e+01, 1.050000000000000044e+00, 5.000000000000000278e-02, -4.395999999999999353e-01, -2.198000000000000231e-01, -3.100000000000000355e+01, 1.100000000000000311e+00, -6.000000000000000888e-01, 1.000000000000000056e-01, -2.197799999999999976e+00, -2.198000000000000231e-01, -3.100000000000000355e+01, 1.000000000000000000e+00, -7.000000000000001776e+00, -9.999999999999998890e-01, -2.198000000000000231e-01, -3.100000000000000355e+01, 1.000000000000000000e+00, -1.000000000000000000e+00, -2.929999999999999827e-01, -2.198000000000000231e-01, -3.100000000000000355e+01, 1.050000000000000044e+00, -7.000000000000002054e-02, 5.000000000000000278e-02, -5.233000000000002094e-01, -2.198000000000000231e-01, -3.100000000000000355e+01, 1.600000000000000311e+00, -1.000000000000000000e+00, -2.747000000000000552e-01, -2.198000000000000231e-01, -3.100000000000000355e+01, -1.000000000000000000e+00, -2.198000000000000231e-01, -3.100000000000000355e+01, 3.600000000000000977e+00, 1.250000000000000000e+00, 2.000000000000000111e-01, -2.198000000000000231e-01, -3.100000000000000355e+01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.747000000000000552e-01, -2.198000000000000231e-01, -3.100000000000000355e+01, -1.000000000000000000e+00, -4.395999999999999353e-01, -2.198000000000000231e-01, -3.100000000000000355e+01, -6.000000000000000888e-01, 1.000000000000000056e-01, 1.000000000000000000e+00, -2.198000000000000231e-01, -3.100000000000000355e+01, 6.000000000000000888e-01, 5.999999999999999778e-01, 1.000000000000000000e+00, -2.746999999999999997e-01, -2.197999999999999676e-01, -9.999999999999998890e-01, 1.049999999999999822e+00, 4.999999999999998890e-02, -4.396000000000001018e-01, -2.197999999999999954e-01, -1.000000000000000000e+00, 1.100000000000000089e+00, 9.999999999999999167e-02, -5.999999999999999778e-01, -2.197800000000000420e+00, -2.197999999999999676e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, -9.999999999999996669e-01, -6.999999999999998224e+00, -2.197999999999999954e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -2.930000000000000382e-01, -2.197999999999999676e-01, -9.999999999999998890e-01, 1.049999999999999822e+00, 4.999999999999998890e-02, -6.999999999999999278e-02, -5.233000000000000984e-01, -2.197999999999999954e-01, -1.000000000000000000e+00, 1.600000000000000089e+00, -9.999999999999996669e-01, -2.747000000000000552e-01, -2.197999999999999954e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -2.197999999999999954e-01, -1.000000000000000000e+00, 3.600000000000000533e+00, 1.999999999999999833e-01, 1.250000000000000000e+00, -2.197999999999999954e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.747000000000000552e-01, -2.197999999999999954e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -4.396000000000000463e-01, -2.197999999999999954e-01, -1.000000000000000000e+00, 9.999999999999999167e-02, 1.000000000000000000e+00, -5.999999999999999778e-01, -2.197999999999999954e-01, -1.000000000000000000e+00, 5.999999999999999778e-01, 5.999999999999999778e-01, 1.000000000000000000e+00, -2.746999999999999997e-01, -2.197999999999999676e-01, 1.049999999999999822e+00, 4.999999999999998890e-02, -4.396000000000001018e-01, -2.197999999999999954e-01, 1.100000000000000089e+00, 9.999999999999999167e-02, -5.999999999999999778e-01, -2.197800000000000420e+00, -2.197999999999999676e-01, 1.000000000000000000e+00, -9.999999999999996669e-01, -6.999999999999998224e+00, -2.197999999999999954e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, -2.930000000000000382e-01, -2.197999999999999676e-01, 1.049999999999999822e+00, 4.999999999999998890e-02, -6.999999999999999278e-02, -5.233000000000000984e-01, -2.197999999999999954e-01, 1.600000000000000089e+00, -9.999999999999996669e-01, -2.747000000000000552e-01, -2.197999999999999954e-01, -1.000000000000000000e+00, -2.197999999999999954e-01, 3.600000000000000533e+00, 1.999999999999999833e-01, 1.250000000000000000e+00, -2.197999999999999954e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.747000000000000552e-01, -2.197999999999999954e-01, -1.000000000000000000e+00, -4.396000000000000463e-01, -2.197999999999999954e-01, 9.999999999999999167e-02, 1.000000000000000000e+00, -5.999999999999999778e-01, -2.197999999999999954e-01, 5.999999999999999778e-01, 5.999999999999999778e-01, 1.000000000000000000e+00, -2.746999999999999997e-01, -2.197999999999999676e-01, 1.049999999999999822e+00, 4.999999999999998890e-02, -4.396000000000001018e-01, -2.197999999999999954e-01, 1.100000000000000089e+00, -5.999999999999999778e-01, 9.999999999999999167e-02, -2.197800000000000420e+00, -2.197999999999999676e-01, 1.000000000000000000e+00, -6.999999999999998224e+00, -9.999999999999996669e-01, -2.197999999999999954e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, -2.930000000000000382e-01, -2.197999999999999676e-01, 1.049999999999999822e+00, -6.999999999999999278e-02, 4.999999999999998890e-02, -5.233000000000000984e-01, -2.197999999999999954e-01, 1.600000000000000089e+00, -9.999999999999996669e-01, -2.747000000000000552e-01, -2.197999999999999954e-01, -1.000000000000000000e+00, -2.197999999999999954e-01, 3.600000000000000533e+00, 1.250000000000000000e+00, 1.999999999999999833e-01, -2.197999999999999954e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.747000000000000552e-01, -2.197999999999999954e-01, -1.000000000000000000e+00, -4.396000000000000463e-01, -2.197999999999999954e-01, -5.999999999999999778e-01, 9.999999999999999167e-02, 1.000000000000000000e+00, -2.197999999999999954e-01, 5.999999999999999778e-01, 5.999999999999999778e-01, 1.000000000000000000e+00, -2.746999999999999997e-01, -2.197999999999999676e-01, 1.049999999999999822e+00, 4.999999999999998890e-02, -4.395999999999999908e-01, -2.197999999999999954e-01, 1.100000000000000089e+00, 9.999999999999999167e-02, 1.000000000000000000e+00, 1.000000000000000000e+00, -2.197799999999999976e+00, -2.197999999999999954e-01, -1.000000000000000000e+00, 1.470000000000000195e+00, -9.999999999999997780e-01, 3.419000000000000372e-01, -2.439999999999999947e+00, 5.422000000000000153e-01, -2.439999999999999947e+00, 1.000000000000000000e+00, 6.172999999999999599e-01, -2.439999999999999947e+00, 5.422000000000000153e-01, -2.439999999999999947e+00, 1.000000000000000000e+00, 2.222199999999999953e+00, -2.439999999999999947e+00, 5.422000000000000153e-01, -2.439999999999999947e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.099999999999999867e+00, 2.443999999999999229e-01, -1.099999999999999867e+00, 6.999999999999998446e-01, -1.099999999999999867e+00, 2.443999999999999229e-01, -1.099999999999999867e+00, 1.000000000000000000e+00, -1.099999999999999867e+00, -1.099999999999999867e+00, 1.000000000000000000e+00, 9.999999999999997780e-01, -1.099999999999999867e+00, 2.443999999999999229e-01, -1.099999999999999867e+00, 7.000000000000000666e-01, -1.099999999999999867e+00, 2.443999999999999229e-01, -1.099999999999999867e+00, 6.999999999999999556e-01, -1.099999999999999867e+00, 2.443999999999999229e-01, -1.099999999999999867e+00, 2.000000000000000111e-01, -1.099999999999999867e+00, 2.443999999999999229e-01, -1.099999999999999867e+00, 2.000000000000000111e-01, -1.099999999999999867e+00, 2.443999999999999229e-01, -1.099999999999999867e+00, 2.400000000000000189e-01, 3.419000000000000372e-01, 5.422000000000000153e-01, -2.439999999999999947e+00, -2.439999999999999947e+00, 1.000000000000000000e+00, 6.172999999999999599e-01, 5.422000000000000153e-01, -2.439999999999999947e+00, -2.439999999999999947e+00, 1.000000000000000000e+00, 2.222199999999999953e+00, 5.422000000000000153e-01, -2.439999999999999947e+00, -2.439999999999999947e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 2.443999999999999229e-01, -1.099999999999999867e+00, -1.099999999999999867e+00, 6.999999999999998446e-01, 2.443999999999999229e-01, -1.099999999999999867e+00, -1.099999999999999867e+00, 1.000000000000000000e+00, -1.099999999999999867e+00, -1.099999999999999867e+00, 1.000000000000000000e+00, 9.999999999999997780e-01, 2.443999999999999229e-01, -1.099999999999999867e+00, -1.099999999999999867e+00, 7.000000000000000666e-01, 2.443999999999999229e-01, -1.099999999999999867e+00, -1.099999999999999867e+00, 6.999999999999999556e-01, 2.443999999999999229e-01, -1.099999999999999867e+00, -1.099999999999999867e+00, 2.000000000000000111e-01, 2.443999999999999229e-01, -1.099999999999999867e+00, -1.099999999999999867e+00, 2.000000000000000111e-01, 2.443999999999999229e-01, -1.099999999999999867e+00, -1.099999999999999867e+00, 2.400000000000000189e-01, -5.422000000000000153e-01, 3.419000000000000372e-01, 6.421999999999998820e-01, -2.890000000000000124e+00, -2.889999999999999680e+00, 9.999999999999998890e-01, -5.422000000000000153e-01, 6.172999999999999599e-01, 6.421999999999998820e-01, -2.890000000000000124e+00, -2.889999999999999680e+00, 1.000000000000000000e+00, -5.422000000000000153e-01, 2.222199999999999953e+00, 6.421999999999998820e-01, -2.890000000000000124e+00, -2.889999999999999680e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -2.444000000000000339e-01, 2.889000000000000457e-01, -1.300000000000000044e+00, -1.300000000000000266e+00, 6.999999999999999556e-01, -2.444000000000000339e-01, 2.889000000000000457e-01, -1.300000000000000044e+00, -1.300000000000000266e+00, 1.000000000000000000e+00, -2.444000000000000339e-01, -1.300000000000000044e+00, -1.300000000000000266e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, -2.444000000000000339e-01, 2.889000000000000457e-01, -1.300000000000000044e+00, -1.300000000000000266e+00, 6.999999999999999556e-01, -2.444000000000000339e-01, 2.889000000000000457e-01, -1.300000000000000044e+00, -1.300000000000000266e+00, 6.999999999999998446e-01, -2.444000000000000339e-01, 2.889000000000000457e-01, -1.300000000000000044e+00, -1.300000000000000266e+00, 2.000000000000000666e-01, -2.444000000000000339e-01, 2.889000000000000457e-01, -1.300000000000000044e+00, -1.300000000000000266e+00, 2.000000000000000389e-01, -2.444000000000000339e-01, 2.889000000000000457e-01, -1.300000000000000044e+00, -1.300000000000000266e+00, 2.400000000000000189e-01, 3.419000000000000372e-01, -2.440000000000000391e+00, 1.000000000000000222e+00, 6.172999999999999599e-01, -2.440000000000000391e+00, 1.000000000000000000e+00, 2.222200000000000397e+00, -2.439999999999999947e+00, -1.000000000000000222e+00, -1.000000000000000222e+00, -1.099999999999999867e+00, 7.999999999999999334e-01, -1.099999999999999867e+00, 1.000000000000000000e+00, -1.099999999999999867e+00, 9.999999999999998890e-01, -5.570000000000000284e+00, -1.099999999999999867e+00, 8.000000000000000444e-01, -1.099999999999999867e+00, 5.999999999999999778e-01, -1.099999999999999867e+00, 2.000000000000000111e-01, -1.099999999999999867e+00, 2.000000000000000111e-01, -1.099999999999999867e+00, 2.000000000000000111e-01, -4.889000000000000012e-01, 3.418999999999999817e-01, -2.799999999999999822e+00, 1.000000000000000000e+00, -4.889000000000000012e-01, 6.173000000000000709e-01, -2.799999999999999822e+00, 9.999999999999998890e-01, -4.889000000000000012e-01, 2.222199999999999953e+00, -2.799999999999999378e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -2.221999999999999809e-01, -1.260000000000000009e+00, 8.000000000000000444e-01, -2.221999999999999809e-01, -1.260000000000000009e+00, 1.000000000000000000e+00, -2.221999999999999809e-01, -1.260000000000000231e+00, 9.999999999999998890e-01, -5.570000000000000284e+00, -2.221999999999999809e-01, -1.260000000000000009e+00, 7.999999999999999334e-01, -2.221999999999999809e-01, -1.260000000000000009e+00, 5.999999999999998668e-01, -2.221999999999999809e-01, -1.260000000000000009e+00, 2.000000000000000389e-01, -2.221999999999999809e-01, -1.260000000000000009e+00, 2.000000000000000111e-01, -2.221999999999999809e-01, -1.260000000000000009e+00, 2.000000000000000111e-01, -4.937999999999999057e-01, 3.418999999999999262e-01, -3.299999999999998934e+00, 9.999999999999998890e-01, -4.937999999999999057e-01, 6.172999999999998488e-01, -3.299999999999998934e+00, 1.000000000000000000e+00, -4.938000000000000167e-01, 2.222199999999999953e+00, -3.299999999999999822e+00, -1.000000000000000000e+00, -9.999999999999997780e-01, -2.222000000000000086e-01, -1.499999999999999778e+00, 7.999999999999999334e-01, -2.222000000000000086e-01, -1.499999999999999778e+00, 9.999999999999998890e-01, -2.221999999999999809e-01, -1.500000000000000000e+00, 9.999999999999998890e-01, -5.570000000000000284e+00, -2.222000000000000086e-01, -1.499999999999999778e+00, 7.999999999999999334e-01, -2.222000000000000086e-01, -1.499999999999999778e+00, 5.999999999999999778e-01, -2.222000000000000086e-01, -1.499999999999999778e+00, 2.000000000000000666e-01, -2.222000000000000086e-01, -1.499999999999999778e+00, 1.999999999999999833e-01, -2.222000000000000086e-01, -1.499999999999999778e+00, 2.000000000000000111e-01, -1.030000000000000027e+00, -1.029999999999999805e+00, 9.999999999999998890e-01, 6.999999999999998446e-01, -1.239999999999999991e+00, -1.239999999999999547e+00, 8.300000000000000711e-01, -1.030000000000000027e+00, -1.029999999999999805e+00, 6.500000000000000222e-01, 6.500000000000001332e-01, -1.030000000000000027e+00, -1.030000000000000027e+00, 1.000000000000000000e+00, 6.999999999999999556e-01, -1.030000000000000027e+00, -1.030000000000000027e+00, 6.500000000000000222e-01, 6.500000000000000222e-01, -4.022000000000000575e-01, 3.418999999999999817e-01, 1.000000000000000000e+00, 2.419999999999999929e+00, -4.022000000000000575e-01, 6.173000000000000709e-01, 1.000000000000000000e+00, 2.419999999999999929e+00, -4.022000000000000575e-01, 2.222199999999999509e+00, -1.000000000000000000e+00, 2.419999999999999929e+00, -9.999999999999998890e-01, -2.221999999999999809e-01, 7.999999999999998224e-01, 1.330000000000000071e+00, -2.221999999999999809e-01, 2.700000000000000178e-01, 1.330000000000000071e+00, -2.221999999999999809e-01, 8.000000000000000444e-01, 1.330000000000000071e+00, -2.221999999999999809e-01, 5.999999999999998668e-01, 1.330000000000000071e+00, -2.221999999999999809e-01, 2.000000000000000111e-01, 1.330000000000000071e+00, -2.221999999999999809e-01, 2.500000000000000000e-01, 1.330000000000000071e+00, -2.221999999999999809e-01, 2.499999999999999722e-01, 1.330000000000000071e+00, -6.349000000000000199e-01, -5.780000000000000249e+00, 1.049999999999999822e+00, 5.000000000000000278e-02, -6.349000000000000199e-01, -5.780000000000000249e+00, 1.100000000000000311e+00, 1.000000000000000056e-01, -5.999999999999999778e-01, -6.348999999999999089e-01, -5.780000000000000249e+00, -1.000000000000000000e+00, -9.999999999999996669e-01, -6.999999999999998224e+00, -6.349000000000000199e-01, -5.780000000000000249e+00, 1.049999999999999822e+00, 5.000000000000000278e-02, -7.000000000000000666e-02, -2.221999999999999809e-01, -1.999999999999999778e+00, 2.699999999999999623e-01, -6.349000000000000199e-01, -5.780000000000000249e+00, -6.349000000000000199e-01, -5.780000000000000249e+00, 1.600000000000000089e+00, -1.000000000000000000e+00, -6.349000000000000199e-01, -5.780000000000000249e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -6.349000000000000199e-01, -5.780000000000000249e+00, -2.221999999999999809e-01, -1.999999999999999778e+00, 2.000000000000000389e-01, -2.221999999999999809e-01, -1.999999999999999778e+00, 2.000000000000000389e-01, -4.040000000000000258e-01, 3.418999999999999262e-01, -2.839999999999999858e+00, 1.000000000000000222e+00, -4.040000000000000258e-01, 6.172999999999999599e-01, -2.839999999999999858e+00, 1.000000000000000000e+00, -4.040000000000000258e-01, 2.222199999999999953e+00, -2.839999999999999858e+00, -1.000000000000000000e+00, -9.999999999999998890e-01, -2.221999999999999809e-01, -1.559999999999999609e+00, 7.999999999999998224e-01, -2.221999999999999809e-01, -1.559999999999999609e+00, 2.699999999999999623e-01, -2.221999999999999809e-01, -1.559999999999999609e+00, 8.000000000000000444e-01, -2.221999999999999809e-01, -1.559999999999999609e+00, 5.999999999999999778e-01, -2.221999999999999809e-01, -1.559999999999999609e+00, 2.000000000000000111e-01, -2.221999999999999809e-01, -1.559999999999999609e+00, 2.500000000000000555e-01, -2.221999999999999809e-01, -1.559999999999999609e+00, 2.499999999999999445e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, 1.000000000000000000e+00, 6.500000000000001332e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 6.500000000000001332e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 6.500000000000001332e-01, 1.000000000000000000e+00, 8.000000000000000444e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, -7.799999999999998579e+01, -7.799999999999998579e+01, -9.999999999999998890e-01, 1.000000000000000222e+00, 8.000000000000000444e-01, -6.210000000000000853e+01, -1.000000000000000000e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, -5.900000000000000711e+01, -5.900000000000000711e+01, -1.000000000000000222e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, -1.000000000000000000e+00, 2.200000000000000011e-01, 1.000000000000000000e+00, 8.000000000000000444e-01, 1.000000000000000000e+00, 1.730000000000000204e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 6.500000000000001332e-01, 1.000000000000000000e+00, -1.199999999999999956e-01, 1.000000000000000000e+00, 6.500000000000001332e-01, 1.000000000000000000e+00, 2.600000000000000089e-01, 1.000000000000000000e+00, 8.000000000000000444e-01, 1.000000000000000000e+00, 1.499999999999999944e-01, 1.000000000000000056e-01, 1.000000000000000000e+00, 6.500000000000001332e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, 1.000000000000000000e+00, 1.149999999999999689e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, 1.000000000000000000e+00, 5.000000000000000000e-01, 1.000000000000000222e+00, 8.000000000000000444e-01, 9.999999999999997780e-01, 5.400000000000000355e+00, 1.000000000000000222e+00, 8.000000000000000444e-01, 1.000000000000000000e+00, 1.179999999999999938e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000000e+00, 8.000000000000000444e-01, 1.000000000000000000e+00, 2.500000000000000000e-01, 1.000000000000000000e+00, 8.000000000000000444e-01, 1.000000000000000000e+00, 3.499999999999999778e-01, 1.000000000000000000e+00, 8.000000000000000444e-01, 1.000000000000000000e+00, 1.700000000000000122e-01, 1.000000000000000000e+00, 1.199999999999999956e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.149999999999999689e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.129999999999999893e+00, 4.799999999999999822e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.149999999999999689e+00, 1.149999999999999689e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.149999999999999689e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, -1.000000000000000000e+00, 6.999999999999999556e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, 2.200000000000000011e-01, 1.000000000000000000e+00, 8.000000000000000444e-01, 1.000000000000000000e+00, 1.730000000000000204e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 6.500000000000001332e-01, 1.000000000000000000e+00, -1.199999999999999956e-01, 1.000000000000000000e+00, 6.500000000000001332e-01, 1.000000000000000000e+00, 2.600000000000000089e-01, 1.000000000000000000e+00, 8.000000000000000444e-01, 1.000000000000000000e+00, 1.499999999999999944e-01, 1.000000000000000056e-01, 1.000000000000000000e+00, 6.500000000000001332e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, 9.999999999999998890e-01, 1.149999999999999689e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, 1.000000000000000000e+00, 5.000000000000000000e-01, 1.000000000000000222e+00, 8.000000000000000444e-01, 9.999999999999997780e-01, 5.400000000000000355e+00, 1.000000000000000222e+00, 8.000000000000000444e-01, 1.000000000000000000e+00, 1.179999999999999938e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, 1.000000000000000000e+00, 1.000000000000000056e-01, 1.000000000000000000e+00, 8.000000000000000444e-01, 1.000000000000000000e+00, 2.500000000000000000e-01, 1.000000000000000000e+00, 8.000000000000000444e-01, 1.000000000000000000e+00, 3.499999999999999778e-01, 1.000000000000000000e+00, 8.000000000000000444e-01, 1.000000000000000000e+00, 1.700000000000000122e-01, 1.000000000000000000e+00, 1.199999999999999956e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.149999999999999689e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.129999999999999893e+00, 4.799999999999999822e-01, 1.000000000000000000e+00, 1.000000000000000000e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.149999999999999689e+00, 1.149999999999999689e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.149999999999999689e+00, 1.000000000000000000e+00, 9.999999999999998890e-01, 1.000000000000000000e+00, -1.000000000000000000e+00, 6.999999999999999556e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, -1.000000000000000000e+00, 1.000000000000000000e+00, 8.000000000000000444e-01, -3.640000000000000180e-02, -1.000000000000000000e+00};
pfloat lp_bnl1_b[643] = {-4.000000000000000000e+00, 0.0, -2.500000000000000000e+00, -8.499999999999999778e-01, -1.699999999999999956e+00, -1.830000000000000071e+00, -2.999999999999999889e-02, -6.000000000000000000e+00, -2.999999999999999889e-01, -1.800000000000000044e+00, -1.000000000000000056e-01, -2.999999999999999889e-02, -2.500000000000000000e+00, -2.000000000000000111e-01, 0.0, -1.570000000000000062e+00, -2.999999999999999889e-01, -1.000000000000000056e-01, -1.300000000000000044e-01, -3.200000000000000178e+00, 0.0, -1.625000000000000000e+00, -5.524999999999999911e-01, -1.360000000000000098e+00, -1.189500000000000002e+00, -2.400000000000000050e-02, -4.799999999999999822e+00, -2.399999999999999911e-01, -1.439999999999999947e+00, -8.000000000000000167e-02, -2.400000000000000050e-02, -2.000000000000000000e+00, 2.999999999999999889e-01, 2.999999999999999889e-01, 0.0, 0.0, 0.0, 0.0, 0.0, 2.700000000000000000e+01, 0.0, 0.0, 0.0, 0.0, 0.0, 5.200000000000000000e+01, 0.0, 0.0, 0.0, 0.0, 4.750000000000000000e+01, 9.800000000000000711e+00, 7.700000000000000178e+00, 3.535000000000000142e+01, 4.749999999999999778e-01, 0.0, 2.500000000000000000e+01, 8.849999999999999645e+00, 6.945000000000000284e+01, 1.050000000000000000e+01, 7.650000000000000355e+00, 1.209999999999999964e+01, 1.169999999999999929e+01, 4.004999999999999716e+01, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 8.499999999999999778e-01, 5.099999999999999645e+00, 1.699999999999999956e+00, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.420000000000000000e+02, -3.330000000000000515e+00, 0.0, -2.000000000000000000e+00, -8.499999999999999778e-01, -1.280000000000000027e+00, -1.530000000000000027e+00, -2.999999999999999889e-02, -6.000000000000000000e+00, 0.0, -2.999999999999999889e-01, -1.580000000000000071e+00, -1.000000000000000056e-01, -2.999999999999999889e-02, -2.080000000000000071e+00, -2.000000000000000111e-01, 0.0, -1.570000000000000062e+00, -2.999999999999999889e-01, -1.000000000000000056e-01, -1.300000000000000044e-01, -2.664000000000000146e+00, 0.0, -1.300000000000000044e+00, -5.524999999999999911e-01, -1.024000000000000021e+00, -9.945000000000000506e-01, -2.400000000000000050e-02, -4.799999999999999822e+00, 0.0, -2.399999999999999911e-01, -1.264000000000000012e+00, -8.000000000000000167e-02, -2.400000000000000050e-02, -1.663999999999999924e+00, 2.999999999999999889e-01, 2.999999999999999889e-01, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 2.200000000000000000e+01, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 3.900000000000000000e+01, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 5.420000000000000284e+01, 1.493329999999999913e+01, 1.046669999999999945e+01, 4.816669999999999874e+01, 8.066999999999999726e-01, 0.0, 2.664999999999999858e+01, 9.678300000000000125e+00, 8.965000000000000568e+01, 1.183329999999999949e+01, 8.349999999999999645e+00, 1.296669999999999945e+01, 1.269999999999999929e+01, 4.464999999999999858e+01, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.050000000000000044e+00, 8.400000000000000355e+00, 1.861699999999999910e+00, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 4.899999999999999911e-01, 3.000000000000000000e+00, 1.300000000000000044e-01, 3.499999999999999778e-01, 2.389999999999999858e+01, 2.000000000000000111e-01, 2.200000000000000011e-01, 6.800000000000000488e-01, 2.999999999999999889e-02, 4.099999999999999756e-01, 2.999999999999999889e-02, 1.000000000000000021e-02, 8.399999999999999689e-01, 1.923999999999999844e+01, 2.300000000000000100e-01, 0.0, 3.499999999999999778e-01, 2.399999999999999911e-01, 2.399999999999999911e-01, 1.550000000000000044e+00, 2.999999999999999889e-01, 7.500000000000000000e-01, 1.199999999999999956e-01, 1.499999999999999944e-01, -1.392600000000000060e+00, 0.0, -4.630000000000000226e-01, -7.536000000000000476e-01, -1.150000000000000050e-01, -1.494999999999999940e-01, -2.669999999999999929e+00, 0.0, -1.500000000000000000e+00, -8.499999999999999778e-01, -8.499999999999999778e-01, -1.219999999999999973e+00, -2.999999999999999889e-02, -5.679999999999999716e+00, 0.0, -2.999999999999999889e-01, -1.350000000000000089e+00, -1.000000000000000056e-01, -2.999999999999999889e-02, -1.670000000000000151e+00, -2.000000000000000111e-01, 0.0, -1.570000000000000062e+00, -2.999999999999999889e-01, -1.000000000000000056e-01, -1.300000000000000044e-01, -2.136000000000000121e+00, 0.0, -9.749999999999999778e-01, -5.524999999999999911e-01, -6.800000000000000488e-01, -7.930000000000001492e-01, -2.400000000000000050e-02, -4.543999999999999595e+00, 0.0, -2.399999999999999911e-01, -1.080000000000000071e+00, -8.000000000000000167e-02, -2.400000000000000050e-02, -1.336000000000000076e+00, 2.999999999999999889e-01, 2.999999999999999889e-01, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.660000000000000142e+01, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, -2.600000000000000089e-01, -2.210000000000000020e-01, -6.219999999999999973e-01, -3.449999999999999595e-02, -3.880000000000000115e-01, -2.500000000000000139e-02, -1.050000000000000065e-02, -7.635999999999999455e-01, -1.767999999999999972e+01, -2.300000000000000100e-01, 0.0, -3.449999999999999734e-01, -2.399999999999999911e-01, -2.399999999999999911e-01, 0.0, 2.600000000000000000e+01, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 6.089999999999999858e+01, 2.006670000000000087e+01, 1.323329999999999984e+01, 6.098329999999999984e+01, 1.138300000000000090e+00, 0.0, 2.830000000000000071e+01, 1.050670000000000037e+01, 1.098499999999999943e+02, 1.316670000000000051e+01, 9.050000000000000711e+00, 1.383329999999999949e+01, 1.369999999999999929e+01, 4.925000000000000000e+01, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.250000000000000000e+00, 1.169999999999999929e+01, 2.023299999999999876e+00, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, -3.319999999999999840e+00, 0.0, -3.539999999999999258e-01, -2.080000000000000071e+01, -1.257400000000000073e+00, 0.0, -4.269999999999999907e-01, -1.303600000000000092e+00, -1.150000000000000050e-01, -1.494999999999999940e-01, -2.000000000000000000e+00, 0.0, -1.000000000000000000e+00, -8.499999999999999778e-01, -4.249999999999999889e-01, -9.150000000000000355e-01, -2.999999999999999889e-02, -5.280000000000000249e+00, 0.0, -2.999999999999999889e-01, -1.129999999999999893e+00, -1.000000000000000056e-01, -2.999999999999999889e-02, -1.250000000000000000e+00, -2.000000000000000111e-01, 0.0, -1.020000000000000018e+00, -2.999999999999999889e-01, -1.000000000000000056e-01, -1.300000000000000044e-01, -1.600000000000000089e+00, 0.0, -6.500000000000000222e-01, -5.524999999999999911e-01, -3.400000000000000244e-01, -5.947999999999999954e-01, -2.400000000000000050e-02, -4.224000000000000199e+00, 0.0, -2.399999999999999911e-01, -9.040000000000000258e-01, -8.000000000000000167e-02, -2.400000000000000050e-02, -1.000000000000000000e+00, 2.999999999999999889e-01, 2.999999999999999889e-01, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.660000000000000142e+01, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 2.360000000000000000e+02, 2.800000000000000000e+02, 4.000000000000000222e-01, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 2.840000000000000000e+02, 0.0, 0.0, 6.800000000000000000e+02, 0.0, 0.0, 0.0, -3.200000000000000067e-01, -2.210000000000000020e-01, -5.524999999999999911e-01, -3.449999999999999595e-02, -3.549999999999999822e-01, -2.500000000000000139e-02, -1.050000000000000065e-02, -7.038999999999999702e-01, -1.612000000000000099e+01, -2.300000000000000100e-01, 0.0, -3.449999999999999734e-01, -2.399999999999999911e-01, -2.399999999999999911e-01, 0.0, 1.300000000000000000e+01, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 6.759999999999999432e+01, 2.519999999999999929e+01, 1.600000000000000000e+01, 7.379999999999999716e+01, 1.469999999999999973e+00, 0.0, 2.994999999999999929e+01, 1.133500000000000085e+01, 1.300500000000000114e+02, 1.450000000000000000e+01, 9.750000000000000000e+00, 1.470000000000000107e+01, 1.469999999999999929e+01, 5.385000000000000142e+01, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.449999999999999956e+00, 1.500000000000000000e+01, 2.185000000000000053e+00, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.370000000000000000e+02, 5.850000000000000000e+02, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 3.600000000000000000e+02, 1.600000000000000000e+03, 0.0, 4.240000000000000000e+02, 1.000000000000000000e+03, 1.100000000000000000e+02, 4.700000000000000000e+01, 3.000000000000000000e+02, -3.240000000000000213e+00, 0.0, -3.539999999999999258e-01, -1.161999999999999922e+01};
 
static char * test_lp_bnl1(){
pwork *mywork;
idxint exitflag;
 
/* print test name */
printf("======================================= lp_bnl1 =======================================\n");
 
/* set up data */
mywork = ECOS_setup(lp_bnl1_n, lp_bnl1_m, lp_bnl1_p, lp_bnl1_l, lp_bnl1_ncones, lp_bnl1_q, 0,
                    lp_bnl1_Gpr, lp_bnl1_Gjc, lp_bnl1_Gir,
                    lp_bnl1_Apr, lp_bnl1_Ajc, lp_bnl1_Air,
                    lp_bnl1_c, lp_bnl1_h, lp_bnl1_b);
if( mywork != NULL ){
/* solve */
exitflag = ECOS_solve(mywork); }
else exitflag = ECOS_FATAL;
 
/* clean up memory */
ECOS_cleanup(mywork, 0);
 
mu_assert("lp_bnl1: ECOS failed to produce outputflag OPTIMAL", exitflag == ECOS_OPTIMAL );
return 0;
}
