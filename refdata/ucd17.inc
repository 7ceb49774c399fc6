// Generated by gen/build_refdata.py. Unicode 17.0.0.
static const Rng kStatus[] = {
{0,64,0},{65,90,1},{91,127,0},{160,160,1},{161,167,0},{168,168,1},{169,169,0},{170,170,1},{171,172,0},{173,173,2},
{174,174,0},{175,175,1},{176,177,0},{178,181,1},{182,183,0},{184,186,1},{187,187,0},{188,190,1},{191,191,0},
{192,214,1},{215,215,0},{216,222,1},{223,255,0},{256,256,1},{257,257,0},{258,258,1},{259,259,0},{260,260,1},
{261,261,0},{262,262,1},{263,263,0},{264,264,1},{265,265,0},{266,266,1},{267,267,0},{268,268,1},{269,269,0},
{270,270,1},{271,271,0},{272,272,1},{273,273,0},{274,274,1},{275,275,0},{276,276,1},{277,277,0},{278,278,1},
{279,279,0},{280,280,1},{281,281,0},{282,282,1},{283,283,0},{284,284,1},{285,285,0},{286,286,1},{287,287,0},
{288,288,1},{289,289,0},{290,290,1},{291,291,0},{292,292,1},{293,293,0},{294,294,1},{295,295,0},{296,296,1},
{297,297,0},{298,298,1},{299,299,0},{300,300,1},{301,301,0},{302,302,1},{303,303,0},{304,304,1},{305,305,0},
{306,308,1},{309,309,0},{310,310,1},{311,312,0},{313,313,1},{314,314,0},{315,315,1},{316,316,0},{317,317,1},
{318,318,0},{319,321,1},{322,322,0},{323,323,1},{324,324,0},{325,325,1},{326,326,0},{327,327,1},{328,328,0},
{329,330,1},{331,331,0},{332,332,1},{333,333,0},{334,334,1},{335,335,0},{336,336,1},{337,337,0},{338,338,1},
{339,339,0},{340,340,1},{341,341,0},{342,342,1},{343,343,0},{344,344,1},{345,345,0},{346,346,1},{347,347,0},
{348,348,1},{349,349,0},{350,350,1},{351,351,0},{352,352,1},{353,353,0},{354,354,1},{355,355,0},{356,356,1},
{357,357,0},{358,358,1},{359,359,0},{360,360,1},{361,361,0},{362,362,1},{363,363,0},{364,364,1},{365,365,0},
{366,366,1},{367,367,0},{368,368,1},{369,369,0},{370,370,1},{371,371,0},{372,372,1},{373,373,0},{374,374,1},
{375,375,0},{376,377,1},{378,378,0},{379,379,1},{380,380,0},{381,381,1},{382,382,0},{383,383,1},{384,384,0},
{385,386,1},{387,387,0},{388,388,1},{389,389,0},{390,391,1},{392,392,0},{393,395,1},{396,397,0},{398,401,1},
{402,402,0},{403,404,1},{405,405,0},{406,408,1},{409,411,0},{412,413,1},{414,414,0},{415,416,1},{417,417,0},
{418,418,1},{419,419,0},{420,420,1},{421,421,0},{422,423,1},{424,424,0},{425,425,1},{426,427,0},{428,428,1},
{429,429,0},{430,431,1},{432,432,0},{433,435,1},{436,436,0},{437,437,1},{438,438,0},{439,440,1},{441,443,0},
{444,444,1},{445,451,0},{452,461,1},{462,462,0},{463,463,1},{464,464,0},{465,465,1},{466,466,0},{467,467,1},
{468,468,0},{469,469,1},{470,470,0},{471,471,1},{472,472,0},{473,473,1},{474,474,0},{475,475,1},{476,477,0},
{478,478,1},{479,479,0},{480,480,1},{481,481,0},{482,482,1},{483,483,0},{484,484,1},{485,485,0},{486,486,1},
{487,487,0},{488,488,1},{489,489,0},{490,490,1},{491,491,0},{492,492,1},{493,493,0},{494,494,1},{495,496,0},
{497,500,1},{501,501,0},{502,504,1},{505,505,0},{506,506,1},{507,507,0},{508,508,1},{509,509,0},{510,510,1},
{511,511,0},{512,512,1},{513,513,0},{514,514,1},{515,515,0},{516,516,1},{517,517,0},{518,518,1},{519,519,0},
{520,520,1},{521,521,0},{522,522,1},{523,523,0},{524,524,1},{525,525,0},{526,526,1},{527,527,0},{528,528,1},
{529,529,0},{530,530,1},{531,531,0},{532,532,1},{533,533,0},{534,534,1},{535,535,0},{536,536,1},{537,537,0},
{538,538,1},{539,539,0},{540,540,1},{541,541,0},{542,542,1},{543,543,0},{544,544,1},{545,545,0},{546,546,1},
{547,547,0},{548,548,1},{549,549,0},{550,550,1},{551,551,0},{552,552,1},{553,553,0},{554,554,1},{555,555,0},
{556,556,1},{557,557,0},{558,558,1},{559,559,0},{560,560,1},{561,561,0},{562,562,1},{563,569,0},{570,571,1},
{572,572,0},{573,574,1},{575,576,0},{577,577,1},{578,578,0},{579,582,1},{583,583,0},{584,584,1},{585,585,0},
{586,586,1},{587,587,0},{588,588,1},{589,589,0},{590,590,1},{591,687,0},{688,696,1},{697,727,0},{728,733,1},
{734,735,0},{736,740,1},{741,831,0},{832,833,1},{834,834,0},{835,837,1},{838,846,0},{847,847,2},{848,879,0},
{880,880,1},{881,881,0},{882,882,1},{883,883,0},{884,884,1},{885,885,0},{886,886,1},{887,887,0},{890,890,1},
{891,893,0},{894,895,1},{900,906,1},{908,908,1},{910,911,1},{912,912,0},{913,929,1},{931,939,1},{940,974,0},
{975,982,1},{983,983,0},{984,984,1},{985,985,0},{986,986,1},{987,987,0},{988,988,1},{989,989,0},{990,990,1},
{991,991,0},{992,992,1},{993,993,0},{994,994,1},{995,995,0},{996,996,1},{997,997,0},{998,998,1},{999,999,0},
{1000,1000,1},{1001,1001,0},{1002,1002,1},{1003,1003,0},{1004,1004,1},{1005,1005,0},{1006,1006,1},{1007,1007,0},
{1008,1010,1},{1011,1011,0},{1012,1013,1},{1014,1014,0},{1015,1015,1},{1016,1016,0},{1017,1018,1},{1019,1020,0},
{1021,1071,1},{1072,1119,0},{1120,1120,1},{1121,1121,0},{1122,1122,1},{1123,1123,0},{1124,1124,1},{1125,1125,0},
{1126,1126,1},{1127,1127,0},{1128,1128,1},{1129,1129,0},{1130,1130,1},{1131,1131,0},{1132,1132,1},{1133,1133,0},
{1134,1134,1},{1135,1135,0},{1136,1136,1},{1137,1137,0},{1138,1138,1},{1139,1139,0},{1140,1140,1},{1141,1141,0},
{1142,1142,1},{1143,1143,0},{1144,1144,1},{1145,1145,0},{1146,1146,1},{1147,1147,0},{1148,1148,1},{1149,1149,0},
{1150,1150,1},{1151,1151,0},{1152,1152,1},{1153,1161,0},{1162,1162,1},{1163,1163,0},{1164,1164,1},{1165,1165,0},
{1166,1166,1},{1167,1167,0},{1168,1168,1},{1169,1169,0},{1170,1170,1},{1171,1171,0},{1172,1172,1},{1173,1173,0},
{1174,1174,1},{1175,1175,0},{1176,1176,1},{1177,1177,0},{1178,1178,1},{1179,1179,0},{1180,1180,1},{1181,1181,0},
{1182,1182,1},{1183,1183,0},{1184,1184,1},{1185,1185,0},{1186,1186,1},{1187,1187,0},{1188,1188,1},{1189,1189,0},
{1190,1190,1},{1191,1191,0},{1192,1192,1},{1193,1193,0},{1194,1194,1},{1195,1195,0},{1196,1196,1},{1197,1197,0},
{1198,1198,1},{1199,1199,0},{1200,1200,1},{1201,1201,0},{1202,1202,1},{1203,1203,0},{1204,1204,1},{1205,1205,0},
{1206,1206,1},{1207,1207,0},{1208,1208,1},{1209,1209,0},{1210,1210,1},{1211,1211,0},{1212,1212,1},{1213,1213,0},
{1214,1214,1},{1215,1215,0},{1216,1217,1},{1218,1218,0},{1219,1219,1},{1220,1220,0},{1221,1221,1},{1222,1222,0},
{1223,1223,1},{1224,1224,0},{1225,1225,1},{1226,1226,0},{1227,1227,1},{1228,1228,0},{1229,1229,1},{1230,1231,0},
{1232,1232,1},{1233,1233,0},{1234,1234,1},{1235,1235,0},{1236,1236,1},{1237,1237,0},{1238,1238,1},{1239,1239,0},
{1240,1240,1},{1241,1241,0},{1242,1242,1},{1243,1243,0},{1244,1244,1},{1245,1245,0},{1246,1246,1},{1247,1247,0},
{1248,1248,1},{1249,1249,0},{1250,1250,1},{1251,1251,0},{1252,1252,1},{1253,1253,0},{1254,1254,1},{1255,1255,0},
{1256,1256,1},{1257,1257,0},{1258,1258,1},{1259,1259,0},{1260,1260,1},{1261,1261,0},{1262,1262,1},{1263,1263,0},
{1264,1264,1},{1265,1265,0},{1266,1266,1},{1267,1267,0},{1268,1268,1},{1269,1269,0},{1270,1270,1},{1271,1271,0},
{1272,1272,1},{1273,1273,0},{1274,1274,1},{1275,1275,0},{1276,1276,1},{1277,1277,0},{1278,1278,1},{1279,1279,0},
{1280,1280,1},{1281,1281,0},{1282,1282,1},{1283,1283,0},{1284,1284,1},{1285,1285,0},{1286,1286,1},{1287,1287,0},
{1288,1288,1},{1289,1289,0},{1290,1290,1},{1291,1291,0},{1292,1292,1},{1293,1293,0},{1294,1294,1},{1295,1295,0},
{1296,1296,1},{1297,1297,0},{1298,1298,1},{1299,1299,0},{1300,1300,1},{1301,1301,0},{1302,1302,1},{1303,1303,0},
{1304,1304,1},{1305,1305,0},{1306,1306,1},{1307,1307,0},{1308,1308,1},{1309,1309,0},{1310,1310,1},{1311,1311,0},
{1312,1312,1},{1313,1313,0},{1314,1314,1},{1315,1315,0},{1316,1316,1},{1317,1317,0},{1318,1318,1},{1319,1319,0},
{1320,1320,1},{1321,1321,0},{1322,1322,1},{1323,1323,0},{1324,1324,1},{1325,1325,0},{1326,1326,1},{1327,1327,0},
{1329,1366,1},{1369,1414,0},{1415,1415,1},{1416,1418,0},{1421,1423,0},{1425,1479,0},{1488,1514,0},{1519,1524,0},
{1542,1563,0},{1565,1652,0},{1653,1656,1},{1657,1756,0},{1758,1805,0},{1808,1866,0},{1869,1969,0},{1984,2042,0},
{2045,2093,0},{2096,2110,0},{2112,2139,0},{2142,2142,0},{2144,2154,0},{2160,2191,0},{2199,2273,0},{2275,2391,0},
{2392,2399,1},{2400,2435,0},{2437,2444,0},{2447,2448,0},{2451,2472,0},{2474,2480,0},{2482,2482,0},{2486,2489,0},
{2492,2500,0},{2503,2504,0},{2507,2510,0},{2519,2519,0},{2524,2525,1},{2527,2527,1},{2528,2531,0},{2534,2558,0},
{2561,2563,0},{2565,2570,0},{2575,2576,0},{2579,2600,0},{2602,2608,0},{2610,2610,0},{2611,2611,1},{2613,2613,0},
{2614,2614,1},{2616,2617,0},{2620,2620,0},{2622,2626,0},{2631,2632,0},{2635,2637,0},{2641,2641,0},{2649,2651,1},
{2652,2652,0},{2654,2654,1},{2662,2678,0},{2689,2691,0},{2693,2701,0},{2703,2705,0},{2707,2728,0},{2730,2736,0},
{2738,2739,0},{2741,2745,0},{2748,2757,0},{2759,2761,0},{2763,2765,0},{2768,2768,0},{2784,2787,0},{2790,2801,0},
{2809,2815,0},{2817,2819,0},{2821,2828,0},{2831,2832,0},{2835,2856,0},{2858,2864,0},{2866,2867,0},{2869,2873,0},
{2876,2884,0},{2887,2888,0},{2891,2893,0},{2901,2903,0},{2908,2909,1},{2911,2915,0},{2918,2935,0},{2946,2947,0},
{2949,2954,0},{2958,2960,0},{2962,2965,0},{2969,2970,0},{2972,2972,0},{2974,2975,0},{2979,2980,0},{2984,2986,0},
{2990,3001,0},{3006,3010,0},{3014,3016,0},{3018,3021,0},{3024,3024,0},{3031,3031,0},{3046,3066,0},{3072,3084,0},
{3086,3088,0},{3090,3112,0},{3114,3129,0},{3132,3140,0},{3142,3144,0},{3146,3149,0},{3157,3158,0},{3160,3162,0},
{3164,3165,0},{3168,3171,0},{3174,3183,0},{3191,3212,0},{3214,3216,0},{3218,3240,0},{3242,3251,0},{3253,3257,0},
{3260,3268,0},{3270,3272,0},{3274,3277,0},{3285,3286,0},{3292,3294,0},{3296,3299,0},{3302,3311,0},{3313,3315,0},
{3328,3340,0},{3342,3344,0},{3346,3396,0},{3398,3400,0},{3402,3407,0},{3412,3427,0},{3430,3455,0},{3457,3459,0},
{3461,3478,0},{3482,3505,0},{3507,3515,0},{3517,3517,0},{3520,3526,0},{3530,3530,0},{3535,3540,0},{3542,3542,0},
{3544,3551,0},{3558,3567,0},{3570,3572,0},{3585,3634,0},{3635,3635,1},{3636,3642,0},{3647,3675,0},{3713,3714,0},
{3716,3716,0},{3718,3722,0},{3724,3747,0},{3749,3749,0},{3751,3762,0},{3763,3763,1},{3764,3773,0},{3776,3780,0},
{3782,3782,0},{3784,3790,0},{3792,3801,0},{3804,3805,1},{3806,3807,0},{3840,3851,0},{3852,3852,1},{3853,3906,0},
{3907,3907,1},{3908,3911,0},{3913,3916,0},{3917,3917,1},{3918,3921,0},{3922,3922,1},{3923,3926,0},{3927,3927,1},
{3928,3931,0},{3932,3932,1},{3933,3944,0},{3945,3945,1},{3946,3948,0},{3953,3954,0},{3955,3955,1},{3956,3956,0},
{3957,3961,1},{3962,3968,0},{3969,3969,1},{3970,3986,0},{3987,3987,1},{3988,3991,0},{3993,3996,0},{3997,3997,1},
{3998,4001,0},{4002,4002,1},{4003,4006,0},{4007,4007,1},{4008,4011,0},{4012,4012,1},{4013,4024,0},{4025,4025,1},
{4026,4028,0},{4030,4044,0},{4046,4058,0},{4096,4255,0},{4256,4293,1},{4295,4295,1},{4301,4301,1},{4304,4347,0},
{4348,4348,1},{4349,4446,0},{4447,4448,2},{4449,4680,0},{4682,4685,0},{4688,4694,0},{4696,4696,0},{4698,4701,0},
{4704,4744,0},{4746,4749,0},{4752,4784,0},{4786,4789,0},{4792,4798,0},{4800,4800,0},{4802,4805,0},{4808,4822,0},
{4824,4880,0},{4882,4885,0},{4888,4954,0},{4957,4988,0},{4992,5017,0},{5024,5109,0},{5112,5117,1},{5120,5759,0},
{5761,5788,0},{5792,5880,0},{5888,5909,0},{5919,5942,0},{5952,5971,0},{5984,5996,0},{5998,6000,0},{6002,6003,0},
{6016,6067,0},{6068,6069,2},{6070,6109,0},{6112,6121,0},{6128,6137,0},{6144,6154,0},{6155,6159,2},{6160,6169,0},
{6176,6264,0},{6272,6314,0},{6320,6389,0},{6400,6430,0},{6432,6443,0},{6448,6459,0},{6464,6464,0},{6468,6509,0},
{6512,6516,0},{6528,6571,0},{6576,6601,0},{6608,6618,0},{6622,6683,0},{6686,6750,0},{6752,6780,0},{6783,6793,0},
{6800,6809,0},{6816,6829,0},{6832,6877,0},{6880,6891,0},{6912,6988,0},{6990,7155,0},{7164,7223,0},{7227,7241,0},
{7245,7295,0},{7296,7305,1},{7306,7306,0},{7312,7354,1},{7357,7359,1},{7360,7367,0},{7376,7418,0},{7424,7467,0},
{7468,7470,1},{7471,7471,0},{7472,7482,1},{7483,7483,0},{7484,7501,1},{7502,7502,0},{7503,7530,1},{7531,7543,0},
{7544,7544,1},{7545,7578,0},{7579,7615,1},{7616,7679,0},{7680,7680,1},{7681,7681,0},{7682,7682,1},{7683,7683,0},
{7684,7684,1},{7685,7685,0},{7686,7686,1},{7687,7687,0},{7688,7688,1},{7689,7689,0},{7690,7690,1},{7691,7691,0},
{7692,7692,1},{7693,7693,0},{7694,7694,1},{7695,7695,0},{7696,7696,1},{7697,7697,0},{7698,7698,1},{7699,7699,0},
{7700,7700,1},{7701,7701,0},{7702,7702,1},{7703,7703,0},{7704,7704,1},{7705,7705,0},{7706,7706,1},{7707,7707,0},
{7708,7708,1},{7709,7709,0},{7710,7710,1},{7711,7711,0},{7712,7712,1},{7713,7713,0},{7714,7714,1},{7715,7715,0},
{7716,7716,1},{7717,7717,0},{7718,7718,1},{7719,7719,0},{7720,7720,1},{7721,7721,0},{7722,7722,1},{7723,7723,0},
{7724,7724,1},{7725,7725,0},{7726,7726,1},{7727,7727,0},{7728,7728,1},{7729,7729,0},{7730,7730,1},{7731,7731,0},
{7732,7732,1},{7733,7733,0},{7734,7734,1},{7735,7735,0},{7736,7736,1},{7737,7737,0},{7738,7738,1},{7739,7739,0},
{7740,7740,1},{7741,7741,0},{7742,7742,1},{7743,7743,0},{7744,7744,1},{7745,7745,0},{7746,7746,1},{7747,7747,0},
{7748,7748,1},{7749,7749,0},{7750,7750,1},{7751,7751,0},{7752,7752,1},{7753,7753,0},{7754,7754,1},{7755,7755,0},
{7756,7756,1},{7757,7757,0},{7758,7758,1},{7759,7759,0},{7760,7760,1},{7761,7761,0},{7762,7762,1},{7763,7763,0},
{7764,7764,1},{7765,7765,0},{7766,7766,1},{7767,7767,0},{7768,7768,1},{7769,7769,0},{7770,7770,1},{7771,7771,0},
{7772,7772,1},{7773,7773,0},{7774,7774,1},{7775,7775,0},{7776,7776,1},{7777,7777,0},{7778,7778,1},{7779,7779,0},
{7780,7780,1},{7781,7781,0},{7782,7782,1},{7783,7783,0},{7784,7784,1},{7785,7785,0},{7786,7786,1},{7787,7787,0},
{7788,7788,1},{7789,7789,0},{7790,7790,1},{7791,7791,0},{7792,7792,1},{7793,7793,0},{7794,7794,1},{7795,7795,0},
{7796,7796,1},{7797,7797,0},{7798,7798,1},{7799,7799,0},{7800,7800,1},{7801,7801,0},{7802,7802,1},{7803,7803,0},
{7804,7804,1},{7805,7805,0},{7806,7806,1},{7807,7807,0},{7808,7808,1},{7809,7809,0},{7810,7810,1},{7811,7811,0},
{7812,7812,1},{7813,7813,0},{7814,7814,1},{7815,7815,0},{7816,7816,1},{7817,7817,0},{7818,7818,1},{7819,7819,0},
{7820,7820,1},{7821,7821,0},{7822,7822,1},{7823,7823,0},{7824,7824,1},{7825,7825,0},{7826,7826,1},{7827,7827,0},
{7828,7828,1},{7829,7833,0},{7834,7835,1},{7836,7837,0},{7838,7838,1},{7839,7839,0},{7840,7840,1},{7841,7841,0},
{7842,7842,1},{7843,7843,0},{7844,7844,1},{7845,7845,0},{7846,7846,1},{7847,7847,0},{7848,7848,1},{7849,7849,0},
{7850,7850,1},{7851,7851,0},{7852,7852,1},{7853,7853,0},{7854,7854,1},{7855,7855,0},{7856,7856,1},{7857,7857,0},
{7858,7858,1},{7859,7859,0},{7860,7860,1},{7861,7861,0},{7862,7862,1},{7863,7863,0},{7864,7864,1},{7865,7865,0},
{7866,7866,1},{7867,7867,0},{7868,7868,1},{7869,7869,0},{7870,7870,1},{7871,7871,0},{7872,7872,1},{7873,7873,0},
{7874,7874,1},{7875,7875,0},{7876,7876,1},{7877,7877,0},{7878,7878,1},{7879,7879,0},{7880,7880,1},{7881,7881,0},
{7882,7882,1},{7883,7883,0},{7884,7884,1},{7885,7885,0},{7886,7886,1},{7887,7887,0},{7888,7888,1},{7889,7889,0},
{7890,7890,1},{7891,7891,0},{7892,7892,1},{7893,7893,0},{7894,7894,1},{7895,7895,0},{7896,7896,1},{7897,7897,0},
{7898,7898,1},{7899,7899,0},{7900,7900,1},{7901,7901,0},{7902,7902,1},{7903,7903,0},{7904,7904,1},{7905,7905,0},
{7906,7906,1},{7907,7907,0},{7908,7908,1},{7909,7909,0},{7910,7910,1},{7911,7911,0},{7912,7912,1},{7913,7913,0},
{7914,7914,1},{7915,7915,0},{7916,7916,1},{7917,7917,0},{7918,7918,1},{7919,7919,0},{7920,7920,1},{7921,7921,0},
{7922,7922,1},{7923,7923,0},{7924,7924,1},{7925,7925,0},{7926,7926,1},{7927,7927,0},{7928,7928,1},{7929,7929,0},
{7930,7930,1},{7931,7931,0},{7932,7932,1},{7933,7933,0},{7934,7934,1},{7935,7943,0},{7944,7951,1},{7952,7957,0},
{7960,7965,1},{7968,7975,0},{7976,7983,1},{7984,7991,0},{7992,7999,1},{8000,8005,0},{8008,8013,1},{8016,8023,0},
{8025,8025,1},{8027,8027,1},{8029,8029,1},{8031,8031,1},{8032,8039,0},{8040,8047,1},{8048,8048,0},{8049,8049,1},
{8050,8050,0},{8051,8051,1},{8052,8052,0},{8053,8053,1},{8054,8054,0},{8055,8055,1},{8056,8056,0},{8057,8057,1},
{8058,8058,0},{8059,8059,1},{8060,8060,0},{8061,8061,1},{8064,8111,1},{8112,8113,0},{8114,8116,1},{8118,8118,0},
{8119,8132,1},{8134,8134,0},{8135,8143,1},{8144,8146,0},{8147,8147,1},{8150,8151,0},{8152,8155,1},{8157,8159,1},
{8160,8162,0},{8163,8163,1},{8164,8167,0},{8168,8175,1},{8178,8180,1},{8182,8182,0},{8183,8190,1},{8192,8202,1},
{8203,8203,2},{8204,8205,0},{8208,8208,0},{8209,8209,1},{8210,8214,0},{8215,8215,1},{8216,8227,0},{8231,8231,0},
{8239,8239,1},{8240,8242,0},{8243,8244,1},{8245,8245,0},{8246,8247,1},{8248,8251,0},{8252,8252,1},{8253,8253,0},
{8254,8254,1},{8255,8262,0},{8263,8265,1},{8266,8278,0},{8279,8279,1},{8280,8286,0},{8287,8287,1},{8288,8292,2},
{8298,8303,2},{8304,8305,1},{8308,8334,1},{8336,8348,1},{8352,8359,0},{8360,8360,1},{8361,8385,0},{8400,8432,0},
{8448,8451,1},{8452,8452,0},{8453,8455,1},{8456,8456,0},{8457,8467,1},{8468,8468,0},{8469,8470,1},{8471,8472,0},
{8473,8477,1},{8478,8479,0},{8480,8482,1},{8483,8483,0},{8484,8484,1},{8485,8485,0},{8486,8486,1},{8487,8487,0},
{8488,8488,1},{8489,8489,0},{8490,8493,1},{8494,8494,0},{8495,8505,1},{8506,8506,0},{8507,8512,1},{8513,8516,0},
{8517,8521,1},{8522,8527,0},{8528,8575,1},{8576,8578,0},{8579,8579,1},{8580,8584,0},{8585,8585,1},{8586,8587,0},
{8592,8747,0},{8748,8749,1},{8750,8750,0},{8751,8752,1},{8753,9000,0},{9001,9002,1},{9003,9257,0},{9280,9290,0},
{9312,9351,1},{9372,9450,1},{9451,10763,0},{10764,10764,1},{10765,10867,0},{10868,10870,1},{10871,10971,0},
{10972,10972,1},{10973,11123,0},{11126,11263,0},{11264,11311,1},{11312,11359,0},{11360,11360,1},{11361,11361,0},
{11362,11364,1},{11365,11366,0},{11367,11367,1},{11368,11368,0},{11369,11369,1},{11370,11370,0},{11371,11371,1},
{11372,11372,0},{11373,11376,1},{11377,11377,0},{11378,11378,1},{11379,11380,0},{11381,11381,1},{11382,11387,0},
{11388,11392,1},{11393,11393,0},{11394,11394,1},{11395,11395,0},{11396,11396,1},{11397,11397,0},{11398,11398,1},
{11399,11399,0},{11400,11400,1},{11401,11401,0},{11402,11402,1},{11403,11403,0},{11404,11404,1},{11405,11405,0},
{11406,11406,1},{11407,11407,0},{11408,11408,1},{11409,11409,0},{11410,11410,1},{11411,11411,0},{11412,11412,1},
{11413,11413,0},{11414,11414,1},{11415,11415,0},{11416,11416,1},{11417,11417,0},{11418,11418,1},{11419,11419,0},
{11420,11420,1},{11421,11421,0},{11422,11422,1},{11423,11423,0},{11424,11424,1},{11425,11425,0},{11426,11426,1},
{11427,11427,0},{11428,11428,1},{11429,11429,0},{11430,11430,1},{11431,11431,0},{11432,11432,1},{11433,11433,0},
{11434,11434,1},{11435,11435,0},{11436,11436,1},{11437,11437,0},{11438,11438,1},{11439,11439,0},{11440,11440,1},
{11441,11441,0},{11442,11442,1},{11443,11443,0},{11444,11444,1},{11445,11445,0},{11446,11446,1},{11447,11447,0},
{11448,11448,1},{11449,11449,0},{11450,11450,1},{11451,11451,0},{11452,11452,1},{11453,11453,0},{11454,11454,1},
{11455,11455,0},{11456,11456,1},{11457,11457,0},{11458,11458,1},{11459,11459,0},{11460,11460,1},{11461,11461,0},
{11462,11462,1},{11463,11463,0},{11464,11464,1},{11465,11465,0},{11466,11466,1},{11467,11467,0},{11468,11468,1},
{11469,11469,0},{11470,11470,1},{11471,11471,0},{11472,11472,1},{11473,11473,0},{11474,11474,1},{11475,11475,0},
{11476,11476,1},{11477,11477,0},{11478,11478,1},{11479,11479,0},{11480,11480,1},{11481,11481,0},{11482,11482,1},
{11483,11483,0},{11484,11484,1},{11485,11485,0},{11486,11486,1},{11487,11487,0},{11488,11488,1},{11489,11489,0},
{11490,11490,1},{11491,11498,0},{11499,11499,1},{11500,11500,0},{11501,11501,1},{11502,11505,0},{11506,11506,1},
{11507,11507,0},{11513,11557,0},{11559,11559,0},{11565,11565,0},{11568,11623,0},{11631,11631,1},{11632,11632,0},
{11647,11670,0},{11680,11686,0},{11688,11694,0},{11696,11702,0},{11704,11710,0},{11712,11718,0},{11720,11726,0},
{11728,11734,0},{11736,11742,0},{11744,11869,0},{11904,11929,0},{11931,11934,0},{11935,11935,1},{11936,12018,0},
{12019,12019,1},{12032,12245,1},{12288,12288,1},{12289,12289,0},{12290,12290,1},{12291,12341,0},{12342,12342,1},
{12343,12343,0},{12344,12346,1},{12347,12351,0},{12353,12438,0},{12441,12442,0},{12443,12444,1},{12445,12446,0},
{12447,12447,1},{12448,12542,0},{12543,12543,1},{12549,12591,0},{12593,12643,1},{12644,12644,2},{12645,12686,1},
{12688,12689,0},{12690,12703,1},{12704,12773,0},{12784,12799,0},{12800,12830,1},{12832,12871,1},{12872,12879,0},
{12880,12926,1},{12927,12927,0},{12928,13249,1},{13251,13254,1},{13256,13271,1},{13273,13311,1},{13312,42124,0},
{42128,42182,0},{42192,42539,0},{42560,42560,1},{42561,42561,0},{42562,42562,1},{42563,42563,0},{42564,42564,1},
{42565,42565,0},{42566,42566,1},{42567,42567,0},{42568,42568,1},{42569,42569,0},{42570,42570,1},{42571,42571,0},
{42572,42572,1},{42573,42573,0},{42574,42574,1},{42575,42575,0},{42576,42576,1},{42577,42577,0},{42578,42578,1},
{42579,42579,0},{42580,42580,1},{42581,42581,0},{42582,42582,1},{42583,42583,0},{42584,42584,1},{42585,42585,0},
{42586,42586,1},{42587,42587,0},{42588,42588,1},{42589,42589,0},{42590,42590,1},{42591,42591,0},{42592,42592,1},
{42593,42593,0},{42594,42594,1},{42595,42595,0},{42596,42596,1},{42597,42597,0},{42598,42598,1},{42599,42599,0},
{42600,42600,1},{42601,42601,0},{42602,42602,1},{42603,42603,0},{42604,42604,1},{42605,42623,0},{42624,42624,1},
{42625,42625,0},{42626,42626,1},{42627,42627,0},{42628,42628,1},{42629,42629,0},{42630,42630,1},{42631,42631,0},
{42632,42632,1},{42633,42633,0},{42634,42634,1},{42635,42635,0},{42636,42636,1},{42637,42637,0},{42638,42638,1},
{42639,42639,0},{42640,42640,1},{42641,42641,0},{42642,42642,1},{42643,42643,0},{42644,42644,1},{42645,42645,0},
{42646,42646,1},{42647,42647,0},{42648,42648,1},{42649,42649,0},{42650,42650,1},{42651,42651,0},{42652,42653,1},
{42654,42743,0},{42752,42785,0},{42786,42786,1},{42787,42787,0},{42788,42788,1},{42789,42789,0},{42790,42790,1},
{42791,42791,0},{42792,42792,1},{42793,42793,0},{42794,42794,1},{42795,42795,0},{42796,42796,1},{42797,42797,0},
{42798,42798,1},{42799,42801,0},{42802,42802,1},{42803,42803,0},{42804,42804,1},{42805,42805,0},{42806,42806,1},
{42807,42807,0},{42808,42808,1},{42809,42809,0},{42810,42810,1},{42811,42811,0},{42812,42812,1},{42813,42813,0},
{42814,42814,1},{42815,42815,0},{42816,42816,1},{42817,42817,0},{42818,42818,1},{42819,42819,0},{42820,42820,1},
{42821,42821,0},{42822,42822,1},{42823,42823,0},{42824,42824,1},{42825,42825,0},{42826,42826,1},{42827,42827,0},
{42828,42828,1},{42829,42829,0},{42830,42830,1},{42831,42831,0},{42832,42832,1},{42833,42833,0},{42834,42834,1},
{42835,42835,0},{42836,42836,1},{42837,42837,0},{42838,42838,1},{42839,42839,0},{42840,42840,1},{42841,42841,0},
{42842,42842,1},{42843,42843,0},{42844,42844,1},{42845,42845,0},{42846,42846,1},{42847,42847,0},{42848,42848,1},
{42849,42849,0},{42850,42850,1},{42851,42851,0},{42852,42852,1},{42853,42853,0},{42854,42854,1},{42855,42855,0},
{42856,42856,1},{42857,42857,0},{42858,42858,1},{42859,42859,0},{42860,42860,1},{42861,42861,0},{42862,42862,1},
{42863,42863,0},{42864,42864,1},{42865,42872,0},{42873,42873,1},{42874,42874,0},{42875,42875,1},{42876,42876,0},
{42877,42878,1},{42879,42879,0},{42880,42880,1},{42881,42881,0},{42882,42882,1},{42883,42883,0},{42884,42884,1},
{42885,42885,0},{42886,42886,1},{42887,42890,0},{42891,42891,1},{42892,42892,0},{42893,42893,1},{42894,42895,0},
{42896,42896,1},{42897,42897,0},{42898,42898,1},{42899,42901,0},{42902,42902,1},{42903,42903,0},{42904,42904,1},
{42905,42905,0},{42906,42906,1},{42907,42907,0},{42908,42908,1},{42909,42909,0},{42910,42910,1},{42911,42911,0},
{42912,42912,1},{42913,42913,0},{42914,42914,1},{42915,42915,0},{42916,42916,1},{42917,42917,0},{42918,42918,1},
{42919,42919,0},{42920,42920,1},{42921,42921,0},{42922,42926,1},{42927,42927,0},{42928,42932,1},{42933,42933,0},
{42934,42934,1},{42935,42935,0},{42936,42936,1},{42937,42937,0},{42938,42938,1},{42939,42939,0},{42940,42940,1},
{42941,42941,0},{42942,42942,1},{42943,42943,0},{42944,42944,1},{42945,42945,0},{42946,42946,1},{42947,42947,0},
{42948,42951,1},{42952,42952,0},{42953,42953,1},{42954,42954,0},{42955,42956,1},{42957,42957,0},{42958,42958,1},
{42959,42959,0},{42960,42960,1},{42961,42961,0},{42962,42962,1},{42963,42963,0},{42964,42964,1},{42965,42965,0},
{42966,42966,1},{42967,42967,0},{42968,42968,1},{42969,42969,0},{42970,42970,1},{42971,42971,0},{42972,42972,1},
{42993,42997,1},{42998,42999,0},{43000,43001,1},{43002,43052,0},{43056,43065,0},{43072,43127,0},{43136,43205,0},
{43214,43225,0},{43232,43347,0},{43359,43388,0},{43392,43469,0},{43471,43481,0},{43486,43518,0},{43520,43574,0},
{43584,43597,0},{43600,43609,0},{43612,43714,0},{43739,43766,0},{43777,43782,0},{43785,43790,0},{43793,43798,0},
{43808,43814,0},{43816,43822,0},{43824,43867,0},{43868,43871,1},{43872,43880,0},{43881,43881,1},{43882,43883,0},
{43888,43967,1},{43968,44013,0},{44016,44025,0},{44032,55203,0},{55216,55238,0},{55243,55291,0},{63744,64013,1},
{64014,64015,0},{64016,64016,1},{64017,64017,0},{64018,64018,1},{64019,64020,0},{64021,64030,1},{64031,64031,0},
{64032,64032,1},{64033,64033,0},{64034,64034,1},{64035,64036,0},{64037,64038,1},{64039,64041,0},{64042,64109,1},
{64112,64217,1},{64256,64262,1},{64275,64279,1},{64285,64285,1},{64286,64286,0},{64287,64310,1},{64312,64316,1},
{64318,64318,1},{64320,64321,1},{64323,64324,1},{64326,64433,1},{64434,64466,0},{64467,64829,1},{64830,64847,0},
{64848,64911,1},{64912,64913,0},{64914,64967,1},{64968,64975,0},{65008,65020,1},{65021,65023,0},{65024,65039,2},
{65040,65041,1},{65043,65048,1},{65056,65071,0},{65073,65092,1},{65093,65094,0},{65095,65105,1},{65108,65126,1},
{65128,65131,1},{65136,65138,1},{65139,65139,0},{65140,65140,1},{65142,65276,1},{65279,65279,2},{65281,65439,1},
{65440,65440,2},{65441,65470,1},{65474,65479,1},{65482,65487,1},{65490,65495,1},{65498,65500,1},{65504,65510,1},
{65512,65518,1},{65536,65547,0},{65549,65574,0},{65576,65594,0},{65596,65597,0},{65599,65613,0},{65616,65629,0},
{65664,65786,0},{65792,65794,0},{65799,65843,0},{65847,65934,0},{65936,65948,0},{65952,65952,0},{66000,66045,0},
{66176,66204,0},{66208,66256,0},{66272,66299,0},{66304,66339,0},{66349,66378,0},{66384,66426,0},{66432,66461,0},
{66463,66499,0},{66504,66517,0},{66560,66599,1},{66600,66717,0},{66720,66729,0},{66736,66771,1},{66776,66811,0},
{66816,66855,0},{66864,66915,0},{66927,66927,0},{66928,66938,1},{66940,66954,1},{66956,66962,1},{66964,66965,1},
{66967,66977,0},{66979,66993,0},{66995,67001,0},{67003,67004,0},{67008,67059,0},{67072,67382,0},{67392,67413,0},
{67424,67431,0},{67456,67456,0},{67457,67461,1},{67463,67504,1},{67506,67514,1},{67584,67589,0},{67592,67592,0},
{67594,67637,0},{67639,67640,0},{67644,67644,0},{67647,67669,0},{67671,67742,0},{67751,67759,0},{67808,67826,0},
{67828,67829,0},{67835,67867,0},{67871,67897,0},{67903,67929,0},{67968,68023,0},{68028,68047,0},{68050,68099,0},
{68101,68102,0},{68108,68115,0},{68117,68119,0},{68121,68149,0},{68152,68154,0},{68159,68168,0},{68176,68184,0},
{68192,68255,0},{68288,68326,0},{68331,68342,0},{68352,68405,0},{68409,68437,0},{68440,68466,0},{68472,68497,0},
{68505,68508,0},{68521,68527,0},{68608,68680,0},{68736,68786,1},{68800,68850,0},{68858,68903,0},{68912,68921,0},
{68928,68943,0},{68944,68965,1},{68969,68997,0},{69006,69007,0},{69216,69246,0},{69248,69289,0},{69291,69293,0},
{69296,69297,0},{69314,69319,0},{69328,69336,0},{69370,69415,0},{69424,69465,0},{69488,69513,0},{69552,69579,0},
{69600,69622,0},{69632,69709,0},{69714,69749,0},{69759,69820,0},{69822,69826,0},{69840,69864,0},{69872,69881,0},
{69888,69940,0},{69942,69959,0},{69968,70006,0},{70016,70111,0},{70113,70132,0},{70144,70161,0},{70163,70209,0},
{70272,70278,0},{70280,70280,0},{70282,70285,0},{70287,70301,0},{70303,70313,0},{70320,70378,0},{70384,70393,0},
{70400,70403,0},{70405,70412,0},{70415,70416,0},{70419,70440,0},{70442,70448,0},{70450,70451,0},{70453,70457,0},
{70459,70468,0},{70471,70472,0},{70475,70477,0},{70480,70480,0},{70487,70487,0},{70493,70499,0},{70502,70508,0},
{70512,70516,0},{70528,70537,0},{70539,70539,0},{70542,70542,0},{70544,70581,0},{70583,70592,0},{70594,70594,0},
{70597,70597,0},{70599,70602,0},{70604,70613,0},{70615,70616,0},{70625,70626,0},{70656,70747,0},{70749,70753,0},
{70784,70855,0},{70864,70873,0},{71040,71093,0},{71096,71133,0},{71168,71236,0},{71248,71257,0},{71264,71276,0},
{71296,71353,0},{71360,71369,0},{71376,71395,0},{71424,71450,0},{71453,71467,0},{71472,71494,0},{71680,71739,0},
{71840,71871,1},{71872,71922,0},{71935,71942,0},{71945,71945,0},{71948,71955,0},{71957,71958,0},{71960,71989,0},
{71991,71992,0},{71995,72006,0},{72016,72025,0},{72096,72103,0},{72106,72151,0},{72154,72164,0},{72192,72263,0},
{72272,72354,0},{72368,72440,0},{72448,72457,0},{72544,72551,0},{72640,72673,0},{72688,72697,0},{72704,72712,0},
{72714,72758,0},{72760,72773,0},{72784,72812,0},{72816,72847,0},{72850,72871,0},{72873,72886,0},{72960,72966,0},
{72968,72969,0},{72971,73014,0},{73018,73018,0},{73020,73021,0},{73023,73031,0},{73040,73049,0},{73056,73061,0},
{73063,73064,0},{73066,73102,0},{73104,73105,0},{73107,73112,0},{73120,73129,0},{73136,73179,0},{73184,73193,0},
{73440,73464,0},{73472,73488,0},{73490,73530,0},{73534,73562,0},{73648,73648,0},{73664,73713,0},{73727,74649,0},
{74752,74862,0},{74864,74868,0},{74880,75075,0},{77712,77810,0},{77824,78895,0},{78912,78933,0},{78944,82938,0},
{82944,83526,0},{90368,90425,0},{92160,92728,0},{92736,92766,0},{92768,92777,0},{92782,92862,0},{92864,92873,0},
{92880,92909,0},{92912,92917,0},{92928,92997,0},{93008,93017,0},{93019,93025,0},{93027,93047,0},{93053,93071,0},
{93504,93561,0},{93760,93791,1},{93792,93850,0},{93856,93880,1},{93883,93907,0},{93952,94026,0},{94031,94087,0},
{94095,94111,0},{94176,94180,0},{94192,94198,0},{94208,101589,0},{101631,101662,0},{101760,101874,0},
{110576,110579,0},{110581,110587,0},{110589,110590,0},{110592,110882,0},{110898,110898,0},{110928,110930,0},
{110933,110933,0},{110948,110951,0},{110960,111355,0},{113664,113770,0},{113776,113788,0},{113792,113800,0},
{113808,113817,0},{113820,113823,0},{113824,113827,2},{117760,117973,0},{117974,118009,1},{118010,118012,0},
{118016,118451,0},{118458,118480,0},{118496,118512,0},{118528,118573,0},{118576,118598,0},{118608,118723,0},
{118784,119029,0},{119040,119078,0},{119081,119133,0},{119134,119140,1},{119141,119154,0},{119155,119162,2},
{119163,119226,0},{119227,119232,1},{119233,119274,0},{119296,119365,0},{119488,119507,0},{119520,119539,0},
{119552,119638,0},{119648,119672,0},{119808,119892,1},{119894,119964,1},{119966,119967,1},{119970,119970,1},
{119973,119974,1},{119977,119980,1},{119982,119993,1},{119995,119995,1},{119997,120003,1},{120005,120069,1},
{120071,120074,1},{120077,120084,1},{120086,120092,1},{120094,120121,1},{120123,120126,1},{120128,120132,1},
{120134,120134,1},{120138,120144,1},{120146,120485,1},{120488,120779,1},{120782,120831,1},{120832,121483,0},
{121499,121503,0},{121505,121519,0},{122624,122654,0},{122661,122666,0},{122880,122886,0},{122888,122904,0},
{122907,122913,0},{122915,122916,0},{122918,122922,0},{122928,122989,1},{123023,123023,0},{123136,123180,0},
{123184,123197,0},{123200,123209,0},{123214,123215,0},{123536,123566,0},{123584,123641,0},{123647,123647,0},
{124112,124153,0},{124368,124410,0},{124415,124415,0},{124608,124638,0},{124640,124661,0},{124670,124671,0},
{124896,124902,0},{124904,124907,0},{124909,124910,0},{124912,124926,0},{124928,125124,0},{125127,125142,0},
{125184,125217,1},{125218,125259,0},{125264,125273,0},{125278,125279,0},{126065,126132,0},{126209,126269,0},
{126464,126467,1},{126469,126495,1},{126497,126498,1},{126500,126500,1},{126503,126503,1},{126505,126514,1},
{126516,126519,1},{126521,126521,1},{126523,126523,1},{126530,126530,1},{126535,126535,1},{126537,126537,1},
{126539,126539,1},{126541,126543,1},{126545,126546,1},{126548,126548,1},{126551,126551,1},{126553,126553,1},
{126555,126555,1},{126557,126557,1},{126559,126559,1},{126561,126562,1},{126564,126564,1},{126567,126570,1},
{126572,126578,1},{126580,126583,1},{126585,126588,1},{126590,126590,1},{126592,126601,1},{126603,126619,1},
{126625,126627,1},{126629,126633,1},{126635,126651,1},{126704,126705,0},{126976,127019,0},{127024,127123,0},
{127136,127150,0},{127153,127167,0},{127169,127183,0},{127185,127221,0},{127233,127242,1},{127243,127247,0},
{127248,127278,1},{127279,127279,0},{127280,127311,1},{127312,127337,0},{127338,127340,1},{127341,127375,0},
{127376,127376,1},{127377,127405,0},{127462,127487,0},{127488,127490,1},{127504,127547,1},{127552,127560,1},
{127568,127569,1},{127584,127589,0},{127744,128728,0},{128732,128748,0},{128752,128764,0},{128768,128985,0},
{128992,129003,0},{129008,129008,0},{129024,129035,0},{129040,129095,0},{129104,129113,0},{129120,129159,0},
{129168,129197,0},{129200,129211,0},{129216,129217,0},{129232,129240,0},{129280,129623,0},{129632,129645,0},
{129648,129660,0},{129664,129674,0},{129678,129734,0},{129736,129736,0},{129741,129756,0},{129759,129770,0},
{129775,129784,0},{129792,129938,0},{129940,130031,0},{130032,130041,1},{130042,130042,0},{131072,173791,0},
{173824,178205,0},{178208,183981,0},{183984,191456,0},{191472,192093,0},{194560,195101,1},{196608,201546,0},
{201552,210041,0},{917760,917999,2},
};
static const uint32_t kMapPool[] = {
97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,32,32,776,97,32,
772,50,51,32,769,956,32,807,49,111,49,8260,52,49,8260,50,51,8260,52,224,225,226,227,228,229,230,231,232,233,234,235,
236,237,238,239,240,241,242,243,244,245,246,248,249,250,251,252,253,254,257,259,261,263,265,267,269,271,273,275,277,
279,281,283,285,287,289,291,293,295,297,299,301,303,105,775,105,106,105,106,309,311,314,316,318,108,183,108,183,322,
324,326,328,700,110,331,333,335,337,339,341,343,345,347,349,351,353,355,357,359,361,363,365,367,369,371,373,375,255,
378,380,382,115,595,387,389,596,392,598,599,396,477,601,603,402,608,611,617,616,409,623,626,629,417,419,421,640,424,
643,429,648,432,650,651,436,438,658,441,445,100,382,100,382,100,382,108,106,108,106,108,106,110,106,110,106,110,106,
462,464,466,468,470,472,474,476,479,481,483,485,487,489,491,493,495,100,122,100,122,100,122,501,405,447,505,507,509,
511,513,515,517,519,521,523,525,527,529,531,533,535,537,539,541,543,414,547,549,551,553,555,557,559,561,563,11365,572,
410,11366,578,384,649,652,583,585,587,589,591,104,614,106,114,633,635,641,119,121,32,774,32,775,32,778,32,808,32,771,
32,779,611,108,115,120,661,768,769,787,776,769,953,881,883,697,887,32,953,59,1011,32,769,32,776,769,940,183,941,942,
943,972,973,974,945,946,947,948,949,950,951,952,953,954,955,956,957,958,959,960,961,963,964,965,966,967,968,969,970,
971,983,946,952,965,973,971,966,960,985,987,989,991,993,995,997,999,1001,1003,1005,1007,954,961,963,952,949,1016,963,
1019,891,892,893,1104,1105,1106,1107,1108,1109,1110,1111,1112,1113,1114,1115,1116,1117,1118,1119,1072,1073,1074,1075,
1076,1077,1078,1079,1080,1081,1082,1083,1084,1085,1086,1087,1088,1089,1090,1091,1092,1093,1094,1095,1096,1097,1098,
1099,1100,1101,1102,1103,1121,1123,1125,1127,1129,1131,1133,1135,1137,1139,1141,1143,1145,1147,1149,1151,1153,1163,
1165,1167,1169,1171,1173,1175,1177,1179,1181,1183,1185,1187,1189,1191,1193,1195,1197,1199,1201,1203,1205,1207,1209,
1211,1213,1215,1231,1218,1220,1222,1224,1226,1228,1230,1233,1235,1237,1239,1241,1243,1245,1247,1249,1251,1253,1255,
1257,1259,1261,1263,1265,1267,1269,1271,1273,1275,1277,1279,1281,1283,1285,1287,1289,1291,1293,1295,1297,1299,1301,
1303,1305,1307,1309,1311,1313,1315,1317,1319,1321,1323,1325,1327,1377,1378,1379,1380,1381,1382,1383,1384,1385,1386,
1387,1388,1389,1390,1391,1392,1393,1394,1395,1396,1397,1398,1399,1400,1401,1402,1403,1404,1405,1406,1407,1408,1409,
1410,1411,1412,1413,1414,1381,1410,1575,1652,1608,1652,1735,1652,1610,1652,2325,2364,2326,2364,2327,2364,2332,2364,
2337,2364,2338,2364,2347,2364,2351,2364,2465,2492,2466,2492,2479,2492,2610,2620,2616,2620,2582,2620,2583,2620,2588,
2620,2603,2620,2849,2876,2850,2876,3661,3634,3789,3762,3755,3737,3755,3745,3851,3906,4023,3916,4023,3921,4023,3926,
4023,3931,4023,3904,4021,3953,3954,3953,3956,4018,3968,4018,3953,3968,4019,3968,4019,3953,3968,3953,3968,3986,4023,
3996,4023,4001,4023,4006,4023,4011,4023,3984,4021,11520,11521,11522,11523,11524,11525,11526,11527,11528,11529,11530,
11531,11532,11533,11534,11535,11536,11537,11538,11539,11540,11541,11542,11543,11544,11545,11546,11547,11548,11549,
11550,11551,11552,11553,11554,11555,11556,11557,11559,11565,4316,5104,5105,5106,5107,5108,5109,1074,1076,1086,1089,
1090,1090,1098,1123,42571,7306,4304,4305,4306,4307,4308,4309,4310,4311,4312,4313,4314,4315,4316,4317,4318,4319,4320,
4321,4322,4323,4324,4325,4326,4327,4328,4329,4330,4331,4332,4333,4334,4335,4336,4337,4338,4339,4340,4341,4342,4343,
4344,4345,4346,4349,4350,4351,97,230,98,100,101,477,103,104,105,106,107,108,109,110,111,547,112,114,116,117,119,97,
592,593,7426,98,100,101,601,603,604,103,107,109,331,111,596,7446,7447,112,116,117,7453,623,118,7461,946,947,948,966,
967,105,114,117,118,946,947,961,966,967,1085,594,99,597,240,604,102,607,609,613,616,617,618,7547,669,621,7557,671,625,
624,626,627,628,629,632,642,643,427,649,650,7452,651,652,122,656,657,658,952,7681,7683,7685,7687,7689,7691,7693,7695,
7697,7699,7701,7703,7705,7707,7709,7711,7713,7715,7717,7719,7721,7723,7725,7727,7729,7731,7733,7735,7737,7739,7741,
7743,7745,7747,7749,7751,7753,7755,7757,7759,7761,7763,7765,7767,7769,7771,7773,7775,7777,7779,7781,7783,7785,7787,
7789,7791,7793,7795,7797,7799,7801,7803,7805,7807,7809,7811,7813,7815,7817,7819,7821,7823,7825,7827,7829,97,702,7777,
223,7841,7843,7845,7847,7849,7851,7853,7855,7857,7859,7861,7863,7865,7867,7869,7871,7873,7875,7877,7879,7881,7883,
7885,7887,7889,7891,7893,7895,7897,7899,7901,7903,7905,7907,7909,7911,7913,7915,7917,7919,7921,7923,7925,7927,7929,
7931,7933,7935,7936,7937,7938,7939,7940,7941,7942,7943,7952,7953,7954,7955,7956,7957,7968,7969,7970,7971,7972,7973,
7974,7975,7984,7985,7986,7987,7988,7989,7990,7991,8000,8001,8002,8003,8004,8005,8017,8019,8021,8023,8032,8033,8034,
8035,8036,8037,8038,8039,940,941,942,943,972,973,974,7936,953,7937,953,7938,953,7939,953,7940,953,7941,953,7942,953,
7943,953,7936,953,7937,953,7938,953,7939,953,7940,953,7941,953,7942,953,7943,953,7968,953,7969,953,7970,953,7971,953,
7972,953,7973,953,7974,953,7975,953,7968,953,7969,953,7970,953,7971,953,7972,953,7973,953,7974,953,7975,953,8032,953,
8033,953,8034,953,8035,953,8036,953,8037,953,8038,953,8039,953,8032,953,8033,953,8034,953,8035,953,8036,953,8037,953,
8038,953,8039,953,8048,953,945,953,940,953,8118,953,8112,8113,8048,940,945,953,32,787,953,32,787,32,834,32,776,834,
8052,953,951,953,942,953,8134,953,8050,941,8052,942,951,953,32,787,768,32,787,769,32,787,834,912,8144,8145,8054,943,
32,788,768,32,788,769,32,788,834,944,8160,8161,8058,973,8165,32,776,768,32,776,769,96,8060,953,969,953,974,953,8182,
953,8056,972,8060,974,969,953,32,769,32,788,32,32,32,32,32,32,32,32,32,32,32,8208,32,819,32,8242,8242,8242,8242,8242,
8245,8245,8245,8245,8245,33,33,32,773,63,63,63,33,33,63,8242,8242,8242,8242,32,48,105,52,53,54,55,56,57,43,8722,61,40,
41,110,48,49,50,51,52,53,54,55,56,57,43,8722,61,40,41,97,101,111,120,601,104,107,108,109,110,112,115,116,114,115,97,
47,99,97,47,115,99,176,99,99,47,111,99,47,117,603,176,102,103,104,104,104,104,295,105,105,108,108,110,110,111,112,113,
114,114,114,115,109,116,101,108,116,109,122,969,122,107,229,98,99,101,101,102,8526,109,111,1488,1489,1490,1491,105,
102,97,120,960,947,947,960,8721,100,100,101,105,106,49,8260,55,49,8260,57,49,8260,49,48,49,8260,51,50,8260,51,49,8260,
53,50,8260,53,51,8260,53,52,8260,53,49,8260,54,53,8260,54,49,8260,56,51,8260,56,53,8260,56,55,8260,56,49,8260,105,105,
105,105,105,105,105,118,118,118,105,118,105,105,118,105,105,105,105,120,120,120,105,120,105,105,108,99,100,109,105,
105,105,105,105,105,105,118,118,118,105,118,105,105,118,105,105,105,105,120,120,120,105,120,105,105,108,99,100,109,
8580,48,8260,51,8747,8747,8747,8747,8747,8750,8750,8750,8750,8750,12296,12297,49,50,51,52,53,54,55,56,57,49,48,49,49,
49,50,49,51,49,52,49,53,49,54,49,55,49,56,49,57,50,48,40,49,41,40,50,41,40,51,41,40,52,41,40,53,41,40,54,41,40,55,41,
40,56,41,40,57,41,40,49,48,41,40,49,49,41,40,49,50,41,40,49,51,41,40,49,52,41,40,49,53,41,40,49,54,41,40,49,55,41,40,
49,56,41,40,49,57,41,40,50,48,41,40,97,41,40,98,41,40,99,41,40,100,41,40,101,41,40,102,41,40,103,41,40,104,41,40,105,
41,40,106,41,40,107,41,40,108,41,40,109,41,40,110,41,40,111,41,40,112,41,40,113,41,40,114,41,40,115,41,40,116,41,40,
117,41,40,118,41,40,119,41,40,120,41,40,121,41,40,122,41,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,
113,114,115,116,117,118,119,120,121,122,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,
117,118,119,120,121,122,48,8747,8747,8747,8747,58,58,61,61,61,61,61,61,10973,824,11312,11313,11314,11315,11316,11317,
11318,11319,11320,11321,11322,11323,11324,11325,11326,11327,11328,11329,11330,11331,11332,11333,11334,11335,11336,
11337,11338,11339,11340,11341,11342,11343,11344,11345,11346,11347,11348,11349,11350,11351,11352,11353,11354,11355,
11356,11357,11358,11359,11361,619,7549,637,11368,11370,11372,593,625,592,594,11379,11382,106,118,575,576,11393,11395,
11397,11399,11401,11403,11405,11407,11409,11411,11413,11415,11417,11419,11421,11423,11425,11427,11429,11431,11433,
11435,11437,11439,11441,11443,11445,11447,11449,11451,11453,11455,11457,11459,11461,11463,11465,11467,11469,11471,
11473,11475,11477,11479,11481,11483,11485,11487,11489,11491,11500,11502,11507,11617,27597,40863,19968,20008,20022,
20031,20057,20101,20108,20128,20154,20799,20837,20843,20866,20886,20907,20960,20981,20992,21147,21241,21269,21274,
21304,21313,21340,21353,21378,21430,21448,21475,22231,22303,22763,22786,22794,22805,22823,22899,23376,23424,23544,
23567,23586,23608,23662,23665,24027,24037,24049,24062,24178,24186,24191,24308,24318,24331,24339,24400,24417,24435,
24515,25096,25142,25163,25903,25908,25991,26007,26020,26041,26080,26085,26352,26376,26408,27424,27490,27513,27571,
27595,27604,27611,27663,27668,27700,28779,29226,29238,29243,29247,29255,29273,29275,29356,29572,29577,29916,29926,
29976,29983,29992,30000,30091,30098,30326,30333,30382,30399,30446,30683,30690,30707,31034,31160,31166,31348,31435,
31481,31859,31992,32566,32593,32650,32701,32769,32780,32786,32819,32895,32905,33251,33258,33267,33276,33292,33307,
33311,33390,33394,33400,34381,34411,34880,34892,34915,35198,35211,35282,35328,35895,35910,35925,35960,35997,36196,
36208,36275,36523,36554,36763,36784,36789,37009,37193,37318,37324,37329,38263,38272,38428,38582,38585,38632,38737,
38750,38754,38761,38859,38893,38899,38913,39080,39131,39135,39318,39321,39340,39592,39640,39647,39717,39727,39730,
39740,39770,40165,40565,40575,40613,40635,40643,40653,40657,40697,40701,40718,40723,40736,40763,40778,40786,40845,
40860,40864,32,46,12306,21313,21316,21317,32,12441,32,12442,12424,12426,12467,12488,4352,4353,4522,4354,4524,4525,
4355,4356,4357,4528,4529,4530,4531,4532,4533,4378,4358,4359,4360,4385,4361,4362,4363,4364,4365,4366,4367,4368,4369,
4370,4449,4450,4451,4452,4453,4454,4455,4456,4457,4458,4459,4460,4461,4462,4463,4464,4465,4466,4467,4468,4469,4372,
4373,4551,4552,4556,4558,4563,4567,4569,4380,4573,4575,4381,4382,4384,4386,4387,4391,4393,4395,4396,4397,4398,4399,
4402,4406,4416,4423,4428,4593,4594,4439,4440,4441,4484,4485,4488,4497,4498,4500,4510,4513,19968,20108,19977,22235,
19978,20013,19979,30002,20057,19993,19969,22825,22320,20154,40,4352,41,40,4354,41,40,4355,41,40,4357,41,40,4358,41,40,
4359,41,40,4361,41,40,4363,41,40,4364,41,40,4366,41,40,4367,41,40,4368,41,40,4369,41,40,4370,41,40,44032,41,40,45208,
41,40,45796,41,40,46972,41,40,47560,41,40,48148,41,40,49324,41,40,50500,41,40,51088,41,40,52264,41,40,52852,41,40,
53440,41,40,54028,41,40,54616,41,40,51452,41,40,50724,51204,41,40,50724,54980,41,40,19968,41,40,20108,41,40,19977,41,
40,22235,41,40,20116,41,40,20845,41,40,19971,41,40,20843,41,40,20061,41,40,21313,41,40,26376,41,40,28779,41,40,27700,
41,40,26408,41,40,37329,41,40,22303,41,40,26085,41,40,26666,41,40,26377,41,40,31038,41,40,21517,41,40,29305,41,40,
36001,41,40,31069,41,40,21172,41,40,20195,41,40,21628,41,40,23398,41,40,30435,41,40,20225,41,40,36039,41,40,21332,41,
40,31085,41,40,20241,41,40,33258,41,40,33267,41,21839,24188,25991,31631,112,116,101,50,49,50,50,50,51,50,52,50,53,50,
54,50,55,50,56,50,57,51,48,51,49,51,50,51,51,51,52,51,53,4352,4354,4355,4357,4358,4359,4361,4363,4364,4366,4367,4368,
4369,4370,44032,45208,45796,46972,47560,48148,49324,50500,51088,52264,52852,53440,54028,54616,52280,44256,51452,51032,
50864,19968,20108,19977,22235,20116,20845,19971,20843,20061,21313,26376,28779,27700,26408,37329,22303,26085,26666,
26377,31038,21517,29305,36001,31069,21172,31192,30007,22899,36969,20778,21360,27880,38917,20241,20889,27491,19978,
20013,19979,24038,21491,21307,23447,23398,30435,20225,36039,21332,22812,51,54,51,55,51,56,51,57,52,48,52,49,52,50,52,
51,52,52,52,53,52,54,52,55,52,56,52,57,53,48,49,26376,50,26376,51,26376,52,26376,53,26376,54,26376,55,26376,56,26376,
57,26376,49,48,26376,49,49,26376,49,50,26376,104,103,101,114,103,101,118,108,116,100,12450,12452,12454,12456,12458,
12459,12461,12463,12465,12467,12469,12471,12473,12475,12477,12479,12481,12484,12486,12488,12490,12491,12492,12493,
12494,12495,12498,12501,12504,12507,12510,12511,12512,12513,12514,12516,12518,12520,12521,12522,12523,12524,12525,
12527,12528,12529,12530,20196,21644,12450,12497,12540,12488,12450,12523,12501,12449,12450,12531,12506,12450,12450,
12540,12523,12452,12491,12531,12464,12452,12531,12481,12454,12457,12531,12456,12473,12463,12540,12489,12456,12540,
12459,12540,12458,12531,12473,12458,12540,12512,12459,12452,12522,12459,12521,12483,12488,12459,12525,12522,12540,
12460,12525,12531,12460,12531,12510,12462,12460,12462,12491,12540,12461,12517,12522,12540,12462,12523,12480,12540,
12461,12525,12461,12525,12464,12521,12512,12461,12525,12513,12540,12488,12523,12461,12525,12527,12483,12488,12464,
12521,12512,12464,12521,12512,12488,12531,12463,12523,12476,12452,12525,12463,12525,12540,12493,12465,12540,12473,
12467,12523,12490,12467,12540,12509,12469,12452,12463,12523,12469,12531,12481,12540,12512,12471,12522,12531,12464,
12475,12531,12481,12475,12531,12488,12480,12540,12473,12487,12471,12489,12523,12488,12531,12490,12494,12494,12483,
12488,12495,12452,12484,12497,12540,12475,12531,12488,12497,12540,12484,12496,12540,12524,12523,12500,12450,12473,
12488,12523,12500,12463,12523,12500,12467,12499,12523,12501,12449,12521,12483,12489,12501,12451,12540,12488,12502,
12483,12471,12455,12523,12501,12521,12531,12504,12463,12479,12540,12523,12506,12477,12506,12491,12498,12504,12523,
12484,12506,12531,12473,12506,12540,12472,12505,12540,12479,12509,12452,12531,12488,12508,12523,12488,12507,12531,
12509,12531,12489,12507,12540,12523,12507,12540,12531,12510,12452,12463,12525,12510,12452,12523,12510,12483,12495,
12510,12523,12463,12510,12531,12471,12519,12531,12511,12463,12525,12531,12511,12522,12511,12522,12496,12540,12523,
12513,12460,12513,12460,12488,12531,12513,12540,12488,12523,12516,12540,12489,12516,12540,12523,12518,12450,12531,
12522,12483,12488,12523,12522,12521,12523,12500,12540,12523,12540,12502,12523,12524,12512,12524,12531,12488,12466,
12531,12527,12483,12488,48,28857,49,28857,50,28857,51,28857,52,28857,53,28857,54,28857,55,28857,56,28857,57,28857,49,
48,28857,49,49,28857,49,50,28857,49,51,28857,49,52,28857,49,53,28857,49,54,28857,49,55,28857,49,56,28857,49,57,28857,
50,48,28857,50,49,28857,50,50,28857,50,51,28857,50,52,28857,104,112,97,100,97,97,117,98,97,114,111,118,112,99,100,109,
100,109,50,100,109,51,105,117,24179,25104,26157,21644,22823,27491,26126,27835,26666,24335,20250,31038,112,97,110,97,
956,97,109,97,107,97,107,98,109,98,103,98,99,97,108,107,99,97,108,112,102,110,102,956,102,956,103,109,103,107,103,104,
122,107,104,122,109,104,122,103,104,122,116,104,122,956,108,109,108,100,108,107,108,102,109,110,109,956,109,109,109,
99,109,107,109,109,109,50,99,109,50,109,50,107,109,50,109,109,51,99,109,51,109,51,107,109,51,109,8725,115,109,8725,
115,50,112,97,107,112,97,109,112,97,103,112,97,114,97,100,114,97,100,8725,115,114,97,100,8725,115,50,112,115,110,115,
956,115,109,115,112,118,110,118,956,118,109,118,107,118,109,118,112,119,110,119,956,119,109,119,107,119,109,119,107,
969,109,969,98,113,99,99,99,100,99,8725,107,103,100,98,103,121,104,97,104,112,105,110,107,107,107,109,107,116,108,109,
108,110,108,111,103,108,120,109,98,109,105,108,109,111,108,112,104,112,112,109,112,114,115,114,115,118,119,98,118,
8725,109,97,8725,109,49,26085,50,26085,51,26085,52,26085,53,26085,54,26085,55,26085,56,26085,57,26085,49,48,26085,49,
49,26085,49,50,26085,49,51,26085,49,52,26085,49,53,26085,49,54,26085,49,55,26085,49,56,26085,49,57,26085,50,48,26085,
50,49,26085,50,50,26085,50,51,26085,50,52,26085,50,53,26085,50,54,26085,50,55,26085,50,56,26085,50,57,26085,51,48,
26085,51,49,26085,103,97,108,42561,42563,42565,42567,42569,42571,42573,42575,42577,42579,42581,42583,42585,42587,
42589,42591,42593,42595,42597,42599,42601,42603,42605,42625,42627,42629,42631,42633,42635,42637,42639,42641,42643,
42645,42647,42649,42651,1098,1100,42787,42789,42791,42793,42795,42797,42799,42803,42805,42807,42809,42811,42813,42815,
42817,42819,42821,42823,42825,42827,42829,42831,42833,42835,42837,42839,42841,42843,42845,42847,42849,42851,42853,
42855,42857,42859,42861,42863,42863,42874,42876,7545,42879,42881,42883,42885,42887,42892,613,42897,42899,42903,42905,
42907,42909,42911,42913,42915,42917,42919,42921,614,604,609,620,618,670,647,669,43859,42933,42935,42937,42939,42941,
42943,42945,42947,42900,642,7566,42952,42954,612,42957,42959,42961,42963,42965,42967,42969,42971,411,115,99,102,113,
42998,295,339,42791,43831,619,43858,653,5024,5025,5026,5027,5028,5029,5030,5031,5032,5033,5034,5035,5036,5037,5038,
5039,5040,5041,5042,5043,5044,5045,5046,5047,5048,5049,5050,5051,5052,5053,5054,5055,5056,5057,5058,5059,5060,5061,
5062,5063,5064,5065,5066,5067,5068,5069,5070,5071,5072,5073,5074,5075,5076,5077,5078,5079,5080,5081,5082,5083,5084,
5085,5086,5087,5088,5089,5090,5091,5092,5093,5094,5095,5096,5097,5098,5099,5100,5101,5102,5103,35912,26356,36554,
36040,28369,20018,21477,40860,40860,22865,37329,21895,22856,25078,30313,32645,34367,34746,35064,37007,27138,27931,
28889,29662,33853,37226,39409,20098,21365,27396,29211,34349,40478,23888,28651,34253,35172,25289,33240,34847,24266,
26391,28010,29436,37070,20358,20919,21214,25796,27347,29200,30439,32769,34310,34396,36335,38706,39791,40442,30860,
31103,32160,33737,37636,40575,35542,22751,24324,31840,32894,29282,30922,36034,38647,22744,23650,27155,28122,28431,
32047,32311,38475,21202,32907,20956,20940,31260,32190,33777,38517,35712,25295,27138,35582,20025,23527,24594,29575,
30064,21271,30971,20415,24489,19981,27852,25976,32034,21443,22622,30465,33865,35498,27578,36784,27784,25342,33509,
25504,30053,20142,20841,20937,26753,31975,33391,35538,37327,21237,21570,22899,24300,26053,28670,31018,38317,39530,
40599,40654,21147,26310,27511,36706,24180,24976,25088,25754,28451,29001,29833,31178,32244,32879,36646,34030,36899,
37706,21015,21155,21693,28872,35010,35498,24265,24565,25467,27566,31806,29557,20196,22265,23527,23994,24604,29618,
29801,32666,32838,37428,38646,38728,38936,20363,31150,37300,38584,24801,20102,20698,23534,23615,26009,27138,29134,
30274,34044,36988,40845,26248,38446,21129,26491,26611,27969,28316,29705,30041,30827,32016,39006,20845,25134,38520,
20523,23833,28138,36650,24459,24900,26647,29575,38534,21033,21519,23653,26131,26446,26792,27877,29702,30178,32633,
35023,35041,37324,38626,21311,28346,21533,29136,29848,34298,38563,40023,40607,26519,28107,33256,31435,31520,31890,
29376,28825,35672,20160,33590,21050,20999,24230,25299,31958,23429,27934,26292,36667,34892,38477,35211,24275,20800,
21952,22618,26228,20958,29482,30410,31036,31070,31077,31119,38742,31934,32701,34322,35576,36920,37117,39151,39164,
39208,40372,37086,38583,20398,20711,20813,21193,21220,21329,21917,22022,22120,22592,22696,23652,23662,24724,24936,
24974,25074,25935,26082,26257,26757,28023,28186,28450,29038,29227,29730,30865,31038,31049,31048,31056,31062,31069,
31117,31118,31296,31361,31680,32244,32265,32321,32626,32773,33261,33401,33401,33879,35088,35222,35585,35641,36051,
36104,36790,36920,38627,38911,38971,24693,148206,33304,20006,20917,20840,20352,20805,20864,21191,21242,21917,21845,
21913,21986,22618,22707,22852,22868,23138,23336,24274,24281,24425,24493,24792,24910,24840,24974,24928,25074,25140,
25540,25628,25682,25942,26228,26391,26395,26454,27513,27578,27969,28379,28363,28450,28702,29038,30631,29237,29359,
29482,29809,29958,30011,30237,30239,30410,30427,30452,30538,30528,30924,31409,31680,31867,32091,32244,32574,32773,
33618,33775,34681,35137,35206,35222,35519,35576,35531,35585,35582,35565,35641,35722,36104,36664,36978,37273,37494,
38524,38627,38742,38875,38911,38923,38971,39698,40860,141386,141380,144341,15261,16408,16441,152137,154832,163539,
40771,40846,102,102,102,105,102,108,102,102,105,102,102,108,115,116,115,116,1396,1398,1396,1381,1396,1387,1406,1398,
1396,1389,1497,1460,1522,1463,1506,1488,1491,1492,1499,1500,1501,1512,1514,43,1513,1473,1513,1474,1513,1468,1473,1513,
1468,1474,1488,1463,1488,1464,1488,1468,1489,1468,1490,1468,1491,1468,1492,1468,1493,1468,1494,1468,1496,1468,1497,
1468,1498,1468,1499,1468,1500,1468,1502,1468,1504,1468,1505,1468,1507,1468,1508,1468,1510,1468,1511,1468,1512,1468,
1513,1468,1514,1468,1493,1465,1489,1471,1499,1471,1508,1471,1488,1500,1649,1649,1659,1659,1659,1659,1662,1662,1662,
1662,1664,1664,1664,1664,1658,1658,1658,1658,1663,1663,1663,1663,1657,1657,1657,1657,1700,1700,1700,1700,1702,1702,
1702,1702,1668,1668,1668,1668,1667,1667,1667,1667,1670,1670,1670,1670,1671,1671,1671,1671,1677,1677,1676,1676,1678,
1678,1672,1672,1688,1688,1681,1681,1705,1705,1705,1705,1711,1711,1711,1711,1715,1715,1715,1715,1713,1713,1713,1713,
1722,1722,1723,1723,1723,1723,1728,1728,1729,1729,1729,1729,1726,1726,1726,1726,1746,1746,1747,1747,1709,1709,1709,
1709,1735,1735,1734,1734,1736,1736,1735,1652,1739,1739,1733,1733,1737,1737,1744,1744,1744,1744,1609,1609,1574,1575,
1574,1575,1574,1749,1574,1749,1574,1608,1574,1608,1574,1735,1574,1735,1574,1734,1574,1734,1574,1736,1574,1736,1574,
1744,1574,1744,1574,1744,1574,1609,1574,1609,1574,1609,1740,1740,1740,1740,1574,1580,1574,1581,1574,1605,1574,1609,
1574,1610,1576,1580,1576,1581,1576,1582,1576,1605,1576,1609,1576,1610,1578,1580,1578,1581,1578,1582,1578,1605,1578,
1609,1578,1610,1579,1580,1579,1605,1579,1609,1579,1610,1580,1581,1580,1605,1581,1580,1581,1605,1582,1580,1582,1581,
1582,1605,1587,1580,1587,1581,1587,1582,1587,1605,1589,1581,1589,1605,1590,1580,1590,1581,1590,1582,1590,1605,1591,
1581,1591,1605,1592,1605,1593,1580,1593,1605,1594,1580,1594,1605,1601,1580,1601,1581,1601,1582,1601,1605,1601,1609,
1601,1610,1602,1581,1602,1605,1602,1609,1602,1610,1603,1575,1603,1580,1603,1581,1603,1582,1603,1604,1603,1605,1603,
1609,1603,1610,1604,1580,1604,1581,1604,1582,1604,1605,1604,1609,1604,1610,1605,1580,1605,1581,1605,1582,1605,1605,
1605,1609,1605,1610,1606,1580,1606,1581,1606,1582,1606,1605,1606,1609,1606,1610,1607,1580,1607,1605,1607,1609,1607,
1610,1610,1580,1610,1581,1610,1582,1610,1605,1610,1609,1610,1610,1584,1648,1585,1648,1609,1648,32,1612,1617,32,1613,
1617,32,1614,1617,32,1615,1617,32,1616,1617,32,1617,1648,1574,1585,1574,1586,1574,1605,1574,1606,1574,1609,1574,1610,
1576,1585,1576,1586,1576,1605,1576,1606,1576,1609,1576,1610,1578,1585,1578,1586,1578,1605,1578,1606,1578,1609,1578,
1610,1579,1585,1579,1586,1579,1605,1579,1606,1579,1609,1579,1610,1601,1609,1601,1610,1602,1609,1602,1610,1603,1575,
1603,1604,1603,1605,1603,1609,1603,1610,1604,1605,1604,1609,1604,1610,1605,1575,1605,1605,1606,1585,1606,1586,1606,
1605,1606,1606,1606,1609,1606,1610,1609,1648,1610,1585,1610,1586,1610,1605,1610,1606,1610,1609,1610,1610,1574,1580,
1574,1581,1574,1582,1574,1605,1574,1607,1576,1580,1576,1581,1576,1582,1576,1605,1576,1607,1578,1580,1578,1581,1578,
1582,1578,1605,1578,1607,1579,1605,1580,1581,1580,1605,1581,1580,1581,1605,1582,1580,1582,1605,1587,1580,1587,1581,
1587,1582,1587,1605,1589,1581,1589,1582,1589,1605,1590,1580,1590,1581,1590,1582,1590,1605,1591,1581,1592,1605,1593,
1580,1593,1605,1594,1580,1594,1605,1601,1580,1601,1581,1601,1582,1601,1605,1602,1581,1602,1605,1603,1580,1603,1581,
1603,1582,1603,1604,1603,1605,1604,1580,1604,1581,1604,1582,1604,1605,1604,1607,1605,1580,1605,1581,1605,1582,1605,
1605,1606,1580,1606,1581,1606,1582,1606,1605,1606,1607,1607,1580,1607,1605,1607,1648,1610,1580,1610,1581,1610,1582,
1610,1605,1610,1607,1574,1605,1574,1607,1576,1605,1576,1607,1578,1605,1578,1607,1579,1605,1579,1607,1587,1605,1587,
1607,1588,1605,1588,1607,1603,1604,1603,1605,1604,1605,1606,1605,1606,1607,1610,1605,1610,1607,1600,1614,1617,1600,
1615,1617,1600,1616,1617,1591,1609,1591,1610,1593,1609,1593,1610,1594,1609,1594,1610,1587,1609,1587,1610,1588,1609,
1588,1610,1581,1609,1581,1610,1580,1609,1580,1610,1582,1609,1582,1610,1589,1609,1589,1610,1590,1609,1590,1610,1588,
1580,1588,1581,1588,1582,1588,1605,1588,1585,1587,1585,1589,1585,1590,1585,1591,1609,1591,1610,1593,1609,1593,1610,
1594,1609,1594,1610,1587,1609,1587,1610,1588,1609,1588,1610,1581,1609,1581,1610,1580,1609,1580,1610,1582,1609,1582,
1610,1589,1609,1589,1610,1590,1609,1590,1610,1588,1580,1588,1581,1588,1582,1588,1605,1588,1585,1587,1585,1589,1585,
1590,1585,1588,1580,1588,1581,1588,1582,1588,1605,1587,1607,1588,1607,1591,1605,1587,1580,1587,1581,1587,1582,1588,
1580,1588,1581,1588,1582,1591,1605,1592,1605,1575,1611,1575,1611,1578,1580,1605,1578,1581,1580,1578,1581,1580,1578,
1581,1605,1578,1582,1605,1578,1605,1580,1578,1605,1581,1578,1605,1582,1580,1605,1581,1580,1605,1581,1581,1605,1610,
1581,1605,1609,1587,1581,1580,1587,1580,1581,1587,1580,1609,1587,1605,1581,1587,1605,1581,1587,1605,1580,1587,1605,
1605,1587,1605,1605,1589,1581,1581,1589,1581,1581,1589,1605,1605,1588,1581,1605,1588,1581,1605,1588,1580,1610,1588,
1605,1582,1588,1605,1582,1588,1605,1605,1588,1605,1605,1590,1581,1609,1590,1582,1605,1590,1582,1605,1591,1605,1581,
1591,1605,1581,1591,1605,1605,1591,1605,1610,1593,1580,1605,1593,1605,1605,1593,1605,1605,1593,1605,1609,1594,1605,
1605,1594,1605,1610,1594,1605,1609,1601,1582,1605,1601,1582,1605,1602,1605,1581,1602,1605,1605,1604,1581,1605,1604,
1581,1610,1604,1581,1609,1604,1580,1580,1604,1580,1580,1604,1582,1605,1604,1582,1605,1604,1605,1581,1604,1605,1581,
1605,1581,1580,1605,1581,1605,1605,1581,1610,1605,1580,1581,1605,1580,1605,1605,1582,1580,1605,1582,1605,1605,1580,
1582,1607,1605,1580,1607,1605,1605,1606,1581,1605,1606,1581,1609,1606,1580,1605,1606,1580,1605,1606,1580,1609,1606,
1605,1610,1606,1605,1609,1610,1605,1605,1610,1605,1605,1576,1582,1610,1578,1580,1610,1578,1580,1609,1578,1582,1610,
1578,1582,1609,1578,1605,1610,1578,1605,1609,1580,1605,1610,1580,1581,1609,1580,1605,1609,1587,1582,1609,1589,1581,
1610,1588,1581,1610,1590,1581,1610,1604,1580,1610,1604,1605,1610,1610,1581,1610,1610,1580,1610,1610,1605,1610,1605,
1605,1610,1602,1605,1610,1606,1581,1610,1602,1605,1581,1604,1581,1605,1593,1605,1610,1603,1605,1610,1606,1580,1581,
1605,1582,1610,1604,1580,1605,1603,1605,1605,1604,1580,1605,1606,1580,1581,1580,1581,1610,1581,1580,1610,1605,1580,
1610,1601,1605,1610,1576,1581,1610,1603,1605,1605,1593,1580,1605,1589,1605,1605,1587,1582,1610,1606,1580,1610,1589,
1604,1746,1602,1604,1746,1575,1604,1604,1607,1575,1603,1576,1585,1605,1581,1605,1583,1589,1604,1593,1605,1585,1587,
1608,1604,1593,1604,1610,1607,1608,1587,1604,1605,1589,1604,1609,1589,1604,1609,32,1575,1604,1604,1607,32,1593,1604,
1610,1607,32,1608,1587,1604,1605,1580,1604,32,1580,1604,1575,1604,1607,1585,1740,1575,1604,44,12289,58,59,33,63,12310,
12311,8212,8211,95,95,40,41,123,125,12308,12309,12304,12305,12298,12299,12296,12297,12300,12301,12302,12303,91,93,32,
773,32,773,32,773,32,773,95,95,95,44,12289,59,58,63,33,8212,40,41,123,125,12308,12309,35,38,42,43,45,60,62,61,92,36,
37,64,32,1611,1600,1611,32,1612,32,1613,32,1614,1600,1614,32,1615,1600,1615,32,1616,1600,1616,32,1617,1600,1617,32,
1618,1600,1618,1569,1570,1570,1571,1571,1572,1572,1573,1573,1574,1574,1574,1574,1575,1575,1576,1576,1576,1576,1577,
1577,1578,1578,1578,1578,1579,1579,1579,1579,1580,1580,1580,1580,1581,1581,1581,1581,1582,1582,1582,1582,1583,1583,
1584,1584,1585,1585,1586,1586,1587,1587,1587,1587,1588,1588,1588,1588,1589,1589,1589,1589,1590,1590,1590,1590,1591,
1591,1591,1591,1592,1592,1592,1592,1593,1593,1593,1593,1594,1594,1594,1594,1601,1601,1601,1601,1602,1602,1602,1602,
1603,1603,1603,1603,1604,1604,1604,1604,1605,1605,1605,1605,1606,1606,1606,1606,1607,1607,1607,1607,1608,1608,1609,
1609,1610,1610,1610,1610,1604,1570,1604,1570,1604,1571,1604,1571,1604,1573,1604,1573,1604,1575,1604,1575,33,34,35,36,
37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,57,58,59,60,61,62,63,64,97,98,99,100,101,102,103,104,105,
106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,91,92,93,94,95,96,97,98,99,100,101,102,103,104,
105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,123,124,125,126,10629,10630,46,12300,12301,
12289,12539,12530,12449,12451,12453,12455,12457,12515,12517,12519,12483,12540,12450,12452,12454,12456,12458,12459,
12461,12463,12465,12467,12469,12471,12473,12475,12477,12479,12481,12484,12486,12488,12490,12491,12492,12493,12494,
12495,12498,12501,12504,12507,12510,12511,12512,12513,12514,12516,12518,12520,12521,12522,12523,12524,12525,12527,
12531,12441,12442,4352,4353,4522,4354,4524,4525,4355,4356,4357,4528,4529,4530,4531,4532,4533,4378,4358,4359,4360,4385,
4361,4362,4363,4364,4365,4366,4367,4368,4369,4370,4449,4450,4451,4452,4453,4454,4455,4456,4457,4458,4459,4460,4461,
4462,4463,4464,4465,4466,4467,4468,4469,162,163,172,32,772,166,165,8361,9474,8592,8593,8594,8595,9632,9675,66600,
66601,66602,66603,66604,66605,66606,66607,66608,66609,66610,66611,66612,66613,66614,66615,66616,66617,66618,66619,
66620,66621,66622,66623,66624,66625,66626,66627,66628,66629,66630,66631,66632,66633,66634,66635,66636,66637,66638,
66639,66776,66777,66778,66779,66780,66781,66782,66783,66784,66785,66786,66787,66788,66789,66790,66791,66792,66793,
66794,66795,66796,66797,66798,66799,66800,66801,66802,66803,66804,66805,66806,66807,66808,66809,66810,66811,66967,
66968,66969,66970,66971,66972,66973,66974,66975,66976,66977,66979,66980,66981,66982,66983,66984,66985,66986,66987,
66988,66989,66990,66991,66992,66993,66995,66996,66997,66998,66999,67000,67001,67003,67004,720,721,230,665,595,675,
43878,677,676,598,599,7569,600,606,681,612,610,608,667,295,668,615,644,682,683,620,122628,42894,622,122629,654,122630,
248,630,631,113,634,122632,637,638,640,680,678,43879,679,648,11377,655,673,674,664,448,449,450,122634,122654,68800,
68801,68802,68803,68804,68805,68806,68807,68808,68809,68810,68811,68812,68813,68814,68815,68816,68817,68818,68819,
68820,68821,68822,68823,68824,68825,68826,68827,68828,68829,68830,68831,68832,68833,68834,68835,68836,68837,68838,
68839,68840,68841,68842,68843,68844,68845,68846,68847,68848,68849,68850,68976,68977,68978,68979,68980,68981,68982,
68983,68984,68985,68986,68987,68988,68989,68990,68991,68992,68993,68994,68995,68996,68997,71872,71873,71874,71875,
71876,71877,71878,71879,71880,71881,71882,71883,71884,71885,71886,71887,71888,71889,71890,71891,71892,71893,71894,
71895,71896,71897,71898,71899,71900,71901,71902,71903,93792,93793,93794,93795,93796,93797,93798,93799,93800,93801,
93802,93803,93804,93805,93806,93807,93808,93809,93810,93811,93812,93813,93814,93815,93816,93817,93818,93819,93820,
93821,93822,93823,93883,93884,93885,93886,93887,93888,93889,93890,93891,93892,93893,93894,93895,93896,93897,93898,
93899,93900,93901,93902,93903,93904,93905,93906,93907,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,
113,114,115,116,117,118,119,120,121,122,48,49,50,51,52,53,54,55,56,57,119127,119141,119128,119141,119128,119141,
119150,119128,119141,119151,119128,119141,119152,119128,119141,119153,119128,119141,119154,119225,119141,119226,
119141,119225,119141,119150,119226,119141,119150,119225,119141,119151,119226,119141,119151,97,98,99,100,101,102,103,
104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,97,98,99,100,101,102,103,104,105,106,107,
108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,
112,113,114,115,116,117,118,119,120,121,122,97,98,99,100,101,102,103,105,106,107,108,109,110,111,112,113,114,115,116,
117,118,119,120,121,122,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,
121,122,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,97,99,
100,103,106,107,110,111,112,113,115,116,117,118,119,120,121,122,97,98,99,100,102,104,105,106,107,108,109,110,112,113,
114,115,116,117,118,119,120,121,122,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,
118,119,120,121,122,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,
122,97,98,100,101,102,103,106,107,108,109,110,111,112,113,115,116,117,118,119,120,121,97,98,99,100,101,102,103,104,
105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,97,98,100,101,102,103,105,106,107,108,109,111,
115,116,117,118,119,120,121,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,
120,121,122,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,97,
98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,97,98,99,100,101,
102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,97,98,99,100,101,102,103,104,105,
106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,97,98,99,100,101,102,103,104,105,106,107,108,109,
110,111,112,113,114,115,116,117,118,119,120,121,122,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,
114,115,116,117,118,119,120,121,122,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,
118,119,120,121,122,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,
122,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,97,98,99,100,
101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,97,98,99,100,101,102,103,104,
105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,97,98,99,100,101,102,103,104,105,106,107,108,
109,110,111,112,113,114,115,116,117,118,119,120,121,122,305,567,945,946,947,948,949,950,951,952,953,954,955,956,957,
958,959,960,961,952,963,964,965,966,967,968,969,8711,945,946,947,948,949,950,951,952,953,954,955,956,957,958,959,960,
961,963,963,964,965,966,967,968,969,8706,949,952,954,966,961,960,945,946,947,948,949,950,951,952,953,954,955,956,957,
958,959,960,961,952,963,964,965,966,967,968,969,8711,945,946,947,948,949,950,951,952,953,954,955,956,957,958,959,960,
961,963,963,964,965,966,967,968,969,8706,949,952,954,966,961,960,945,946,947,948,949,950,951,952,953,954,955,956,957,
958,959,960,961,952,963,964,965,966,967,968,969,8711,945,946,947,948,949,950,951,952,953,954,955,956,957,958,959,960,
961,963,963,964,965,966,967,968,969,8706,949,952,954,966,961,960,945,946,947,948,949,950,951,952,953,954,955,956,957,
958,959,960,961,952,963,964,965,966,967,968,969,8711,945,946,947,948,949,950,951,952,953,954,955,956,957,958,959,960,
961,963,963,964,965,966,967,968,969,8706,949,952,954,966,961,960,945,946,947,948,949,950,951,952,953,954,955,956,957,
958,959,960,961,952,963,964,965,966,967,968,969,8711,945,946,947,948,949,950,951,952,953,954,955,956,957,958,959,960,
961,963,963,964,965,966,967,968,969,8706,949,952,954,966,961,960,989,989,48,49,50,51,52,53,54,55,56,57,48,49,50,51,52,
53,54,55,56,57,48,49,50,51,52,53,54,55,56,57,48,49,50,51,52,53,54,55,56,57,48,49,50,51,52,53,54,55,56,57,1072,1073,
1074,1075,1076,1077,1078,1079,1080,1082,1083,1084,1086,1087,1088,1089,1090,1091,1092,1093,1094,1095,1096,1099,1101,
1102,42633,1241,1110,1112,1257,1199,1231,1072,1073,1074,1075,1076,1077,1078,1079,1080,1082,1083,1086,1087,1089,1091,
1092,1093,1094,1095,1096,1098,1099,1169,1110,1109,1119,1195,42577,1201,125218,125219,125220,125221,125222,125223,
125224,125225,125226,125227,125228,125229,125230,125231,125232,125233,125234,125235,125236,125237,125238,125239,
125240,125241,125242,125243,125244,125245,125246,125247,125248,125249,125250,125251,1575,1576,1580,1583,1608,1586,
1581,1591,1610,1603,1604,1605,1606,1587,1593,1601,1589,1602,1585,1588,1578,1579,1582,1584,1590,1592,1594,1646,1722,
1697,1647,1576,1580,1607,1581,1610,1603,1604,1605,1606,1587,1593,1601,1589,1602,1588,1578,1579,1582,1590,1594,1580,
1581,1610,1604,1606,1587,1593,1589,1602,1588,1582,1590,1594,1722,1647,1576,1580,1607,1581,1591,1610,1603,1605,1606,
1587,1593,1601,1589,1602,1588,1578,1579,1582,1590,1592,1594,1646,1697,1575,1576,1580,1583,1607,1608,1586,1581,1591,
1610,1604,1605,1606,1587,1593,1601,1589,1602,1585,1588,1578,1579,1582,1584,1590,1592,1594,1576,1580,1583,1608,1586,
1581,1591,1610,1604,1605,1606,1587,1593,1601,1589,1602,1585,1588,1578,1579,1582,1584,1590,1592,1594,48,44,49,44,50,44,
51,44,52,44,53,44,54,44,55,44,56,44,57,44,40,97,41,40,98,41,40,99,41,40,100,41,40,101,41,40,102,41,40,103,41,40,104,
41,40,105,41,40,106,41,40,107,41,40,108,41,40,109,41,40,110,41,40,111,41,40,112,41,40,113,41,40,114,41,40,115,41,40,
116,41,40,117,41,40,118,41,40,119,41,40,120,41,40,121,41,40,122,41,12308,115,12309,99,114,99,100,119,122,97,98,99,100,
101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,104,118,109,118,115,100,115,
115,112,112,118,119,99,109,99,109,100,109,114,100,106,12411,12363,12467,12467,12469,25163,23383,21452,12487,20108,
22810,35299,22825,20132,26144,28961,26009,21069,24460,20877,26032,21021,32066,29983,36009,22768,21561,28436,25237,
25429,19968,19977,36938,24038,20013,21491,25351,36208,25171,31105,31354,21512,28288,26377,26376,30003,21106,21942,
37197,12308,26412,12309,12308,19977,12309,12308,20108,12309,12308,23433,12309,12308,28857,12309,12308,25171,12309,
12308,30423,12309,12308,21213,12309,12308,25943,12309,24471,21487,48,49,50,51,52,53,54,55,56,57,20029,20024,20033,
131362,20320,20398,20411,20482,20602,20633,20711,20687,13470,132666,20813,20820,20836,20855,132380,13497,20839,20877,
132427,20887,20900,20172,20908,20917,168415,20981,20995,13535,21051,21062,21106,21111,13589,21191,21193,21220,21242,
21253,21254,21271,21321,21329,21338,21363,21373,21375,21375,21375,133676,28784,21450,21471,133987,21483,21489,21510,
21662,21560,21576,21608,21666,21750,21776,21843,21859,21892,21892,21913,21931,21939,21954,22294,22022,22295,22097,
22132,20999,22766,22478,22516,22541,22411,22578,22577,22700,136420,22770,22775,22790,22810,22818,22882,136872,136938,
23020,23067,23079,23000,23142,14062,14076,23304,23358,23358,137672,23491,23512,23527,23539,138008,23551,23558,24403,
23586,14209,23648,23662,23744,23693,138724,23875,138726,23918,23915,23932,24033,24034,14383,24061,24104,24125,24169,
14434,139651,14460,24240,24243,24246,24266,172946,24318,140081,140081,33281,24354,24354,14535,144056,156122,24418,
24427,14563,24474,24525,24535,24569,24705,14650,14620,24724,141012,24775,24904,24908,24910,24908,24954,24974,25010,
24996,25007,25054,25074,25078,25104,25115,25181,25265,25300,25424,142092,25405,25340,25448,25475,25572,142321,25634,
25541,25513,14894,25705,25726,25757,25719,14956,25935,25964,143370,26083,26360,26185,15129,26257,15112,15076,20882,
20885,26368,26268,32941,17369,26391,26395,26401,26462,26451,144323,15177,26618,26501,26706,26757,144493,26766,26655,
26900,15261,26946,27043,27114,27304,145059,27355,15384,27425,145575,27476,15438,27506,27551,27578,27579,146061,138507,
146170,27726,146620,27839,27853,27751,27926,27966,28023,27969,28009,28024,28037,146718,27956,28207,28270,15667,28363,
28359,147153,28153,28526,147294,147342,28614,28729,28702,28699,15766,28746,28797,28791,28845,132389,28997,148067,
29084,148395,29224,29237,29264,149000,29312,29333,149301,149524,29562,29579,16044,29605,16056,16056,29767,29788,29809,
29829,29898,16155,29988,150582,30014,150674,30064,139679,30224,151457,151480,151620,16380,16392,30452,151795,151794,
151833,151859,30494,30495,30495,30538,16441,30603,16454,16534,152605,30798,30860,30924,16611,153126,31062,153242,
153285,31119,31211,16687,31296,31306,31311,153980,154279,154279,31470,16898,154539,31686,31689,16935,154752,31954,
17056,31976,31971,32000,155526,32099,17153,32199,32258,32325,17204,156200,156231,17241,156377,32634,156478,32661,
32762,32773,156890,156963,32864,157096,32880,144223,17365,32946,33027,17419,33086,23221,157607,157621,144275,144284,
33281,33284,36766,17515,33425,33419,33437,21171,33457,33459,33469,33510,158524,33509,33565,33635,33709,33571,33725,
33767,33879,33619,33738,33740,33756,158774,159083,158933,17707,34033,34035,34070,160714,34148,159532,17757,17761,
159665,159954,17771,34384,34396,34407,34409,34473,34440,34574,34530,34681,34600,34667,34694,17879,34785,34817,17913,
34912,34915,161383,35031,35038,17973,35066,13499,161966,162150,18110,18119,35488,35565,35722,35925,162984,36011,36033,
36123,36215,163631,133124,36299,36284,36336,133342,36564,36664,165330,165357,37012,37105,37137,165678,37147,37432,
37591,37592,37500,37881,37909,166906,38283,18837,38327,167287,18918,38595,23986,38691,168261,168474,19054,19062,38880,
168970,19122,169110,38923,38923,38953,169398,39138,19251,39209,39335,39362,39422,19406,170800,39698,40000,40189,19662,
19693,40295,172238,19704,172293,172558,172689,40635,19798,40697,40702,40709,40719,40726,40763,173568,
};
static const Seq kMap[] = {
{65,0,1},{66,1,1},{67,2,1},{68,3,1},{69,4,1},{70,5,1},{71,6,1},{72,7,1},{73,8,1},{74,9,1},{75,10,1},{76,11,1},
{77,12,1},{78,13,1},{79,14,1},{80,15,1},{81,16,1},{82,17,1},{83,18,1},{84,19,1},{85,20,1},{86,21,1},{87,22,1},
{88,23,1},{89,24,1},{90,25,1},{160,26,1},{168,27,2},{170,29,1},{175,30,2},{178,32,1},{179,33,1},{180,34,2},{181,36,1},
{184,37,2},{185,39,1},{186,40,1},{188,41,3},{189,44,3},{190,47,3},{192,50,1},{193,51,1},{194,52,1},{195,53,1},
{196,54,1},{197,55,1},{198,56,1},{199,57,1},{200,58,1},{201,59,1},{202,60,1},{203,61,1},{204,62,1},{205,63,1},
{206,64,1},{207,65,1},{208,66,1},{209,67,1},{210,68,1},{211,69,1},{212,70,1},{213,71,1},{214,72,1},{216,73,1},
{217,74,1},{218,75,1},{219,76,1},{220,77,1},{221,78,1},{222,79,1},{256,80,1},{258,81,1},{260,82,1},{262,83,1},
{264,84,1},{266,85,1},{268,86,1},{270,87,1},{272,88,1},{274,89,1},{276,90,1},{278,91,1},{280,92,1},{282,93,1},
{284,94,1},{286,95,1},{288,96,1},{290,97,1},{292,98,1},{294,99,1},{296,100,1},{298,101,1},{300,102,1},{302,103,1},
{304,104,2},{306,106,2},{307,108,2},{308,110,1},{310,111,1},{313,112,1},{315,113,1},{317,114,1},{319,115,2},
{320,117,2},{321,119,1},{323,120,1},{325,121,1},{327,122,1},{329,123,2},{330,125,1},{332,126,1},{334,127,1},
{336,128,1},{338,129,1},{340,130,1},{342,131,1},{344,132,1},{346,133,1},{348,134,1},{350,135,1},{352,136,1},
{354,137,1},{356,138,1},{358,139,1},{360,140,1},{362,141,1},{364,142,1},{366,143,1},{368,144,1},{370,145,1},
{372,146,1},{374,147,1},{376,148,1},{377,149,1},{379,150,1},{381,151,1},{383,152,1},{385,153,1},{386,154,1},
{388,155,1},{390,156,1},{391,157,1},{393,158,1},{394,159,1},{395,160,1},{398,161,1},{399,162,1},{400,163,1},
{401,164,1},{403,165,1},{404,166,1},{406,167,1},{407,168,1},{408,169,1},{412,170,1},{413,171,1},{415,172,1},
{416,173,1},{418,174,1},{420,175,1},{422,176,1},{423,177,1},{425,178,1},{428,179,1},{430,180,1},{431,181,1},
{433,182,1},{434,183,1},{435,184,1},{437,185,1},{439,186,1},{440,187,1},{444,188,1},{452,189,2},{453,191,2},
{454,193,2},{455,195,2},{456,197,2},{457,199,2},{458,201,2},{459,203,2},{460,205,2},{461,207,1},{463,208,1},
{465,209,1},{467,210,1},{469,211,1},{471,212,1},{473,213,1},{475,214,1},{478,215,1},{480,216,1},{482,217,1},
{484,218,1},{486,219,1},{488,220,1},{490,221,1},{492,222,1},{494,223,1},{497,224,2},{498,226,2},{499,228,2},
{500,230,1},{502,231,1},{503,232,1},{504,233,1},{506,234,1},{508,235,1},{510,236,1},{512,237,1},{514,238,1},
{516,239,1},{518,240,1},{520,241,1},{522,242,1},{524,243,1},{526,244,1},{528,245,1},{530,246,1},{532,247,1},
{534,248,1},{536,249,1},{538,250,1},{540,251,1},{542,252,1},{544,253,1},{546,254,1},{548,255,1},{550,256,1},
{552,257,1},{554,258,1},{556,259,1},{558,260,1},{560,261,1},{562,262,1},{570,263,1},{571,264,1},{573,265,1},
{574,266,1},{577,267,1},{579,268,1},{580,269,1},{581,270,1},{582,271,1},{584,272,1},{586,273,1},{588,274,1},
{590,275,1},{688,276,1},{689,277,1},{690,278,1},{691,279,1},{692,280,1},{693,281,1},{694,282,1},{695,283,1},
{696,284,1},{728,285,2},{729,287,2},{730,289,2},{731,291,2},{732,293,2},{733,295,2},{736,297,1},{737,298,1},
{738,299,1},{739,300,1},{740,301,1},{832,302,1},{833,303,1},{835,304,1},{836,305,2},{837,307,1},{880,308,1},
{882,309,1},{884,310,1},{886,311,1},{890,312,2},{894,314,1},{895,315,1},{900,316,2},{901,318,3},{902,321,1},
{903,322,1},{904,323,1},{905,324,1},{906,325,1},{908,326,1},{910,327,1},{911,328,1},{913,329,1},{914,330,1},
{915,331,1},{916,332,1},{917,333,1},{918,334,1},{919,335,1},{920,336,1},{921,337,1},{922,338,1},{923,339,1},
{924,340,1},{925,341,1},{926,342,1},{927,343,1},{928,344,1},{929,345,1},{931,346,1},{932,347,1},{933,348,1},
{934,349,1},{935,350,1},{936,351,1},{937,352,1},{938,353,1},{939,354,1},{975,355,1},{976,356,1},{977,357,1},
{978,358,1},{979,359,1},{980,360,1},{981,361,1},{982,362,1},{984,363,1},{986,364,1},{988,365,1},{990,366,1},
{992,367,1},{994,368,1},{996,369,1},{998,370,1},{1000,371,1},{1002,372,1},{1004,373,1},{1006,374,1},{1008,375,1},
{1009,376,1},{1010,377,1},{1012,378,1},{1013,379,1},{1015,380,1},{1017,381,1},{1018,382,1},{1021,383,1},{1022,384,1},
{1023,385,1},{1024,386,1},{1025,387,1},{1026,388,1},{1027,389,1},{1028,390,1},{1029,391,1},{1030,392,1},{1031,393,1},
{1032,394,1},{1033,395,1},{1034,396,1},{1035,397,1},{1036,398,1},{1037,399,1},{1038,400,1},{1039,401,1},{1040,402,1},
{1041,403,1},{1042,404,1},{1043,405,1},{1044,406,1},{1045,407,1},{1046,408,1},{1047,409,1},{1048,410,1},{1049,411,1},
{1050,412,1},{1051,413,1},{1052,414,1},{1053,415,1},{1054,416,1},{1055,417,1},{1056,418,1},{1057,419,1},{1058,420,1},
{1059,421,1},{1060,422,1},{1061,423,1},{1062,424,1},{1063,425,1},{1064,426,1},{1065,427,1},{1066,428,1},{1067,429,1},
{1068,430,1},{1069,431,1},{1070,432,1},{1071,433,1},{1120,434,1},{1122,435,1},{1124,436,1},{1126,437,1},{1128,438,1},
{1130,439,1},{1132,440,1},{1134,441,1},{1136,442,1},{1138,443,1},{1140,444,1},{1142,445,1},{1144,446,1},{1146,447,1},
{1148,448,1},{1150,449,1},{1152,450,1},{1162,451,1},{1164,452,1},{1166,453,1},{1168,454,1},{1170,455,1},{1172,456,1},
{1174,457,1},{1176,458,1},{1178,459,1},{1180,460,1},{1182,461,1},{1184,462,1},{1186,463,1},{1188,464,1},{1190,465,1},
{1192,466,1},{1194,467,1},{1196,468,1},{1198,469,1},{1200,470,1},{1202,471,1},{1204,472,1},{1206,473,1},{1208,474,1},
{1210,475,1},{1212,476,1},{1214,477,1},{1216,478,1},{1217,479,1},{1219,480,1},{1221,481,1},{1223,482,1},{1225,483,1},
{1227,484,1},{1229,485,1},{1232,486,1},{1234,487,1},{1236,488,1},{1238,489,1},{1240,490,1},{1242,491,1},{1244,492,1},
{1246,493,1},{1248,494,1},{1250,495,1},{1252,496,1},{1254,497,1},{1256,498,1},{1258,499,1},{1260,500,1},{1262,501,1},
{1264,502,1},{1266,503,1},{1268,504,1},{1270,505,1},{1272,506,1},{1274,507,1},{1276,508,1},{1278,509,1},{1280,510,1},
{1282,511,1},{1284,512,1},{1286,513,1},{1288,514,1},{1290,515,1},{1292,516,1},{1294,517,1},{1296,518,1},{1298,519,1},
{1300,520,1},{1302,521,1},{1304,522,1},{1306,523,1},{1308,524,1},{1310,525,1},{1312,526,1},{1314,527,1},{1316,528,1},
{1318,529,1},{1320,530,1},{1322,531,1},{1324,532,1},{1326,533,1},{1329,534,1},{1330,535,1},{1331,536,1},{1332,537,1},
{1333,538,1},{1334,539,1},{1335,540,1},{1336,541,1},{1337,542,1},{1338,543,1},{1339,544,1},{1340,545,1},{1341,546,1},
{1342,547,1},{1343,548,1},{1344,549,1},{1345,550,1},{1346,551,1},{1347,552,1},{1348,553,1},{1349,554,1},{1350,555,1},
{1351,556,1},{1352,557,1},{1353,558,1},{1354,559,1},{1355,560,1},{1356,561,1},{1357,562,1},{1358,563,1},{1359,564,1},
{1360,565,1},{1361,566,1},{1362,567,1},{1363,568,1},{1364,569,1},{1365,570,1},{1366,571,1},{1415,572,2},{1653,574,2},
{1654,576,2},{1655,578,2},{1656,580,2},{2392,582,2},{2393,584,2},{2394,586,2},{2395,588,2},{2396,590,2},{2397,592,2},
{2398,594,2},{2399,596,2},{2524,598,2},{2525,600,2},{2527,602,2},{2611,604,2},{2614,606,2},{2649,608,2},{2650,610,2},
{2651,612,2},{2654,614,2},{2908,616,2},{2909,618,2},{3635,620,2},{3763,622,2},{3804,624,2},{3805,626,2},{3852,628,1},
{3907,629,2},{3917,631,2},{3922,633,2},{3927,635,2},{3932,637,2},{3945,639,2},{3955,641,2},{3957,643,2},{3958,645,2},
{3959,647,3},{3960,650,2},{3961,652,3},{3969,655,2},{3987,657,2},{3997,659,2},{4002,661,2},{4007,663,2},{4012,665,2},
{4025,667,2},{4256,669,1},{4257,670,1},{4258,671,1},{4259,672,1},{4260,673,1},{4261,674,1},{4262,675,1},{4263,676,1},
{4264,677,1},{4265,678,1},{4266,679,1},{4267,680,1},{4268,681,1},{4269,682,1},{4270,683,1},{4271,684,1},{4272,685,1},
{4273,686,1},{4274,687,1},{4275,688,1},{4276,689,1},{4277,690,1},{4278,691,1},{4279,692,1},{4280,693,1},{4281,694,1},
{4282,695,1},{4283,696,1},{4284,697,1},{4285,698,1},{4286,699,1},{4287,700,1},{4288,701,1},{4289,702,1},{4290,703,1},
{4291,704,1},{4292,705,1},{4293,706,1},{4295,707,1},{4301,708,1},{4348,709,1},{5112,710,1},{5113,711,1},{5114,712,1},
{5115,713,1},{5116,714,1},{5117,715,1},{7296,716,1},{7297,717,1},{7298,718,1},{7299,719,1},{7300,720,1},{7301,721,1},
{7302,722,1},{7303,723,1},{7304,724,1},{7305,725,1},{7312,726,1},{7313,727,1},{7314,728,1},{7315,729,1},{7316,730,1},
{7317,731,1},{7318,732,1},{7319,733,1},{7320,734,1},{7321,735,1},{7322,736,1},{7323,737,1},{7324,738,1},{7325,739,1},
{7326,740,1},{7327,741,1},{7328,742,1},{7329,743,1},{7330,744,1},{7331,745,1},{7332,746,1},{7333,747,1},{7334,748,1},
{7335,749,1},{7336,750,1},{7337,751,1},{7338,752,1},{7339,753,1},{7340,754,1},{7341,755,1},{7342,756,1},{7343,757,1},
{7344,758,1},{7345,759,1},{7346,760,1},{7347,761,1},{7348,762,1},{7349,763,1},{7350,764,1},{7351,765,1},{7352,766,1},
{7353,767,1},{7354,768,1},{7357,769,1},{7358,770,1},{7359,771,1},{7468,772,1},{7469,773,1},{7470,774,1},{7472,775,1},
{7473,776,1},{7474,777,1},{7475,778,1},{7476,779,1},{7477,780,1},{7478,781,1},{7479,782,1},{7480,783,1},{7481,784,1},
{7482,785,1},{7484,786,1},{7485,787,1},{7486,788,1},{7487,789,1},{7488,790,1},{7489,791,1},{7490,792,1},{7491,793,1},
{7492,794,1},{7493,795,1},{7494,796,1},{7495,797,1},{7496,798,1},{7497,799,1},{7498,800,1},{7499,801,1},{7500,802,1},
{7501,803,1},{7503,804,1},{7504,805,1},{7505,806,1},{7506,807,1},{7507,808,1},{7508,809,1},{7509,810,1},{7510,811,1},
{7511,812,1},{7512,813,1},{7513,814,1},{7514,815,1},{7515,816,1},{7516,817,1},{7517,818,1},{7518,819,1},{7519,820,1},
{7520,821,1},{7521,822,1},{7522,823,1},{7523,824,1},{7524,825,1},{7525,826,1},{7526,827,1},{7527,828,1},{7528,829,1},
{7529,830,1},{7530,831,1},{7544,832,1},{7579,833,1},{7580,834,1},{7581,835,1},{7582,836,1},{7583,837,1},{7584,838,1},
{7585,839,1},{7586,840,1},{7587,841,1},{7588,842,1},{7589,843,1},{7590,844,1},{7591,845,1},{7592,846,1},{7593,847,1},
{7594,848,1},{7595,849,1},{7596,850,1},{7597,851,1},{7598,852,1},{7599,853,1},{7600,854,1},{7601,855,1},{7602,856,1},
{7603,857,1},{7604,858,1},{7605,859,1},{7606,860,1},{7607,861,1},{7608,862,1},{7609,863,1},{7610,864,1},{7611,865,1},
{7612,866,1},{7613,867,1},{7614,868,1},{7615,869,1},{7680,870,1},{7682,871,1},{7684,872,1},{7686,873,1},{7688,874,1},
{7690,875,1},{7692,876,1},{7694,877,1},{7696,878,1},{7698,879,1},{7700,880,1},{7702,881,1},{7704,882,1},{7706,883,1},
{7708,884,1},{7710,885,1},{7712,886,1},{7714,887,1},{7716,888,1},{7718,889,1},{7720,890,1},{7722,891,1},{7724,892,1},
{7726,893,1},{7728,894,1},{7730,895,1},{7732,896,1},{7734,897,1},{7736,898,1},{7738,899,1},{7740,900,1},{7742,901,1},
{7744,902,1},{7746,903,1},{7748,904,1},{7750,905,1},{7752,906,1},{7754,907,1},{7756,908,1},{7758,909,1},{7760,910,1},
{7762,911,1},{7764,912,1},{7766,913,1},{7768,914,1},{7770,915,1},{7772,916,1},{7774,917,1},{7776,918,1},{7778,919,1},
{7780,920,1},{7782,921,1},{7784,922,1},{7786,923,1},{7788,924,1},{7790,925,1},{7792,926,1},{7794,927,1},{7796,928,1},
{7798,929,1},{7800,930,1},{7802,931,1},{7804,932,1},{7806,933,1},{7808,934,1},{7810,935,1},{7812,936,1},{7814,937,1},
{7816,938,1},{7818,939,1},{7820,940,1},{7822,941,1},{7824,942,1},{7826,943,1},{7828,944,1},{7834,945,2},{7835,947,1},
{7838,948,1},{7840,949,1},{7842,950,1},{7844,951,1},{7846,952,1},{7848,953,1},{7850,954,1},{7852,955,1},{7854,956,1},
{7856,957,1},{7858,958,1},{7860,959,1},{7862,960,1},{7864,961,1},{7866,962,1},{7868,963,1},{7870,964,1},{7872,965,1},
{7874,966,1},{7876,967,1},{7878,968,1},{7880,969,1},{7882,970,1},{7884,971,1},{7886,972,1},{7888,973,1},{7890,974,1},
{7892,975,1},{7894,976,1},{7896,977,1},{7898,978,1},{7900,979,1},{7902,980,1},{7904,981,1},{7906,982,1},{7908,983,1},
{7910,984,1},{7912,985,1},{7914,986,1},{7916,987,1},{7918,988,1},{7920,989,1},{7922,990,1},{7924,991,1},{7926,992,1},
{7928,993,1},{7930,994,1},{7932,995,1},{7934,996,1},{7944,997,1},{7945,998,1},{7946,999,1},{7947,1000,1},
{7948,1001,1},{7949,1002,1},{7950,1003,1},{7951,1004,1},{7960,1005,1},{7961,1006,1},{7962,1007,1},{7963,1008,1},
{7964,1009,1},{7965,1010,1},{7976,1011,1},{7977,1012,1},{7978,1013,1},{7979,1014,1},{7980,1015,1},{7981,1016,1},
{7982,1017,1},{7983,1018,1},{7992,1019,1},{7993,1020,1},{7994,1021,1},{7995,1022,1},{7996,1023,1},{7997,1024,1},
{7998,1025,1},{7999,1026,1},{8008,1027,1},{8009,1028,1},{8010,1029,1},{8011,1030,1},{8012,1031,1},{8013,1032,1},
{8025,1033,1},{8027,1034,1},{8029,1035,1},{8031,1036,1},{8040,1037,1},{8041,1038,1},{8042,1039,1},{8043,1040,1},
{8044,1041,1},{8045,1042,1},{8046,1043,1},{8047,1044,1},{8049,1045,1},{8051,1046,1},{8053,1047,1},{8055,1048,1},
{8057,1049,1},{8059,1050,1},{8061,1051,1},{8064,1052,2},{8065,1054,2},{8066,1056,2},{8067,1058,2},{8068,1060,2},
{8069,1062,2},{8070,1064,2},{8071,1066,2},{8072,1068,2},{8073,1070,2},{8074,1072,2},{8075,1074,2},{8076,1076,2},
{8077,1078,2},{8078,1080,2},{8079,1082,2},{8080,1084,2},{8081,1086,2},{8082,1088,2},{8083,1090,2},{8084,1092,2},
{8085,1094,2},{8086,1096,2},{8087,1098,2},{8088,1100,2},{8089,1102,2},{8090,1104,2},{8091,1106,2},{8092,1108,2},
{8093,1110,2},{8094,1112,2},{8095,1114,2},{8096,1116,2},{8097,1118,2},{8098,1120,2},{8099,1122,2},{8100,1124,2},
{8101,1126,2},{8102,1128,2},{8103,1130,2},{8104,1132,2},{8105,1134,2},{8106,1136,2},{8107,1138,2},{8108,1140,2},
{8109,1142,2},{8110,1144,2},{8111,1146,2},{8114,1148,2},{8115,1150,2},{8116,1152,2},{8119,1154,2},{8120,1156,1},
{8121,1157,1},{8122,1158,1},{8123,1159,1},{8124,1160,2},{8125,1162,2},{8126,1164,1},{8127,1165,2},{8128,1167,2},
{8129,1169,3},{8130,1172,2},{8131,1174,2},{8132,1176,2},{8135,1178,2},{8136,1180,1},{8137,1181,1},{8138,1182,1},
{8139,1183,1},{8140,1184,2},{8141,1186,3},{8142,1189,3},{8143,1192,3},{8147,1195,1},{8152,1196,1},{8153,1197,1},
{8154,1198,1},{8155,1199,1},{8157,1200,3},{8158,1203,3},{8159,1206,3},{8163,1209,1},{8168,1210,1},{8169,1211,1},
{8170,1212,1},{8171,1213,1},{8172,1214,1},{8173,1215,3},{8174,1218,3},{8175,1221,1},{8178,1222,2},{8179,1224,2},
{8180,1226,2},{8183,1228,2},{8184,1230,1},{8185,1231,1},{8186,1232,1},{8187,1233,1},{8188,1234,2},{8189,1236,2},
{8190,1238,2},{8192,1240,1},{8193,1241,1},{8194,1242,1},{8195,1243,1},{8196,1244,1},{8197,1245,1},{8198,1246,1},
{8199,1247,1},{8200,1248,1},{8201,1249,1},{8202,1250,1},{8209,1251,1},{8215,1252,2},{8239,1254,1},{8243,1255,2},
{8244,1257,3},{8246,1260,2},{8247,1262,3},{8252,1265,2},{8254,1267,2},{8263,1269,2},{8264,1271,2},{8265,1273,2},
{8279,1275,4},{8287,1279,1},{8304,1280,1},{8305,1281,1},{8308,1282,1},{8309,1283,1},{8310,1284,1},{8311,1285,1},
{8312,1286,1},{8313,1287,1},{8314,1288,1},{8315,1289,1},{8316,1290,1},{8317,1291,1},{8318,1292,1},{8319,1293,1},
{8320,1294,1},{8321,1295,1},{8322,1296,1},{8323,1297,1},{8324,1298,1},{8325,1299,1},{8326,1300,1},{8327,1301,1},
{8328,1302,1},{8329,1303,1},{8330,1304,1},{8331,1305,1},{8332,1306,1},{8333,1307,1},{8334,1308,1},{8336,1309,1},
{8337,1310,1},{8338,1311,1},{8339,1312,1},{8340,1313,1},{8341,1314,1},{8342,1315,1},{8343,1316,1},{8344,1317,1},
{8345,1318,1},{8346,1319,1},{8347,1320,1},{8348,1321,1},{8360,1322,2},{8448,1324,3},{8449,1327,3},{8450,1330,1},
{8451,1331,2},{8453,1333,3},{8454,1336,3},{8455,1339,1},{8457,1340,2},{8458,1342,1},{8459,1343,1},{8460,1344,1},
{8461,1345,1},{8462,1346,1},{8463,1347,1},{8464,1348,1},{8465,1349,1},{8466,1350,1},{8467,1351,1},{8469,1352,1},
{8470,1353,2},{8473,1355,1},{8474,1356,1},{8475,1357,1},{8476,1358,1},{8477,1359,1},{8480,1360,2},{8481,1362,3},
{8482,1365,2},{8484,1367,1},{8486,1368,1},{8488,1369,1},{8490,1370,1},{8491,1371,1},{8492,1372,1},{8493,1373,1},
{8495,1374,1},{8496,1375,1},{8497,1376,1},{8498,1377,1},{8499,1378,1},{8500,1379,1},{8501,1380,1},{8502,1381,1},
{8503,1382,1},{8504,1383,1},{8505,1384,1},{8507,1385,3},{8508,1388,1},{8509,1389,1},{8510,1390,1},{8511,1391,1},
{8512,1392,1},{8517,1393,1},{8518,1394,1},{8519,1395,1},{8520,1396,1},{8521,1397,1},{8528,1398,3},{8529,1401,3},
{8530,1404,4},{8531,1408,3},{8532,1411,3},{8533,1414,3},{8534,1417,3},{8535,1420,3},{8536,1423,3},{8537,1426,3},
{8538,1429,3},{8539,1432,3},{8540,1435,3},{8541,1438,3},{8542,1441,3},{8543,1444,2},{8544,1446,1},{8545,1447,2},
{8546,1449,3},{8547,1452,2},{8548,1454,1},{8549,1455,2},{8550,1457,3},{8551,1460,4},{8552,1464,2},{8553,1466,1},
{8554,1467,2},{8555,1469,3},{8556,1472,1},{8557,1473,1},{8558,1474,1},{8559,1475,1},{8560,1476,1},{8561,1477,2},
{8562,1479,3},{8563,1482,2},{8564,1484,1},{8565,1485,2},{8566,1487,3},{8567,1490,4},{8568,1494,2},{8569,1496,1},
{8570,1497,2},{8571,1499,3},{8572,1502,1},{8573,1503,1},{8574,1504,1},{8575,1505,1},{8579,1506,1},{8585,1507,3},
{8748,1510,2},{8749,1512,3},{8751,1515,2},{8752,1517,3},{9001,1520,1},{9002,1521,1},{9312,1522,1},{9313,1523,1},
{9314,1524,1},{9315,1525,1},{9316,1526,1},{9317,1527,1},{9318,1528,1},{9319,1529,1},{9320,1530,1},{9321,1531,2},
{9322,1533,2},{9323,1535,2},{9324,1537,2},{9325,1539,2},{9326,1541,2},{9327,1543,2},{9328,1545,2},{9329,1547,2},
{9330,1549,2},{9331,1551,2},{9332,1553,3},{9333,1556,3},{9334,1559,3},{9335,1562,3},{9336,1565,3},{9337,1568,3},
{9338,1571,3},{9339,1574,3},{9340,1577,3},{9341,1580,4},{9342,1584,4},{9343,1588,4},{9344,1592,4},{9345,1596,4},
{9346,1600,4},{9347,1604,4},{9348,1608,4},{9349,1612,4},{9350,1616,4},{9351,1620,4},{9372,1624,3},{9373,1627,3},
{9374,1630,3},{9375,1633,3},{9376,1636,3},{9377,1639,3},{9378,1642,3},{9379,1645,3},{9380,1648,3},{9381,1651,3},
{9382,1654,3},{9383,1657,3},{9384,1660,3},{9385,1663,3},{9386,1666,3},{9387,1669,3},{9388,1672,3},{9389,1675,3},
{9390,1678,3},{9391,1681,3},{9392,1684,3},{9393,1687,3},{9394,1690,3},{9395,1693,3},{9396,1696,3},{9397,1699,3},
{9398,1702,1},{9399,1703,1},{9400,1704,1},{9401,1705,1},{9402,1706,1},{9403,1707,1},{9404,1708,1},{9405,1709,1},
{9406,1710,1},{9407,1711,1},{9408,1712,1},{9409,1713,1},{9410,1714,1},{9411,1715,1},{9412,1716,1},{9413,1717,1},
{9414,1718,1},{9415,1719,1},{9416,1720,1},{9417,1721,1},{9418,1722,1},{9419,1723,1},{9420,1724,1},{9421,1725,1},
{9422,1726,1},{9423,1727,1},{9424,1728,1},{9425,1729,1},{9426,1730,1},{9427,1731,1},{9428,1732,1},{9429,1733,1},
{9430,1734,1},{9431,1735,1},{9432,1736,1},{9433,1737,1},{9434,1738,1},{9435,1739,1},{9436,1740,1},{9437,1741,1},
{9438,1742,1},{9439,1743,1},{9440,1744,1},{9441,1745,1},{9442,1746,1},{9443,1747,1},{9444,1748,1},{9445,1749,1},
{9446,1750,1},{9447,1751,1},{9448,1752,1},{9449,1753,1},{9450,1754,1},{10764,1755,4},{10868,1759,3},{10869,1762,2},
{10870,1764,3},{10972,1767,2},{11264,1769,1},{11265,1770,1},{11266,1771,1},{11267,1772,1},{11268,1773,1},
{11269,1774,1},{11270,1775,1},{11271,1776,1},{11272,1777,1},{11273,1778,1},{11274,1779,1},{11275,1780,1},
{11276,1781,1},{11277,1782,1},{11278,1783,1},{11279,1784,1},{11280,1785,1},{11281,1786,1},{11282,1787,1},
{11283,1788,1},{11284,1789,1},{11285,1790,1},{11286,1791,1},{11287,1792,1},{11288,1793,1},{11289,1794,1},
{11290,1795,1},{11291,1796,1},{11292,1797,1},{11293,1798,1},{11294,1799,1},{11295,1800,1},{11296,1801,1},
{11297,1802,1},{11298,1803,1},{11299,1804,1},{11300,1805,1},{11301,1806,1},{11302,1807,1},{11303,1808,1},
{11304,1809,1},{11305,1810,1},{11306,1811,1},{11307,1812,1},{11308,1813,1},{11309,1814,1},{11310,1815,1},
{11311,1816,1},{11360,1817,1},{11362,1818,1},{11363,1819,1},{11364,1820,1},{11367,1821,1},{11369,1822,1},
{11371,1823,1},{11373,1824,1},{11374,1825,1},{11375,1826,1},{11376,1827,1},{11378,1828,1},{11381,1829,1},
{11388,1830,1},{11389,1831,1},{11390,1832,1},{11391,1833,1},{11392,1834,1},{11394,1835,1},{11396,1836,1},
{11398,1837,1},{11400,1838,1},{11402,1839,1},{11404,1840,1},{11406,1841,1},{11408,1842,1},{11410,1843,1},
{11412,1844,1},{11414,1845,1},{11416,1846,1},{11418,1847,1},{11420,1848,1},{11422,1849,1},{11424,1850,1},
{11426,1851,1},{11428,1852,1},{11430,1853,1},{11432,1854,1},{11434,1855,1},{11436,1856,1},{11438,1857,1},
{11440,1858,1},{11442,1859,1},{11444,1860,1},{11446,1861,1},{11448,1862,1},{11450,1863,1},{11452,1864,1},
{11454,1865,1},{11456,1866,1},{11458,1867,1},{11460,1868,1},{11462,1869,1},{11464,1870,1},{11466,1871,1},
{11468,1872,1},{11470,1873,1},{11472,1874,1},{11474,1875,1},{11476,1876,1},{11478,1877,1},{11480,1878,1},
{11482,1879,1},{11484,1880,1},{11486,1881,1},{11488,1882,1},{11490,1883,1},{11499,1884,1},{11501,1885,1},
{11506,1886,1},{11631,1887,1},{11935,1888,1},{12019,1889,1},{12032,1890,1},{12033,1891,1},{12034,1892,1},
{12035,1893,1},{12036,1894,1},{12037,1895,1},{12038,1896,1},{12039,1897,1},{12040,1898,1},{12041,1899,1},
{12042,1900,1},{12043,1901,1},{12044,1902,1},{12045,1903,1},{12046,1904,1},{12047,1905,1},{12048,1906,1},
{12049,1907,1},{12050,1908,1},{12051,1909,1},{12052,1910,1},{12053,1911,1},{12054,1912,1},{12055,1913,1},
{12056,1914,1},{12057,1915,1},{12058,1916,1},{12059,1917,1},{12060,1918,1},{12061,1919,1},{12062,1920,1},
{12063,1921,1},{12064,1922,1},{12065,1923,1},{12066,1924,1},{12067,1925,1},{12068,1926,1},{12069,1927,1},
{12070,1928,1},{12071,1929,1},{12072,1930,1},{12073,1931,1},{12074,1932,1},{12075,1933,1},{12076,1934,1},
{12077,1935,1},{12078,1936,1},{12079,1937,1},{12080,1938,1},{12081,1939,1},{12082,1940,1},{12083,1941,1},
{12084,1942,1},{12085,1943,1},{12086,1944,1},{12087,1945,1},{12088,1946,1},{12089,1947,1},{12090,1948,1},
{12091,1949,1},{12092,1950,1},{12093,1951,1},{12094,1952,1},{12095,1953,1},{12096,1954,1},{12097,1955,1},
{12098,1956,1},{12099,1957,1},{12100,1958,1},{12101,1959,1},{12102,1960,1},{12103,1961,1},{12104,1962,1},
{12105,1963,1},{12106,1964,1},{12107,1965,1},{12108,1966,1},{12109,1967,1},{12110,1968,1},{12111,1969,1},
{12112,1970,1},{12113,1971,1},{12114,1972,1},{12115,1973,1},{12116,1974,1},{12117,1975,1},{12118,1976,1},
{12119,1977,1},{12120,1978,1},{12121,1979,1},{12122,1980,1},{12123,1981,1},{12124,1982,1},{12125,1983,1},
{12126,1984,1},{12127,1985,1},{12128,1986,1},{12129,1987,1},{12130,1988,1},{12131,1989,1},{12132,1990,1},
{12133,1991,1},{12134,1992,1},{12135,1993,1},{12136,1994,1},{12137,1995,1},{12138,1996,1},{12139,1997,1},
{12140,1998,1},{12141,1999,1},{12142,2000,1},{12143,2001,1},{12144,2002,1},{12145,2003,1},{12146,2004,1},
{12147,2005,1},{12148,2006,1},{12149,2007,1},{12150,2008,1},{12151,2009,1},{12152,2010,1},{12153,2011,1},
{12154,2012,1},{12155,2013,1},{12156,2014,1},{12157,2015,1},{12158,2016,1},{12159,2017,1},{12160,2018,1},
{12161,2019,1},{12162,2020,1},{12163,2021,1},{12164,2022,1},{12165,2023,1},{12166,2024,1},{12167,2025,1},
{12168,2026,1},{12169,2027,1},{12170,2028,1},{12171,2029,1},{12172,2030,1},{12173,2031,1},{12174,2032,1},
{12175,2033,1},{12176,2034,1},{12177,2035,1},{12178,2036,1},{12179,2037,1},{12180,2038,1},{12181,2039,1},
{12182,2040,1},{12183,2041,1},{12184,2042,1},{12185,2043,1},{12186,2044,1},{12187,2045,1},{12188,2046,1},
{12189,2047,1},{12190,2048,1},{12191,2049,1},{12192,2050,1},{12193,2051,1},{12194,2052,1},{12195,2053,1},
{12196,2054,1},{12197,2055,1},{12198,2056,1},{12199,2057,1},{12200,2058,1},{12201,2059,1},{12202,2060,1},
{12203,2061,1},{12204,2062,1},{12205,2063,1},{12206,2064,1},{12207,2065,1},{12208,2066,1},{12209,2067,1},
{12210,2068,1},{12211,2069,1},{12212,2070,1},{12213,2071,1},{12214,2072,1},{12215,2073,1},{12216,2074,1},
{12217,2075,1},{12218,2076,1},{12219,2077,1},{12220,2078,1},{12221,2079,1},{12222,2080,1},{12223,2081,1},
{12224,2082,1},{12225,2083,1},{12226,2084,1},{12227,2085,1},{12228,2086,1},{12229,2087,1},{12230,2088,1},
{12231,2089,1},{12232,2090,1},{12233,2091,1},{12234,2092,1},{12235,2093,1},{12236,2094,1},{12237,2095,1},
{12238,2096,1},{12239,2097,1},{12240,2098,1},{12241,2099,1},{12242,2100,1},{12243,2101,1},{12244,2102,1},
{12245,2103,1},{12288,2104,1},{12290,2105,1},{12342,2106,1},{12344,2107,1},{12345,2108,1},{12346,2109,1},
{12443,2110,2},{12444,2112,2},{12447,2114,2},{12543,2116,2},{12593,2118,1},{12594,2119,1},{12595,2120,1},
{12596,2121,1},{12597,2122,1},{12598,2123,1},{12599,2124,1},{12600,2125,1},{12601,2126,1},{12602,2127,1},
{12603,2128,1},{12604,2129,1},{12605,2130,1},{12606,2131,1},{12607,2132,1},{12608,2133,1},{12609,2134,1},
{12610,2135,1},{12611,2136,1},{12612,2137,1},{12613,2138,1},{12614,2139,1},{12615,2140,1},{12616,2141,1},
{12617,2142,1},{12618,2143,1},{12619,2144,1},{12620,2145,1},{12621,2146,1},{12622,2147,1},{12623,2148,1},
{12624,2149,1},{12625,2150,1},{12626,2151,1},{12627,2152,1},{12628,2153,1},{12629,2154,1},{12630,2155,1},
{12631,2156,1},{12632,2157,1},{12633,2158,1},{12634,2159,1},{12635,2160,1},{12636,2161,1},{12637,2162,1},
{12638,2163,1},{12639,2164,1},{12640,2165,1},{12641,2166,1},{12642,2167,1},{12643,2168,1},{12645,2169,1},
{12646,2170,1},{12647,2171,1},{12648,2172,1},{12649,2173,1},{12650,2174,1},{12651,2175,1},{12652,2176,1},
{12653,2177,1},{12654,2178,1},{12655,2179,1},{12656,2180,1},{12657,2181,1},{12658,2182,1},{12659,2183,1},
{12660,2184,1},{12661,2185,1},{12662,2186,1},{12663,2187,1},{12664,2188,1},{12665,2189,1},{12666,2190,1},
{12667,2191,1},{12668,2192,1},{12669,2193,1},{12670,2194,1},{12671,2195,1},{12672,2196,1},{12673,2197,1},
{12674,2198,1},{12675,2199,1},{12676,2200,1},{12677,2201,1},{12678,2202,1},{12679,2203,1},{12680,2204,1},
{12681,2205,1},{12682,2206,1},{12683,2207,1},{12684,2208,1},{12685,2209,1},{12686,2210,1},{12690,2211,1},
{12691,2212,1},{12692,2213,1},{12693,2214,1},{12694,2215,1},{12695,2216,1},{12696,2217,1},{12697,2218,1},
{12698,2219,1},{12699,2220,1},{12700,2221,1},{12701,2222,1},{12702,2223,1},{12703,2224,1},{12800,2225,3},
{12801,2228,3},{12802,2231,3},{12803,2234,3},{12804,2237,3},{12805,2240,3},{12806,2243,3},{12807,2246,3},
{12808,2249,3},{12809,2252,3},{12810,2255,3},{12811,2258,3},{12812,2261,3},{12813,2264,3},{12814,2267,3},
{12815,2270,3},{12816,2273,3},{12817,2276,3},{12818,2279,3},{12819,2282,3},{12820,2285,3},{12821,2288,3},
{12822,2291,3},{12823,2294,3},{12824,2297,3},{12825,2300,3},{12826,2303,3},{12827,2306,3},{12828,2309,3},
{12829,2312,4},{12830,2316,4},{12832,2320,3},{12833,2323,3},{12834,2326,3},{12835,2329,3},{12836,2332,3},
{12837,2335,3},{12838,2338,3},{12839,2341,3},{12840,2344,3},{12841,2347,3},{12842,2350,3},{12843,2353,3},
{12844,2356,3},{12845,2359,3},{12846,2362,3},{12847,2365,3},{12848,2368,3},{12849,2371,3},{12850,2374,3},
{12851,2377,3},{12852,2380,3},{12853,2383,3},{12854,2386,3},{12855,2389,3},{12856,2392,3},{12857,2395,3},
{12858,2398,3},{12859,2401,3},{12860,2404,3},{12861,2407,3},{12862,2410,3},{12863,2413,3},{12864,2416,3},
{12865,2419,3},{12866,2422,3},{12867,2425,3},{12868,2428,1},{12869,2429,1},{12870,2430,1},{12871,2431,1},
{12880,2432,3},{12881,2435,2},{12882,2437,2},{12883,2439,2},{12884,2441,2},{12885,2443,2},{12886,2445,2},
{12887,2447,2},{12888,2449,2},{12889,2451,2},{12890,2453,2},{12891,2455,2},{12892,2457,2},{12893,2459,2},
{12894,2461,2},{12895,2463,2},{12896,2465,1},{12897,2466,1},{12898,2467,1},{12899,2468,1},{12900,2469,1},
{12901,2470,1},{12902,2471,1},{12903,2472,1},{12904,2473,1},{12905,2474,1},{12906,2475,1},{12907,2476,1},
{12908,2477,1},{12909,2478,1},{12910,2479,1},{12911,2480,1},{12912,2481,1},{12913,2482,1},{12914,2483,1},
{12915,2484,1},{12916,2485,1},{12917,2486,1},{12918,2487,1},{12919,2488,1},{12920,2489,1},{12921,2490,1},
{12922,2491,1},{12923,2492,1},{12924,2493,2},{12925,2495,2},{12926,2497,1},{12928,2498,1},{12929,2499,1},
{12930,2500,1},{12931,2501,1},{12932,2502,1},{12933,2503,1},{12934,2504,1},{12935,2505,1},{12936,2506,1},
{12937,2507,1},{12938,2508,1},{12939,2509,1},{12940,2510,1},{12941,2511,1},{12942,2512,1},{12943,2513,1},
{12944,2514,1},{12945,2515,1},{12946,2516,1},{12947,2517,1},{12948,2518,1},{12949,2519,1},{12950,2520,1},
{12951,2521,1},{12952,2522,1},{12953,2523,1},{12954,2524,1},{12955,2525,1},{12956,2526,1},{12957,2527,1},
{12958,2528,1},{12959,2529,1},{12960,2530,1},{12961,2531,1},{12962,2532,1},{12963,2533,1},{12964,2534,1},
{12965,2535,1},{12966,2536,1},{12967,2537,1},{12968,2538,1},{12969,2539,1},{12970,2540,1},{12971,2541,1},
{12972,2542,1},{12973,2543,1},{12974,2544,1},{12975,2545,1},{12976,2546,1},{12977,2547,2},{12978,2549,2},
{12979,2551,2},{12980,2553,2},{12981,2555,2},{12982,2557,2},{12983,2559,2},{12984,2561,2},{12985,2563,2},
{12986,2565,2},{12987,2567,2},{12988,2569,2},{12989,2571,2},{12990,2573,2},{12991,2575,2},{12992,2577,2},
{12993,2579,2},{12994,2581,2},{12995,2583,2},{12996,2585,2},{12997,2587,2},{12998,2589,2},{12999,2591,2},
{13000,2593,2},{13001,2595,3},{13002,2598,3},{13003,2601,3},{13004,2604,2},{13005,2606,3},{13006,2609,2},
{13007,2611,3},{13008,2614,1},{13009,2615,1},{13010,2616,1},{13011,2617,1},{13012,2618,1},{13013,2619,1},
{13014,2620,1},{13015,2621,1},{13016,2622,1},{13017,2623,1},{13018,2624,1},{13019,2625,1},{13020,2626,1},
{13021,2627,1},{13022,2628,1},{13023,2629,1},{13024,2630,1},{13025,2631,1},{13026,2632,1},{13027,2633,1},
{13028,2634,1},{13029,2635,1},{13030,2636,1},{13031,2637,1},{13032,2638,1},{13033,2639,1},{13034,2640,1},
{13035,2641,1},{13036,2642,1},{13037,2643,1},{13038,2644,1},{13039,2645,1},{13040,2646,1},{13041,2647,1},
{13042,2648,1},{13043,2649,1},{13044,2650,1},{13045,2651,1},{13046,2652,1},{13047,2653,1},{13048,2654,1},
{13049,2655,1},{13050,2656,1},{13051,2657,1},{13052,2658,1},{13053,2659,1},{13054,2660,1},{13055,2661,2},
{13056,2663,4},{13057,2667,4},{13058,2671,4},{13059,2675,3},{13060,2678,4},{13061,2682,3},{13062,2685,3},
{13063,2688,5},{13064,2693,4},{13065,2697,3},{13066,2700,3},{13067,2703,3},{13068,2706,4},{13069,2710,4},
{13070,2714,3},{13071,2717,3},{13072,2720,2},{13073,2722,3},{13074,2725,4},{13075,2729,4},{13076,2733,2},
{13077,2735,5},{13078,2740,6},{13079,2746,5},{13080,2751,3},{13081,2754,5},{13082,2759,5},{13083,2764,4},
{13084,2768,3},{13085,2771,3},{13086,2774,3},{13087,2777,4},{13088,2781,5},{13089,2786,4},{13090,2790,3},
{13091,2793,3},{13092,2796,3},{13093,2799,2},{13094,2801,2},{13095,2803,2},{13096,2805,2},{13097,2807,3},
{13098,2810,3},{13099,2813,5},{13100,2818,3},{13101,2821,4},{13102,2825,5},{13103,2830,3},{13104,2833,2},
{13105,2835,2},{13106,2837,5},{13107,2842,4},{13108,2846,5},{13109,2851,3},{13110,2854,5},{13111,2859,2},
{13112,2861,3},{13113,2864,3},{13114,2867,3},{13115,2870,3},{13116,2873,3},{13117,2876,4},{13118,2880,3},
{13119,2883,2},{13120,2885,3},{13121,2888,3},{13122,2891,3},{13123,2894,4},{13124,2898,3},{13125,2901,3},
{13126,2904,3},{13127,2907,5},{13128,2912,4},{13129,2916,2},{13130,2918,5},{13131,2923,2},{13132,2925,4},
{13133,2929,4},{13134,2933,3},{13135,2936,3},{13136,2939,3},{13137,2942,4},{13138,2946,2},{13139,2948,3},
{13140,2951,4},{13141,2955,2},{13142,2957,5},{13143,2962,3},{13144,2965,2},{13145,2967,2},{13146,2969,2},
{13147,2971,2},{13148,2973,2},{13149,2975,2},{13150,2977,2},{13151,2979,2},{13152,2981,2},{13153,2983,2},
{13154,2985,3},{13155,2988,3},{13156,2991,3},{13157,2994,3},{13158,2997,3},{13159,3000,3},{13160,3003,3},
{13161,3006,3},{13162,3009,3},{13163,3012,3},{13164,3015,3},{13165,3018,3},{13166,3021,3},{13167,3024,3},
{13168,3027,3},{13169,3030,3},{13170,3033,2},{13171,3035,2},{13172,3037,3},{13173,3040,2},{13174,3042,2},
{13175,3044,2},{13176,3046,3},{13177,3049,3},{13178,3052,2},{13179,3054,2},{13180,3056,2},{13181,3058,2},
{13182,3060,2},{13183,3062,4},{13184,3066,2},{13185,3068,2},{13186,3070,2},{13187,3072,2},{13188,3074,2},
{13189,3076,2},{13190,3078,2},{13191,3080,2},{13192,3082,3},{13193,3085,4},{13194,3089,2},{13195,3091,2},
{13196,3093,2},{13197,3095,2},{13198,3097,2},{13199,3099,2},{13200,3101,2},{13201,3103,3},{13202,3106,3},
{13203,3109,3},{13204,3112,3},{13205,3115,2},{13206,3117,2},{13207,3119,2},{13208,3121,2},{13209,3123,2},
{13210,3125,2},{13211,3127,2},{13212,3129,2},{13213,3131,2},{13214,3133,2},{13215,3135,3},{13216,3138,3},
{13217,3141,2},{13218,3143,3},{13219,3146,3},{13220,3149,3},{13221,3152,2},{13222,3154,3},{13223,3157,3},
{13224,3160,4},{13225,3164,2},{13226,3166,3},{13227,3169,3},{13228,3172,3},{13229,3175,3},{13230,3178,5},
{13231,3183,6},{13232,3189,2},{13233,3191,2},{13234,3193,2},{13235,3195,2},{13236,3197,2},{13237,3199,2},
{13238,3201,2},{13239,3203,2},{13240,3205,2},{13241,3207,2},{13242,3209,2},{13243,3211,2},{13244,3213,2},
{13245,3215,2},{13246,3217,2},{13247,3219,2},{13248,3221,2},{13249,3223,2},{13251,3225,2},{13252,3227,2},
{13253,3229,2},{13254,3231,4},{13256,3235,2},{13257,3237,2},{13258,3239,2},{13259,3241,2},{13260,3243,2},
{13261,3245,2},{13262,3247,2},{13263,3249,2},{13264,3251,2},{13265,3253,2},{13266,3255,3},{13267,3258,2},
{13268,3260,2},{13269,3262,3},{13270,3265,3},{13271,3268,2},{13273,3270,3},{13274,3273,2},{13275,3275,2},
{13276,3277,2},{13277,3279,2},{13278,3281,3},{13279,3284,3},{13280,3287,2},{13281,3289,2},{13282,3291,2},
{13283,3293,2},{13284,3295,2},{13285,3297,2},{13286,3299,2},{13287,3301,2},{13288,3303,2},{13289,3305,3},
{13290,3308,3},{13291,3311,3},{13292,3314,3},{13293,3317,3},{13294,3320,3},{13295,3323,3},{13296,3326,3},
{13297,3329,3},{13298,3332,3},{13299,3335,3},{13300,3338,3},{13301,3341,3},{13302,3344,3},{13303,3347,3},
{13304,3350,3},{13305,3353,3},{13306,3356,3},{13307,3359,3},{13308,3362,3},{13309,3365,3},{13310,3368,3},
{13311,3371,3},{42560,3374,1},{42562,3375,1},{42564,3376,1},{42566,3377,1},{42568,3378,1},{42570,3379,1},
{42572,3380,1},{42574,3381,1},{42576,3382,1},{42578,3383,1},{42580,3384,1},{42582,3385,1},{42584,3386,1},
{42586,3387,1},{42588,3388,1},{42590,3389,1},{42592,3390,1},{42594,3391,1},{42596,3392,1},{42598,3393,1},
{42600,3394,1},{42602,3395,1},{42604,3396,1},{42624,3397,1},{42626,3398,1},{42628,3399,1},{42630,3400,1},
{42632,3401,1},{42634,3402,1},{42636,3403,1},{42638,3404,1},{42640,3405,1},{42642,3406,1},{42644,3407,1},
{42646,3408,1},{42648,3409,1},{42650,3410,1},{42652,3411,1},{42653,3412,1},{42786,3413,1},{42788,3414,1},
{42790,3415,1},{42792,3416,1},{42794,3417,1},{42796,3418,1},{42798,3419,1},{42802,3420,1},{42804,3421,1},
{42806,3422,1},{42808,3423,1},{42810,3424,1},{42812,3425,1},{42814,3426,1},{42816,3427,1},{42818,3428,1},
{42820,3429,1},{42822,3430,1},{42824,3431,1},{42826,3432,1},{42828,3433,1},{42830,3434,1},{42832,3435,1},
{42834,3436,1},{42836,3437,1},{42838,3438,1},{42840,3439,1},{42842,3440,1},{42844,3441,1},{42846,3442,1},
{42848,3443,1},{42850,3444,1},{42852,3445,1},{42854,3446,1},{42856,3447,1},{42858,3448,1},{42860,3449,1},
{42862,3450,1},{42864,3451,1},{42873,3452,1},{42875,3453,1},{42877,3454,1},{42878,3455,1},{42880,3456,1},
{42882,3457,1},{42884,3458,1},{42886,3459,1},{42891,3460,1},{42893,3461,1},{42896,3462,1},{42898,3463,1},
{42902,3464,1},{42904,3465,1},{42906,3466,1},{42908,3467,1},{42910,3468,1},{42912,3469,1},{42914,3470,1},
{42916,3471,1},{42918,3472,1},{42920,3473,1},{42922,3474,1},{42923,3475,1},{42924,3476,1},{42925,3477,1},
{42926,3478,1},{42928,3479,1},{42929,3480,1},{42930,3481,1},{42931,3482,1},{42932,3483,1},{42934,3484,1},
{42936,3485,1},{42938,3486,1},{42940,3487,1},{42942,3488,1},{42944,3489,1},{42946,3490,1},{42948,3491,1},
{42949,3492,1},{42950,3493,1},{42951,3494,1},{42953,3495,1},{42955,3496,1},{42956,3497,1},{42958,3498,1},
{42960,3499,1},{42962,3500,1},{42964,3501,1},{42966,3502,1},{42968,3503,1},{42970,3504,1},{42972,3505,1},
{42993,3506,1},{42994,3507,1},{42995,3508,1},{42996,3509,1},{42997,3510,1},{43000,3511,1},{43001,3512,1},
{43868,3513,1},{43869,3514,1},{43870,3515,1},{43871,3516,1},{43881,3517,1},{43888,3518,1},{43889,3519,1},
{43890,3520,1},{43891,3521,1},{43892,3522,1},{43893,3523,1},{43894,3524,1},{43895,3525,1},{43896,3526,1},
{43897,3527,1},{43898,3528,1},{43899,3529,1},{43900,3530,1},{43901,3531,1},{43902,3532,1},{43903,3533,1},
{43904,3534,1},{43905,3535,1},{43906,3536,1},{43907,3537,1},{43908,3538,1},{43909,3539,1},{43910,3540,1},
{43911,3541,1},{43912,3542,1},{43913,3543,1},{43914,3544,1},{43915,3545,1},{43916,3546,1},{43917,3547,1},
{43918,3548,1},{43919,3549,1},{43920,3550,1},{43921,3551,1},{43922,3552,1},{43923,3553,1},{43924,3554,1},
{43925,3555,1},{43926,3556,1},{43927,3557,1},{43928,3558,1},{43929,3559,1},{43930,3560,1},{43931,3561,1},
{43932,3562,1},{43933,3563,1},{43934,3564,1},{43935,3565,1},{43936,3566,1},{43937,3567,1},{43938,3568,1},
{43939,3569,1},{43940,3570,1},{43941,3571,1},{43942,3572,1},{43943,3573,1},{43944,3574,1},{43945,3575,1},
{43946,3576,1},{43947,3577,1},{43948,3578,1},{43949,3579,1},{43950,3580,1},{43951,3581,1},{43952,3582,1},
{43953,3583,1},{43954,3584,1},{43955,3585,1},{43956,3586,1},{43957,3587,1},{43958,3588,1},{43959,3589,1},
{43960,3590,1},{43961,3591,1},{43962,3592,1},{43963,3593,1},{43964,3594,1},{43965,3595,1},{43966,3596,1},
{43967,3597,1},{63744,3598,1},{63745,3599,1},{63746,3600,1},{63747,3601,1},{63748,3602,1},{63749,3603,1},
{63750,3604,1},{63751,3605,1},{63752,3606,1},{63753,3607,1},{63754,3608,1},{63755,3609,1},{63756,3610,1},
{63757,3611,1},{63758,3612,1},{63759,3613,1},{63760,3614,1},{63761,3615,1},{63762,3616,1},{63763,3617,1},
{63764,3618,1},{63765,3619,1},{63766,3620,1},{63767,3621,1},{63768,3622,1},{63769,3623,1},{63770,3624,1},
{63771,3625,1},{63772,3626,1},{63773,3627,1},{63774,3628,1},{63775,3629,1},{63776,3630,1},{63777,3631,1},
{63778,3632,1},{63779,3633,1},{63780,3634,1},{63781,3635,1},{63782,3636,1},{63783,3637,1},{63784,3638,1},
{63785,3639,1},{63786,3640,1},{63787,3641,1},{63788,3642,1},{63789,3643,1},{63790,3644,1},{63791,3645,1},
{63792,3646,1},{63793,3647,1},{63794,3648,1},{63795,3649,1},{63796,3650,1},{63797,3651,1},{63798,3652,1},
{63799,3653,1},{63800,3654,1},{63801,3655,1},{63802,3656,1},{63803,3657,1},{63804,3658,1},{63805,3659,1},
{63806,3660,1},{63807,3661,1},{63808,3662,1},{63809,3663,1},{63810,3664,1},{63811,3665,1},{63812,3666,1},
{63813,3667,1},{63814,3668,1},{63815,3669,1},{63816,3670,1},{63817,3671,1},{63818,3672,1},{63819,3673,1},
{63820,3674,1},{63821,3675,1},{63822,3676,1},{63823,3677,1},{63824,3678,1},{63825,3679,1},{63826,3680,1},
{63827,3681,1},{63828,3682,1},{63829,3683,1},{63830,3684,1},{63831,3685,1},{63832,3686,1},{63833,3687,1},
{63834,3688,1},{63835,3689,1},{63836,3690,1},{63837,3691,1},{63838,3692,1},{63839,3693,1},{63840,3694,1},
{63841,3695,1},{63842,3696,1},{63843,3697,1},{63844,3698,1},{63845,3699,1},{63846,3700,1},{63847,3701,1},
{63848,3702,1},{63849,3703,1},{63850,3704,1},{63851,3705,1},{63852,3706,1},{63853,3707,1},{63854,3708,1},
{63855,3709,1},{63856,3710,1},{63857,3711,1},{63858,3712,1},{63859,3713,1},{63860,3714,1},{63861,3715,1},
{63862,3716,1},{63863,3717,1},{63864,3718,1},{63865,3719,1},{63866,3720,1},{63867,3721,1},{63868,3722,1},
{63869,3723,1},{63870,3724,1},{63871,3725,1},{63872,3726,1},{63873,3727,1},{63874,3728,1},{63875,3729,1},
{63876,3730,1},{63877,3731,1},{63878,3732,1},{63879,3733,1},{63880,3734,1},{63881,3735,1},{63882,3736,1},
{63883,3737,1},{63884,3738,1},{63885,3739,1},{63886,3740,1},{63887,3741,1},{63888,3742,1},{63889,3743,1},
{63890,3744,1},{63891,3745,1},{63892,3746,1},{63893,3747,1},{63894,3748,1},{63895,3749,1},{63896,3750,1},
{63897,3751,1},{63898,3752,1},{63899,3753,1},{63900,3754,1},{63901,3755,1},{63902,3756,1},{63903,3757,1},
{63904,3758,1},{63905,3759,1},{63906,3760,1},{63907,3761,1},{63908,3762,1},{63909,3763,1},{63910,3764,1},
{63911,3765,1},{63912,3766,1},{63913,3767,1},{63914,3768,1},{63915,3769,1},{63916,3770,1},{63917,3771,1},
{63918,3772,1},{63919,3773,1},{63920,3774,1},{63921,3775,1},{63922,3776,1},{63923,3777,1},{63924,3778,1},
{63925,3779,1},{63926,3780,1},{63927,3781,1},{63928,3782,1},{63929,3783,1},{63930,3784,1},{63931,3785,1},
{63932,3786,1},{63933,3787,1},{63934,3788,1},{63935,3789,1},{63936,3790,1},{63937,3791,1},{63938,3792,1},
{63939,3793,1},{63940,3794,1},{63941,3795,1},{63942,3796,1},{63943,3797,1},{63944,3798,1},{63945,3799,1},
{63946,3800,1},{63947,3801,1},{63948,3802,1},{63949,3803,1},{63950,3804,1},{63951,3805,1},{63952,3806,1},
{63953,3807,1},{63954,3808,1},{63955,3809,1},{63956,3810,1},{63957,3811,1},{63958,3812,1},{63959,3813,1},
{63960,3814,1},{63961,3815,1},{63962,3816,1},{63963,3817,1},{63964,3818,1},{63965,3819,1},{63966,3820,1},
{63967,3821,1},{63968,3822,1},{63969,3823,1},{63970,3824,1},{63971,3825,1},{63972,3826,1},{63973,3827,1},
{63974,3828,1},{63975,3829,1},{63976,3830,1},{63977,3831,1},{63978,3832,1},{63979,3833,1},{63980,3834,1},
{63981,3835,1},{63982,3836,1},{63983,3837,1},{63984,3838,1},{63985,3839,1},{63986,3840,1},{63987,3841,1},
{63988,3842,1},{63989,3843,1},{63990,3844,1},{63991,3845,1},{63992,3846,1},{63993,3847,1},{63994,3848,1},
{63995,3849,1},{63996,3850,1},{63997,3851,1},{63998,3852,1},{63999,3853,1},{64000,3854,1},{64001,3855,1},
{64002,3856,1},{64003,3857,1},{64004,3858,1},{64005,3859,1},{64006,3860,1},{64007,3861,1},{64008,3862,1},
{64009,3863,1},{64010,3864,1},{64011,3865,1},{64012,3866,1},{64013,3867,1},{64016,3868,1},{64018,3869,1},
{64021,3870,1},{64022,3871,1},{64023,3872,1},{64024,3873,1},{64025,3874,1},{64026,3875,1},{64027,3876,1},
{64028,3877,1},{64029,3878,1},{64030,3879,1},{64032,3880,1},{64034,3881,1},{64037,3882,1},{64038,3883,1},
{64042,3884,1},{64043,3885,1},{64044,3886,1},{64045,3887,1},{64046,3888,1},{64047,3889,1},{64048,3890,1},
{64049,3891,1},{64050,3892,1},{64051,3893,1},{64052,3894,1},{64053,3895,1},{64054,3896,1},{64055,3897,1},
{64056,3898,1},{64057,3899,1},{64058,3900,1},{64059,3901,1},{64060,3902,1},{64061,3903,1},{64062,3904,1},
{64063,3905,1},{64064,3906,1},{64065,3907,1},{64066,3908,1},{64067,3909,1},{64068,3910,1},{64069,3911,1},
{64070,3912,1},{64071,3913,1},{64072,3914,1},{64073,3915,1},{64074,3916,1},{64075,3917,1},{64076,3918,1},
{64077,3919,1},{64078,3920,1},{64079,3921,1},{64080,3922,1},{64081,3923,1},{64082,3924,1},{64083,3925,1},
{64084,3926,1},{64085,3927,1},{64086,3928,1},{64087,3929,1},{64088,3930,1},{64089,3931,1},{64090,3932,1},
{64091,3933,1},{64092,3934,1},{64093,3935,1},{64094,3936,1},{64095,3937,1},{64096,3938,1},{64097,3939,1},
{64098,3940,1},{64099,3941,1},{64100,3942,1},{64101,3943,1},{64102,3944,1},{64103,3945,1},{64104,3946,1},
{64105,3947,1},{64106,3948,1},{64107,3949,1},{64108,3950,1},{64109,3951,1},{64112,3952,1},{64113,3953,1},
{64114,3954,1},{64115,3955,1},{64116,3956,1},{64117,3957,1},{64118,3958,1},{64119,3959,1},{64120,3960,1},
{64121,3961,1},{64122,3962,1},{64123,3963,1},{64124,3964,1},{64125,3965,1},{64126,3966,1},{64127,3967,1},
{64128,3968,1},{64129,3969,1},{64130,3970,1},{64131,3971,1},{64132,3972,1},{64133,3973,1},{64134,3974,1},
{64135,3975,1},{64136,3976,1},{64137,3977,1},{64138,3978,1},{64139,3979,1},{64140,3980,1},{64141,3981,1},
{64142,3982,1},{64143,3983,1},{64144,3984,1},{64145,3985,1},{64146,3986,1},{64147,3987,1},{64148,3988,1},
{64149,3989,1},{64150,3990,1},{64151,3991,1},{64152,3992,1},{64153,3993,1},{64154,3994,1},{64155,3995,1},
{64156,3996,1},{64157,3997,1},{64158,3998,1},{64159,3999,1},{64160,4000,1},{64161,4001,1},{64162,4002,1},
{64163,4003,1},{64164,4004,1},{64165,4005,1},{64166,4006,1},{64167,4007,1},{64168,4008,1},{64169,4009,1},
{64170,4010,1},{64171,4011,1},{64172,4012,1},{64173,4013,1},{64174,4014,1},{64175,4015,1},{64176,4016,1},
{64177,4017,1},{64178,4018,1},{64179,4019,1},{64180,4020,1},{64181,4021,1},{64182,4022,1},{64183,4023,1},
{64184,4024,1},{64185,4025,1},{64186,4026,1},{64187,4027,1},{64188,4028,1},{64189,4029,1},{64190,4030,1},
{64191,4031,1},{64192,4032,1},{64193,4033,1},{64194,4034,1},{64195,4035,1},{64196,4036,1},{64197,4037,1},
{64198,4038,1},{64199,4039,1},{64200,4040,1},{64201,4041,1},{64202,4042,1},{64203,4043,1},{64204,4044,1},
{64205,4045,1},{64206,4046,1},{64207,4047,1},{64208,4048,1},{64209,4049,1},{64210,4050,1},{64211,4051,1},
{64212,4052,1},{64213,4053,1},{64214,4054,1},{64215,4055,1},{64216,4056,1},{64217,4057,1},{64256,4058,2},
{64257,4060,2},{64258,4062,2},{64259,4064,3},{64260,4067,3},{64261,4070,2},{64262,4072,2},{64275,4074,2},
{64276,4076,2},{64277,4078,2},{64278,4080,2},{64279,4082,2},{64285,4084,2},{64287,4086,2},{64288,4088,1},
{64289,4089,1},{64290,4090,1},{64291,4091,1},{64292,4092,1},{64293,4093,1},{64294,4094,1},{64295,4095,1},
{64296,4096,1},{64297,4097,1},{64298,4098,2},{64299,4100,2},{64300,4102,3},{64301,4105,3},{64302,4108,2},
{64303,4110,2},{64304,4112,2},{64305,4114,2},{64306,4116,2},{64307,4118,2},{64308,4120,2},{64309,4122,2},
{64310,4124,2},{64312,4126,2},{64313,4128,2},{64314,4130,2},{64315,4132,2},{64316,4134,2},{64318,4136,2},
{64320,4138,2},{64321,4140,2},{64323,4142,2},{64324,4144,2},{64326,4146,2},{64327,4148,2},{64328,4150,2},
{64329,4152,2},{64330,4154,2},{64331,4156,2},{64332,4158,2},{64333,4160,2},{64334,4162,2},{64335,4164,2},
{64336,4166,1},{64337,4167,1},{64338,4168,1},{64339,4169,1},{64340,4170,1},{64341,4171,1},{64342,4172,1},
{64343,4173,1},{64344,4174,1},{64345,4175,1},{64346,4176,1},{64347,4177,1},{64348,4178,1},{64349,4179,1},
{64350,4180,1},{64351,4181,1},{64352,4182,1},{64353,4183,1},{64354,4184,1},{64355,4185,1},{64356,4186,1},
{64357,4187,1},{64358,4188,1},{64359,4189,1},{64360,4190,1},{64361,4191,1},{64362,4192,1},{64363,4193,1},
{64364,4194,1},{64365,4195,1},{64366,4196,1},{64367,4197,1},{64368,4198,1},{64369,4199,1},{64370,4200,1},
{64371,4201,1},{64372,4202,1},{64373,4203,1},{64374,4204,1},{64375,4205,1},{64376,4206,1},{64377,4207,1},
{64378,4208,1},{64379,4209,1},{64380,4210,1},{64381,4211,1},{64382,4212,1},{64383,4213,1},{64384,4214,1},
{64385,4215,1},{64386,4216,1},{64387,4217,1},{64388,4218,1},{64389,4219,1},{64390,4220,1},{64391,4221,1},
{64392,4222,1},{64393,4223,1},{64394,4224,1},{64395,4225,1},{64396,4226,1},{64397,4227,1},{64398,4228,1},
{64399,4229,1},{64400,4230,1},{64401,4231,1},{64402,4232,1},{64403,4233,1},{64404,4234,1},{64405,4235,1},
{64406,4236,1},{64407,4237,1},{64408,4238,1},{64409,4239,1},{64410,4240,1},{64411,4241,1},{64412,4242,1},
{64413,4243,1},{64414,4244,1},{64415,4245,1},{64416,4246,1},{64417,4247,1},{64418,4248,1},{64419,4249,1},
{64420,4250,1},{64421,4251,1},{64422,4252,1},{64423,4253,1},{64424,4254,1},{64425,4255,1},{64426,4256,1},
{64427,4257,1},{64428,4258,1},{64429,4259,1},{64430,4260,1},{64431,4261,1},{64432,4262,1},{64433,4263,1},
{64467,4264,1},{64468,4265,1},{64469,4266,1},{64470,4267,1},{64471,4268,1},{64472,4269,1},{64473,4270,1},
{64474,4271,1},{64475,4272,1},{64476,4273,1},{64477,4274,2},{64478,4276,1},{64479,4277,1},{64480,4278,1},
{64481,4279,1},{64482,4280,1},{64483,4281,1},{64484,4282,1},{64485,4283,1},{64486,4284,1},{64487,4285,1},
{64488,4286,1},{64489,4287,1},{64490,4288,2},{64491,4290,2},{64492,4292,2},{64493,4294,2},{64494,4296,2},
{64495,4298,2},{64496,4300,2},{64497,4302,2},{64498,4304,2},{64499,4306,2},{64500,4308,2},{64501,4310,2},
{64502,4312,2},{64503,4314,2},{64504,4316,2},{64505,4318,2},{64506,4320,2},{64507,4322,2},{64508,4324,1},
{64509,4325,1},{64510,4326,1},{64511,4327,1},{64512,4328,2},{64513,4330,2},{64514,4332,2},{64515,4334,2},
{64516,4336,2},{64517,4338,2},{64518,4340,2},{64519,4342,2},{64520,4344,2},{64521,4346,2},{64522,4348,2},
{64523,4350,2},{64524,4352,2},{64525,4354,2},{64526,4356,2},{64527,4358,2},{64528,4360,2},{64529,4362,2},
{64530,4364,2},{64531,4366,2},{64532,4368,2},{64533,4370,2},{64534,4372,2},{64535,4374,2},{64536,4376,2},
{64537,4378,2},{64538,4380,2},{64539,4382,2},{64540,4384,2},{64541,4386,2},{64542,4388,2},{64543,4390,2},
{64544,4392,2},{64545,4394,2},{64546,4396,2},{64547,4398,2},{64548,4400,2},{64549,4402,2},{64550,4404,2},
{64551,4406,2},{64552,4408,2},{64553,4410,2},{64554,4412,2},{64555,4414,2},{64556,4416,2},{64557,4418,2},
{64558,4420,2},{64559,4422,2},{64560,4424,2},{64561,4426,2},{64562,4428,2},{64563,4430,2},{64564,4432,2},
{64565,4434,2},{64566,4436,2},{64567,4438,2},{64568,4440,2},{64569,4442,2},{64570,4444,2},{64571,4446,2},
{64572,4448,2},{64573,4450,2},{64574,4452,2},{64575,4454,2},{64576,4456,2},{64577,4458,2},{64578,4460,2},
{64579,4462,2},{64580,4464,2},{64581,4466,2},{64582,4468,2},{64583,4470,2},{64584,4472,2},{64585,4474,2},
{64586,4476,2},{64587,4478,2},{64588,4480,2},{64589,4482,2},{64590,4484,2},{64591,4486,2},{64592,4488,2},
{64593,4490,2},{64594,4492,2},{64595,4494,2},{64596,4496,2},{64597,4498,2},{64598,4500,2},{64599,4502,2},
{64600,4504,2},{64601,4506,2},{64602,4508,2},{64603,4510,2},{64604,4512,2},{64605,4514,2},{64606,4516,3},
{64607,4519,3},{64608,4522,3},{64609,4525,3},{64610,4528,3},{64611,4531,3},{64612,4534,2},{64613,4536,2},
{64614,4538,2},{64615,4540,2},{64616,4542,2},{64617,4544,2},{64618,4546,2},{64619,4548,2},{64620,4550,2},
{64621,4552,2},{64622,4554,2},{64623,4556,2},{64624,4558,2},{64625,4560,2},{64626,4562,2},{64627,4564,2},
{64628,4566,2},{64629,4568,2},{64630,4570,2},{64631,4572,2},{64632,4574,2},{64633,4576,2},{64634,4578,2},
{64635,4580,2},{64636,4582,2},{64637,4584,2},{64638,4586,2},{64639,4588,2},{64640,4590,2},{64641,4592,2},
{64642,4594,2},{64643,4596,2},{64644,4598,2},{64645,4600,2},{64646,4602,2},{64647,4604,2},{64648,4606,2},
{64649,4608,2},{64650,4610,2},{64651,4612,2},{64652,4614,2},{64653,4616,2},{64654,4618,2},{64655,4620,2},
{64656,4622,2},{64657,4624,2},{64658,4626,2},{64659,4628,2},{64660,4630,2},{64661,4632,2},{64662,4634,2},
{64663,4636,2},{64664,4638,2},{64665,4640,2},{64666,4642,2},{64667,4644,2},{64668,4646,2},{64669,4648,2},
{64670,4650,2},{64671,4652,2},{64672,4654,2},{64673,4656,2},{64674,4658,2},{64675,4660,2},{64676,4662,2},
{64677,4664,2},{64678,4666,2},{64679,4668,2},{64680,4670,2},{64681,4672,2},{64682,4674,2},{64683,4676,2},
{64684,4678,2},{64685,4680,2},{64686,4682,2},{64687,4684,2},{64688,4686,2},{64689,4688,2},{64690,4690,2},
{64691,4692,2},{64692,4694,2},{64693,4696,2},{64694,4698,2},{64695,4700,2},{64696,4702,2},{64697,4704,2},
{64698,4706,2},{64699,4708,2},{64700,4710,2},{64701,4712,2},{64702,4714,2},{64703,4716,2},{64704,4718,2},
{64705,4720,2},{64706,4722,2},{64707,4724,2},{64708,4726,2},{64709,4728,2},{64710,4730,2},{64711,4732,2},
{64712,4734,2},{64713,4736,2},{64714,4738,2},{64715,4740,2},{64716,4742,2},{64717,4744,2},{64718,4746,2},
{64719,4748,2},{64720,4750,2},{64721,4752,2},{64722,4754,2},{64723,4756,2},{64724,4758,2},{64725,4760,2},
{64726,4762,2},{64727,4764,2},{64728,4766,2},{64729,4768,2},{64730,4770,2},{64731,4772,2},{64732,4774,2},
{64733,4776,2},{64734,4778,2},{64735,4780,2},{64736,4782,2},{64737,4784,2},{64738,4786,2},{64739,4788,2},
{64740,4790,2},{64741,4792,2},{64742,4794,2},{64743,4796,2},{64744,4798,2},{64745,4800,2},{64746,4802,2},
{64747,4804,2},{64748,4806,2},{64749,4808,2},{64750,4810,2},{64751,4812,2},{64752,4814,2},{64753,4816,2},
{64754,4818,3},{64755,4821,3},{64756,4824,3},{64757,4827,2},{64758,4829,2},{64759,4831,2},{64760,4833,2},
{64761,4835,2},{64762,4837,2},{64763,4839,2},{64764,4841,2},{64765,4843,2},{64766,4845,2},{64767,4847,2},
{64768,4849,2},{64769,4851,2},{64770,4853,2},{64771,4855,2},{64772,4857,2},{64773,4859,2},{64774,4861,2},
{64775,4863,2},{64776,4865,2},{64777,4867,2},{64778,4869,2},{64779,4871,2},{64780,4873,2},{64781,4875,2},
{64782,4877,2},{64783,4879,2},{64784,4881,2},{64785,4883,2},{64786,4885,2},{64787,4887,2},{64788,4889,2},
{64789,4891,2},{64790,4893,2},{64791,4895,2},{64792,4897,2},{64793,4899,2},{64794,4901,2},{64795,4903,2},
{64796,4905,2},{64797,4907,2},{64798,4909,2},{64799,4911,2},{64800,4913,2},{64801,4915,2},{64802,4917,2},
{64803,4919,2},{64804,4921,2},{64805,4923,2},{64806,4925,2},{64807,4927,2},{64808,4929,2},{64809,4931,2},
{64810,4933,2},{64811,4935,2},{64812,4937,2},{64813,4939,2},{64814,4941,2},{64815,4943,2},{64816,4945,2},
{64817,4947,2},{64818,4949,2},{64819,4951,2},{64820,4953,2},{64821,4955,2},{64822,4957,2},{64823,4959,2},
{64824,4961,2},{64825,4963,2},{64826,4965,2},{64827,4967,2},{64828,4969,2},{64829,4971,2},{64848,4973,3},
{64849,4976,3},{64850,4979,3},{64851,4982,3},{64852,4985,3},{64853,4988,3},{64854,4991,3},{64855,4994,3},
{64856,4997,3},{64857,5000,3},{64858,5003,3},{64859,5006,3},{64860,5009,3},{64861,5012,3},{64862,5015,3},
{64863,5018,3},{64864,5021,3},{64865,5024,3},{64866,5027,3},{64867,5030,3},{64868,5033,3},{64869,5036,3},
{64870,5039,3},{64871,5042,3},{64872,5045,3},{64873,5048,3},{64874,5051,3},{64875,5054,3},{64876,5057,3},
{64877,5060,3},{64878,5063,3},{64879,5066,3},{64880,5069,3},{64881,5072,3},{64882,5075,3},{64883,5078,3},
{64884,5081,3},{64885,5084,3},{64886,5087,3},{64887,5090,3},{64888,5093,3},{64889,5096,3},{64890,5099,3},
{64891,5102,3},{64892,5105,3},{64893,5108,3},{64894,5111,3},{64895,5114,3},{64896,5117,3},{64897,5120,3},
{64898,5123,3},{64899,5126,3},{64900,5129,3},{64901,5132,3},{64902,5135,3},{64903,5138,3},{64904,5141,3},
{64905,5144,3},{64906,5147,3},{64907,5150,3},{64908,5153,3},{64909,5156,3},{64910,5159,3},{64911,5162,3},
{64914,5165,3},{64915,5168,3},{64916,5171,3},{64917,5174,3},{64918,5177,3},{64919,5180,3},{64920,5183,3},
{64921,5186,3},{64922,5189,3},{64923,5192,3},{64924,5195,3},{64925,5198,3},{64926,5201,3},{64927,5204,3},
{64928,5207,3},{64929,5210,3},{64930,5213,3},{64931,5216,3},{64932,5219,3},{64933,5222,3},{64934,5225,3},
{64935,5228,3},{64936,5231,3},{64937,5234,3},{64938,5237,3},{64939,5240,3},{64940,5243,3},{64941,5246,3},
{64942,5249,3},{64943,5252,3},{64944,5255,3},{64945,5258,3},{64946,5261,3},{64947,5264,3},{64948,5267,3},
{64949,5270,3},{64950,5273,3},{64951,5276,3},{64952,5279,3},{64953,5282,3},{64954,5285,3},{64955,5288,3},
{64956,5291,3},{64957,5294,3},{64958,5297,3},{64959,5300,3},{64960,5303,3},{64961,5306,3},{64962,5309,3},
{64963,5312,3},{64964,5315,3},{64965,5318,3},{64966,5321,3},{64967,5324,3},{65008,5327,3},{65009,5330,3},
{65010,5333,4},{65011,5337,4},{65012,5341,4},{65013,5345,4},{65014,5349,4},{65015,5353,4},{65016,5357,4},
{65017,5361,3},{65018,5364,18},{65019,5382,8},{65020,5390,4},{65040,5394,1},{65041,5395,1},{65043,5396,1},
{65044,5397,1},{65045,5398,1},{65046,5399,1},{65047,5400,1},{65048,5401,1},{65073,5402,1},{65074,5403,1},
{65075,5404,1},{65076,5405,1},{65077,5406,1},{65078,5407,1},{65079,5408,1},{65080,5409,1},{65081,5410,1},
{65082,5411,1},{65083,5412,1},{65084,5413,1},{65085,5414,1},{65086,5415,1},{65087,5416,1},{65088,5417,1},
{65089,5418,1},{65090,5419,1},{65091,5420,1},{65092,5421,1},{65095,5422,1},{65096,5423,1},{65097,5424,2},
{65098,5426,2},{65099,5428,2},{65100,5430,2},{65101,5432,1},{65102,5433,1},{65103,5434,1},{65104,5435,1},
{65105,5436,1},{65108,5437,1},{65109,5438,1},{65110,5439,1},{65111,5440,1},{65112,5441,1},{65113,5442,1},
{65114,5443,1},{65115,5444,1},{65116,5445,1},{65117,5446,1},{65118,5447,1},{65119,5448,1},{65120,5449,1},
{65121,5450,1},{65122,5451,1},{65123,5452,1},{65124,5453,1},{65125,5454,1},{65126,5455,1},{65128,5456,1},
{65129,5457,1},{65130,5458,1},{65131,5459,1},{65136,5460,2},{65137,5462,2},{65138,5464,2},{65140,5466,2},
{65142,5468,2},{65143,5470,2},{65144,5472,2},{65145,5474,2},{65146,5476,2},{65147,5478,2},{65148,5480,2},
{65149,5482,2},{65150,5484,2},{65151,5486,2},{65152,5488,1},{65153,5489,1},{65154,5490,1},{65155,5491,1},
{65156,5492,1},{65157,5493,1},{65158,5494,1},{65159,5495,1},{65160,5496,1},{65161,5497,1},{65162,5498,1},
{65163,5499,1},{65164,5500,1},{65165,5501,1},{65166,5502,1},{65167,5503,1},{65168,5504,1},{65169,5505,1},
{65170,5506,1},{65171,5507,1},{65172,5508,1},{65173,5509,1},{65174,5510,1},{65175,5511,1},{65176,5512,1},
{65177,5513,1},{65178,5514,1},{65179,5515,1},{65180,5516,1},{65181,5517,1},{65182,5518,1},{65183,5519,1},
{65184,5520,1},{65185,5521,1},{65186,5522,1},{65187,5523,1},{65188,5524,1},{65189,5525,1},{65190,5526,1},
{65191,5527,1},{65192,5528,1},{65193,5529,1},{65194,5530,1},{65195,5531,1},{65196,5532,1},{65197,5533,1},
{65198,5534,1},{65199,5535,1},{65200,5536,1},{65201,5537,1},{65202,5538,1},{65203,5539,1},{65204,5540,1},
{65205,5541,1},{65206,5542,1},{65207,5543,1},{65208,5544,1},{65209,5545,1},{65210,5546,1},{65211,5547,1},
{65212,5548,1},{65213,5549,1},{65214,5550,1},{65215,5551,1},{65216,5552,1},{65217,5553,1},{65218,5554,1},
{65219,5555,1},{65220,5556,1},{65221,5557,1},{65222,5558,1},{65223,5559,1},{65224,5560,1},{65225,5561,1},
{65226,5562,1},{65227,5563,1},{65228,5564,1},{65229,5565,1},{65230,5566,1},{65231,5567,1},{65232,5568,1},
{65233,5569,1},{65234,5570,1},{65235,5571,1},{65236,5572,1},{65237,5573,1},{65238,5574,1},{65239,5575,1},
{65240,5576,1},{65241,5577,1},{65242,5578,1},{65243,5579,1},{65244,5580,1},{65245,5581,1},{65246,5582,1},
{65247,5583,1},{65248,5584,1},{65249,5585,1},{65250,5586,1},{65251,5587,1},{65252,5588,1},{65253,5589,1},
{65254,5590,1},{65255,5591,1},{65256,5592,1},{65257,5593,1},{65258,5594,1},{65259,5595,1},{65260,5596,1},
{65261,5597,1},{65262,5598,1},{65263,5599,1},{65264,5600,1},{65265,5601,1},{65266,5602,1},{65267,5603,1},
{65268,5604,1},{65269,5605,2},{65270,5607,2},{65271,5609,2},{65272,5611,2},{65273,5613,2},{65274,5615,2},
{65275,5617,2},{65276,5619,2},{65281,5621,1},{65282,5622,1},{65283,5623,1},{65284,5624,1},{65285,5625,1},
{65286,5626,1},{65287,5627,1},{65288,5628,1},{65289,5629,1},{65290,5630,1},{65291,5631,1},{65292,5632,1},
{65293,5633,1},{65294,5634,1},{65295,5635,1},{65296,5636,1},{65297,5637,1},{65298,5638,1},{65299,5639,1},
{65300,5640,1},{65301,5641,1},{65302,5642,1},{65303,5643,1},{65304,5644,1},{65305,5645,1},{65306,5646,1},
{65307,5647,1},{65308,5648,1},{65309,5649,1},{65310,5650,1},{65311,5651,1},{65312,5652,1},{65313,5653,1},
{65314,5654,1},{65315,5655,1},{65316,5656,1},{65317,5657,1},{65318,5658,1},{65319,5659,1},{65320,5660,1},
{65321,5661,1},{65322,5662,1},{65323,5663,1},{65324,5664,1},{65325,5665,1},{65326,5666,1},{65327,5667,1},
{65328,5668,1},{65329,5669,1},{65330,5670,1},{65331,5671,1},{65332,5672,1},{65333,5673,1},{65334,5674,1},
{65335,5675,1},{65336,5676,1},{65337,5677,1},{65338,5678,1},{65339,5679,1},{65340,5680,1},{65341,5681,1},
{65342,5682,1},{65343,5683,1},{65344,5684,1},{65345,5685,1},{65346,5686,1},{65347,5687,1},{65348,5688,1},
{65349,5689,1},{65350,5690,1},{65351,5691,1},{65352,5692,1},{65353,5693,1},{65354,5694,1},{65355,5695,1},
{65356,5696,1},{65357,5697,1},{65358,5698,1},{65359,5699,1},{65360,5700,1},{65361,5701,1},{65362,5702,1},
{65363,5703,1},{65364,5704,1},{65365,5705,1},{65366,5706,1},{65367,5707,1},{65368,5708,1},{65369,5709,1},
{65370,5710,1},{65371,5711,1},{65372,5712,1},{65373,5713,1},{65374,5714,1},{65375,5715,1},{65376,5716,1},
{65377,5717,1},{65378,5718,1},{65379,5719,1},{65380,5720,1},{65381,5721,1},{65382,5722,1},{65383,5723,1},
{65384,5724,1},{65385,5725,1},{65386,5726,1},{65387,5727,1},{65388,5728,1},{65389,5729,1},{65390,5730,1},
{65391,5731,1},{65392,5732,1},{65393,5733,1},{65394,5734,1},{65395,5735,1},{65396,5736,1},{65397,5737,1},
{65398,5738,1},{65399,5739,1},{65400,5740,1},{65401,5741,1},{65402,5742,1},{65403,5743,1},{65404,5744,1},
{65405,5745,1},{65406,5746,1},{65407,5747,1},{65408,5748,1},{65409,5749,1},{65410,5750,1},{65411,5751,1},
{65412,5752,1},{65413,5753,1},{65414,5754,1},{65415,5755,1},{65416,5756,1},{65417,5757,1},{65418,5758,1},
{65419,5759,1},{65420,5760,1},{65421,5761,1},{65422,5762,1},{65423,5763,1},{65424,5764,1},{65425,5765,1},
{65426,5766,1},{65427,5767,1},{65428,5768,1},{65429,5769,1},{65430,5770,1},{65431,5771,1},{65432,5772,1},
{65433,5773,1},{65434,5774,1},{65435,5775,1},{65436,5776,1},{65437,5777,1},{65438,5778,1},{65439,5779,1},
{65441,5780,1},{65442,5781,1},{65443,5782,1},{65444,5783,1},{65445,5784,1},{65446,5785,1},{65447,5786,1},
{65448,5787,1},{65449,5788,1},{65450,5789,1},{65451,5790,1},{65452,5791,1},{65453,5792,1},{65454,5793,1},
{65455,5794,1},{65456,5795,1},{65457,5796,1},{65458,5797,1},{65459,5798,1},{65460,5799,1},{65461,5800,1},
{65462,5801,1},{65463,5802,1},{65464,5803,1},{65465,5804,1},{65466,5805,1},{65467,5806,1},{65468,5807,1},
{65469,5808,1},{65470,5809,1},{65474,5810,1},{65475,5811,1},{65476,5812,1},{65477,5813,1},{65478,5814,1},
{65479,5815,1},{65482,5816,1},{65483,5817,1},{65484,5818,1},{65485,5819,1},{65486,5820,1},{65487,5821,1},
{65490,5822,1},{65491,5823,1},{65492,5824,1},{65493,5825,1},{65494,5826,1},{65495,5827,1},{65498,5828,1},
{65499,5829,1},{65500,5830,1},{65504,5831,1},{65505,5832,1},{65506,5833,1},{65507,5834,2},{65508,5836,1},
{65509,5837,1},{65510,5838,1},{65512,5839,1},{65513,5840,1},{65514,5841,1},{65515,5842,1},{65516,5843,1},
{65517,5844,1},{65518,5845,1},{66560,5846,1},{66561,5847,1},{66562,5848,1},{66563,5849,1},{66564,5850,1},
{66565,5851,1},{66566,5852,1},{66567,5853,1},{66568,5854,1},{66569,5855,1},{66570,5856,1},{66571,5857,1},
{66572,5858,1},{66573,5859,1},{66574,5860,1},{66575,5861,1},{66576,5862,1},{66577,5863,1},{66578,5864,1},
{66579,5865,1},{66580,5866,1},{66581,5867,1},{66582,5868,1},{66583,5869,1},{66584,5870,1},{66585,5871,1},
{66586,5872,1},{66587,5873,1},{66588,5874,1},{66589,5875,1},{66590,5876,1},{66591,5877,1},{66592,5878,1},
{66593,5879,1},{66594,5880,1},{66595,5881,1},{66596,5882,1},{66597,5883,1},{66598,5884,1},{66599,5885,1},
{66736,5886,1},{66737,5887,1},{66738,5888,1},{66739,5889,1},{66740,5890,1},{66741,5891,1},{66742,5892,1},
{66743,5893,1},{66744,5894,1},{66745,5895,1},{66746,5896,1},{66747,5897,1},{66748,5898,1},{66749,5899,1},
{66750,5900,1},{66751,5901,1},{66752,5902,1},{66753,5903,1},{66754,5904,1},{66755,5905,1},{66756,5906,1},
{66757,5907,1},{66758,5908,1},{66759,5909,1},{66760,5910,1},{66761,5911,1},{66762,5912,1},{66763,5913,1},
{66764,5914,1},{66765,5915,1},{66766,5916,1},{66767,5917,1},{66768,5918,1},{66769,5919,1},{66770,5920,1},
{66771,5921,1},{66928,5922,1},{66929,5923,1},{66930,5924,1},{66931,5925,1},{66932,5926,1},{66933,5927,1},
{66934,5928,1},{66935,5929,1},{66936,5930,1},{66937,5931,1},{66938,5932,1},{66940,5933,1},{66941,5934,1},
{66942,5935,1},{66943,5936,1},{66944,5937,1},{66945,5938,1},{66946,5939,1},{66947,5940,1},{66948,5941,1},
{66949,5942,1},{66950,5943,1},{66951,5944,1},{66952,5945,1},{66953,5946,1},{66954,5947,1},{66956,5948,1},
{66957,5949,1},{66958,5950,1},{66959,5951,1},{66960,5952,1},{66961,5953,1},{66962,5954,1},{66964,5955,1},
{66965,5956,1},{67457,5957,1},{67458,5958,1},{67459,5959,1},{67460,5960,1},{67461,5961,1},{67463,5962,1},
{67464,5963,1},{67465,5964,1},{67466,5965,1},{67467,5966,1},{67468,5967,1},{67469,5968,1},{67470,5969,1},
{67471,5970,1},{67472,5971,1},{67473,5972,1},{67474,5973,1},{67475,5974,1},{67476,5975,1},{67477,5976,1},
{67478,5977,1},{67479,5978,1},{67480,5979,1},{67481,5980,1},{67482,5981,1},{67483,5982,1},{67484,5983,1},
{67485,5984,1},{67486,5985,1},{67487,5986,1},{67488,5987,1},{67489,5988,1},{67490,5989,1},{67491,5990,1},
{67492,5991,1},{67493,5992,1},{67494,5993,1},{67495,5994,1},{67496,5995,1},{67497,5996,1},{67498,5997,1},
{67499,5998,1},{67500,5999,1},{67501,6000,1},{67502,6001,1},{67503,6002,1},{67504,6003,1},{67506,6004,1},
{67507,6005,1},{67508,6006,1},{67509,6007,1},{67510,6008,1},{67511,6009,1},{67512,6010,1},{67513,6011,1},
{67514,6012,1},{68736,6013,1},{68737,6014,1},{68738,6015,1},{68739,6016,1},{68740,6017,1},{68741,6018,1},
{68742,6019,1},{68743,6020,1},{68744,6021,1},{68745,6022,1},{68746,6023,1},{68747,6024,1},{68748,6025,1},
{68749,6026,1},{68750,6027,1},{68751,6028,1},{68752,6029,1},{68753,6030,1},{68754,6031,1},{68755,6032,1},
{68756,6033,1},{68757,6034,1},{68758,6035,1},{68759,6036,1},{68760,6037,1},{68761,6038,1},{68762,6039,1},
{68763,6040,1},{68764,6041,1},{68765,6042,1},{68766,6043,1},{68767,6044,1},{68768,6045,1},{68769,6046,1},
{68770,6047,1},{68771,6048,1},{68772,6049,1},{68773,6050,1},{68774,6051,1},{68775,6052,1},{68776,6053,1},
{68777,6054,1},{68778,6055,1},{68779,6056,1},{68780,6057,1},{68781,6058,1},{68782,6059,1},{68783,6060,1},
{68784,6061,1},{68785,6062,1},{68786,6063,1},{68944,6064,1},{68945,6065,1},{68946,6066,1},{68947,6067,1},
{68948,6068,1},{68949,6069,1},{68950,6070,1},{68951,6071,1},{68952,6072,1},{68953,6073,1},{68954,6074,1},
{68955,6075,1},{68956,6076,1},{68957,6077,1},{68958,6078,1},{68959,6079,1},{68960,6080,1},{68961,6081,1},
{68962,6082,1},{68963,6083,1},{68964,6084,1},{68965,6085,1},{71840,6086,1},{71841,6087,1},{71842,6088,1},
{71843,6089,1},{71844,6090,1},{71845,6091,1},{71846,6092,1},{71847,6093,1},{71848,6094,1},{71849,6095,1},
{71850,6096,1},{71851,6097,1},{71852,6098,1},{71853,6099,1},{71854,6100,1},{71855,6101,1},{71856,6102,1},
{71857,6103,1},{71858,6104,1},{71859,6105,1},{71860,6106,1},{71861,6107,1},{71862,6108,1},{71863,6109,1},
{71864,6110,1},{71865,6111,1},{71866,6112,1},{71867,6113,1},{71868,6114,1},{71869,6115,1},{71870,6116,1},
{71871,6117,1},{93760,6118,1},{93761,6119,1},{93762,6120,1},{93763,6121,1},{93764,6122,1},{93765,6123,1},
{93766,6124,1},{93767,6125,1},{93768,6126,1},{93769,6127,1},{93770,6128,1},{93771,6129,1},{93772,6130,1},
{93773,6131,1},{93774,6132,1},{93775,6133,1},{93776,6134,1},{93777,6135,1},{93778,6136,1},{93779,6137,1},
{93780,6138,1},{93781,6139,1},{93782,6140,1},{93783,6141,1},{93784,6142,1},{93785,6143,1},{93786,6144,1},
{93787,6145,1},{93788,6146,1},{93789,6147,1},{93790,6148,1},{93791,6149,1},{93856,6150,1},{93857,6151,1},
{93858,6152,1},{93859,6153,1},{93860,6154,1},{93861,6155,1},{93862,6156,1},{93863,6157,1},{93864,6158,1},
{93865,6159,1},{93866,6160,1},{93867,6161,1},{93868,6162,1},{93869,6163,1},{93870,6164,1},{93871,6165,1},
{93872,6166,1},{93873,6167,1},{93874,6168,1},{93875,6169,1},{93876,6170,1},{93877,6171,1},{93878,6172,1},
{93879,6173,1},{93880,6174,1},{117974,6175,1},{117975,6176,1},{117976,6177,1},{117977,6178,1},{117978,6179,1},
{117979,6180,1},{117980,6181,1},{117981,6182,1},{117982,6183,1},{117983,6184,1},{117984,6185,1},{117985,6186,1},
{117986,6187,1},{117987,6188,1},{117988,6189,1},{117989,6190,1},{117990,6191,1},{117991,6192,1},{117992,6193,1},
{117993,6194,1},{117994,6195,1},{117995,6196,1},{117996,6197,1},{117997,6198,1},{117998,6199,1},{117999,6200,1},
{118000,6201,1},{118001,6202,1},{118002,6203,1},{118003,6204,1},{118004,6205,1},{118005,6206,1},{118006,6207,1},
{118007,6208,1},{118008,6209,1},{118009,6210,1},{119134,6211,2},{119135,6213,2},{119136,6215,3},{119137,6218,3},
{119138,6221,3},{119139,6224,3},{119140,6227,3},{119227,6230,2},{119228,6232,2},{119229,6234,3},{119230,6237,3},
{119231,6240,3},{119232,6243,3},{119808,6246,1},{119809,6247,1},{119810,6248,1},{119811,6249,1},{119812,6250,1},
{119813,6251,1},{119814,6252,1},{119815,6253,1},{119816,6254,1},{119817,6255,1},{119818,6256,1},{119819,6257,1},
{119820,6258,1},{119821,6259,1},{119822,6260,1},{119823,6261,1},{119824,6262,1},{119825,6263,1},{119826,6264,1},
{119827,6265,1},{119828,6266,1},{119829,6267,1},{119830,6268,1},{119831,6269,1},{119832,6270,1},{119833,6271,1},
{119834,6272,1},{119835,6273,1},{119836,6274,1},{119837,6275,1},{119838,6276,1},{119839,6277,1},{119840,6278,1},
{119841,6279,1},{119842,6280,1},{119843,6281,1},{119844,6282,1},{119845,6283,1},{119846,6284,1},{119847,6285,1},
{119848,6286,1},{119849,6287,1},{119850,6288,1},{119851,6289,1},{119852,6290,1},{119853,6291,1},{119854,6292,1},
{119855,6293,1},{119856,6294,1},{119857,6295,1},{119858,6296,1},{119859,6297,1},{119860,6298,1},{119861,6299,1},
{119862,6300,1},{119863,6301,1},{119864,6302,1},{119865,6303,1},{119866,6304,1},{119867,6305,1},{119868,6306,1},
{119869,6307,1},{119870,6308,1},{119871,6309,1},{119872,6310,1},{119873,6311,1},{119874,6312,1},{119875,6313,1},
{119876,6314,1},{119877,6315,1},{119878,6316,1},{119879,6317,1},{119880,6318,1},{119881,6319,1},{119882,6320,1},
{119883,6321,1},{119884,6322,1},{119885,6323,1},{119886,6324,1},{119887,6325,1},{119888,6326,1},{119889,6327,1},
{119890,6328,1},{119891,6329,1},{119892,6330,1},{119894,6331,1},{119895,6332,1},{119896,6333,1},{119897,6334,1},
{119898,6335,1},{119899,6336,1},{119900,6337,1},{119901,6338,1},{119902,6339,1},{119903,6340,1},{119904,6341,1},
{119905,6342,1},{119906,6343,1},{119907,6344,1},{119908,6345,1},{119909,6346,1},{119910,6347,1},{119911,6348,1},
{119912,6349,1},{119913,6350,1},{119914,6351,1},{119915,6352,1},{119916,6353,1},{119917,6354,1},{119918,6355,1},
{119919,6356,1},{119920,6357,1},{119921,6358,1},{119922,6359,1},{119923,6360,1},{119924,6361,1},{119925,6362,1},
{119926,6363,1},{119927,6364,1},{119928,6365,1},{119929,6366,1},{119930,6367,1},{119931,6368,1},{119932,6369,1},
{119933,6370,1},{119934,6371,1},{119935,6372,1},{119936,6373,1},{119937,6374,1},{119938,6375,1},{119939,6376,1},
{119940,6377,1},{119941,6378,1},{119942,6379,1},{119943,6380,1},{119944,6381,1},{119945,6382,1},{119946,6383,1},
{119947,6384,1},{119948,6385,1},{119949,6386,1},{119950,6387,1},{119951,6388,1},{119952,6389,1},{119953,6390,1},
{119954,6391,1},{119955,6392,1},{119956,6393,1},{119957,6394,1},{119958,6395,1},{119959,6396,1},{119960,6397,1},
{119961,6398,1},{119962,6399,1},{119963,6400,1},{119964,6401,1},{119966,6402,1},{119967,6403,1},{119970,6404,1},
{119973,6405,1},{119974,6406,1},{119977,6407,1},{119978,6408,1},{119979,6409,1},{119980,6410,1},{119982,6411,1},
{119983,6412,1},{119984,6413,1},{119985,6414,1},{119986,6415,1},{119987,6416,1},{119988,6417,1},{119989,6418,1},
{119990,6419,1},{119991,6420,1},{119992,6421,1},{119993,6422,1},{119995,6423,1},{119997,6424,1},{119998,6425,1},
{119999,6426,1},{120000,6427,1},{120001,6428,1},{120002,6429,1},{120003,6430,1},{120005,6431,1},{120006,6432,1},
{120007,6433,1},{120008,6434,1},{120009,6435,1},{120010,6436,1},{120011,6437,1},{120012,6438,1},{120013,6439,1},
{120014,6440,1},{120015,6441,1},{120016,6442,1},{120017,6443,1},{120018,6444,1},{120019,6445,1},{120020,6446,1},
{120021,6447,1},{120022,6448,1},{120023,6449,1},{120024,6450,1},{120025,6451,1},{120026,6452,1},{120027,6453,1},
{120028,6454,1},{120029,6455,1},{120030,6456,1},{120031,6457,1},{120032,6458,1},{120033,6459,1},{120034,6460,1},
{120035,6461,1},{120036,6462,1},{120037,6463,1},{120038,6464,1},{120039,6465,1},{120040,6466,1},{120041,6467,1},
{120042,6468,1},{120043,6469,1},{120044,6470,1},{120045,6471,1},{120046,6472,1},{120047,6473,1},{120048,6474,1},
{120049,6475,1},{120050,6476,1},{120051,6477,1},{120052,6478,1},{120053,6479,1},{120054,6480,1},{120055,6481,1},
{120056,6482,1},{120057,6483,1},{120058,6484,1},{120059,6485,1},{120060,6486,1},{120061,6487,1},{120062,6488,1},
{120063,6489,1},{120064,6490,1},{120065,6491,1},{120066,6492,1},{120067,6493,1},{120068,6494,1},{120069,6495,1},
{120071,6496,1},{120072,6497,1},{120073,6498,1},{120074,6499,1},{120077,6500,1},{120078,6501,1},{120079,6502,1},
{120080,6503,1},{120081,6504,1},{120082,6505,1},{120083,6506,1},{120084,6507,1},{120086,6508,1},{120087,6509,1},
{120088,6510,1},{120089,6511,1},{120090,6512,1},{120091,6513,1},{120092,6514,1},{120094,6515,1},{120095,6516,1},
{120096,6517,1},{120097,6518,1},{120098,6519,1},{120099,6520,1},{120100,6521,1},{120101,6522,1},{120102,6523,1},
{120103,6524,1},{120104,6525,1},{120105,6526,1},{120106,6527,1},{120107,6528,1},{120108,6529,1},{120109,6530,1},
{120110,6531,1},{120111,6532,1},{120112,6533,1},{120113,6534,1},{120114,6535,1},{120115,6536,1},{120116,6537,1},
{120117,6538,1},{120118,6539,1},{120119,6540,1},{120120,6541,1},{120121,6542,1},{120123,6543,1},{120124,6544,1},
{120125,6545,1},{120126,6546,1},{120128,6547,1},{120129,6548,1},{120130,6549,1},{120131,6550,1},{120132,6551,1},
{120134,6552,1},{120138,6553,1},{120139,6554,1},{120140,6555,1},{120141,6556,1},{120142,6557,1},{120143,6558,1},
{120144,6559,1},{120146,6560,1},{120147,6561,1},{120148,6562,1},{120149,6563,1},{120150,6564,1},{120151,6565,1},
{120152,6566,1},{120153,6567,1},{120154,6568,1},{120155,6569,1},{120156,6570,1},{120157,6571,1},{120158,6572,1},
{120159,6573,1},{120160,6574,1},{120161,6575,1},{120162,6576,1},{120163,6577,1},{120164,6578,1},{120165,6579,1},
{120166,6580,1},{120167,6581,1},{120168,6582,1},{120169,6583,1},{120170,6584,1},{120171,6585,1},{120172,6586,1},
{120173,6587,1},{120174,6588,1},{120175,6589,1},{120176,6590,1},{120177,6591,1},{120178,6592,1},{120179,6593,1},
{120180,6594,1},{120181,6595,1},{120182,6596,1},{120183,6597,1},{120184,6598,1},{120185,6599,1},{120186,6600,1},
{120187,6601,1},{120188,6602,1},{120189,6603,1},{120190,6604,1},{120191,6605,1},{120192,6606,1},{120193,6607,1},
{120194,6608,1},{120195,6609,1},{120196,6610,1},{120197,6611,1},{120198,6612,1},{120199,6613,1},{120200,6614,1},
{120201,6615,1},{120202,6616,1},{120203,6617,1},{120204,6618,1},{120205,6619,1},{120206,6620,1},{120207,6621,1},
{120208,6622,1},{120209,6623,1},{120210,6624,1},{120211,6625,1},{120212,6626,1},{120213,6627,1},{120214,6628,1},
{120215,6629,1},{120216,6630,1},{120217,6631,1},{120218,6632,1},{120219,6633,1},{120220,6634,1},{120221,6635,1},
{120222,6636,1},{120223,6637,1},{120224,6638,1},{120225,6639,1},{120226,6640,1},{120227,6641,1},{120228,6642,1},
{120229,6643,1},{120230,6644,1},{120231,6645,1},{120232,6646,1},{120233,6647,1},{120234,6648,1},{120235,6649,1},
{120236,6650,1},{120237,6651,1},{120238,6652,1},{120239,6653,1},{120240,6654,1},{120241,6655,1},{120242,6656,1},
{120243,6657,1},{120244,6658,1},{120245,6659,1},{120246,6660,1},{120247,6661,1},{120248,6662,1},{120249,6663,1},
{120250,6664,1},{120251,6665,1},{120252,6666,1},{120253,6667,1},{120254,6668,1},{120255,6669,1},{120256,6670,1},
{120257,6671,1},{120258,6672,1},{120259,6673,1},{120260,6674,1},{120261,6675,1},{120262,6676,1},{120263,6677,1},
{120264,6678,1},{120265,6679,1},{120266,6680,1},{120267,6681,1},{120268,6682,1},{120269,6683,1},{120270,6684,1},
{120271,6685,1},{120272,6686,1},{120273,6687,1},{120274,6688,1},{120275,6689,1},{120276,6690,1},{120277,6691,1},
{120278,6692,1},{120279,6693,1},{120280,6694,1},{120281,6695,1},{120282,6696,1},{120283,6697,1},{120284,6698,1},
{120285,6699,1},{120286,6700,1},{120287,6701,1},{120288,6702,1},{120289,6703,1},{120290,6704,1},{120291,6705,1},
{120292,6706,1},{120293,6707,1},{120294,6708,1},{120295,6709,1},{120296,6710,1},{120297,6711,1},{120298,6712,1},
{120299,6713,1},{120300,6714,1},{120301,6715,1},{120302,6716,1},{120303,6717,1},{120304,6718,1},{120305,6719,1},
{120306,6720,1},{120307,6721,1},{120308,6722,1},{120309,6723,1},{120310,6724,1},{120311,6725,1},{120312,6726,1},
{120313,6727,1},{120314,6728,1},{120315,6729,1},{120316,6730,1},{120317,6731,1},{120318,6732,1},{120319,6733,1},
{120320,6734,1},{120321,6735,1},{120322,6736,1},{120323,6737,1},{120324,6738,1},{120325,6739,1},{120326,6740,1},
{120327,6741,1},{120328,6742,1},{120329,6743,1},{120330,6744,1},{120331,6745,1},{120332,6746,1},{120333,6747,1},
{120334,6748,1},{120335,6749,1},{120336,6750,1},{120337,6751,1},{120338,6752,1},{120339,6753,1},{120340,6754,1},
{120341,6755,1},{120342,6756,1},{120343,6757,1},{120344,6758,1},{120345,6759,1},{120346,6760,1},{120347,6761,1},
{120348,6762,1},{120349,6763,1},{120350,6764,1},{120351,6765,1},{120352,6766,1},{120353,6767,1},{120354,6768,1},
{120355,6769,1},{120356,6770,1},{120357,6771,1},{120358,6772,1},{120359,6773,1},{120360,6774,1},{120361,6775,1},
{120362,6776,1},{120363,6777,1},{120364,6778,1},{120365,6779,1},{120366,6780,1},{120367,6781,1},{120368,6782,1},
{120369,6783,1},{120370,6784,1},{120371,6785,1},{120372,6786,1},{120373,6787,1},{120374,6788,1},{120375,6789,1},
{120376,6790,1},{120377,6791,1},{120378,6792,1},{120379,6793,1},{120380,6794,1},{120381,6795,1},{120382,6796,1},
{120383,6797,1},{120384,6798,1},{120385,6799,1},{120386,6800,1},{120387,6801,1},{120388,6802,1},{120389,6803,1},
{120390,6804,1},{120391,6805,1},{120392,6806,1},{120393,6807,1},{120394,6808,1},{120395,6809,1},{120396,6810,1},
{120397,6811,1},{120398,6812,1},{120399,6813,1},{120400,6814,1},{120401,6815,1},{120402,6816,1},{120403,6817,1},
{120404,6818,1},{120405,6819,1},{120406,6820,1},{120407,6821,1},{120408,6822,1},{120409,6823,1},{120410,6824,1},
{120411,6825,1},{120412,6826,1},{120413,6827,1},{120414,6828,1},{120415,6829,1},{120416,6830,1},{120417,6831,1},
{120418,6832,1},{120419,6833,1},{120420,6834,1},{120421,6835,1},{120422,6836,1},{120423,6837,1},{120424,6838,1},
{120425,6839,1},{120426,6840,1},{120427,6841,1},{120428,6842,1},{120429,6843,1},{120430,6844,1},{120431,6845,1},
{120432,6846,1},{120433,6847,1},{120434,6848,1},{120435,6849,1},{120436,6850,1},{120437,6851,1},{120438,6852,1},
{120439,6853,1},{120440,6854,1},{120441,6855,1},{120442,6856,1},{120443,6857,1},{120444,6858,1},{120445,6859,1},
{120446,6860,1},{120447,6861,1},{120448,6862,1},{120449,6863,1},{120450,6864,1},{120451,6865,1},{120452,6866,1},
{120453,6867,1},{120454,6868,1},{120455,6869,1},{120456,6870,1},{120457,6871,1},{120458,6872,1},{120459,6873,1},
{120460,6874,1},{120461,6875,1},{120462,6876,1},{120463,6877,1},{120464,6878,1},{120465,6879,1},{120466,6880,1},
{120467,6881,1},{120468,6882,1},{120469,6883,1},{120470,6884,1},{120471,6885,1},{120472,6886,1},{120473,6887,1},
{120474,6888,1},{120475,6889,1},{120476,6890,1},{120477,6891,1},{120478,6892,1},{120479,6893,1},{120480,6894,1},
{120481,6895,1},{120482,6896,1},{120483,6897,1},{120484,6898,1},{120485,6899,1},{120488,6900,1},{120489,6901,1},
{120490,6902,1},{120491,6903,1},{120492,6904,1},{120493,6905,1},{120494,6906,1},{120495,6907,1},{120496,6908,1},
{120497,6909,1},{120498,6910,1},{120499,6911,1},{120500,6912,1},{120501,6913,1},{120502,6914,1},{120503,6915,1},
{120504,6916,1},{120505,6917,1},{120506,6918,1},{120507,6919,1},{120508,6920,1},{120509,6921,1},{120510,6922,1},
{120511,6923,1},{120512,6924,1},{120513,6925,1},{120514,6926,1},{120515,6927,1},{120516,6928,1},{120517,6929,1},
{120518,6930,1},{120519,6931,1},{120520,6932,1},{120521,6933,1},{120522,6934,1},{120523,6935,1},{120524,6936,1},
{120525,6937,1},{120526,6938,1},{120527,6939,1},{120528,6940,1},{120529,6941,1},{120530,6942,1},{120531,6943,1},
{120532,6944,1},{120533,6945,1},{120534,6946,1},{120535,6947,1},{120536,6948,1},{120537,6949,1},{120538,6950,1},
{120539,6951,1},{120540,6952,1},{120541,6953,1},{120542,6954,1},{120543,6955,1},{120544,6956,1},{120545,6957,1},
{120546,6958,1},{120547,6959,1},{120548,6960,1},{120549,6961,1},{120550,6962,1},{120551,6963,1},{120552,6964,1},
{120553,6965,1},{120554,6966,1},{120555,6967,1},{120556,6968,1},{120557,6969,1},{120558,6970,1},{120559,6971,1},
{120560,6972,1},{120561,6973,1},{120562,6974,1},{120563,6975,1},{120564,6976,1},{120565,6977,1},{120566,6978,1},
{120567,6979,1},{120568,6980,1},{120569,6981,1},{120570,6982,1},{120571,6983,1},{120572,6984,1},{120573,6985,1},
{120574,6986,1},{120575,6987,1},{120576,6988,1},{120577,6989,1},{120578,6990,1},{120579,6991,1},{120580,6992,1},
{120581,6993,1},{120582,6994,1},{120583,6995,1},{120584,6996,1},{120585,6997,1},{120586,6998,1},{120587,6999,1},
{120588,7000,1},{120589,7001,1},{120590,7002,1},{120591,7003,1},{120592,7004,1},{120593,7005,1},{120594,7006,1},
{120595,7007,1},{120596,7008,1},{120597,7009,1},{120598,7010,1},{120599,7011,1},{120600,7012,1},{120601,7013,1},
{120602,7014,1},{120603,7015,1},{120604,7016,1},{120605,7017,1},{120606,7018,1},{120607,7019,1},{120608,7020,1},
{120609,7021,1},{120610,7022,1},{120611,7023,1},{120612,7024,1},{120613,7025,1},{120614,7026,1},{120615,7027,1},
{120616,7028,1},{120617,7029,1},{120618,7030,1},{120619,7031,1},{120620,7032,1},{120621,7033,1},{120622,7034,1},
{120623,7035,1},{120624,7036,1},{120625,7037,1},{120626,7038,1},{120627,7039,1},{120628,7040,1},{120629,7041,1},
{120630,7042,1},{120631,7043,1},{120632,7044,1},{120633,7045,1},{120634,7046,1},{120635,7047,1},{120636,7048,1},
{120637,7049,1},{120638,7050,1},{120639,7051,1},{120640,7052,1},{120641,7053,1},{120642,7054,1},{120643,7055,1},
{120644,7056,1},{120645,7057,1},{120646,7058,1},{120647,7059,1},{120648,7060,1},{120649,7061,1},{120650,7062,1},
{120651,7063,1},{120652,7064,1},{120653,7065,1},{120654,7066,1},{120655,7067,1},{120656,7068,1},{120657,7069,1},
{120658,7070,1},{120659,7071,1},{120660,7072,1},{120661,7073,1},{120662,7074,1},{120663,7075,1},{120664,7076,1},
{120665,7077,1},{120666,7078,1},{120667,7079,1},{120668,7080,1},{120669,7081,1},{120670,7082,1},{120671,7083,1},
{120672,7084,1},{120673,7085,1},{120674,7086,1},{120675,7087,1},{120676,7088,1},{120677,7089,1},{120678,7090,1},
{120679,7091,1},{120680,7092,1},{120681,7093,1},{120682,7094,1},{120683,7095,1},{120684,7096,1},{120685,7097,1},
{120686,7098,1},{120687,7099,1},{120688,7100,1},{120689,7101,1},{120690,7102,1},{120691,7103,1},{120692,7104,1},
{120693,7105,1},{120694,7106,1},{120695,7107,1},{120696,7108,1},{120697,7109,1},{120698,7110,1},{120699,7111,1},
{120700,7112,1},{120701,7113,1},{120702,7114,1},{120703,7115,1},{120704,7116,1},{120705,7117,1},{120706,7118,1},
{120707,7119,1},{120708,7120,1},{120709,7121,1},{120710,7122,1},{120711,7123,1},{120712,7124,1},{120713,7125,1},
{120714,7126,1},{120715,7127,1},{120716,7128,1},{120717,7129,1},{120718,7130,1},{120719,7131,1},{120720,7132,1},
{120721,7133,1},{120722,7134,1},{120723,7135,1},{120724,7136,1},{120725,7137,1},{120726,7138,1},{120727,7139,1},
{120728,7140,1},{120729,7141,1},{120730,7142,1},{120731,7143,1},{120732,7144,1},{120733,7145,1},{120734,7146,1},
{120735,7147,1},{120736,7148,1},{120737,7149,1},{120738,7150,1},{120739,7151,1},{120740,7152,1},{120741,7153,1},
{120742,7154,1},{120743,7155,1},{120744,7156,1},{120745,7157,1},{120746,7158,1},{120747,7159,1},{120748,7160,1},
{120749,7161,1},{120750,7162,1},{120751,7163,1},{120752,7164,1},{120753,7165,1},{120754,7166,1},{120755,7167,1},
{120756,7168,1},{120757,7169,1},{120758,7170,1},{120759,7171,1},{120760,7172,1},{120761,7173,1},{120762,7174,1},
{120763,7175,1},{120764,7176,1},{120765,7177,1},{120766,7178,1},{120767,7179,1},{120768,7180,1},{120769,7181,1},
{120770,7182,1},{120771,7183,1},{120772,7184,1},{120773,7185,1},{120774,7186,1},{120775,7187,1},{120776,7188,1},
{120777,7189,1},{120778,7190,1},{120779,7191,1},{120782,7192,1},{120783,7193,1},{120784,7194,1},{120785,7195,1},
{120786,7196,1},{120787,7197,1},{120788,7198,1},{120789,7199,1},{120790,7200,1},{120791,7201,1},{120792,7202,1},
{120793,7203,1},{120794,7204,1},{120795,7205,1},{120796,7206,1},{120797,7207,1},{120798,7208,1},{120799,7209,1},
{120800,7210,1},{120801,7211,1},{120802,7212,1},{120803,7213,1},{120804,7214,1},{120805,7215,1},{120806,7216,1},
{120807,7217,1},{120808,7218,1},{120809,7219,1},{120810,7220,1},{120811,7221,1},{120812,7222,1},{120813,7223,1},
{120814,7224,1},{120815,7225,1},{120816,7226,1},{120817,7227,1},{120818,7228,1},{120819,7229,1},{120820,7230,1},
{120821,7231,1},{120822,7232,1},{120823,7233,1},{120824,7234,1},{120825,7235,1},{120826,7236,1},{120827,7237,1},
{120828,7238,1},{120829,7239,1},{120830,7240,1},{120831,7241,1},{122928,7242,1},{122929,7243,1},{122930,7244,1},
{122931,7245,1},{122932,7246,1},{122933,7247,1},{122934,7248,1},{122935,7249,1},{122936,7250,1},{122937,7251,1},
{122938,7252,1},{122939,7253,1},{122940,7254,1},{122941,7255,1},{122942,7256,1},{122943,7257,1},{122944,7258,1},
{122945,7259,1},{122946,7260,1},{122947,7261,1},{122948,7262,1},{122949,7263,1},{122950,7264,1},{122951,7265,1},
{122952,7266,1},{122953,7267,1},{122954,7268,1},{122955,7269,1},{122956,7270,1},{122957,7271,1},{122958,7272,1},
{122959,7273,1},{122960,7274,1},{122961,7275,1},{122962,7276,1},{122963,7277,1},{122964,7278,1},{122965,7279,1},
{122966,7280,1},{122967,7281,1},{122968,7282,1},{122969,7283,1},{122970,7284,1},{122971,7285,1},{122972,7286,1},
{122973,7287,1},{122974,7288,1},{122975,7289,1},{122976,7290,1},{122977,7291,1},{122978,7292,1},{122979,7293,1},
{122980,7294,1},{122981,7295,1},{122982,7296,1},{122983,7297,1},{122984,7298,1},{122985,7299,1},{122986,7300,1},
{122987,7301,1},{122988,7302,1},{122989,7303,1},{125184,7304,1},{125185,7305,1},{125186,7306,1},{125187,7307,1},
{125188,7308,1},{125189,7309,1},{125190,7310,1},{125191,7311,1},{125192,7312,1},{125193,7313,1},{125194,7314,1},
{125195,7315,1},{125196,7316,1},{125197,7317,1},{125198,7318,1},{125199,7319,1},{125200,7320,1},{125201,7321,1},
{125202,7322,1},{125203,7323,1},{125204,7324,1},{125205,7325,1},{125206,7326,1},{125207,7327,1},{125208,7328,1},
{125209,7329,1},{125210,7330,1},{125211,7331,1},{125212,7332,1},{125213,7333,1},{125214,7334,1},{125215,7335,1},
{125216,7336,1},{125217,7337,1},{126464,7338,1},{126465,7339,1},{126466,7340,1},{126467,7341,1},{126469,7342,1},
{126470,7343,1},{126471,7344,1},{126472,7345,1},{126473,7346,1},{126474,7347,1},{126475,7348,1},{126476,7349,1},
{126477,7350,1},{126478,7351,1},{126479,7352,1},{126480,7353,1},{126481,7354,1},{126482,7355,1},{126483,7356,1},
{126484,7357,1},{126485,7358,1},{126486,7359,1},{126487,7360,1},{126488,7361,1},{126489,7362,1},{126490,7363,1},
{126491,7364,1},{126492,7365,1},{126493,7366,1},{126494,7367,1},{126495,7368,1},{126497,7369,1},{126498,7370,1},
{126500,7371,1},{126503,7372,1},{126505,7373,1},{126506,7374,1},{126507,7375,1},{126508,7376,1},{126509,7377,1},
{126510,7378,1},{126511,7379,1},{126512,7380,1},{126513,7381,1},{126514,7382,1},{126516,7383,1},{126517,7384,1},
{126518,7385,1},{126519,7386,1},{126521,7387,1},{126523,7388,1},{126530,7389,1},{126535,7390,1},{126537,7391,1},
{126539,7392,1},{126541,7393,1},{126542,7394,1},{126543,7395,1},{126545,7396,1},{126546,7397,1},{126548,7398,1},
{126551,7399,1},{126553,7400,1},{126555,7401,1},{126557,7402,1},{126559,7403,1},{126561,7404,1},{126562,7405,1},
{126564,7406,1},{126567,7407,1},{126568,7408,1},{126569,7409,1},{126570,7410,1},{126572,7411,1},{126573,7412,1},
{126574,7413,1},{126575,7414,1},{126576,7415,1},{126577,7416,1},{126578,7417,1},{126580,7418,1},{126581,7419,1},
{126582,7420,1},{126583,7421,1},{126585,7422,1},{126586,7423,1},{126587,7424,1},{126588,7425,1},{126590,7426,1},
{126592,7427,1},{126593,7428,1},{126594,7429,1},{126595,7430,1},{126596,7431,1},{126597,7432,1},{126598,7433,1},
{126599,7434,1},{126600,7435,1},{126601,7436,1},{126603,7437,1},{126604,7438,1},{126605,7439,1},{126606,7440,1},
{126607,7441,1},{126608,7442,1},{126609,7443,1},{126610,7444,1},{126611,7445,1},{126612,7446,1},{126613,7447,1},
{126614,7448,1},{126615,7449,1},{126616,7450,1},{126617,7451,1},{126618,7452,1},{126619,7453,1},{126625,7454,1},
{126626,7455,1},{126627,7456,1},{126629,7457,1},{126630,7458,1},{126631,7459,1},{126632,7460,1},{126633,7461,1},
{126635,7462,1},{126636,7463,1},{126637,7464,1},{126638,7465,1},{126639,7466,1},{126640,7467,1},{126641,7468,1},
{126642,7469,1},{126643,7470,1},{126644,7471,1},{126645,7472,1},{126646,7473,1},{126647,7474,1},{126648,7475,1},
{126649,7476,1},{126650,7477,1},{126651,7478,1},{127233,7479,2},{127234,7481,2},{127235,7483,2},{127236,7485,2},
{127237,7487,2},{127238,7489,2},{127239,7491,2},{127240,7493,2},{127241,7495,2},{127242,7497,2},{127248,7499,3},
{127249,7502,3},{127250,7505,3},{127251,7508,3},{127252,7511,3},{127253,7514,3},{127254,7517,3},{127255,7520,3},
{127256,7523,3},{127257,7526,3},{127258,7529,3},{127259,7532,3},{127260,7535,3},{127261,7538,3},{127262,7541,3},
{127263,7544,3},{127264,7547,3},{127265,7550,3},{127266,7553,3},{127267,7556,3},{127268,7559,3},{127269,7562,3},
{127270,7565,3},{127271,7568,3},{127272,7571,3},{127273,7574,3},{127274,7577,3},{127275,7580,1},{127276,7581,1},
{127277,7582,2},{127278,7584,2},{127280,7586,1},{127281,7587,1},{127282,7588,1},{127283,7589,1},{127284,7590,1},
{127285,7591,1},{127286,7592,1},{127287,7593,1},{127288,7594,1},{127289,7595,1},{127290,7596,1},{127291,7597,1},
{127292,7598,1},{127293,7599,1},{127294,7600,1},{127295,7601,1},{127296,7602,1},{127297,7603,1},{127298,7604,1},
{127299,7605,1},{127300,7606,1},{127301,7607,1},{127302,7608,1},{127303,7609,1},{127304,7610,1},{127305,7611,1},
{127306,7612,2},{127307,7614,2},{127308,7616,2},{127309,7618,2},{127310,7620,3},{127311,7623,2},{127338,7625,2},
{127339,7627,2},{127340,7629,2},{127376,7631,2},{127488,7633,2},{127489,7635,2},{127490,7637,1},{127504,7638,1},
{127505,7639,1},{127506,7640,1},{127507,7641,1},{127508,7642,1},{127509,7643,1},{127510,7644,1},{127511,7645,1},
{127512,7646,1},{127513,7647,1},{127514,7648,1},{127515,7649,1},{127516,7650,1},{127517,7651,1},{127518,7652,1},
{127519,7653,1},{127520,7654,1},{127521,7655,1},{127522,7656,1},{127523,7657,1},{127524,7658,1},{127525,7659,1},
{127526,7660,1},{127527,7661,1},{127528,7662,1},{127529,7663,1},{127530,7664,1},{127531,7665,1},{127532,7666,1},
{127533,7667,1},{127534,7668,1},{127535,7669,1},{127536,7670,1},{127537,7671,1},{127538,7672,1},{127539,7673,1},
{127540,7674,1},{127541,7675,1},{127542,7676,1},{127543,7677,1},{127544,7678,1},{127545,7679,1},{127546,7680,1},
{127547,7681,1},{127552,7682,3},{127553,7685,3},{127554,7688,3},{127555,7691,3},{127556,7694,3},{127557,7697,3},
{127558,7700,3},{127559,7703,3},{127560,7706,3},{127568,7709,1},{127569,7710,1},{130032,7711,1},{130033,7712,1},
{130034,7713,1},{130035,7714,1},{130036,7715,1},{130037,7716,1},{130038,7717,1},{130039,7718,1},{130040,7719,1},
{130041,7720,1},{194560,7721,1},{194561,7722,1},{194562,7723,1},{194563,7724,1},{194564,7725,1},{194565,7726,1},
{194566,7727,1},{194567,7728,1},{194568,7729,1},{194569,7730,1},{194570,7731,1},{194571,7732,1},{194572,7733,1},
{194573,7734,1},{194574,7735,1},{194575,7736,1},{194576,7737,1},{194577,7738,1},{194578,7739,1},{194579,7740,1},
{194580,7741,1},{194581,7742,1},{194582,7743,1},{194583,7744,1},{194584,7745,1},{194585,7746,1},{194586,7747,1},
{194587,7748,1},{194588,7749,1},{194589,7750,1},{194590,7751,1},{194591,7752,1},{194592,7753,1},{194593,7754,1},
{194594,7755,1},{194595,7756,1},{194596,7757,1},{194597,7758,1},{194598,7759,1},{194599,7760,1},{194600,7761,1},
{194601,7762,1},{194602,7763,1},{194603,7764,1},{194604,7765,1},{194605,7766,1},{194606,7767,1},{194607,7768,1},
{194608,7769,1},{194609,7770,1},{194610,7771,1},{194611,7772,1},{194612,7773,1},{194613,7774,1},{194614,7775,1},
{194615,7776,1},{194616,7777,1},{194617,7778,1},{194618,7779,1},{194619,7780,1},{194620,7781,1},{194621,7782,1},
{194622,7783,1},{194623,7784,1},{194624,7785,1},{194625,7786,1},{194626,7787,1},{194627,7788,1},{194628,7789,1},
{194629,7790,1},{194630,7791,1},{194631,7792,1},{194632,7793,1},{194633,7794,1},{194634,7795,1},{194635,7796,1},
{194636,7797,1},{194637,7798,1},{194638,7799,1},{194639,7800,1},{194640,7801,1},{194641,7802,1},{194642,7803,1},
{194643,7804,1},{194644,7805,1},{194645,7806,1},{194646,7807,1},{194647,7808,1},{194648,7809,1},{194649,7810,1},
{194650,7811,1},{194651,7812,1},{194652,7813,1},{194653,7814,1},{194654,7815,1},{194655,7816,1},{194656,7817,1},
{194657,7818,1},{194658,7819,1},{194659,7820,1},{194660,7821,1},{194661,7822,1},{194662,7823,1},{194663,7824,1},
{194664,7825,1},{194665,7826,1},{194666,7827,1},{194667,7828,1},{194668,7829,1},{194669,7830,1},{194670,7831,1},
{194671,7832,1},{194672,7833,1},{194673,7834,1},{194674,7835,1},{194675,7836,1},{194676,7837,1},{194677,7838,1},
{194678,7839,1},{194679,7840,1},{194680,7841,1},{194681,7842,1},{194682,7843,1},{194683,7844,1},{194684,7845,1},
{194685,7846,1},{194686,7847,1},{194687,7848,1},{194688,7849,1},{194689,7850,1},{194690,7851,1},{194691,7852,1},
{194692,7853,1},{194693,7854,1},{194694,7855,1},{194695,7856,1},{194696,7857,1},{194697,7858,1},{194698,7859,1},
{194699,7860,1},{194700,7861,1},{194701,7862,1},{194702,7863,1},{194703,7864,1},{194704,7865,1},{194705,7866,1},
{194706,7867,1},{194707,7868,1},{194708,7869,1},{194709,7870,1},{194710,7871,1},{194711,7872,1},{194712,7873,1},
{194713,7874,1},{194714,7875,1},{194715,7876,1},{194716,7877,1},{194717,7878,1},{194718,7879,1},{194719,7880,1},
{194720,7881,1},{194721,7882,1},{194722,7883,1},{194723,7884,1},{194724,7885,1},{194725,7886,1},{194726,7887,1},
{194727,7888,1},{194728,7889,1},{194729,7890,1},{194730,7891,1},{194731,7892,1},{194732,7893,1},{194733,7894,1},
{194734,7895,1},{194735,7896,1},{194736,7897,1},{194737,7898,1},{194738,7899,1},{194739,7900,1},{194740,7901,1},
{194741,7902,1},{194742,7903,1},{194743,7904,1},{194744,7905,1},{194745,7906,1},{194746,7907,1},{194747,7908,1},
{194748,7909,1},{194749,7910,1},{194750,7911,1},{194751,7912,1},{194752,7913,1},{194753,7914,1},{194754,7915,1},
{194755,7916,1},{194756,7917,1},{194757,7918,1},{194758,7919,1},{194759,7920,1},{194760,7921,1},{194761,7922,1},
{194762,7923,1},{194763,7924,1},{194764,7925,1},{194765,7926,1},{194766,7927,1},{194767,7928,1},{194768,7929,1},
{194769,7930,1},{194770,7931,1},{194771,7932,1},{194772,7933,1},{194773,7934,1},{194774,7935,1},{194775,7936,1},
{194776,7937,1},{194777,7938,1},{194778,7939,1},{194779,7940,1},{194780,7941,1},{194781,7942,1},{194782,7943,1},
{194783,7944,1},{194784,7945,1},{194785,7946,1},{194786,7947,1},{194787,7948,1},{194788,7949,1},{194789,7950,1},
{194790,7951,1},{194791,7952,1},{194792,7953,1},{194793,7954,1},{194794,7955,1},{194795,7956,1},{194796,7957,1},
{194797,7958,1},{194798,7959,1},{194799,7960,1},{194800,7961,1},{194801,7962,1},{194802,7963,1},{194803,7964,1},
{194804,7965,1},{194805,7966,1},{194806,7967,1},{194807,7968,1},{194808,7969,1},{194809,7970,1},{194810,7971,1},
{194811,7972,1},{194812,7973,1},{194813,7974,1},{194814,7975,1},{194815,7976,1},{194816,7977,1},{194817,7978,1},
{194818,7979,1},{194819,7980,1},{194820,7981,1},{194821,7982,1},{194822,7983,1},{194823,7984,1},{194824,7985,1},
{194825,7986,1},{194826,7987,1},{194827,7988,1},{194828,7989,1},{194829,7990,1},{194830,7991,1},{194831,7992,1},
{194832,7993,1},{194833,7994,1},{194834,7995,1},{194835,7996,1},{194836,7997,1},{194837,7998,1},{194838,7999,1},
{194839,8000,1},{194840,8001,1},{194841,8002,1},{194842,8003,1},{194843,8004,1},{194844,8005,1},{194845,8006,1},
{194846,8007,1},{194847,8008,1},{194848,8009,1},{194849,8010,1},{194850,8011,1},{194851,8012,1},{194852,8013,1},
{194853,8014,1},{194854,8015,1},{194855,8016,1},{194856,8017,1},{194857,8018,1},{194858,8019,1},{194859,8020,1},
{194860,8021,1},{194861,8022,1},{194862,8023,1},{194863,8024,1},{194864,8025,1},{194865,8026,1},{194866,8027,1},
{194867,8028,1},{194868,8029,1},{194869,8030,1},{194870,8031,1},{194871,8032,1},{194872,8033,1},{194873,8034,1},
{194874,8035,1},{194875,8036,1},{194876,8037,1},{194877,8038,1},{194878,8039,1},{194879,8040,1},{194880,8041,1},
{194881,8042,1},{194882,8043,1},{194883,8044,1},{194884,8045,1},{194885,8046,1},{194886,8047,1},{194887,8048,1},
{194888,8049,1},{194889,8050,1},{194890,8051,1},{194891,8052,1},{194892,8053,1},{194893,8054,1},{194894,8055,1},
{194895,8056,1},{194896,8057,1},{194897,8058,1},{194898,8059,1},{194899,8060,1},{194900,8061,1},{194901,8062,1},
{194902,8063,1},{194903,8064,1},{194904,8065,1},{194905,8066,1},{194906,8067,1},{194907,8068,1},{194908,8069,1},
{194909,8070,1},{194910,8071,1},{194911,8072,1},{194912,8073,1},{194913,8074,1},{194914,8075,1},{194915,8076,1},
{194916,8077,1},{194917,8078,1},{194918,8079,1},{194919,8080,1},{194920,8081,1},{194921,8082,1},{194922,8083,1},
{194923,8084,1},{194924,8085,1},{194925,8086,1},{194926,8087,1},{194927,8088,1},{194928,8089,1},{194929,8090,1},
{194930,8091,1},{194931,8092,1},{194932,8093,1},{194933,8094,1},{194934,8095,1},{194935,8096,1},{194936,8097,1},
{194937,8098,1},{194938,8099,1},{194939,8100,1},{194940,8101,1},{194941,8102,1},{194942,8103,1},{194943,8104,1},
{194944,8105,1},{194945,8106,1},{194946,8107,1},{194947,8108,1},{194948,8109,1},{194949,8110,1},{194950,8111,1},
{194951,8112,1},{194952,8113,1},{194953,8114,1},{194954,8115,1},{194955,8116,1},{194956,8117,1},{194957,8118,1},
{194958,8119,1},{194959,8120,1},{194960,8121,1},{194961,8122,1},{194962,8123,1},{194963,8124,1},{194964,8125,1},
{194965,8126,1},{194966,8127,1},{194967,8128,1},{194968,8129,1},{194969,8130,1},{194970,8131,1},{194971,8132,1},
{194972,8133,1},{194973,8134,1},{194974,8135,1},{194975,8136,1},{194976,8137,1},{194977,8138,1},{194978,8139,1},
{194979,8140,1},{194980,8141,1},{194981,8142,1},{194982,8143,1},{194983,8144,1},{194984,8145,1},{194985,8146,1},
{194986,8147,1},{194987,8148,1},{194988,8149,1},{194989,8150,1},{194990,8151,1},{194991,8152,1},{194992,8153,1},
{194993,8154,1},{194994,8155,1},{194995,8156,1},{194996,8157,1},{194997,8158,1},{194998,8159,1},{194999,8160,1},
{195000,8161,1},{195001,8162,1},{195002,8163,1},{195003,8164,1},{195004,8165,1},{195005,8166,1},{195006,8167,1},
{195007,8168,1},{195008,8169,1},{195009,8170,1},{195010,8171,1},{195011,8172,1},{195012,8173,1},{195013,8174,1},
{195014,8175,1},{195015,8176,1},{195016,8177,1},{195017,8178,1},{195018,8179,1},{195019,8180,1},{195020,8181,1},
{195021,8182,1},{195022,8183,1},{195023,8184,1},{195024,8185,1},{195025,8186,1},{195026,8187,1},{195027,8188,1},
{195028,8189,1},{195029,8190,1},{195030,8191,1},{195031,8192,1},{195032,8193,1},{195033,8194,1},{195034,8195,1},
{195035,8196,1},{195036,8197,1},{195037,8198,1},{195038,8199,1},{195039,8200,1},{195040,8201,1},{195041,8202,1},
{195042,8203,1},{195043,8204,1},{195044,8205,1},{195045,8206,1},{195046,8207,1},{195047,8208,1},{195048,8209,1},
{195049,8210,1},{195050,8211,1},{195051,8212,1},{195052,8213,1},{195053,8214,1},{195054,8215,1},{195055,8216,1},
{195056,8217,1},{195057,8218,1},{195058,8219,1},{195059,8220,1},{195060,8221,1},{195061,8222,1},{195062,8223,1},
{195063,8224,1},{195064,8225,1},{195065,8226,1},{195066,8227,1},{195067,8228,1},{195068,8229,1},{195069,8230,1},
{195070,8231,1},{195071,8232,1},{195072,8233,1},{195073,8234,1},{195074,8235,1},{195075,8236,1},{195076,8237,1},
{195077,8238,1},{195078,8239,1},{195079,8240,1},{195080,8241,1},{195081,8242,1},{195082,8243,1},{195083,8244,1},
{195084,8245,1},{195085,8246,1},{195086,8247,1},{195087,8248,1},{195088,8249,1},{195089,8250,1},{195090,8251,1},
{195091,8252,1},{195092,8253,1},{195093,8254,1},{195094,8255,1},{195095,8256,1},{195096,8257,1},{195097,8258,1},
{195098,8259,1},{195099,8260,1},{195100,8261,1},{195101,8262,1},
};
static const Rng kJoin[] = {
{173,173,2},{768,831,2},{834,834,2},{838,879,2},{1155,1161,2},{1425,1469,2},{1471,1471,2},{1473,1474,2},{1476,1477,2},
{1479,1479,2},{1552,1562,2},{1564,1564,2},{1568,1568,1},{1570,1573,3},{1574,1574,1},{1575,1575,3},{1576,1576,1},
{1577,1577,3},{1578,1582,1},{1583,1586,3},{1587,1599,1},{1601,1607,1},{1608,1608,3},{1609,1610,1},{1611,1631,2},
{1646,1647,1},{1648,1648,2},{1649,1651,3},{1657,1671,1},{1672,1689,3},{1690,1727,1},{1728,1728,3},{1729,1730,1},
{1731,1739,3},{1740,1740,1},{1741,1741,3},{1742,1742,1},{1743,1743,3},{1744,1745,1},{1746,1747,3},{1749,1749,3},
{1750,1756,2},{1759,1764,2},{1767,1768,2},{1770,1773,2},{1774,1775,3},{1786,1788,1},{1791,1791,1},{1807,1807,2},
{1808,1808,3},{1809,1809,2},{1810,1812,1},{1813,1817,3},{1818,1821,1},{1822,1822,3},{1823,1831,1},{1832,1832,3},
{1833,1833,1},{1834,1834,3},{1835,1835,1},{1836,1836,3},{1837,1838,1},{1839,1839,3},{1840,1866,2},{1869,1869,3},
{1870,1880,1},{1881,1883,3},{1884,1898,1},{1899,1900,3},{1901,1904,1},{1905,1905,3},{1906,1906,1},{1907,1908,3},
{1909,1911,1},{1912,1913,3},{1914,1919,1},{1958,1968,2},{1994,2026,1},{2027,2035,2},{2045,2045,2},{2070,2073,2},
{2075,2083,2},{2085,2087,2},{2089,2093,2},{2112,2112,3},{2113,2117,1},{2118,2119,3},{2120,2120,1},{2121,2121,3},
{2122,2131,1},{2132,2132,3},{2133,2133,1},{2134,2136,3},{2137,2139,2},{2144,2144,1},{2146,2149,1},{2151,2151,3},
{2152,2152,1},{2153,2154,3},{2160,2178,3},{2182,2182,1},{2185,2189,1},{2190,2190,3},{2191,2191,1},{2199,2207,2},
{2208,2217,1},{2218,2220,3},{2222,2222,3},{2223,2224,1},{2225,2226,3},{2227,2232,1},{2233,2233,3},{2234,2248,1},
{2250,2273,2},{2275,2306,2},{2362,2362,2},{2364,2364,2},{2369,2376,2},{2381,2381,2},{2385,2391,2},{2402,2403,2},
{2433,2433,2},{2492,2492,2},{2497,2500,2},{2509,2509,2},{2530,2531,2},{2558,2558,2},{2561,2562,2},{2620,2620,2},
{2625,2626,2},{2631,2632,2},{2635,2637,2},{2641,2641,2},{2672,2673,2},{2677,2677,2},{2689,2690,2},{2748,2748,2},
{2753,2757,2},{2759,2760,2},{2765,2765,2},{2786,2787,2},{2810,2815,2},{2817,2817,2},{2876,2876,2},{2879,2879,2},
{2881,2884,2},{2893,2893,2},{2901,2902,2},{2914,2915,2},{2946,2946,2},{3008,3008,2},{3021,3021,2},{3072,3072,2},
{3076,3076,2},{3132,3132,2},{3134,3136,2},{3142,3144,2},{3146,3149,2},{3157,3158,2},{3170,3171,2},{3201,3201,2},
{3260,3260,2},{3263,3263,2},{3270,3270,2},{3276,3277,2},{3298,3299,2},{3328,3329,2},{3387,3388,2},{3393,3396,2},
{3405,3405,2},{3426,3427,2},{3457,3457,2},{3530,3530,2},{3538,3540,2},{3542,3542,2},{3633,3633,2},{3636,3642,2},
{3655,3662,2},{3761,3761,2},{3764,3772,2},{3784,3790,2},{3864,3865,2},{3893,3893,2},{3895,3895,2},{3897,3897,2},
{3953,3954,2},{3956,3956,2},{3962,3966,2},{3968,3968,2},{3970,3972,2},{3974,3975,2},{3981,3986,2},{3988,3991,2},
{3993,3996,2},{3998,4001,2},{4003,4006,2},{4008,4011,2},{4013,4024,2},{4026,4028,2},{4038,4038,2},{4141,4144,2},
{4146,4151,2},{4153,4154,2},{4157,4158,2},{4184,4185,2},{4190,4192,2},{4209,4212,2},{4226,4226,2},{4229,4230,2},
{4237,4237,2},{4253,4253,2},{4957,4959,2},{5906,5908,2},{5938,5939,2},{5970,5971,2},{6002,6003,2},{6068,6069,2},
{6071,6077,2},{6086,6086,2},{6089,6099,2},{6109,6109,2},{6151,6151,1},{6155,6157,2},{6159,6159,2},{6176,6264,1},
{6277,6278,2},{6279,6312,1},{6313,6313,2},{6314,6314,1},{6432,6434,2},{6439,6440,2},{6450,6450,2},{6457,6459,2},
{6679,6680,2},{6683,6683,2},{6742,6742,2},{6744,6750,2},{6752,6752,2},{6754,6754,2},{6757,6764,2},{6771,6780,2},
{6783,6783,2},{6832,6877,2},{6880,6891,2},{6912,6915,2},{6964,6964,2},{6966,6970,2},{6972,6972,2},{6978,6978,2},
{7019,7027,2},{7040,7041,2},{7074,7077,2},{7080,7081,2},{7083,7085,2},{7142,7142,2},{7144,7145,2},{7149,7149,2},
{7151,7153,2},{7212,7219,2},{7222,7223,2},{7376,7378,2},{7380,7392,2},{7394,7400,2},{7405,7405,2},{7412,7412,2},
{7416,7417,2},{7616,7679,2},{8203,8203,2},{8206,8207,2},{8234,8238,2},{8288,8292,2},{8298,8303,2},{8400,8432,2},
{11503,11505,2},{11647,11647,2},{11744,11775,2},{12330,12333,2},{12441,12442,2},{42607,42610,2},{42612,42621,2},
{42654,42655,2},{42736,42737,2},{43010,43010,2},{43014,43014,2},{43019,43019,2},{43045,43046,2},{43052,43052,2},
{43072,43121,1},{43122,43122,0},{43204,43205,2},{43232,43249,2},{43263,43263,2},{43302,43309,2},{43335,43345,2},
{43392,43394,2},{43443,43443,2},{43446,43449,2},{43452,43453,2},{43493,43493,2},{43561,43566,2},{43569,43570,2},
{43573,43574,2},{43587,43587,2},{43596,43596,2},{43644,43644,2},{43696,43696,2},{43698,43700,2},{43703,43704,2},
{43710,43711,2},{43713,43713,2},{43756,43757,2},{43766,43766,2},{44005,44005,2},{44008,44008,2},{44013,44013,2},
{64286,64286,2},{65024,65039,2},{65056,65071,2},{65279,65279,2},{65529,65531,2},{66045,66045,2},{66272,66272,2},
{66422,66426,2},{68097,68099,2},{68101,68102,2},{68108,68111,2},{68152,68154,2},{68159,68159,2},{68288,68292,1},
{68293,68293,3},{68295,68295,3},{68297,68298,3},{68301,68301,0},{68302,68306,3},{68307,68310,1},{68311,68311,0},
{68312,68316,1},{68317,68317,3},{68318,68320,1},{68321,68321,3},{68324,68324,3},{68325,68326,2},{68331,68334,1},
{68335,68335,3},{68480,68480,1},{68481,68481,3},{68482,68482,1},{68483,68485,3},{68486,68488,1},{68489,68489,3},
{68490,68491,1},{68492,68492,3},{68493,68493,1},{68494,68495,3},{68496,68496,1},{68497,68497,3},{68521,68524,3},
{68525,68526,1},{68864,68864,0},{68865,68897,1},{68898,68898,3},{68899,68899,1},{68900,68903,2},{68969,68973,2},
{69291,69292,2},{69314,69314,3},{69315,69316,1},{69318,69319,1},{69370,69375,2},{69424,69426,1},{69427,69427,3},
{69428,69444,1},{69446,69456,2},{69457,69459,1},{69460,69460,3},{69488,69491,1},{69492,69493,3},{69494,69505,1},
{69506,69509,2},{69552,69552,1},{69554,69555,1},{69556,69558,3},{69560,69560,1},{69561,69562,3},{69563,69564,1},
{69565,69565,3},{69566,69567,1},{69569,69569,1},{69570,69571,3},{69572,69572,1},{69577,69577,3},{69578,69578,1},
{69579,69579,0},{69633,69633,2},{69688,69702,2},{69744,69744,2},{69747,69748,2},{69759,69761,2},{69811,69814,2},
{69817,69818,2},{69826,69826,2},{69888,69890,2},{69927,69931,2},{69933,69940,2},{70003,70003,2},{70016,70017,2},
{70070,70078,2},{70089,70092,2},{70095,70095,2},{70191,70193,2},{70196,70196,2},{70198,70199,2},{70206,70206,2},
{70209,70209,2},{70367,70367,2},{70371,70378,2},{70400,70401,2},{70459,70460,2},{70464,70464,2},{70502,70508,2},
{70512,70516,2},{70587,70592,2},{70606,70606,2},{70608,70608,2},{70610,70610,2},{70625,70626,2},{70712,70719,2},
{70722,70724,2},{70726,70726,2},{70750,70750,2},{70835,70840,2},{70842,70842,2},{70847,70848,2},{70850,70851,2},
{71090,71093,2},{71100,71101,2},{71103,71104,2},{71132,71133,2},{71219,71226,2},{71229,71229,2},{71231,71232,2},
{71339,71339,2},{71341,71341,2},{71344,71349,2},{71351,71351,2},{71453,71453,2},{71455,71455,2},{71458,71461,2},
{71463,71467,2},{71727,71735,2},{71737,71738,2},{71995,71996,2},{71998,71998,2},{72003,72003,2},{72148,72151,2},
{72154,72155,2},{72160,72160,2},{72193,72202,2},{72243,72248,2},{72251,72254,2},{72263,72263,2},{72273,72278,2},
{72281,72283,2},{72330,72342,2},{72344,72345,2},{72544,72544,2},{72546,72548,2},{72550,72550,2},{72752,72758,2},
{72760,72765,2},{72767,72767,2},{72850,72871,2},{72874,72880,2},{72882,72883,2},{72885,72886,2},{73009,73014,2},
{73018,73018,2},{73020,73021,2},{73023,73029,2},{73031,73031,2},{73104,73105,2},{73109,73109,2},{73111,73111,2},
{73459,73460,2},{73472,73473,2},{73526,73530,2},{73536,73536,2},{73538,73538,2},{73562,73562,2},{78896,78912,2},
{78919,78933,2},{90398,90409,2},{90413,90415,2},{92912,92916,2},{92976,92982,2},{94031,94031,2},{94095,94098,2},
{94180,94180,2},{113821,113822,2},{113824,113827,2},{118528,118573,2},{118576,118598,2},{119143,119145,2},
{119155,119170,2},{119173,119179,2},{119210,119213,2},{119362,119364,2},{121344,121398,2},{121403,121452,2},
{121461,121461,2},{121476,121476,2},{121499,121503,2},{121505,121519,2},{122880,122886,2},{122888,122904,2},
{122907,122913,2},{122915,122916,2},{122918,122922,2},{123023,123023,2},{123184,123190,2},{123566,123566,2},
{123628,123631,2},{124140,124143,2},{124398,124399,2},{124643,124643,2},{124646,124646,2},{124654,124655,2},
{124661,124661,2},{125136,125142,2},{125218,125251,1},{125252,125259,2},{917505,917505,2},{917536,917631,2},
{917760,917999,2},
};
static const uint32_t kVirama[] = {
2381,2509,2637,2765,2893,3021,3149,3277,3387,3388,3405,3530,3642,3770,3972,4153,4154,5908,5909,5940,6098,6752,6980,
7082,7083,7154,7155,11647,43014,43052,43204,43347,43456,43766,44013,68159,69702,69744,69759,69817,69939,69940,70080,
70197,70378,70477,70606,70607,70608,70722,70850,71103,71231,71350,71467,71737,71997,71998,72160,72244,72263,72345,
72767,73028,73029,73111,73537,73538,90415,
};
static const Rng kBidi[] = {
{0,8,9},{9,9,12},{10,10,11},{11,11,12},{12,12,13},{13,13,11},{14,27,9},{28,30,11},{31,31,12},{32,32,13},{33,34,8},
{35,37,7},{38,42,8},{43,43,5},{44,44,6},{45,45,5},{46,47,6},{48,57,4},{58,58,6},{59,64,8},{91,96,8},{123,126,8},
{127,132,9},{133,133,11},{134,159,9},{160,160,6},{161,161,8},{162,165,7},{166,169,8},{171,172,8},{173,173,9},
{174,175,8},{176,177,7},{178,179,4},{180,180,8},{182,184,8},{185,185,4},{187,191,8},{215,215,8},{247,247,8},
{697,698,8},{706,719,8},{722,735,8},{741,749,8},{751,767,8},{768,879,10},{884,885,8},{894,894,8},{900,901,8},
{903,903,8},{1014,1014,8},{1155,1161,10},{1418,1418,8},{1421,1422,8},{1423,1423,7},{1424,1424,1},{1425,1469,10},
{1470,1470,1},{1471,1471,10},{1472,1472,1},{1473,1474,10},{1475,1475,1},{1476,1477,10},{1478,1478,1},{1479,1479,10},
{1480,1535,1},{1536,1541,3},{1542,1543,8},{1544,1544,2},{1545,1546,7},{1547,1547,2},{1548,1548,6},{1549,1549,2},
{1550,1551,8},{1552,1562,10},{1563,1610,2},{1611,1631,10},{1632,1641,3},{1642,1642,7},{1643,1644,3},{1645,1647,2},
{1648,1648,10},{1649,1749,2},{1750,1756,10},{1757,1757,3},{1758,1758,8},{1759,1764,10},{1765,1766,2},{1767,1768,10},
{1769,1769,8},{1770,1773,10},{1774,1775,2},{1776,1785,4},{1786,1808,2},{1809,1809,10},{1810,1839,2},{1840,1866,10},
{1867,1957,2},{1958,1968,10},{1969,1983,2},{1984,2026,1},{2027,2035,10},{2036,2037,1},{2038,2041,8},{2042,2044,1},
{2045,2045,10},{2046,2069,1},{2070,2073,10},{2074,2074,1},{2075,2083,10},{2084,2084,1},{2085,2087,10},{2088,2088,1},
{2089,2093,10},{2094,2136,1},{2137,2139,10},{2140,2143,1},{2144,2154,2},{2155,2159,1},{2160,2191,2},{2192,2193,3},
{2194,2198,1},{2199,2207,10},{2208,2249,2},{2250,2273,10},{2274,2274,3},{2275,2306,10},{2362,2362,10},{2364,2364,10},
{2369,2376,10},{2381,2381,10},{2385,2391,10},{2402,2403,10},{2433,2433,10},{2492,2492,10},{2497,2500,10},
{2509,2509,10},{2530,2531,10},{2546,2547,7},{2555,2555,7},{2558,2558,10},{2561,2562,10},{2620,2620,10},{2625,2626,10},
{2631,2632,10},{2635,2637,10},{2641,2641,10},{2672,2673,10},{2677,2677,10},{2689,2690,10},{2748,2748,10},
{2753,2757,10},{2759,2760,10},{2765,2765,10},{2786,2787,10},{2801,2801,7},{2810,2815,10},{2817,2817,10},
{2876,2876,10},{2879,2879,10},{2881,2884,10},{2893,2893,10},{2901,2902,10},{2914,2915,10},{2946,2946,10},
{3008,3008,10},{3021,3021,10},{3059,3064,8},{3065,3065,7},{3066,3066,8},{3072,3072,10},{3076,3076,10},{3132,3132,10},
{3134,3136,10},{3142,3144,10},{3146,3149,10},{3157,3158,10},{3170,3171,10},{3192,3198,8},{3201,3201,10},
{3260,3260,10},{3276,3277,10},{3298,3299,10},{3328,3329,10},{3387,3388,10},{3393,3396,10},{3405,3405,10},
{3426,3427,10},{3457,3457,10},{3530,3530,10},{3538,3540,10},{3542,3542,10},{3633,3633,10},{3636,3642,10},
{3647,3647,7},{3655,3662,10},{3761,3761,10},{3764,3772,10},{3784,3790,10},{3864,3865,10},{3893,3893,10},
{3895,3895,10},{3897,3897,10},{3898,3901,8},{3953,3966,10},{3968,3972,10},{3974,3975,10},{3981,3991,10},
{3993,4028,10},{4038,4038,10},{4141,4144,10},{4146,4151,10},{4153,4154,10},{4157,4158,10},{4184,4185,10},
{4190,4192,10},{4209,4212,10},{4226,4226,10},{4229,4230,10},{4237,4237,10},{4253,4253,10},{4957,4959,10},
{5008,5017,8},{5120,5120,8},{5760,5760,13},{5787,5788,8},{5906,5908,10},{5938,5939,10},{5970,5971,10},{6002,6003,10},
{6068,6069,10},{6071,6077,10},{6086,6086,10},{6089,6099,10},{6107,6107,7},{6109,6109,10},{6128,6137,8},{6144,6154,8},
{6155,6157,10},{6158,6158,9},{6159,6159,10},{6277,6278,10},{6313,6313,10},{6432,6434,10},{6439,6440,10},
{6450,6450,10},{6457,6459,10},{6464,6464,8},{6468,6469,8},{6622,6655,8},{6679,6680,10},{6683,6683,10},{6742,6742,10},
{6744,6750,10},{6752,6752,10},{6754,6754,10},{6757,6764,10},{6771,6780,10},{6783,6783,10},{6832,6877,10},
{6880,6891,10},{6912,6915,10},{6964,6964,10},{6966,6970,10},{6972,6972,10},{6978,6978,10},{7019,7027,10},
{7040,7041,10},{7074,7077,10},{7080,7081,10},{7083,7085,10},{7142,7142,10},{7144,7145,10},{7149,7149,10},
{7151,7153,10},{7212,7219,10},{7222,7223,10},{7376,7378,10},{7380,7392,10},{7394,7400,10},{7405,7405,10},
{7412,7412,10},{7416,7417,10},{7616,7679,10},{8125,8125,8},{8127,8129,8},{8141,8143,8},{8157,8159,8},{8173,8175,8},
{8189,8190,8},{8192,8202,13},{8203,8205,9},{8207,8207,1},{8208,8231,8},{8232,8232,13},{8233,8233,11},{8234,8234,17},
{8235,8235,18},{8236,8236,19},{8237,8237,15},{8238,8238,16},{8239,8239,6},{8240,8244,7},{8245,8259,8},{8260,8260,6},
{8261,8286,8},{8287,8287,13},{8288,8293,9},{8294,8294,20},{8295,8295,21},{8296,8296,22},{8297,8297,23},{8298,8303,9},
{8304,8304,4},{8308,8313,4},{8314,8315,5},{8316,8318,8},{8320,8329,4},{8330,8331,5},{8332,8334,8},{8352,8399,7},
{8400,8432,10},{8448,8449,8},{8451,8454,8},{8456,8457,8},{8468,8468,8},{8470,8472,8},{8478,8483,8},{8485,8485,8},
{8487,8487,8},{8489,8489,8},{8494,8494,7},{8506,8507,8},{8512,8516,8},{8522,8525,8},{8528,8543,8},{8585,8587,8},
{8592,8721,8},{8722,8722,5},{8723,8723,7},{8724,9013,8},{9083,9108,8},{9110,9257,8},{9280,9290,8},{9312,9351,8},
{9352,9371,4},{9450,9899,8},{9901,10239,8},{10496,11123,8},{11126,11263,8},{11493,11498,8},{11503,11505,10},
{11513,11519,8},{11647,11647,10},{11744,11775,10},{11776,11869,8},{11904,11929,8},{11931,12019,8},{12032,12245,8},
{12272,12287,8},{12288,12288,13},{12289,12292,8},{12296,12320,8},{12330,12333,10},{12336,12336,8},{12342,12343,8},
{12349,12351,8},{12441,12442,10},{12443,12444,8},{12448,12448,8},{12539,12539,8},{12736,12773,8},{12783,12783,8},
{12829,12830,8},{12880,12895,8},{12924,12926,8},{12977,12991,8},{13004,13007,8},{13175,13178,8},{13278,13279,8},
{13311,13311,8},{19904,19967,8},{42128,42182,8},{42509,42511,8},{42607,42610,10},{42611,42611,8},{42612,42621,10},
{42622,42623,8},{42654,42655,10},{42736,42737,10},{42752,42785,8},{42888,42888,8},{43010,43010,10},{43014,43014,10},
{43019,43019,10},{43045,43046,10},{43048,43051,8},{43052,43052,10},{43064,43065,7},{43124,43127,8},{43204,43205,10},
{43232,43249,10},{43263,43263,10},{43302,43309,10},{43335,43345,10},{43392,43394,10},{43443,43443,10},
{43446,43449,10},{43452,43453,10},{43493,43493,10},{43561,43566,10},{43569,43570,10},{43573,43574,10},
{43587,43587,10},{43596,43596,10},{43644,43644,10},{43696,43696,10},{43698,43700,10},{43703,43704,10},
{43710,43711,10},{43713,43713,10},{43756,43757,10},{43766,43766,10},{43882,43883,8},{44005,44005,10},{44008,44008,10},
{44013,44013,10},{64285,64285,1},{64286,64286,10},{64287,64296,1},{64297,64297,5},{64298,64335,1},{64336,64450,2},
{64451,64466,8},{64467,64829,2},{64830,64847,8},{64848,64911,2},{64912,64913,8},{64914,64967,2},{64968,64975,8},
{64976,65007,9},{65008,65020,2},{65021,65023,8},{65024,65039,10},{65040,65049,8},{65056,65071,10},{65072,65103,8},
{65104,65104,6},{65105,65105,8},{65106,65106,6},{65108,65108,8},{65109,65109,6},{65110,65118,8},{65119,65119,7},
{65120,65121,8},{65122,65123,5},{65124,65126,8},{65128,65128,8},{65129,65130,7},{65131,65131,8},{65136,65278,2},
{65279,65279,9},{65281,65282,8},{65283,65285,7},{65286,65290,8},{65291,65291,5},{65292,65292,6},{65293,65293,5},
{65294,65295,6},{65296,65305,4},{65306,65306,6},{65307,65312,8},{65339,65344,8},{65371,65381,8},{65504,65505,7},
{65506,65508,8},{65509,65510,7},{65512,65518,8},{65520,65528,9},{65529,65533,8},{65534,65535,9},{65793,65793,8},
{65856,65932,8},{65936,65948,8},{65952,65952,8},{66045,66045,10},{66272,66272,10},{66273,66299,4},{66422,66426,10},
{67584,67870,1},{67871,67871,8},{67872,68096,1},{68097,68099,10},{68100,68100,1},{68101,68102,10},{68103,68107,1},
{68108,68111,10},{68112,68151,1},{68152,68154,10},{68155,68158,1},{68159,68159,10},{68160,68324,1},{68325,68326,10},
{68327,68408,1},{68409,68415,8},{68416,68863,1},{68864,68899,2},{68900,68903,10},{68904,68911,1},{68912,68921,3},
{68922,68927,1},{68928,68937,3},{68938,68968,1},{68969,68973,10},{68974,68974,8},{68975,69215,1},{69216,69246,3},
{69247,69290,1},{69291,69292,10},{69293,69313,1},{69314,69319,2},{69320,69327,1},{69328,69336,8},{69337,69369,1},
{69370,69375,10},{69376,69423,1},{69424,69445,2},{69446,69456,10},{69457,69465,2},{69466,69505,1},{69506,69509,10},
{69510,69631,1},{69633,69633,10},{69688,69702,10},{69714,69733,8},{69744,69744,10},{69747,69748,10},{69759,69761,10},
{69811,69814,10},{69817,69818,10},{69826,69826,10},{69888,69890,10},{69927,69931,10},{69933,69940,10},
{70003,70003,10},{70016,70017,10},{70070,70078,10},{70089,70092,10},{70095,70095,10},{70191,70193,10},
{70196,70196,10},{70198,70199,10},{70206,70206,10},{70209,70209,10},{70367,70367,10},{70371,70378,10},
{70400,70401,10},{70459,70460,10},{70464,70464,10},{70502,70508,10},{70512,70516,10},{70587,70592,10},
{70606,70606,10},{70608,70608,10},{70610,70610,10},{70625,70626,10},{70712,70719,10},{70722,70724,10},
{70726,70726,10},{70750,70750,10},{70835,70840,10},{70842,70842,10},{70847,70848,10},{70850,70851,10},
{71090,71093,10},{71100,71101,10},{71103,71104,10},{71132,71133,10},{71219,71226,10},{71229,71229,10},
{71231,71232,10},{71264,71276,8},{71339,71339,10},{71341,71341,10},{71344,71349,10},{71351,71351,10},{71453,71453,10},
{71455,71455,10},{71458,71461,10},{71463,71467,10},{71727,71735,10},{71737,71738,10},{71995,71996,10},
{71998,71998,10},{72003,72003,10},{72148,72151,10},{72154,72155,10},{72160,72160,10},{72193,72198,10},
{72201,72202,10},{72243,72248,10},{72251,72254,10},{72263,72263,10},{72273,72278,10},{72281,72283,10},
{72330,72342,10},{72344,72345,10},{72544,72544,10},{72546,72548,10},{72550,72550,10},{72752,72758,10},
{72760,72765,10},{72850,72871,10},{72874,72880,10},{72882,72883,10},{72885,72886,10},{73009,73014,10},
{73018,73018,10},{73020,73021,10},{73023,73029,10},{73031,73031,10},{73104,73105,10},{73109,73109,10},
{73111,73111,10},{73459,73460,10},{73472,73473,10},{73526,73530,10},{73536,73536,10},{73538,73538,10},
{73562,73562,10},{73685,73692,8},{73693,73696,7},{73697,73713,8},{78912,78912,10},{78919,78933,10},{90398,90409,10},
{90413,90415,10},{92912,92916,10},{92976,92982,10},{94031,94031,10},{94095,94098,10},{94178,94178,8},{94180,94180,10},
{113821,113822,10},{113824,113827,9},{117760,117973,8},{118000,118009,4},{118010,118012,8},{118016,118451,8},
{118458,118480,8},{118496,118512,8},{118528,118573,10},{118576,118598,10},{119143,119145,10},{119155,119162,9},
{119163,119170,10},{119173,119179,10},{119210,119213,10},{119273,119274,8},{119296,119361,8},{119362,119364,10},
{119365,119365,8},{119552,119638,8},{120513,120513,8},{120539,120539,8},{120571,120571,8},{120597,120597,8},
{120629,120629,8},{120655,120655,8},{120687,120687,8},{120713,120713,8},{120745,120745,8},{120771,120771,8},
{120782,120831,4},{121344,121398,10},{121403,121452,10},{121461,121461,10},{121476,121476,10},{121499,121503,10},
{121505,121519,10},{122880,122886,10},{122888,122904,10},{122907,122913,10},{122915,122916,10},{122918,122922,10},
{123023,123023,10},{123184,123190,10},{123566,123566,10},{123628,123631,10},{123647,123647,7},{124140,124143,10},
{124398,124399,10},{124643,124643,10},{124646,124646,10},{124654,124655,10},{124661,124661,10},{124928,125135,1},
{125136,125142,10},{125143,125251,1},{125252,125258,10},{125259,126064,1},{126065,126132,2},{126133,126208,1},
{126209,126269,2},{126270,126463,1},{126464,126703,2},{126704,126705,8},{126706,126719,2},{126720,126975,1},
{126976,127019,8},{127024,127123,8},{127136,127150,8},{127153,127167,8},{127169,127183,8},{127185,127221,8},
{127232,127242,4},{127243,127247,8},{127279,127279,8},{127338,127343,8},{127405,127405,8},{127584,127589,8},
{127744,128728,8},{128732,128748,8},{128752,128764,8},{128768,128985,8},{128992,129003,8},{129008,129008,8},
{129024,129035,8},{129040,129095,8},{129104,129113,8},{129120,129159,8},{129168,129197,8},{129200,129211,8},
{129216,129217,8},{129232,129240,8},{129280,129623,8},{129632,129645,8},{129648,129660,8},{129664,129674,8},
{129678,129734,8},{129736,129736,8},{129741,129756,8},{129759,129770,8},{129775,129784,8},{129792,129938,8},
{129940,130031,8},{130032,130041,4},{130042,130042,8},{131070,131071,9},{196606,196607,9},{262142,262143,9},
{327678,327679,9},{393214,393215,9},{458750,458751,9},{524286,524287,9},{589822,589823,9},{655358,655359,9},
{720894,720895,9},{786430,786431,9},{851966,851967,9},{917502,917759,9},{917760,917999,10},{918000,921599,9},
{983038,983039,9},{1048574,1048575,9},{1114110,1114111,9},
};
static const Rng kMark[] = {
{768,879,1},{1155,1161,1},{1425,1469,1},{1471,1471,1},{1473,1474,1},{1476,1477,1},{1479,1479,1},{1552,1562,1},
{1611,1631,1},{1648,1648,1},{1750,1756,1},{1759,1764,1},{1767,1768,1},{1770,1773,1},{1809,1809,1},{1840,1866,1},
{1958,1968,1},{2027,2035,1},{2045,2045,1},{2070,2073,1},{2075,2083,1},{2085,2087,1},{2089,2093,1},{2137,2139,1},
{2199,2207,1},{2250,2273,1},{2275,2307,1},{2362,2364,1},{2366,2383,1},{2385,2391,1},{2402,2403,1},{2433,2435,1},
{2492,2492,1},{2494,2500,1},{2503,2504,1},{2507,2509,1},{2519,2519,1},{2530,2531,1},{2558,2558,1},{2561,2563,1},
{2620,2620,1},{2622,2626,1},{2631,2632,1},{2635,2637,1},{2641,2641,1},{2672,2673,1},{2677,2677,1},{2689,2691,1},
{2748,2748,1},{2750,2757,1},{2759,2761,1},{2763,2765,1},{2786,2787,1},{2810,2815,1},{2817,2819,1},{2876,2876,1},
{2878,2884,1},{2887,2888,1},{2891,2893,1},{2901,2903,1},{2914,2915,1},{2946,2946,1},{3006,3010,1},{3014,3016,1},
{3018,3021,1},{3031,3031,1},{3072,3076,1},{3132,3132,1},{3134,3140,1},{3142,3144,1},{3146,3149,1},{3157,3158,1},
{3170,3171,1},{3201,3203,1},{3260,3260,1},{3262,3268,1},{3270,3272,1},{3274,3277,1},{3285,3286,1},{3298,3299,1},
{3315,3315,1},{3328,3331,1},{3387,3388,1},{3390,3396,1},{3398,3400,1},{3402,3405,1},{3415,3415,1},{3426,3427,1},
{3457,3459,1},{3530,3530,1},{3535,3540,1},{3542,3542,1},{3544,3551,1},{3570,3571,1},{3633,3633,1},{3636,3642,1},
{3655,3662,1},{3761,3761,1},{3764,3772,1},{3784,3790,1},{3864,3865,1},{3893,3893,1},{3895,3895,1},{3897,3897,1},
{3902,3903,1},{3953,3972,1},{3974,3975,1},{3981,3991,1},{3993,4028,1},{4038,4038,1},{4139,4158,1},{4182,4185,1},
{4190,4192,1},{4194,4196,1},{4199,4205,1},{4209,4212,1},{4226,4237,1},{4239,4239,1},{4250,4253,1},{4957,4959,1},
{5906,5909,1},{5938,5940,1},{5970,5971,1},{6002,6003,1},{6068,6099,1},{6109,6109,1},{6155,6157,1},{6159,6159,1},
{6277,6278,1},{6313,6313,1},{6432,6443,1},{6448,6459,1},{6679,6683,1},{6741,6750,1},{6752,6780,1},{6783,6783,1},
{6832,6877,1},{6880,6891,1},{6912,6916,1},{6964,6980,1},{7019,7027,1},{7040,7042,1},{7073,7085,1},{7142,7155,1},
{7204,7223,1},{7376,7378,1},{7380,7400,1},{7405,7405,1},{7412,7412,1},{7415,7417,1},{7616,7679,1},{8400,8432,1},
{11503,11505,1},{11647,11647,1},{11744,11775,1},{12330,12335,1},{12441,12442,1},{42607,42610,1},{42612,42621,1},
{42654,42655,1},{42736,42737,1},{43010,43010,1},{43014,43014,1},{43019,43019,1},{43043,43047,1},{43052,43052,1},
{43136,43137,1},{43188,43205,1},{43232,43249,1},{43263,43263,1},{43302,43309,1},{43335,43347,1},{43392,43395,1},
{43443,43456,1},{43493,43493,1},{43561,43574,1},{43587,43587,1},{43596,43597,1},{43643,43645,1},{43696,43696,1},
{43698,43700,1},{43703,43704,1},{43710,43711,1},{43713,43713,1},{43755,43759,1},{43765,43766,1},{44003,44010,1},
{44012,44013,1},{64286,64286,1},{65024,65039,1},{65056,65071,1},{66045,66045,1},{66272,66272,1},{66422,66426,1},
{68097,68099,1},{68101,68102,1},{68108,68111,1},{68152,68154,1},{68159,68159,1},{68325,68326,1},{68900,68903,1},
{68969,68973,1},{69291,69292,1},{69370,69375,1},{69446,69456,1},{69506,69509,1},{69632,69634,1},{69688,69702,1},
{69744,69744,1},{69747,69748,1},{69759,69762,1},{69808,69818,1},{69826,69826,1},{69888,69890,1},{69927,69940,1},
{69957,69958,1},{70003,70003,1},{70016,70018,1},{70067,70080,1},{70089,70092,1},{70094,70095,1},{70188,70199,1},
{70206,70206,1},{70209,70209,1},{70367,70378,1},{70400,70403,1},{70459,70460,1},{70462,70468,1},{70471,70472,1},
{70475,70477,1},{70487,70487,1},{70498,70499,1},{70502,70508,1},{70512,70516,1},{70584,70592,1},{70594,70594,1},
{70597,70597,1},{70599,70602,1},{70604,70608,1},{70610,70610,1},{70625,70626,1},{70709,70726,1},{70750,70750,1},
{70832,70851,1},{71087,71093,1},{71096,71104,1},{71132,71133,1},{71216,71232,1},{71339,71351,1},{71453,71467,1},
{71724,71738,1},{71984,71989,1},{71991,71992,1},{71995,71998,1},{72000,72000,1},{72002,72003,1},{72145,72151,1},
{72154,72160,1},{72164,72164,1},{72193,72202,1},{72243,72249,1},{72251,72254,1},{72263,72263,1},{72273,72283,1},
{72330,72345,1},{72544,72551,1},{72751,72758,1},{72760,72767,1},{72850,72871,1},{72873,72886,1},{73009,73014,1},
{73018,73018,1},{73020,73021,1},{73023,73029,1},{73031,73031,1},{73098,73102,1},{73104,73105,1},{73107,73111,1},
{73459,73462,1},{73472,73473,1},{73475,73475,1},{73524,73530,1},{73534,73538,1},{73562,73562,1},{78912,78912,1},
{78919,78933,1},{90398,90415,1},{92912,92916,1},{92976,92982,1},{94031,94031,1},{94033,94087,1},{94095,94098,1},
{94180,94180,1},{94192,94193,1},{113821,113822,1},{118528,118573,1},{118576,118598,1},{119141,119145,1},
{119149,119154,1},{119163,119170,1},{119173,119179,1},{119210,119213,1},{119362,119364,1},{121344,121398,1},
{121403,121452,1},{121461,121461,1},{121476,121476,1},{121499,121503,1},{121505,121519,1},{122880,122886,1},
{122888,122904,1},{122907,122913,1},{122915,122916,1},{122918,122922,1},{123023,123023,1},{123184,123190,1},
{123566,123566,1},{123628,123631,1},{124140,124143,1},{124398,124399,1},{124643,124643,1},{124646,124646,1},
{124654,124655,1},{124661,124661,1},{125136,125142,1},{125252,125258,1},{917760,917999,1},
};
static const Rng kIdStart[] = {
{65,90,1},{97,122,1},{170,170,1},{181,181,1},{186,186,1},{192,214,1},{216,246,1},{248,705,1},{710,721,1},{736,740,1},
{748,748,1},{750,750,1},{880,884,1},{886,887,1},{890,893,1},{895,895,1},{902,902,1},{904,906,1},{908,908,1},
{910,929,1},{931,1013,1},{1015,1153,1},{1162,1327,1},{1329,1366,1},{1369,1369,1},{1376,1416,1},{1488,1514,1},
{1519,1522,1},{1568,1610,1},{1646,1647,1},{1649,1747,1},{1749,1749,1},{1765,1766,1},{1774,1775,1},{1786,1788,1},
{1791,1791,1},{1808,1808,1},{1810,1839,1},{1869,1957,1},{1969,1969,1},{1994,2026,1},{2036,2037,1},{2042,2042,1},
{2048,2069,1},{2074,2074,1},{2084,2084,1},{2088,2088,1},{2112,2136,1},{2144,2154,1},{2160,2183,1},{2185,2191,1},
{2208,2249,1},{2308,2361,1},{2365,2365,1},{2384,2384,1},{2392,2401,1},{2417,2432,1},{2437,2444,1},{2447,2448,1},
{2451,2472,1},{2474,2480,1},{2482,2482,1},{2486,2489,1},{2493,2493,1},{2510,2510,1},{2524,2525,1},{2527,2529,1},
{2544,2545,1},{2556,2556,1},{2565,2570,1},{2575,2576,1},{2579,2600,1},{2602,2608,1},{2610,2611,1},{2613,2614,1},
{2616,2617,1},{2649,2652,1},{2654,2654,1},{2674,2676,1},{2693,2701,1},{2703,2705,1},{2707,2728,1},{2730,2736,1},
{2738,2739,1},{2741,2745,1},{2749,2749,1},{2768,2768,1},{2784,2785,1},{2809,2809,1},{2821,2828,1},{2831,2832,1},
{2835,2856,1},{2858,2864,1},{2866,2867,1},{2869,2873,1},{2877,2877,1},{2908,2909,1},{2911,2913,1},{2929,2929,1},
{2947,2947,1},{2949,2954,1},{2958,2960,1},{2962,2965,1},{2969,2970,1},{2972,2972,1},{2974,2975,1},{2979,2980,1},
{2984,2986,1},{2990,3001,1},{3024,3024,1},{3077,3084,1},{3086,3088,1},{3090,3112,1},{3114,3129,1},{3133,3133,1},
{3160,3162,1},{3164,3165,1},{3168,3169,1},{3200,3200,1},{3205,3212,1},{3214,3216,1},{3218,3240,1},{3242,3251,1},
{3253,3257,1},{3261,3261,1},{3292,3294,1},{3296,3297,1},{3313,3314,1},{3332,3340,1},{3342,3344,1},{3346,3386,1},
{3389,3389,1},{3406,3406,1},{3412,3414,1},{3423,3425,1},{3450,3455,1},{3461,3478,1},{3482,3505,1},{3507,3515,1},
{3517,3517,1},{3520,3526,1},{3585,3632,1},{3634,3635,1},{3648,3654,1},{3713,3714,1},{3716,3716,1},{3718,3722,1},
{3724,3747,1},{3749,3749,1},{3751,3760,1},{3762,3763,1},{3773,3773,1},{3776,3780,1},{3782,3782,1},{3804,3807,1},
{3840,3840,1},{3904,3911,1},{3913,3948,1},{3976,3980,1},{4096,4138,1},{4159,4159,1},{4176,4181,1},{4186,4189,1},
{4193,4193,1},{4197,4198,1},{4206,4208,1},{4213,4225,1},{4238,4238,1},{4256,4293,1},{4295,4295,1},{4301,4301,1},
{4304,4346,1},{4348,4680,1},{4682,4685,1},{4688,4694,1},{4696,4696,1},{4698,4701,1},{4704,4744,1},{4746,4749,1},
{4752,4784,1},{4786,4789,1},{4792,4798,1},{4800,4800,1},{4802,4805,1},{4808,4822,1},{4824,4880,1},{4882,4885,1},
{4888,4954,1},{4992,5007,1},{5024,5109,1},{5112,5117,1},{5121,5740,1},{5743,5759,1},{5761,5786,1},{5792,5866,1},
{5870,5880,1},{5888,5905,1},{5919,5937,1},{5952,5969,1},{5984,5996,1},{5998,6000,1},{6016,6067,1},{6103,6103,1},
{6108,6108,1},{6176,6264,1},{6272,6312,1},{6314,6314,1},{6320,6389,1},{6400,6430,1},{6480,6509,1},{6512,6516,1},
{6528,6571,1},{6576,6601,1},{6656,6678,1},{6688,6740,1},{6823,6823,1},{6917,6963,1},{6981,6988,1},{7043,7072,1},
{7086,7087,1},{7098,7141,1},{7168,7203,1},{7245,7247,1},{7258,7293,1},{7296,7306,1},{7312,7354,1},{7357,7359,1},
{7401,7404,1},{7406,7411,1},{7413,7414,1},{7418,7418,1},{7424,7615,1},{7680,7957,1},{7960,7965,1},{7968,8005,1},
{8008,8013,1},{8016,8023,1},{8025,8025,1},{8027,8027,1},{8029,8029,1},{8031,8061,1},{8064,8116,1},{8118,8124,1},
{8126,8126,1},{8130,8132,1},{8134,8140,1},{8144,8147,1},{8150,8155,1},{8160,8172,1},{8178,8180,1},{8182,8188,1},
{8305,8305,1},{8319,8319,1},{8336,8348,1},{8450,8450,1},{8455,8455,1},{8458,8467,1},{8469,8469,1},{8472,8477,1},
{8484,8484,1},{8486,8486,1},{8488,8488,1},{8490,8505,1},{8508,8511,1},{8517,8521,1},{8526,8526,1},{8544,8584,1},
{11264,11492,1},{11499,11502,1},{11506,11507,1},{11520,11557,1},{11559,11559,1},{11565,11565,1},{11568,11623,1},
{11631,11631,1},{11648,11670,1},{11680,11686,1},{11688,11694,1},{11696,11702,1},{11704,11710,1},{11712,11718,1},
{11720,11726,1},{11728,11734,1},{11736,11742,1},{12293,12295,1},{12321,12329,1},{12337,12341,1},{12344,12348,1},
{12353,12438,1},{12443,12447,1},{12449,12538,1},{12540,12543,1},{12549,12591,1},{12593,12686,1},{12704,12735,1},
{12784,12799,1},{13312,19903,1},{19968,42124,1},{42192,42237,1},{42240,42508,1},{42512,42527,1},{42538,42539,1},
{42560,42606,1},{42623,42653,1},{42656,42735,1},{42775,42783,1},{42786,42888,1},{42891,42972,1},{42993,43009,1},
{43011,43013,1},{43015,43018,1},{43020,43042,1},{43072,43123,1},{43138,43187,1},{43250,43255,1},{43259,43259,1},
{43261,43262,1},{43274,43301,1},{43312,43334,1},{43360,43388,1},{43396,43442,1},{43471,43471,1},{43488,43492,1},
{43494,43503,1},{43514,43518,1},{43520,43560,1},{43584,43586,1},{43588,43595,1},{43616,43638,1},{43642,43642,1},
{43646,43695,1},{43697,43697,1},{43701,43702,1},{43705,43709,1},{43712,43712,1},{43714,43714,1},{43739,43741,1},
{43744,43754,1},{43762,43764,1},{43777,43782,1},{43785,43790,1},{43793,43798,1},{43808,43814,1},{43816,43822,1},
{43824,43866,1},{43868,43881,1},{43888,44002,1},{44032,55203,1},{55216,55238,1},{55243,55291,1},{63744,64109,1},
{64112,64217,1},{64256,64262,1},{64275,64279,1},{64285,64285,1},{64287,64296,1},{64298,64310,1},{64312,64316,1},
{64318,64318,1},{64320,64321,1},{64323,64324,1},{64326,64433,1},{64467,64829,1},{64848,64911,1},{64914,64967,1},
{65008,65019,1},{65136,65140,1},{65142,65276,1},{65313,65338,1},{65345,65370,1},{65382,65470,1},{65474,65479,1},
{65482,65487,1},{65490,65495,1},{65498,65500,1},{65536,65547,1},{65549,65574,1},{65576,65594,1},{65596,65597,1},
{65599,65613,1},{65616,65629,1},{65664,65786,1},{65856,65908,1},{66176,66204,1},{66208,66256,1},{66304,66335,1},
{66349,66378,1},{66384,66421,1},{66432,66461,1},{66464,66499,1},{66504,66511,1},{66513,66517,1},{66560,66717,1},
{66736,66771,1},{66776,66811,1},{66816,66855,1},{66864,66915,1},{66928,66938,1},{66940,66954,1},{66956,66962,1},
{66964,66965,1},{66967,66977,1},{66979,66993,1},{66995,67001,1},{67003,67004,1},{67008,67059,1},{67072,67382,1},
{67392,67413,1},{67424,67431,1},{67456,67461,1},{67463,67504,1},{67506,67514,1},{67584,67589,1},{67592,67592,1},
{67594,67637,1},{67639,67640,1},{67644,67644,1},{67647,67669,1},{67680,67702,1},{67712,67742,1},{67808,67826,1},
{67828,67829,1},{67840,67861,1},{67872,67897,1},{67904,67929,1},{67968,68023,1},{68030,68031,1},{68096,68096,1},
{68112,68115,1},{68117,68119,1},{68121,68149,1},{68192,68220,1},{68224,68252,1},{68288,68295,1},{68297,68324,1},
{68352,68405,1},{68416,68437,1},{68448,68466,1},{68480,68497,1},{68608,68680,1},{68736,68786,1},{68800,68850,1},
{68864,68899,1},{68938,68965,1},{68975,68997,1},{69248,69289,1},{69296,69297,1},{69314,69319,1},{69376,69404,1},
{69415,69415,1},{69424,69445,1},{69488,69505,1},{69552,69572,1},{69600,69622,1},{69635,69687,1},{69745,69746,1},
{69749,69749,1},{69763,69807,1},{69840,69864,1},{69891,69926,1},{69956,69956,1},{69959,69959,1},{69968,70002,1},
{70006,70006,1},{70019,70066,1},{70081,70084,1},{70106,70106,1},{70108,70108,1},{70144,70161,1},{70163,70187,1},
{70207,70208,1},{70272,70278,1},{70280,70280,1},{70282,70285,1},{70287,70301,1},{70303,70312,1},{70320,70366,1},
{70405,70412,1},{70415,70416,1},{70419,70440,1},{70442,70448,1},{70450,70451,1},{70453,70457,1},{70461,70461,1},
{70480,70480,1},{70493,70497,1},{70528,70537,1},{70539,70539,1},{70542,70542,1},{70544,70581,1},{70583,70583,1},
{70609,70609,1},{70611,70611,1},{70656,70708,1},{70727,70730,1},{70751,70753,1},{70784,70831,1},{70852,70853,1},
{70855,70855,1},{71040,71086,1},{71128,71131,1},{71168,71215,1},{71236,71236,1},{71296,71338,1},{71352,71352,1},
{71424,71450,1},{71488,71494,1},{71680,71723,1},{71840,71903,1},{71935,71942,1},{71945,71945,1},{71948,71955,1},
{71957,71958,1},{71960,71983,1},{71999,71999,1},{72001,72001,1},{72096,72103,1},{72106,72144,1},{72161,72161,1},
{72163,72163,1},{72192,72192,1},{72203,72242,1},{72250,72250,1},{72272,72272,1},{72284,72329,1},{72349,72349,1},
{72368,72440,1},{72640,72672,1},{72704,72712,1},{72714,72750,1},{72768,72768,1},{72818,72847,1},{72960,72966,1},
{72968,72969,1},{72971,73008,1},{73030,73030,1},{73056,73061,1},{73063,73064,1},{73066,73097,1},{73112,73112,1},
{73136,73179,1},{73440,73458,1},{73474,73474,1},{73476,73488,1},{73490,73523,1},{73648,73648,1},{73728,74649,1},
{74752,74862,1},{74880,75075,1},{77712,77808,1},{77824,78895,1},{78913,78918,1},{78944,82938,1},{82944,83526,1},
{90368,90397,1},{92160,92728,1},{92736,92766,1},{92784,92862,1},{92880,92909,1},{92928,92975,1},{92992,92995,1},
{93027,93047,1},{93053,93071,1},{93504,93548,1},{93760,93823,1},{93856,93880,1},{93883,93907,1},{93952,94026,1},
{94032,94032,1},{94099,94111,1},{94176,94177,1},{94179,94179,1},{94194,94198,1},{94208,101589,1},{101631,101662,1},
{101760,101874,1},{110576,110579,1},{110581,110587,1},{110589,110590,1},{110592,110882,1},{110898,110898,1},
{110928,110930,1},{110933,110933,1},{110948,110951,1},{110960,111355,1},{113664,113770,1},{113776,113788,1},
{113792,113800,1},{113808,113817,1},{119808,119892,1},{119894,119964,1},{119966,119967,1},{119970,119970,1},
{119973,119974,1},{119977,119980,1},{119982,119993,1},{119995,119995,1},{119997,120003,1},{120005,120069,1},
{120071,120074,1},{120077,120084,1},{120086,120092,1},{120094,120121,1},{120123,120126,1},{120128,120132,1},
{120134,120134,1},{120138,120144,1},{120146,120485,1},{120488,120512,1},{120514,120538,1},{120540,120570,1},
{120572,120596,1},{120598,120628,1},{120630,120654,1},{120656,120686,1},{120688,120712,1},{120714,120744,1},
{120746,120770,1},{120772,120779,1},{122624,122654,1},{122661,122666,1},{122928,122989,1},{123136,123180,1},
{123191,123197,1},{123214,123214,1},{123536,123565,1},{123584,123627,1},{124112,124139,1},{124368,124397,1},
{124400,124400,1},{124608,124638,1},{124640,124642,1},{124644,124645,1},{124647,124653,1},{124656,124660,1},
{124670,124671,1},{124896,124902,1},{124904,124907,1},{124909,124910,1},{124912,124926,1},{124928,125124,1},
{125184,125251,1},{125259,125259,1},{126464,126467,1},{126469,126495,1},{126497,126498,1},{126500,126500,1},
{126503,126503,1},{126505,126514,1},{126516,126519,1},{126521,126521,1},{126523,126523,1},{126530,126530,1},
{126535,126535,1},{126537,126537,1},{126539,126539,1},{126541,126543,1},{126545,126546,1},{126548,126548,1},
{126551,126551,1},{126553,126553,1},{126555,126555,1},{126557,126557,1},{126559,126559,1},{126561,126562,1},
{126564,126564,1},{126567,126570,1},{126572,126578,1},{126580,126583,1},{126585,126588,1},{126590,126590,1},
{126592,126601,1},{126603,126619,1},{126625,126627,1},{126629,126633,1},{126635,126651,1},{131072,173791,1},
{173824,178205,1},{178208,183981,1},{183984,191456,1},{191472,192093,1},{194560,195101,1},{196608,201546,1},
{201552,210041,1},
};
static const Rng kIdContinue[] = {
{48,57,1},{65,90,1},{95,95,1},{97,122,1},{170,170,1},{181,181,1},{183,183,1},{186,186,1},{192,214,1},{216,246,1},
{248,705,1},{710,721,1},{736,740,1},{748,748,1},{750,750,1},{768,884,1},{886,887,1},{890,893,1},{895,895,1},
{902,906,1},{908,908,1},{910,929,1},{931,1013,1},{1015,1153,1},{1155,1159,1},{1162,1327,1},{1329,1366,1},
{1369,1369,1},{1376,1416,1},{1425,1469,1},{1471,1471,1},{1473,1474,1},{1476,1477,1},{1479,1479,1},{1488,1514,1},
{1519,1522,1},{1552,1562,1},{1568,1641,1},{1646,1747,1},{1749,1756,1},{1759,1768,1},{1770,1788,1},{1791,1791,1},
{1808,1866,1},{1869,1969,1},{1984,2037,1},{2042,2042,1},{2045,2045,1},{2048,2093,1},{2112,2139,1},{2144,2154,1},
{2160,2183,1},{2185,2191,1},{2199,2273,1},{2275,2403,1},{2406,2415,1},{2417,2435,1},{2437,2444,1},{2447,2448,1},
{2451,2472,1},{2474,2480,1},{2482,2482,1},{2486,2489,1},{2492,2500,1},{2503,2504,1},{2507,2510,1},{2519,2519,1},
{2524,2525,1},{2527,2531,1},{2534,2545,1},{2556,2556,1},{2558,2558,1},{2561,2563,1},{2565,2570,1},{2575,2576,1},
{2579,2600,1},{2602,2608,1},{2610,2611,1},{2613,2614,1},{2616,2617,1},{2620,2620,1},{2622,2626,1},{2631,2632,1},
{2635,2637,1},{2641,2641,1},{2649,2652,1},{2654,2654,1},{2662,2677,1},{2689,2691,1},{2693,2701,1},{2703,2705,1},
{2707,2728,1},{2730,2736,1},{2738,2739,1},{2741,2745,1},{2748,2757,1},{2759,2761,1},{2763,2765,1},{2768,2768,1},
{2784,2787,1},{2790,2799,1},{2809,2815,1},{2817,2819,1},{2821,2828,1},{2831,2832,1},{2835,2856,1},{2858,2864,1},
{2866,2867,1},{2869,2873,1},{2876,2884,1},{2887,2888,1},{2891,2893,1},{2901,2903,1},{2908,2909,1},{2911,2915,1},
{2918,2927,1},{2929,2929,1},{2946,2947,1},{2949,2954,1},{2958,2960,1},{2962,2965,1},{2969,2970,1},{2972,2972,1},
{2974,2975,1},{2979,2980,1},{2984,2986,1},{2990,3001,1},{3006,3010,1},{3014,3016,1},{3018,3021,1},{3024,3024,1},
{3031,3031,1},{3046,3055,1},{3072,3084,1},{3086,3088,1},{3090,3112,1},{3114,3129,1},{3132,3140,1},{3142,3144,1},
{3146,3149,1},{3157,3158,1},{3160,3162,1},{3164,3165,1},{3168,3171,1},{3174,3183,1},{3200,3203,1},{3205,3212,1},
{3214,3216,1},{3218,3240,1},{3242,3251,1},{3253,3257,1},{3260,3268,1},{3270,3272,1},{3274,3277,1},{3285,3286,1},
{3292,3294,1},{3296,3299,1},{3302,3311,1},{3313,3315,1},{3328,3340,1},{3342,3344,1},{3346,3396,1},{3398,3400,1},
{3402,3406,1},{3412,3415,1},{3423,3427,1},{3430,3439,1},{3450,3455,1},{3457,3459,1},{3461,3478,1},{3482,3505,1},
{3507,3515,1},{3517,3517,1},{3520,3526,1},{3530,3530,1},{3535,3540,1},{3542,3542,1},{3544,3551,1},{3558,3567,1},
{3570,3571,1},{3585,3642,1},{3648,3662,1},{3664,3673,1},{3713,3714,1},{3716,3716,1},{3718,3722,1},{3724,3747,1},
{3749,3749,1},{3751,3773,1},{3776,3780,1},{3782,3782,1},{3784,3790,1},{3792,3801,1},{3804,3807,1},{3840,3840,1},
{3864,3865,1},{3872,3881,1},{3893,3893,1},{3895,3895,1},{3897,3897,1},{3902,3911,1},{3913,3948,1},{3953,3972,1},
{3974,3991,1},{3993,4028,1},{4038,4038,1},{4096,4169,1},{4176,4253,1},{4256,4293,1},{4295,4295,1},{4301,4301,1},
{4304,4346,1},{4348,4680,1},{4682,4685,1},{4688,4694,1},{4696,4696,1},{4698,4701,1},{4704,4744,1},{4746,4749,1},
{4752,4784,1},{4786,4789,1},{4792,4798,1},{4800,4800,1},{4802,4805,1},{4808,4822,1},{4824,4880,1},{4882,4885,1},
{4888,4954,1},{4957,4959,1},{4969,4977,1},{4992,5007,1},{5024,5109,1},{5112,5117,1},{5121,5740,1},{5743,5759,1},
{5761,5786,1},{5792,5866,1},{5870,5880,1},{5888,5909,1},{5919,5940,1},{5952,5971,1},{5984,5996,1},{5998,6000,1},
{6002,6003,1},{6016,6099,1},{6103,6103,1},{6108,6109,1},{6112,6121,1},{6155,6157,1},{6159,6169,1},{6176,6264,1},
{6272,6314,1},{6320,6389,1},{6400,6430,1},{6432,6443,1},{6448,6459,1},{6470,6509,1},{6512,6516,1},{6528,6571,1},
{6576,6601,1},{6608,6618,1},{6656,6683,1},{6688,6750,1},{6752,6780,1},{6783,6793,1},{6800,6809,1},{6823,6823,1},
{6832,6845,1},{6847,6877,1},{6880,6891,1},{6912,6988,1},{6992,7001,1},{7019,7027,1},{7040,7155,1},{7168,7223,1},
{7232,7241,1},{7245,7293,1},{7296,7306,1},{7312,7354,1},{7357,7359,1},{7376,7378,1},{7380,7418,1},{7424,7957,1},
{7960,7965,1},{7968,8005,1},{8008,8013,1},{8016,8023,1},{8025,8025,1},{8027,8027,1},{8029,8029,1},{8031,8061,1},
{8064,8116,1},{8118,8124,1},{8126,8126,1},{8130,8132,1},{8134,8140,1},{8144,8147,1},{8150,8155,1},{8160,8172,1},
{8178,8180,1},{8182,8188,1},{8204,8205,1},{8255,8256,1},{8276,8276,1},{8305,8305,1},{8319,8319,1},{8336,8348,1},
{8400,8412,1},{8417,8417,1},{8421,8432,1},{8450,8450,1},{8455,8455,1},{8458,8467,1},{8469,8469,1},{8472,8477,1},
{8484,8484,1},{8486,8486,1},{8488,8488,1},{8490,8505,1},{8508,8511,1},{8517,8521,1},{8526,8526,1},{8544,8584,1},
{11264,11492,1},{11499,11507,1},{11520,11557,1},{11559,11559,1},{11565,11565,1},{11568,11623,1},{11631,11631,1},
{11647,11670,1},{11680,11686,1},{11688,11694,1},{11696,11702,1},{11704,11710,1},{11712,11718,1},{11720,11726,1},
{11728,11734,1},{11736,11742,1},{11744,11775,1},{12293,12295,1},{12321,12335,1},{12337,12341,1},{12344,12348,1},
{12353,12438,1},{12441,12447,1},{12449,12543,1},{12549,12591,1},{12593,12686,1},{12704,12735,1},{12784,12799,1},
{13312,19903,1},{19968,42124,1},{42192,42237,1},{42240,42508,1},{42512,42539,1},{42560,42607,1},{42612,42621,1},
{42623,42737,1},{42775,42783,1},{42786,42888,1},{42891,42972,1},{42993,43047,1},{43052,43052,1},{43072,43123,1},
{43136,43205,1},{43216,43225,1},{43232,43255,1},{43259,43259,1},{43261,43309,1},{43312,43347,1},{43360,43388,1},
{43392,43456,1},{43471,43481,1},{43488,43518,1},{43520,43574,1},{43584,43597,1},{43600,43609,1},{43616,43638,1},
{43642,43714,1},{43739,43741,1},{43744,43759,1},{43762,43766,1},{43777,43782,1},{43785,43790,1},{43793,43798,1},
{43808,43814,1},{43816,43822,1},{43824,43866,1},{43868,43881,1},{43888,44010,1},{44012,44013,1},{44016,44025,1},
{44032,55203,1},{55216,55238,1},{55243,55291,1},{63744,64109,1},{64112,64217,1},{64256,64262,1},{64275,64279,1},
{64285,64296,1},{64298,64310,1},{64312,64316,1},{64318,64318,1},{64320,64321,1},{64323,64324,1},{64326,64433,1},
{64467,64829,1},{64848,64911,1},{64914,64967,1},{65008,65019,1},{65024,65039,1},{65056,65071,1},{65075,65076,1},
{65101,65103,1},{65136,65140,1},{65142,65276,1},{65296,65305,1},{65313,65338,1},{65343,65343,1},{65345,65370,1},
{65381,65470,1},{65474,65479,1},{65482,65487,1},{65490,65495,1},{65498,65500,1},{65536,65547,1},{65549,65574,1},
{65576,65594,1},{65596,65597,1},{65599,65613,1},{65616,65629,1},{65664,65786,1},{65856,65908,1},{66045,66045,1},
{66176,66204,1},{66208,66256,1},{66272,66272,1},{66304,66335,1},{66349,66378,1},{66384,66426,1},{66432,66461,1},
{66464,66499,1},{66504,66511,1},{66513,66517,1},{66560,66717,1},{66720,66729,1},{66736,66771,1},{66776,66811,1},
{66816,66855,1},{66864,66915,1},{66928,66938,1},{66940,66954,1},{66956,66962,1},{66964,66965,1},{66967,66977,1},
{66979,66993,1},{66995,67001,1},{67003,67004,1},{67008,67059,1},{67072,67382,1},{67392,67413,1},{67424,67431,1},
{67456,67461,1},{67463,67504,1},{67506,67514,1},{67584,67589,1},{67592,67592,1},{67594,67637,1},{67639,67640,1},
{67644,67644,1},{67647,67669,1},{67680,67702,1},{67712,67742,1},{67808,67826,1},{67828,67829,1},{67840,67861,1},
{67872,67897,1},{67904,67929,1},{67968,68023,1},{68030,68031,1},{68096,68099,1},{68101,68102,1},{68108,68115,1},
{68117,68119,1},{68121,68149,1},{68152,68154,1},{68159,68159,1},{68192,68220,1},{68224,68252,1},{68288,68295,1},
{68297,68326,1},{68352,68405,1},{68416,68437,1},{68448,68466,1},{68480,68497,1},{68608,68680,1},{68736,68786,1},
{68800,68850,1},{68864,68903,1},{68912,68921,1},{68928,68965,1},{68969,68973,1},{68975,68997,1},{69248,69289,1},
{69291,69292,1},{69296,69297,1},{69314,69319,1},{69370,69404,1},{69415,69415,1},{69424,69456,1},{69488,69509,1},
{69552,69572,1},{69600,69622,1},{69632,69702,1},{69734,69749,1},{69759,69818,1},{69826,69826,1},{69840,69864,1},
{69872,69881,1},{69888,69940,1},{69942,69951,1},{69956,69959,1},{69968,70003,1},{70006,70006,1},{70016,70084,1},
{70089,70092,1},{70094,70106,1},{70108,70108,1},{70144,70161,1},{70163,70199,1},{70206,70209,1},{70272,70278,1},
{70280,70280,1},{70282,70285,1},{70287,70301,1},{70303,70312,1},{70320,70378,1},{70384,70393,1},{70400,70403,1},
{70405,70412,1},{70415,70416,1},{70419,70440,1},{70442,70448,1},{70450,70451,1},{70453,70457,1},{70459,70468,1},
{70471,70472,1},{70475,70477,1},{70480,70480,1},{70487,70487,1},{70493,70499,1},{70502,70508,1},{70512,70516,1},
{70528,70537,1},{70539,70539,1},{70542,70542,1},{70544,70581,1},{70583,70592,1},{70594,70594,1},{70597,70597,1},
{70599,70602,1},{70604,70611,1},{70625,70626,1},{70656,70730,1},{70736,70745,1},{70750,70753,1},{70784,70853,1},
{70855,70855,1},{70864,70873,1},{71040,71093,1},{71096,71104,1},{71128,71133,1},{71168,71232,1},{71236,71236,1},
{71248,71257,1},{71296,71352,1},{71360,71369,1},{71376,71395,1},{71424,71450,1},{71453,71467,1},{71472,71481,1},
{71488,71494,1},{71680,71738,1},{71840,71913,1},{71935,71942,1},{71945,71945,1},{71948,71955,1},{71957,71958,1},
{71960,71989,1},{71991,71992,1},{71995,72003,1},{72016,72025,1},{72096,72103,1},{72106,72151,1},{72154,72161,1},
{72163,72164,1},{72192,72254,1},{72263,72263,1},{72272,72345,1},{72349,72349,1},{72368,72440,1},{72544,72551,1},
{72640,72672,1},{72688,72697,1},{72704,72712,1},{72714,72758,1},{72760,72768,1},{72784,72793,1},{72818,72847,1},
{72850,72871,1},{72873,72886,1},{72960,72966,1},{72968,72969,1},{72971,73014,1},{73018,73018,1},{73020,73021,1},
{73023,73031,1},{73040,73049,1},{73056,73061,1},{73063,73064,1},{73066,73102,1},{73104,73105,1},{73107,73112,1},
{73120,73129,1},{73136,73179,1},{73184,73193,1},{73440,73462,1},{73472,73488,1},{73490,73530,1},{73534,73538,1},
{73552,73562,1},{73648,73648,1},{73728,74649,1},{74752,74862,1},{74880,75075,1},{77712,77808,1},{77824,78895,1},
{78912,78933,1},{78944,82938,1},{82944,83526,1},{90368,90425,1},{92160,92728,1},{92736,92766,1},{92768,92777,1},
{92784,92862,1},{92864,92873,1},{92880,92909,1},{92912,92916,1},{92928,92982,1},{92992,92995,1},{93008,93017,1},
{93027,93047,1},{93053,93071,1},{93504,93548,1},{93552,93561,1},{93760,93823,1},{93856,93880,1},{93883,93907,1},
{93952,94026,1},{94031,94087,1},{94095,94111,1},{94176,94177,1},{94179,94180,1},{94192,94198,1},{94208,101589,1},
{101631,101662,1},{101760,101874,1},{110576,110579,1},{110581,110587,1},{110589,110590,1},{110592,110882,1},
{110898,110898,1},{110928,110930,1},{110933,110933,1},{110948,110951,1},{110960,111355,1},{113664,113770,1},
{113776,113788,1},{113792,113800,1},{113808,113817,1},{113821,113822,1},{118000,118009,1},{118528,118573,1},
{118576,118598,1},{119141,119145,1},{119149,119154,1},{119163,119170,1},{119173,119179,1},{119210,119213,1},
{119362,119364,1},{119808,119892,1},{119894,119964,1},{119966,119967,1},{119970,119970,1},{119973,119974,1},
{119977,119980,1},{119982,119993,1},{119995,119995,1},{119997,120003,1},{120005,120069,1},{120071,120074,1},
{120077,120084,1},{120086,120092,1},{120094,120121,1},{120123,120126,1},{120128,120132,1},{120134,120134,1},
{120138,120144,1},{120146,120485,1},{120488,120512,1},{120514,120538,1},{120540,120570,1},{120572,120596,1},
{120598,120628,1},{120630,120654,1},{120656,120686,1},{120688,120712,1},{120714,120744,1},{120746,120770,1},
{120772,120779,1},{120782,120831,1},{121344,121398,1},{121403,121452,1},{121461,121461,1},{121476,121476,1},
{121499,121503,1},{121505,121519,1},{122624,122654,1},{122661,122666,1},{122880,122886,1},{122888,122904,1},
{122907,122913,1},{122915,122916,1},{122918,122922,1},{122928,122989,1},{123023,123023,1},{123136,123180,1},
{123184,123197,1},{123200,123209,1},{123214,123214,1},{123536,123566,1},{123584,123641,1},{124112,124153,1},
{124368,124410,1},{124608,124638,1},{124640,124661,1},{124670,124671,1},{124896,124902,1},{124904,124907,1},
{124909,124910,1},{124912,124926,1},{124928,125124,1},{125136,125142,1},{125184,125259,1},{125264,125273,1},
{126464,126467,1},{126469,126495,1},{126497,126498,1},{126500,126500,1},{126503,126503,1},{126505,126514,1},
{126516,126519,1},{126521,126521,1},{126523,126523,1},{126530,126530,1},{126535,126535,1},{126537,126537,1},
{126539,126539,1},{126541,126543,1},{126545,126546,1},{126548,126548,1},{126551,126551,1},{126553,126553,1},
{126555,126555,1},{126557,126557,1},{126559,126559,1},{126561,126562,1},{126564,126564,1},{126567,126570,1},
{126572,126578,1},{126580,126583,1},{126585,126588,1},{126590,126590,1},{126592,126601,1},{126603,126619,1},
{126625,126627,1},{126629,126633,1},{126635,126651,1},{130032,130041,1},{131072,173791,1},{173824,178205,1},
{178208,183981,1},{183984,191456,1},{191472,192093,1},{194560,195101,1},{196608,201546,1},{201552,210041,1},
{917760,917999,1},
};
static const Rng kCcc[] = {
{768,788,230},{789,789,232},{790,793,220},{794,794,232},{795,795,216},{796,800,220},{801,802,202},{803,806,220},
{807,808,202},{809,819,220},{820,824,1},{825,828,220},{829,836,230},{837,837,240},{838,838,230},{839,841,220},
{842,844,230},{845,846,220},{848,850,230},{851,854,220},{855,855,230},{856,856,232},{857,858,220},{859,859,230},
{860,860,233},{861,862,234},{863,863,233},{864,865,234},{866,866,233},{867,879,230},{1155,1159,230},{1425,1425,220},
{1426,1429,230},{1430,1430,220},{1431,1433,230},{1434,1434,222},{1435,1435,220},{1436,1441,230},{1442,1447,220},
{1448,1449,230},{1450,1450,220},{1451,1452,230},{1453,1453,222},{1454,1454,228},{1455,1455,230},{1456,1456,10},
{1457,1457,11},{1458,1458,12},{1459,1459,13},{1460,1460,14},{1461,1461,15},{1462,1462,16},{1463,1463,17},
{1464,1464,18},{1465,1466,19},{1467,1467,20},{1468,1468,21},{1469,1469,22},{1471,1471,23},{1473,1473,24},
{1474,1474,25},{1476,1476,230},{1477,1477,220},{1479,1479,18},{1552,1559,230},{1560,1560,30},{1561,1561,31},
{1562,1562,32},{1611,1611,27},{1612,1612,28},{1613,1613,29},{1614,1614,30},{1615,1615,31},{1616,1616,32},
{1617,1617,33},{1618,1618,34},{1619,1620,230},{1621,1622,220},{1623,1627,230},{1628,1628,220},{1629,1630,230},
{1631,1631,220},{1648,1648,35},{1750,1756,230},{1759,1762,230},{1763,1763,220},{1764,1764,230},{1767,1768,230},
{1770,1770,220},{1771,1772,230},{1773,1773,220},{1809,1809,36},{1840,1840,230},{1841,1841,220},{1842,1843,230},
{1844,1844,220},{1845,1846,230},{1847,1849,220},{1850,1850,230},{1851,1852,220},{1853,1853,230},{1854,1854,220},
{1855,1857,230},{1858,1858,220},{1859,1859,230},{1860,1860,220},{1861,1861,230},{1862,1862,220},{1863,1863,230},
{1864,1864,220},{1865,1866,230},{2027,2033,230},{2034,2034,220},{2035,2035,230},{2045,2045,220},{2070,2073,230},
{2075,2083,230},{2085,2087,230},{2089,2093,230},{2137,2139,220},{2199,2200,230},{2201,2203,220},{2204,2207,230},
{2250,2254,230},{2255,2259,220},{2260,2273,230},{2275,2275,220},{2276,2277,230},{2278,2278,220},{2279,2280,230},
{2281,2281,220},{2282,2284,230},{2285,2287,220},{2288,2288,27},{2289,2289,28},{2290,2290,29},{2291,2293,230},
{2294,2294,220},{2295,2296,230},{2297,2298,220},{2299,2303,230},{2364,2364,7},{2381,2381,9},{2385,2385,230},
{2386,2386,220},{2387,2388,230},{2492,2492,7},{2509,2509,9},{2558,2558,230},{2620,2620,7},{2637,2637,9},{2748,2748,7},
{2765,2765,9},{2876,2876,7},{2893,2893,9},{3021,3021,9},{3132,3132,7},{3149,3149,9},{3157,3157,84},{3158,3158,91},
{3260,3260,7},{3277,3277,9},{3387,3388,9},{3405,3405,9},{3530,3530,9},{3640,3641,103},{3642,3642,9},{3656,3659,107},
{3768,3769,118},{3770,3770,9},{3784,3787,122},{3864,3865,220},{3893,3893,220},{3895,3895,220},{3897,3897,216},
{3953,3953,129},{3954,3954,130},{3956,3956,132},{3962,3965,130},{3968,3968,130},{3970,3971,230},{3972,3972,9},
{3974,3975,230},{4038,4038,220},{4151,4151,7},{4153,4154,9},{4237,4237,220},{4957,4959,230},{5908,5909,9},
{5940,5940,9},{6098,6098,9},{6109,6109,230},{6313,6313,228},{6457,6457,222},{6458,6458,230},{6459,6459,220},
{6679,6679,230},{6680,6680,220},{6752,6752,9},{6773,6780,230},{6783,6783,220},{6832,6836,230},{6837,6842,220},
{6843,6844,230},{6845,6845,220},{6847,6848,220},{6849,6850,230},{6851,6852,220},{6853,6857,230},{6858,6858,220},
{6859,6876,230},{6877,6877,220},{6880,6885,230},{6886,6886,220},{6887,6890,230},{6891,6891,234},{6964,6964,7},
{6980,6980,9},{7019,7019,230},{7020,7020,220},{7021,7027,230},{7082,7083,9},{7142,7142,7},{7154,7155,9},{7223,7223,7},
{7376,7378,230},{7380,7380,1},{7381,7385,220},{7386,7387,230},{7388,7391,220},{7392,7392,230},{7394,7400,1},
{7405,7405,220},{7412,7412,230},{7416,7417,230},{7616,7617,230},{7618,7618,220},{7619,7625,230},{7626,7626,220},
{7627,7628,230},{7629,7629,234},{7630,7630,214},{7631,7631,220},{7632,7632,202},{7633,7669,230},{7670,7670,232},
{7671,7672,228},{7673,7673,220},{7674,7674,218},{7675,7675,230},{7676,7676,233},{7677,7677,220},{7678,7678,230},
{7679,7679,220},{8400,8401,230},{8402,8403,1},{8404,8407,230},{8408,8410,1},{8411,8412,230},{8417,8417,230},
{8421,8422,1},{8423,8423,230},{8424,8424,220},{8425,8425,230},{8426,8427,1},{8428,8431,220},{8432,8432,230},
{11503,11505,230},{11647,11647,9},{11744,11775,230},{12330,12330,218},{12331,12331,228},{12332,12332,232},
{12333,12333,222},{12334,12335,224},{12441,12442,8},{42607,42607,230},{42612,42621,230},{42654,42655,230},
{42736,42737,230},{43014,43014,9},{43052,43052,9},{43204,43204,9},{43232,43249,230},{43307,43309,220},{43347,43347,9},
{43443,43443,7},{43456,43456,9},{43696,43696,230},{43698,43699,230},{43700,43700,220},{43703,43704,230},
{43710,43711,230},{43713,43713,230},{43766,43766,9},{44013,44013,9},{64286,64286,26},{65056,65062,230},
{65063,65069,220},{65070,65071,230},{66045,66045,220},{66272,66272,220},{66422,66426,230},{68109,68109,220},
{68111,68111,230},{68152,68152,230},{68153,68153,1},{68154,68154,220},{68159,68159,9},{68325,68325,230},
{68326,68326,220},{68900,68903,230},{68969,68973,230},{69291,69292,230},{69370,69371,220},{69373,69375,220},
{69446,69447,220},{69448,69450,230},{69451,69451,220},{69452,69452,230},{69453,69456,220},{69506,69506,230},
{69507,69507,220},{69508,69508,230},{69509,69509,220},{69702,69702,9},{69744,69744,9},{69759,69759,9},{69817,69817,9},
{69818,69818,7},{69888,69890,230},{69939,69940,9},{70003,70003,7},{70080,70080,9},{70090,70090,7},{70197,70197,9},
{70198,70198,7},{70377,70377,7},{70378,70378,9},{70459,70460,7},{70477,70477,9},{70502,70508,230},{70512,70516,230},
{70606,70608,9},{70722,70722,9},{70726,70726,7},{70750,70750,230},{70850,70850,9},{70851,70851,7},{71103,71103,9},
{71104,71104,7},{71231,71231,9},{71350,71350,9},{71351,71351,7},{71467,71467,9},{71737,71737,9},{71738,71738,7},
{71997,71998,9},{72003,72003,7},{72160,72160,9},{72244,72244,9},{72263,72263,9},{72345,72345,9},{72767,72767,9},
{73026,73026,7},{73028,73029,9},{73111,73111,9},{73537,73538,9},{90415,90415,9},{92912,92916,1},{92976,92982,230},
{94192,94193,6},{113822,113822,1},{119141,119142,216},{119143,119145,1},{119149,119149,226},{119150,119154,216},
{119163,119170,220},{119173,119177,230},{119178,119179,220},{119210,119213,230},{119362,119364,230},
{122880,122886,230},{122888,122904,230},{122907,122913,230},{122915,122916,230},{122918,122922,230},
{123023,123023,230},{123184,123190,230},{123566,123566,230},{123628,123631,230},{124140,124141,232},
{124142,124142,220},{124143,124143,230},{124398,124398,230},{124399,124399,220},{124643,124643,230},
{124646,124646,230},{124654,124655,230},{124661,124661,230},{125136,125142,220},{125252,125257,230},{125258,125258,7},
};
static const uint32_t kNfdPool[] = {
65,768,65,769,65,770,65,771,65,776,65,778,67,807,69,768,69,769,69,770,69,776,73,768,73,769,73,770,73,776,78,771,79,
768,79,769,79,770,79,771,79,776,85,768,85,769,85,770,85,776,89,769,97,768,97,769,97,770,97,771,97,776,97,778,99,807,
101,768,101,769,101,770,101,776,105,768,105,769,105,770,105,776,110,771,111,768,111,769,111,770,111,771,111,776,117,
768,117,769,117,770,117,776,121,769,121,776,65,772,97,772,65,774,97,774,65,808,97,808,67,769,99,769,67,770,99,770,67,
775,99,775,67,780,99,780,68,780,100,780,69,772,101,772,69,774,101,774,69,775,101,775,69,808,101,808,69,780,101,780,71,
770,103,770,71,774,103,774,71,775,103,775,71,807,103,807,72,770,104,770,73,771,105,771,73,772,105,772,73,774,105,774,
73,808,105,808,73,775,74,770,106,770,75,807,107,807,76,769,108,769,76,807,108,807,76,780,108,780,78,769,110,769,78,
807,110,807,78,780,110,780,79,772,111,772,79,774,111,774,79,779,111,779,82,769,114,769,82,807,114,807,82,780,114,780,
83,769,115,769,83,770,115,770,83,807,115,807,83,780,115,780,84,807,116,807,84,780,116,780,85,771,117,771,85,772,117,
772,85,774,117,774,85,778,117,778,85,779,117,779,85,808,117,808,87,770,119,770,89,770,121,770,89,776,90,769,122,769,
90,775,122,775,90,780,122,780,79,795,111,795,85,795,117,795,65,780,97,780,73,780,105,780,79,780,111,780,85,780,117,
780,85,776,772,117,776,772,85,776,769,117,776,769,85,776,780,117,776,780,85,776,768,117,776,768,65,776,772,97,776,772,
65,775,772,97,775,772,198,772,230,772,71,780,103,780,75,780,107,780,79,808,111,808,79,808,772,111,808,772,439,780,658,
780,106,780,71,769,103,769,78,768,110,768,65,778,769,97,778,769,198,769,230,769,216,769,248,769,65,783,97,783,65,785,
97,785,69,783,101,783,69,785,101,785,73,783,105,783,73,785,105,785,79,783,111,783,79,785,111,785,82,783,114,783,82,
785,114,785,85,783,117,783,85,785,117,785,83,806,115,806,84,806,116,806,72,780,104,780,65,775,97,775,69,807,101,807,
79,776,772,111,776,772,79,771,772,111,771,772,79,775,111,775,79,775,772,111,775,772,89,772,121,772,768,769,787,776,
769,697,59,168,769,913,769,183,917,769,919,769,921,769,927,769,933,769,937,769,953,776,769,921,776,933,776,945,769,
949,769,951,769,953,769,965,776,769,953,776,965,776,959,769,965,769,969,769,978,769,978,776,1045,768,1045,776,1043,
769,1030,776,1050,769,1048,768,1059,774,1048,774,1080,774,1077,768,1077,776,1075,769,1110,776,1082,769,1080,768,1091,
774,1140,783,1141,783,1046,774,1078,774,1040,774,1072,774,1040,776,1072,776,1045,774,1077,774,1240,776,1241,776,1046,
776,1078,776,1047,776,1079,776,1048,772,1080,772,1048,776,1080,776,1054,776,1086,776,1256,776,1257,776,1069,776,1101,
776,1059,772,1091,772,1059,776,1091,776,1059,779,1091,779,1063,776,1095,776,1067,776,1099,776,1575,1619,1575,1620,
1608,1620,1575,1621,1610,1620,1749,1620,1729,1620,1746,1620,2344,2364,2352,2364,2355,2364,2325,2364,2326,2364,2327,
2364,2332,2364,2337,2364,2338,2364,2347,2364,2351,2364,2503,2494,2503,2519,2465,2492,2466,2492,2479,2492,2610,2620,
2616,2620,2582,2620,2583,2620,2588,2620,2603,2620,2887,2902,2887,2878,2887,2903,2849,2876,2850,2876,2962,3031,3014,
3006,3015,3006,3014,3031,3142,3158,3263,3285,3270,3285,3270,3286,3270,3266,3270,3266,3285,3398,3390,3399,3390,3398,
3415,3545,3530,3545,3535,3545,3535,3530,3545,3551,3906,4023,3916,4023,3921,4023,3926,4023,3931,4023,3904,4021,3953,
3954,3953,3956,4018,3968,4019,3968,3953,3968,3986,4023,3996,4023,4001,4023,4006,4023,4011,4023,3984,4021,4133,4142,
6917,6965,6919,6965,6921,6965,6923,6965,6925,6965,6929,6965,6970,6965,6972,6965,6974,6965,6975,6965,6978,6965,65,805,
97,805,66,775,98,775,66,803,98,803,66,817,98,817,67,807,769,99,807,769,68,775,100,775,68,803,100,803,68,817,100,817,
68,807,100,807,68,813,100,813,69,772,768,101,772,768,69,772,769,101,772,769,69,813,101,813,69,816,101,816,69,807,774,
101,807,774,70,775,102,775,71,772,103,772,72,775,104,775,72,803,104,803,72,776,104,776,72,807,104,807,72,814,104,814,
73,816,105,816,73,776,769,105,776,769,75,769,107,769,75,803,107,803,75,817,107,817,76,803,108,803,76,803,772,108,803,
772,76,817,108,817,76,813,108,813,77,769,109,769,77,775,109,775,77,803,109,803,78,775,110,775,78,803,110,803,78,817,
110,817,78,813,110,813,79,771,769,111,771,769,79,771,776,111,771,776,79,772,768,111,772,768,79,772,769,111,772,769,80,
769,112,769,80,775,112,775,82,775,114,775,82,803,114,803,82,803,772,114,803,772,82,817,114,817,83,775,115,775,83,803,
115,803,83,769,775,115,769,775,83,780,775,115,780,775,83,803,775,115,803,775,84,775,116,775,84,803,116,803,84,817,116,
817,84,813,116,813,85,804,117,804,85,816,117,816,85,813,117,813,85,771,769,117,771,769,85,772,776,117,772,776,86,771,
118,771,86,803,118,803,87,768,119,768,87,769,119,769,87,776,119,776,87,775,119,775,87,803,119,803,88,775,120,775,88,
776,120,776,89,775,121,775,90,770,122,770,90,803,122,803,90,817,122,817,104,817,116,776,119,778,121,778,383,775,65,
803,97,803,65,777,97,777,65,770,769,97,770,769,65,770,768,97,770,768,65,770,777,97,770,777,65,770,771,97,770,771,65,
803,770,97,803,770,65,774,769,97,774,769,65,774,768,97,774,768,65,774,777,97,774,777,65,774,771,97,774,771,65,803,774,
97,803,774,69,803,101,803,69,777,101,777,69,771,101,771,69,770,769,101,770,769,69,770,768,101,770,768,69,770,777,101,
770,777,69,770,771,101,770,771,69,803,770,101,803,770,73,777,105,777,73,803,105,803,79,803,111,803,79,777,111,777,79,
770,769,111,770,769,79,770,768,111,770,768,79,770,777,111,770,777,79,770,771,111,770,771,79,803,770,111,803,770,79,
795,769,111,795,769,79,795,768,111,795,768,79,795,777,111,795,777,79,795,771,111,795,771,79,795,803,111,795,803,85,
803,117,803,85,777,117,777,85,795,769,117,795,769,85,795,768,117,795,768,85,795,777,117,795,777,85,795,771,117,795,
771,85,795,803,117,795,803,89,768,121,768,89,803,121,803,89,777,121,777,89,771,121,771,945,787,945,788,945,787,768,
945,788,768,945,787,769,945,788,769,945,787,834,945,788,834,913,787,913,788,913,787,768,913,788,768,913,787,769,913,
788,769,913,787,834,913,788,834,949,787,949,788,949,787,768,949,788,768,949,787,769,949,788,769,917,787,917,788,917,
787,768,917,788,768,917,787,769,917,788,769,951,787,951,788,951,787,768,951,788,768,951,787,769,951,788,769,951,787,
834,951,788,834,919,787,919,788,919,787,768,919,788,768,919,787,769,919,788,769,919,787,834,919,788,834,953,787,953,
788,953,787,768,953,788,768,953,787,769,953,788,769,953,787,834,953,788,834,921,787,921,788,921,787,768,921,788,768,
921,787,769,921,788,769,921,787,834,921,788,834,959,787,959,788,959,787,768,959,788,768,959,787,769,959,788,769,927,
787,927,788,927,787,768,927,788,768,927,787,769,927,788,769,965,787,965,788,965,787,768,965,788,768,965,787,769,965,
788,769,965,787,834,965,788,834,933,788,933,788,768,933,788,769,933,788,834,969,787,969,788,969,787,768,969,788,768,
969,787,769,969,788,769,969,787,834,969,788,834,937,787,937,788,937,787,768,937,788,768,937,787,769,937,788,769,937,
787,834,937,788,834,945,768,945,769,949,768,949,769,951,768,951,769,953,768,953,769,959,768,959,769,965,768,965,769,
969,768,969,769,945,787,837,945,788,837,945,787,768,837,945,788,768,837,945,787,769,837,945,788,769,837,945,787,834,
837,945,788,834,837,913,787,837,913,788,837,913,787,768,837,913,788,768,837,913,787,769,837,913,788,769,837,913,787,
834,837,913,788,834,837,951,787,837,951,788,837,951,787,768,837,951,788,768,837,951,787,769,837,951,788,769,837,951,
787,834,837,951,788,834,837,919,787,837,919,788,837,919,787,768,837,919,788,768,837,919,787,769,837,919,788,769,837,
919,787,834,837,919,788,834,837,969,787,837,969,788,837,969,787,768,837,969,788,768,837,969,787,769,837,969,788,769,
837,969,787,834,837,969,788,834,837,937,787,837,937,788,837,937,787,768,837,937,788,768,837,937,787,769,837,937,788,
769,837,937,787,834,837,937,788,834,837,945,774,945,772,945,768,837,945,837,945,769,837,945,834,945,834,837,913,774,
913,772,913,768,913,769,913,837,953,168,834,951,768,837,951,837,951,769,837,951,834,951,834,837,917,768,917,769,919,
768,919,769,919,837,8127,768,8127,769,8127,834,953,774,953,772,953,776,768,953,776,769,953,834,953,776,834,921,774,
921,772,921,768,921,769,8190,768,8190,769,8190,834,965,774,965,772,965,776,768,965,776,769,961,787,961,788,965,834,
965,776,834,933,774,933,772,933,768,933,769,929,788,168,768,168,769,96,969,768,837,969,837,969,769,837,969,834,969,
834,837,927,768,927,769,937,768,937,769,937,837,180,8194,8195,937,75,65,778,8592,824,8594,824,8596,824,8656,824,8660,
824,8658,824,8707,824,8712,824,8715,824,8739,824,8741,824,8764,824,8771,824,8773,824,8776,824,61,824,8801,824,8781,
824,60,824,62,824,8804,824,8805,824,8818,824,8819,824,8822,824,8823,824,8826,824,8827,824,8834,824,8835,824,8838,824,
8839,824,8866,824,8872,824,8873,824,8875,824,8828,824,8829,824,8849,824,8850,824,8882,824,8883,824,8884,824,8885,824,
12296,12297,10973,824,12363,12441,12365,12441,12367,12441,12369,12441,12371,12441,12373,12441,12375,12441,12377,12441,
12379,12441,12381,12441,12383,12441,12385,12441,12388,12441,12390,12441,12392,12441,12399,12441,12399,12442,12402,
12441,12402,12442,12405,12441,12405,12442,12408,12441,12408,12442,12411,12441,12411,12442,12358,12441,12445,12441,
12459,12441,12461,12441,12463,12441,12465,12441,12467,12441,12469,12441,12471,12441,12473,12441,12475,12441,12477,
12441,12479,12441,12481,12441,12484,12441,12486,12441,12488,12441,12495,12441,12495,12442,12498,12441,12498,12442,
12501,12441,12501,12442,12504,12441,12504,12442,12507,12441,12507,12442,12454,12441,12527,12441,12528,12441,12529,
12441,12530,12441,12541,12441,35912,26356,36554,36040,28369,20018,21477,40860,40860,22865,37329,21895,22856,25078,
30313,32645,34367,34746,35064,37007,27138,27931,28889,29662,33853,37226,39409,20098,21365,27396,29211,34349,40478,
23888,28651,34253,35172,25289,33240,34847,24266,26391,28010,29436,37070,20358,20919,21214,25796,27347,29200,30439,
32769,34310,34396,36335,38706,39791,40442,30860,31103,32160,33737,37636,40575,35542,22751,24324,31840,32894,29282,
30922,36034,38647,22744,23650,27155,28122,28431,32047,32311,38475,21202,32907,20956,20940,31260,32190,33777,38517,
35712,25295,27138,35582,20025,23527,24594,29575,30064,21271,30971,20415,24489,19981,27852,25976,32034,21443,22622,
30465,33865,35498,27578,36784,27784,25342,33509,25504,30053,20142,20841,20937,26753,31975,33391,35538,37327,21237,
21570,22899,24300,26053,28670,31018,38317,39530,40599,40654,21147,26310,27511,36706,24180,24976,25088,25754,28451,
29001,29833,31178,32244,32879,36646,34030,36899,37706,21015,21155,21693,28872,35010,35498,24265,24565,25467,27566,
31806,29557,20196,22265,23527,23994,24604,29618,29801,32666,32838,37428,38646,38728,38936,20363,31150,37300,38584,
24801,20102,20698,23534,23615,26009,27138,29134,30274,34044,36988,40845,26248,38446,21129,26491,26611,27969,28316,
29705,30041,30827,32016,39006,20845,25134,38520,20523,23833,28138,36650,24459,24900,26647,29575,38534,21033,21519,
23653,26131,26446,26792,27877,29702,30178,32633,35023,35041,37324,38626,21311,28346,21533,29136,29848,34298,38563,
40023,40607,26519,28107,33256,31435,31520,31890,29376,28825,35672,20160,33590,21050,20999,24230,25299,31958,23429,
27934,26292,36667,34892,38477,35211,24275,20800,21952,22618,26228,20958,29482,30410,31036,31070,31077,31119,38742,
31934,32701,34322,35576,36920,37117,39151,39164,39208,40372,37086,38583,20398,20711,20813,21193,21220,21329,21917,
22022,22120,22592,22696,23652,23662,24724,24936,24974,25074,25935,26082,26257,26757,28023,28186,28450,29038,29227,
29730,30865,31038,31049,31048,31056,31062,31069,31117,31118,31296,31361,31680,32244,32265,32321,32626,32773,33261,
33401,33401,33879,35088,35222,35585,35641,36051,36104,36790,36920,38627,38911,38971,24693,148206,33304,20006,20917,
20840,20352,20805,20864,21191,21242,21917,21845,21913,21986,22618,22707,22852,22868,23138,23336,24274,24281,24425,
24493,24792,24910,24840,24974,24928,25074,25140,25540,25628,25682,25942,26228,26391,26395,26454,27513,27578,27969,
28379,28363,28450,28702,29038,30631,29237,29359,29482,29809,29958,30011,30237,30239,30410,30427,30452,30538,30528,
30924,31409,31680,31867,32091,32244,32574,32773,33618,33775,34681,35137,35206,35222,35519,35576,35531,35585,35582,
35565,35641,35722,36104,36664,36978,37273,37494,38524,38627,38742,38875,38911,38923,38971,39698,40860,141386,141380,
144341,15261,16408,16441,152137,154832,163539,40771,40846,1497,1460,1522,1463,1513,1473,1513,1474,1513,1468,1473,1513,
1468,1474,1488,1463,1488,1464,1488,1468,1489,1468,1490,1468,1491,1468,1492,1468,1493,1468,1494,1468,1496,1468,1497,
1468,1498,1468,1499,1468,1500,1468,1502,1468,1504,1468,1505,1468,1507,1468,1508,1468,1510,1468,1511,1468,1512,1468,
1513,1468,1514,1468,1493,1465,1489,1471,1499,1471,1508,1471,67026,775,67034,775,69785,69818,69787,69818,69797,69818,
69937,69927,69938,69927,70471,70462,70471,70487,70530,70601,70532,70587,70539,70594,70544,70601,70594,70594,70594,
70584,70594,70601,70841,70842,70841,70832,70841,70845,71096,71087,71097,71087,71989,71984,90398,90398,90398,90409,
90398,90399,90409,90399,90398,90400,90398,90398,90399,90398,90409,90399,90398,90398,90400,93543,93543,93539,93543,
93539,93543,93543,119127,119141,119128,119141,119128,119141,119150,119128,119141,119151,119128,119141,119152,119128,
119141,119153,119128,119141,119154,119225,119141,119226,119141,119225,119141,119150,119226,119141,119150,119225,
119141,119151,119226,119141,119151,20029,20024,20033,131362,20320,20398,20411,20482,20602,20633,20711,20687,13470,
132666,20813,20820,20836,20855,132380,13497,20839,20877,132427,20887,20900,20172,20908,20917,168415,20981,20995,13535,
21051,21062,21106,21111,13589,21191,21193,21220,21242,21253,21254,21271,21321,21329,21338,21363,21373,21375,21375,
21375,133676,28784,21450,21471,133987,21483,21489,21510,21662,21560,21576,21608,21666,21750,21776,21843,21859,21892,
21892,21913,21931,21939,21954,22294,22022,22295,22097,22132,20999,22766,22478,22516,22541,22411,22578,22577,22700,
136420,22770,22775,22790,22810,22818,22882,136872,136938,23020,23067,23079,23000,23142,14062,14076,23304,23358,23358,
137672,23491,23512,23527,23539,138008,23551,23558,24403,23586,14209,23648,23662,23744,23693,138724,23875,138726,23918,
23915,23932,24033,24034,14383,24061,24104,24125,24169,14434,139651,14460,24240,24243,24246,24266,172946,24318,140081,
140081,33281,24354,24354,14535,144056,156122,24418,24427,14563,24474,24525,24535,24569,24705,14650,14620,24724,141012,
24775,24904,24908,24910,24908,24954,24974,25010,24996,25007,25054,25074,25078,25104,25115,25181,25265,25300,25424,
142092,25405,25340,25448,25475,25572,142321,25634,25541,25513,14894,25705,25726,25757,25719,14956,25935,25964,143370,
26083,26360,26185,15129,26257,15112,15076,20882,20885,26368,26268,32941,17369,26391,26395,26401,26462,26451,144323,
15177,26618,26501,26706,26757,144493,26766,26655,26900,15261,26946,27043,27114,27304,145059,27355,15384,27425,145575,
27476,15438,27506,27551,27578,27579,146061,138507,146170,27726,146620,27839,27853,27751,27926,27966,28023,27969,28009,
28024,28037,146718,27956,28207,28270,15667,28363,28359,147153,28153,28526,147294,147342,28614,28729,28702,28699,15766,
28746,28797,28791,28845,132389,28997,148067,29084,148395,29224,29237,29264,149000,29312,29333,149301,149524,29562,
29579,16044,29605,16056,16056,29767,29788,29809,29829,29898,16155,29988,150582,30014,150674,30064,139679,30224,151457,
151480,151620,16380,16392,30452,151795,151794,151833,151859,30494,30495,30495,30538,16441,30603,16454,16534,152605,
30798,30860,30924,16611,153126,31062,153242,153285,31119,31211,16687,31296,31306,31311,153980,154279,154279,31470,
16898,154539,31686,31689,16935,154752,31954,17056,31976,31971,32000,155526,32099,17153,32199,32258,32325,17204,156200,
156231,17241,156377,32634,156478,32661,32762,32773,156890,156963,32864,157096,32880,144223,17365,32946,33027,17419,
33086,23221,157607,157621,144275,144284,33281,33284,36766,17515,33425,33419,33437,21171,33457,33459,33469,33510,
158524,33509,33565,33635,33709,33571,33725,33767,33879,33619,33738,33740,33756,158774,159083,158933,17707,34033,34035,
34070,160714,34148,159532,17757,17761,159665,159954,17771,34384,34396,34407,34409,34473,34440,34574,34530,34681,34600,
34667,34694,17879,34785,34817,17913,34912,34915,161383,35031,35038,17973,35066,13499,161966,162150,18110,18119,35488,
35565,35722,35925,162984,36011,36033,36123,36215,163631,133124,36299,36284,36336,133342,36564,36664,165330,165357,
37012,37105,37137,165678,37147,37432,37591,37592,37500,37881,37909,166906,38283,18837,38327,167287,18918,38595,23986,
38691,168261,168474,19054,19062,38880,168970,19122,169110,38923,38923,38953,169398,39138,19251,39209,39335,39362,
39422,19406,170800,39698,40000,40189,19662,19693,40295,172238,19704,172293,172558,172689,40635,19798,40697,40702,
40709,40719,40726,40763,173568,
};
static const Seq kNfd[] = {
{192,0,2},{193,2,2},{194,4,2},{195,6,2},{196,8,2},{197,10,2},{199,12,2},{200,14,2},{201,16,2},{202,18,2},{203,20,2},
{204,22,2},{205,24,2},{206,26,2},{207,28,2},{209,30,2},{210,32,2},{211,34,2},{212,36,2},{213,38,2},{214,40,2},
{217,42,2},{218,44,2},{219,46,2},{220,48,2},{221,50,2},{224,52,2},{225,54,2},{226,56,2},{227,58,2},{228,60,2},
{229,62,2},{231,64,2},{232,66,2},{233,68,2},{234,70,2},{235,72,2},{236,74,2},{237,76,2},{238,78,2},{239,80,2},
{241,82,2},{242,84,2},{243,86,2},{244,88,2},{245,90,2},{246,92,2},{249,94,2},{250,96,2},{251,98,2},{252,100,2},
{253,102,2},{255,104,2},{256,106,2},{257,108,2},{258,110,2},{259,112,2},{260,114,2},{261,116,2},{262,118,2},
{263,120,2},{264,122,2},{265,124,2},{266,126,2},{267,128,2},{268,130,2},{269,132,2},{270,134,2},{271,136,2},
{274,138,2},{275,140,2},{276,142,2},{277,144,2},{278,146,2},{279,148,2},{280,150,2},{281,152,2},{282,154,2},
{283,156,2},{284,158,2},{285,160,2},{286,162,2},{287,164,2},{288,166,2},{289,168,2},{290,170,2},{291,172,2},
{292,174,2},{293,176,2},{296,178,2},{297,180,2},{298,182,2},{299,184,2},{300,186,2},{301,188,2},{302,190,2},
{303,192,2},{304,194,2},{308,196,2},{309,198,2},{310,200,2},{311,202,2},{313,204,2},{314,206,2},{315,208,2},
{316,210,2},{317,212,2},{318,214,2},{323,216,2},{324,218,2},{325,220,2},{326,222,2},{327,224,2},{328,226,2},
{332,228,2},{333,230,2},{334,232,2},{335,234,2},{336,236,2},{337,238,2},{340,240,2},{341,242,2},{342,244,2},
{343,246,2},{344,248,2},{345,250,2},{346,252,2},{347,254,2},{348,256,2},{349,258,2},{350,260,2},{351,262,2},
{352,264,2},{353,266,2},{354,268,2},{355,270,2},{356,272,2},{357,274,2},{360,276,2},{361,278,2},{362,280,2},
{363,282,2},{364,284,2},{365,286,2},{366,288,2},{367,290,2},{368,292,2},{369,294,2},{370,296,2},{371,298,2},
{372,300,2},{373,302,2},{374,304,2},{375,306,2},{376,308,2},{377,310,2},{378,312,2},{379,314,2},{380,316,2},
{381,318,2},{382,320,2},{416,322,2},{417,324,2},{431,326,2},{432,328,2},{461,330,2},{462,332,2},{463,334,2},
{464,336,2},{465,338,2},{466,340,2},{467,342,2},{468,344,2},{469,346,3},{470,349,3},{471,352,3},{472,355,3},
{473,358,3},{474,361,3},{475,364,3},{476,367,3},{478,370,3},{479,373,3},{480,376,3},{481,379,3},{482,382,2},
{483,384,2},{486,386,2},{487,388,2},{488,390,2},{489,392,2},{490,394,2},{491,396,2},{492,398,3},{493,401,3},
{494,404,2},{495,406,2},{496,408,2},{500,410,2},{501,412,2},{504,414,2},{505,416,2},{506,418,3},{507,421,3},
{508,424,2},{509,426,2},{510,428,2},{511,430,2},{512,432,2},{513,434,2},{514,436,2},{515,438,2},{516,440,2},
{517,442,2},{518,444,2},{519,446,2},{520,448,2},{521,450,2},{522,452,2},{523,454,2},{524,456,2},{525,458,2},
{526,460,2},{527,462,2},{528,464,2},{529,466,2},{530,468,2},{531,470,2},{532,472,2},{533,474,2},{534,476,2},
{535,478,2},{536,480,2},{537,482,2},{538,484,2},{539,486,2},{542,488,2},{543,490,2},{550,492,2},{551,494,2},
{552,496,2},{553,498,2},{554,500,3},{555,503,3},{556,506,3},{557,509,3},{558,512,2},{559,514,2},{560,516,3},
{561,519,3},{562,522,2},{563,524,2},{832,526,1},{833,527,1},{835,528,1},{836,529,2},{884,531,1},{894,532,1},
{901,533,2},{902,535,2},{903,537,1},{904,538,2},{905,540,2},{906,542,2},{908,544,2},{910,546,2},{911,548,2},
{912,550,3},{938,553,2},{939,555,2},{940,557,2},{941,559,2},{942,561,2},{943,563,2},{944,565,3},{970,568,2},
{971,570,2},{972,572,2},{973,574,2},{974,576,2},{979,578,2},{980,580,2},{1024,582,2},{1025,584,2},{1027,586,2},
{1031,588,2},{1036,590,2},{1037,592,2},{1038,594,2},{1049,596,2},{1081,598,2},{1104,600,2},{1105,602,2},{1107,604,2},
{1111,606,2},{1116,608,2},{1117,610,2},{1118,612,2},{1142,614,2},{1143,616,2},{1217,618,2},{1218,620,2},{1232,622,2},
{1233,624,2},{1234,626,2},{1235,628,2},{1238,630,2},{1239,632,2},{1242,634,2},{1243,636,2},{1244,638,2},{1245,640,2},
{1246,642,2},{1247,644,2},{1250,646,2},{1251,648,2},{1252,650,2},{1253,652,2},{1254,654,2},{1255,656,2},{1258,658,2},
{1259,660,2},{1260,662,2},{1261,664,2},{1262,666,2},{1263,668,2},{1264,670,2},{1265,672,2},{1266,674,2},{1267,676,2},
{1268,678,2},{1269,680,2},{1272,682,2},{1273,684,2},{1570,686,2},{1571,688,2},{1572,690,2},{1573,692,2},{1574,694,2},
{1728,696,2},{1730,698,2},{1747,700,2},{2345,702,2},{2353,704,2},{2356,706,2},{2392,708,2},{2393,710,2},{2394,712,2},
{2395,714,2},{2396,716,2},{2397,718,2},{2398,720,2},{2399,722,2},{2507,724,2},{2508,726,2},{2524,728,2},{2525,730,2},
{2527,732,2},{2611,734,2},{2614,736,2},{2649,738,2},{2650,740,2},{2651,742,2},{2654,744,2},{2888,746,2},{2891,748,2},
{2892,750,2},{2908,752,2},{2909,754,2},{2964,756,2},{3018,758,2},{3019,760,2},{3020,762,2},{3144,764,2},{3264,766,2},
{3271,768,2},{3272,770,2},{3274,772,2},{3275,774,3},{3402,777,2},{3403,779,2},{3404,781,2},{3546,783,2},{3548,785,2},
{3549,787,3},{3550,790,2},{3907,792,2},{3917,794,2},{3922,796,2},{3927,798,2},{3932,800,2},{3945,802,2},{3955,804,2},
{3957,806,2},{3958,808,2},{3960,810,2},{3969,812,2},{3987,814,2},{3997,816,2},{4002,818,2},{4007,820,2},{4012,822,2},
{4025,824,2},{4134,826,2},{6918,828,2},{6920,830,2},{6922,832,2},{6924,834,2},{6926,836,2},{6930,838,2},{6971,840,2},
{6973,842,2},{6976,844,2},{6977,846,2},{6979,848,2},{7680,850,2},{7681,852,2},{7682,854,2},{7683,856,2},{7684,858,2},
{7685,860,2},{7686,862,2},{7687,864,2},{7688,866,3},{7689,869,3},{7690,872,2},{7691,874,2},{7692,876,2},{7693,878,2},
{7694,880,2},{7695,882,2},{7696,884,2},{7697,886,2},{7698,888,2},{7699,890,2},{7700,892,3},{7701,895,3},{7702,898,3},
{7703,901,3},{7704,904,2},{7705,906,2},{7706,908,2},{7707,910,2},{7708,912,3},{7709,915,3},{7710,918,2},{7711,920,2},
{7712,922,2},{7713,924,2},{7714,926,2},{7715,928,2},{7716,930,2},{7717,932,2},{7718,934,2},{7719,936,2},{7720,938,2},
{7721,940,2},{7722,942,2},{7723,944,2},{7724,946,2},{7725,948,2},{7726,950,3},{7727,953,3},{7728,956,2},{7729,958,2},
{7730,960,2},{7731,962,2},{7732,964,2},{7733,966,2},{7734,968,2},{7735,970,2},{7736,972,3},{7737,975,3},{7738,978,2},
{7739,980,2},{7740,982,2},{7741,984,2},{7742,986,2},{7743,988,2},{7744,990,2},{7745,992,2},{7746,994,2},{7747,996,2},
{7748,998,2},{7749,1000,2},{7750,1002,2},{7751,1004,2},{7752,1006,2},{7753,1008,2},{7754,1010,2},{7755,1012,2},
{7756,1014,3},{7757,1017,3},{7758,1020,3},{7759,1023,3},{7760,1026,3},{7761,1029,3},{7762,1032,3},{7763,1035,3},
{7764,1038,2},{7765,1040,2},{7766,1042,2},{7767,1044,2},{7768,1046,2},{7769,1048,2},{7770,1050,2},{7771,1052,2},
{7772,1054,3},{7773,1057,3},{7774,1060,2},{7775,1062,2},{7776,1064,2},{7777,1066,2},{7778,1068,2},{7779,1070,2},
{7780,1072,3},{7781,1075,3},{7782,1078,3},{7783,1081,3},{7784,1084,3},{7785,1087,3},{7786,1090,2},{7787,1092,2},
{7788,1094,2},{7789,1096,2},{7790,1098,2},{7791,1100,2},{7792,1102,2},{7793,1104,2},{7794,1106,2},{7795,1108,2},
{7796,1110,2},{7797,1112,2},{7798,1114,2},{7799,1116,2},{7800,1118,3},{7801,1121,3},{7802,1124,3},{7803,1127,3},
{7804,1130,2},{7805,1132,2},{7806,1134,2},{7807,1136,2},{7808,1138,2},{7809,1140,2},{7810,1142,2},{7811,1144,2},
{7812,1146,2},{7813,1148,2},{7814,1150,2},{7815,1152,2},{7816,1154,2},{7817,1156,2},{7818,1158,2},{7819,1160,2},
{7820,1162,2},{7821,1164,2},{7822,1166,2},{7823,1168,2},{7824,1170,2},{7825,1172,2},{7826,1174,2},{7827,1176,2},
{7828,1178,2},{7829,1180,2},{7830,1182,2},{7831,1184,2},{7832,1186,2},{7833,1188,2},{7835,1190,2},{7840,1192,2},
{7841,1194,2},{7842,1196,2},{7843,1198,2},{7844,1200,3},{7845,1203,3},{7846,1206,3},{7847,1209,3},{7848,1212,3},
{7849,1215,3},{7850,1218,3},{7851,1221,3},{7852,1224,3},{7853,1227,3},{7854,1230,3},{7855,1233,3},{7856,1236,3},
{7857,1239,3},{7858,1242,3},{7859,1245,3},{7860,1248,3},{7861,1251,3},{7862,1254,3},{7863,1257,3},{7864,1260,2},
{7865,1262,2},{7866,1264,2},{7867,1266,2},{7868,1268,2},{7869,1270,2},{7870,1272,3},{7871,1275,3},{7872,1278,3},
{7873,1281,3},{7874,1284,3},{7875,1287,3},{7876,1290,3},{7877,1293,3},{7878,1296,3},{7879,1299,3},{7880,1302,2},
{7881,1304,2},{7882,1306,2},{7883,1308,2},{7884,1310,2},{7885,1312,2},{7886,1314,2},{7887,1316,2},{7888,1318,3},
{7889,1321,3},{7890,1324,3},{7891,1327,3},{7892,1330,3},{7893,1333,3},{7894,1336,3},{7895,1339,3},{7896,1342,3},
{7897,1345,3},{7898,1348,3},{7899,1351,3},{7900,1354,3},{7901,1357,3},{7902,1360,3},{7903,1363,3},{7904,1366,3},
{7905,1369,3},{7906,1372,3},{7907,1375,3},{7908,1378,2},{7909,1380,2},{7910,1382,2},{7911,1384,2},{7912,1386,3},
{7913,1389,3},{7914,1392,3},{7915,1395,3},{7916,1398,3},{7917,1401,3},{7918,1404,3},{7919,1407,3},{7920,1410,3},
{7921,1413,3},{7922,1416,2},{7923,1418,2},{7924,1420,2},{7925,1422,2},{7926,1424,2},{7927,1426,2},{7928,1428,2},
{7929,1430,2},{7936,1432,2},{7937,1434,2},{7938,1436,3},{7939,1439,3},{7940,1442,3},{7941,1445,3},{7942,1448,3},
{7943,1451,3},{7944,1454,2},{7945,1456,2},{7946,1458,3},{7947,1461,3},{7948,1464,3},{7949,1467,3},{7950,1470,3},
{7951,1473,3},{7952,1476,2},{7953,1478,2},{7954,1480,3},{7955,1483,3},{7956,1486,3},{7957,1489,3},{7960,1492,2},
{7961,1494,2},{7962,1496,3},{7963,1499,3},{7964,1502,3},{7965,1505,3},{7968,1508,2},{7969,1510,2},{7970,1512,3},
{7971,1515,3},{7972,1518,3},{7973,1521,3},{7974,1524,3},{7975,1527,3},{7976,1530,2},{7977,1532,2},{7978,1534,3},
{7979,1537,3},{7980,1540,3},{7981,1543,3},{7982,1546,3},{7983,1549,3},{7984,1552,2},{7985,1554,2},{7986,1556,3},
{7987,1559,3},{7988,1562,3},{7989,1565,3},{7990,1568,3},{7991,1571,3},{7992,1574,2},{7993,1576,2},{7994,1578,3},
{7995,1581,3},{7996,1584,3},{7997,1587,3},{7998,1590,3},{7999,1593,3},{8000,1596,2},{8001,1598,2},{8002,1600,3},
{8003,1603,3},{8004,1606,3},{8005,1609,3},{8008,1612,2},{8009,1614,2},{8010,1616,3},{8011,1619,3},{8012,1622,3},
{8013,1625,3},{8016,1628,2},{8017,1630,2},{8018,1632,3},{8019,1635,3},{8020,1638,3},{8021,1641,3},{8022,1644,3},
{8023,1647,3},{8025,1650,2},{8027,1652,3},{8029,1655,3},{8031,1658,3},{8032,1661,2},{8033,1663,2},{8034,1665,3},
{8035,1668,3},{8036,1671,3},{8037,1674,3},{8038,1677,3},{8039,1680,3},{8040,1683,2},{8041,1685,2},{8042,1687,3},
{8043,1690,3},{8044,1693,3},{8045,1696,3},{8046,1699,3},{8047,1702,3},{8048,1705,2},{8049,1707,2},{8050,1709,2},
{8051,1711,2},{8052,1713,2},{8053,1715,2},{8054,1717,2},{8055,1719,2},{8056,1721,2},{8057,1723,2},{8058,1725,2},
{8059,1727,2},{8060,1729,2},{8061,1731,2},{8064,1733,3},{8065,1736,3},{8066,1739,4},{8067,1743,4},{8068,1747,4},
{8069,1751,4},{8070,1755,4},{8071,1759,4},{8072,1763,3},{8073,1766,3},{8074,1769,4},{8075,1773,4},{8076,1777,4},
{8077,1781,4},{8078,1785,4},{8079,1789,4},{8080,1793,3},{8081,1796,3},{8082,1799,4},{8083,1803,4},{8084,1807,4},
{8085,1811,4},{8086,1815,4},{8087,1819,4},{8088,1823,3},{8089,1826,3},{8090,1829,4},{8091,1833,4},{8092,1837,4},
{8093,1841,4},{8094,1845,4},{8095,1849,4},{8096,1853,3},{8097,1856,3},{8098,1859,4},{8099,1863,4},{8100,1867,4},
{8101,1871,4},{8102,1875,4},{8103,1879,4},{8104,1883,3},{8105,1886,3},{8106,1889,4},{8107,1893,4},{8108,1897,4},
{8109,1901,4},{8110,1905,4},{8111,1909,4},{8112,1913,2},{8113,1915,2},{8114,1917,3},{8115,1920,2},{8116,1922,3},
{8118,1925,2},{8119,1927,3},{8120,1930,2},{8121,1932,2},{8122,1934,2},{8123,1936,2},{8124,1938,2},{8126,1940,1},
{8129,1941,2},{8130,1943,3},{8131,1946,2},{8132,1948,3},{8134,1951,2},{8135,1953,3},{8136,1956,2},{8137,1958,2},
{8138,1960,2},{8139,1962,2},{8140,1964,2},{8141,1966,2},{8142,1968,2},{8143,1970,2},{8144,1972,2},{8145,1974,2},
{8146,1976,3},{8147,1979,3},{8150,1982,2},{8151,1984,3},{8152,1987,2},{8153,1989,2},{8154,1991,2},{8155,1993,2},
{8157,1995,2},{8158,1997,2},{8159,1999,2},{8160,2001,2},{8161,2003,2},{8162,2005,3},{8163,2008,3},{8164,2011,2},
{8165,2013,2},{8166,2015,2},{8167,2017,3},{8168,2020,2},{8169,2022,2},{8170,2024,2},{8171,2026,2},{8172,2028,2},
{8173,2030,2},{8174,2032,2},{8175,2034,1},{8178,2035,3},{8179,2038,2},{8180,2040,3},{8182,2043,2},{8183,2045,3},
{8184,2048,2},{8185,2050,2},{8186,2052,2},{8187,2054,2},{8188,2056,2},{8189,2058,1},{8192,2059,1},{8193,2060,1},
{8486,2061,1},{8490,2062,1},{8491,2063,2},{8602,2065,2},{8603,2067,2},{8622,2069,2},{8653,2071,2},{8654,2073,2},
{8655,2075,2},{8708,2077,2},{8713,2079,2},{8716,2081,2},{8740,2083,2},{8742,2085,2},{8769,2087,2},{8772,2089,2},
{8775,2091,2},{8777,2093,2},{8800,2095,2},{8802,2097,2},{8813,2099,2},{8814,2101,2},{8815,2103,2},{8816,2105,2},
{8817,2107,2},{8820,2109,2},{8821,2111,2},{8824,2113,2},{8825,2115,2},{8832,2117,2},{8833,2119,2},{8836,2121,2},
{8837,2123,2},{8840,2125,2},{8841,2127,2},{8876,2129,2},{8877,2131,2},{8878,2133,2},{8879,2135,2},{8928,2137,2},
{8929,2139,2},{8930,2141,2},{8931,2143,2},{8938,2145,2},{8939,2147,2},{8940,2149,2},{8941,2151,2},{9001,2153,1},
{9002,2154,1},{10972,2155,2},{12364,2157,2},{12366,2159,2},{12368,2161,2},{12370,2163,2},{12372,2165,2},
{12374,2167,2},{12376,2169,2},{12378,2171,2},{12380,2173,2},{12382,2175,2},{12384,2177,2},{12386,2179,2},
{12389,2181,2},{12391,2183,2},{12393,2185,2},{12400,2187,2},{12401,2189,2},{12403,2191,2},{12404,2193,2},
{12406,2195,2},{12407,2197,2},{12409,2199,2},{12410,2201,2},{12412,2203,2},{12413,2205,2},{12436,2207,2},
{12446,2209,2},{12460,2211,2},{12462,2213,2},{12464,2215,2},{12466,2217,2},{12468,2219,2},{12470,2221,2},
{12472,2223,2},{12474,2225,2},{12476,2227,2},{12478,2229,2},{12480,2231,2},{12482,2233,2},{12485,2235,2},
{12487,2237,2},{12489,2239,2},{12496,2241,2},{12497,2243,2},{12499,2245,2},{12500,2247,2},{12502,2249,2},
{12503,2251,2},{12505,2253,2},{12506,2255,2},{12508,2257,2},{12509,2259,2},{12532,2261,2},{12535,2263,2},
{12536,2265,2},{12537,2267,2},{12538,2269,2},{12542,2271,2},{63744,2273,1},{63745,2274,1},{63746,2275,1},
{63747,2276,1},{63748,2277,1},{63749,2278,1},{63750,2279,1},{63751,2280,1},{63752,2281,1},{63753,2282,1},
{63754,2283,1},{63755,2284,1},{63756,2285,1},{63757,2286,1},{63758,2287,1},{63759,2288,1},{63760,2289,1},
{63761,2290,1},{63762,2291,1},{63763,2292,1},{63764,2293,1},{63765,2294,1},{63766,2295,1},{63767,2296,1},
{63768,2297,1},{63769,2298,1},{63770,2299,1},{63771,2300,1},{63772,2301,1},{63773,2302,1},{63774,2303,1},
{63775,2304,1},{63776,2305,1},{63777,2306,1},{63778,2307,1},{63779,2308,1},{63780,2309,1},{63781,2310,1},
{63782,2311,1},{63783,2312,1},{63784,2313,1},{63785,2314,1},{63786,2315,1},{63787,2316,1},{63788,2317,1},
{63789,2318,1},{63790,2319,1},{63791,2320,1},{63792,2321,1},{63793,2322,1},{63794,2323,1},{63795,2324,1},
{63796,2325,1},{63797,2326,1},{63798,2327,1},{63799,2328,1},{63800,2329,1},{63801,2330,1},{63802,2331,1},
{63803,2332,1},{63804,2333,1},{63805,2334,1},{63806,2335,1},{63807,2336,1},{63808,2337,1},{63809,2338,1},
{63810,2339,1},{63811,2340,1},{63812,2341,1},{63813,2342,1},{63814,2343,1},{63815,2344,1},{63816,2345,1},
{63817,2346,1},{63818,2347,1},{63819,2348,1},{63820,2349,1},{63821,2350,1},{63822,2351,1},{63823,2352,1},
{63824,2353,1},{63825,2354,1},{63826,2355,1},{63827,2356,1},{63828,2357,1},{63829,2358,1},{63830,2359,1},
{63831,2360,1},{63832,2361,1},{63833,2362,1},{63834,2363,1},{63835,2364,1},{63836,2365,1},{63837,2366,1},
{63838,2367,1},{63839,2368,1},{63840,2369,1},{63841,2370,1},{63842,2371,1},{63843,2372,1},{63844,2373,1},
{63845,2374,1},{63846,2375,1},{63847,2376,1},{63848,2377,1},{63849,2378,1},{63850,2379,1},{63851,2380,1},
{63852,2381,1},{63853,2382,1},{63854,2383,1},{63855,2384,1},{63856,2385,1},{63857,2386,1},{63858,2387,1},
{63859,2388,1},{63860,2389,1},{63861,2390,1},{63862,2391,1},{63863,2392,1},{63864,2393,1},{63865,2394,1},
{63866,2395,1},{63867,2396,1},{63868,2397,1},{63869,2398,1},{63870,2399,1},{63871,2400,1},{63872,2401,1},
{63873,2402,1},{63874,2403,1},{63875,2404,1},{63876,2405,1},{63877,2406,1},{63878,2407,1},{63879,2408,1},
{63880,2409,1},{63881,2410,1},{63882,2411,1},{63883,2412,1},{63884,2413,1},{63885,2414,1},{63886,2415,1},
{63887,2416,1},{63888,2417,1},{63889,2418,1},{63890,2419,1},{63891,2420,1},{63892,2421,1},{63893,2422,1},
{63894,2423,1},{63895,2424,1},{63896,2425,1},{63897,2426,1},{63898,2427,1},{63899,2428,1},{63900,2429,1},
{63901,2430,1},{63902,2431,1},{63903,2432,1},{63904,2433,1},{63905,2434,1},{63906,2435,1},{63907,2436,1},
{63908,2437,1},{63909,2438,1},{63910,2439,1},{63911,2440,1},{63912,2441,1},{63913,2442,1},{63914,2443,1},
{63915,2444,1},{63916,2445,1},{63917,2446,1},{63918,2447,1},{63919,2448,1},{63920,2449,1},{63921,2450,1},
{63922,2451,1},{63923,2452,1},{63924,2453,1},{63925,2454,1},{63926,2455,1},{63927,2456,1},{63928,2457,1},
{63929,2458,1},{63930,2459,1},{63931,2460,1},{63932,2461,1},{63933,2462,1},{63934,2463,1},{63935,2464,1},
{63936,2465,1},{63937,2466,1},{63938,2467,1},{63939,2468,1},{63940,2469,1},{63941,2470,1},{63942,2471,1},
{63943,2472,1},{63944,2473,1},{63945,2474,1},{63946,2475,1},{63947,2476,1},{63948,2477,1},{63949,2478,1},
{63950,2479,1},{63951,2480,1},{63952,2481,1},{63953,2482,1},{63954,2483,1},{63955,2484,1},{63956,2485,1},
{63957,2486,1},{63958,2487,1},{63959,2488,1},{63960,2489,1},{63961,2490,1},{63962,2491,1},{63963,2492,1},
{63964,2493,1},{63965,2494,1},{63966,2495,1},{63967,2496,1},{63968,2497,1},{63969,2498,1},{63970,2499,1},
{63971,2500,1},{63972,2501,1},{63973,2502,1},{63974,2503,1},{63975,2504,1},{63976,2505,1},{63977,2506,1},
{63978,2507,1},{63979,2508,1},{63980,2509,1},{63981,2510,1},{63982,2511,1},{63983,2512,1},{63984,2513,1},
{63985,2514,1},{63986,2515,1},{63987,2516,1},{63988,2517,1},{63989,2518,1},{63990,2519,1},{63991,2520,1},
{63992,2521,1},{63993,2522,1},{63994,2523,1},{63995,2524,1},{63996,2525,1},{63997,2526,1},{63998,2527,1},
{63999,2528,1},{64000,2529,1},{64001,2530,1},{64002,2531,1},{64003,2532,1},{64004,2533,1},{64005,2534,1},
{64006,2535,1},{64007,2536,1},{64008,2537,1},{64009,2538,1},{64010,2539,1},{64011,2540,1},{64012,2541,1},
{64013,2542,1},{64016,2543,1},{64018,2544,1},{64021,2545,1},{64022,2546,1},{64023,2547,1},{64024,2548,1},
{64025,2549,1},{64026,2550,1},{64027,2551,1},{64028,2552,1},{64029,2553,1},{64030,2554,1},{64032,2555,1},
{64034,2556,1},{64037,2557,1},{64038,2558,1},{64042,2559,1},{64043,2560,1},{64044,2561,1},{64045,2562,1},
{64046,2563,1},{64047,2564,1},{64048,2565,1},{64049,2566,1},{64050,2567,1},{64051,2568,1},{64052,2569,1},
{64053,2570,1},{64054,2571,1},{64055,2572,1},{64056,2573,1},{64057,2574,1},{64058,2575,1},{64059,2576,1},
{64060,2577,1},{64061,2578,1},{64062,2579,1},{64063,2580,1},{64064,2581,1},{64065,2582,1},{64066,2583,1},
{64067,2584,1},{64068,2585,1},{64069,2586,1},{64070,2587,1},{64071,2588,1},{64072,2589,1},{64073,2590,1},
{64074,2591,1},{64075,2592,1},{64076,2593,1},{64077,2594,1},{64078,2595,1},{64079,2596,1},{64080,2597,1},
{64081,2598,1},{64082,2599,1},{64083,2600,1},{64084,2601,1},{64085,2602,1},{64086,2603,1},{64087,2604,1},
{64088,2605,1},{64089,2606,1},{64090,2607,1},{64091,2608,1},{64092,2609,1},{64093,2610,1},{64094,2611,1},
{64095,2612,1},{64096,2613,1},{64097,2614,1},{64098,2615,1},{64099,2616,1},{64100,2617,1},{64101,2618,1},
{64102,2619,1},{64103,2620,1},{64104,2621,1},{64105,2622,1},{64106,2623,1},{64107,2624,1},{64108,2625,1},
{64109,2626,1},{64112,2627,1},{64113,2628,1},{64114,2629,1},{64115,2630,1},{64116,2631,1},{64117,2632,1},
{64118,2633,1},{64119,2634,1},{64120,2635,1},{64121,2636,1},{64122,2637,1},{64123,2638,1},{64124,2639,1},
{64125,2640,1},{64126,2641,1},{64127,2642,1},{64128,2643,1},{64129,2644,1},{64130,2645,1},{64131,2646,1},
{64132,2647,1},{64133,2648,1},{64134,2649,1},{64135,2650,1},{64136,2651,1},{64137,2652,1},{64138,2653,1},
{64139,2654,1},{64140,2655,1},{64141,2656,1},{64142,2657,1},{64143,2658,1},{64144,2659,1},{64145,2660,1},
{64146,2661,1},{64147,2662,1},{64148,2663,1},{64149,2664,1},{64150,2665,1},{64151,2666,1},{64152,2667,1},
{64153,2668,1},{64154,2669,1},{64155,2670,1},{64156,2671,1},{64157,2672,1},{64158,2673,1},{64159,2674,1},
{64160,2675,1},{64161,2676,1},{64162,2677,1},{64163,2678,1},{64164,2679,1},{64165,2680,1},{64166,2681,1},
{64167,2682,1},{64168,2683,1},{64169,2684,1},{64170,2685,1},{64171,2686,1},{64172,2687,1},{64173,2688,1},
{64174,2689,1},{64175,2690,1},{64176,2691,1},{64177,2692,1},{64178,2693,1},{64179,2694,1},{64180,2695,1},
{64181,2696,1},{64182,2697,1},{64183,2698,1},{64184,2699,1},{64185,2700,1},{64186,2701,1},{64187,2702,1},
{64188,2703,1},{64189,2704,1},{64190,2705,1},{64191,2706,1},{64192,2707,1},{64193,2708,1},{64194,2709,1},
{64195,2710,1},{64196,2711,1},{64197,2712,1},{64198,2713,1},{64199,2714,1},{64200,2715,1},{64201,2716,1},
{64202,2717,1},{64203,2718,1},{64204,2719,1},{64205,2720,1},{64206,2721,1},{64207,2722,1},{64208,2723,1},
{64209,2724,1},{64210,2725,1},{64211,2726,1},{64212,2727,1},{64213,2728,1},{64214,2729,1},{64215,2730,1},
{64216,2731,1},{64217,2732,1},{64285,2733,2},{64287,2735,2},{64298,2737,2},{64299,2739,2},{64300,2741,3},
{64301,2744,3},{64302,2747,2},{64303,2749,2},{64304,2751,2},{64305,2753,2},{64306,2755,2},{64307,2757,2},
{64308,2759,2},{64309,2761,2},{64310,2763,2},{64312,2765,2},{64313,2767,2},{64314,2769,2},{64315,2771,2},
{64316,2773,2},{64318,2775,2},{64320,2777,2},{64321,2779,2},{64323,2781,2},{64324,2783,2},{64326,2785,2},
{64327,2787,2},{64328,2789,2},{64329,2791,2},{64330,2793,2},{64331,2795,2},{64332,2797,2},{64333,2799,2},
{64334,2801,2},{67017,2803,2},{67044,2805,2},{69786,2807,2},{69788,2809,2},{69803,2811,2},{69934,2813,2},
{69935,2815,2},{70475,2817,2},{70476,2819,2},{70531,2821,2},{70533,2823,2},{70542,2825,2},{70545,2827,2},
{70597,2829,2},{70599,2831,2},{70600,2833,2},{70843,2835,2},{70844,2837,2},{70846,2839,2},{71098,2841,2},
{71099,2843,2},{71992,2845,2},{90401,2847,2},{90402,2849,2},{90403,2851,2},{90404,2853,2},{90405,2855,2},
{90406,2857,3},{90407,2860,3},{90408,2863,3},{93544,2866,2},{93545,2868,2},{93546,2870,3},{119134,2873,2},
{119135,2875,2},{119136,2877,3},{119137,2880,3},{119138,2883,3},{119139,2886,3},{119140,2889,3},{119227,2892,2},
{119228,2894,2},{119229,2896,3},{119230,2899,3},{119231,2902,3},{119232,2905,3},{194560,2908,1},{194561,2909,1},
{194562,2910,1},{194563,2911,1},{194564,2912,1},{194565,2913,1},{194566,2914,1},{194567,2915,1},{194568,2916,1},
{194569,2917,1},{194570,2918,1},{194571,2919,1},{194572,2920,1},{194573,2921,1},{194574,2922,1},{194575,2923,1},
{194576,2924,1},{194577,2925,1},{194578,2926,1},{194579,2927,1},{194580,2928,1},{194581,2929,1},{194582,2930,1},
{194583,2931,1},{194584,2932,1},{194585,2933,1},{194586,2934,1},{194587,2935,1},{194588,2936,1},{194589,2937,1},
{194590,2938,1},{194591,2939,1},{194592,2940,1},{194593,2941,1},{194594,2942,1},{194595,2943,1},{194596,2944,1},
{194597,2945,1},{194598,2946,1},{194599,2947,1},{194600,2948,1},{194601,2949,1},{194602,2950,1},{194603,2951,1},
{194604,2952,1},{194605,2953,1},{194606,2954,1},{194607,2955,1},{194608,2956,1},{194609,2957,1},{194610,2958,1},
{194611,2959,1},{194612,2960,1},{194613,2961,1},{194614,2962,1},{194615,2963,1},{194616,2964,1},{194617,2965,1},
{194618,2966,1},{194619,2967,1},{194620,2968,1},{194621,2969,1},{194622,2970,1},{194623,2971,1},{194624,2972,1},
{194625,2973,1},{194626,2974,1},{194627,2975,1},{194628,2976,1},{194629,2977,1},{194630,2978,1},{194631,2979,1},
{194632,2980,1},{194633,2981,1},{194634,2982,1},{194635,2983,1},{194636,2984,1},{194637,2985,1},{194638,2986,1},
{194639,2987,1},{194640,2988,1},{194641,2989,1},{194642,2990,1},{194643,2991,1},{194644,2992,1},{194645,2993,1},
{194646,2994,1},{194647,2995,1},{194648,2996,1},{194649,2997,1},{194650,2998,1},{194651,2999,1},{194652,3000,1},
{194653,3001,1},{194654,3002,1},{194655,3003,1},{194656,3004,1},{194657,3005,1},{194658,3006,1},{194659,3007,1},
{194660,3008,1},{194661,3009,1},{194662,3010,1},{194663,3011,1},{194664,3012,1},{194665,3013,1},{194666,3014,1},
{194667,3015,1},{194668,3016,1},{194669,3017,1},{194670,3018,1},{194671,3019,1},{194672,3020,1},{194673,3021,1},
{194674,3022,1},{194675,3023,1},{194676,3024,1},{194677,3025,1},{194678,3026,1},{194679,3027,1},{194680,3028,1},
{194681,3029,1},{194682,3030,1},{194683,3031,1},{194684,3032,1},{194685,3033,1},{194686,3034,1},{194687,3035,1},
{194688,3036,1},{194689,3037,1},{194690,3038,1},{194691,3039,1},{194692,3040,1},{194693,3041,1},{194694,3042,1},
{194695,3043,1},{194696,3044,1},{194697,3045,1},{194698,3046,1},{194699,3047,1},{194700,3048,1},{194701,3049,1},
{194702,3050,1},{194703,3051,1},{194704,3052,1},{194705,3053,1},{194706,3054,1},{194707,3055,1},{194708,3056,1},
{194709,3057,1},{194710,3058,1},{194711,3059,1},{194712,3060,1},{194713,3061,1},{194714,3062,1},{194715,3063,1},
{194716,3064,1},{194717,3065,1},{194718,3066,1},{194719,3067,1},{194720,3068,1},{194721,3069,1},{194722,3070,1},
{194723,3071,1},{194724,3072,1},{194725,3073,1},{194726,3074,1},{194727,3075,1},{194728,3076,1},{194729,3077,1},
{194730,3078,1},{194731,3079,1},{194732,3080,1},{194733,3081,1},{194734,3082,1},{194735,3083,1},{194736,3084,1},
{194737,3085,1},{194738,3086,1},{194739,3087,1},{194740,3088,1},{194741,3089,1},{194742,3090,1},{194743,3091,1},
{194744,3092,1},{194745,3093,1},{194746,3094,1},{194747,3095,1},{194748,3096,1},{194749,3097,1},{194750,3098,1},
{194751,3099,1},{194752,3100,1},{194753,3101,1},{194754,3102,1},{194755,3103,1},{194756,3104,1},{194757,3105,1},
{194758,3106,1},{194759,3107,1},{194760,3108,1},{194761,3109,1},{194762,3110,1},{194763,3111,1},{194764,3112,1},
{194765,3113,1},{194766,3114,1},{194767,3115,1},{194768,3116,1},{194769,3117,1},{194770,3118,1},{194771,3119,1},
{194772,3120,1},{194773,3121,1},{194774,3122,1},{194775,3123,1},{194776,3124,1},{194777,3125,1},{194778,3126,1},
{194779,3127,1},{194780,3128,1},{194781,3129,1},{194782,3130,1},{194783,3131,1},{194784,3132,1},{194785,3133,1},
{194786,3134,1},{194787,3135,1},{194788,3136,1},{194789,3137,1},{194790,3138,1},{194791,3139,1},{194792,3140,1},
{194793,3141,1},{194794,3142,1},{194795,3143,1},{194796,3144,1},{194797,3145,1},{194798,3146,1},{194799,3147,1},
{194800,3148,1},{194801,3149,1},{194802,3150,1},{194803,3151,1},{194804,3152,1},{194805,3153,1},{194806,3154,1},
{194807,3155,1},{194808,3156,1},{194809,3157,1},{194810,3158,1},{194811,3159,1},{194812,3160,1},{194813,3161,1},
{194814,3162,1},{194815,3163,1},{194816,3164,1},{194817,3165,1},{194818,3166,1},{194819,3167,1},{194820,3168,1},
{194821,3169,1},{194822,3170,1},{194823,3171,1},{194824,3172,1},{194825,3173,1},{194826,3174,1},{194827,3175,1},
{194828,3176,1},{194829,3177,1},{194830,3178,1},{194831,3179,1},{194832,3180,1},{194833,3181,1},{194834,3182,1},
{194835,3183,1},{194836,3184,1},{194837,3185,1},{194838,3186,1},{194839,3187,1},{194840,3188,1},{194841,3189,1},
{194842,3190,1},{194843,3191,1},{194844,3192,1},{194845,3193,1},{194846,3194,1},{194847,3195,1},{194848,3196,1},
{194849,3197,1},{194850,3198,1},{194851,3199,1},{194852,3200,1},{194853,3201,1},{194854,3202,1},{194855,3203,1},
{194856,3204,1},{194857,3205,1},{194858,3206,1},{194859,3207,1},{194860,3208,1},{194861,3209,1},{194862,3210,1},
{194863,3211,1},{194864,3212,1},{194865,3213,1},{194866,3214,1},{194867,3215,1},{194868,3216,1},{194869,3217,1},
{194870,3218,1},{194871,3219,1},{194872,3220,1},{194873,3221,1},{194874,3222,1},{194875,3223,1},{194876,3224,1},
{194877,3225,1},{194878,3226,1},{194879,3227,1},{194880,3228,1},{194881,3229,1},{194882,3230,1},{194883,3231,1},
{194884,3232,1},{194885,3233,1},{194886,3234,1},{194887,3235,1},{194888,3236,1},{194889,3237,1},{194890,3238,1},
{194891,3239,1},{194892,3240,1},{194893,3241,1},{194894,3242,1},{194895,3243,1},{194896,3244,1},{194897,3245,1},
{194898,3246,1},{194899,3247,1},{194900,3248,1},{194901,3249,1},{194902,3250,1},{194903,3251,1},{194904,3252,1},
{194905,3253,1},{194906,3254,1},{194907,3255,1},{194908,3256,1},{194909,3257,1},{194910,3258,1},{194911,3259,1},
{194912,3260,1},{194913,3261,1},{194914,3262,1},{194915,3263,1},{194916,3264,1},{194917,3265,1},{194918,3266,1},
{194919,3267,1},{194920,3268,1},{194921,3269,1},{194922,3270,1},{194923,3271,1},{194924,3272,1},{194925,3273,1},
{194926,3274,1},{194927,3275,1},{194928,3276,1},{194929,3277,1},{194930,3278,1},{194931,3279,1},{194932,3280,1},
{194933,3281,1},{194934,3282,1},{194935,3283,1},{194936,3284,1},{194937,3285,1},{194938,3286,1},{194939,3287,1},
{194940,3288,1},{194941,3289,1},{194942,3290,1},{194943,3291,1},{194944,3292,1},{194945,3293,1},{194946,3294,1},
{194947,3295,1},{194948,3296,1},{194949,3297,1},{194950,3298,1},{194951,3299,1},{194952,3300,1},{194953,3301,1},
{194954,3302,1},{194955,3303,1},{194956,3304,1},{194957,3305,1},{194958,3306,1},{194959,3307,1},{194960,3308,1},
{194961,3309,1},{194962,3310,1},{194963,3311,1},{194964,3312,1},{194965,3313,1},{194966,3314,1},{194967,3315,1},
{194968,3316,1},{194969,3317,1},{194970,3318,1},{194971,3319,1},{194972,3320,1},{194973,3321,1},{194974,3322,1},
{194975,3323,1},{194976,3324,1},{194977,3325,1},{194978,3326,1},{194979,3327,1},{194980,3328,1},{194981,3329,1},
{194982,3330,1},{194983,3331,1},{194984,3332,1},{194985,3333,1},{194986,3334,1},{194987,3335,1},{194988,3336,1},
{194989,3337,1},{194990,3338,1},{194991,3339,1},{194992,3340,1},{194993,3341,1},{194994,3342,1},{194995,3343,1},
{194996,3344,1},{194997,3345,1},{194998,3346,1},{194999,3347,1},{195000,3348,1},{195001,3349,1},{195002,3350,1},
{195003,3351,1},{195004,3352,1},{195005,3353,1},{195006,3354,1},{195007,3355,1},{195008,3356,1},{195009,3357,1},
{195010,3358,1},{195011,3359,1},{195012,3360,1},{195013,3361,1},{195014,3362,1},{195015,3363,1},{195016,3364,1},
{195017,3365,1},{195018,3366,1},{195019,3367,1},{195020,3368,1},{195021,3369,1},{195022,3370,1},{195023,3371,1},
{195024,3372,1},{195025,3373,1},{195026,3374,1},{195027,3375,1},{195028,3376,1},{195029,3377,1},{195030,3378,1},
{195031,3379,1},{195032,3380,1},{195033,3381,1},{195034,3382,1},{195035,3383,1},{195036,3384,1},{195037,3385,1},
{195038,3386,1},{195039,3387,1},{195040,3388,1},{195041,3389,1},{195042,3390,1},{195043,3391,1},{195044,3392,1},
{195045,3393,1},{195046,3394,1},{195047,3395,1},{195048,3396,1},{195049,3397,1},{195050,3398,1},{195051,3399,1},
{195052,3400,1},{195053,3401,1},{195054,3402,1},{195055,3403,1},{195056,3404,1},{195057,3405,1},{195058,3406,1},
{195059,3407,1},{195060,3408,1},{195061,3409,1},{195062,3410,1},{195063,3411,1},{195064,3412,1},{195065,3413,1},
{195066,3414,1},{195067,3415,1},{195068,3416,1},{195069,3417,1},{195070,3418,1},{195071,3419,1},{195072,3420,1},
{195073,3421,1},{195074,3422,1},{195075,3423,1},{195076,3424,1},{195077,3425,1},{195078,3426,1},{195079,3427,1},
{195080,3428,1},{195081,3429,1},{195082,3430,1},{195083,3431,1},{195084,3432,1},{195085,3433,1},{195086,3434,1},
{195087,3435,1},{195088,3436,1},{195089,3437,1},{195090,3438,1},{195091,3439,1},{195092,3440,1},{195093,3441,1},
{195094,3442,1},{195095,3443,1},{195096,3444,1},{195097,3445,1},{195098,3446,1},{195099,3447,1},{195100,3448,1},
{195101,3449,1},
};
static const Cmp kComp[] = {
{65,768,192},{65,769,193},{65,770,194},{65,771,195},{65,776,196},{65,778,197},{67,807,199},{69,768,200},{69,769,201},
{69,770,202},{69,776,203},{73,768,204},{73,769,205},{73,770,206},{73,776,207},{78,771,209},{79,768,210},{79,769,211},
{79,770,212},{79,771,213},{79,776,214},{85,768,217},{85,769,218},{85,770,219},{85,776,220},{89,769,221},{97,768,224},
{97,769,225},{97,770,226},{97,771,227},{97,776,228},{97,778,229},{99,807,231},{101,768,232},{101,769,233},
{101,770,234},{101,776,235},{105,768,236},{105,769,237},{105,770,238},{105,776,239},{110,771,241},{111,768,242},
{111,769,243},{111,770,244},{111,771,245},{111,776,246},{117,768,249},{117,769,250},{117,770,251},{117,776,252},
{121,769,253},{121,776,255},{65,772,256},{97,772,257},{65,774,258},{97,774,259},{65,808,260},{97,808,261},
{67,769,262},{99,769,263},{67,770,264},{99,770,265},{67,775,266},{99,775,267},{67,780,268},{99,780,269},{68,780,270},
{100,780,271},{69,772,274},{101,772,275},{69,774,276},{101,774,277},{69,775,278},{101,775,279},{69,808,280},
{101,808,281},{69,780,282},{101,780,283},{71,770,284},{103,770,285},{71,774,286},{103,774,287},{71,775,288},
{103,775,289},{71,807,290},{103,807,291},{72,770,292},{104,770,293},{73,771,296},{105,771,297},{73,772,298},
{105,772,299},{73,774,300},{105,774,301},{73,808,302},{105,808,303},{73,775,304},{74,770,308},{106,770,309},
{75,807,310},{107,807,311},{76,769,313},{108,769,314},{76,807,315},{108,807,316},{76,780,317},{108,780,318},
{78,769,323},{110,769,324},{78,807,325},{110,807,326},{78,780,327},{110,780,328},{79,772,332},{111,772,333},
{79,774,334},{111,774,335},{79,779,336},{111,779,337},{82,769,340},{114,769,341},{82,807,342},{114,807,343},
{82,780,344},{114,780,345},{83,769,346},{115,769,347},{83,770,348},{115,770,349},{83,807,350},{115,807,351},
{83,780,352},{115,780,353},{84,807,354},{116,807,355},{84,780,356},{116,780,357},{85,771,360},{117,771,361},
{85,772,362},{117,772,363},{85,774,364},{117,774,365},{85,778,366},{117,778,367},{85,779,368},{117,779,369},
{85,808,370},{117,808,371},{87,770,372},{119,770,373},{89,770,374},{121,770,375},{89,776,376},{90,769,377},
{122,769,378},{90,775,379},{122,775,380},{90,780,381},{122,780,382},{79,795,416},{111,795,417},{85,795,431},
{117,795,432},{65,780,461},{97,780,462},{73,780,463},{105,780,464},{79,780,465},{111,780,466},{85,780,467},
{117,780,468},{220,772,469},{252,772,470},{220,769,471},{252,769,472},{220,780,473},{252,780,474},{220,768,475},
{252,768,476},{196,772,478},{228,772,479},{550,772,480},{551,772,481},{198,772,482},{230,772,483},{71,780,486},
{103,780,487},{75,780,488},{107,780,489},{79,808,490},{111,808,491},{490,772,492},{491,772,493},{439,780,494},
{658,780,495},{106,780,496},{71,769,500},{103,769,501},{78,768,504},{110,768,505},{197,769,506},{229,769,507},
{198,769,508},{230,769,509},{216,769,510},{248,769,511},{65,783,512},{97,783,513},{65,785,514},{97,785,515},
{69,783,516},{101,783,517},{69,785,518},{101,785,519},{73,783,520},{105,783,521},{73,785,522},{105,785,523},
{79,783,524},{111,783,525},{79,785,526},{111,785,527},{82,783,528},{114,783,529},{82,785,530},{114,785,531},
{85,783,532},{117,783,533},{85,785,534},{117,785,535},{83,806,536},{115,806,537},{84,806,538},{116,806,539},
{72,780,542},{104,780,543},{65,775,550},{97,775,551},{69,807,552},{101,807,553},{214,772,554},{246,772,555},
{213,772,556},{245,772,557},{79,775,558},{111,775,559},{558,772,560},{559,772,561},{89,772,562},{121,772,563},
{168,769,901},{913,769,902},{917,769,904},{919,769,905},{921,769,906},{927,769,908},{933,769,910},{937,769,911},
{970,769,912},{921,776,938},{933,776,939},{945,769,940},{949,769,941},{951,769,942},{953,769,943},{971,769,944},
{953,776,970},{965,776,971},{959,769,972},{965,769,973},{969,769,974},{978,769,979},{978,776,980},{1045,768,1024},
{1045,776,1025},{1043,769,1027},{1030,776,1031},{1050,769,1036},{1048,768,1037},{1059,774,1038},{1048,774,1049},
{1080,774,1081},{1077,768,1104},{1077,776,1105},{1075,769,1107},{1110,776,1111},{1082,769,1116},{1080,768,1117},
{1091,774,1118},{1140,783,1142},{1141,783,1143},{1046,774,1217},{1078,774,1218},{1040,774,1232},{1072,774,1233},
{1040,776,1234},{1072,776,1235},{1045,774,1238},{1077,774,1239},{1240,776,1242},{1241,776,1243},{1046,776,1244},
{1078,776,1245},{1047,776,1246},{1079,776,1247},{1048,772,1250},{1080,772,1251},{1048,776,1252},{1080,776,1253},
{1054,776,1254},{1086,776,1255},{1256,776,1258},{1257,776,1259},{1069,776,1260},{1101,776,1261},{1059,772,1262},
{1091,772,1263},{1059,776,1264},{1091,776,1265},{1059,779,1266},{1091,779,1267},{1063,776,1268},{1095,776,1269},
{1067,776,1272},{1099,776,1273},{1575,1619,1570},{1575,1620,1571},{1608,1620,1572},{1575,1621,1573},{1610,1620,1574},
{1749,1620,1728},{1729,1620,1730},{1746,1620,1747},{2344,2364,2345},{2352,2364,2353},{2355,2364,2356},
{2503,2494,2507},{2503,2519,2508},{2887,2902,2888},{2887,2878,2891},{2887,2903,2892},{2962,3031,2964},
{3014,3006,3018},{3015,3006,3019},{3014,3031,3020},{3142,3158,3144},{3263,3285,3264},{3270,3285,3271},
{3270,3286,3272},{3270,3266,3274},{3274,3285,3275},{3398,3390,3402},{3399,3390,3403},{3398,3415,3404},
{3545,3530,3546},{3545,3535,3548},{3548,3530,3549},{3545,3551,3550},{4133,4142,4134},{6917,6965,6918},
{6919,6965,6920},{6921,6965,6922},{6923,6965,6924},{6925,6965,6926},{6929,6965,6930},{6970,6965,6971},
{6972,6965,6973},{6974,6965,6976},{6975,6965,6977},{6978,6965,6979},{65,805,7680},{97,805,7681},{66,775,7682},
{98,775,7683},{66,803,7684},{98,803,7685},{66,817,7686},{98,817,7687},{199,769,7688},{231,769,7689},{68,775,7690},
{100,775,7691},{68,803,7692},{100,803,7693},{68,817,7694},{100,817,7695},{68,807,7696},{100,807,7697},{68,813,7698},
{100,813,7699},{274,768,7700},{275,768,7701},{274,769,7702},{275,769,7703},{69,813,7704},{101,813,7705},{69,816,7706},
{101,816,7707},{552,774,7708},{553,774,7709},{70,775,7710},{102,775,7711},{71,772,7712},{103,772,7713},{72,775,7714},
{104,775,7715},{72,803,7716},{104,803,7717},{72,776,7718},{104,776,7719},{72,807,7720},{104,807,7721},{72,814,7722},
{104,814,7723},{73,816,7724},{105,816,7725},{207,769,7726},{239,769,7727},{75,769,7728},{107,769,7729},{75,803,7730},
{107,803,7731},{75,817,7732},{107,817,7733},{76,803,7734},{108,803,7735},{7734,772,7736},{7735,772,7737},
{76,817,7738},{108,817,7739},{76,813,7740},{108,813,7741},{77,769,7742},{109,769,7743},{77,775,7744},{109,775,7745},
{77,803,7746},{109,803,7747},{78,775,7748},{110,775,7749},{78,803,7750},{110,803,7751},{78,817,7752},{110,817,7753},
{78,813,7754},{110,813,7755},{213,769,7756},{245,769,7757},{213,776,7758},{245,776,7759},{332,768,7760},
{333,768,7761},{332,769,7762},{333,769,7763},{80,769,7764},{112,769,7765},{80,775,7766},{112,775,7767},{82,775,7768},
{114,775,7769},{82,803,7770},{114,803,7771},{7770,772,7772},{7771,772,7773},{82,817,7774},{114,817,7775},
{83,775,7776},{115,775,7777},{83,803,7778},{115,803,7779},{346,775,7780},{347,775,7781},{352,775,7782},{353,775,7783},
{7778,775,7784},{7779,775,7785},{84,775,7786},{116,775,7787},{84,803,7788},{116,803,7789},{84,817,7790},
{116,817,7791},{84,813,7792},{116,813,7793},{85,804,7794},{117,804,7795},{85,816,7796},{117,816,7797},{85,813,7798},
{117,813,7799},{360,769,7800},{361,769,7801},{362,776,7802},{363,776,7803},{86,771,7804},{118,771,7805},{86,803,7806},
{118,803,7807},{87,768,7808},{119,768,7809},{87,769,7810},{119,769,7811},{87,776,7812},{119,776,7813},{87,775,7814},
{119,775,7815},{87,803,7816},{119,803,7817},{88,775,7818},{120,775,7819},{88,776,7820},{120,776,7821},{89,775,7822},
{121,775,7823},{90,770,7824},{122,770,7825},{90,803,7826},{122,803,7827},{90,817,7828},{122,817,7829},{104,817,7830},
{116,776,7831},{119,778,7832},{121,778,7833},{383,775,7835},{65,803,7840},{97,803,7841},{65,777,7842},{97,777,7843},
{194,769,7844},{226,769,7845},{194,768,7846},{226,768,7847},{194,777,7848},{226,777,7849},{194,771,7850},
{226,771,7851},{7840,770,7852},{7841,770,7853},{258,769,7854},{259,769,7855},{258,768,7856},{259,768,7857},
{258,777,7858},{259,777,7859},{258,771,7860},{259,771,7861},{7840,774,7862},{7841,774,7863},{69,803,7864},
{101,803,7865},{69,777,7866},{101,777,7867},{69,771,7868},{101,771,7869},{202,769,7870},{234,769,7871},{202,768,7872},
{234,768,7873},{202,777,7874},{234,777,7875},{202,771,7876},{234,771,7877},{7864,770,7878},{7865,770,7879},
{73,777,7880},{105,777,7881},{73,803,7882},{105,803,7883},{79,803,7884},{111,803,7885},{79,777,7886},{111,777,7887},
{212,769,7888},{244,769,7889},{212,768,7890},{244,768,7891},{212,777,7892},{244,777,7893},{212,771,7894},
{244,771,7895},{7884,770,7896},{7885,770,7897},{416,769,7898},{417,769,7899},{416,768,7900},{417,768,7901},
{416,777,7902},{417,777,7903},{416,771,7904},{417,771,7905},{416,803,7906},{417,803,7907},{85,803,7908},
{117,803,7909},{85,777,7910},{117,777,7911},{431,769,7912},{432,769,7913},{431,768,7914},{432,768,7915},
{431,777,7916},{432,777,7917},{431,771,7918},{432,771,7919},{431,803,7920},{432,803,7921},{89,768,7922},
{121,768,7923},{89,803,7924},{121,803,7925},{89,777,7926},{121,777,7927},{89,771,7928},{121,771,7929},{945,787,7936},
{945,788,7937},{7936,768,7938},{7937,768,7939},{7936,769,7940},{7937,769,7941},{7936,834,7942},{7937,834,7943},
{913,787,7944},{913,788,7945},{7944,768,7946},{7945,768,7947},{7944,769,7948},{7945,769,7949},{7944,834,7950},
{7945,834,7951},{949,787,7952},{949,788,7953},{7952,768,7954},{7953,768,7955},{7952,769,7956},{7953,769,7957},
{917,787,7960},{917,788,7961},{7960,768,7962},{7961,768,7963},{7960,769,7964},{7961,769,7965},{951,787,7968},
{951,788,7969},{7968,768,7970},{7969,768,7971},{7968,769,7972},{7969,769,7973},{7968,834,7974},{7969,834,7975},
{919,787,7976},{919,788,7977},{7976,768,7978},{7977,768,7979},{7976,769,7980},{7977,769,7981},{7976,834,7982},
{7977,834,7983},{953,787,7984},{953,788,7985},{7984,768,7986},{7985,768,7987},{7984,769,7988},{7985,769,7989},
{7984,834,7990},{7985,834,7991},{921,787,7992},{921,788,7993},{7992,768,7994},{7993,768,7995},{7992,769,7996},
{7993,769,7997},{7992,834,7998},{7993,834,7999},{959,787,8000},{959,788,8001},{8000,768,8002},{8001,768,8003},
{8000,769,8004},{8001,769,8005},{927,787,8008},{927,788,8009},{8008,768,8010},{8009,768,8011},{8008,769,8012},
{8009,769,8013},{965,787,8016},{965,788,8017},{8016,768,8018},{8017,768,8019},{8016,769,8020},{8017,769,8021},
{8016,834,8022},{8017,834,8023},{933,788,8025},{8025,768,8027},{8025,769,8029},{8025,834,8031},{969,787,8032},
{969,788,8033},{8032,768,8034},{8033,768,8035},{8032,769,8036},{8033,769,8037},{8032,834,8038},{8033,834,8039},
{937,787,8040},{937,788,8041},{8040,768,8042},{8041,768,8043},{8040,769,8044},{8041,769,8045},{8040,834,8046},
{8041,834,8047},{945,768,8048},{949,768,8050},{951,768,8052},{953,768,8054},{959,768,8056},{965,768,8058},
{969,768,8060},{7936,837,8064},{7937,837,8065},{7938,837,8066},{7939,837,8067},{7940,837,8068},{7941,837,8069},
{7942,837,8070},{7943,837,8071},{7944,837,8072},{7945,837,8073},{7946,837,8074},{7947,837,8075},{7948,837,8076},
{7949,837,8077},{7950,837,8078},{7951,837,8079},{7968,837,8080},{7969,837,8081},{7970,837,8082},{7971,837,8083},
{7972,837,8084},{7973,837,8085},{7974,837,8086},{7975,837,8087},{7976,837,8088},{7977,837,8089},{7978,837,8090},
{7979,837,8091},{7980,837,8092},{7981,837,8093},{7982,837,8094},{7983,837,8095},{8032,837,8096},{8033,837,8097},
{8034,837,8098},{8035,837,8099},{8036,837,8100},{8037,837,8101},{8038,837,8102},{8039,837,8103},{8040,837,8104},
{8041,837,8105},{8042,837,8106},{8043,837,8107},{8044,837,8108},{8045,837,8109},{8046,837,8110},{8047,837,8111},
{945,774,8112},{945,772,8113},{8048,837,8114},{945,837,8115},{940,837,8116},{945,834,8118},{8118,837,8119},
{913,774,8120},{913,772,8121},{913,768,8122},{913,837,8124},{168,834,8129},{8052,837,8130},{951,837,8131},
{942,837,8132},{951,834,8134},{8134,837,8135},{917,768,8136},{919,768,8138},{919,837,8140},{8127,768,8141},
{8127,769,8142},{8127,834,8143},{953,774,8144},{953,772,8145},{970,768,8146},{953,834,8150},{970,834,8151},
{921,774,8152},{921,772,8153},{921,768,8154},{8190,768,8157},{8190,769,8158},{8190,834,8159},{965,774,8160},
{965,772,8161},{971,768,8162},{961,787,8164},{961,788,8165},{965,834,8166},{971,834,8167},{933,774,8168},
{933,772,8169},{933,768,8170},{929,788,8172},{168,768,8173},{8060,837,8178},{969,837,8179},{974,837,8180},
{969,834,8182},{8182,837,8183},{927,768,8184},{937,768,8186},{937,837,8188},{8592,824,8602},{8594,824,8603},
{8596,824,8622},{8656,824,8653},{8660,824,8654},{8658,824,8655},{8707,824,8708},{8712,824,8713},{8715,824,8716},
{8739,824,8740},{8741,824,8742},{8764,824,8769},{8771,824,8772},{8773,824,8775},{8776,824,8777},{61,824,8800},
{8801,824,8802},{8781,824,8813},{60,824,8814},{62,824,8815},{8804,824,8816},{8805,824,8817},{8818,824,8820},
{8819,824,8821},{8822,824,8824},{8823,824,8825},{8826,824,8832},{8827,824,8833},{8834,824,8836},{8835,824,8837},
{8838,824,8840},{8839,824,8841},{8866,824,8876},{8872,824,8877},{8873,824,8878},{8875,824,8879},{8828,824,8928},
{8829,824,8929},{8849,824,8930},{8850,824,8931},{8882,824,8938},{8883,824,8939},{8884,824,8940},{8885,824,8941},
{12363,12441,12364},{12365,12441,12366},{12367,12441,12368},{12369,12441,12370},{12371,12441,12372},
{12373,12441,12374},{12375,12441,12376},{12377,12441,12378},{12379,12441,12380},{12381,12441,12382},
{12383,12441,12384},{12385,12441,12386},{12388,12441,12389},{12390,12441,12391},{12392,12441,12393},
{12399,12441,12400},{12399,12442,12401},{12402,12441,12403},{12402,12442,12404},{12405,12441,12406},
{12405,12442,12407},{12408,12441,12409},{12408,12442,12410},{12411,12441,12412},{12411,12442,12413},
{12358,12441,12436},{12445,12441,12446},{12459,12441,12460},{12461,12441,12462},{12463,12441,12464},
{12465,12441,12466},{12467,12441,12468},{12469,12441,12470},{12471,12441,12472},{12473,12441,12474},
{12475,12441,12476},{12477,12441,12478},{12479,12441,12480},{12481,12441,12482},{12484,12441,12485},
{12486,12441,12487},{12488,12441,12489},{12495,12441,12496},{12495,12442,12497},{12498,12441,12499},
{12498,12442,12500},{12501,12441,12502},{12501,12442,12503},{12504,12441,12505},{12504,12442,12506},
{12507,12441,12508},{12507,12442,12509},{12454,12441,12532},{12527,12441,12535},{12528,12441,12536},
{12529,12441,12537},{12530,12441,12538},{12541,12441,12542},{67026,775,67017},{67034,775,67044},{69785,69818,69786},
{69787,69818,69788},{69797,69818,69803},{69937,69927,69934},{69938,69927,69935},{70471,70462,70475},
{70471,70487,70476},{70530,70601,70531},{70532,70587,70533},{70539,70594,70542},{70544,70601,70545},
{70594,70594,70597},{70594,70584,70599},{70594,70601,70600},{70841,70842,70843},{70841,70832,70844},
{70841,70845,70846},{71096,71087,71098},{71097,71087,71099},{71989,71984,71992},{90398,90398,90401},
{90398,90409,90402},{90398,90399,90403},{90409,90399,90404},{90398,90400,90405},{90401,90399,90406},
{90402,90399,90407},{90401,90400,90408},{93543,93543,93544},{93539,93543,93545},{93545,93543,93546},
};
