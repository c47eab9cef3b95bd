------------------------------- MODULE Consts -------------------------------
(* Generated by tools/mkconsts.py.  floor(pi 2^HW), floor(pi 2^CW),            *)
(* floor(ln(2) 2^CW), floor(ln(10) 2^CW) as BigInts; ConstCheck.tla recomputes *)
(* them from their series.                                                     *)
CW == 2400
HW == 17600
PiHuge ==
<<1, 12101, 19776, 30541, 1958, 6903, 22194, 1893, 19198, 16461, 5904, 21246, 2683, 24898, 2216,
          9673, 31511, 7737, 17246, 16385, 9658, 15229, 3400, 18493, 14489, 2084, 20904, 2049, 30373,
          18098, 30622, 13629, 15105, 8439, 554, 9425, 9033, 25033, 18820, 15869, 16544, 26772,
          31412, 24484, 7535, 15800, 29669, 14776, 7845, 4016, 17359, 21752, 30976, 5855, 5086,
          19006, 27678, 15928, 19170, 4305, 1582, 29748, 15468, 30366, 13231, 2253, 8363, 28492,
          23454, 27805, 17363, 16707, 27315, 1277, 2665, 15117, 9169, 18916, 31067, 8194, 22014,
          23044, 3460, 5168, 15702, 5786, 26293, 30309, 10928, 28632, 15825, 24898, 8399, 30728,
          21696, 19611, 26427, 29351, 267, 20865, 24435, 30108, 7110, 30431, 4381, 29036, 16345,
          1881, 7154, 10457, 24082, 19676, 14384, 9023, 26748, 30391, 12112, 17759, 9537, 4259, 44,
          526, 26695, 2757, 26787, 5257, 5539, 28608, 1197, 12933, 11557, 10285, 15396, 18724, 14702,
          12506, 2706, 9087, 3949, 775, 17437, 28616, 9416, 5859, 20729, 20322, 17569, 30213, 15185,
          17588, 14588, 8531, 20291, 7801, 2992, 13444, 27150, 29617, 11433, 12013, 30645, 29762,
          3717, 16195, 22106, 29023, 28041, 31414, 21845, 13987, 24005, 279, 28831, 16899, 2978,
          20612, 23537, 26724, 10675, 29992, 25498, 26563, 11325, 2619, 30079, 18175, 24169, 12235,
          17095, 17170, 3511, 21049, 18412, 12372, 9820, 11181, 28056, 26988, 22600, 32710, 16865,
          25499, 17636, 5228, 11301, 5503, 5971, 24086, 28624, 5854, 16301, 8088, 16718, 25432,
          20513, 6660, 12171, 28051, 28195, 3253, 21695, 30857, 7942, 24426, 12574, 6526, 11247, 614,
          15101, 12696, 27265, 15846, 4316, 21952, 15827, 19654, 21925, 9154, 2886, 4122, 23976,
          25946, 21362, 141, 1621, 7135, 21987, 8903, 14130, 29572, 22373, 11634, 15589, 8906, 3084,
          8623, 30566, 24084, 5973, 30767, 11508, 9117, 3604, 9235, 14766, 20405, 1735, 31400, 10224,
          24627, 14258, 15064, 21528, 5068, 10784, 1660, 15275, 19924, 11805, 16856, 5140, 8630,
          2090, 14526, 27355, 30682, 25949, 25934, 28055, 9487, 23965, 24587, 17756, 6230, 11012,
          10585, 13869, 28606, 26043, 8972, 26617, 4120, 26362, 27743, 25665, 9851, 2859, 3825,
          31543, 11313, 19933, 27519, 23413, 4882, 4590, 3740, 657, 10134, 25400, 18819, 3228, 11069,
          27706, 15004, 6074, 24399, 16709, 5319, 32286, 30885, 17876, 27219, 10357, 11361, 5741,
          9988, 25788, 11852, 4170, 18843, 20146, 1000, 8688, 31175, 23756, 26076, 29778, 29723,
          25201, 32369, 28387, 2732, 11551, 24074, 3100, 16070, 22347, 22286, 23656, 7073, 2718,
          11294, 30078, 27258, 4063, 22911, 31965, 31907, 21124, 22820, 12406, 28740, 15193, 31292,
          24122, 3413, 19842, 4377, 11454, 12767, 11277, 5349, 16902, 32295, 14575, 25821, 9845, 8,
          1184, 17685, 19640, 20682, 20646, 5650, 1396, 23699, 6617, 3540, 15137, 19589, 3107, 28444,
          1957, 4499, 6966, 12436, 16204, 24903, 7533, 31468, 6616, 11766, 26442, 31147, 30611,
          13957, 14852, 18200, 29872, 13853, 31782, 24169, 859, 18708, 13752, 7982, 9444, 14676,
          31225, 11724, 30146, 11490, 1032, 22931, 28223, 31337, 19838, 19192, 3671, 7788, 15531,
          6012, 8265, 24650, 31077, 8267, 32449, 832, 14241, 14600, 7899, 11489, 29348, 13076, 2006,
          26694, 16477, 12082, 21532, 25839, 18028, 7715, 9160, 10525, 25503, 27848, 1565, 16192,
          2608, 5190, 13557, 15607, 6733, 13686, 14737, 2923, 2494, 24152, 10076, 20928, 4474, 18291,
          10340, 16346, 25929, 16279, 12834, 28532, 1168, 22748, 1780, 18582, 11173, 9163, 7843,
          27523, 23039, 512, 15880, 16496, 24687, 1280, 18174, 3766, 23640, 5874, 22702, 29971,
          25715, 27365, 4091, 24839, 7939, 1847, 21664, 19478, 15586, 10347, 21532, 24852, 16282,
          8552, 21729, 20909, 14528, 5065, 24057, 20398, 13727, 2408, 6332, 2171, 20016, 14382,
          25804, 7226, 17218, 23840, 665, 5495, 14209, 21390, 10661, 3133, 30708, 7175, 17317, 32602,
          20409, 19817, 29180, 22874, 8526, 6747, 10545, 30973, 16849, 3649, 8808, 26646, 9748,
          29961, 1354, 25816, 30472, 11033, 19864, 6420, 32683, 6679, 25299, 10801, 14181, 23334,
          4605, 6190, 20087, 24445, 4943, 6849, 27509, 25146, 804, 19377, 14980, 17627, 26194, 9942,
          21383, 9399, 8429, 23457, 9164, 2234, 8002, 9854, 27373, 15106, 19594, 24917, 5986, 13317,
          28158, 26598, 3901, 13906, 14028, 30277, 5382, 27755, 25901, 9343, 14559, 31573, 5965, 2,
          29498, 30337, 16712, 4269, 24119, 31689, 27367, 30083, 5258, 6739, 165, 27972, 19024,
          12618, 14671, 20939, 8409, 29514, 20636, 8293, 18574, 23802, 19538, 221, 16787, 14789,
          1483, 28296, 1002, 14322, 11082, 25206, 24737, 10872, 16205, 30055, 7304, 25942, 14115,
          31746, 6989, 9316, 16734, 24291, 1498, 9856, 27588, 7276, 5776, 9486, 4608, 31225, 7536,
          4541, 6856, 8808, 15775, 12044, 22427, 22335, 23785, 12127, 27272, 8625, 23293, 25975,
          23104, 24474, 20643, 16913, 3682, 25843, 15234, 149, 17613, 22910, 18120, 10970, 28730,
          12558, 23486, 5088, 16890, 8511, 19877, 7721, 22993, 15605, 3158, 29928, 27358, 12350,
          11526, 31262, 24643, 32674, 14998, 30698, 7214, 25336, 30992, 21234, 6197, 27882, 30920,
          20943, 1593, 8767, 29955, 31445, 905, 892, 2376, 2232, 18705, 18605, 24464, 28207, 29182,
          25901, 18234, 23343, 7288, 6018, 32313, 7434, 4570, 26676, 18922, 29035, 23324, 25514,
          1164, 23273, 31561, 9590, 4058, 11249, 15868, 16890, 24590, 26484, 23366, 18482, 29815,
          25798, 925, 27725, 6935, 14307, 21657, 31926, 28910, 6032, 6135, 9969, 5234, 22109, 24328,
          7789, 10738, 23450, 9126, 12471, 26027, 1199, 12407, 16200, 7884, 4346, 9024, 25536, 6893,
          8186, 6428, 29334, 22621, 23335, 26322, 15701, 13410, 29484, 30092, 16368, 5183, 10486,
          10885, 10095, 30907, 25325, 20714, 10246, 14278, 15306, 14511, 2681, 1788, 992, 12137,
          5324, 17328, 32035, 27637, 18678, 5465, 20565, 22805, 21511, 2711, 24939, 16378, 21595,
          16867, 8751, 7014, 31358, 18258, 9164, 30271, 6139, 15609, 10134, 1422, 12688, 20608, 2774,
          16484, 29801, 19973, 13655, 32635, 28276, 12188, 21003, 26655, 5921, 17082, 3258, 30328,
          19346, 908, 3880, 31436, 19755, 9969, 15616, 14300, 12098, 22447, 17732, 6402, 21683,
          22916, 4601, 16266, 7131, 10614, 27451, 29541, 21580, 25245, 29670, 28149, 23102, 4657,
          6506, 15748, 31090, 1570, 2550, 30408, 27219, 23904, 16390, 31241, 13186, 23739, 5315,
          22223, 5126, 29183, 24311, 28113, 26467, 11939, 14258, 4899, 12896, 10681, 6919, 25473,
          19751, 32598, 3504, 16969, 13314, 27538, 14288, 1146, 2668, 31634, 16365, 24771, 4061,
          12571, 21418, 19613, 1450, 31414, 9289, 26627, 18460, 17120, 30168, 16606, 31483, 23642,
          23603, 12436, 27935, 14287, 6469, 23820, 8755, 6260, 26660, 19239, 6578, 187, 14767, 19002,
          1989, 21701, 28594, 2575, 3836, 29277, 31291, 22566, 15405, 7031, 4922, 5482, 27082, 19207,
          12136, 12456, 843, 21133, 3846, 31345, 6250, 1614, 6759, 21209, 3035, 13122, 25116, 29547,
          10119, 30757, 27080, 16392, 4624, 9237, 24756, 18213, 32016, 31169, 28015, 2590, 23219,
          3740, 5096, 1137, 18146, 30130, 8962, 14412, 22215, 19499, 21982, 28811, 3259, 30272,
          24669, 31064, 17697, 3404, 20402, 313, 22646, 4297, 26152, 20534, 4863, 19838, 13499, 4877,
          25554, 15261, 5510, 593, 18766, 25553, 19701, 28036, 11916, 22507, 4894, 14095, 30810,
          29409, 8044, 774, 22365, 21730, 10795, 24440, 17805, 28832, 15166, 23858, 24348, 17239,
          8532, 20893, 17671, 24992, 19653, 5846, 10948, 13589, 19001, 171, 8273, 4895, 2438, 2793,
          27365, 21802, 9715, 19626, 29059, 11010, 32165, 5605, 18910, 6309, 16829, 10991, 31580,
          29777, 15105, 16849, 6951, 3079, 24634, 14688, 14823, 18300, 3507, 8983, 4190, 30821,
          24709, 18000, 18112, 7726, 9729, 9566, 13646, 19992, 22965, 1204, 4215, 23205, 12007,
          17065, 22048, 17894, 22641, 7532, 15818, 11172, 24793, 26543, 32036, 32593, 9304, 7379,
          17757, 1731, 13970, 716, 25535, 28994, 498, 28176, 17843, 15772, 6548, 9364, 8166, 30870,
          4165, 29945, 31322, 20787, 32470, 7221, 28142, 3439, 23504, 31461, 12479, 32173, 27021,
          8564, 29772, 32141, 2425, 11187, 18523, 18620, 21616, 14006, 24885, 28319, 31824, 28562,
          12454, 26117, 4294, 26269, 6579, 24362, 4983, 29088, 1944, 10561, 18580, 2509, 9787, 6013,
          20488, 15971, 2214, 18881, 19008, 3688, 220, 17687, 4889, 4518, 5772, 21572, 17398, 100>>
PiC ==
<<1, 18584, 30494, 6620, 17580, 14354, 17994, 22302, 4711, 13164, 11636, 31423, 15512, 27064, 1986,
          13207, 6395, 29720, 2746, 11943, 24913, 14075, 556, 31621, 18905, 29417, 24312, 21018,
          29962, 7820, 552, 5901, 23142, 4278, 21846, 26024, 11857, 17413, 32002, 6296, 9292, 5207,
          11095, 20137, 10543, 3685, 2956, 5464, 6125, 30895, 5710, 29893, 15885, 29015, 18394, 1954,
          17880, 7694, 7385, 26720, 769, 7627, 29135, 20027, 23661, 31000, 5250, 6083, 17156, 562,
          14902, 1265, 31024, 14634, 25002, 22128, 21197, 23589, 5251, 7893, 9591, 533, 6833, 17967,
          12995, 10475, 4590, 25949, 16134, 4925, 18409, 25594, 19746, 29926, 3626, 18486, 12724,
          31766, 2845, 19338, 16399, 20336, 29229, 20972, 20684, 6436, 22783, 6084, 25730, 27559,
          20434, 23177, 22518, 14561, 16239, 16491, 5854, 32727, 13701, 14317, 21324, 12555, 14242,
          26604, 19531, 27997, 29250, 16965, 23203, 21941, 32521, 17268, 19426, 7036, 5509, 6960,
          29830, 20276, 10445, 24313, 155, 25485, 1084, 20810, 13892, 27726, 30001, 8379, 3712, 6643,
          1093, 590, 8786, 28787, 23558, 26152, 6296, 12429, 4276, 23202, 4639, 3>>
Ln2C ==
<<1, 5073, 17125, 29242, 6374, 21831, 5124, 9937, 22468, 21296, 10701, 21083, 13505, 26873, 5848,
          5468, 14839, 6882, 17194, 22114, 10731, 13912, 13942, 17803, 17830, 25793, 12448, 17108,
          23290, 23345, 9061, 23767, 967, 27825, 22720, 29549, 29065, 14810, 15407, 24172, 11944,
          11413, 27162, 20572, 16466, 12484, 20308, 22335, 23296, 1869, 7428, 30802, 31826, 10695,
          26349, 22824, 6554, 26267, 14922, 22565, 24206, 8672, 2435, 21587, 18889, 20069, 6552,
          13519, 9166, 29483, 10364, 14706, 17608, 30171, 3086, 22621, 1436, 24896, 17531, 24395,
          32010, 31774, 15067, 14682, 3351, 32341, 7953, 17228, 18480, 23547, 9206, 21288, 12351,
          32092, 8679, 26097, 27926, 25506, 24129, 1564, 11005, 9350, 1542, 12110, 28627, 19189,
          19089, 18037, 29757, 14124, 32489, 7573, 20598, 9583, 16502, 17625, 24093, 7849, 4055,
          24334, 2200, 19418, 2613, 11171, 12562, 27809, 10194, 28169, 2228, 15145, 20142, 1296,
          2497, 25436, 9685, 17467, 32013, 31562, 10917, 24918, 23908, 1758, 3780, 31214, 32021,
          2986, 11959, 10292, 12652, 10635, 25806, 15568, 22432, 29430, 12295, 3790, 24143, 30618,
          31289, 1533, 22713>>
Ln10C ==
<<1, 4756, 21296, 4266, 7348, 29232, 29272, 18357, 26202, 26805, 2022, 25527, 20301, 1604, 12476,
          2370, 16272, 4471, 15461, 6186, 26311, 9683, 29435, 6600, 7647, 27026, 27405, 1126, 18838,
          28290, 27664, 31743, 23255, 14022, 32497, 28687, 29002, 22584, 18972, 24654, 31854, 6109,
          20293, 11766, 15701, 10834, 19880, 31501, 4066, 8705, 24151, 31473, 6731, 4658, 14108,
          3693, 8937, 29937, 29167, 29697, 21814, 4635, 22468, 4192, 22094, 9655, 9213, 7615, 20583,
          14217, 15150, 27205, 10276, 12408, 24478, 3648, 8120, 5621, 5237, 23325, 15007, 24113,
          22836, 18412, 17204, 2501, 5941, 21940, 12601, 27578, 21865, 30972, 15432, 31328, 18818,
          9614, 3389, 2109, 12143, 1405, 24854, 5078, 15438, 3396, 9837, 5690, 644, 12854, 30315,
          29337, 25565, 21017, 30355, 17798, 14290, 11068, 22025, 22963, 32247, 22577, 1889, 27291,
          29618, 18705, 20817, 15912, 15382, 5846, 1482, 25104, 23675, 11695, 8572, 1552, 12562,
          26668, 15898, 177, 1630, 19655, 523, 27754, 363, 5679, 23269, 1984, 29712, 15457, 8656,
          6014, 31981, 4076, 20933, 19496, 23574, 28002, 23882, 11013, 21844, 3549, 9915, 2>>
=============================================================================
