---------------------------- MODULE WindowTables ----------------------------
(* GENERATED by tools/gen_tables.py, do not edit.  Entry i+1 is for magnitude *)
(* i/100. Space in metres, time in 1/10000 day, rounded down.                 *)
SpaceGK == <<
  9616, 9643, 9671, 9698, 9726, 9754, 9782, 9809, 9837, 9866,
  9894, 9922, 9950, 9979, 10007, 10036, 10064, 10093, 10122, 10151,
  10180, 10209, 10238, 10267, 10297, 10326, 10355, 10385, 10415, 10444,
  10474, 10504, 10534, 10564, 10594, 10625, 10655, 10685, 10716, 10746,
  10777, 10808, 10839, 10870, 10901, 10932, 10963, 10994, 11026, 11057,
  11089, 11120, 11152, 11184, 11216, 11248, 11280, 11312, 11344, 11377,
  11409, 11442, 11475, 11507, 11540, 11573, 11606, 11639, 11673, 11706,
  11739, 11773, 11806, 11840, 11874, 11908, 11942, 11976, 12010, 12044,
  12079, 12113, 12148, 12182, 12217, 12252, 12287, 12322, 12357, 12393,
  12428, 12464, 12499, 12535, 12571, 12606, 12642, 12679, 12715, 12751,
  12787, 12824, 12861, 12897, 12934, 12971, 13008, 13045, 13082, 13120,
  13157, 13195, 13232, 13270, 13308, 13346, 13384, 13422, 13461, 13499,
  13538, 13576, 13615, 13654, 13693, 13732, 13771, 13811, 13850, 13889,
  13929, 13969, 14009, 14049, 14089, 14129, 14169, 14210, 14250, 14291,
  14332, 14373, 14414, 14455, 14496, 14538, 14579, 14621, 14663, 14704,
  14746, 14788, 14831, 14873, 14915, 14958, 15001, 15044, 15087, 15130,
  15173, 15216, 15260, 15303, 15347, 15391, 15435, 15479, 15523, 15567,
  15612, 15656, 15701, 15746, 15791, 15836, 15881, 15926, 15972, 16017,
  16063, 16109, 16155, 16201, 16247, 16294, 16340, 16387, 16434, 16480,
  16527, 16575, 16622, 16669, 16717, 16765, 16813, 16861, 16909, 16957,
  17005, 17054, 17103, 17151, 17200, 17250, 17299, 17348, 17398, 17447,
  17497, 17547, 17597, 17647, 17698, 17748, 17799, 17850, 17901, 17952,
  18003, 18055, 18106, 18158, 18210, 18262, 18314, 18366, 18418, 18471,
  18524, 18577, 18630, 18683, 18736, 18790, 18843, 18897, 18951, 19005,
  19059, 19114, 19168, 19223, 19278, 19333, 19388, 19444, 19499, 19555,
  19611, 19666, 19723, 19779, 19835, 19892, 19949, 20006, 20063, 20120,
  20178, 20235, 20293, 20351, 20409, 20467, 20526, 20584, 20643, 20702,
  20761, 20820, 20880, 20939, 20999, 21059, 21119, 21180, 21240, 21301,
  21361, 21422, 21484, 21545, 21606, 21668, 21730, 21792, 21854, 21917,
  21979, 22042, 22105, 22168, 22231, 22295, 22358, 22422, 22486, 22550,
  22615, 22679, 22744, 22809, 22874, 22939, 23005, 23070, 23136, 23202,
  23269, 23335, 23402, 23468, 23535, 23603, 23670, 23738, 23805, 23873,
  23941, 24010, 24078, 24147, 24216, 24285, 24354, 24424, 24494, 24564,
  24634, 24704, 24775, 24845, 24916, 24987, 25059, 25130, 25202, 25274,
  25346, 25418, 25491, 25564, 25637, 25710, 25783, 25857, 25931, 26005,
  26079, 26153, 26228, 26303, 26378, 26453, 26529, 26605, 26681, 26757,
  26833, 26910, 26987, 27064, 27141, 27218, 27296, 27374, 27452, 27531,
  27609, 27688, 27767, 27846, 27926, 28005, 28085, 28166, 28246, 28327,
  28407, 28489, 28570, 28651, 28733, 28815, 28898, 28980, 29063, 29146,
  29229, 29312, 29396, 29480, 29564, 29648, 29733, 29818, 29903, 29989,
  30074, 30160, 30246, 30332, 30419, 30506, 30593, 30680, 30768, 30856,
  30944, 31032, 31121, 31210, 31299, 31388, 31478, 31567, 31658, 31748,
  31839, 31929, 32021, 32112, 32204, 32296, 32388, 32480, 32573, 32666,
  32759, 32853, 32947, 33041, 33135, 33229, 33324, 33419, 33515, 33611,
  33706, 33803, 33899, 33996, 34093, 34190, 34288, 34386, 34484, 34582,
  34681, 34780, 34879, 34979, 35079, 35179, 35279, 35380, 35481, 35582,
  35684, 35786, 35888, 35991, 36093, 36196, 36300, 36403, 36507, 36611,
  36716, 36821, 36926, 37031, 37137, 37243, 37349, 37456, 37563, 37670,
  37778, 37885, 37994, 38102, 38211, 38320, 38429, 38539, 38649, 38759,
  38870, 38981, 39092, 39204, 39316, 39428, 39541, 39653, 39767, 39880,
  39994, 40108, 40223, 40337, 40453, 40568, 40684, 40800, 40917, 41033,
  41150, 41268, 41386, 41504, 41622, 41741, 41860, 41980, 42100, 42220,
  42340, 42461, 42582, 42704, 42826, 42948, 43071, 43194, 43317, 43441,
  43565, 43689, 43814, 43939, 44064, 44190, 44316, 44443, 44570, 44697,
  44824, 44952, 45081, 45209, 45339, 45468, 45598, 45728, 45858, 45989,
  46121, 46252, 46384, 46517, 46650, 46783, 46916, 47050, 47185, 47319,
  47454, 47590, 47726, 47862, 47998, 48136, 48273, 48411, 48549, 48688,
  48826, 48966, 49106, 49246, 49386, 49527, 49669, 49811, 49953, 50095,
  50238, 50382, 50526, 50670, 50815, 50960, 51105, 51251, 51397, 51544,
  51691, 51839, 51987, 52135, 52284, 52433, 52583, 52733, 52883, 53034,
  53186, 53338, 53490, 53643, 53796, 53949, 54103, 54258, 54413, 54568,
  54724, 54880, 55037, 55194, 55351, 55509, 55668, 55827, 55986, 56146,
  56306, 56467, 56628, 56790, 56952, 57114, 57278, 57441, 57605, 57769,
  57934, 58100, 58266, 58432, 58599, 58766, 58934, 59102, 59271, 59440,
  59610, 59780, 59950, 60122, 60293, 60465, 60638, 60811, 60985, 61159,
  61333, 61508, 61684, 61860, 62037, 62214, 62391, 62569, 62748, 62927,
  63107, 63287, 63468, 63649, 63831, 64013, 64196, 64379, 64563, 64747,
  64932, 65117, 65303, 65489, 65676, 65864, 66052, 66240, 66429, 66619,
  66809, 67000, 67191, 67383, 67575, 67768, 67962, 68156, 68350, 68545,
  68741, 68937, 69134, 69332, 69529, 69728, 69927, 70127, 70327, 70528,
  70729, 70931, 71133, 71336, 71540, 71744, 71949, 72154, 72360, 72567,
  72774, 72982, 73190, 73399, 73609, 73819, 74030, 74241, 74453, 74665,
  74878, 75092, 75307, 75522, 75737, 75953, 76170, 76388, 76606, 76824,
  77044, 77264, 77484, 77705, 77927, 78150, 78373, 78597, 78821, 79046,
  79272, 79498, 79725, 79952, 80181, 80409, 80639, 80869, 81100, 81332,
  81564, 81797, 82030, 82264, 82499, 82735, 82971, 83208, 83445, 83683,
  83922, 84162, 84402, 84643, 84885, 85127, 85370, 85614, 85858, 86103,
  86349, 86596, 86843, 87091, 87339, 87589, 87839, 88089, 88341, 88593,
  88846, 89100, 89354, 89609, 89865, 90121, 90379, 90637, 90895, 91155,
  91415, 91676, 91938, 92200, 92463, 92727, 92992, 93257, 93524, 93791,
  94058, 94327, 94596, 94866, 95137, 95409, 95681, 95954, 96228, 96503,
  96778, 97055, 97332, 97609, 97888, 98168, 98448, 98729, 99011, 99293,
  99577, 99861, 100146, 100432, 100719, 101006, 101294, 101584, 101874, 102164,
  102456, 102749, 103042, 103336, 103631, 103927, 104224, 104521, 104819, 105119,
  105419, 105720, 106022, 106324, 106628, 106932, 107237, 107543, 107850, 108158,
  108467, 108777, 109087, 109399, 109711, 110024, 110338, 110653, 110969, 111286,
  111604, 111922, 112242, 112562, 112883, 113206, 113529, 113853, 114178, 114504,
  114831, 115159, 115487, 115817, 116148, 116479, 116812, 117145, 117480, 117815,
  118151, 118488, 118827, 119166, 119506, 119847, 120189, 120533, 120877, 121222,
  121568, 121915, 122263, 122612, 122962, 123313, 123665, 124018, 124372, 124727,
  125083, 125440, 125798, 126157, 126517, 126879, 127241, 127604, 127968, 128334,
  128700, 129067, 129436, 129805, 130176, 130547, 130920, 131294, 131669, 132045,
  132421, 132799, 133179, 133559, 133940, 134322, 134706, 135090, 135476, 135863,
  136251, 136640, 137030, 137421, 137813, 138206, 138601, 138997, 139393, 139791,
  140190, 140591, 140992, 141394, 141798, 142203, 142609, 143016, 143424, 143834,
  144244, 144656, 145069, 145483, 145898, 146315, 146733, 147151, 147572, 147993,
  148415, 148839, 149264, 149690, 150117, 150546, 150976, 151407, 151839, 152272,
  152707, 153143, 153580, 154018, 154458, 154899, 155341, 155785, 156229, 156675,
  157123, 157571, 158021, 158472, 158924, 159378, 159833, 160289, 160747, 161206,
  161666, 162127, 162590, 163054, 163520, 163987, 164455, 164924, 165395, 165867
>>
TimeGK == <<
  2837, 2873, 2909, 2945, 2982, 3020, 3058, 3096, 3135, 3174,
  3214, 3254, 3295, 3336, 3378, 3420, 3463, 3507, 3551, 3595,
  3640, 3686, 3732, 3779, 3826, 3874, 3923, 3972, 4022, 4072,
  4123, 4175, 4227, 4280, 4334, 4388, 4443, 4499, 4555, 4612,
  4670, 4728, 4788, 4848, 4909, 4970, 5032, 5095, 5159, 5224,
  5289, 5356, 5423, 5491, 5560, 5629, 5700, 5771, 5844, 5917,
  5991, 6066, 6142, 6219, 6297, 6376, 6456, 6537, 6619, 6702,
  6786, 6871, 6957, 7044, 7132, 7222, 7312, 7404, 7497, 7591,
  7686, 7782, 7880, 7978, 8078, 8180, 8282, 8386, 8491, 8598,
  8705, 8814, 8925, 9037, 9150, 9265, 9381, 9498, 9617, 9738,
  9860, 9984, 10109, 10235, 10364, 10494, 10625, 10758, 10893, 11030,
  11168, 11308, 11450, 11593, 11738, 11885, 12034, 12185, 12338, 12493,
  12649, 12808, 12968, 13131, 13295, 13462, 13631, 13802, 13975, 14150,
  14327, 14507, 14688, 14872, 15059, 15248, 15439, 15632, 15828, 16026,
  16227, 16431, 16637, 16845, 17056, 17270, 17486, 17706, 17928, 18152,
  18380, 18610, 18843, 19079, 19319, 19561, 19806, 20054, 20305, 20560,
  20818, 21078, 21343, 21610, 21881, 22155, 22433, 22714, 22999, 23287,
  23579, 23874, 24173, 24476, 24783, 25094, 25408, 25727, 26049, 26376,
  26706, 27041, 27380, 27723, 28070, 28422, 28778, 29139, 29504, 29874,
  30248, 30628, 31011, 31400, 31794, 32192, 32595, 33004, 33418, 33836,
  34260, 34690, 35125, 35565, 36011, 36462, 36919, 37382, 37850, 38324,
  38805, 39291, 39783, 40282, 40787, 41298, 41816, 42340, 42870, 43408,
  43952, 44502, 45060, 45625, 46197, 46776, 47362, 47956, 48557, 49165,
  49781, 50405, 51037, 51676, 52324, 52980, 53644, 54316, 54997, 55686,
  56384, 57091, 57806, 58531, 59264, 60007, 60759, 61520, 62291, 63072,
  63863, 64663, 65473, 66294, 67125, 67966, 68818, 69680, 70554, 71438,
  72333, 73240, 74157, 75087, 76028, 76981, 77946, 78922, 79911, 80913,
  81927, 82954, 83993, 85046, 86112, 87191, 88284, 89390, 90511, 91645,
  92794, 93956, 95134, 96326, 97533, 98756, 99994, 101247, 102516, 103800,
  105101, 106418, 107752, 109103, 110470, 111854, 113256, 114676, 116113, 117568,
  119041, 120533, 122044, 123573, 125122, 126690, 128278, 129886, 131514, 133162,
  134831, 136520, 138231, 139964, 141718, 143494, 145292, 147113, 148957, 150824,
  152714, 154628, 156566, 158528, 160515, 162526, 164563, 166626, 168714, 170828,
  172969, 175137, 177332, 179554, 181805, 184083, 186390, 188726, 191091, 193486,
  195911, 198366, 200852, 203370, 205918, 208499, 211112, 213758, 216437, 219149,
  221896, 224677, 227492, 230344, 233230, 236153, 239113, 242110, 245144, 248216,
  251327, 254477, 257666, 260895, 264165, 267476, 270828, 274222, 277659, 281138,
  284662, 288229, 291842, 295499, 299203, 302952, 306749, 310593, 314486, 318427,
  322418, 326459, 330550, 334693, 338887, 343134, 347435, 351789, 356198, 360662,
  365182, 369759, 374393, 379085, 383836, 388646, 393517, 398449, 403442, 408499,
  413618, 418802, 424050, 429365, 434746, 440194, 445711, 451297, 456953, 462680,
  468478, 474350, 480294, 486314, 492409, 498580, 504828, 511155, 517561, 524047,
  530615, 537265, 543998, 550816, 557719, 564709, 571786, 578952, 586208, 593555,
  600993, 608525, 616152, 623874, 631692, 639609, 647625, 655741, 663960, 672281,
  680706, 689237, 697875, 706621, 715477, 724444, 733523, 742716, 752024, 761449,
  770992, 780654, 790438, 800344, 810374, 820531, 830814, 841226, 851769, 862444,
  873252, 884196, 895278, 906498, 917859, 929362, 941009, 952802, 964743, 976834,
  989076, 1001472, 1014023, 1026731, 1039599, 1052628, 1065820, 1079177, 1092702, 1106397,
  1120263, 1134302, 1148518, 1162912, 1177486, 1192243, 1207185, 1222314, 1237633, 1253144,
  1268849, 1284751, 1300852, 1317155, 1333662, 1350376, 1367300, 1384436, 1401786, 1419354,
  1437143, 1455154, 1473390, 1491856, 1510553, 1529484, 1548652, 1568061, 1587712, 1607611,
  1627758, 1648158, 1668814, 1689728, 1710905, 1732347, 1754058, 1776041, 1798299, 1820836,
  1843656, 1866762, 1890157, 1913846, 1937831, 1962117, 1986707, 2011606, 2036816, 2062343,
  2088189, 2114360, 2140858, 2167689, 2194855, 2222363, 2250214, 2278415, 2306970, 2335882,
  2365157, 2394798, 2424811, 2455200, 2485970, 2517126, 2548672, 2580613, 2612955, 2645702,
  2678859, 2712432, 2746426, 2780846, 2815697, 2850985, 2886715, 2922893, 2959524, 2996615,
  3034170, 3072196, 3110699, 3149684, 3189157, 3229126, 3269595, 3310571, 3352061, 3394071,
  3436608, 3479677, 3523286, 3567442, 3612151, 3657421, 3703258, 3749669, 3796662, 3844244,
  3892422, 3941204, 3990598, 4040610, 4091249, 4142523, 4194440, 4247007, 4300233, 4354126,
  4408694, 4463946, 4519891, 4576537, 4633892, 4691967, 4750769, 4810309, 4870594, 4931635,
  4993441, 5056022, 5119387, 5183546, 5248509, 5314286, 5380888, 5448324, 5516606, 5585743,
  5655747, 5726628, 5798397, 5871066, 5944646, 6019147, 6094583, 6170963, 6248301, 6326609,
  6405897, 6486180, 6567468, 6649775, 6733114, 6817497, 6902938, 6989449, 7077045, 7165739,
  7255544, 7346474, 7438545, 7531769, 7626161, 7721736, 7818510, 7916496, 8015710, 8116167,
  8217883, 8320875, 8425156, 8530745, 8637657, 8745909, 8855518, 8966500, 9078874, 9192655,
  8849118, 8855640, 8862168, 8868700, 8875237, 8881779, 8888326, 8894878, 8901434, 8907995,
  8914561, 8921132, 8927708, 8934289, 8940874, 8947464, 8954059, 8960660, 8967264, 8973874,
  8980489, 8987108, 8993733, 9000362, 9006996, 9013635, 9020279, 9026928, 9033582, 9040240,
  9046904, 9053572, 9060246, 9066924, 9073607, 9080295, 9086988, 9093686, 9100389, 9107097,
  9113810, 9120528, 9127251, 9133978, 9140711, 9147449, 9154191, 9160939, 9167691, 9174449,
  9181211, 9187979, 9194751, 9201529, 9208311, 9215098, 9221891, 9228688, 9235491, 9242298,
  9249111, 9255928, 9262751, 9269578, 9276411, 9283249, 9290091, 9296939, 9303792, 9310649,
  9317512, 9324380, 9331253, 9338131, 9345014, 9351903, 9358796, 9365694, 9372598, 9379506,
  9386420, 9393339, 9400262, 9407191, 9414125, 9421064, 9428009, 9434958, 9441913, 9448872,
  9455837, 9462807, 9469782, 9476762, 9483747, 9490738, 9497733, 9504734, 9511740, 9518751,
  9525767, 9532789, 9539816, 9546847, 9553884, 9560926, 9567974, 9575026, 9582084, 9589147,
  9596215, 9603289, 9610367, 9617451, 9624540, 9631634, 9638734, 9645838, 9652948, 9660063,
  9667184, 9674310, 9681440, 9688577, 9695718, 9702865, 9710017, 9717174, 9724336, 9731504,
  9738677, 9745856, 9753039, 9760228, 9767423, 9774622, 9781827, 9789037, 9796253, 9803473,
  9810700, 9817931, 9825168, 9832410, 9839657, 9846910, 9854168, 9861432, 9868701, 9875975,
  9883254, 9890539, 9897830, 9905125, 9912426, 9919733, 9927045, 9934362, 9941685, 9949013,
  9956346, 9963685, 9971029, 9978379, 9985734, 9993094, 10000460, 10007831, 10015208, 10022590,
  10029978, 10037371, 10044770, 10052174, 10059583, 10066998, 10074418, 10081844, 10089275, 10096712,
  10104155, 10111602, 10119056, 10126514, 10133979, 10141448, 10148923, 10156404, 10163891, 10171382,
  10178880, 10186382, 10193891, 10201405, 10208924, 10216449, 10223980, 10231516, 10239057, 10246605,
  10254157, 10261716, 10269280, 10276849, 10284424, 10292005, 10299591, 10307183, 10314780, 10322383,
  10329992, 10337606, 10345226, 10352851, 10360482, 10368119, 10375761, 10383409, 10391063, 10398722,
  10406387, 10414058, 10421734, 10429416, 10437103, 10444796, 10452495, 10460200, 10467910, 10475626,
  10483347, 10491075, 10498808, 10506546, 10514291, 10522041, 10529797, 10537558, 10545325, 10553098,
  10560877, 10568661, 10576451, 10584247, 10592049, 10599856, 10607669, 10615488, 10623313, 10631143,
  10638980, 10646822, 10654669, 10662523, 10670382, 10678247, 10686118, 10693995, 10701878, 10709766,
  10717660, 10725560, 10733466, 10741377, 10749295, 10757218, 10765147, 10773082, 10781023, 10788970,
  10796922, 10804881, 10812845, 10820815, 10828791, 10836773, 10844761, 10852755, 10860754, 10868760,
  10876771, 10884788, 10892811, 10900840, 10908875, 10916916, 10924963, 10933016, 10941075, 10949139,
  10957210, 10965286, 10973369, 10981457, 10989552, 10997652, 11005759, 11013871, 11021989, 11030113,
  11038244, 11046380, 11054522, 11062671, 11070825, 11078985, 11087151, 11095324, 11103502, 11111687,
  11119877, 11128073, 11136276, 11144484, 11152699, 11160920, 11169146, 11177379, 11185618, 11193863,
  11202114, 11210371, 11218634, 11226903, 11235179, 11243460, 11251748, 11260041, 11268341, 11276647,
  11284959, 11293277, 11301601, 11309932, 11318268, 11326611, 11334960, 11343315, 11351676, 11360043,
  11368417, 11376796, 11385182, 11393574, 11401972, 11410377, 11418787, 11427204, 11435627, 11444056
>>
SpaceGR == <<
  7116, 7295, 7460, 7614, 7759, 7898, 8031, 8159, 8284, 8405,
  8523, 8638, 8751, 8862, 8971, 9078, 9183, 9287, 9390, 9491,
  9591, 9691, 9789, 9886, 9982, 10078, 10172, 10266, 10360, 10452,
  10545, 10636, 10727, 10818, 10908, 10997, 11086, 11175, 11264, 11351,
  11439, 11526, 11613, 11700, 11786, 11873, 11958, 12044, 12129, 12215,
  12299, 12384, 12469, 12553, 12637, 12721, 12805, 12889, 12972, 13056,
  13139, 13222, 13305, 13388, 13471, 13553, 13636, 13718, 13801, 13883,
  13965, 14047, 14129, 14211, 14293, 14375, 14457, 14539, 14621, 14702,
  14784, 14866, 14947, 15029, 15110, 15192, 15273, 15355, 15436, 15518,
  15599, 15680, 15762, 15843, 15925, 16006, 16087, 16169, 16250, 16332,
  16413, 16494, 16576, 16657, 16739, 16820, 16902, 16983, 17065, 17146,
  17228, 17310, 17391, 17473, 17555, 17637, 17718, 17800, 17882, 17964,
  18046, 18128, 18210, 18292, 18374, 18456, 18538, 18621, 18703, 18785,
  18868, 18950, 19033, 19115, 19198, 19280, 19363, 19446, 19529, 19612,
  19695, 19778, 19861, 19944, 20027, 20110, 20194, 20277, 20361, 20444,
  20528, 20611, 20695, 20779, 20863, 20947, 21031, 21115, 21199, 21283,
  21368, 21452, 21536, 21621, 21706, 21790, 21875, 21960, 22045, 22130,
  22215, 22300, 22385, 22471, 22556, 22642, 22727, 22813, 22899, 22985,
  23070, 23157, 23243, 23329, 23415, 23501, 23588, 23674, 23761, 23848,
  23935, 24022, 24109, 24196, 24283, 24370, 24457, 24545, 24632, 24720,
  24808, 24896, 24984, 25072, 25160, 25248, 25336, 25425, 25513, 25602,
  25691, 25779, 25868, 25957, 26046, 26136, 26225, 26314, 26404, 26493,
  26583, 26673, 26763, 26853, 26943, 27033, 27124, 27214, 27305, 27395,
  27486, 27577, 27668, 27759, 27850, 27941, 28033, 28124, 28216, 28308,
  28399, 28491, 28583, 28676, 28768, 28860, 28953, 29045, 29138, 29231,
  29324, 29417, 29510, 29603, 29697, 29790, 29884, 29977, 30071, 30165,
  30259, 30353, 30448, 30542, 30637, 30731, 30826, 30921, 31016, 31111,
  31206, 31301, 31397, 31492, 31588, 31684, 31780, 31876, 31972, 32068,
  32165, 32261, 32358, 32454, 32551, 32648, 32745, 32843, 32940, 33037,
  33135, 33233, 33331, 33429, 33527, 33625, 33723, 33822, 33920, 34019,
  34118, 34217, 34316, 34415, 34514, 34614, 34713, 34813, 34913, 35013,
  35113, 35213, 35313, 35414, 35514, 35615, 35716, 35817, 35918, 36019,
  36120, 36222, 36323, 36425, 36527, 36629, 36731, 36833, 36935, 37038,
  37141, 37243, 37346, 37449, 37552, 37656, 37759, 37862, 37966, 38070,
  38174, 38278, 38382, 38486, 38591, 38695, 38800, 38905, 39010, 39115,
  39220, 39326, 39431, 39537, 39643, 39749, 39855, 39961, 40067, 40174,
  40280, 40387, 40494, 40601, 40708, 40815, 40923, 41030, 41138, 41246,
  41354, 41462, 41570, 41679, 41787, 41896, 42005, 42114, 42223, 42332,
  42441, 42551, 42660, 42770, 42880, 42990, 43100, 43211, 43321, 43432,
  43542, 43653, 43764, 43876, 43987, 44098, 44210, 44322, 44434, 44546,
  44658, 44770, 44883, 44995, 45108, 45221, 45334, 45447, 45560, 45674,
  45787, 45901, 46015, 46129, 46243, 46358, 46472, 46587, 46702, 46817,
  46932, 47047, 47162, 47278, 47393, 47509, 47625, 47741, 47857, 47974,
  48090, 48207, 48324, 48441, 48558, 48675, 48793, 48910, 49028, 49146,
  49264, 49382, 49501, 49619, 49738, 49856, 49975, 50095, 50214, 50333,
  50453, 50572, 50692, 50812, 50932, 51053, 51173, 51294, 51415, 51535,
  51657, 51778, 51899, 52021, 52142, 52264, 52386, 52508, 52631, 52753,
  52876, 52998, 53121, 53244, 53368, 53491, 53615, 53738, 53862, 53986,
  54110, 54235, 54359, 54484, 54609, 54734, 54859, 54984, 55109, 55235,
  55361, 55487, 55613, 55739, 55865, 55992, 56119, 56245, 56372, 56500,
  56627, 56755, 56882, 57010, 57138, 57266, 57394, 57523, 57652, 57780,
  57909, 58038, 58168, 58297, 58427, 58556, 58686, 58816, 58947, 59077,
  59208, 59338, 59469, 59600, 59732, 59863, 59995, 60126, 60258, 60390,
  60523, 60655, 60787, 60920, 61053, 61186, 61319, 61453, 61586, 61720,
  61854, 61988, 62122, 62256, 62391, 62526, 62661, 62796, 62931, 63066,
  63202, 63338, 63473, 63610, 63746, 63882, 64019, 64156, 64292, 64429,
  64567, 64704, 64842, 64980, 65117, 65256, 65394, 65532, 65671, 65810,
  65949, 66088, 66227, 66367, 66506, 66646, 66786, 66926, 67067, 67207,
  67348, 67489, 67630, 67771, 67912, 68054, 68196, 68337, 68480, 68622,
  68764, 68907, 69050, 69193, 69336, 69479, 69623, 69766, 69910, 70054,
  70198, 70343, 70487, 70632, 70777, 70922, 71067, 71213, 71358, 71504,
  71650, 71796, 71942, 72089, 72236, 72382, 72530, 72677, 72824, 72972,
  73120, 73267, 73416, 73564, 73712, 73861, 74010, 74159, 74308, 74458,
  74607, 74757, 74907, 75057, 75207, 75358, 75508, 75659, 75810, 75962,
  76113, 76265, 76416, 76568, 76720, 76873, 77025, 77178, 77331, 77484,
  77637, 77791, 77944, 78098, 78252, 78406, 78561, 78715, 78870, 79025,
  79180, 79335, 79491, 79646, 79802, 79958, 80115, 80271, 80428, 80585,
  80742, 80899, 81056, 81214, 81371, 81529, 81688, 81846, 82004, 82163,
  82322, 82481, 82640, 82800, 82959, 83119, 83279, 83440, 83600, 83761,
  83921, 84082, 84244, 84405, 84567, 84728, 84890, 85053, 85215, 85377,
  85540, 85703, 85866, 86030, 86193, 86357, 86521, 86685, 86849, 87014,
  87178, 87343, 87508, 87674, 87839, 88005, 88171, 88337, 88503, 88670,
  88836, 89003, 89170, 89337, 89505, 89672, 89840, 90008, 90177, 90345,
  90514, 90683, 90852, 91021, 91190, 91360, 91530, 91700, 91870, 92041,
  92211, 92382, 92553, 92724, 92896, 93068, 93239, 93412, 93584, 93756,
  93929, 94102, 94275, 94448, 94622, 94795, 94969, 95143, 95318, 95492,
  95667, 95842, 96017, 96192, 96368, 96544, 96720, 96896, 97072, 97249,
  97425, 97602, 97780, 97957, 98135, 98312, 98490, 98669, 98847, 99026,
  99205, 99384, 99563, 99742, 99922, 100102, 100282, 100462, 100643, 100824,
  101005, 101186, 101367, 101549, 101731, 101913, 102095, 102277, 102460, 102643,
  102826, 103009, 103192, 103376, 103560, 103744, 103929, 104113, 104298, 104483,
  104668, 104853, 105039, 105225, 105411, 105597, 105784, 105970, 106157, 106344,
  106532, 106719, 106907, 107095, 107283, 107472, 107660, 107849, 108038, 108228,
  108417, 108607, 108797, 108987, 109177, 109368, 109559, 109750, 109941, 110133,
  110324, 110516, 110708, 110901, 111093, 111286, 111479, 111672, 111866, 112059,
  112253, 112447, 112642, 112836, 113031, 113226, 113421, 113617, 113813, 114008,
  114205, 114401, 114598, 114794, 114991, 115189, 115386, 115584, 115782, 115980,
  116178, 116377, 116576, 116775, 116974, 117173, 117373, 117573, 117773, 117974,
  118174, 118375, 118576, 118778, 118979, 119181, 119383, 119585, 119788, 119990,
  120193, 120396, 120600, 120803, 121007, 121211, 121416, 121620, 121825, 122030,
  122235, 122441, 122646, 122852, 123058, 123265, 123471, 123678, 123885, 124093,
  124300, 124508, 124716, 124924, 125133, 125341, 125550, 125760, 125969, 126179,
  126389, 126599, 126809, 127020, 127230, 127442, 127653, 127864, 128076, 128288,
  128500, 128713, 128926, 129139, 129352, 129565, 129779, 129993, 130207, 130421,
  130636, 130851, 131066, 131281, 131497, 131713, 131929, 132145, 132362, 132578,
  132795, 133013, 133230, 133448, 133666, 133884, 134103, 134321, 134540, 134760,
  134979, 135199, 135419, 135639, 135859, 136080, 136301, 136522, 136743, 136965,
  137187, 137409, 137632, 137854, 138077, 138300, 138524, 138747, 138971, 139195,
  139420, 139644, 139869, 140094, 140319, 140545, 140771, 140997, 141223, 141450,
  141677, 141904, 142131, 142359, 142587, 142815, 143043, 143272, 143500, 143730
>>
TimeGR == <<
  423, 469, 514, 559, 605, 651, 698, 745, 793, 842,
  892, 943, 995, 1048, 1102, 1157, 1214, 1271, 1330, 1391,
  1452, 1515, 1580, 1645, 1712, 1781, 1851, 1923, 1996, 2071,
  2147, 2225, 2304, 2386, 2469, 2553, 2640, 2728, 2818, 2910,
  3004, 3099, 3197, 3296, 3398, 3501, 3607, 3715, 3824, 3936,
  4050, 4166, 4285, 4406, 4529, 4654, 4782, 4912, 5045, 5180,
  5317, 5457, 5600, 5745, 5893, 6043, 6197, 6352, 6511, 6673,
  6837, 7005, 7175, 7348, 7524, 7704, 7886, 8072, 8260, 8452,
  8647, 8846, 9048, 9253, 9462, 9674, 9889, 10109, 10332, 10558,
  10788, 11022, 11260, 11502, 11747, 11996, 12250, 12507, 12769, 13035,
  13305, 13579, 13857, 14140, 14427, 14719, 15015, 15316, 15621, 15931,
  16246, 16566, 16890, 17220, 17554, 17894, 18238, 18588, 18943, 19303,
  19668, 20039, 20415, 20797, 21185, 21578, 21977, 22381, 22792, 23208,
  23631, 24059, 24494, 24935, 25382, 25835, 26295, 26762, 27235, 27714,
  28201, 28694, 29194, 29701, 30215, 30736, 31264, 31800, 32343, 32893,
  33451, 34017, 34590, 35171, 35760, 36356, 36961, 37574, 38195, 38825,
  39463, 40109, 40764, 41427, 42100, 42781, 43471, 44170, 44879, 45596,
  46323, 47059, 47805, 48561, 49326, 50101, 50887, 51682, 52487, 53303,
  54129, 54966, 55813, 56671, 57539, 58419, 59310, 60212, 61125, 62050,
  62986, 63934, 64894, 65865, 66849, 67844, 68852, 69873, 70906, 71951,
  73010, 74081, 75165, 76263, 77373, 78498, 79636, 80787, 81953, 83132,
  84325, 85533, 86756, 87992, 89244, 90510, 91792, 93088, 94400, 95728,
  97071, 98430, 99804, 101195, 102602, 104026, 105466, 106923, 108396, 109887,
  111395, 112921, 114464, 116024, 117603, 119200, 120815, 122448, 124100, 125771,
  127461, 129170, 130898, 132646, 134414, 136202, 138009, 139837, 141686, 143555,
  145445, 147356, 149289, 151243, 153218, 155216, 157235, 159277, 161342, 163429,
  165539, 167673, 169829, 172010, 174214, 176442, 178695, 180972, 183273, 185600,
  187952, 190329, 192732, 195161, 197616, 200097, 202605, 205140, 207702, 210292,
  212909, 215554, 218227, 220928, 223658, 226417, 229205, 232022, 234870, 237747,
  240654, 243592, 246561, 249561, 252592, 255655, 258749, 261876, 265036, 268228,
  271453, 274712, 278004, 281331, 284691, 288086, 291516, 294982, 298483, 302019,
  305592, 309201, 312847, 316531, 320251, 324010, 327806, 331641, 335515, 339428,
  343380, 347372, 351404, 355477, 359591, 363746, 367942, 372181, 376461, 380785,
  385151, 389561, 394015, 398513, 403055, 407642, 412275, 416953, 421678, 426449,
  431267, 436132, 441045, 446006, 451015, 456074, 461182, 466339, 471547, 476806,
  482115, 487476, 492889, 498355, 503873, 509444, 515069, 520749, 526482, 532271,
  538116, 544017, 549974, 555988, 562059, 568188, 574376, 580623, 586929, 593294,
  599721, 606208, 612756, 619367, 626039, 632775, 639574, 646437, 653365, 660357,
  667415, 674540, 681730, 688988, 696314, 703708, 711171, 718704, 726306, 733979,
  741723, 749539, 757427, 765388, 773422, 781531, 789714, 797973, 806307, 814718,
  823206, 831772, 840416, 849139, 857942, 866825, 875789, 884835, 893963, 903174,
  912468, 921847, 931311, 940860, 950496, 960218, 970028, 979927, 989914, 999991,
  1010159, 1020418, 1030769, 1041213, 1051750, 1062381, 1073107, 1083929, 1094847, 1105862,
  1116975, 1128187, 1139498, 1150909, 1162422, 1174036, 1185753, 1197573, 1209498, 1221527,
  1233663, 1245905, 1258255, 1270713, 1283280, 1295957, 1308745, 1321645, 1334658, 1347784,
  1361024, 1374380, 1387852, 1401440, 1415147, 1428973, 1442919, 1456985, 1471173, 1485483,
  1499917, 1514475, 1529159, 1543970, 1558907, 1573973, 1589168, 1604494, 1619950, 1635539,
  1651262, 1667118, 1683110, 1699239, 1715504, 1731909, 1748452, 1765136, 1781962, 1798931,
  1816043, 1833300, 1850703, 1868253, 1885951, 1903799, 1921797, 1939946, 1958248, 1976704,
  1995314, 2014081, 2033005, 2052088, 2071330, 2090733, 2110298, 2130027, 2149920, 2169978,
  2190203, 2210597, 2231160, 2251894, 2272799, 2293878, 2315131, 2336560, 2358166, 2379951,
  2401915, 2424060, 2446388, 2468899, 2491596, 2514479, 2537549, 2560809, 2584260, 2607902,
  2631738, 2655768, 2679995, 2704419, 2729043, 2753867, 2778893, 2804122, 2829557, 2855198,
  2881047, 2907105, 2933375, 2959857, 2986553, 3013464, 3040593, 3067941, 3095509, 3123299,
  3151312, 3179551, 3208016, 3236710, 3265634, 3294789, 3324178, 3353802, 3383663, 3413762,
  3444101, 3474683, 3505507, 3536578, 3567895, 3599461, 3631278, 3663347, 3695671, 3728250,
  3761088, 3794185, 3827544, 3861166, 3895053, 3929208, 3963632, 3998327, 4033294, 4068537,
  4104056, 4139854, 4175933, 4212294, 4248940, 4285873, 4323094, 4360606, 4398411, 4436511,
  4474908, 4513604, 4552600, 4591900, 4631506, 4671419, 4711641, 4752175, 4793024, 4834188,
  4875671, 4917474, 4959600, 5002052, 5044830, 5087938, 5131379, 5175153, 5219264, 5263714,
  5308504, 5353639, 5399119, 5444948, 5491128, 5537661, 5584549, 5631796, 5679403, 5727373,
  5775708, 5824412, 5873486, 5922934, 5972757, 6022958, 6073540, 6124506, 6175858, 6227598,
  6279730, 6332256, 6385179, 6438502, 6492226, 6546356, 6600893, 6655841, 6711202, 6766979,
  6823175, 6879793, 6936836, 6994306, 7052207, 7110541, 7169311, 7228521, 7288172, 7348269,
  7408814, 7469811, 7531262, 7593170, 7655538, 7718370, 7781669, 7845438, 7909679, 7974397,
  9036494, 9041489, 9046487, 9051488, 9056491, 9061498, 9066506, 9071518, 9076533, 9081550,
  9086570, 9091593, 9096618, 9101647, 9106678, 9111712, 9116749, 9121788, 9126830, 9131875,
  9136923, 9141974, 9147027, 9152084, 9157143, 9162204, 9167269, 9172336, 9177407, 9182480,
  9187556, 9192634, 9197716, 9202800, 9207887, 9212977, 9218069, 9223165, 9228263, 9233364,
  9238468, 9243575, 9248685, 9253797, 9258912, 9264031, 9269151, 9274275, 9279402, 9284531,
  9289663, 9294798, 9299936, 9305077, 9310221, 9315367, 9320516, 9325669, 9330824, 9335981,
  9341142, 9346306, 9351472, 9356641, 9361813, 9366988, 9372166, 9377347, 9382530, 9387717,
  9392906, 9398098, 9403293, 9408491, 9413692, 9418895, 9424102, 9429311, 9434524, 9439739,
  9444957, 9450178, 9455402, 9460628, 9465858, 9471090, 9476326, 9481564, 9486805, 9492049,
  9497296, 9502546, 9507799, 9513054, 9518313, 9523574, 9528839, 9534106, 9539376, 9544649,
  9549925, 9555204, 9560486, 9565771, 9571059, 9576349, 9581643, 9586939, 9592239, 9597541,
  9602846, 9608154, 9613466, 9618780, 9624097, 9629417, 9634740, 9640065, 9645394, 9650726,
  9656060, 9661398, 9666739, 9672082, 9677429, 9682778, 9688130, 9693486, 9698844, 9704205,
  9709570, 9714937, 9720307, 9725680, 9731056, 9736435, 9741817, 9747202, 9752590, 9757981,
  9763375, 9768772, 9774172, 9779575, 9784981, 9790390, 9795802, 9801216, 9806634, 9812055,
  9817479, 9822906, 9828336, 9833768, 9839204, 9844643, 9850085, 9855530, 9860978, 9866429,
  9871883, 9877339, 9882799, 9888262, 9893728, 9899197, 9904669, 9910144, 9915622, 9921103,
  9926588, 9932075, 9937565, 9943058, 9948554, 9954054, 9959556, 9965061, 9970570, 9976081,
  9981596, 9987113, 9992634, 9998158, 10003684, 10009214, 10014747, 10020283, 10025822, 10031364,
  10036909, 10042457, 10048008, 10053562, 10059120, 10064680, 10070244, 10075810, 10081380, 10086953,
  10092528, 10098107, 10103689, 10109274, 10114862, 10120454, 10126048, 10131645, 10137246, 10142849,
  10148456, 10154066, 10159679, 10165295, 10170914, 10176536, 10182161, 10187790, 10193421, 10199056,
  10204694, 10210335, 10215979, 10221626, 10227276, 10232929, 10238586, 10244246, 10249908, 10255574,
  10261243, 10266915, 10272591, 10278269, 10283951, 10289635, 10295323, 10301014, 10306708, 10312405,
  10318106, 10323809, 10329516, 10335226, 10340939, 10346655, 10352375, 10358097, 10363823, 10369552,
  10375284, 10381019, 10386757, 10392499, 10398243, 10403991, 10409742, 10415497, 10421254, 10427015,
  10432778, 10438545, 10444315, 10450089, 10455865, 10461645, 10467428, 10473214, 10479003, 10484796,
  10490592, 10496390, 10502193, 10507998, 10513806, 10519618, 10525433, 10531251, 10537073, 10542897,
  10548725, 10554556, 10560391, 10566228, 10572069, 10577913, 10583760, 10589610, 10595464, 10601321,
  10607181, 10613044, 10618911, 10624781, 10630654, 10636530, 10642410, 10648293, 10654179, 10660068,
  10665961, 10671857, 10677756, 10683658, 10689564, 10695473, 10701385, 10707300, 10713219, 10719141,
  10725066, 10730995, 10736926, 10742862, 10748800, 10754742, 10760687, 10766635, 10772586, 10778541,
  10784499, 10790461, 10796425, 10802393, 10808364, 10814339, 10820317, 10826298, 10832283, 10838270,
  10844261, 10850256, 10856254, 10862255, 10868259, 10874267, 10880278, 10886292, 10892310, 10898331,
  10904355, 10910383, 10916414, 10922448, 10928485, 10934526, 10940571, 10946618, 10952669, 10958724
>>
SpaceUH == <<
  359, 362, 364, 367, 370, 373, 376, 379, 383, 386,
  389, 392, 395, 398, 401, 405, 408, 411, 415, 418,
  421, 425, 428, 432, 435, 439, 442, 446, 449, 453,
  457, 460, 464, 468, 472, 475, 479, 483, 487, 491,
  495, 499, 503, 507, 511, 515, 519, 524, 528, 532,
  536, 541, 545, 549, 554, 558, 563, 567, 572, 577,
  581, 586, 591, 596, 600, 605, 610, 615, 620, 625,
  630, 635, 640, 645, 651, 656, 661, 667, 672, 677,
  683, 688, 694, 699, 705, 711, 717, 722, 728, 734,
  740, 746, 752, 758, 764, 770, 777, 783, 789, 796,
  802, 808, 815, 822, 828, 835, 842, 848, 855, 862,
  869, 876, 883, 890, 898, 905, 912, 920, 927, 934,
  942, 950, 957, 965, 973, 981, 989, 997, 1005, 1013,
  1021, 1029, 1037, 1046, 1054, 1063, 1071, 1080, 1089, 1098,
  1106, 1115, 1124, 1133, 1143, 1152, 1161, 1171, 1180, 1190,
  1199, 1209, 1219, 1228, 1238, 1248, 1258, 1269, 1279, 1289,
  1300, 1310, 1321, 1331, 1342, 1353, 1364, 1375, 1386, 1397,
  1408, 1420, 1431, 1443, 1454, 1466, 1478, 1490, 1502, 1514,
  1526, 1539, 1551, 1564, 1576, 1589, 1602, 1615, 1628, 1641,
  1654, 1668, 1681, 1695, 1708, 1722, 1736, 1750, 1764, 1778,
  1793, 1807, 1822, 1836, 1851, 1866, 1881, 1897, 1912, 1927,
  1943, 1959, 1974, 1990, 2006, 2023, 2039, 2055, 2072, 2089,
  2106, 2123, 2140, 2157, 2174, 2192, 2210, 2227, 2245, 2264,
  2282, 2300, 2319, 2338, 2356, 2375, 2395, 2414, 2433, 2453,
  2473, 2493, 2513, 2533, 2554, 2574, 2595, 2616, 2637, 2659,
  2680, 2702, 2723, 2745, 2768, 2790, 2812, 2835, 2858, 2881,
  2904, 2928, 2951, 2975, 2999, 3024, 3048, 3073, 3097, 3122,
  3148, 3173, 3199, 3224, 3250, 3277, 3303, 3330, 3357, 3384,
  3411, 3439, 3466, 3494, 3523, 3551, 3580, 3609, 3638, 3667,
  3697, 3727, 3757, 3787, 3818, 3848, 3880, 3911, 3942, 3974,
  4006, 4039, 4071, 4104, 4137, 4171, 4204, 4238, 4273, 4307,
  4342, 4377, 4412, 4448, 4484, 4520, 4556, 4593, 4630, 4668,
  4705, 4743, 4782, 4820, 4859, 4898, 4938, 4978, 5018, 5058,
  5099, 5140, 5182, 5224, 5266, 5308, 5351, 5395, 5438, 5482,
  5526, 5571, 5616, 5661, 5707, 5753, 5799, 5846, 5893, 5941,
  5989, 6037, 6086, 6135, 6185, 6235, 6285, 6336, 6387, 6438,
  6490, 6543, 6596, 6649, 6703, 6757, 6811, 6866, 6922, 6977,
  7034, 7091, 7148, 7206, 7264, 7322, 7381, 7441, 7501, 7562,
  7623, 7684, 7746, 7809, 7872, 7935, 7999, 8064, 8129, 8195,
  8261, 8328, 8395, 8463, 8531, 8600, 8669, 8739, 8810, 8881,
  8953, 9025, 9098, 9171, 9245, 9320, 9395, 9471, 9547, 9624,
  9702, 9780, 9859, 9939, 10019, 10100, 10182, 10264, 10347, 10430,
  10514, 10599, 10685, 10771, 10858, 10946, 11034, 11123, 11213, 11304,
  11395, 11487, 11580, 11673, 11767, 11862, 11958, 12055, 12152, 12250,
  12349, 12448, 12549, 12650, 12752, 12855, 12959, 13064, 13169, 13276,
  13383, 13491, 13600, 13709, 13820, 13932, 14044, 14158, 14272, 14387,
  14503, 14620, 14738, 14857, 14977, 15098, 15220, 15343, 15467, 15592,
  15717, 15844, 15972, 16101, 16231, 16362, 16494, 16627, 16762, 16897,
  17033, 17171, 17309, 17449, 17590, 17732, 17875, 18019, 18165, 18312,
  18459, 18608, 18759, 18910, 19063, 19217, 19372, 19528, 19686, 19845,
  20005, 20166, 20329, 20493, 20659, 20825, 20994, 21163, 21334, 21506,
  21680, 21855, 22031, 22209, 22388, 22569, 22751, 22935, 23120, 23307,
  23495, 23684, 23876, 24068, 24263, 24459, 24656, 24855, 25056, 25258,
  25462, 25667, 25875, 26083, 26294, 26506, 26720, 26936, 27153, 27373,
  27594, 27816, 28041, 28267, 28495, 28725, 28957, 29191, 29427, 29664,
  29904, 30145, 30388, 30634, 30881, 31130, 31382, 31635, 31890, 32148,
  32407, 32669, 32933, 33199, 33467, 33737, 34009, 34284, 34560, 34839,
  35121, 35404, 35690, 35978, 36268, 36561, 36856, 37154, 37454, 37756,
  38061, 38368, 38678, 38990, 39305, 39622, 39942, 40264, 40589, 40917,
  41247, 41580, 41916, 42254, 42595, 42939, 43286, 43635, 43988, 44343,
  44701, 45062, 45425, 45792, 46162, 46534, 46910, 47289, 47670, 48055,
  48443, 48834, 49228, 49626, 50026, 50430, 50837, 51248, 51661, 52078,
  52499, 52923, 53350, 53780, 54215, 54652, 55093, 55538, 55987, 56438,
  56894, 57353, 57816, 58283, 58754, 59228, 59706, 60188, 60674, 61164,
  61657, 62155, 62657, 63163, 63672, 64186, 64705, 65227, 65753, 66284,
  66819, 67359, 67902, 68451, 69003, 69560, 70122, 70688, 71258, 71834,
  72414, 72998, 73587, 74181, 74780, 75384, 75992, 76606, 77224, 77848,
  78476, 79110, 79748, 80392, 81041, 81695, 82355, 83019, 83690, 84365,
  85046, 85733, 86425, 87122, 87826, 88535, 89249, 89970, 90696, 91428,
  92166, 92910, 93660, 94416, 95179, 95947, 96721, 97502, 98289, 99083,
  99883, 100689, 101502, 102321, 103147, 103980, 104819, 105665, 106518, 107378,
  108245, 109119, 109999, 110887, 111783, 112685, 113595, 114512, 115436, 116368,
  117307, 118254, 119209, 120171, 121141, 122119, 123105, 124099, 125100, 126110,
  127128, 128154, 129189, 130232, 131283, 132343, 133411, 134488, 135574, 136668,
  137771, 138884, 140005, 141135, 142274, 143423, 144581, 145748, 146924, 148110,
  149306, 150511, 151726, 152951, 154186, 155430, 156685, 157950, 159225, 160510,
  161806, 163112, 164429, 165756, 167094, 168443, 169803, 171173, 172555, 173948,
  175352, 176768, 178195, 179633, 181083, 182545, 184019, 185504, 187002, 188511,
  190033, 191567, 193113, 194672, 196244, 197828, 199425, 201035, 202658, 204293,
  205943, 207605, 209281, 210970, 212673, 214390, 216121, 217865, 219624, 221397,
  223184, 224986, 226802, 228633, 230479, 232339, 234215, 236105, 238011, 239933,
  241869, 243822, 245790, 247774, 249774, 251791, 253823, 255872, 257938, 260020,
  262119, 264235, 266368, 268518, 270686, 272871, 275073, 277294, 279532, 281789,
  284064, 286357, 288668, 290999, 293348, 295716, 298103, 300509, 302935, 305380,
  307846, 310331, 312836, 315361, 317907, 320473, 323060, 325668, 328297, 330947,
  333619, 336312, 339027, 341763, 344522, 347303, 350107, 352933, 355782, 358654,
  361549, 364468, 367410, 370376, 373366, 376380, 379418, 382481, 385568, 388681,
  391819, 394981, 398170, 401384, 404624, 407891, 411183, 414502, 417848, 421221,
  424622, 428049, 431505, 434988, 438500, 442039, 445608, 449205, 452831, 456486,
  460171, 463886, 467631, 471406, 475211, 479047, 482914, 486812, 490742, 494704,
  498697, 502723, 506781, 510872, 514996, 519153, 523344, 527569, 531827, 536121,
  540448, 544811, 549209, 553642, 558112, 562617, 567159, 571737, 576352, 581005,
  585695, 590423, 595189, 599994, 604837, 609720, 614642, 619603, 624605, 629647,
  634730, 639853, 645019, 650226, 655474, 660766, 666100, 671477, 676897, 682361,
  687870, 693422, 699020, 704663, 710351, 716085, 721866, 727693, 733567, 739489,
  745458, 751476, 757542, 763657, 769822, 776036, 782301, 788616, 794982, 801399,
  807869, 814390, 820964, 827591, 834272, 841007, 847795, 854639, 861538, 868493,
  875504, 882571, 889696, 896878, 904118, 911416, 918773, 926190, 933667, 941204,
  948801, 956460, 964181, 971965, 979811, 987720, 995694, 1003731, 1011834, 1020002,
  1028236, 1036536, 1044903, 1053338, 1061841, 1070413, 1079053, 1087764, 1096545, 1105397
>>
TimeUH == <<
  206951, 206958, 206965, 206972, 206979, 206986, 206993, 207000, 207007, 207014,
  207021, 207028, 207035, 207042, 207049, 207056, 207063, 207070, 207077, 207084,
  207091, 207098, 207105, 207112, 207119, 207126, 207133, 207140, 207147, 207154,
  207161, 207168, 207175, 207182, 207189, 207196, 207203, 207210, 207217, 207224,
  207231, 207238, 207245, 207252, 207259, 207266, 207273, 207280, 207287, 207294,
  207301, 207308, 207315, 207322, 207329, 207336, 207343, 207350, 207357, 207364,
  207371, 207378, 207385, 207392, 207399, 207406, 207413, 207420, 207427, 207434,
  207441, 207448, 207455, 207462, 207469, 207476, 207483, 207490, 207497, 207505,
  207512, 207519, 207526, 207533, 207540, 207547, 207554, 207561, 207568, 207575,
  207582, 207589, 207596, 207603, 207610, 207617, 207624, 207631, 207638, 207645,
  207652, 207659, 207666, 207673, 207680, 207687, 207694, 207701, 207708, 207715,
  207722, 207729, 207736, 207743, 207750, 207757, 207764, 207771, 207779, 207786,
  207793, 207800, 207807, 207814, 207821, 207828, 207835, 207842, 207849, 207856,
  207863, 207870, 207877, 207884, 207891, 207898, 207905, 207912, 207919, 207926,
  207933, 207940, 207947, 207954, 207961, 207968, 207975, 207982, 207990, 207997,
  208004, 208011, 208018, 208025, 208032, 208039, 208046, 208053, 208060, 208067,
  208074, 208081, 208088, 208095, 208102, 208109, 208116, 208123, 208130, 208137,
  208144, 208151, 208158, 208166, 208173, 208180, 208187, 208194, 208201, 208208,
  208215, 208222, 208229, 208236, 208243, 208250, 208257, 208264, 208271, 208278,
  208285, 208292, 208299, 208306, 208313, 208321, 208328, 208335, 208342, 208349,
  208356, 208363, 208370, 208377, 208384, 208391, 208398, 208405, 208412, 208419,
  208426, 208433, 208440, 208447, 208455, 208462, 208469, 208476, 208483, 208490,
  208497, 208504, 208511, 208518, 208525, 208532, 208539, 208546, 208553, 208560,
  208567, 208574, 208582, 208589, 208596, 208603, 208610, 208617, 208624, 208631,
  208638, 208645, 208652, 208659, 208666, 208673, 208680, 208687, 208694, 208702,
  208709, 208716, 208723, 208730, 208737, 208744, 208751, 208758, 208765, 208772,
  208779, 208786, 208793, 208800, 208807, 208815, 208822, 208829, 208836, 208843,
  208850, 208857, 208864, 208871, 208878, 208885, 208892, 208899, 208906, 208913,
  208921, 208928, 208935, 208942, 208949, 208956, 208963, 208970, 208977, 208984,
  208991, 208998, 209005, 209012, 209020, 209027, 209034, 209041, 209048, 209055,
  209062, 209069, 209076, 209083, 209090, 209097, 209104, 209111, 209119, 209126,
  209133, 209140, 209147, 209154, 209161, 209168, 209175, 209182, 209189, 209196,
  209203, 209211, 209218, 209225, 209232, 209239, 209246, 209253, 209260, 209267,
  209274, 209281, 209288, 209296, 209303, 209310, 209317, 209324, 209331, 209338,
  209345, 209352, 209359, 209366, 209373, 209381, 209388, 209395, 209402, 209409,
  209416, 209423, 209430, 209437, 209444, 209451, 209458, 209466, 209473, 209480,
  209487, 209494, 209501, 209508, 209515, 209522, 209529, 209536, 209544, 209551,
  209558, 209565, 209572, 209579, 209586, 209593, 209600, 209607, 209614, 209622,
  209629, 209636, 209643, 209650, 209657, 209664, 209671, 209678, 209685, 209692,
  209700, 209707, 209714, 209721, 209728, 209735, 209742, 209749, 209756, 209763,
  209771, 209778, 209785, 209792, 209799, 209806, 209813, 209820, 209827, 209834,
  209842, 209849, 209856, 209863, 209870, 209877, 209884, 209891, 209898, 209905,
  209913, 209920, 209927, 209934, 209941, 209948, 209955, 209962, 209969, 209976,
  209984, 209991, 209998, 210005, 210012, 210019, 210026, 210033, 210040, 210048,
  210055, 210062, 210069, 210076, 210083, 210090, 210097, 210104, 210112, 210119,
  210126, 210133, 210140, 210147, 210154, 210161, 210168, 210176, 210183, 210190,
  210197, 210204, 210211, 210218, 210225, 210232, 210240, 210247, 210254, 210261,
  210268, 210275, 210282, 210289, 210296, 210304, 210311, 210318, 210325, 210332,
  210339, 210346, 210353, 210360, 210368, 210375, 210382, 210389, 210396, 210403,
  210410, 210417, 210425, 210432, 210439, 210446, 210453, 210460, 210467, 210474,
  210482, 210489, 210496, 210503, 210510, 210517, 210524, 210531, 210539, 210546,
  210553, 210560, 210567, 210574, 210581, 210588, 210596, 210603, 210610, 210617,
  210624, 210631, 210638, 210645, 210653, 210660, 210667, 210674, 210681, 210688,
  210695, 210702, 210710, 210717, 210724, 210731, 210738, 210745, 210752, 210759,
  210767, 210774, 210781, 210788, 210795, 210802, 210809, 210817, 210824, 210831,
  210838, 210845, 210852, 210859, 210866, 210874, 210881, 210888, 210895, 210902,
  210909, 210916, 210924, 210931, 210938, 210945, 210952, 210959, 210966, 210974,
  210981, 210988, 210995, 211002, 211009, 211016, 211023, 211031, 211038, 211045,
  211052, 211059, 211066, 211073, 211081, 211088, 211095, 211102, 211109, 211116,
  211123, 211131, 211138, 211145, 211152, 211159, 211166, 211173, 211181, 211188,
  211195, 211202, 211209, 211216, 211223, 211231, 211238, 211245, 211252, 211259,
  211266, 211274, 211281, 211288, 211295, 211302, 211309, 211316, 211324, 211331,
  211338, 211345, 211352, 211359, 211366, 211374, 211381, 211388, 211395, 211402,
  211409, 211417, 211424, 211431, 211438, 211445, 211452, 211459, 211467, 211474,
  211481, 211488, 211495, 211502, 211510, 211517, 211524, 211531, 211538, 211545,
  211553, 211560, 211567, 211574, 211581, 211588, 211595, 211603, 211610, 211617,
  211624, 211631, 211638, 211646, 211653, 211660, 211667, 211674, 211681, 211689,
  211696, 211703, 211710, 211717, 211724, 211732, 211739, 211746, 211753, 211760,
  211767, 211775, 211782, 211789, 211796, 211803, 211810, 211818, 211825, 211832,
  211839, 211846, 211853, 211861, 211868, 211875, 211882, 211889, 211896, 211904,
  211911, 211918, 211925, 211932, 211939, 211947, 211954, 211961, 211968, 211975,
  211982, 211990, 211997, 212004, 212011, 212018, 212025, 212033, 212040, 212047,
  212054, 212061, 212069, 212076, 212083, 212090, 212097, 212104, 212112, 212119,
  212126, 212133, 212140, 212147, 212155, 212162, 212169, 212176, 212183, 212191,
  212198, 212205, 212212, 212219, 212226, 212234, 212241, 212248, 212255, 212262,
  212270, 212277, 212284, 212291, 212298, 212305, 212313, 212320, 212327, 212334,
  212341, 212349, 212356, 212363, 212370, 212377, 212384, 212392, 212399, 212406,
  212413, 212420, 212428, 212435, 212442, 212449, 212456, 212464, 212471, 212478,
  212485, 212492, 212499, 212507, 212514, 212521, 212528, 212535, 212543, 212550,
  212557, 212564, 212571, 212579, 212586, 212593, 212600, 212607, 212615, 212622,
  212629, 212636, 212643, 212651, 212658, 212665, 212672, 212679, 212687, 212694,
  212701, 212708, 212715, 212722, 212730, 212737, 212744, 212751, 212758, 212766,
  212773, 212780, 212787, 212794, 212802, 212809, 212816, 212823, 212830, 212838,
  212845, 212852, 212859, 212866, 212874, 212881, 212888, 212895, 212903, 212910,
  212917, 212924, 212931, 212939, 212946, 212953, 212960, 212967, 212975, 212982,
  212989, 212996, 213003, 213011, 213018, 213025, 213032, 213039, 213047, 213054,
  213061, 213068, 213075, 213083, 213090, 213097, 213104, 213112, 213119, 213126,
  213133, 213140, 213148, 213155, 213162, 213169, 213176, 213184, 213191, 213198,
  213205, 213212, 213220, 213227, 213234, 213241, 213249, 213256, 213263, 213270,
  213277, 213285, 213292, 213299, 213306, 213314, 213321, 213328, 213335, 213342,
  213350, 213357, 213364, 213371, 213378, 213386, 213393, 213400, 213407, 213415,
  213422, 213429, 213436, 213443, 213451, 213458, 213465, 213472, 213480, 213487,
  213494, 213501, 213508, 213516, 213523, 213530, 213537, 213545, 213552, 213559,
  213566, 213574, 213581, 213588, 213595, 213602, 213610, 213617, 213624, 213631,
  213639, 213646, 213653, 213660, 213667, 213675, 213682, 213689, 213696, 213704,
  213711, 213718, 213725, 213733, 213740, 213747, 213754, 213761, 213769, 213776,
  213783, 213790, 213798, 213805, 213812, 213819, 213827, 213834, 213841, 213848,
  213856, 213863, 213870, 213877, 213884, 213892, 213899, 213906, 213913, 213921,
  213928, 213935, 213942, 213950, 213957, 213964, 213971, 213979, 213986, 213993,
  214000, 214008, 214015, 214022, 214029, 214036, 214044, 214051, 214058, 214065
>>
=============================================================================
