----------------------------- MODULE TrigTables -----------------------------
(* GENERATED by tools/gen_tables.py, do not edit. Entry i+1 is for i degrees,  *)
(* in 1/100000000: cosines of 0..90, squared sines of the half of 0..360.      *)
Cos8 == <<
  100000000, 99984770, 99939083, 99862953, 99756405, 99619470, 99452190, 99254615, 99026807, 98768834,
  98480775, 98162718, 97814760, 97437006, 97029573, 96592583, 96126170, 95630476, 95105652, 94551858,
  93969262, 93358043, 92718385, 92050485, 91354546, 90630779, 89879405, 89100652, 88294759, 87461971,
  86602540, 85716730, 84804810, 83867057, 82903757, 81915204, 80901699, 79863551, 78801075, 77714596,
  76604444, 75470958, 74314483, 73135370, 71933980, 70710678, 69465837, 68199836, 66913061, 65605903,
  64278761, 62932039, 61566148, 60181502, 58778525, 57357644, 55919290, 54463904, 52991926, 51503807,
  50000000, 48480962, 46947156, 45399050, 43837115, 42261826, 40673664, 39073113, 37460659, 35836795,
  34202014, 32556815, 30901699, 29237170, 27563736, 25881905, 24192190, 22495105, 20791169, 19080900,
  17364818, 15643447, 13917310, 12186934, 10452846, 8715574, 6975647, 5233596, 3489950, 1745241,
  0
>>
Hav8 == <<
  0, 7615, 30459, 68523, 121797, 190265, 273905, 372692, 486597, 615583,
  759612, 918641, 1092620, 1281497, 1485214, 1703709, 1936915, 2184762, 2447174, 2724071,
  3015369, 3320979, 3640807, 3974757, 4322727, 4684611, 5060298, 5449674, 5852620, 6269015,
  6698730, 7141635, 7597595, 8066472, 8548121, 9042398, 9549150, 10068224, 10599462, 11142702,
  11697778, 12264521, 12842759, 13432315, 14033010, 14644661, 15267081, 15900082, 16543470, 17197049,
  17860620, 18533980, 19216926, 19909249, 20610737, 21321178, 22040355, 22768048, 23504037, 24248096,
  25000000, 25759519, 26526422, 27300475, 28081443, 28869087, 29663168, 30463444, 31269670, 32081603,
  32898993, 33721592, 34549150, 35381415, 36218132, 37059048, 37903905, 38752447, 39604415, 40459550,
  41317591, 42178277, 43041345, 43906533, 44773577, 45642213, 46512176, 47383202, 48255025, 49127380,
  50000000, 50872620, 51744975, 52616798, 53487824, 54357787, 55226423, 56093467, 56958655, 57821723,
  58682409, 59540450, 60395585, 61247553, 62096095, 62940952, 63781868, 64618585, 65450850, 66278408,
  67101007, 67918397, 68730330, 69536556, 70336832, 71130913, 71918557, 72699525, 73473578, 74240481,
  75000000, 75751904, 76495963, 77231952, 77959645, 78678822, 79389263, 80090751, 80783074, 81466020,
  82139380, 82802951, 83456530, 84099918, 84732919, 85355339, 85966990, 86567685, 87157241, 87735479,
  88302222, 88857298, 89400538, 89931776, 90450850, 90957602, 91451879, 91933528, 92402405, 92858365,
  93301270, 93730985, 94147380, 94550326, 94939702, 95315389, 95677273, 96025243, 96359193, 96679021,
  96984631, 97275929, 97552826, 97815238, 98063085, 98296291, 98514786, 98718503, 98907380, 99081359,
  99240388, 99384417, 99513403, 99627308, 99726095, 99809735, 99878203, 99931477, 99969541, 99992385,
  100000000, 99992385, 99969541, 99931477, 99878203, 99809735, 99726095, 99627308, 99513403, 99384417,
  99240388, 99081359, 98907380, 98718503, 98514786, 98296291, 98063085, 97815238, 97552826, 97275929,
  96984631, 96679021, 96359193, 96025243, 95677273, 95315389, 94939702, 94550326, 94147380, 93730985,
  93301270, 92858365, 92402405, 91933528, 91451879, 90957602, 90450850, 89931776, 89400538, 88857298,
  88302222, 87735479, 87157241, 86567685, 85966990, 85355339, 84732919, 84099918, 83456530, 82802951,
  82139380, 81466020, 80783074, 80090751, 79389263, 78678822, 77959645, 77231952, 76495963, 75751904,
  75000000, 74240481, 73473578, 72699525, 71918557, 71130913, 70336832, 69536556, 68730330, 67918397,
  67101007, 66278408, 65450850, 64618585, 63781868, 62940952, 62096095, 61247553, 60395585, 59540450,
  58682409, 57821723, 56958655, 56093467, 55226423, 54357787, 53487824, 52616798, 51744975, 50872620,
  50000000, 49127380, 48255025, 47383202, 46512176, 45642213, 44773577, 43906533, 43041345, 42178277,
  41317591, 40459550, 39604415, 38752447, 37903905, 37059048, 36218132, 35381415, 34549150, 33721592,
  32898993, 32081603, 31269670, 30463444, 29663168, 28869087, 28081443, 27300475, 26526422, 25759519,
  25000000, 24248096, 23504037, 22768048, 22040355, 21321178, 20610737, 19909249, 19216926, 18533980,
  17860620, 17197049, 16543470, 15900082, 15267081, 14644661, 14033010, 13432315, 12842759, 12264521,
  11697778, 11142702, 10599462, 10068224, 9549150, 9042398, 8548121, 8066472, 7597595, 7141635,
  6698730, 6269015, 5852620, 5449674, 5060298, 4684611, 4322727, 3974757, 3640807, 3320979,
  3015369, 2724071, 2447174, 2184762, 1936915, 1703709, 1485214, 1281497, 1092620, 918641,
  759612, 615583, 486597, 372692, 273905, 190265, 121797, 68523, 30459, 7615,
  0
>>
=============================================================================
