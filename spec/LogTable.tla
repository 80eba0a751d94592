----------------------------- MODULE LogTable -----------------------------
(* GENERATED by tools/gen_tables.py, do not edit. Entry n is the decimal      *)
(* logarithm of n in 1/100000000, rounded to nearest.                         *)
Log8 == <<
  0, 30103000, 47712125, 60205999, 69897000, 77815125, 84509804, 90308999, 95424251, 100000000,
  104139269, 107918125, 111394335, 114612804, 117609126, 120411998, 123044892, 125527251, 127875360, 130103000,
  132221929, 134242268, 136172784, 138021124, 139794001, 141497335, 143136376, 144715803, 146239800, 147712125,
  149136169, 150514998, 151851394, 153147892, 154406804, 155630250, 156820172, 157978360, 159106461, 160205999,
  161278386, 162324929, 163346846, 164345268, 165321251, 166275783, 167209786, 168124124, 169019608, 169897000,
  170757018, 171600334, 172427587, 173239376, 174036269, 174818803, 175587486, 176342799, 177085201, 177815125,
  178532984, 179239169, 179934055, 180617997, 181291336, 181954394, 182607480, 183250891, 183884909, 184509804,
  185125835, 185733250, 186332286, 186923172, 187506126, 188081359, 188649073, 189209460, 189762709, 190308999,
  190848502, 191381385, 191907809, 192427929, 192941893, 193449845, 193951925, 194448267, 194939001, 195424251,
  195904139, 196378783, 196848295, 197312785, 197772361, 198227123, 198677173, 199122608, 199563519, 200000000,
  200432137, 200860017, 201283722, 201703334, 202118930, 202530587, 202938378, 203342376, 203742650, 204139269,
  204532298, 204921802, 205307844, 205690485, 206069784, 206445799, 206818586, 207188201, 207554696, 207918125,
  208278537, 208635983, 208990511, 209342169, 209691001, 210037055, 210380372, 210720997, 211058971, 211394335,
  211727130, 212057393, 212385164, 212710480, 213033377, 213353891, 213672057, 213987909, 214301480, 214612804,
  214921911, 215228834, 215533604, 215836249, 216136800, 216435286, 216731733, 217026172, 217318627, 217609126,
  217897695, 218184359, 218469143, 218752072, 219033170, 219312460, 219589965, 219865709, 220139712, 220411998,
  220682588, 220951501, 221218760, 221484385, 221748394, 222010809, 222271647, 222530928, 222788670, 223044892,
  223299611, 223552845, 223804610, 224054925, 224303805, 224551267, 224797327, 225042000, 225285303, 225527251,
  225767857, 226007139, 226245109, 226481782, 226717173, 226951294, 227184161, 227415785, 227646180, 227875360,
  228103337, 228330123, 228555731, 228780173, 229003461, 229225607, 229446623, 229666519, 229885308, 230103000,
  230319606, 230535137, 230749604, 230963017, 231175386, 231386722, 231597035, 231806333, 232014629, 232221929,
  232428246, 232633586, 232837960, 233041377, 233243846, 233445375, 233645973, 233845649, 234044411, 234242268,
  234439227, 234635297, 234830486, 235024802, 235218252, 235410844, 235602586, 235793485, 235983548, 236172784,
  236361198, 236548798, 236735592, 236921586, 237106786, 237291200, 237474835, 237657696, 237839790, 238021124,
  238201704, 238381537, 238560627, 238738983, 238916608, 239093511, 239269695, 239445168, 239619935, 239794001,
  239967372, 240140054, 240312052, 240483372, 240654018, 240823997, 240993312, 241161971, 241329976, 241497335,
  241664051, 241830129, 241995575, 242160393, 242324587, 242488164, 242651126, 242813479, 242975228, 243136376,
  243296929, 243456890, 243616265, 243775056, 243933269, 244090908, 244247977, 244404480, 244560420, 244715803,
  244870632, 245024911, 245178644, 245331834, 245484486, 245636603, 245788190, 245939249, 246089784, 246239800,
  246389299, 246538285, 246686762, 246834733, 246982202, 247129171, 247275645, 247421626, 247567119, 247712125,
  247856650, 248000694, 248144263, 248287358, 248429984, 248572143, 248713838, 248855072, 248995848, 249136169,
  249276039, 249415459, 249554434, 249692965, 249831055, 249968708, 250105926, 250242712, 250379068, 250514998,
  250650503, 250785587, 250920252, 251054501, 251188336, 251321760, 251454775, 251587384, 251719590, 251851394,
  251982799, 252113808, 252244423, 252374647, 252504481, 252633928, 252762990, 252891670, 253019970, 253147892,
  253275438, 253402611, 253529412, 253655844, 253781910, 253907610, 254032947, 254157924, 254282543, 254406804,
  254530712, 254654266, 254777471, 254900326, 255022835, 255145000, 255266822, 255388303, 255509445, 255630250,
  255750720, 255870857, 255990663, 256110138, 256229286, 256348109, 256466606, 256584782, 256702637, 256820172,
  256937391, 257054294, 257170883, 257287160, 257403127, 257518784, 257634135, 257749180, 257863921, 257978360,
  258092498, 258206336, 258319877, 258433122, 258546073, 258658730, 258771097, 258883173, 258994960, 259106461,
  259217676, 259328607, 259439255, 259549622, 259659710, 259769519, 259879051, 259988307, 260097290, 260205999,
  260314437, 260422605, 260530505, 260638137, 260745502, 260852603, 260959441, 261066016, 261172331, 261278386,
  261384182, 261489722, 261595005, 261700034, 261804810, 261909333, 262013605, 262117628, 262221402, 262324929,
  262428210, 262531245, 262634037, 262736586, 262838893, 262940960, 263042788, 263144377, 263245729, 263346846,
  263447727, 263548375, 263648790, 263748973, 263848926, 263948649, 264048144, 264147411, 264246452, 264345268,
  264443859, 264542227, 264640373, 264738297, 264836001, 264933486, 265030752, 265127801, 265224634, 265321251,
  265417654, 265513843, 265609820, 265705585, 265801140, 265896484, 265991620, 266086548, 266181269, 266275783,
  266370093, 266464198, 266558099, 266651798, 266745295, 266838592, 266931688, 267024585, 267117284, 267209786,
  267302091, 267394200, 267486114, 267577834, 267669361, 267760695, 267851838, 267942790, 268033551, 268124124,
  268214508, 268304704, 268394713, 268484536, 268574174, 268663627, 268752896, 268841982, 268930886, 269019608,
  269108149, 269196510, 269284692, 269372695, 269460520, 269548168, 269635639, 269722934, 269810055, 269897000,
  269983773, 270070372, 270156799, 270243054, 270329138, 270415052, 270500796, 270586371, 270671778, 270757018,
  270842090, 270926996, 271011737, 271096312, 271180723, 271264970, 271349054, 271432976, 271516736, 271600334,
  271683772, 271767050, 271850169, 271933129, 272015930, 272098574, 272181062, 272263392, 272345567, 272427587,
  272509452, 272591163, 272672721, 272754126, 272835378, 272916479, 272997429, 273078228, 273158877, 273239376,
  273319727, 273399929, 273479983, 273559890, 273639650, 273719264, 273798733, 273878056, 273957234, 274036269,
  274115160, 274193908, 274272513, 274350976, 274429298, 274507479, 274585520, 274663420, 274741181, 274818803,
  274896286, 274973632, 275050839, 275127910, 275204845, 275281643, 275358306, 275434834, 275511227, 275587486,
  275663611, 275739603, 275815462, 275891189, 275966784, 276042248, 276117581, 276192784, 276267856, 276342799,
  276417613, 276492298, 276566855, 276641285, 276715587, 276789762, 276863810, 276937733, 277011529, 277085201,
  277158748, 277232171, 277305469, 277378644, 277451697, 277524626, 277597433, 277670118, 277742682, 277815125,
  277887447, 277959649, 278031731, 278103694, 278175537, 278247262, 278318869, 278390358, 278461729, 278532984,
  278604121, 278675142, 278746047, 278816837, 278887512, 278958071, 279028516, 279098848, 279169065, 279239169,
  279309160, 279379038, 279448805, 279518459, 279588002, 279657433, 279726754, 279795964, 279865065, 279934055,
  280002936, 280071708, 280140371, 280208926, 280277373, 280345712, 280413943, 280482068, 280550086, 280617997,
  280685803, 280753503, 280821097, 280888587, 280955971, 281023252, 281090428, 281157501, 281224470, 281291336,
  281358099, 281424760, 281491318, 281557775, 281624130, 281690384, 281756537, 281822589, 281888541, 281954394,
  282020146, 282085799, 282151353, 282216808, 282282165, 282347423, 282412583, 282477646, 282542612, 282607480,
  282672252, 282736927, 282801506, 282865990, 282930377, 282994670, 283058867, 283122969, 283186977, 283250891,
  283314711, 283378437, 283442070, 283505610, 283569057, 283632412, 283695674, 283758844, 283821922, 283884909,
  283947805, 284010609, 284073323, 284135947, 284198480, 284260924, 284323278, 284385542, 284447718, 284509804,
  284571802, 284633711, 284695533, 284757266, 284818912, 284880470, 284941941, 285003326, 285064624, 285125835,
  285186960, 285247999, 285308953, 285369821, 285430604, 285491302, 285551916, 285612444, 285672889, 285733250,
  285793526, 285853720, 285913830, 285973857, 286033801, 286093662, 286153441, 286213138, 286272753, 286332286,
  286391738, 286451108, 286510397, 286569606, 286628734, 286687781, 286746749, 286805636, 286864444, 286923172,
  286981821, 287040391, 287098881, 287157294, 287215627, 287273883, 287332060, 287390160, 287448182, 287506126,
  287563994, 287621784, 287679498, 287737135, 287794695, 287852180, 287909588, 287966921, 288024178, 288081359,
  288138466, 288195497, 288252454, 288309336, 288366144, 288422877, 288479536, 288536122, 288592634, 288649073,
  288705438, 288761730, 288817949, 288874096, 288930170, 288986172, 289042102, 289097960, 289153746, 289209460,
  289265103, 289320675, 289376176, 289431606, 289486966, 289542255, 289597473, 289652622, 289707700, 289762709,
  289817648, 289872518, 289927319, 289982050, 290036713, 290091307, 290145832, 290200289, 290254678, 290308999,
  290363252, 290417437, 290471555, 290525605, 290579588, 290633504, 290687353, 290741136, 290794852, 290848502,
  290902085, 290955603, 291009055, 291062440, 291115761, 291169016, 291222206, 291275330, 291328390, 291381385,
  291434316, 291487182, 291539984, 291592721, 291645395, 291698005, 291750551, 291803034, 291855453, 291907809,
  291960102, 292012333, 292064500, 292116605, 292168648, 292220628, 292272546, 292324402, 292376196, 292427929,
  292479600, 292531209, 292582757, 292634245, 292685671, 292737036, 292788341, 292839585, 292890769, 292941893,
  292992956, 293043959, 293094903, 293145787, 293196611, 293247376, 293298082, 293348729, 293399316, 293449845,
  293500315, 293550727, 293601080, 293651374, 293701611, 293751789, 293801910, 293851973, 293901978, 293951925,
  294001816, 294051648, 294101424, 294151143, 294200805, 294250411, 294299959, 294349452, 294398888, 294448267,
  294497591, 294546859, 294596070, 294645227, 294694327, 294743372, 294792362, 294841297, 294890176, 294939001,
  294987770, 295036485, 295085146, 295133752, 295182304, 295230801, 295279244, 295327634, 295375969, 295424251,
  295472479, 295520654, 295568775, 295616843, 295664858, 295712820, 295760729, 295808585, 295856388, 295904139,
  295951838, 295999484, 296047078, 296094620, 296142109, 296189547, 296236934, 296284268, 296331551, 296378783,
  296425963, 296473092, 296520170, 296567197, 296614173, 296661099, 296707973, 296754798, 296801571, 296848295,
  296894968, 296941591, 296988164, 297034688, 297081161, 297127585, 297173959, 297220284, 297266559, 297312785,
  297358962, 297405090, 297451169, 297497199, 297543181, 297589114, 297634998, 297680834, 297726621, 297772361,
  297818052, 297863695, 297909290, 297954837, 298000337, 298045789, 298091194, 298136551, 298181861, 298227123,
  298272339, 298317507, 298362629, 298407703, 298452731, 298497713, 298542647, 298587536, 298632378, 298677173,
  298721923, 298766626, 298811284, 298855896, 298900462, 298944982, 298989456, 299033885, 299078269, 299122608,
  299166901, 299211149, 299255352, 299299510, 299343623, 299387691, 299431715, 299475694, 299519629, 299563519,
  299607365, 299651167, 299694925, 299738638, 299782308, 299825934, 299869516, 299913054, 299956549, 300000000
>>
=============================================================================
