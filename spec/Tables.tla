------------------------------- MODULE Tables -------------------------------
(* Generated by tools/gen_tables.py from Unicode names and the CSS counter  *)
(* style tables.  Symbols of the built-in systems as code points.           *)
EXTENDS Integers, Sequences

(* Digits in order of value. *)
DecimalNames == {"Decimal", "EasternArabic", "Persian", "Bengali", "Cambodian", "Devanagari", "Gujarati", "Gurmukhi", "Kannada", "Lao", "Malayalam", "Mongolian", "Myanmar", "Oriya", "Tamil", "Telugu", "Thai", "Tibetan", "CjkDecimal", "HexUpper", "HexLower"}
T_Decimal == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57>>
T_EasternArabic == <<1632, 1633, 1634, 1635, 1636, 1637, 1638, 1639, 1640, 1641>>
T_Persian == <<1776, 1777, 1778, 1779, 1780, 1781, 1782, 1783, 1784, 1785>>
T_Bengali == <<2534, 2535, 2536, 2537, 2538, 2539, 2540, 2541, 2542, 2543>>
T_Cambodian == <<6112, 6113, 6114, 6115, 6116, 6117, 6118, 6119, 6120, 6121>>
T_Devanagari == <<2406, 2407, 2408, 2409, 2410, 2411, 2412, 2413, 2414, 2415>>
T_Gujarati == <<2790, 2791, 2792, 2793, 2794, 2795, 2796, 2797, 2798, 2799>>
T_Gurmukhi == <<2662, 2663, 2664, 2665, 2666, 2667, 2668, 2669, 2670, 2671>>
T_Kannada == <<3302, 3303, 3304, 3305, 3306, 3307, 3308, 3309, 3310, 3311>>
T_Lao == <<3792, 3793, 3794, 3795, 3796, 3797, 3798, 3799, 3800, 3801>>
T_Malayalam == <<3430, 3431, 3432, 3433, 3434, 3435, 3436, 3437, 3438, 3439>>
T_Mongolian == <<6160, 6161, 6162, 6163, 6164, 6165, 6166, 6167, 6168, 6169>>
T_Myanmar == <<4160, 4161, 4162, 4163, 4164, 4165, 4166, 4167, 4168, 4169>>
T_Oriya == <<2918, 2919, 2920, 2921, 2922, 2923, 2924, 2925, 2926, 2927>>
T_Tamil == <<3046, 3047, 3048, 3049, 3050, 3051, 3052, 3053, 3054, 3055>>
T_Telugu == <<3174, 3175, 3176, 3177, 3178, 3179, 3180, 3181, 3182, 3183>>
T_Thai == <<3664, 3665, 3666, 3667, 3668, 3669, 3670, 3671, 3672, 3673>>
T_Tibetan == <<3872, 3873, 3874, 3875, 3876, 3877, 3878, 3879, 3880, 3881>>
T_CjkDecimal == <<12295, 19968, 20108, 19977, 22235, 20116, 20845, 19971, 20843, 20061>>
T_HexUpper == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 65, 66, 67, 68, 69, 70>>
T_HexLower == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 97, 98, 99, 100, 101, 102>>
DecimalTable(name) ==
    CASE name = "Decimal" -> T_Decimal
      [] name = "EasternArabic" -> T_EasternArabic
      [] name = "Persian" -> T_Persian
      [] name = "Bengali" -> T_Bengali
      [] name = "Cambodian" -> T_Cambodian
      [] name = "Devanagari" -> T_Devanagari
      [] name = "Gujarati" -> T_Gujarati
      [] name = "Gurmukhi" -> T_Gurmukhi
      [] name = "Kannada" -> T_Kannada
      [] name = "Lao" -> T_Lao
      [] name = "Malayalam" -> T_Malayalam
      [] name = "Mongolian" -> T_Mongolian
      [] name = "Myanmar" -> T_Myanmar
      [] name = "Oriya" -> T_Oriya
      [] name = "Tamil" -> T_Tamil
      [] name = "Telugu" -> T_Telugu
      [] name = "Thai" -> T_Thai
      [] name = "Tibetan" -> T_Tibetan
      [] name = "CjkDecimal" -> T_CjkDecimal
      [] name = "HexUpper" -> T_HexUpper
      [] name = "HexLower" -> T_HexLower

(* Letters in alphabetical order. *)
AlphaNames == {"LetterUpper", "LetterLower", "GreekUpper", "GreekLower", "Hiragana", "Katakana", "HiraganaIroha", "KatakanaIroha", "HangeulJamo", "HangeulSyllable"}
T_LetterUpper == <<65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90>>
T_LetterLower == <<97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122>>
T_GreekUpper == <<913, 914, 915, 916, 917, 918, 919, 920, 921, 922, 923, 924, 925, 926, 927, 928, 929, 931, 932, 933, 934, 935, 936, 937>>
T_GreekLower == <<945, 946, 947, 948, 949, 950, 951, 952, 953, 954, 955, 956, 957, 958, 959, 960, 961, 963, 964, 965, 966, 967, 968, 969>>
T_Hiragana == <<12354, 12356, 12358, 12360, 12362, 12363, 12365, 12367, 12369, 12371, 12373, 12375, 12377, 12379, 12381, 12383, 12385, 12388, 12390, 12392, 12394, 12395, 12396, 12397, 12398, 12399, 12402, 12405, 12408, 12411, 12414, 12415, 12416, 12417, 12418, 12420, 12422, 12424, 12425, 12426, 12427, 12428, 12429, 12431, 12434, 12435>>
T_Katakana == <<12450, 12452, 12454, 12456, 12458, 12459, 12461, 12463, 12465, 12467, 12469, 12471, 12473, 12475, 12477, 12479, 12481, 12484, 12486, 12488, 12490, 12491, 12492, 12493, 12494, 12495, 12498, 12501, 12504, 12507, 12510, 12511, 12512, 12513, 12514, 12516, 12518, 12520, 12521, 12522, 12523, 12524, 12525, 12527, 12530, 12531>>
T_HiraganaIroha == <<12356, 12429, 12399, 12395, 12411, 12408, 12392, 12385, 12426, 12396, 12427, 12434, 12431, 12363, 12424, 12383, 12428, 12381, 12388, 12397, 12394, 12425, 12416, 12358, 12432, 12398, 12362, 12367, 12420, 12414, 12369, 12405, 12371, 12360, 12390, 12354, 12373, 12365, 12422, 12417, 12415, 12375, 12433, 12402, 12418, 12379, 12377>>
T_KatakanaIroha == <<12452, 12525, 12495, 12491, 12507, 12504, 12488, 12481, 12522, 12492, 12523, 12530, 12527, 12459, 12520, 12479, 12524, 12477, 12484, 12493, 12490, 12521, 12512, 12454, 12528, 12494, 12458, 12463, 12516, 12510, 12465, 12501, 12467, 12456, 12486, 12450, 12469, 12461, 12518, 12513, 12511, 12471, 12529, 12498, 12514, 12475, 12473>>
T_HangeulJamo == <<12593, 12596, 12599, 12601, 12609, 12610, 12613, 12615, 12616, 12618, 12619, 12620, 12621, 12622>>
T_HangeulSyllable == <<44032, 45208, 45796, 46972, 47560, 48148, 49324, 50500, 51088, 52264, 52852, 53440, 54028, 54616>>
AlphaTable(name) ==
    CASE name = "LetterUpper" -> T_LetterUpper
      [] name = "LetterLower" -> T_LetterLower
      [] name = "GreekUpper" -> T_GreekUpper
      [] name = "GreekLower" -> T_GreekLower
      [] name = "Hiragana" -> T_Hiragana
      [] name = "Katakana" -> T_Katakana
      [] name = "HiraganaIroha" -> T_HiraganaIroha
      [] name = "KatakanaIroha" -> T_KatakanaIroha
      [] name = "HangeulJamo" -> T_HangeulJamo
      [] name = "HangeulSyllable" -> T_HangeulSyllable

(* One symbol per number from 1. *)
FixedNames == {"CjkHeavenlyStem", "CjkEarthlyBranch"}
T_CjkHeavenlyStem == <<30002, 20057, 19993, 19969, 25098, 24049, 24218, 36763, 22764, 30328>>
T_CjkEarthlyBranch == <<23376, 19985, 23493, 21359, 36784, 24051, 21320, 26410, 30003, 37193, 25100, 20133>>
FixedTable(name) ==
    CASE name = "CjkHeavenlyStem" -> T_CjkHeavenlyStem
      [] name = "CjkEarthlyBranch" -> T_CjkEarthlyBranch

(* Symbols with their values (BigNat), descending. *)
AdditiveNames == {"RomanUpper", "RomanLower", "ArmenianUpper", "ArmenianLower", "Georgian", "JapaneseFormal", "JapaneseInformal", "HangeulFormal", "HanjaInformal", "HanjaFormal"}
T_RomanUpper == <<
    [s |-> <<77, 773>>, v |-> <<100, 0>>],
    [s |-> <<67, 773, 77, 773>>, v |-> <<90, 0>>],
    [s |-> <<68, 773>>, v |-> <<50, 0>>],
    [s |-> <<67, 773, 68, 773>>, v |-> <<40, 0>>],
    [s |-> <<67, 773>>, v |-> <<10, 0>>],
    [s |-> <<88, 773, 67, 773>>, v |-> <<9, 0>>],
    [s |-> <<76, 773>>, v |-> <<5, 0>>],
    [s |-> <<88, 773, 76, 773>>, v |-> <<4, 0>>],
    [s |-> <<88, 773>>, v |-> <<1, 0>>],
    [s |-> <<73, 773, 88, 773>>, v |-> <<9000>>],
    [s |-> <<86, 773>>, v |-> <<5000>>],
    [s |-> <<73, 773, 86, 773>>, v |-> <<4000>>],
    [s |-> <<77>>, v |-> <<1000>>],
    [s |-> <<67, 77>>, v |-> <<900>>],
    [s |-> <<68>>, v |-> <<500>>],
    [s |-> <<67, 68>>, v |-> <<400>>],
    [s |-> <<67>>, v |-> <<100>>],
    [s |-> <<88, 67>>, v |-> <<90>>],
    [s |-> <<76>>, v |-> <<50>>],
    [s |-> <<88, 76>>, v |-> <<40>>],
    [s |-> <<88>>, v |-> <<10>>],
    [s |-> <<73, 88>>, v |-> <<9>>],
    [s |-> <<86>>, v |-> <<5>>],
    [s |-> <<73, 86>>, v |-> <<4>>],
    [s |-> <<73>>, v |-> <<1>>],
    [s |-> <<78>>, v |-> <<>>]>>
T_RomanLower == <<
    [s |-> <<109, 773>>, v |-> <<100, 0>>],
    [s |-> <<99, 773, 109, 773>>, v |-> <<90, 0>>],
    [s |-> <<100, 773>>, v |-> <<50, 0>>],
    [s |-> <<99, 773, 100, 773>>, v |-> <<40, 0>>],
    [s |-> <<99, 773>>, v |-> <<10, 0>>],
    [s |-> <<120, 773, 99, 773>>, v |-> <<9, 0>>],
    [s |-> <<108, 773>>, v |-> <<5, 0>>],
    [s |-> <<120, 773, 108, 773>>, v |-> <<4, 0>>],
    [s |-> <<120, 773>>, v |-> <<1, 0>>],
    [s |-> <<105, 773, 120, 773>>, v |-> <<9000>>],
    [s |-> <<118, 773>>, v |-> <<5000>>],
    [s |-> <<105, 773, 118, 773>>, v |-> <<4000>>],
    [s |-> <<109>>, v |-> <<1000>>],
    [s |-> <<99, 109>>, v |-> <<900>>],
    [s |-> <<100>>, v |-> <<500>>],
    [s |-> <<99, 100>>, v |-> <<400>>],
    [s |-> <<99>>, v |-> <<100>>],
    [s |-> <<120, 99>>, v |-> <<90>>],
    [s |-> <<108>>, v |-> <<50>>],
    [s |-> <<120, 108>>, v |-> <<40>>],
    [s |-> <<120>>, v |-> <<10>>],
    [s |-> <<105, 120>>, v |-> <<9>>],
    [s |-> <<118>>, v |-> <<5>>],
    [s |-> <<105, 118>>, v |-> <<4>>],
    [s |-> <<105>>, v |-> <<1>>],
    [s |-> <<110>>, v |-> <<>>]>>
T_ArmenianUpper == <<
    [s |-> <<1364>>, v |-> <<9000>>],
    [s |-> <<1363>>, v |-> <<8000>>],
    [s |-> <<1362>>, v |-> <<7000>>],
    [s |-> <<1361>>, v |-> <<6000>>],
    [s |-> <<1360>>, v |-> <<5000>>],
    [s |-> <<1359>>, v |-> <<4000>>],
    [s |-> <<1358>>, v |-> <<3000>>],
    [s |-> <<1357>>, v |-> <<2000>>],
    [s |-> <<1356>>, v |-> <<1000>>],
    [s |-> <<1355>>, v |-> <<900>>],
    [s |-> <<1354>>, v |-> <<800>>],
    [s |-> <<1353>>, v |-> <<700>>],
    [s |-> <<1352>>, v |-> <<600>>],
    [s |-> <<1351>>, v |-> <<500>>],
    [s |-> <<1350>>, v |-> <<400>>],
    [s |-> <<1349>>, v |-> <<300>>],
    [s |-> <<1348>>, v |-> <<200>>],
    [s |-> <<1347>>, v |-> <<100>>],
    [s |-> <<1346>>, v |-> <<90>>],
    [s |-> <<1345>>, v |-> <<80>>],
    [s |-> <<1344>>, v |-> <<70>>],
    [s |-> <<1343>>, v |-> <<60>>],
    [s |-> <<1342>>, v |-> <<50>>],
    [s |-> <<1341>>, v |-> <<40>>],
    [s |-> <<1340>>, v |-> <<30>>],
    [s |-> <<1339>>, v |-> <<20>>],
    [s |-> <<1338>>, v |-> <<10>>],
    [s |-> <<1337>>, v |-> <<9>>],
    [s |-> <<1336>>, v |-> <<8>>],
    [s |-> <<1335>>, v |-> <<7>>],
    [s |-> <<1334>>, v |-> <<6>>],
    [s |-> <<1333>>, v |-> <<5>>],
    [s |-> <<1332>>, v |-> <<4>>],
    [s |-> <<1331>>, v |-> <<3>>],
    [s |-> <<1330>>, v |-> <<2>>],
    [s |-> <<1329>>, v |-> <<1>>]>>
T_ArmenianLower == <<
    [s |-> <<1412>>, v |-> <<9000>>],
    [s |-> <<1411>>, v |-> <<8000>>],
    [s |-> <<1410>>, v |-> <<7000>>],
    [s |-> <<1409>>, v |-> <<6000>>],
    [s |-> <<1408>>, v |-> <<5000>>],
    [s |-> <<1407>>, v |-> <<4000>>],
    [s |-> <<1406>>, v |-> <<3000>>],
    [s |-> <<1405>>, v |-> <<2000>>],
    [s |-> <<1404>>, v |-> <<1000>>],
    [s |-> <<1403>>, v |-> <<900>>],
    [s |-> <<1402>>, v |-> <<800>>],
    [s |-> <<1401>>, v |-> <<700>>],
    [s |-> <<1400>>, v |-> <<600>>],
    [s |-> <<1399>>, v |-> <<500>>],
    [s |-> <<1398>>, v |-> <<400>>],
    [s |-> <<1397>>, v |-> <<300>>],
    [s |-> <<1396>>, v |-> <<200>>],
    [s |-> <<1395>>, v |-> <<100>>],
    [s |-> <<1394>>, v |-> <<90>>],
    [s |-> <<1393>>, v |-> <<80>>],
    [s |-> <<1392>>, v |-> <<70>>],
    [s |-> <<1391>>, v |-> <<60>>],
    [s |-> <<1390>>, v |-> <<50>>],
    [s |-> <<1389>>, v |-> <<40>>],
    [s |-> <<1388>>, v |-> <<30>>],
    [s |-> <<1387>>, v |-> <<20>>],
    [s |-> <<1386>>, v |-> <<10>>],
    [s |-> <<1385>>, v |-> <<9>>],
    [s |-> <<1384>>, v |-> <<8>>],
    [s |-> <<1383>>, v |-> <<7>>],
    [s |-> <<1382>>, v |-> <<6>>],
    [s |-> <<1381>>, v |-> <<5>>],
    [s |-> <<1380>>, v |-> <<4>>],
    [s |-> <<1379>>, v |-> <<3>>],
    [s |-> <<1378>>, v |-> <<2>>],
    [s |-> <<1377>>, v |-> <<1>>]>>
T_Georgian == <<
    [s |-> <<4341>>, v |-> <<1, 0>>],
    [s |-> <<4336>>, v |-> <<9000>>],
    [s |-> <<4335>>, v |-> <<8000>>],
    [s |-> <<4340>>, v |-> <<7000>>],
    [s |-> <<4334>>, v |-> <<6000>>],
    [s |-> <<4333>>, v |-> <<5000>>],
    [s |-> <<4332>>, v |-> <<4000>>],
    [s |-> <<4331>>, v |-> <<3000>>],
    [s |-> <<4330>>, v |-> <<2000>>],
    [s |-> <<4329>>, v |-> <<1000>>],
    [s |-> <<4328>>, v |-> <<900>>],
    [s |-> <<4327>>, v |-> <<800>>],
    [s |-> <<4326>>, v |-> <<700>>],
    [s |-> <<4325>>, v |-> <<600>>],
    [s |-> <<4324>>, v |-> <<500>>],
    [s |-> <<4339>>, v |-> <<400>>],
    [s |-> <<4322>>, v |-> <<300>>],
    [s |-> <<4321>>, v |-> <<200>>],
    [s |-> <<4320>>, v |-> <<100>>],
    [s |-> <<4319>>, v |-> <<90>>],
    [s |-> <<4318>>, v |-> <<80>>],
    [s |-> <<4317>>, v |-> <<70>>],
    [s |-> <<4338>>, v |-> <<60>>],
    [s |-> <<4316>>, v |-> <<50>>],
    [s |-> <<4315>>, v |-> <<40>>],
    [s |-> <<4314>>, v |-> <<30>>],
    [s |-> <<4313>>, v |-> <<20>>],
    [s |-> <<4312>>, v |-> <<10>>],
    [s |-> <<4311>>, v |-> <<9>>],
    [s |-> <<4337>>, v |-> <<8>>],
    [s |-> <<4310>>, v |-> <<7>>],
    [s |-> <<4309>>, v |-> <<6>>],
    [s |-> <<4308>>, v |-> <<5>>],
    [s |-> <<4307>>, v |-> <<4>>],
    [s |-> <<4306>>, v |-> <<3>>],
    [s |-> <<4305>>, v |-> <<2>>],
    [s |-> <<4304>>, v |-> <<1>>]>>
T_JapaneseFormal == <<
    [s |-> <<20061, 38433>>, v |-> <<9000>>],
    [s |-> <<20843, 38433>>, v |-> <<8000>>],
    [s |-> <<19971, 38433>>, v |-> <<7000>>],
    [s |-> <<20845, 38433>>, v |-> <<6000>>],
    [s |-> <<20237, 38433>>, v |-> <<5000>>],
    [s |-> <<22235, 38433>>, v |-> <<4000>>],
    [s |-> <<21442, 38433>>, v |-> <<3000>>],
    [s |-> <<24336, 38433>>, v |-> <<2000>>],
    [s |-> <<22769, 38433>>, v |-> <<1000>>],
    [s |-> <<20061, 30334>>, v |-> <<900>>],
    [s |-> <<20843, 30334>>, v |-> <<800>>],
    [s |-> <<19971, 30334>>, v |-> <<700>>],
    [s |-> <<20845, 30334>>, v |-> <<600>>],
    [s |-> <<20237, 30334>>, v |-> <<500>>],
    [s |-> <<22235, 30334>>, v |-> <<400>>],
    [s |-> <<21442, 30334>>, v |-> <<300>>],
    [s |-> <<24336, 30334>>, v |-> <<200>>],
    [s |-> <<22769, 30334>>, v |-> <<100>>],
    [s |-> <<20061, 25342>>, v |-> <<90>>],
    [s |-> <<20843, 25342>>, v |-> <<80>>],
    [s |-> <<19971, 25342>>, v |-> <<70>>],
    [s |-> <<20845, 25342>>, v |-> <<60>>],
    [s |-> <<20237, 25342>>, v |-> <<50>>],
    [s |-> <<22235, 25342>>, v |-> <<40>>],
    [s |-> <<21442, 25342>>, v |-> <<30>>],
    [s |-> <<24336, 25342>>, v |-> <<20>>],
    [s |-> <<22769, 25342>>, v |-> <<10>>],
    [s |-> <<20061>>, v |-> <<9>>],
    [s |-> <<20843>>, v |-> <<8>>],
    [s |-> <<19971>>, v |-> <<7>>],
    [s |-> <<20845>>, v |-> <<6>>],
    [s |-> <<20237>>, v |-> <<5>>],
    [s |-> <<22235>>, v |-> <<4>>],
    [s |-> <<21442>>, v |-> <<3>>],
    [s |-> <<24336>>, v |-> <<2>>],
    [s |-> <<22769>>, v |-> <<1>>],
    [s |-> <<38646>>, v |-> <<>>]>>
T_JapaneseInformal == <<
    [s |-> <<20061, 21315>>, v |-> <<9000>>],
    [s |-> <<20843, 21315>>, v |-> <<8000>>],
    [s |-> <<19971, 21315>>, v |-> <<7000>>],
    [s |-> <<20845, 21315>>, v |-> <<6000>>],
    [s |-> <<20116, 21315>>, v |-> <<5000>>],
    [s |-> <<22235, 21315>>, v |-> <<4000>>],
    [s |-> <<19977, 21315>>, v |-> <<3000>>],
    [s |-> <<20108, 21315>>, v |-> <<2000>>],
    [s |-> <<21315>>, v |-> <<1000>>],
    [s |-> <<20061, 30334>>, v |-> <<900>>],
    [s |-> <<20843, 30334>>, v |-> <<800>>],
    [s |-> <<19971, 30334>>, v |-> <<700>>],
    [s |-> <<20845, 30334>>, v |-> <<600>>],
    [s |-> <<20116, 30334>>, v |-> <<500>>],
    [s |-> <<22235, 30334>>, v |-> <<400>>],
    [s |-> <<19977, 30334>>, v |-> <<300>>],
    [s |-> <<20108, 30334>>, v |-> <<200>>],
    [s |-> <<30334>>, v |-> <<100>>],
    [s |-> <<20061, 21313>>, v |-> <<90>>],
    [s |-> <<20843, 21313>>, v |-> <<80>>],
    [s |-> <<19971, 21313>>, v |-> <<70>>],
    [s |-> <<20845, 21313>>, v |-> <<60>>],
    [s |-> <<20116, 21313>>, v |-> <<50>>],
    [s |-> <<22235, 21313>>, v |-> <<40>>],
    [s |-> <<19977, 21313>>, v |-> <<30>>],
    [s |-> <<20108, 21313>>, v |-> <<20>>],
    [s |-> <<21313>>, v |-> <<10>>],
    [s |-> <<20061>>, v |-> <<9>>],
    [s |-> <<20843>>, v |-> <<8>>],
    [s |-> <<19971>>, v |-> <<7>>],
    [s |-> <<20845>>, v |-> <<6>>],
    [s |-> <<20116>>, v |-> <<5>>],
    [s |-> <<22235>>, v |-> <<4>>],
    [s |-> <<19977>>, v |-> <<3>>],
    [s |-> <<20108>>, v |-> <<2>>],
    [s |-> <<19968>>, v |-> <<1>>],
    [s |-> <<12295>>, v |-> <<>>]>>
T_HangeulFormal == <<
    [s |-> <<44396, 52380>>, v |-> <<9000>>],
    [s |-> <<54036, 52380>>, v |-> <<8000>>],
    [s |-> <<52832, 52380>>, v |-> <<7000>>],
    [s |-> <<50977, 52380>>, v |-> <<6000>>],
    [s |-> <<50724, 52380>>, v |-> <<5000>>],
    [s |-> <<49324, 52380>>, v |-> <<4000>>],
    [s |-> <<49340, 52380>>, v |-> <<3000>>],
    [s |-> <<51060, 52380>>, v |-> <<2000>>],
    [s |-> <<51068, 52380>>, v |-> <<1000>>],
    [s |-> <<44396, 48177>>, v |-> <<900>>],
    [s |-> <<54036, 48177>>, v |-> <<800>>],
    [s |-> <<52832, 48177>>, v |-> <<700>>],
    [s |-> <<50977, 48177>>, v |-> <<600>>],
    [s |-> <<50724, 48177>>, v |-> <<500>>],
    [s |-> <<49324, 48177>>, v |-> <<400>>],
    [s |-> <<49340, 48177>>, v |-> <<300>>],
    [s |-> <<51060, 48177>>, v |-> <<200>>],
    [s |-> <<51068, 48177>>, v |-> <<100>>],
    [s |-> <<44396, 49901>>, v |-> <<90>>],
    [s |-> <<54036, 49901>>, v |-> <<80>>],
    [s |-> <<52832, 49901>>, v |-> <<70>>],
    [s |-> <<50977, 49901>>, v |-> <<60>>],
    [s |-> <<50724, 49901>>, v |-> <<50>>],
    [s |-> <<49324, 49901>>, v |-> <<40>>],
    [s |-> <<49340, 49901>>, v |-> <<30>>],
    [s |-> <<51060, 49901>>, v |-> <<20>>],
    [s |-> <<51068, 49901>>, v |-> <<10>>],
    [s |-> <<44396>>, v |-> <<9>>],
    [s |-> <<54036>>, v |-> <<8>>],
    [s |-> <<52832>>, v |-> <<7>>],
    [s |-> <<50977>>, v |-> <<6>>],
    [s |-> <<50724>>, v |-> <<5>>],
    [s |-> <<49324>>, v |-> <<4>>],
    [s |-> <<49340>>, v |-> <<3>>],
    [s |-> <<51060>>, v |-> <<2>>],
    [s |-> <<51068>>, v |-> <<1>>],
    [s |-> <<50689>>, v |-> <<>>]>>
T_HanjaInformal == <<
    [s |-> <<20061, 21315>>, v |-> <<9000>>],
    [s |-> <<20843, 21315>>, v |-> <<8000>>],
    [s |-> <<19971, 21315>>, v |-> <<7000>>],
    [s |-> <<20845, 21315>>, v |-> <<6000>>],
    [s |-> <<20116, 21315>>, v |-> <<5000>>],
    [s |-> <<22235, 21315>>, v |-> <<4000>>],
    [s |-> <<19977, 21315>>, v |-> <<3000>>],
    [s |-> <<20108, 21315>>, v |-> <<2000>>],
    [s |-> <<21315>>, v |-> <<1000>>],
    [s |-> <<20061, 30334>>, v |-> <<900>>],
    [s |-> <<20843, 30334>>, v |-> <<800>>],
    [s |-> <<19971, 30334>>, v |-> <<700>>],
    [s |-> <<20845, 30334>>, v |-> <<600>>],
    [s |-> <<20116, 30334>>, v |-> <<500>>],
    [s |-> <<22235, 30334>>, v |-> <<400>>],
    [s |-> <<19977, 30334>>, v |-> <<300>>],
    [s |-> <<20108, 30334>>, v |-> <<200>>],
    [s |-> <<30334>>, v |-> <<100>>],
    [s |-> <<20061, 21313>>, v |-> <<90>>],
    [s |-> <<20843, 21313>>, v |-> <<80>>],
    [s |-> <<19971, 21313>>, v |-> <<70>>],
    [s |-> <<20845, 21313>>, v |-> <<60>>],
    [s |-> <<20116, 21313>>, v |-> <<50>>],
    [s |-> <<22235, 21313>>, v |-> <<40>>],
    [s |-> <<19977, 21313>>, v |-> <<30>>],
    [s |-> <<20108, 21313>>, v |-> <<20>>],
    [s |-> <<21313>>, v |-> <<10>>],
    [s |-> <<20061>>, v |-> <<9>>],
    [s |-> <<20843>>, v |-> <<8>>],
    [s |-> <<19971>>, v |-> <<7>>],
    [s |-> <<20845>>, v |-> <<6>>],
    [s |-> <<20116>>, v |-> <<5>>],
    [s |-> <<22235>>, v |-> <<4>>],
    [s |-> <<19977>>, v |-> <<3>>],
    [s |-> <<20108>>, v |-> <<2>>],
    [s |-> <<19968>>, v |-> <<1>>],
    [s |-> <<38646>>, v |-> <<>>]>>
T_HanjaFormal == <<
    [s |-> <<20061, 20191>>, v |-> <<9000>>],
    [s |-> <<20843, 20191>>, v |-> <<8000>>],
    [s |-> <<19971, 20191>>, v |-> <<7000>>],
    [s |-> <<20845, 20191>>, v |-> <<6000>>],
    [s |-> <<20116, 20191>>, v |-> <<5000>>],
    [s |-> <<22235, 20191>>, v |-> <<4000>>],
    [s |-> <<21443, 20191>>, v |-> <<3000>>],
    [s |-> <<36019, 20191>>, v |-> <<2000>>],
    [s |-> <<22777, 20191>>, v |-> <<1000>>],
    [s |-> <<20061, 30334>>, v |-> <<900>>],
    [s |-> <<20843, 30334>>, v |-> <<800>>],
    [s |-> <<19971, 30334>>, v |-> <<700>>],
    [s |-> <<20845, 30334>>, v |-> <<600>>],
    [s |-> <<20116, 30334>>, v |-> <<500>>],
    [s |-> <<22235, 30334>>, v |-> <<400>>],
    [s |-> <<21443, 30334>>, v |-> <<300>>],
    [s |-> <<36019, 30334>>, v |-> <<200>>],
    [s |-> <<22777, 30334>>, v |-> <<100>>],
    [s |-> <<20061, 25342>>, v |-> <<90>>],
    [s |-> <<20843, 25342>>, v |-> <<80>>],
    [s |-> <<19971, 25342>>, v |-> <<70>>],
    [s |-> <<20845, 25342>>, v |-> <<60>>],
    [s |-> <<20116, 25342>>, v |-> <<50>>],
    [s |-> <<22235, 25342>>, v |-> <<40>>],
    [s |-> <<21443, 25342>>, v |-> <<30>>],
    [s |-> <<36019, 25342>>, v |-> <<20>>],
    [s |-> <<22777, 25342>>, v |-> <<10>>],
    [s |-> <<20061>>, v |-> <<9>>],
    [s |-> <<20843>>, v |-> <<8>>],
    [s |-> <<19971>>, v |-> <<7>>],
    [s |-> <<20845>>, v |-> <<6>>],
    [s |-> <<20116>>, v |-> <<5>>],
    [s |-> <<22235>>, v |-> <<4>>],
    [s |-> <<21443>>, v |-> <<3>>],
    [s |-> <<36019>>, v |-> <<2>>],
    [s |-> <<22777>>, v |-> <<1>>],
    [s |-> <<38646>>, v |-> <<>>]>>
AdditiveTable(name) ==
    CASE name = "RomanUpper" -> T_RomanUpper
      [] name = "RomanLower" -> T_RomanLower
      [] name = "ArmenianUpper" -> T_ArmenianUpper
      [] name = "ArmenianLower" -> T_ArmenianLower
      [] name = "Georgian" -> T_Georgian
      [] name = "JapaneseFormal" -> T_JapaneseFormal
      [] name = "JapaneseInformal" -> T_JapaneseInformal
      [] name = "HangeulFormal" -> T_HangeulFormal
      [] name = "HanjaInformal" -> T_HanjaInformal
      [] name = "HanjaFormal" -> T_HanjaFormal

(* Symbol texts in ascending order. *)
EnumeratedNames == {"CircledNumber", "DoubleCircledNumber"}
T_CircledNumber == <<<<9450>>, <<9312>>, <<9313>>, <<9314>>, <<9315>>, <<9316>>, <<9317>>, <<9318>>, <<9319>>, <<9320>>, <<9321>>, <<9322>>, <<9323>>, <<9324>>, <<9325>>, <<9326>>, <<9327>>, <<9328>>, <<9329>>, <<9330>>, <<9331>>, <<12881>>, <<12882>>, <<12883>>, <<12884>>, <<12885>>, <<12886>>, <<12887>>, <<12888>>, <<12889>>, <<12890>>, <<12891>>, <<12892>>, <<12893>>, <<12894>>, <<12895>>, <<12977>>, <<12978>>, <<12979>>, <<12980>>, <<12981>>, <<12982>>, <<12983>>, <<12984>>, <<12985>>, <<12986>>, <<12987>>, <<12988>>, <<12989>>, <<12990>>, <<12991>>>>
T_DoubleCircledNumber == <<<<9461>>, <<9462>>, <<9463>>, <<9464>>, <<9465>>, <<9466>>, <<9467>>, <<9468>>, <<9469>>, <<9470>>>>
EnumeratedTable(name) ==
    CASE name = "CircledNumber" -> T_CircledNumber
      [] name = "DoubleCircledNumber" -> T_DoubleCircledNumber

EnumeratedZero(name) == name = "CircledNumber"
=============================================================================
