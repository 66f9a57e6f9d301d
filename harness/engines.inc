// generated by lib/catalog.py: ENGINE(name, seed bits, real word size, buffer, tags, type)
#if PART(0)
ENGINE(minstd_rand0, 32, 0, 1, "prod jump fast d:1,2,127772,127773,127774,255545,255546,255547,667870353,703838500,739806647,1073741823,1407677000,1443645147,1479613294,2147353037,2147353038,2147353039,2147483645,2147483646", boost::random::minstd_rand0)
#endif
#if PART(1)
ENGINE(minstd_rand, 32, 0, 1, "prod jump fast d:1,2,44487,44488,44489,88975,88976,88977,123832544,247665088,495330176,1073741823,1652153471,1899818559,2023651103,2147435759,2147435760,2147435761,2147483645,2147483646", boost::random::minstd_rand)
#endif
#if PART(2)
ENGINE(rand48, 32, 0, 1, "prod jump fast", boost::random::rand48)
#endif
#if PART(3)
ENGINE(mt11213b, 32, 0, 351, "prod fast", boost::random::mt11213b)
#endif
#if PART(4)
ENGINE(mt19937, 32, 0, 624, "prod fast", boost::random::mt19937)
#endif
#if PART(5)
ENGINE(mt19937_64, 64, 0, 312, "prod fast", boost::random::mt19937_64)
#endif
#if PART(6)
ENGINE(taus88, 32, 0, 1, "prod", boost::random::taus88)
#endif
#if PART(7)
ENGINE(hellekalek1995, 32, 0, 1, "prod d:0,1,2,489067605,2090089779,2140106814,2147483645,2147483646", boost::random::hellekalek1995)
#endif
#if PART(8)
ENGINE(ecuyer1988, 32, 0, 1, "prod jump fast dd:1820375243,964129908,544617786,1909390384,2082061899,1481316021,1397413695,2099864796,2082061899,666167378,1397413695,47618603,65421664,1481316021,750069868,2099864796,57156745,666167378,1354965129,47618603,2016640235,148981265,647343827,2004627590,1951218571,815148643,2044757522,2052246193,1102320154,333083689,1751224346,1097551001,1102320154,1814399710,1751224346,1049932398,65421664,666167378,750069868,47618603", boost::random::ecuyer1988)
#endif
#if PART(9)
ENGINE(kreutzer1986, 32, 0, 97, "prod d:1351,33091,61901,114760,130630,175310,204120,272849,288719,317529,346339,402128,415068,430938,459748,544347,573157,633707,686566,702436", boost::random::kreutzer1986)
#endif
#if PART(10)
ENGINE(knuth_b, 32, 0, 256, "prod d:6043065,297207971,303251036,386756160,470261284,476304349,600459007,773512320,779555385,987215167,1070720291,1076763356,1160268480,1373971327,1380014392,1547024640,1553067705,1760727487,1844232611,1850275676", boost::random::knuth_b)
#endif
#if PART(11)
ENGINE(lagged_fibonacci607, 32, 48, 607, "prod", boost::random::lagged_fibonacci607)
#endif
#if PART(12)
ENGINE(lagged_fibonacci1279, 32, 48, 1279, "prod", boost::random::lagged_fibonacci1279)
#endif
#if PART(13)
ENGINE(lagged_fibonacci2281, 32, 48, 2281, "prod", boost::random::lagged_fibonacci2281)
#endif
#if PART(14)
ENGINE(lagged_fibonacci3217, 32, 48, 3217, "prod big", boost::random::lagged_fibonacci3217)
#endif
#if PART(15)
ENGINE(lagged_fibonacci4423, 32, 48, 4423, "prod big", boost::random::lagged_fibonacci4423)
#endif
#if PART(16)
ENGINE(lagged_fibonacci9689, 32, 48, 9689, "prod big", boost::random::lagged_fibonacci9689)
#endif
#if PART(17)
ENGINE(lagged_fibonacci19937, 32, 48, 19937, "prod big", boost::random::lagged_fibonacci19937)
#endif
#if PART(18)
ENGINE(lagged_fibonacci23209, 32, 48, 23209, "prod big", boost::random::lagged_fibonacci23209)
#endif
#if PART(19)
ENGINE(lagged_fibonacci44497, 32, 48, 44497, "prod big", boost::random::lagged_fibonacci44497)
#endif
#if PART(20)
ENGINE(ranlux3, 32, 0, 24, "prod", boost::random::ranlux3)
#endif
#if PART(21)
ENGINE(ranlux4, 32, 0, 24, "prod", boost::random::ranlux4)
#endif
#if PART(22)
ENGINE(ranlux3_01, 32, 24, 24, "prod", boost::random::ranlux3_01)
#endif
#if PART(23)
ENGINE(ranlux4_01, 32, 24, 24, "prod", boost::random::ranlux4_01)
#endif
#if PART(24)
ENGINE(ranlux64_3, 64, 0, 24, "prod", boost::random::ranlux64_3)
#endif
#if PART(25)
ENGINE(ranlux64_4, 64, 0, 24, "prod", boost::random::ranlux64_4)
#endif
#if PART(26)
ENGINE(ranlux64_3_01, 32, 48, 24, "prod", boost::random::ranlux64_3_01)
#endif
#if PART(27)
ENGINE(ranlux64_4_01, 32, 48, 24, "prod", boost::random::ranlux64_4_01)
#endif
#if PART(28)
ENGINE(ranlux24_base, 32, 0, 24, "prod", boost::random::ranlux24_base)
#endif
#if PART(29)
ENGINE(ranlux48_base, 64, 0, 12, "prod", boost::random::ranlux48_base)
#endif
#if PART(30)
ENGINE(ranlux24, 32, 0, 23, "prod", boost::random::ranlux24)
#endif
#if PART(31)
ENGINE(ranlux48, 64, 0, 11, "prod", boost::random::ranlux48)
#endif
#if PART(32)
ENGINE(splitmix64, 64, 0, 1, "prod", boost::random::splitmix64)
#endif
#if PART(33)
ENGINE(mixmax, 64, 0, 17, "prod", boost::random::mixmax)
#endif
#if PART(34)
ENGINE(s_lcg_3_0_7, 32, 0, 1, "small jump fast d:1,2,3,4,5,6", boost::random::linear_congruential_engine<std::uint32_t,3U,0U,7U>)
#endif
#if PART(35)
ENGINE(s_lcg_5_2_7, 32, 0, 1, "small jump fast d:0,1,2,3,4,5,6", boost::random::linear_congruential_engine<std::uint32_t,5U,2U,7U>)
#endif
#if PART(36)
ENGINE(s_lcg_1_3_7, 32, 0, 1, "small jump fast d:0,1,2,3,4,5,6", boost::random::linear_congruential_engine<std::uint32_t,1U,3U,7U>)
#endif
#if PART(37)
ENGINE(s_lcg_1_5_13, 32, 0, 1, "small jump fast d:0,1,2,6,7,8,9,10,11,12", boost::random::linear_congruential_engine<std::uint32_t,1U,5U,13U>)
#endif
#if PART(38)
ENGINE(s_lcg_2_0_11, 32, 0, 1, "small jump fast d:0,1,2,3,4,5,6,8,9,10", boost::random::linear_congruential_engine<std::uint32_t,2U,0U,11U>)
#endif
#if PART(39)
ENGINE(s_lcg_1_0_5, 32, 0, 1, "small jump fast d:0,1,2,3,4", boost::random::linear_congruential_engine<std::uint32_t,1U,0U,5U>)
#endif
#if PART(40)
ENGINE(s_lcg_6_5_13, 32, 0, 1, "small jump fast d:0,1,2,3,4,5,6,8,9,10,11,12", boost::random::linear_congruential_engine<std::uint32_t,6U,5U,13U>)
#endif
#if PART(41)
ENGINE(s_lcg_3_1_8, 32, 0, 1, "small jump fast d:0,1,2,3,4,5,6,7", boost::random::linear_congruential_engine<std::uint32_t,3U,1U,8U>)
#endif
#if PART(42)
ENGINE(s_lcg_5_3_16, 32, 0, 1, "small jump fast d:0,1,2,3,4,5,6,7,8,9,11,12,13,14,15", boost::random::linear_congruential_engine<std::uint32_t,5U,3U,16U>)
#endif
#if PART(43)
ENGINE(s_lcg_16_16_17, 32, 0, 1, "small jump fast d:0,1,2,3,7,8,9,14,15,16", boost::random::linear_congruential_engine<std::uint32_t,16U,16U,17U>)
#endif
#if PART(44)
ENGINE(s_lcg_30_7_31, 32, 0, 1, "small jump fast d:0,1,2,3,5,6,7,8,9,15,16,22,23,28,29,30", boost::random::linear_congruential_engine<std::uint32_t,30U,7U,31U>)
#endif
#if PART(45)
ENGINE(s_lcg_4_9_27, 32, 0, 1, "small jump fast d:0,1,2,4,5,6,7,8,10,11,12,13,17,18,19,20,25,26", boost::random::linear_congruential_engine<std::uint32_t,4U,9U,27U>)
#endif
#if PART(46)
ENGINE(s_lcg_1_1_3, 32, 0, 1, "small jump fast d:0,1,2", boost::random::linear_congruential_engine<std::uint32_t,1U,1U,3U>)
#endif
#if PART(47)
ENGINE(s_lcg_2_2_3, 32, 0, 1, "small jump fast d:0,1,2", boost::random::linear_congruential_engine<std::uint32_t,2U,2U,3U>)
#endif
#if PART(48)
ENGINE(s_lcg8_0, 32, 0, 1, "small jump fast d:0,1,2,3,4,5,6,7,99,109,114,119,123,128,133,227,228,229,232,237,242,254,255", boost::random::linear_congruential_engine<std::uint32_t,77U,55U,256U>)
#endif
#if PART(49)
ENGINE(s_lcg8_251, 16, 0, 1, "small nowords jump fast d:0,1,2,3,4,5,125,126,128,129,248,249,250", boost::random::linear_congruential_engine<std::uint16_t,250,3,251>)
#endif
#if PART(50)
ENGINE(x_lcg16_0, 16, 0, 1, "extra jump fast d:0,1,2,3,4,5,3915,6728,9541,29955,32768,33870,35581,36683,39496,50343,50344,50345,63825,65534,65535", boost::random::linear_congruential_engine<std::uint16_t,25173,13849,0>)
#endif
#if PART(51)
ENGINE(x_lcg16_65521, 16, 0, 1, "extra nowords jump fast d:0,1,2,3,4,5,6,7,16118,31187,32236,32760,33285,48354,49403,52088,52089,52090,64472,65519,65520", boost::random::linear_congruential_engine<std::uint16_t,17364,65520,65521>)
#endif
#if PART(52)
ENGINE(x_lcg32_0, 32, 0, 1, "extra jump fast d:0,1,2,2579,2580,2581,5159,5160,5161,18851643,597082479,615934122,634785765,653637408,672489051,2147483648,2763417770,2782269413,4276115653,4294471919,4294471920,4294471921,4294967294,4294967295", boost::random::linear_congruential_engine<std::uint32_t,1664525U,1013904223U,0U>)
#endif
#if PART(53)
ENGINE(x_lcg32_0b, 32, 0, 1, "extra jump fast d:0,1,2,3,858993459,1717986918,2147483648,2576980377,3006477107,3435973837,3865470566,4294967289,4294967290,4294967291,4294967294,4294967295", boost::random::linear_congruential_engine<std::uint32_t,4294967291U,4294967295U,0U>)
#endif
#if PART(54)
ENGINE(x_lcg32_2e31, 32, 0, 1, "extra jump fast d:0,1,2,3,230538014,289805467,520343481,724668904,1014474371,1073741824,1103515243,1103515244,1103515245,1508605261,1798410728,1857678181,2088216195,2147483646,2147483647", boost::random::linear_congruential_engine<std::uint32_t,1103515245U,12345U,2147483648U>)
#endif
#if PART(55)
ENGINE(x_lcg32_big, 32, 0, 1, "extra jump fast d:1,2,3,4,5,424257983,848515966,1935354654,2147483645,2359612637,3177271387,3177271388,3177271389,3446451325,3870709308,4294967289,4294967290", boost::random::linear_congruential_engine<std::uint32_t,1588635695U,0U,4294967291U>)
#endif
#if PART(56)
ENGINE(x_lcg32_big2, 32, 0, 1, "extra jump fast d:0,1,2,3,2147483643,2147483644,2147483645,2147483646,4294967287,4294967288,4294967289,4294967290", boost::random::linear_congruential_engine<std::uint32_t,4294967290U,4294967289U,4294967291U>)
#endif
#if PART(57)
ENGINE(x_lcg32_half, 32, 0, 1, "extra jump fast d:0,1,2,32765,32766,32767,65531,65532,65533,103886189,277073526,761984963,831286111,1073741829,1246896400,1316197548,1420083737,1489384885,1593271074,2078182511,2147418107,2147418108,2147418109,2147483657,2147483658", boost::random::linear_congruential_engine<std::uint32_t,65539U,2147483647U,2147483659U>)
#endif
#if PART(58)
ENGINE(x_lcg64_0, 64, 0, 1, "extra jump fast d:0,1,2,3,4,5,1758047245461552843,1843579416325869589,1929111587190186335,4568919932995229531,6498031520185415866,9223372036854775808,11066951453180645397,12728272447693586007,12728272447693586008,12728272447693586009,13877824140714322085,15635871386175874928,15721403557040191674,18446744073709551614,18446744073709551615", boost::random::linear_congruential_engine<std::uint64_t,6364136223846793005ULL,1442695040888963407ULL,0ULL>)
#endif
#if PART(59)
ENGINE(x_lcg64_48, 64, 0, 1, "extra jump fast d:0,1,2,11162,11163,11164,22325,22326,22327,35320271006875,36407462351219,71727733358094,107048004364969,140737488355328,142368275371844,177688546378719,212465221713422,246154705703781,247785492720297,281473972414307,281473972414308,281473972414309,281474976710654,281474976710655", boost::random::linear_congruential_engine<std::uint64_t,25214903917ULL,11ULL,281474976710656ULL>)
#endif
#if PART(60)
ENGINE(x_lcg64_59, 64, 0, 1, "extra jump fast d:1,2,1902,1903,1904,3805,3806,3807,96488778224254805,192977556448509610,288230376151711744,383483195854913878,384719154375966549,479971974079168683,576371327845055555,576371327845055556,576371327845055557,576460752303423486,576460752303423487", boost::random::linear_congruential_engine<std::uint64_t,302875106592253ULL,0ULL,576460752303423488ULL>)
#endif
#if PART(61)
ENGINE(x_lcg64_61, 64, 0, 1, "extra jump fast d:1,2,4,5,6,9,10,11,177056690689957561,620724924975912878,1064393159261868195,1152921504606846975,1241449849951825756,1685118084237781073,2128786318523736390,2188998071189963619,2188998071189963620,2188998071189963621,2305843009213693949,2305843009213693950", boost::random::linear_congruential_engine<std::uint64_t,437799614237992725ULL,0ULL,2305843009213693951ULL>)
#endif
#if PART(62)
ENGINE(x_lcg64_61b, 64, 0, 1, "extra jump fast d:0,1,2,3,1152921504606846973,1152921504606846974,1152921504606846975,1152921504606846976,2305843009213693947,2305843009213693948,2305843009213693949,2305843009213693950", boost::random::linear_congruential_engine<std::uint64_t,2305843009213693950ULL,2305843009213693949ULL,2305843009213693951ULL>)
#endif
#if PART(63)
ENGINE(x_lcg64_33, 64, 0, 1, "extra jump fast d:0,1,2,3,2147483639,2147483640,2147483655,2147483656,4294967293,4294967294,4294967295,4294967296,4294967297,4294967308,4294967309,4294967310", boost::random::linear_congruential_engine<std::uint64_t,4294967310ULL,4294967295ULL,4294967311ULL>)
#endif
#if PART(64)
ENGINE(x_lcg64_40, 64, 0, 1, "extra jump fast d:0,1,2,3,75,76,77,78,79,549755813844,549755813845,549755813921,549755813922,1099511627686,1099511627687,1099511627688", boost::random::linear_congruential_engine<std::uint64_t,1099511627688ULL,77ULL,1099511627689ULL>)
#endif
#if PART(65)
ENGINE(x_lcg64_64, 64, 0, 1, "extra jump fast d:0,1,2,3,9223372036854775776,9223372036854775777,9223372036854775778,9223372036854775779,18446744073709551553,18446744073709551554,18446744073709551555,18446744073709551556", boost::random::linear_congruential_engine<std::uint64_t,18446744073709551556ULL,18446744073709551555ULL,18446744073709551557ULL>)
#endif
#if PART(66)
ENGINE(x_lcg64_64b, 64, 0, 1, "extra jump fast d:0,1,2,6148914691236517184,6148914691236517185,6148914691236517186,9223372036854775778,12297829382473034369,12297829382473034370,12297829382473034371,15372286728091292964,18446744073709551555,18446744073709551556", boost::random::linear_congruential_engine<std::uint64_t,3ULL,1ULL,18446744073709551557ULL>)
#endif
#if PART(67)
ENGINE(x_lcg64_63, 64, 0, 1, "extra jump fast d:0,1,2,3,2012317511105961693,2599368507321426211,3186419503536890729,4611686018427387904,5198737014642852422,7211054525748814115,9219741426499971443,9219741426499971444,9219741426499971445,9223372036854775806,9223372036854775807", boost::random::linear_congruential_engine<std::uint64_t,9219741426499971445ULL,1ULL,9223372036854775808ULL>)
#endif
#if PART(68)
ENGINE(x_lcgi32, 32, 0, 1, "extra nowords jump fast d:1,2,127772,127773,127774,255545,255546,255547,667870353,703838500,739806647,1073741823,1407677000,1443645147,1479613294,2147353037,2147353038,2147353039,2147483645,2147483646", boost::random::linear_congruential_engine<std::int32_t,16807,0,2147483647>)
#endif
#if PART(69)
ENGINE(x_lcgi32b, 32, 0, 1, "extra nowords jump fast d:0,1,2,3,1073741821,1073741822,1073741823,1073741824,2147483643,2147483644,2147483645,2147483646", boost::random::linear_congruential_engine<std::int32_t,2147483646,2147483645,2147483647>)
#endif
#if PART(70)
ENGINE(x_lcgi32c, 32, 0, 1, "extra nowords jump fast d:0,1,2,521,522,523,1043,1044,1045,66274,85353,104432,225289,329721,357012,469657,488736,555010,574089,593168,712529,712530,712531,714023,714024", boost::random::linear_congruential_engine<std::int32_t,1366,150889,714025>)
#endif
#if PART(71)
ENGINE(x_lcgi64, 64, 0, 1, "extra jump fast d:1,2,3,4,5,7,8,9,66259023229075,74478465126253,132518046458150,140737488355328,148956930252506,215215953481581,275638409841039,275638409841040,275638409841041,281474976710654,281474976710655", boost::random::linear_congruential_engine<std::int64_t,68909602460261LL,0LL,281474976710656LL>)
#endif
#if PART(72)
ENGINE(x_lcgi64b, 64, 0, 1, "extra jump fast d:0,1,2,3,4,5,6,7,1152921504606846975,1152921504606846976,1152921504606846980,1152921504606846981,2305843009213693948,2305843009213693949,2305843009213693950", boost::random::linear_congruential_engine<std::int64_t,2305843009213693950LL,5LL,2305843009213693951LL>)
#endif
#if PART(73)
ENGINE(s_mt_w3_n2_m1_r1, 32, 0, 2, "small mtjump jump fast", boost::random::mersenne_twister_engine<std::uint32_t,3,2,1,1,4U,1,7U,1,1U,1,5U,1,5U>)
#endif
#if PART(74)
ENGINE(s_mt_w4_n2_m1_r1, 32, 0, 2, "small mtjump jump fast", boost::random::mersenne_twister_engine<std::uint32_t,4,2,1,1,12U,2,15U,1,1U,2,5U,2,5U>)
#endif
#if PART(75)
ENGINE(s_mt_w4_n3_m1_r1, 32, 0, 3, "small mtjump jump fast", boost::random::mersenne_twister_engine<std::uint32_t,4,3,1,1,15U,2,15U,1,1U,2,5U,2,5U>)
#endif
#if PART(76)
ENGINE(s_mt_w4_n3_m2_r2, 32, 0, 3, "small mtjump jump fast", boost::random::mersenne_twister_engine<std::uint32_t,4,3,2,2,9U,2,15U,1,1U,2,5U,2,5U>)
#endif
#if PART(77)
ENGINE(s_mt_w5_n3_m1_r3, 32, 0, 3, "small mtjump jump fast", boost::random::mersenne_twister_engine<std::uint32_t,5,3,1,3,27U,2,31U,1,1U,2,5U,2,5U>)
#endif
#if PART(78)
ENGINE(s_mt_w3_n4_m1_r0, 32, 0, 4, "small mtjump jump fast", boost::random::mersenne_twister_engine<std::uint32_t,3,4,1,0,5U,1,7U,1,1U,1,5U,1,5U>)
#endif
#if PART(79)
ENGINE(s_mt_w8_n3_m2_r5, 32, 0, 3, "extra mtjump jump fast", boost::random::mersenne_twister_engine<std::uint32_t,8,3,2,5,163U,4,255U,2,129U,4,5U,4,101U>)
#endif
#if PART(80)
ENGINE(s_mt_w6_n4_m3_r2, 32, 0, 4, "extra mtjump jump fast", boost::random::mersenne_twister_engine<std::uint32_t,6,4,3,2,57U,3,63U,1,1U,3,5U,3,37U>)
#endif
#if PART(81)
ENGINE(s_mt_w16_n2_m1_r14, 32, 0, 2, "extra mtjump jump fast", boost::random::mersenne_twister_engine<std::uint32_t,16,2,1,14,57375U,8,65535U,4,22145U,8,5U,8,35173U>)
#endif
#if PART(82)
ENGINE(s_mt_w5_n5_m4_r4, 32, 0, 5, "extra mtjump jump fast", boost::random::mersenne_twister_engine<std::uint32_t,5,5,4,4,19U,2,31U,1,1U,2,5U,2,5U>)
#endif
#if PART(83)
ENGINE(s_swc_2_1_3, 32, 0, 3, "small", boost::random::subtract_with_carry_engine<std::uint32_t,2,1,3>)
#endif
#if PART(84)
ENGINE(s_swc_2_2_3, 32, 0, 3, "small", boost::random::subtract_with_carry_engine<std::uint32_t,2,2,3>)
#endif
#if PART(85)
ENGINE(s_swc_1_1_4, 32, 0, 4, "small", boost::random::subtract_with_carry_engine<std::uint32_t,1,1,4>)
#endif
#if PART(86)
ENGINE(s_swc_3_1_2, 32, 0, 2, "small", boost::random::subtract_with_carry_engine<std::uint32_t,3,1,2>)
#endif
#if PART(87)
ENGINE(s_swc_1_3_7, 32, 0, 7, "small", boost::random::subtract_with_carry_engine<std::uint32_t,1,3,7>)
#endif
#if PART(88)
ENGINE(s_swc_1_2_5, 32, 0, 5, "small", boost::random::subtract_with_carry_engine<std::uint32_t,1,2,5>)
#endif
#if PART(89)
ENGINE(x_swc_31_7_20, 32, 0, 20, "extra", boost::random::subtract_with_carry_engine<std::uint32_t,31,7,20>)
#endif
#if PART(90)
ENGINE(x_swc_33_3_8, 64, 0, 8, "extra", boost::random::subtract_with_carry_engine<std::uint64_t,33,3,8>)
#endif
#if PART(91)
ENGINE(x_swc_60_5_6, 64, 0, 6, "extra", boost::random::subtract_with_carry_engine<std::uint64_t,60,5,6>)
#endif
#if PART(92)
ENGINE(x_swc_32_4_9, 64, 0, 9, "extra", boost::random::subtract_with_carry_engine<std::uint64_t,32,4,9>)
#endif
#if PART(93)
ENGINE(x_swc_8_2_6, 32, 0, 6, "extra", boost::random::subtract_with_carry_engine<std::uint32_t,8,2,6>)
#endif
#if PART(94)
ENGINE(x_swc_24_1_24, 32, 0, 24, "extra", boost::random::subtract_with_carry_engine<std::uint32_t,24,1,24>)
#endif
#if PART(95)
ENGINE(x_swc_24_23_24, 32, 0, 24, "extra", boost::random::subtract_with_carry_engine<std::uint32_t,24,23,24>)
#endif
#if PART(96)
ENGINE(x_swc01_24_3_10, 32, 24, 10, "extra", boost::random::subtract_with_carry_01_engine<float,24,3,10>)
#endif
#if PART(97)
ENGINE(x_swc01_48_2_7, 32, 48, 7, "extra", boost::random::subtract_with_carry_01_engine<double,48,2,7>)
#endif
#if PART(98)
ENGINE(x_swc01_32_4_6, 32, 32, 6, "extra", boost::random::subtract_with_carry_01_engine<double,32,4,6>)
#endif
#if PART(99)
ENGINE(x_swc01_3_1_3, 32, 3, 3, "extra", boost::random::subtract_with_carry_01_engine<double,3,1,3>)
#endif
#if PART(100)
ENGINE(x_swc01_60_3_5, 32, 60, 5, "extra", boost::random::subtract_with_carry_01_engine<long double,60,3,5>)
#endif
#if PART(101)
ENGINE(s_lf_2_3_1, 32, 0, 3, "small", boost::random::lagged_fibonacci_engine<std::uint32_t,2,3,1>)
#endif
#if PART(102)
ENGINE(s_lf_2_3_2, 32, 0, 3, "small", boost::random::lagged_fibonacci_engine<std::uint32_t,2,3,2>)
#endif
#if PART(103)
ENGINE(s_lf_1_7_3, 32, 0, 7, "small", boost::random::lagged_fibonacci_engine<std::uint32_t,1,7,3>)
#endif
#if PART(104)
ENGINE(s_lf_3_2_1, 32, 0, 2, "small", boost::random::lagged_fibonacci_engine<std::uint32_t,3,2,1>)
#endif
#if PART(105)
ENGINE(s_lf_1_5_2, 32, 0, 5, "small", boost::random::lagged_fibonacci_engine<std::uint32_t,1,5,2>)
#endif
#if PART(106)
ENGINE(x_lf_32_55_24, 32, 0, 55, "extra", boost::random::lagged_fibonacci_engine<std::uint32_t,32,55,24>)
#endif
#if PART(107)
ENGINE(x_lf_64_17_5, 64, 0, 17, "extra", boost::random::lagged_fibonacci_engine<std::uint64_t,64,17,5>)
#endif
#if PART(108)
ENGINE(x_lf_48_607_273, 64, 0, 607, "extra", boost::random::lagged_fibonacci_engine<std::uint64_t,48,607,273>)
#endif
#if PART(109)
ENGINE(x_lf_33_9_8, 64, 0, 9, "extra", boost::random::lagged_fibonacci_engine<std::uint64_t,33,9,8>)
#endif
#if PART(110)
ENGINE(x_lf_16_9_4, 16, 0, 9, "extra", boost::random::lagged_fibonacci_engine<std::uint16_t,16,9,4>)
#endif
#if PART(111)
ENGINE(x_lf_31_33_1, 32, 0, 33, "extra", boost::random::lagged_fibonacci_engine<std::uint32_t,31,33,1>)
#endif
#if PART(112)
ENGINE(x_lf01_48_20_7, 32, 48, 20, "extra", boost::random::lagged_fibonacci_01_engine<double,48,20,7>)
#endif
#if PART(113)
ENGINE(x_lf01_32_13_12, 32, 32, 13, "extra", boost::random::lagged_fibonacci_01_engine<double,32,13,12>)
#endif
#if PART(114)
ENGINE(x_lf01_3_4_1, 32, 3, 4, "extra", boost::random::lagged_fibonacci_01_engine<double,3,4,1>)
#endif
#if PART(115)
ENGINE(x_lf01_23_55_24, 32, 23, 55, "extra", boost::random::lagged_fibonacci_01_engine<float,23,55,24>)
#endif
#if PART(116)
ENGINE(x_lf01_60_10_3, 32, 60, 10, "extra", boost::random::lagged_fibonacci_01_engine<long double,60,10,3>)
#endif
#if PART(117)
ENGINE(s_lfsr_8_7_3_4, 32, 0, 1, "small", boost::random::linear_feedback_shift_engine<std::uint32_t,8,7,3,4>)
#endif
#if PART(118)
ENGINE(s_lfsr_8_5_2_2, 32, 0, 1, "small", boost::random::linear_feedback_shift_engine<std::uint32_t,8,5,2,2>)
#endif
#if PART(119)
ENGINE(s_lfsr_6_5_2_3, 32, 0, 1, "small", boost::random::linear_feedback_shift_engine<std::uint32_t,6,5,2,3>)
#endif
#if PART(120)
ENGINE(x_lfsr_32_31_13_12, 32, 0, 1, "extra", boost::random::linear_feedback_shift_engine<std::uint32_t,32,31,13,12>)
#endif
#if PART(121)
ENGINE(x_lfsr_32_29_2_4, 32, 0, 1, "extra", boost::random::linear_feedback_shift_engine<std::uint32_t,32,29,2,4>)
#endif
#if PART(122)
ENGINE(x_lfsr_32_28_3_17, 32, 0, 1, "extra", boost::random::linear_feedback_shift_engine<std::uint32_t,32,28,3,17>)
#endif
#if PART(123)
ENGINE(x_lfsr_64_63_1_10, 64, 0, 1, "extra", boost::random::linear_feedback_shift_engine<std::uint64_t,64,63,1,10>)
#endif
#if PART(124)
ENGINE(x_lfsr_64_58_19_28, 64, 0, 1, "extra", boost::random::linear_feedback_shift_engine<std::uint64_t,64,58,19,28>)
#endif
#if PART(125)
ENGINE(x_lfsr_33_31_6_18, 64, 0, 1, "extra", boost::random::linear_feedback_shift_engine<std::uint64_t,33,31,6,18>)
#endif
#if PART(126)
ENGINE(s_inv_3_0_7, 32, 0, 1, "small d:0,1,2,3,4,5,6", boost::random::inversive_congruential_engine<std::uint32_t,3U,0U,7U>)
#endif
#if PART(127)
ENGINE(s_inv_2_3_7, 32, 0, 1, "small d:0,1,2,3,4,5,6", boost::random::inversive_congruential_engine<std::uint32_t,2U,3U,7U>)
#endif
#if PART(128)
ENGINE(s_inv_5_1_31, 32, 0, 1, "small d:0,1,2,13,26,29,30", boost::random::inversive_congruential_engine<std::uint32_t,5U,1U,31U>)
#endif
#if PART(129)
ENGINE(s_inv_1_1_3, 32, 0, 1, "small d:0,1,2", boost::random::inversive_congruential_engine<std::uint32_t,1U,1U,3U>)
#endif
#if PART(130)
ENGINE(x_inv_uint32_0, 32, 0, 1, "extra d:0,1,2,9102,2147474545,2147483645,2147483646", boost::random::inversive_congruential_engine<std::uint32_t,9102U,0U,2147483647U>)
#endif
#if PART(131)
ENGINE(x_inv_uint32_2147483646, 32, 0, 1, "extra d:0,1,2,1073741823,2147483645,2147483646", boost::random::inversive_congruential_engine<std::uint32_t,2147483646U,2147483646U,2147483647U>)
#endif
#if PART(132)
ENGINE(x_inv_int32_36884165, 32, 0, 1, "extra nowords d:0,1,2,7376833,57393868,1658416042,2147483645,2147483646", boost::random::inversive_congruential_engine<std::int32_t,9102,36884165,2147483647>)
#endif
#if PART(133)
ENGINE(x_inv_uint64_5, 64, 0, 1, "extra d:0,1,2,749983,799987,833323,1000001,1000002", boost::random::inversive_congruential_engine<std::uint64_t,77ULL,5ULL,1000003ULL>)
#endif
#if PART(134)
ENGINE(s_disc_5_2_s_lcg_5_2_7, 32, 0, 2, "small adaptor", boost::random::discard_block_engine<boost::random::linear_congruential_engine<std::uint32_t,5U,2U,7U>,5,2>)
#endif
#if PART(135)
ENGINE(s_disc_4_4_s_lcg_5_3_16, 32, 0, 4, "small adaptor", boost::random::discard_block_engine<boost::random::linear_congruential_engine<std::uint32_t,5U,3U,16U>,4,4>)
#endif
#if PART(136)
ENGINE(s_disc_3_1_s_swc_2_1_3, 32, 0, 1, "small adaptor", boost::random::discard_block_engine<boost::random::subtract_with_carry_engine<std::uint32_t,2,1,3>,3,1>)
#endif
#if PART(137)
ENGINE(s_disc_7_3_s_lf_1_7_3, 32, 0, 3, "small adaptor", boost::random::discard_block_engine<boost::random::lagged_fibonacci_engine<std::uint32_t,1,7,3>,7,3>)
#endif
#if PART(138)
ENGINE(x_disc_10_9_mt19937, 32, 0, 9, "extra adaptor", boost::random::discard_block_engine<boost::random::mt19937,10,9>)
#endif
#if PART(139)
ENGINE(x_disc_13_5_x_lcg64_0, 64, 0, 5, "extra adaptor", boost::random::discard_block_engine<boost::random::linear_congruential_engine<std::uint64_t,6364136223846793005ULL,1442695040888963407ULL,0ULL>,13,5>)
#endif
#if PART(140)
ENGINE(x_disc_1000_3_minstd_rand, 32, 0, 3, "extra adaptor", boost::random::discard_block_engine<boost::random::minstd_rand,1000,3>)
#endif
#if PART(141)
ENGINE(x_disc_4_2_real, 32, 48, 3, "extra adaptor", boost::random::discard_block_engine<boost::random::lagged_fibonacci_01_engine<double,48,20,7>,7,3>)
#endif
#if PART(142)
ENGINE(s_shuf_1_s_lcg_5_2_7, 32, 0, 1, "small adaptor d:0,2,4,6", boost::random::shuffle_order_engine<boost::random::linear_congruential_engine<std::uint32_t,5U,2U,7U>,1>)
#endif
#if PART(143)
ENGINE(s_shuf_2_s_lcg_3_0_7, 32, 0, 2, "small adaptor d:1,2,3,4,5,6", boost::random::shuffle_order_engine<boost::random::linear_congruential_engine<std::uint32_t,3U,0U,7U>,2>)
#endif
#if PART(144)
ENGINE(s_shuf_3_s_lcg_6_5_13, 32, 0, 3, "small adaptor d:0,1,2,3,4,5,6,7,9,10,11,12", boost::random::shuffle_order_engine<boost::random::linear_congruential_engine<std::uint32_t,6U,5U,13U>,3>)
#endif
#if PART(145)
ENGINE(s_shuf_4_s_lcg_5_3_16, 32, 0, 4, "small adaptor d:0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15", boost::random::shuffle_order_engine<boost::random::linear_congruential_engine<std::uint32_t,5U,3U,16U>,4>)
#endif
#if PART(146)
ENGINE(s_shuf_5_s_lcg8_0, 32, 0, 5, "small adaptor d:39,48,57,66,92,101,110,119,136,145,154,163,189,198,207,216", boost::random::shuffle_order_engine<boost::random::linear_congruential_engine<std::uint32_t,77U,55U,256U>,5>)
#endif
#if PART(147)
ENGINE(x_shuf_256_x_lcg64_0, 64, 0, 256, "extra adaptor d:297069588389238549,558534013482721904,819998438576205259,1260584261940530106,1522048687034013461,4188179666437347093,6152260397382872523,6592846220747197370,6854310645840680725,7115775070934164080,7377239496027647435,7817825319391972282,10043370475430981067,10483956298795305914,12448037029740831344,12709501454834314699,13150087278198639546,13411551703292122901,13673016128385606256,16339147107788939888", boost::random::shuffle_order_engine<boost::random::linear_congruential_engine<std::uint64_t,6364136223846793005ULL,1442695040888963407ULL,0ULL>,256>)
#endif
#if PART(148)
ENGINE(x_shuf_3_x_lcg64_0, 64, 0, 3, "extra adaptor d:1134853284659233686,2413428761918124699,3692004239177015712,4970579716435906725,6249155193694797738,10631569017556548211,11910144494815439224,13188719972074330237,14467295449333221250,15745870926592112263,17024446403851003276,18303021881109894289", boost::random::shuffle_order_engine<boost::random::linear_congruential_engine<std::uint64_t,6364136223846793005ULL,1442695040888963407ULL,0ULL>,3>)
#endif
#if PART(149)
ENGINE(x_shuf_97_x_lcg32_0, 32, 0, 97, "extra adaptor d:141359859,307204158,473048457,772053466,937897765,1264733655,1724730255,1890574554,2056418853,2061271561,2222263152,2521268161,2687112460,2852956759,3013948350,3018801058,3805633548,3810486256,3971477847,4270482856", boost::random::shuffle_order_engine<boost::random::linear_congruential_engine<std::uint32_t,1664525U,1013904223U,0U>,97>)
#endif
#if PART(150)
ENGINE(x_shuf_64_mt19937_64, 64, 0, 64, "extra adaptor", boost::random::shuffle_order_engine<boost::random::mt19937_64,64>)
#endif
#if PART(151)
ENGINE(x_shuf_100_x_lcg64_61, 64, 0, 100, "extra adaptor d:53418524263199255,377085519560787071,430504043823986326,482189372413226720,483922568087185581,533874701002467114,859274891974013791,861008087647972652,910960220563254185,964378744826453440,1017797269089652695,1341464264387240511,1394882788650439766,1446568117239680160,1448301312913639021,1823653636800467231,1825386832474426092,1875338965389707625,1928757489652906880,2252424484950494696", boost::random::shuffle_order_engine<boost::random::linear_congruential_engine<std::uint64_t,437799614237992725ULL,0ULL,2305843009213693951ULL>,100>)
#endif
#if PART(152)
ENGINE(x_shuf_7_x_lcg64_64, 64, 0, 7, "extra adaptor d:0,1,2635249153387078792,2635249153387078793,2635249153387078794,2635249153387078795,5270498306774157586,5270498306774157587,5270498306774157588,5270498306774157589,7905747460161236380,7905747460161236381,7905747460161236382,7905747460161236383,15811494920322472762,15811494920322472763,15811494920322472764,15811494920322472765,18446744073709551555,18446744073709551556", boost::random::shuffle_order_engine<boost::random::linear_congruential_engine<std::uint64_t,18446744073709551556ULL,18446744073709551555ULL,18446744073709551557ULL>,7>)
#endif
#if PART(153)
ENGINE(x_shuf_255_x_lcg32_big, 32, 0, 255, "extra adaptor d:28509131,276056001,580621133,724439944,1000495945,1132733135,1161242266,1581117078,1857173079,2133229080,2161738211,2581613023,2713850213,2742359344,3162234156,3294471346,3438290157,3714346158,3742855289,3875092479", boost::random::shuffle_order_engine<boost::random::linear_congruential_engine<std::uint32_t,1588635695U,0U,4294967291U>,255>)
#endif
#if PART(154)
ENGINE(x_shuf_33_hellekalek1995, 32, 0, 33, "extra adaptor", boost::random::shuffle_order_engine<boost::random::hellekalek1995,33>)
#endif
#if PART(155)
ENGINE(s_ind_3_s_lcg_3_1_8, 32, 0, 1, "small adaptor", boost::random::independent_bits_engine<boost::random::linear_congruential_engine<std::uint32_t,3U,1U,8U>,3,std::uint32_t>)
#endif
#if PART(156)
ENGINE(s_ind_5_s_lcg_3_1_8, 32, 0, 1, "small adaptor", boost::random::independent_bits_engine<boost::random::linear_congruential_engine<std::uint32_t,3U,1U,8U>,5,std::uint32_t>)
#endif
#if PART(157)
ENGINE(s_ind_4_s_lcg_5_2_7, 32, 0, 1, "small adaptor", boost::random::independent_bits_engine<boost::random::linear_congruential_engine<std::uint32_t,5U,2U,7U>,4,std::uint32_t>)
#endif
#if PART(158)
ENGINE(s_ind_2_s_lcg_3_0_7, 32, 0, 1, "small adaptor", boost::random::independent_bits_engine<boost::random::linear_congruential_engine<std::uint32_t,3U,0U,7U>,2,std::uint32_t>)
#endif
#if PART(159)
ENGINE(s_ind_7_s_lcg_1_5_13, 32, 0, 1, "small adaptor", boost::random::independent_bits_engine<boost::random::linear_congruential_engine<std::uint32_t,1U,5U,13U>,7,std::uint32_t>)
#endif
#if PART(160)
ENGINE(s_ind_1_s_lcg_5_3_16, 32, 0, 1, "small adaptor", boost::random::independent_bits_engine<boost::random::linear_congruential_engine<std::uint32_t,5U,3U,16U>,1,std::uint32_t>)
#endif
#if PART(161)
ENGINE(s_ind_9_s_lcg_30_7_31, 32, 0, 1, "small adaptor", boost::random::independent_bits_engine<boost::random::linear_congruential_engine<std::uint32_t,30U,7U,31U>,9,std::uint32_t>)
#endif
#if PART(162)
ENGINE(s_ind_16_s_lcg_16_16_17, 32, 0, 1, "small adaptor", boost::random::independent_bits_engine<boost::random::linear_congruential_engine<std::uint32_t,16U,16U,17U>,16,std::uint32_t>)
#endif
#if PART(163)
ENGINE(s_ind_3_s_lcg_1_1_3, 32, 0, 1, "small adaptor", boost::random::independent_bits_engine<boost::random::linear_congruential_engine<std::uint32_t,1U,1U,3U>,3,std::uint32_t>)
#endif
#if PART(164)
ENGINE(s_ind_2_s_lcg_2_2_3, 32, 0, 1, "small adaptor", boost::random::independent_bits_engine<boost::random::linear_congruential_engine<std::uint32_t,2U,2U,3U>,2,std::uint32_t>)
#endif
#if PART(165)
ENGINE(s_ind_5_s_lcg_1_1_3, 32, 0, 1, "small adaptor", boost::random::independent_bits_engine<boost::random::linear_congruential_engine<std::uint32_t,1U,1U,3U>,5,std::uint32_t>)
#endif
#if PART(166)
ENGINE(s_ind_1_s_lcg_1_1_3, 32, 0, 1, "small adaptor", boost::random::independent_bits_engine<boost::random::linear_congruential_engine<std::uint32_t,1U,1U,3U>,1,std::uint32_t>)
#endif
#if PART(167)
ENGINE(s_ind_20_s_lcg_1_1_3, 32, 0, 1, "small adaptor", boost::random::independent_bits_engine<boost::random::linear_congruential_engine<std::uint32_t,1U,1U,3U>,20,std::uint32_t>)
#endif
#if PART(168)
ENGINE(x_ind_31_minstd_rand, 32, 0, 1, "extra adaptor d:50138054,225371434,247665088,450484155,450742868,495330176,675596876,675855589,900968310,1652153471,1696740779,1801055042,1899818559,1922112213,1949956613,2048720130", boost::random::independent_bits_engine<boost::random::minstd_rand,31,std::uint32_t>)
#endif
#if PART(169)
ENGINE(x_ind_32_minstd_rand0, 32, 0, 1, "extra adaptor d:240942305,267860383,667870353,671875339,724307160,739806647,803732969,821251585,838770201,897989826,939811632,1128109299,1207672015,1343750678,1407677000,1448614320,1475608308,1479613294,1493126924,1510645540,1637796473,1867915946,1879623264,1931979175", boost::random::independent_bits_engine<boost::random::minstd_rand0,32,std::uint32_t>)
#endif
#if PART(170)
ENGINE(x_ind_64_minstd_rand, 32, 0, 1, "extra adaptor d:179844035,225371434,247665088,433882813,444435780,450742868,495330176,518322226,692100868,856800417,1036644452,1122512311,1290683230,1347883745,1375122643,1384201736,1631866824,1652153471,1696740779,1713600834,1747683696,1899818559,1922112213,1973055130", boost::random::independent_bits_engine<boost::random::minstd_rand,64,std::uint64_t>)
#endif
#if PART(171)
ENGINE(x_ind_32_mt19937, 32, 0, 1, "extra adaptor", boost::random::independent_bits_engine<boost::random::mt19937,32,std::uint32_t>)
#endif
#if PART(172)
ENGINE(x_ind_17_mt19937, 32, 0, 1, "extra adaptor", boost::random::independent_bits_engine<boost::random::mt19937,17,std::uint32_t>)
#endif
#if PART(173)
ENGINE(x_ind_64_mt19937, 32, 0, 1, "extra adaptor", boost::random::independent_bits_engine<boost::random::mt19937,64,std::uint64_t>)
#endif
#if PART(174)
ENGINE(x_ind_48_mt19937, 32, 0, 1, "extra adaptor", boost::random::independent_bits_engine<boost::random::mt19937,48,std::uint64_t>)
#endif
#if PART(175)
ENGINE(x_ind_64_mt19937_64, 64, 0, 1, "extra adaptor", boost::random::independent_bits_engine<boost::random::mt19937_64,64,std::uint64_t>)
#endif
#if PART(176)
ENGINE(x_ind_32_mt19937_64, 64, 0, 1, "extra adaptor", boost::random::independent_bits_engine<boost::random::mt19937_64,32,std::uint32_t>)
#endif
#if PART(177)
ENGINE(x_ind_33_mt19937_64, 64, 0, 1, "extra adaptor", boost::random::independent_bits_engine<boost::random::mt19937_64,33,std::uint64_t>)
#endif
#if PART(178)
ENGINE(x_ind_1_mt19937_64, 64, 0, 1, "extra adaptor", boost::random::independent_bits_engine<boost::random::mt19937_64,1,std::uint64_t>)
#endif
#if PART(179)
ENGINE(x_ind_24_ranlux24_base, 32, 0, 1, "extra adaptor", boost::random::independent_bits_engine<boost::random::ranlux24_base,24,std::uint32_t>)
#endif
#if PART(180)
ENGINE(x_ind_64_ranlux48_base, 64, 0, 1, "extra adaptor", boost::random::independent_bits_engine<boost::random::ranlux48_base,64,std::uint64_t>)
#endif
#if PART(181)
ENGINE(x_ind_63_x_lcg64_61, 64, 0, 1, "extra adaptor d:138850532963414529,177056690689957561,277701065926829058,1006149411161223557,1064393159261868195,1124962353750536480,1241449849951825756,1318950350855174805,1457800883818589334,1673546147071019849,1812396680034434378,2028141943286864893,2128786318523736390,2166992476250279422,2189355513012404675,2247599261113049313", boost::random::independent_bits_engine<boost::random::linear_congruential_engine<std::uint64_t,437799614237992725ULL,0ULL,2305843009213693951ULL>,63,std::uint64_t>)
#endif
#if PART(182)
ENGINE(x_ind_61_x_lcg64_61b, 64, 0, 1, "extra adaptor", boost::random::independent_bits_engine<boost::random::linear_congruential_engine<std::uint64_t,2305843009213693950ULL,2305843009213693949ULL,2305843009213693951ULL>,61,std::uint64_t>)
#endif
#if PART(183)
ENGINE(x_ind_32_x_lcg32_big, 32, 0, 1, "extra adaptor d:37792958,75585916,302351347,424257983,726609330,848515966,871509121,1274546705,1312339663,1711729085,1867809225,2241168294,2583238206,2671378124,2709171082,3150250592,3423458170,3446451325,3574508575,3579538310,3870709308,3952897379,4219381375,4257174333", boost::random::independent_bits_engine<boost::random::linear_congruential_engine<std::uint32_t,1588635695U,0U,4294967291U>,32,std::uint32_t>)
#endif
#if PART(184)
ENGINE(x_ind_64_x_lcg64_0, 64, 0, 1, "extra adaptor d:826681497476871582,1758047245461552843,4239035198779371511,6498031520185415866,11066951453180645397,12448718168581423340,15635871386175874928,15861071869883923269", boost::random::independent_bits_engine<boost::random::linear_congruential_engine<std::uint64_t,6364136223846793005ULL,1442695040888963407ULL,0ULL>,64,std::uint64_t>)
#endif
#if PART(185)
ENGINE(x_ind_40_x_lcg32_half, 32, 0, 1, "extra adaptor d:0,104636971,216729259,277073526,373297826,761984963,887119170,1023433096,1316197548,1432374874,1593271074,1693823007,1782414929,1938983496,2078182511,2095552063", boost::random::independent_bits_engine<boost::random::linear_congruential_engine<std::uint32_t,65539U,2147483647U,2147483659U>,40,std::uint64_t>)
#endif
#if PART(186)
ENGINE(x_ind_64_kreutzer1986, 32, 0, 1, "extra adaptor", boost::random::independent_bits_engine<boost::random::kreutzer1986,64,std::uint64_t>)
#endif
#if PART(187)
ENGINE(x_ind_60_rand48, 32, 0, 1, "extra adaptor", boost::random::independent_bits_engine<boost::random::rand48,60,std::uint64_t>)
#endif
#if PART(188)
ENGINE(x_ind_30_x_lcg16_0, 16, 0, 1, "extra adaptor d:3915,7768,9512,22643,30450,31811,33870,39496,39530,52749,56417,63825", boost::random::independent_bits_engine<boost::random::linear_congruential_engine<std::uint16_t,25173,13849,0>,30,std::uint32_t>)
#endif
#if PART(189)
ENGINE(s_lcg_2_0_5, 32, 0, 1, "small jump fast d:0,1,2,3,4", boost::random::linear_congruential_engine<std::uint32_t,2U,0U,5U>)
#endif
#if PART(190)
ENGINE(s_addc_s_lcg_3_0_7_s_lcg_2_0_5, 32, 0, 1, "small adaptor jump fast dd:5,3,4,4,5,2,4,1,2,3,3,4,6,2,2,1,3,4,1,2,1,1,5,3,3,1,1,3,3,4,1,2,2,2,3,1", boost::random::additive_combine_engine<boost::random::linear_congruential_engine<std::uint32_t,3U,0U,7U>,boost::random::linear_congruential_engine<std::uint32_t,2U,0U,5U> >)
#endif
#if PART(191)
ENGINE(s_addc_s_lcg_2_0_11_s_lcg_3_0_7, 32, 0, 1, "small adaptor jump fast dd:8,4,4,6,6,5,3,4,6,2,3,3,5,5,8,4,3,2,7,3,1,1,6,5,7,3,9,1,7,1,9,5,7,6,9,2,5,2,8,3", boost::random::additive_combine_engine<boost::random::linear_congruential_engine<std::uint32_t,2U,0U,11U>,boost::random::linear_congruential_engine<std::uint32_t,3U,0U,7U> >)
#endif
#if PART(192)
ENGINE(x_addc_minstd_rand_minstd_rand0, 32, 0, 1, "extra adaptor jump fast dd:909158207,595934059,1126857170,935590599,1899818559,1407677000,225371434,1475608308,1899818559,739806647,225371434,671875339,247665088,1407677000,1922112213,1475608308,247665088,739806647,1922112213,671875339,1652153471,2075547353,450742868,131857630,1404488383,667870353,676114302,803732969,123832544,1443645147,2034797930,1409679493,123832544,703838500,2034797930,737804154,247665088,739806647,1922112213,671875339", boost::random::additive_combine_engine<boost::random::minstd_rand,boost::random::minstd_rand0 >)
#endif
#if PART(193)
ENGINE(x_addc_x_lcg64_61_x_lcg64_59, 64, 0, 1, "extra adaptor jump fast dd:710279777881953073,482443891121274025,1611590344396621306,364655277878983453,1064393159261868195,96488778224254805,2166992476250279422,534099657418535481,1064393159261868195,479971974079168683,2166992476250279422,42361094884888007,1241449849951825756,96488778224254805,138850532963414529,534099657418535481,931087387463869317,479971974079168683,1833520156632831360,42361094884888007,2128786318523736390,289466334672764415,2028141943286864893,449377467648759467,887336468571910634,192977556448509610,1889291410323450364,491738562533647474,997740273362868756,288230376151711744,2000256316441555391,288230376151711744,997740273362868756,384719154375966549,2000256316441555391,245869281266823737,1241449849951825756,479971974079168683,138850532963414529,42361094884888007", boost::random::additive_combine_engine<boost::random::linear_congruential_engine<std::uint64_t,437799614237992725ULL,0ULL,2305843009213693951ULL>,boost::random::linear_congruential_engine<std::uint64_t,302875106592253ULL,0ULL,576460752303423488ULL> >)
#endif
#if PART(194)
ENGINE(s_xorc_s_lfsr_8_7_3_4_0_s_lfsr_6_5_2_3_0, 32, 0, 1, "small adaptor", boost::random::xor_combine_engine<boost::random::linear_feedback_shift_engine<std::uint32_t,8,7,3,4>,0,boost::random::linear_feedback_shift_engine<std::uint32_t,6,5,2,3>,0>)
#endif
#if PART(195)
ENGINE(x_xorc_mt19937_0_mt11213b_0, 32, 0, 1, "extra adaptor fast", boost::random::xor_combine_engine<boost::random::mt19937,0,boost::random::mt11213b,0>)
#endif
#if PART(196)
ENGINE(x_xorc_mt19937_64_0_x_lfsr_64_63_1_10_0, 64, 0, 1, "extra adaptor", boost::random::xor_combine_engine<boost::random::mt19937_64,0,boost::random::linear_feedback_shift_engine<std::uint64_t,64,63,1,10>,0>)
#endif
#if PART(197)
ENGINE(x_xorc_x_lfsr_32_31_13_12_0_mt19937_0, 32, 0, 1, "extra adaptor", boost::random::xor_combine_engine<boost::random::linear_feedback_shift_engine<std::uint32_t,32,31,13,12>,0,boost::random::mt19937,0>)
#endif
#if PART(198)
ENGINE(x_xorc_x_lfsr_32_31_13_12_3_mt11213b_7, 32, 0, 1, "extra adaptor nobounds", boost::random::xor_combine_engine<boost::random::linear_feedback_shift_engine<std::uint32_t,32,31,13,12>,3,boost::random::mt11213b,7>)
#endif
#if PART(199)
ENGINE(x_xorc_mt19937_64_13_mt19937_64_31, 64, 0, 1, "extra adaptor nobounds fast", boost::random::xor_combine_engine<boost::random::mt19937_64,13,boost::random::mt19937_64,31>)
#endif
