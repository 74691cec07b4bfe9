---- MODULE FunTables ----
EXTENDS Integers
\* Generated by tools/mktables.py: real functions at v/16, v in Lo..Hi, rounded to 1/16384.
Lo == -320
Hi == 320
FS == 16384
TExp == <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,2,2,2,2,2,2,2,2,3,3,3,3,3,4,4,4,4,5,5,5,5,6,6,7,7,8,8,9,9,10,10,11,12,12,13,14,15,16,17,18,19,20,22,23,25,26,28,30,32,34,36,38,41,43,46,49,52,56,59,63,67,71,76,81,86,92,97,104,110,118,125,133,142,151,161,171,182,194,206,220,234,249,265,282,300,319,340,362,385,410,437,465,495,527,561,597,635,676,720,766,816,868,924,984,1047,1115,1187,1263,1345,1432,1524,1622,1727,1838,1957,2083,2217,2360,2513,2675,2847,3031,3226,3434,3656,3892,4143,4410,4694,4997,5319,5662,6027,6416,6830,7270,7739,8238,8770,9335,9937,10578,11261,11987,12760,13583,14459,15391,16384,17441,18566,19763,21037,22394,23839,25376,27013,28755,30609,32583,34685,36922,39303,41838,44536,47409,50466,53721,57186,60874,64800,68979,73428,78164,83205,88571,94283,100364,106837,113728,121062,128870,137182,146029,155447,165473,176145,187505,199598,212471,226174,240761,256289,272818,290413,309143,329081,350305,372898,396948,422549,449801,478811,509691,542564,577556,614805,654457,696665,741596,789425,840339,894536,952229,1013642,1079016,1148607,1222686,1301542,1385485,1474841,1569960,1671213,1778997,1893733,2015868,2145881,2284278,2431601,2588426,2755365,2933071,3122238,3323605,3537959,3766138,4009033,4267593,4542829,4835816,5147700,5479698,5833108,6209311,6609777,7036071,7489859,7972913,8487122,9034494,9617169,10237423,10897681,11600521,12348690,13145112,13992899,14895363,15856032,16878658,17967238,19126025,20359548,21672626,23070390,24558302,26142177,27828202,29622967,31533484,33567219,35732119,38036642,40489795,43101163,45880949,48840016,51989926,55342988,58912304,62711821,66756386,71061803,75644896,80523573,85716897,91245162,97129969,103394314,110062674,117161107,124717349,132760927,141323271,150437839,160140246,170468405,181462672,193166009,205624146,218885764,233002683,248030065,264026630,281054885,299181368,318476908,339016904,360881616,384156480,408932444,435306321,463381167,493266684,525079652,558944380,594993196,633366960,674215619,717698791,763986386,813259275,865709992,921543489,980977938,1044245579,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824,1073741824>>
TLn == <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,-45426,-34070,-27426,-22713,-19057,-16070,-13544,-11357,-9427,-7701,-6139,-4713,-3402,-2188,-1057,0,993,1930,2816,3656,4455,5218,5946,6643,7312,7955,8573,9169,9744,10299,10836,11357,11861,12350,12825,13286,13735,14172,14598,15013,15417,15812,16197,16574,16942,17302,17655,18000,18337,18668,18993,19311,19623,19929,20230,20525,20815,21100,21380,21656,21926,22193,22455,22713,22967,23217,23464,23706,23946,24181,24414,24643,24869,25092,25312,25529,25743,25954,26163,26369,26573,26774,26972,27168,27362,27554,27743,27931,28116,28299,28480,28659,28836,29011,29185,29356,29526,29694,29860,30025,30188,30349,30509,30668,30824,30980,31134,31286,31437,31587,31735,31882,32027,32172,32315,32457,32597,32737,32875,33012,33148,33283,33417,33549,33681,33812,33941,34070,34197,34324,34449,34574,34697,34820,34942,35063,35183,35302,35420,35538,35654,35770,35885,35999,36113,36225,36337,36448,36559,36668,36777,36885,36993,37099,37205,37311,37415,37519,37623,37726,37828,37929,38030,38130,38230,38329,38427,38525,38622,38719,38815,38910,39005,39100,39194,39287,39380,39472,39564,39655,39746,39836,39926,40015,40104,40193,40280,40368,40455,40541,40627,40713,40798,40882,40967,41051,41134,41217,41299,41382,41463,41545,41625,41706,41786,41866,41945,42024,42103,42181,42259,42336,42413,42490,42566,42642,42718,42793,42868,42943,43017,43091,43165,43238,43311,43384,43456,43528,43600,43671,43742,43813,43884,43954,44024,44093,44163,44232,44300,44369,44437,44505,44572,44640,44707,44773,44840,44906,44972,45038,45103,45168,45233,45298,45362,45426,45490,45554,45617,45680,45743,45806,45868,45930,45992,46054,46115,46177,46238,46298,46359,46419,46479,46539,46599,46659,46718,46777,46836,46894,46953,47011,47069,47127,47184,47242,47299,47356,47413,47469,47526,47582,47638,47694,47749,47805,47860,47915,47970,48025,48079,48134,48188,48242,48295,48349,48403,48456,48509,48562,48615,48667,48720,48772,48824,48876,48928,48979,49031,49082>>
TSin == <<-14958,-14511,-14007,-13449,-12839,-12178,-11469,-10716,-9921,-9087,-8218,-7317,-6387,-5432,-4456,-3463,-2456,-1439,-417,607,1628,2644,3648,4639,5611,6562,7487,8382,9245,10072,10859,11604,12304,12956,13557,14105,14598,15034,15412,15729,15985,16178,16308,16375,16377,16316,16191,16002,15752,15439,15067,14635,14146,13603,13006,12358,11662,10920,10136,9312,8452,7559,6636,5688,4717,3728,2724,1710,689,-335,-1358,-2375,-3383,-4377,-5355,-6312,-7244,-8147,-9019,-9856,-10654,-11411,-12123,-12788,-13402,-13965,-14473,-14924,-15317,-15651,-15923,-16133,-16280,-16363,-16383,-16338,-16230,-16058,-15824,-15528,-15171,-14755,-14282,-13752,-13169,-12535,-11851,-11121,-10348,-9535,-8684,-7799,-6884,-5942,-4977,-3992,-2992,-1980,-960,63,1087,2106,3116,4115,5097,6060,6999,7911,8791,9638,10446,11214,11938,12616,13244,13821,14343,14810,15219,15568,15857,16083,16247,16347,16384,16356,16265,16110,15892,15613,15272,14871,14413,13898,13329,12708,12037,11320,10558,9754,8913,8037,7130,6194,5235,4255,3259,2249,1231,208,-815,-1836,-2849,-3851,-4838,-5807,-6752,-7671,-8561,-9416,-10235,-11015,-11751,-12441,-13082,-13673,-14210,-14692,-15116,-15481,-15786,-16029,-16210,-16327,-16380,-16370,-16296,-16157,-15956,-15693,-15368,-14983,-14540,-14040,-13485,-12878,-12220,-11515,-10764,-9972,-9140,-8273,-7374,-6445,-5492,-4517,-3525,-2518,-1502,-480,544,1565,2581,3586,4578,5552,6504,7430,8328,9193,10022,10812,11560,12262,12917,13521,14073,14569,15009,15390,15711,15971,16168,16302,16372,16379,16321,16200,16016,15769,15460,15091,14664,14178,13638,13044,12399,11706,10968,10186,9364,8506,7615,6694,5747,4778,3790,2787,1773,752,-272,-1295,-2312,-3321,-4316,-5295,-6253,-7187,-8092,-8966,-9805,-10606,-11365,-12080,-12748,-13366,-13932,-14443,-14898,-15295,-15632,-15908,-16122,-16273,-16360,-16383,-16343,-16239,-16071,-15840,-15548,-15195,-14783,-14313,-13787,-13207,-12575,-11895,-11168,-10397,-9586,-8738,-7855,-6942,-6001,-5037,-4053,-3054,-2043,-1023,0,1023,2043,3054,4053,5037,6001,6942,7855,8738,9586,10397,11168,11895,12575,13207,13787,14313,14783,15195,15548,15840,16071,16239,16343,16383,16360,16273,16122,15908,15632,15295,14898,14443,13932,13366,12748,12080,11365,10606,9805,8966,8092,7187,6253,5295,4316,3321,2312,1295,272,-752,-1773,-2787,-3790,-4778,-5747,-6694,-7615,-8506,-9364,-10186,-10968,-11706,-12399,-13044,-13638,-14178,-14664,-15091,-15460,-15769,-16016,-16200,-16321,-16379,-16372,-16302,-16168,-15971,-15711,-15390,-15009,-14569,-14073,-13521,-12917,-12262,-11560,-10812,-10022,-9193,-8328,-7430,-6504,-5552,-4578,-3586,-2581,-1565,-544,480,1502,2518,3525,4517,5492,6445,7374,8273,9140,9972,10764,11515,12220,12878,13485,14040,14540,14983,15368,15693,15956,16157,16296,16370,16380,16327,16210,16029,15786,15481,15116,14692,14210,13673,13082,12441,11751,11015,10235,9416,8561,7671,6752,5807,4838,3851,2849,1836,815,-208,-1231,-2249,-3259,-4255,-5235,-6194,-7130,-8037,-8913,-9754,-10558,-11320,-12037,-12708,-13329,-13898,-14413,-14871,-15272,-15613,-15892,-16110,-16265,-16356,-16384,-16347,-16247,-16083,-15857,-15568,-15219,-14810,-14343,-13821,-13244,-12616,-11938,-11214,-10446,-9638,-8791,-7911,-6999,-6060,-5097,-4115,-3116,-2106,-1087,-63,960,1980,2992,3992,4977,5942,6884,7799,8684,9535,10348,11121,11851,12535,13169,13752,14282,14755,15171,15528,15824,16058,16230,16338,16383,16363,16280,16133,15923,15651,15317,14924,14473,13965,13402,12788,12123,11411,10654,9856,9019,8147,7244,6312,5355,4377,3383,2375,1358,335,-689,-1710,-2724,-3728,-4717,-5688,-6636,-7559,-8452,-9312,-10136,-10920,-11662,-12358,-13006,-13603,-14146,-14635,-15067,-15439,-15752,-16002,-16191,-16316,-16377,-16375,-16308,-16178,-15985,-15729,-15412,-15034,-14598,-14105,-13557,-12956,-12304,-11604,-10859,-10072,-9245,-8382,-7487,-6562,-5611,-4639,-3648,-2644,-1628,-607,417,1439,2456,3463,4456,5432,6387,7317,8218,9087,9921,10716,11469,12178,12839,13449,14007,14511,14958>>
TCos == <<6686,7607,8499,9357,10179,10961,11700,12394,13039,13633,14174,14659,15088,15457,15766,16014,16199,16321,16379,16373,16303,16169,15973,15714,15393,15013,14573,14077,13526,12923,12268,11566,10819,10029,9200,8335,7438,6512,5560,4587,3595,2590,1574,553,-471,-1493,-2509,-3516,-4508,-5483,-6437,-7365,-8265,-9133,-9964,-10757,-11508,-12214,-12872,-13480,-14036,-14536,-14980,-15365,-15690,-15954,-16156,-16295,-16370,-16381,-16328,-16211,-16031,-15788,-15484,-15119,-14696,-14215,-13678,-13088,-12447,-11757,-11021,-10243,-9424,-8568,-7679,-6760,-5815,-4847,-3860,-2858,-1845,-824,199,1222,2240,3250,4246,5226,6186,7122,8029,8906,9747,10551,11313,12031,12702,13324,13893,14409,14868,15269,15610,15890,16109,16264,16356,16384,16348,16248,16085,15859,15571,15222,14814,14348,13826,13250,12622,11945,11221,10453,9645,8799,7918,7007,6068,5106,4124,3125,2115,1096,73,-951,-1971,-2983,-3983,-4968,-5933,-6876,-7791,-8676,-9527,-10341,-11115,-11845,-12529,-13164,-13747,-14277,-14751,-15168,-15525,-15822,-16057,-16229,-16338,-16383,-16364,-16281,-16134,-15925,-15653,-15321,-14928,-14477,-13970,-13408,-12793,-12129,-11417,-10661,-9863,-9027,-8155,-7252,-6320,-5364,-4386,-3392,-2384,-1367,-344,679,1701,2715,3719,4708,5679,6628,7551,8444,9305,10129,10914,11656,12352,13000,13598,14142,14631,15063,15436,15749,16000,16189,16315,16377,16375,16309,16179,15987,15731,15415,15038,14602,14110,13562,12961,12310,11611,10866,10079,9253,8390,7495,6570,5620,4648,3657,2652,1637,616,-408,-1430,-2447,-3454,-4447,-5424,-6379,-7309,-8210,-9080,-9914,-10709,-11463,-12172,-12833,-13444,-14003,-14507,-14954,-15343,-15672,-15940,-16145,-16288,-16367,-16382,-16333,-16220,-16044,-15805,-15505,-15144,-14724,-14246,-13713,-13126,-12488,-11801,-11068,-10292,-9476,-8622,-7735,-6818,-5874,-4908,-3922,-2920,-1908,-888,136,1159,2177,3187,4185,5166,6127,7064,7974,8852,9696,10502,11267,11988,12662,13287,13860,14378,14841,15245,15590,15875,16097,16256,16352,16384,16352,16256,16097,15875,15590,15245,14841,14378,13860,13287,12662,11988,11267,10502,9696,8852,7974,7064,6127,5166,4185,3187,2177,1159,136,-888,-1908,-2920,-3922,-4908,-5874,-6818,-7735,-8622,-9476,-10292,-11068,-11801,-12488,-13126,-13713,-14246,-14724,-15144,-15505,-15805,-16044,-16220,-16333,-16382,-16367,-16288,-16145,-15940,-15672,-15343,-14954,-14507,-14003,-13444,-12833,-12172,-11463,-10709,-9914,-9080,-8210,-7309,-6379,-5424,-4447,-3454,-2447,-1430,-408,616,1637,2652,3657,4648,5620,6570,7495,8390,9253,10079,10866,11611,12310,12961,13562,14110,14602,15038,15415,15731,15987,16179,16309,16375,16377,16315,16189,16000,15749,15436,15063,14631,14142,13598,13000,12352,11656,10914,10129,9305,8444,7551,6628,5679,4708,3719,2715,1701,679,-344,-1367,-2384,-3392,-4386,-5364,-6320,-7252,-8155,-9027,-9863,-10661,-11417,-12129,-12793,-13408,-13970,-14477,-14928,-15321,-15653,-15925,-16134,-16281,-16364,-16383,-16338,-16229,-16057,-15822,-15525,-15168,-14751,-14277,-13747,-13164,-12529,-11845,-11115,-10341,-9527,-8676,-7791,-6876,-5933,-4968,-3983,-2983,-1971,-951,73,1096,2115,3125,4124,5106,6068,7007,7918,8799,9645,10453,11221,11945,12622,13250,13826,14348,14814,15222,15571,15859,16085,16248,16348,16384,16356,16264,16109,15890,15610,15269,14868,14409,13893,13324,12702,12031,11313,10551,9747,8906,8029,7122,6186,5226,4246,3250,2240,1222,199,-824,-1845,-2858,-3860,-4847,-5815,-6760,-7679,-8568,-9424,-10243,-11021,-11757,-12447,-13088,-13678,-14215,-14696,-15119,-15484,-15788,-16031,-16211,-16328,-16381,-16370,-16295,-16156,-15954,-15690,-15365,-14980,-14536,-14036,-13480,-12872,-12214,-11508,-10757,-9964,-9133,-8265,-7365,-6437,-5483,-4508,-3516,-2509,-1493,-471,553,1574,2590,3595,4587,5560,6512,7438,8335,9200,10029,10819,11566,12268,12923,13526,14077,14573,15013,15393,15714,15973,16169,16303,16373,16379,16321,16199,16014,15766,15457,15088,14659,14174,13633,13039,12394,11700,10961,10179,9357,8499,7607,6686>>
TTan == <<-36654,-31253,-27004,-23549,-20665,-18203,-16061,-14167,-12467,-10921,-9500,-8178,-6936,-5758,-4631,-3543,-2484,-1445,-417,607,1637,2679,3742,4837,5972,7161,8417,9756,11198,12770,14502,16438,18634,21166,24143,27725,32155,37827,45414,56185,72843,102344,169714,485406,-569531,-179033,-105715,-74576,-57244,-46132,-38349,-32555,-28043,-24403,-21385,-18822,-16603,-14649,-12901,-11318,-9866,-8520,-7258,-6065,-4926,-3828,-2762,-1719,-689,335,1362,2400,3457,4543,5666,6840,8076,9391,10804,12338,14025,15902,18022,20455,23301,26703,30878,36169,43157,52903,67585,92485,144589,325237,-1346533,-219020,-118696,-80963,-61056,-48678,-40182,-33946,-29142,-25301,-22136,-19465,-17163,-15145,-13348,-11725,-10241,-8868,-7586,-6376,-5223,-4116,-3043,-1994,-962,63,1089,2123,3174,4251,5364,6523,7741,9033,10418,11917,13560,15382,17432,19774,22498,25735,29678,34629,41089,49954,63000,84316,125882,244443,3701979,-281804,-135224,-88492,-65370,-51489,-42170,-35437,-30309,-26245,-22922,-20134,-17744,-15657,-13806,-12141,-10623,-9223,-7919,-6691,-5525,-4406,-3325,-2271,-1235,-208,816,1847,2893,3962,5064,6210,7411,8682,10040,11507,13108,14878,16862,19119,21731,24816,28548,33193,39186,47290,58966,77431,111406,195716,779394,-394743,-156998,-97502,-70297,-54608,-44335,-37038,-31549,-27241,-23745,-20830,-18345,-16186,-14278,-12567,-11013,-9585,-8257,-7011,-5829,-4699,-3609,-2549,-1509,-480,544,1573,2614,3676,4768,5901,7086,8337,9670,11105,12668,14390,16312,18489,20997,23943,27481,31850,37429,44869,55386,71548,99866,163111,435412,-658147,-187006,-108488,-75978,-58093,-46704,-38764,-32871,-28294,-24609,-21557,-18970,-16732,-14763,-13005,-11412,-9953,-8601,-7334,-6137,-4995,-3895,-2828,-1783,-753,272,1299,2335,3391,4474,5595,6765,7997,9307,10713,12239,13915,15779,17882,20294,23110,26473,30591,35800,42658,52187,66460,90446,139752,301971,-1974805,-231038,-122185,-82607,-62014,-49309,-40631,-34285,-29408,-25517,-22316,-19619,-17297,-15263,-13454,-11821,-10329,-8951,-7663,-6449,-5293,-4184,-3109,-2059,-1025,0,1025,2059,3109,4184,5293,6449,7663,8951,10329,11821,13454,15263,17297,19619,22316,25517,29408,34285,40631,49309,62014,82607,122185,231038,1974805,-301971,-139752,-90446,-66460,-52187,-42658,-35800,-30591,-26473,-23110,-20294,-17882,-15779,-13915,-12239,-10713,-9307,-7997,-6765,-5595,-4474,-3391,-2335,-1299,-272,753,1783,2828,3895,4995,6137,7334,8601,9953,11412,13005,14763,16732,18970,21557,24609,28294,32871,38764,46704,58093,75978,108488,187006,658147,-435412,-163111,-99866,-71548,-55386,-44869,-37429,-31850,-27481,-23943,-20997,-18489,-16312,-14390,-12668,-11105,-9670,-8337,-7086,-5901,-4768,-3676,-2614,-1573,-544,480,1509,2549,3609,4699,5829,7011,8257,9585,11013,12567,14278,16186,18345,20830,23745,27241,31549,37038,44335,54608,70297,97502,156998,394743,-779394,-195716,-111406,-77431,-58966,-47290,-39186,-33193,-28548,-24816,-21731,-19119,-16862,-14878,-13108,-11507,-10040,-8682,-7411,-6210,-5064,-3962,-2893,-1847,-816,208,1235,2271,3325,4406,5525,6691,7919,9223,10623,12141,13806,15657,17744,20134,22922,26245,30309,35437,42170,51489,65370,88492,135224,281804,-3701979,-244443,-125882,-84316,-63000,-49954,-41089,-34629,-29678,-25735,-22498,-19774,-17432,-15382,-13560,-11917,-10418,-9033,-7741,-6523,-5364,-4251,-3174,-2123,-1089,-63,962,1994,3043,4116,5223,6376,7586,8868,10241,11725,13348,15145,17163,19465,22136,25301,29142,33946,40182,48678,61056,80963,118696,219020,1346533,-325237,-144589,-92485,-67585,-52903,-43157,-36169,-30878,-26703,-23301,-20455,-18022,-15902,-14025,-12338,-10804,-9391,-8076,-6840,-5666,-4543,-3457,-2400,-1362,-335,689,1719,2762,3828,4926,6065,7258,8520,9866,11318,12901,14649,16603,18822,21385,24403,28043,32555,38349,46132,57244,74576,105715,179033,569531,-485406,-169714,-102344,-72843,-56185,-45414,-37827,-32155,-27725,-24143,-21166,-18634,-16438,-14502,-12770,-11198,-9756,-8417,-7161,-5972,-4837,-3742,-2679,-1637,-607,417,1445,2484,3543,4631,5758,6936,8178,9500,10921,12467,14167,16061,18203,20665,23549,27004,31253,36654>>
TDTan == <<98384,75999,60891,50233,42449,36608,32128,28633,25870,23664,21892,20466,19320,18407,17693,17150,16760,16511,16395,16407,16547,16822,17239,17812,18561,19514,20708,22193,24038,26337,29221,32877,37576,43727,51960,63299,79492,103716,142262,209057,340242,655686,1774379,14397403,19814091,1972735,698491,355836,216391,146277,106146,81071,64382,52732,44296,38007,33209,29481,26543,24203,22326,20815,19600,18629,17865,17278,16850,16564,16413,16391,16497,16736,17114,17643,18344,19239,20365,21767,23508,25676,28389,31818,36207,41922,49522,59905,74577,96230,130061,187202,295175,538452,1292382,6472619,110682397,2944221,876287,416473,243914,161012,114930,86718,68219,55454,46292,39509,34364,30384,27258,24774,22785,21184,19897,18865,18049,17418,16949,16627,16440,16384,16456,16659,16999,17487,18140,18981,20041,21364,23008,25053,27607,30826,34930,40249,47278,56807,70142,89574,119429,168692,258636,450290,983570,3663384,836481598,4863405,1132443,494336,277206,178194,124923,93029,72452,58425,48453,41126,35601,31347,28018,25380,23271,21576,20211,19117,18247,17569,17059,16699,16477,16387,16425,16592,16895,17342,17949,18737,19736,20984,22537,24465,26871,29895,33738,38694,45207,53973,66126,83629,110106,152877,228603,382327,773916,2354323,37092490,9527026,1520801,596628,317997,198396,136356,100112,77135,61677,50797,42867,36926,32374,28826,26023,23787,21991,20545,19384,18458,17732,17179,16780,16523,16398,16402,16535,16801,17209,17771,18509,19448,20626,22091,23911,26179,29022,32624,37248,43293,51373,62479,78299,101889,139260,203618,328833,625103,1640240,11587627,26454247,2150861,734743,368719,222368,149520,108097,82334,65244,53346,44747,38348,33471,29687,26706,24333,22430,20899,19667,18683,17907,17310,16872,16578,16419,16389,16487,16717,17086,17606,18295,19177,20288,21671,23389,25527,28202,31581,35901,41520,48982,59157,73502,94608,127451,182612,285974,515680,1208435,5581975,238044528,3274343,927593,432880,251110,164782,117145,88127,69170,56124,46780,39876,34645,30603,27431,24913,22896,21274,19968,18923,18094,17452,16974,16643,16448,16384,16448,16643,16974,17452,18094,18923,19968,21274,22896,24913,27431,30603,34645,39876,46780,56124,69170,88127,117145,164782,251110,432880,927593,3274343,238044528,5581975,1208435,515680,285974,182612,127451,94608,73502,59157,48982,41520,35901,31581,28202,25527,23389,21671,20288,19177,18295,17606,17086,16717,16487,16389,16419,16578,16872,17310,17907,18683,19667,20899,22430,24333,26706,29687,33471,38348,44747,53346,65244,82334,108097,149520,222368,368719,734743,2150861,26454247,11587627,1640240,625103,328833,203618,139260,101889,78299,62479,51373,43293,37248,32624,29022,26179,23911,22091,20626,19448,18509,17771,17209,16801,16535,16402,16398,16523,16780,17179,17732,18458,19384,20545,21991,23787,26023,28826,32374,36926,42867,50797,61677,77135,100112,136356,198396,317997,596628,1520801,9527026,37092490,2354323,773916,382327,228603,152877,110106,83629,66126,53973,45207,38694,33738,29895,26871,24465,22537,20984,19736,18737,17949,17342,16895,16592,16425,16387,16477,16699,17059,17569,18247,19117,20211,21576,23271,25380,28018,31347,35601,41126,48453,58425,72452,93029,124923,178194,277206,494336,1132443,4863405,836481598,3663384,983570,450290,258636,168692,119429,89574,70142,56807,47278,40249,34930,30826,27607,25053,23008,21364,20041,18981,18140,17487,16999,16659,16456,16384,16440,16627,16949,17418,18049,18865,19897,21184,22785,24774,27258,30384,34364,39509,46292,55454,68219,86718,114930,161012,243914,416473,876287,2944221,110682397,6472619,1292382,538452,295175,187202,130061,96230,74577,59905,49522,41922,36207,31818,28389,25676,23508,21767,20365,19239,18344,17643,17114,16736,16497,16391,16413,16564,16850,17278,17865,18629,19600,20815,22326,24203,26543,29481,33209,38007,44296,52732,64382,81071,106146,146277,216391,355836,698491,1972735,19814091,14397403,1774379,655686,340242,209057,142262,103716,79492,63299,51960,43727,37576,32877,29221,26337,24038,22193,20708,19514,18561,17812,17239,16822,16547,16407,16395,16511,16760,17150,17693,18407,19320,20466,21892,23664,25870,28633,32128,36608,42449,50233,60891,75999,98384>>
TTanh == <<-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16384,-16383,-16383,-16383,-16383,-16383,-16383,-16383,-16383,-16383,-16382,-16382,-16382,-16382,-16381,-16381,-16380,-16380,-16379,-16379,-16378,-16377,-16376,-16375,-16374,-16373,-16372,-16370,-16368,-16366,-16363,-16361,-16358,-16354,-16350,-16346,-16341,-16335,-16328,-16321,-16312,-16303,-16292,-16280,-16266,-16251,-16233,-16213,-16190,-16165,-16136,-16103,-16066,-16024,-15977,-15923,-15863,-15795,-15718,-15631,-15533,-15423,-15300,-15161,-15005,-14830,-14634,-14415,-14171,-13898,-13595,-13260,-12888,-12478,-12027,-11533,-10993,-10406,-9771,-9087,-8353,-7571,-6743,-5871,-4960,-4013,-3036,-2037,-1023,0,1023,2037,3036,4013,4960,5871,6743,7571,8353,9087,9771,10406,10993,11533,12027,12478,12888,13260,13595,13898,14171,14415,14634,14830,15005,15161,15300,15423,15533,15631,15718,15795,15863,15923,15977,16024,16066,16103,16136,16165,16190,16213,16233,16251,16266,16280,16292,16303,16312,16321,16328,16335,16341,16346,16350,16354,16358,16361,16363,16366,16368,16370,16372,16373,16374,16375,16376,16377,16378,16379,16379,16380,16380,16381,16381,16382,16382,16382,16382,16383,16383,16383,16383,16383,16383,16383,16383,16383,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384>>
TDTanh == <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1,1,1,1,1,1,1,1,1,2,2,2,2,3,3,3,4,4,5,6,6,7,8,9,10,12,13,15,17,19,22,25,28,32,36,41,46,53,60,68,77,87,98,111,126,143,162,183,207,235,266,301,340,385,436,493,557,630,712,805,909,1026,1158,1305,1471,1657,1865,2097,2355,2642,2961,3313,3701,4128,4594,5102,5653,6246,6881,7555,8266,9008,9774,10557,11345,12125,12885,13609,14280,14883,15401,15821,16131,16320,16384,16320,16131,15821,15401,14883,14280,13609,12885,12125,11345,10557,9774,9008,8266,7555,6881,6246,5653,5102,4594,4128,3701,3313,2961,2642,2355,2097,1865,1657,1471,1305,1158,1026,909,805,712,630,557,493,436,385,340,301,266,235,207,183,162,143,126,111,98,87,77,68,60,53,46,41,36,32,28,25,22,19,17,15,13,12,10,9,8,7,6,6,5,4,4,3,3,3,2,2,2,2,1,1,1,1,1,1,1,1,1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>
TSigmoid == <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,2,2,2,2,2,2,2,2,3,3,3,3,3,4,4,4,4,5,5,5,5,6,6,7,7,8,8,9,9,10,10,11,12,12,13,14,15,16,17,18,19,20,22,23,25,26,28,30,32,34,36,38,41,43,46,49,52,55,59,63,67,71,76,80,86,91,97,103,110,117,124,132,141,150,159,169,180,191,204,217,230,245,261,277,295,313,333,354,376,400,425,452,480,510,542,576,612,649,690,732,777,825,875,928,984,1044,1107,1173,1243,1317,1394,1476,1562,1653,1748,1848,1953,2063,2178,2299,2426,2558,2695,2839,2989,3145,3307,3475,3649,3829,4015,4208,4406,4611,4820,5036,5256,5482,5712,5947,6186,6428,6674,6922,7173,7426,7681,7936,8192,8448,8703,8958,9211,9462,9710,9956,10198,10437,10672,10902,11128,11348,11564,11773,11978,12176,12369,12555,12735,12909,13077,13239,13395,13545,13689,13826,13958,14085,14206,14321,14431,14536,14636,14731,14822,14908,14990,15067,15141,15211,15277,15340,15400,15456,15509,15559,15607,15652,15694,15735,15772,15808,15842,15874,15904,15932,15959,15984,16008,16030,16051,16071,16089,16107,16123,16139,16154,16167,16180,16193,16204,16215,16225,16234,16243,16252,16260,16267,16274,16281,16287,16293,16298,16304,16308,16313,16317,16321,16325,16329,16332,16335,16338,16341,16343,16346,16348,16350,16352,16354,16356,16358,16359,16361,16362,16364,16365,16366,16367,16368,16369,16370,16371,16372,16372,16373,16374,16374,16375,16375,16376,16376,16377,16377,16378,16378,16379,16379,16379,16379,16380,16380,16380,16380,16381,16381,16381,16381,16381,16382,16382,16382,16382,16382,16382,16382,16382,16383,16383,16383,16383,16383,16383,16383,16383,16383,16383,16383,16383,16383,16383,16383,16383,16383,16383,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384,16384>>
TDSigmoid == <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,2,2,2,2,2,2,2,2,3,3,3,3,3,4,4,4,4,5,5,5,5,6,6,7,7,8,8,9,9,10,10,11,12,12,13,14,15,16,17,18,19,20,22,23,25,26,28,30,32,34,36,38,40,43,46,49,52,55,59,62,66,71,75,80,85,91,96,102,109,116,123,131,139,148,158,167,178,189,201,214,227,241,256,272,289,307,326,346,368,390,414,439,466,494,524,556,589,624,661,699,740,783,828,876,925,977,1032,1089,1149,1211,1276,1343,1413,1486,1562,1640,1720,1803,1889,1977,2067,2158,2252,2347,2444,2541,2639,2738,2836,2934,3031,3127,3221,3313,3402,3488,3570,3648,3721,3788,3850,3906,3955,3998,4033,4060,4080,4092,4096,4092,4080,4060,4033,3998,3955,3906,3850,3788,3721,3648,3570,3488,3402,3313,3221,3127,3031,2934,2836,2738,2639,2541,2444,2347,2252,2158,2067,1977,1889,1803,1720,1640,1562,1486,1413,1343,1276,1211,1149,1089,1032,977,925,876,828,783,740,699,661,624,589,556,524,494,466,439,414,390,368,346,326,307,289,272,256,241,227,214,201,189,178,167,158,148,139,131,123,116,109,102,96,91,85,80,75,71,66,62,59,55,52,49,46,43,40,38,36,34,32,30,28,26,25,23,22,20,19,18,17,16,15,14,13,12,12,11,10,10,9,9,8,8,7,7,6,6,5,5,5,5,4,4,4,4,3,3,3,3,3,2,2,2,2,2,2,2,2,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>
TSoftplus == <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,2,2,2,2,2,2,2,2,3,3,3,3,3,4,4,4,4,5,5,5,5,6,6,7,7,8,8,9,9,10,10,11,12,12,13,14,15,16,17,18,19,20,22,23,25,26,28,30,32,34,36,38,41,43,46,49,52,55,59,63,67,71,76,81,86,91,97,103,110,117,125,133,141,150,160,170,181,193,205,218,232,247,263,280,297,316,337,358,381,405,431,458,487,518,551,586,623,663,704,749,796,846,899,956,1015,1079,1146,1217,1293,1372,1457,1547,1642,1742,1848,1961,2080,2205,2338,2477,2625,2781,2945,3118,3300,3492,3693,3905,4128,4361,4606,4863,5132,5414,5709,6017,6338,6674,7024,7388,7767,8161,8571,8996,9436,9892,10365,10853,11357,11877,12413,12964,13532,14116,14715,15329,15959,16604,17264,17938,18626,19329,20045,20774,21516,22271,23038,23817,24608,25409,26221,27044,27876,28718,29569,30429,31297,32173,33058,33949,34848,35753,36664,37582,38506,39435,40369,41308,42253,43201,44154,45111,46071,47036,48003,48974,49948,50925,51904,52887,53871,54858,55847,56838,57831,58826,59823,60821,61821,62822,63825,64828,65833,66840,67847,68855,69864,70874,71885,72897,73909,74922,75936,76950,77965,78981,79997,81013,82030,83047,84065,85083,86102,87121,88140,89159,90179,91199,92219,93239,94260,95281,96302,97323,98345,99366,100388,101410,102432,103454,104476,105498,106521,107543,108566,109588,110611,111634,112657,113680,114703,115726,116749,117772,118796,119819,120842,121866,122889,123913,124936,125960,126983,128007,129030,130054,131077,132101,133125,134149,135172,136196,137220,138244,139267,140291,141315,142339,143363,144386,145410,146434,147458,148482,149506,150530,151554,152577,153601,154625,155649,156673,157697,158721,159745,160769,161793,162817,163841,164865,165889,166913,167937,168961,169985,171008,172032,173056,174080,175104,176128,177152,178176,179200,180224,181248,182272,183296,184320,185344,186368,187392,188416,189440,190464,191488,192512,193536,194560,195584,196608,197632,198656,199680,200704,201728,202752,203776,204800,205824,206848,207872,208896,209920,210944,211968,212992,214016,215040,216064,217088,218112,219136,220160,221184,222208,223232,224256,225280,226304,227328,228352,229376,230400,231424,232448,233472,234496,235520,236544,237568,238592,239616,240640,241664,242688,243712,244736,245760,246784,247808,248832,249856,250880,251904,252928,253952,254976,256000,257024,258048,259072,260096,261120,262144,263168,264192,265216,266240,267264,268288,269312,270336,271360,272384,273408,274432,275456,276480,277504,278528,279552,280576,281600,282624,283648,284672,285696,286720,287744,288768,289792,290816,291840,292864,293888,294912,295936,296960,297984,299008,300032,301056,302080,303104,304128,305152,306176,307200,308224,309248,310272,311296,312320,313344,314368,315392,316416,317440,318464,319488,320512,321536,322560,323584,324608,325632,326656,327680>>
TSqrt == <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,4096,5793,7094,8192,9159,10033,10837,11585,12288,12953,13585,14189,14768,15326,15864,16384,16888,17378,17854,18318,18770,19212,19644,20066,20480,20886,21283,21674,22058,22435,22806,23170,23530,23884,24232,24576,24915,25249,25580,25905,26227,26545,26859,27170,27477,27780,28081,28378,28672,28963,29251,29537,29819,30099,30377,30652,30924,31194,31462,31727,31991,32252,32511,32768,33023,33276,33527,33776,34024,34270,34514,34756,34996,35235,35472,35708,35942,36175,36406,36636,36864,37091,37316,37540,37763,37985,38205,38424,38642,38858,39073,39287,39500,39712,39923,40132,40341,40548,40755,40960,41164,41368,41570,41771,41972,42171,42369,42567,42763,42959,43154,43348,43541,43733,43925,44115,44305,44494,44682,44869,45056,45242,45427,45611,45795,45977,46160,46341,46522,46702,46881,47059,47237,47415,47591,47767,47942,48117,48291,48465,48637,48809,48981,49152,49322,49492,49661,49830,49998,50166,50332,50499,50665,50830,50995,51159,51323,51486,51649,51811,51972,52134,52294,52454,52614,52773,52932,53090,53248,53405,53562,53719,53874,54030,54185,54340,54494,54647,54801,54954,55106,55258,55410,55561,55712,55862,56012,56162,56311,56459,56608,56756,56903,57051,57198,57344,57490,57636,57781,57926,58071,58215,58359,58503,58646,58789,58931,59073,59215,59357,59498,59639,59779,59919,60059,60199,60338,60477,60615,60753,60891,61029,61166,61303,61440,61576,61712,61848,61984,62119,62254,62388,62523,62657,62790,62924,63057,63190,63323,63455,63587,63719,63850,63982,64113,64243,64374,64504,64634,64763,64893,65022,65151,65279,65408,65536,65664,65792,65919,66046,66173,66300,66426,66552,66678,66804,66929,67054,67179,67304,67429,67553,67677,67801,67924,68048,68171,68294,68417,68539,68661,68784,68905,69027,69148,69270,69391,69511,69632,69752,69873,69992,70112,70232,70351,70470,70589,70708,70826,70945,71063,71181,71299,71416,71534,71651,71768,71885,72001,72118,72234,72350,72466,72581,72697,72812,72927,73042,73157,73271>>
TDSqrt == <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,32768,23170,18919,16384,14654,13377,12385,11585,10923,10362,9880,9459,9088,8758,8461,8192,7947,7723,7517,7327,7151,6986,6833,6689,6554,6426,6306,6193,6085,5983,5885,5793,5704,5620,5539,5461,5387,5316,5247,5181,5118,5056,4997,4940,4885,4831,4780,4730,4681,4634,4588,4544,4501,4459,4418,4379,4340,4303,4266,4230,4196,4162,4128,4096,4064,4033,4003,3974,3945,3917,3889,3862,3835,3809,3784,3759,3734,3710,3687,3664,3641,3619,3597,3575,3554,3533,3513,3493,3473,3454,3435,3416,3398,3380,3362,3344,3327,3310,3293,3277,3261,3245,3229,3213,3198,3183,3168,3153,3139,3124,3110,3096,3083,3069,3056,3042,3029,3017,3004,2991,2979,2967,2955,2943,2931,2919,2908,2896,2885,2874,2863,2852,2841,2831,2820,2810,2800,2789,2779,2769,2760,2750,2740,2731,2721,2712,2703,2694,2684,2675,2667,2658,2649,2641,2632,2624,2615,2607,2599,2591,2582,2574,2567,2559,2551,2543,2536,2528,2521,2513,2506,2499,2491,2484,2477,2470,2463,2456,2449,2442,2436,2429,2422,2416,2409,2403,2396,2390,2384,2377,2371,2365,2359,2353,2347,2341,2335,2329,2323,2317,2311,2306,2300,2294,2289,2283,2278,2272,2267,2261,2256,2251,2245,2240,2235,2230,2224,2219,2214,2209,2204,2199,2194,2189,2185,2180,2175,2170,2165,2161,2156,2151,2147,2142,2138,2133,2129,2124,2120,2115,2111,2106,2102,2098,2093,2089,2085,2081,2077,2072,2068,2064,2060,2056,2052,2048,2044,2040,2036,2032,2028,2024,2021,2017,2013,2009,2005,2002,1998,1994,1991,1987,1983,1980,1976,1972,1969,1965,1962,1958,1955,1951,1948,1944,1941,1938,1934,1931,1928,1924,1921,1918,1914,1911,1908,1905,1901,1898,1895,1892,1889,1886,1882,1879,1876,1873,1870,1867,1864,1861,1858,1855,1852,1849,1846,1843,1840,1838,1835,1832>>
TLn1 == <<0,256,510,764,1016,1268,1518,1768,2017,2264,2511,2757,3002,3246,3489,3732,3973,4214,4453,4692,4930,5167,5403,5638,5873,6106,6339,6571,6802,7033,7262,7491,7719,7946,8173,8398,8623,8847,9070,9293,9515,9736,9956,10176,10394,10612,10830,11046,11262,11478,11692,11906,12119,12332,12543,12754,12965,13174,13383,13592,13800,14007,14213,14419,14624,14828,15032,15235,15438,15640,15841,16042,16242,16442,16641,16839,17037,17234,17430,17626,17821,18016,18210,18404,18597,18790,18981,19173,19364,19554,19743,19933,20121,20309,20497,20684,20870,21056,21241,21426,21611,21795,21978,22161,22343,22525,22706,22887,23067,23247,23426,23605,23783,23961,24139,24315,24492,24668,24843,25018,25193,25367,25540,25714,25886,26059,26230,26402,26573,26743,26913,27083,27252,27420,27589,27756,27924,28091,28257,28424,28589,28754,28919,29084,29248,29412,29575,29738,29900,30062,30224,30385,30546,30706,30866,31026,31185,31344,31502,31661,31818,31976,32133,32289,32445,32601,32757,32912,33067,33221,33375,33529,33682,33835,33987,34140,34292,34443,34594,34745,34896,35046,35196,35345,35494,35643,35791,35939,36087,36235,36382,36529,36675,36821,36967,37112,37258,37402,37547,37691,37835,37979,38122,38265,38407,38550,38692,38833,38975,39116,39257,39397,39537,39677,39817,39956,40095,40234,40372,40510,40648,40786,40923,41060,41196,41333,41469,41605,41740,41876,42011,42145,42280,42414,42548,42681,42815,42948,43081,43213,43345,43477,43609,43741,43872,44003,44133,44264,44394,44524,44654,44783,44912,45041,45170,45298,45426>>
Ln2 == 45426
====
