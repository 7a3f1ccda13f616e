package corpus;
class Large {
  static double many() {
    long l0 = 0L * 31; double d0 = 0.25;
    long l1 = 7919L * 31; double d1 = 13.25;
    long l2 = 15838L * 31; double d2 = 26.25;
    long l3 = 23757L * 31; double d3 = 39.25;
    long l4 = 31676L * 31; double d4 = 52.25;
    long l5 = 39595L * 31; double d5 = 65.25;
    long l6 = 47514L * 31; double d6 = 78.25;
    long l7 = 55433L * 31; double d7 = 91.25;
    long l8 = 63352L * 31; double d8 = 104.25;
    long l9 = 71271L * 31; double d9 = 117.25;
    long l10 = 79190L * 31; double d10 = 130.25;
    long l11 = 87109L * 31; double d11 = 143.25;
    long l12 = 95028L * 31; double d12 = 156.25;
    long l13 = 102947L * 31; double d13 = 169.25;
    long l14 = 110866L * 31; double d14 = 182.25;
    long l15 = 118785L * 31; double d15 = 195.25;
    long l16 = 126704L * 31; double d16 = 208.25;
    long l17 = 134623L * 31; double d17 = 221.25;
    long l18 = 142542L * 31; double d18 = 234.25;
    long l19 = 150461L * 31; double d19 = 247.25;
    long l20 = 158380L * 31; double d20 = 260.25;
    long l21 = 166299L * 31; double d21 = 273.25;
    long l22 = 174218L * 31; double d22 = 286.25;
    long l23 = 182137L * 31; double d23 = 299.25;
    long l24 = 190056L * 31; double d24 = 312.25;
    long l25 = 197975L * 31; double d25 = 325.25;
    long l26 = 205894L * 31; double d26 = 338.25;
    long l27 = 213813L * 31; double d27 = 351.25;
    long l28 = 221732L * 31; double d28 = 364.25;
    long l29 = 229651L * 31; double d29 = 377.25;
    long l30 = 237570L * 31; double d30 = 390.25;
    long l31 = 245489L * 31; double d31 = 403.25;
    long l32 = 253408L * 31; double d32 = 416.25;
    long l33 = 261327L * 31; double d33 = 429.25;
    long l34 = 269246L * 31; double d34 = 442.25;
    long l35 = 277165L * 31; double d35 = 455.25;
    long l36 = 285084L * 31; double d36 = 468.25;
    long l37 = 293003L * 31; double d37 = 481.25;
    long l38 = 300922L * 31; double d38 = 494.25;
    long l39 = 308841L * 31; double d39 = 507.25;
    long l40 = 316760L * 31; double d40 = 520.25;
    long l41 = 324679L * 31; double d41 = 533.25;
    long l42 = 332598L * 31; double d42 = 546.25;
    long l43 = 340517L * 31; double d43 = 559.25;
    long l44 = 348436L * 31; double d44 = 572.25;
    long l45 = 356355L * 31; double d45 = 585.25;
    long l46 = 364274L * 31; double d46 = 598.25;
    long l47 = 372193L * 31; double d47 = 611.25;
    long l48 = 380112L * 31; double d48 = 624.25;
    long l49 = 388031L * 31; double d49 = 637.25;
    long l50 = 395950L * 31; double d50 = 650.25;
    long l51 = 403869L * 31; double d51 = 663.25;
    long l52 = 411788L * 31; double d52 = 676.25;
    long l53 = 419707L * 31; double d53 = 689.25;
    long l54 = 427626L * 31; double d54 = 702.25;
    long l55 = 435545L * 31; double d55 = 715.25;
    long l56 = 443464L * 31; double d56 = 728.25;
    long l57 = 451383L * 31; double d57 = 741.25;
    long l58 = 459302L * 31; double d58 = 754.25;
    long l59 = 467221L * 31; double d59 = 767.25;
    long l60 = 475140L * 31; double d60 = 780.25;
    long l61 = 483059L * 31; double d61 = 793.25;
    long l62 = 490978L * 31; double d62 = 806.25;
    long l63 = 498897L * 31; double d63 = 819.25;
    long l64 = 506816L * 31; double d64 = 832.25;
    long l65 = 514735L * 31; double d65 = 845.25;
    long l66 = 522654L * 31; double d66 = 858.25;
    long l67 = 530573L * 31; double d67 = 871.25;
    long l68 = 538492L * 31; double d68 = 884.25;
    long l69 = 546411L * 31; double d69 = 897.25;
    long l70 = 554330L * 31; double d70 = 910.25;
    long l71 = 562249L * 31; double d71 = 923.25;
    long l72 = 570168L * 31; double d72 = 936.25;
    long l73 = 578087L * 31; double d73 = 949.25;
    long l74 = 586006L * 31; double d74 = 962.25;
    long l75 = 593925L * 31; double d75 = 975.25;
    long l76 = 601844L * 31; double d76 = 988.25;
    long l77 = 609763L * 31; double d77 = 1001.25;
    long l78 = 617682L * 31; double d78 = 1014.25;
    long l79 = 625601L * 31; double d79 = 1027.25;
    long l80 = 633520L * 31; double d80 = 1040.25;
    long l81 = 641439L * 31; double d81 = 1053.25;
    long l82 = 649358L * 31; double d82 = 1066.25;
    long l83 = 657277L * 31; double d83 = 1079.25;
    long l84 = 665196L * 31; double d84 = 1092.25;
    long l85 = 673115L * 31; double d85 = 1105.25;
    long l86 = 681034L * 31; double d86 = 1118.25;
    long l87 = 688953L * 31; double d87 = 1131.25;
    long l88 = 696872L * 31; double d88 = 1144.25;
    long l89 = 704791L * 31; double d89 = 1157.25;
    long l90 = 712710L * 31; double d90 = 1170.25;
    long l91 = 720629L * 31; double d91 = 1183.25;
    long l92 = 728548L * 31; double d92 = 1196.25;
    long l93 = 736467L * 31; double d93 = 1209.25;
    long l94 = 744386L * 31; double d94 = 1222.25;
    long l95 = 752305L * 31; double d95 = 1235.25;
    long l96 = 760224L * 31; double d96 = 1248.25;
    long l97 = 768143L * 31; double d97 = 1261.25;
    long l98 = 776062L * 31; double d98 = 1274.25;
    long l99 = 783981L * 31; double d99 = 1287.25;
    long l100 = 791900L * 31; double d100 = 1300.25;
    long l101 = 799819L * 31; double d101 = 1313.25;
    long l102 = 807738L * 31; double d102 = 1326.25;
    long l103 = 815657L * 31; double d103 = 1339.25;
    long l104 = 823576L * 31; double d104 = 1352.25;
    long l105 = 831495L * 31; double d105 = 1365.25;
    long l106 = 839414L * 31; double d106 = 1378.25;
    long l107 = 847333L * 31; double d107 = 1391.25;
    long l108 = 855252L * 31; double d108 = 1404.25;
    long l109 = 863171L * 31; double d109 = 1417.25;
    long l110 = 871090L * 31; double d110 = 1430.25;
    long l111 = 879009L * 31; double d111 = 1443.25;
    long l112 = 886928L * 31; double d112 = 1456.25;
    long l113 = 894847L * 31; double d113 = 1469.25;
    long l114 = 902766L * 31; double d114 = 1482.25;
    long l115 = 910685L * 31; double d115 = 1495.25;
    long l116 = 918604L * 31; double d116 = 1508.25;
    long l117 = 926523L * 31; double d117 = 1521.25;
    long l118 = 934442L * 31; double d118 = 1534.25;
    long l119 = 942361L * 31; double d119 = 1547.25;
    long l120 = 950280L * 31; double d120 = 1560.25;
    long l121 = 958199L * 31; double d121 = 1573.25;
    long l122 = 966118L * 31; double d122 = 1586.25;
    long l123 = 974037L * 31; double d123 = 1599.25;
    long l124 = 981956L * 31; double d124 = 1612.25;
    long l125 = 989875L * 31; double d125 = 1625.25;
    long l126 = 997794L * 31; double d126 = 1638.25;
    long l127 = 1005713L * 31; double d127 = 1651.25;
    long l128 = 1013632L * 31; double d128 = 1664.25;
    long l129 = 1021551L * 31; double d129 = 1677.25;
    long l130 = 1029470L * 31; double d130 = 1690.25;
    long l131 = 1037389L * 31; double d131 = 1703.25;
    long l132 = 1045308L * 31; double d132 = 1716.25;
    long l133 = 1053227L * 31; double d133 = 1729.25;
    long l134 = 1061146L * 31; double d134 = 1742.25;
    long l135 = 1069065L * 31; double d135 = 1755.25;
    long l136 = 1076984L * 31; double d136 = 1768.25;
    long l137 = 1084903L * 31; double d137 = 1781.25;
    long l138 = 1092822L * 31; double d138 = 1794.25;
    long l139 = 1100741L * 31; double d139 = 1807.25;
    int k = 0; k += 5; k += 3000; String s = "";
    s = "text number 0"; k += 0;
    s = "text number 1"; k += 100003;
    s = "text number 2"; k += 200006;
    s = "text number 3"; k += 300009;
    s = "text number 4"; k += 400012;
    s = "text number 5"; k += 500015;
    s = "text number 6"; k += 600018;
    s = "text number 7"; k += 700021;
    s = "text number 8"; k += 800024;
    s = "text number 9"; k += 900027;
    s = "text number 10"; k += 1000030;
    s = "text number 11"; k += 1100033;
    s = "text number 12"; k += 1200036;
    s = "text number 13"; k += 1300039;
    s = "text number 14"; k += 1400042;
    s = "text number 15"; k += 1500045;
    s = "text number 16"; k += 1600048;
    s = "text number 17"; k += 1700051;
    s = "text number 18"; k += 1800054;
    s = "text number 19"; k += 1900057;
    s = "text number 20"; k += 2000060;
    s = "text number 21"; k += 2100063;
    s = "text number 22"; k += 2200066;
    s = "text number 23"; k += 2300069;
    s = "text number 24"; k += 2400072;
    s = "text number 25"; k += 2500075;
    s = "text number 26"; k += 2600078;
    s = "text number 27"; k += 2700081;
    s = "text number 28"; k += 2800084;
    s = "text number 29"; k += 2900087;
    s = "text number 30"; k += 3000090;
    s = "text number 31"; k += 3100093;
    s = "text number 32"; k += 3200096;
    s = "text number 33"; k += 3300099;
    s = "text number 34"; k += 3400102;
    s = "text number 35"; k += 3500105;
    s = "text number 36"; k += 3600108;
    s = "text number 37"; k += 3700111;
    s = "text number 38"; k += 3800114;
    s = "text number 39"; k += 3900117;
    s = "text number 40"; k += 4000120;
    s = "text number 41"; k += 4100123;
    s = "text number 42"; k += 4200126;
    s = "text number 43"; k += 4300129;
    s = "text number 44"; k += 4400132;
    s = "text number 45"; k += 4500135;
    s = "text number 46"; k += 4600138;
    s = "text number 47"; k += 4700141;
    s = "text number 48"; k += 4800144;
    s = "text number 49"; k += 4900147;
    s = "text number 50"; k += 5000150;
    s = "text number 51"; k += 5100153;
    s = "text number 52"; k += 5200156;
    s = "text number 53"; k += 5300159;
    s = "text number 54"; k += 5400162;
    s = "text number 55"; k += 5500165;
    s = "text number 56"; k += 5600168;
    s = "text number 57"; k += 5700171;
    s = "text number 58"; k += 5800174;
    s = "text number 59"; k += 5900177;
    s = "text number 60"; k += 6000180;
    s = "text number 61"; k += 6100183;
    s = "text number 62"; k += 6200186;
    s = "text number 63"; k += 6300189;
    s = "text number 64"; k += 6400192;
    s = "text number 65"; k += 6500195;
    s = "text number 66"; k += 6600198;
    s = "text number 67"; k += 6700201;
    s = "text number 68"; k += 6800204;
    s = "text number 69"; k += 6900207;
    s = "text number 70"; k += 7000210;
    s = "text number 71"; k += 7100213;
    s = "text number 72"; k += 7200216;
    s = "text number 73"; k += 7300219;
    s = "text number 74"; k += 7400222;
    s = "text number 75"; k += 7500225;
    s = "text number 76"; k += 7600228;
    s = "text number 77"; k += 7700231;
    s = "text number 78"; k += 7800234;
    s = "text number 79"; k += 7900237;
    s = "text number 80"; k += 8000240;
    s = "text number 81"; k += 8100243;
    s = "text number 82"; k += 8200246;
    s = "text number 83"; k += 8300249;
    s = "text number 84"; k += 8400252;
    s = "text number 85"; k += 8500255;
    s = "text number 86"; k += 8600258;
    s = "text number 87"; k += 8700261;
    s = "text number 88"; k += 8800264;
    s = "text number 89"; k += 8900267;
    s = "text number 90"; k += 9000270;
    s = "text number 91"; k += 9100273;
    s = "text number 92"; k += 9200276;
    s = "text number 93"; k += 9300279;
    s = "text number 94"; k += 9400282;
    s = "text number 95"; k += 9500285;
    s = "text number 96"; k += 9600288;
    s = "text number 97"; k += 9700291;
    s = "text number 98"; k += 9800294;
    s = "text number 99"; k += 9900297;
    s = "text number 100"; k += 10000300;
    s = "text number 101"; k += 10100303;
    s = "text number 102"; k += 10200306;
    s = "text number 103"; k += 10300309;
    s = "text number 104"; k += 10400312;
    s = "text number 105"; k += 10500315;
    s = "text number 106"; k += 10600318;
    s = "text number 107"; k += 10700321;
    s = "text number 108"; k += 10800324;
    s = "text number 109"; k += 10900327;
    s = "text number 110"; k += 11000330;
    s = "text number 111"; k += 11100333;
    s = "text number 112"; k += 11200336;
    s = "text number 113"; k += 11300339;
    s = "text number 114"; k += 11400342;
    s = "text number 115"; k += 11500345;
    s = "text number 116"; k += 11600348;
    s = "text number 117"; k += 11700351;
    s = "text number 118"; k += 11800354;
    s = "text number 119"; k += 11900357;
    s = "text number 120"; k += 12000360;
    s = "text number 121"; k += 12100363;
    s = "text number 122"; k += 12200366;
    s = "text number 123"; k += 12300369;
    s = "text number 124"; k += 12400372;
    s = "text number 125"; k += 12500375;
    s = "text number 126"; k += 12600378;
    s = "text number 127"; k += 12700381;
    s = "text number 128"; k += 12800384;
    s = "text number 129"; k += 12900387;
    s = "text number 130"; k += 13000390;
    s = "text number 131"; k += 13100393;
    s = "text number 132"; k += 13200396;
    s = "text number 133"; k += 13300399;
    s = "text number 134"; k += 13400402;
    s = "text number 135"; k += 13500405;
    s = "text number 136"; k += 13600408;
    s = "text number 137"; k += 13700411;
    s = "text number 138"; k += 13800414;
    s = "text number 139"; k += 13900417;
    s = "text number 140"; k += 14000420;
    s = "text number 141"; k += 14100423;
    s = "text number 142"; k += 14200426;
    s = "text number 143"; k += 14300429;
    s = "text number 144"; k += 14400432;
    s = "text number 145"; k += 14500435;
    s = "text number 146"; k += 14600438;
    s = "text number 147"; k += 14700441;
    s = "text number 148"; k += 14800444;
    s = "text number 149"; k += 14900447;
    s = "text number 150"; k += 15000450;
    s = "text number 151"; k += 15100453;
    s = "text number 152"; k += 15200456;
    s = "text number 153"; k += 15300459;
    s = "text number 154"; k += 15400462;
    s = "text number 155"; k += 15500465;
    s = "text number 156"; k += 15600468;
    s = "text number 157"; k += 15700471;
    s = "text number 158"; k += 15800474;
    s = "text number 159"; k += 15900477;
    s = "text number 160"; k += 16000480;
    s = "text number 161"; k += 16100483;
    s = "text number 162"; k += 16200486;
    s = "text number 163"; k += 16300489;
    s = "text number 164"; k += 16400492;
    s = "text number 165"; k += 16500495;
    s = "text number 166"; k += 16600498;
    s = "text number 167"; k += 16700501;
    s = "text number 168"; k += 16800504;
    s = "text number 169"; k += 16900507;
    s = "text number 170"; k += 17000510;
    s = "text number 171"; k += 17100513;
    s = "text number 172"; k += 17200516;
    s = "text number 173"; k += 17300519;
    s = "text number 174"; k += 17400522;
    s = "text number 175"; k += 17500525;
    s = "text number 176"; k += 17600528;
    s = "text number 177"; k += 17700531;
    s = "text number 178"; k += 17800534;
    s = "text number 179"; k += 17900537;
    s = "text number 180"; k += 18000540;
    s = "text number 181"; k += 18100543;
    s = "text number 182"; k += 18200546;
    s = "text number 183"; k += 18300549;
    s = "text number 184"; k += 18400552;
    s = "text number 185"; k += 18500555;
    s = "text number 186"; k += 18600558;
    s = "text number 187"; k += 18700561;
    s = "text number 188"; k += 18800564;
    s = "text number 189"; k += 18900567;
    s = "text number 190"; k += 19000570;
    s = "text number 191"; k += 19100573;
    s = "text number 192"; k += 19200576;
    s = "text number 193"; k += 19300579;
    s = "text number 194"; k += 19400582;
    s = "text number 195"; k += 19500585;
    s = "text number 196"; k += 19600588;
    s = "text number 197"; k += 19700591;
    s = "text number 198"; k += 19800594;
    s = "text number 199"; k += 19900597;
    return l0+d0+l1+d1+l2+d2+l3+d3+l4+d4+l5+d5+l6+d6+l7+d7+l8+d8+l9+d9+l10+d10+l11+d11+l12+d12+l13+d13+l14+d14+l15+d15+l16+d16+l17+d17+l18+d18+l19+d19+l20+d20+l21+d21+l22+d22+l23+d23+l24+d24+l25+d25+l26+d26+l27+d27+l28+d28+l29+d29+l30+d30+l31+d31+l32+d32+l33+d33+l34+d34+l35+d35+l36+d36+l37+d37+l38+d38+l39+d39+l40+d40+l41+d41+l42+d42+l43+d43+l44+d44+l45+d45+l46+d46+l47+d47+l48+d48+l49+d49+l50+d50+l51+d51+l52+d52+l53+d53+l54+d54+l55+d55+l56+d56+l57+d57+l58+d58+l59+d59+l60+d60+l61+d61+l62+d62+l63+d63+l64+d64+l65+d65+l66+d66+l67+d67+l68+d68+l69+d69+l70+d70+l71+d71+l72+d72+l73+d73+l74+d74+l75+d75+l76+d76+l77+d77+l78+d78+l79+d79+l80+d80+l81+d81+l82+d82+l83+d83+l84+d84+l85+d85+l86+d86+l87+d87+l88+d88+l89+d89+l90+d90+l91+d91+l92+d92+l93+d93+l94+d94+l95+d95+l96+d96+l97+d97+l98+d98+l99+d99+l100+d100+l101+d101+l102+d102+l103+d103+l104+d104+l105+d105+l106+d106+l107+d107+l108+d108+l109+d109+l110+d110+l111+d111+l112+d112+l113+d113+l114+d114+l115+d115+l116+d116+l117+d117+l118+d118+l119+d119+l120+d120+l121+d121+l122+d122+l123+d123+l124+d124+l125+d125+l126+d126+l127+d127+l128+d128+l129+d129+l130+d130+l131+d131+l132+d132+l133+d133+l134+d134+l135+d135+l136+d136+l137+d137+l138+d138+l139+d139+k+s.length(); }
  static int far(int x) { for (int i = 0; i < x; i++) { if (x > i) {
    x += i * 100000 + (x ^ 70000) - far(x + 0);
    x += i * 100077 + (x ^ 70091) - far(x + 1);
    x += i * 100154 + (x ^ 70182) - far(x + 2);
    x += i * 100231 + (x ^ 70273) - far(x + 3);
    x += i * 100308 + (x ^ 70364) - far(x + 4);
    x += i * 100385 + (x ^ 70455) - far(x + 5);
    x += i * 100462 + (x ^ 70546) - far(x + 6);
    x += i * 100539 + (x ^ 70637) - far(x + 7);
    x += i * 100616 + (x ^ 70728) - far(x + 8);
    x += i * 100693 + (x ^ 70819) - far(x + 9);
    x += i * 100770 + (x ^ 70910) - far(x + 10);
    x += i * 100847 + (x ^ 71001) - far(x + 11);
    x += i * 100924 + (x ^ 71092) - far(x + 12);
    x += i * 101001 + (x ^ 71183) - far(x + 13);
    x += i * 101078 + (x ^ 71274) - far(x + 14);
    x += i * 101155 + (x ^ 71365) - far(x + 15);
    x += i * 101232 + (x ^ 71456) - far(x + 16);
    x += i * 101309 + (x ^ 71547) - far(x + 17);
    x += i * 101386 + (x ^ 71638) - far(x + 18);
    x += i * 101463 + (x ^ 71729) - far(x + 19);
    x += i * 101540 + (x ^ 71820) - far(x + 20);
    x += i * 101617 + (x ^ 71911) - far(x + 21);
    x += i * 101694 + (x ^ 72002) - far(x + 22);
    x += i * 101771 + (x ^ 72093) - far(x + 23);
    x += i * 101848 + (x ^ 72184) - far(x + 24);
    x += i * 101925 + (x ^ 72275) - far(x + 25);
    x += i * 102002 + (x ^ 72366) - far(x + 26);
    x += i * 102079 + (x ^ 72457) - far(x + 27);
    x += i * 102156 + (x ^ 72548) - far(x + 28);
    x += i * 102233 + (x ^ 72639) - far(x + 29);
    x += i * 102310 + (x ^ 72730) - far(x + 30);
    x += i * 102387 + (x ^ 72821) - far(x + 31);
    x += i * 102464 + (x ^ 72912) - far(x + 32);
    x += i * 102541 + (x ^ 73003) - far(x + 33);
    x += i * 102618 + (x ^ 73094) - far(x + 34);
    x += i * 102695 + (x ^ 73185) - far(x + 35);
    x += i * 102772 + (x ^ 73276) - far(x + 36);
    x += i * 102849 + (x ^ 73367) - far(x + 37);
    x += i * 102926 + (x ^ 73458) - far(x + 38);
    x += i * 103003 + (x ^ 73549) - far(x + 39);
    x += i * 103080 + (x ^ 73640) - far(x + 40);
    x += i * 103157 + (x ^ 73731) - far(x + 41);
    x += i * 103234 + (x ^ 73822) - far(x + 42);
    x += i * 103311 + (x ^ 73913) - far(x + 43);
    x += i * 103388 + (x ^ 74004) - far(x + 44);
    x += i * 103465 + (x ^ 74095) - far(x + 45);
    x += i * 103542 + (x ^ 74186) - far(x + 46);
    x += i * 103619 + (x ^ 74277) - far(x + 47);
    x += i * 103696 + (x ^ 74368) - far(x + 48);
    x += i * 103773 + (x ^ 74459) - far(x + 49);
    x += i * 103850 + (x ^ 74550) - far(x + 50);
    x += i * 103927 + (x ^ 74641) - far(x + 51);
    x += i * 104004 + (x ^ 74732) - far(x + 52);
    x += i * 104081 + (x ^ 74823) - far(x + 53);
    x += i * 104158 + (x ^ 74914) - far(x + 54);
    x += i * 104235 + (x ^ 75005) - far(x + 55);
    x += i * 104312 + (x ^ 75096) - far(x + 56);
    x += i * 104389 + (x ^ 75187) - far(x + 57);
    x += i * 104466 + (x ^ 75278) - far(x + 58);
    x += i * 104543 + (x ^ 75369) - far(x + 59);
    x += i * 104620 + (x ^ 75460) - far(x + 60);
    x += i * 104697 + (x ^ 75551) - far(x + 61);
    x += i * 104774 + (x ^ 75642) - far(x + 62);
    x += i * 104851 + (x ^ 75733) - far(x + 63);
    x += i * 104928 + (x ^ 75824) - far(x + 64);
    x += i * 105005 + (x ^ 75915) - far(x + 65);
    x += i * 105082 + (x ^ 76006) - far(x + 66);
    x += i * 105159 + (x ^ 76097) - far(x + 67);
    x += i * 105236 + (x ^ 76188) - far(x + 68);
    x += i * 105313 + (x ^ 76279) - far(x + 69);
    x += i * 105390 + (x ^ 76370) - far(x + 70);
    x += i * 105467 + (x ^ 76461) - far(x + 71);
    x += i * 105544 + (x ^ 76552) - far(x + 72);
    x += i * 105621 + (x ^ 76643) - far(x + 73);
    x += i * 105698 + (x ^ 76734) - far(x + 74);
    x += i * 105775 + (x ^ 76825) - far(x + 75);
    x += i * 105852 + (x ^ 76916) - far(x + 76);
    x += i * 105929 + (x ^ 77007) - far(x + 77);
    x += i * 106006 + (x ^ 77098) - far(x + 78);
    x += i * 106083 + (x ^ 77189) - far(x + 79);
    x += i * 106160 + (x ^ 77280) - far(x + 80);
    x += i * 106237 + (x ^ 77371) - far(x + 81);
    x += i * 106314 + (x ^ 77462) - far(x + 82);
    x += i * 106391 + (x ^ 77553) - far(x + 83);
    x += i * 106468 + (x ^ 77644) - far(x + 84);
    x += i * 106545 + (x ^ 77735) - far(x + 85);
    x += i * 106622 + (x ^ 77826) - far(x + 86);
    x += i * 106699 + (x ^ 77917) - far(x + 87);
    x += i * 106776 + (x ^ 78008) - far(x + 88);
    x += i * 106853 + (x ^ 78099) - far(x + 89);
    x += i * 106930 + (x ^ 78190) - far(x + 90);
    x += i * 107007 + (x ^ 78281) - far(x + 91);
    x += i * 107084 + (x ^ 78372) - far(x + 92);
    x += i * 107161 + (x ^ 78463) - far(x + 93);
    x += i * 107238 + (x ^ 78554) - far(x + 94);
    x += i * 107315 + (x ^ 78645) - far(x + 95);
    x += i * 107392 + (x ^ 78736) - far(x + 96);
    x += i * 107469 + (x ^ 78827) - far(x + 97);
    x += i * 107546 + (x ^ 78918) - far(x + 98);
    x += i * 107623 + (x ^ 79009) - far(x + 99);
    x += i * 107700 + (x ^ 79100) - far(x + 100);
    x += i * 107777 + (x ^ 79191) - far(x + 101);
    x += i * 107854 + (x ^ 79282) - far(x + 102);
    x += i * 107931 + (x ^ 79373) - far(x + 103);
    x += i * 108008 + (x ^ 79464) - far(x + 104);
    x += i * 108085 + (x ^ 79555) - far(x + 105);
    x += i * 108162 + (x ^ 79646) - far(x + 106);
    x += i * 108239 + (x ^ 79737) - far(x + 107);
    x += i * 108316 + (x ^ 79828) - far(x + 108);
    x += i * 108393 + (x ^ 79919) - far(x + 109);
    x += i * 108470 + (x ^ 80010) - far(x + 110);
    x += i * 108547 + (x ^ 80101) - far(x + 111);
    x += i * 108624 + (x ^ 80192) - far(x + 112);
    x += i * 108701 + (x ^ 80283) - far(x + 113);
    x += i * 108778 + (x ^ 80374) - far(x + 114);
    x += i * 108855 + (x ^ 80465) - far(x + 115);
    x += i * 108932 + (x ^ 80556) - far(x + 116);
    x += i * 109009 + (x ^ 80647) - far(x + 117);
    x += i * 109086 + (x ^ 80738) - far(x + 118);
    x += i * 109163 + (x ^ 80829) - far(x + 119);
    x += i * 109240 + (x ^ 80920) - far(x + 120);
    x += i * 109317 + (x ^ 81011) - far(x + 121);
    x += i * 109394 + (x ^ 81102) - far(x + 122);
    x += i * 109471 + (x ^ 81193) - far(x + 123);
    x += i * 109548 + (x ^ 81284) - far(x + 124);
    x += i * 109625 + (x ^ 81375) - far(x + 125);
    x += i * 109702 + (x ^ 81466) - far(x + 126);
    x += i * 109779 + (x ^ 81557) - far(x + 127);
    x += i * 109856 + (x ^ 81648) - far(x + 128);
    x += i * 109933 + (x ^ 81739) - far(x + 129);
    x += i * 110010 + (x ^ 81830) - far(x + 130);
    x += i * 110087 + (x ^ 81921) - far(x + 131);
    x += i * 110164 + (x ^ 82012) - far(x + 132);
    x += i * 110241 + (x ^ 82103) - far(x + 133);
    x += i * 110318 + (x ^ 82194) - far(x + 134);
    x += i * 110395 + (x ^ 82285) - far(x + 135);
    x += i * 110472 + (x ^ 82376) - far(x + 136);
    x += i * 110549 + (x ^ 82467) - far(x + 137);
    x += i * 110626 + (x ^ 82558) - far(x + 138);
    x += i * 110703 + (x ^ 82649) - far(x + 139);
    x += i * 110780 + (x ^ 82740) - far(x + 140);
    x += i * 110857 + (x ^ 82831) - far(x + 141);
    x += i * 110934 + (x ^ 82922) - far(x + 142);
    x += i * 111011 + (x ^ 83013) - far(x + 143);
    x += i * 111088 + (x ^ 83104) - far(x + 144);
    x += i * 111165 + (x ^ 83195) - far(x + 145);
    x += i * 111242 + (x ^ 83286) - far(x + 146);
    x += i * 111319 + (x ^ 83377) - far(x + 147);
    x += i * 111396 + (x ^ 83468) - far(x + 148);
    x += i * 111473 + (x ^ 83559) - far(x + 149);
    x += i * 111550 + (x ^ 83650) - far(x + 150);
    x += i * 111627 + (x ^ 83741) - far(x + 151);
    x += i * 111704 + (x ^ 83832) - far(x + 152);
    x += i * 111781 + (x ^ 83923) - far(x + 153);
    x += i * 111858 + (x ^ 84014) - far(x + 154);
    x += i * 111935 + (x ^ 84105) - far(x + 155);
    x += i * 112012 + (x ^ 84196) - far(x + 156);
    x += i * 112089 + (x ^ 84287) - far(x + 157);
    x += i * 112166 + (x ^ 84378) - far(x + 158);
    x += i * 112243 + (x ^ 84469) - far(x + 159);
    x += i * 112320 + (x ^ 84560) - far(x + 160);
    x += i * 112397 + (x ^ 84651) - far(x + 161);
    x += i * 112474 + (x ^ 84742) - far(x + 162);
    x += i * 112551 + (x ^ 84833) - far(x + 163);
    x += i * 112628 + (x ^ 84924) - far(x + 164);
    x += i * 112705 + (x ^ 85015) - far(x + 165);
    x += i * 112782 + (x ^ 85106) - far(x + 166);
    x += i * 112859 + (x ^ 85197) - far(x + 167);
    x += i * 112936 + (x ^ 85288) - far(x + 168);
    x += i * 113013 + (x ^ 85379) - far(x + 169);
    x += i * 113090 + (x ^ 85470) - far(x + 170);
    x += i * 113167 + (x ^ 85561) - far(x + 171);
    x += i * 113244 + (x ^ 85652) - far(x + 172);
    x += i * 113321 + (x ^ 85743) - far(x + 173);
    x += i * 113398 + (x ^ 85834) - far(x + 174);
    x += i * 113475 + (x ^ 85925) - far(x + 175);
    x += i * 113552 + (x ^ 86016) - far(x + 176);
    x += i * 113629 + (x ^ 86107) - far(x + 177);
    x += i * 113706 + (x ^ 86198) - far(x + 178);
    x += i * 113783 + (x ^ 86289) - far(x + 179);
    x += i * 113860 + (x ^ 86380) - far(x + 180);
    x += i * 113937 + (x ^ 86471) - far(x + 181);
    x += i * 114014 + (x ^ 86562) - far(x + 182);
    x += i * 114091 + (x ^ 86653) - far(x + 183);
    x += i * 114168 + (x ^ 86744) - far(x + 184);
    x += i * 114245 + (x ^ 86835) - far(x + 185);
    x += i * 114322 + (x ^ 86926) - far(x + 186);
    x += i * 114399 + (x ^ 87017) - far(x + 187);
    x += i * 114476 + (x ^ 87108) - far(x + 188);
    x += i * 114553 + (x ^ 87199) - far(x + 189);
    x += i * 114630 + (x ^ 87290) - far(x + 190);
    x += i * 114707 + (x ^ 87381) - far(x + 191);
    x += i * 114784 + (x ^ 87472) - far(x + 192);
    x += i * 114861 + (x ^ 87563) - far(x + 193);
    x += i * 114938 + (x ^ 87654) - far(x + 194);
    x += i * 115015 + (x ^ 87745) - far(x + 195);
    x += i * 115092 + (x ^ 87836) - far(x + 196);
    x += i * 115169 + (x ^ 87927) - far(x + 197);
    x += i * 115246 + (x ^ 88018) - far(x + 198);
    x += i * 115323 + (x ^ 88109) - far(x + 199);
    x += i * 115400 + (x ^ 88200) - far(x + 200);
    x += i * 115477 + (x ^ 88291) - far(x + 201);
    x += i * 115554 + (x ^ 88382) - far(x + 202);
    x += i * 115631 + (x ^ 88473) - far(x + 203);
    x += i * 115708 + (x ^ 88564) - far(x + 204);
    x += i * 115785 + (x ^ 88655) - far(x + 205);
    x += i * 115862 + (x ^ 88746) - far(x + 206);
    x += i * 115939 + (x ^ 88837) - far(x + 207);
    x += i * 116016 + (x ^ 88928) - far(x + 208);
    x += i * 116093 + (x ^ 89019) - far(x + 209);
    x += i * 116170 + (x ^ 89110) - far(x + 210);
    x += i * 116247 + (x ^ 89201) - far(x + 211);
    x += i * 116324 + (x ^ 89292) - far(x + 212);
    x += i * 116401 + (x ^ 89383) - far(x + 213);
    x += i * 116478 + (x ^ 89474) - far(x + 214);
    x += i * 116555 + (x ^ 89565) - far(x + 215);
    x += i * 116632 + (x ^ 89656) - far(x + 216);
    x += i * 116709 + (x ^ 89747) - far(x + 217);
    x += i * 116786 + (x ^ 89838) - far(x + 218);
    x += i * 116863 + (x ^ 89929) - far(x + 219);
    x += i * 116940 + (x ^ 90020) - far(x + 220);
    x += i * 117017 + (x ^ 90111) - far(x + 221);
    x += i * 117094 + (x ^ 90202) - far(x + 222);
    x += i * 117171 + (x ^ 90293) - far(x + 223);
    x += i * 117248 + (x ^ 90384) - far(x + 224);
    x += i * 117325 + (x ^ 90475) - far(x + 225);
    x += i * 117402 + (x ^ 90566) - far(x + 226);
    x += i * 117479 + (x ^ 90657) - far(x + 227);
    x += i * 117556 + (x ^ 90748) - far(x + 228);
    x += i * 117633 + (x ^ 90839) - far(x + 229);
    x += i * 117710 + (x ^ 90930) - far(x + 230);
    x += i * 117787 + (x ^ 91021) - far(x + 231);
    x += i * 117864 + (x ^ 91112) - far(x + 232);
    x += i * 117941 + (x ^ 91203) - far(x + 233);
    x += i * 118018 + (x ^ 91294) - far(x + 234);
    x += i * 118095 + (x ^ 91385) - far(x + 235);
    x += i * 118172 + (x ^ 91476) - far(x + 236);
    x += i * 118249 + (x ^ 91567) - far(x + 237);
    x += i * 118326 + (x ^ 91658) - far(x + 238);
    x += i * 118403 + (x ^ 91749) - far(x + 239);
    x += i * 118480 + (x ^ 91840) - far(x + 240);
    x += i * 118557 + (x ^ 91931) - far(x + 241);
    x += i * 118634 + (x ^ 92022) - far(x + 242);
    x += i * 118711 + (x ^ 92113) - far(x + 243);
    x += i * 118788 + (x ^ 92204) - far(x + 244);
    x += i * 118865 + (x ^ 92295) - far(x + 245);
    x += i * 118942 + (x ^ 92386) - far(x + 246);
    x += i * 119019 + (x ^ 92477) - far(x + 247);
    x += i * 119096 + (x ^ 92568) - far(x + 248);
    x += i * 119173 + (x ^ 92659) - far(x + 249);
    x += i * 119250 + (x ^ 92750) - far(x + 250);
    x += i * 119327 + (x ^ 92841) - far(x + 251);
    x += i * 119404 + (x ^ 92932) - far(x + 252);
    x += i * 119481 + (x ^ 93023) - far(x + 253);
    x += i * 119558 + (x ^ 93114) - far(x + 254);
    x += i * 119635 + (x ^ 93205) - far(x + 255);
    x += i * 119712 + (x ^ 93296) - far(x + 256);
    x += i * 119789 + (x ^ 93387) - far(x + 257);
    x += i * 119866 + (x ^ 93478) - far(x + 258);
    x += i * 119943 + (x ^ 93569) - far(x + 259);
    x += i * 120020 + (x ^ 93660) - far(x + 260);
    x += i * 120097 + (x ^ 93751) - far(x + 261);
    x += i * 120174 + (x ^ 93842) - far(x + 262);
    x += i * 120251 + (x ^ 93933) - far(x + 263);
    x += i * 120328 + (x ^ 94024) - far(x + 264);
    x += i * 120405 + (x ^ 94115) - far(x + 265);
    x += i * 120482 + (x ^ 94206) - far(x + 266);
    x += i * 120559 + (x ^ 94297) - far(x + 267);
    x += i * 120636 + (x ^ 94388) - far(x + 268);
    x += i * 120713 + (x ^ 94479) - far(x + 269);
    x += i * 120790 + (x ^ 94570) - far(x + 270);
    x += i * 120867 + (x ^ 94661) - far(x + 271);
    x += i * 120944 + (x ^ 94752) - far(x + 272);
    x += i * 121021 + (x ^ 94843) - far(x + 273);
    x += i * 121098 + (x ^ 94934) - far(x + 274);
    x += i * 121175 + (x ^ 95025) - far(x + 275);
    x += i * 121252 + (x ^ 95116) - far(x + 276);
    x += i * 121329 + (x ^ 95207) - far(x + 277);
    x += i * 121406 + (x ^ 95298) - far(x + 278);
    x += i * 121483 + (x ^ 95389) - far(x + 279);
    x += i * 121560 + (x ^ 95480) - far(x + 280);
    x += i * 121637 + (x ^ 95571) - far(x + 281);
    x += i * 121714 + (x ^ 95662) - far(x + 282);
    x += i * 121791 + (x ^ 95753) - far(x + 283);
    x += i * 121868 + (x ^ 95844) - far(x + 284);
    x += i * 121945 + (x ^ 95935) - far(x + 285);
    x += i * 122022 + (x ^ 96026) - far(x + 286);
    x += i * 122099 + (x ^ 96117) - far(x + 287);
    x += i * 122176 + (x ^ 96208) - far(x + 288);
    x += i * 122253 + (x ^ 96299) - far(x + 289);
    x += i * 122330 + (x ^ 96390) - far(x + 290);
    x += i * 122407 + (x ^ 96481) - far(x + 291);
    x += i * 122484 + (x ^ 96572) - far(x + 292);
    x += i * 122561 + (x ^ 96663) - far(x + 293);
    x += i * 122638 + (x ^ 96754) - far(x + 294);
    x += i * 122715 + (x ^ 96845) - far(x + 295);
    x += i * 122792 + (x ^ 96936) - far(x + 296);
    x += i * 122869 + (x ^ 97027) - far(x + 297);
    x += i * 122946 + (x ^ 97118) - far(x + 298);
    x += i * 123023 + (x ^ 97209) - far(x + 299);
    x += i * 123100 + (x ^ 97300) - far(x + 300);
    x += i * 123177 + (x ^ 97391) - far(x + 301);
    x += i * 123254 + (x ^ 97482) - far(x + 302);
    x += i * 123331 + (x ^ 97573) - far(x + 303);
    x += i * 123408 + (x ^ 97664) - far(x + 304);
    x += i * 123485 + (x ^ 97755) - far(x + 305);
    x += i * 123562 + (x ^ 97846) - far(x + 306);
    x += i * 123639 + (x ^ 97937) - far(x + 307);
    x += i * 123716 + (x ^ 98028) - far(x + 308);
    x += i * 123793 + (x ^ 98119) - far(x + 309);
    x += i * 123870 + (x ^ 98210) - far(x + 310);
    x += i * 123947 + (x ^ 98301) - far(x + 311);
    x += i * 124024 + (x ^ 98392) - far(x + 312);
    x += i * 124101 + (x ^ 98483) - far(x + 313);
    x += i * 124178 + (x ^ 98574) - far(x + 314);
    x += i * 124255 + (x ^ 98665) - far(x + 315);
    x += i * 124332 + (x ^ 98756) - far(x + 316);
    x += i * 124409 + (x ^ 98847) - far(x + 317);
    x += i * 124486 + (x ^ 98938) - far(x + 318);
    x += i * 124563 + (x ^ 99029) - far(x + 319);
    x += i * 124640 + (x ^ 99120) - far(x + 320);
    x += i * 124717 + (x ^ 99211) - far(x + 321);
    x += i * 124794 + (x ^ 99302) - far(x + 322);
    x += i * 124871 + (x ^ 99393) - far(x + 323);
    x += i * 124948 + (x ^ 99484) - far(x + 324);
    x += i * 125025 + (x ^ 99575) - far(x + 325);
    x += i * 125102 + (x ^ 99666) - far(x + 326);
    x += i * 125179 + (x ^ 99757) - far(x + 327);
    x += i * 125256 + (x ^ 99848) - far(x + 328);
    x += i * 125333 + (x ^ 99939) - far(x + 329);
    x += i * 125410 + (x ^ 100030) - far(x + 330);
    x += i * 125487 + (x ^ 100121) - far(x + 331);
    x += i * 125564 + (x ^ 100212) - far(x + 332);
    x += i * 125641 + (x ^ 100303) - far(x + 333);
    x += i * 125718 + (x ^ 100394) - far(x + 334);
    x += i * 125795 + (x ^ 100485) - far(x + 335);
    x += i * 125872 + (x ^ 100576) - far(x + 336);
    x += i * 125949 + (x ^ 100667) - far(x + 337);
    x += i * 126026 + (x ^ 100758) - far(x + 338);
    x += i * 126103 + (x ^ 100849) - far(x + 339);
    x += i * 126180 + (x ^ 100940) - far(x + 340);
    x += i * 126257 + (x ^ 101031) - far(x + 341);
    x += i * 126334 + (x ^ 101122) - far(x + 342);
    x += i * 126411 + (x ^ 101213) - far(x + 343);
    x += i * 126488 + (x ^ 101304) - far(x + 344);
    x += i * 126565 + (x ^ 101395) - far(x + 345);
    x += i * 126642 + (x ^ 101486) - far(x + 346);
    x += i * 126719 + (x ^ 101577) - far(x + 347);
    x += i * 126796 + (x ^ 101668) - far(x + 348);
    x += i * 126873 + (x ^ 101759) - far(x + 349);
    x += i * 126950 + (x ^ 101850) - far(x + 350);
    x += i * 127027 + (x ^ 101941) - far(x + 351);
    x += i * 127104 + (x ^ 102032) - far(x + 352);
    x += i * 127181 + (x ^ 102123) - far(x + 353);
    x += i * 127258 + (x ^ 102214) - far(x + 354);
    x += i * 127335 + (x ^ 102305) - far(x + 355);
    x += i * 127412 + (x ^ 102396) - far(x + 356);
    x += i * 127489 + (x ^ 102487) - far(x + 357);
    x += i * 127566 + (x ^ 102578) - far(x + 358);
    x += i * 127643 + (x ^ 102669) - far(x + 359);
    x += i * 127720 + (x ^ 102760) - far(x + 360);
    x += i * 127797 + (x ^ 102851) - far(x + 361);
    x += i * 127874 + (x ^ 102942) - far(x + 362);
    x += i * 127951 + (x ^ 103033) - far(x + 363);
    x += i * 128028 + (x ^ 103124) - far(x + 364);
    x += i * 128105 + (x ^ 103215) - far(x + 365);
    x += i * 128182 + (x ^ 103306) - far(x + 366);
    x += i * 128259 + (x ^ 103397) - far(x + 367);
    x += i * 128336 + (x ^ 103488) - far(x + 368);
    x += i * 128413 + (x ^ 103579) - far(x + 369);
    x += i * 128490 + (x ^ 103670) - far(x + 370);
    x += i * 128567 + (x ^ 103761) - far(x + 371);
    x += i * 128644 + (x ^ 103852) - far(x + 372);
    x += i * 128721 + (x ^ 103943) - far(x + 373);
    x += i * 128798 + (x ^ 104034) - far(x + 374);
    x += i * 128875 + (x ^ 104125) - far(x + 375);
    x += i * 128952 + (x ^ 104216) - far(x + 376);
    x += i * 129029 + (x ^ 104307) - far(x + 377);
    x += i * 129106 + (x ^ 104398) - far(x + 378);
    x += i * 129183 + (x ^ 104489) - far(x + 379);
    x += i * 129260 + (x ^ 104580) - far(x + 380);
    x += i * 129337 + (x ^ 104671) - far(x + 381);
    x += i * 129414 + (x ^ 104762) - far(x + 382);
    x += i * 129491 + (x ^ 104853) - far(x + 383);
    x += i * 129568 + (x ^ 104944) - far(x + 384);
    x += i * 129645 + (x ^ 105035) - far(x + 385);
    x += i * 129722 + (x ^ 105126) - far(x + 386);
    x += i * 129799 + (x ^ 105217) - far(x + 387);
    x += i * 129876 + (x ^ 105308) - far(x + 388);
    x += i * 129953 + (x ^ 105399) - far(x + 389);
    x += i * 130030 + (x ^ 105490) - far(x + 390);
    x += i * 130107 + (x ^ 105581) - far(x + 391);
    x += i * 130184 + (x ^ 105672) - far(x + 392);
    x += i * 130261 + (x ^ 105763) - far(x + 393);
    x += i * 130338 + (x ^ 105854) - far(x + 394);
    x += i * 130415 + (x ^ 105945) - far(x + 395);
    x += i * 130492 + (x ^ 106036) - far(x + 396);
    x += i * 130569 + (x ^ 106127) - far(x + 397);
    x += i * 130646 + (x ^ 106218) - far(x + 398);
    x += i * 130723 + (x ^ 106309) - far(x + 399);
    x += i * 130800 + (x ^ 106400) - far(x + 400);
    x += i * 130877 + (x ^ 106491) - far(x + 401);
    x += i * 130954 + (x ^ 106582) - far(x + 402);
    x += i * 131031 + (x ^ 106673) - far(x + 403);
    x += i * 131108 + (x ^ 106764) - far(x + 404);
    x += i * 131185 + (x ^ 106855) - far(x + 405);
    x += i * 131262 + (x ^ 106946) - far(x + 406);
    x += i * 131339 + (x ^ 107037) - far(x + 407);
    x += i * 131416 + (x ^ 107128) - far(x + 408);
    x += i * 131493 + (x ^ 107219) - far(x + 409);
    x += i * 131570 + (x ^ 107310) - far(x + 410);
    x += i * 131647 + (x ^ 107401) - far(x + 411);
    x += i * 131724 + (x ^ 107492) - far(x + 412);
    x += i * 131801 + (x ^ 107583) - far(x + 413);
    x += i * 131878 + (x ^ 107674) - far(x + 414);
    x += i * 131955 + (x ^ 107765) - far(x + 415);
    x += i * 132032 + (x ^ 107856) - far(x + 416);
    x += i * 132109 + (x ^ 107947) - far(x + 417);
    x += i * 132186 + (x ^ 108038) - far(x + 418);
    x += i * 132263 + (x ^ 108129) - far(x + 419);
    x += i * 132340 + (x ^ 108220) - far(x + 420);
    x += i * 132417 + (x ^ 108311) - far(x + 421);
    x += i * 132494 + (x ^ 108402) - far(x + 422);
    x += i * 132571 + (x ^ 108493) - far(x + 423);
    x += i * 132648 + (x ^ 108584) - far(x + 424);
    x += i * 132725 + (x ^ 108675) - far(x + 425);
    x += i * 132802 + (x ^ 108766) - far(x + 426);
    x += i * 132879 + (x ^ 108857) - far(x + 427);
    x += i * 132956 + (x ^ 108948) - far(x + 428);
    x += i * 133033 + (x ^ 109039) - far(x + 429);
    x += i * 133110 + (x ^ 109130) - far(x + 430);
    x += i * 133187 + (x ^ 109221) - far(x + 431);
    x += i * 133264 + (x ^ 109312) - far(x + 432);
    x += i * 133341 + (x ^ 109403) - far(x + 433);
    x += i * 133418 + (x ^ 109494) - far(x + 434);
    x += i * 133495 + (x ^ 109585) - far(x + 435);
    x += i * 133572 + (x ^ 109676) - far(x + 436);
    x += i * 133649 + (x ^ 109767) - far(x + 437);
    x += i * 133726 + (x ^ 109858) - far(x + 438);
    x += i * 133803 + (x ^ 109949) - far(x + 439);
    x += i * 133880 + (x ^ 110040) - far(x + 440);
    x += i * 133957 + (x ^ 110131) - far(x + 441);
    x += i * 134034 + (x ^ 110222) - far(x + 442);
    x += i * 134111 + (x ^ 110313) - far(x + 443);
    x += i * 134188 + (x ^ 110404) - far(x + 444);
    x += i * 134265 + (x ^ 110495) - far(x + 445);
    x += i * 134342 + (x ^ 110586) - far(x + 446);
    x += i * 134419 + (x ^ 110677) - far(x + 447);
    x += i * 134496 + (x ^ 110768) - far(x + 448);
    x += i * 134573 + (x ^ 110859) - far(x + 449);
    x += i * 134650 + (x ^ 110950) - far(x + 450);
    x += i * 134727 + (x ^ 111041) - far(x + 451);
    x += i * 134804 + (x ^ 111132) - far(x + 452);
    x += i * 134881 + (x ^ 111223) - far(x + 453);
    x += i * 134958 + (x ^ 111314) - far(x + 454);
    x += i * 135035 + (x ^ 111405) - far(x + 455);
    x += i * 135112 + (x ^ 111496) - far(x + 456);
    x += i * 135189 + (x ^ 111587) - far(x + 457);
    x += i * 135266 + (x ^ 111678) - far(x + 458);
    x += i * 135343 + (x ^ 111769) - far(x + 459);
    x += i * 135420 + (x ^ 111860) - far(x + 460);
    x += i * 135497 + (x ^ 111951) - far(x + 461);
    x += i * 135574 + (x ^ 112042) - far(x + 462);
    x += i * 135651 + (x ^ 112133) - far(x + 463);
    x += i * 135728 + (x ^ 112224) - far(x + 464);
    x += i * 135805 + (x ^ 112315) - far(x + 465);
    x += i * 135882 + (x ^ 112406) - far(x + 466);
    x += i * 135959 + (x ^ 112497) - far(x + 467);
    x += i * 136036 + (x ^ 112588) - far(x + 468);
    x += i * 136113 + (x ^ 112679) - far(x + 469);
    x += i * 136190 + (x ^ 112770) - far(x + 470);
    x += i * 136267 + (x ^ 112861) - far(x + 471);
    x += i * 136344 + (x ^ 112952) - far(x + 472);
    x += i * 136421 + (x ^ 113043) - far(x + 473);
    x += i * 136498 + (x ^ 113134) - far(x + 474);
    x += i * 136575 + (x ^ 113225) - far(x + 475);
    x += i * 136652 + (x ^ 113316) - far(x + 476);
    x += i * 136729 + (x ^ 113407) - far(x + 477);
    x += i * 136806 + (x ^ 113498) - far(x + 478);
    x += i * 136883 + (x ^ 113589) - far(x + 479);
    x += i * 136960 + (x ^ 113680) - far(x + 480);
    x += i * 137037 + (x ^ 113771) - far(x + 481);
    x += i * 137114 + (x ^ 113862) - far(x + 482);
    x += i * 137191 + (x ^ 113953) - far(x + 483);
    x += i * 137268 + (x ^ 114044) - far(x + 484);
    x += i * 137345 + (x ^ 114135) - far(x + 485);
    x += i * 137422 + (x ^ 114226) - far(x + 486);
    x += i * 137499 + (x ^ 114317) - far(x + 487);
    x += i * 137576 + (x ^ 114408) - far(x + 488);
    x += i * 137653 + (x ^ 114499) - far(x + 489);
    x += i * 137730 + (x ^ 114590) - far(x + 490);
    x += i * 137807 + (x ^ 114681) - far(x + 491);
    x += i * 137884 + (x ^ 114772) - far(x + 492);
    x += i * 137961 + (x ^ 114863) - far(x + 493);
    x += i * 138038 + (x ^ 114954) - far(x + 494);
    x += i * 138115 + (x ^ 115045) - far(x + 495);
    x += i * 138192 + (x ^ 115136) - far(x + 496);
    x += i * 138269 + (x ^ 115227) - far(x + 497);
    x += i * 138346 + (x ^ 115318) - far(x + 498);
    x += i * 138423 + (x ^ 115409) - far(x + 499);
    x += i * 138500 + (x ^ 115500) - far(x + 500);
    x += i * 138577 + (x ^ 115591) - far(x + 501);
    x += i * 138654 + (x ^ 115682) - far(x + 502);
    x += i * 138731 + (x ^ 115773) - far(x + 503);
    x += i * 138808 + (x ^ 115864) - far(x + 504);
    x += i * 138885 + (x ^ 115955) - far(x + 505);
    x += i * 138962 + (x ^ 116046) - far(x + 506);
    x += i * 139039 + (x ^ 116137) - far(x + 507);
    x += i * 139116 + (x ^ 116228) - far(x + 508);
    x += i * 139193 + (x ^ 116319) - far(x + 509);
    x += i * 139270 + (x ^ 116410) - far(x + 510);
    x += i * 139347 + (x ^ 116501) - far(x + 511);
    x += i * 139424 + (x ^ 116592) - far(x + 512);
    x += i * 139501 + (x ^ 116683) - far(x + 513);
    x += i * 139578 + (x ^ 116774) - far(x + 514);
    x += i * 139655 + (x ^ 116865) - far(x + 515);
    x += i * 139732 + (x ^ 116956) - far(x + 516);
    x += i * 139809 + (x ^ 117047) - far(x + 517);
    x += i * 139886 + (x ^ 117138) - far(x + 518);
    x += i * 139963 + (x ^ 117229) - far(x + 519);
    x += i * 140040 + (x ^ 117320) - far(x + 520);
    x += i * 140117 + (x ^ 117411) - far(x + 521);
    x += i * 140194 + (x ^ 117502) - far(x + 522);
    x += i * 140271 + (x ^ 117593) - far(x + 523);
    x += i * 140348 + (x ^ 117684) - far(x + 524);
    x += i * 140425 + (x ^ 117775) - far(x + 525);
    x += i * 140502 + (x ^ 117866) - far(x + 526);
    x += i * 140579 + (x ^ 117957) - far(x + 527);
    x += i * 140656 + (x ^ 118048) - far(x + 528);
    x += i * 140733 + (x ^ 118139) - far(x + 529);
    x += i * 140810 + (x ^ 118230) - far(x + 530);
    x += i * 140887 + (x ^ 118321) - far(x + 531);
    x += i * 140964 + (x ^ 118412) - far(x + 532);
    x += i * 141041 + (x ^ 118503) - far(x + 533);
    x += i * 141118 + (x ^ 118594) - far(x + 534);
    x += i * 141195 + (x ^ 118685) - far(x + 535);
    x += i * 141272 + (x ^ 118776) - far(x + 536);
    x += i * 141349 + (x ^ 118867) - far(x + 537);
    x += i * 141426 + (x ^ 118958) - far(x + 538);
    x += i * 141503 + (x ^ 119049) - far(x + 539);
    x += i * 141580 + (x ^ 119140) - far(x + 540);
    x += i * 141657 + (x ^ 119231) - far(x + 541);
    x += i * 141734 + (x ^ 119322) - far(x + 542);
    x += i * 141811 + (x ^ 119413) - far(x + 543);
    x += i * 141888 + (x ^ 119504) - far(x + 544);
    x += i * 141965 + (x ^ 119595) - far(x + 545);
    x += i * 142042 + (x ^ 119686) - far(x + 546);
    x += i * 142119 + (x ^ 119777) - far(x + 547);
    x += i * 142196 + (x ^ 119868) - far(x + 548);
    x += i * 142273 + (x ^ 119959) - far(x + 549);
    x += i * 142350 + (x ^ 120050) - far(x + 550);
    x += i * 142427 + (x ^ 120141) - far(x + 551);
    x += i * 142504 + (x ^ 120232) - far(x + 552);
    x += i * 142581 + (x ^ 120323) - far(x + 553);
    x += i * 142658 + (x ^ 120414) - far(x + 554);
    x += i * 142735 + (x ^ 120505) - far(x + 555);
    x += i * 142812 + (x ^ 120596) - far(x + 556);
    x += i * 142889 + (x ^ 120687) - far(x + 557);
    x += i * 142966 + (x ^ 120778) - far(x + 558);
    x += i * 143043 + (x ^ 120869) - far(x + 559);
    x += i * 143120 + (x ^ 120960) - far(x + 560);
    x += i * 143197 + (x ^ 121051) - far(x + 561);
    x += i * 143274 + (x ^ 121142) - far(x + 562);
    x += i * 143351 + (x ^ 121233) - far(x + 563);
    x += i * 143428 + (x ^ 121324) - far(x + 564);
    x += i * 143505 + (x ^ 121415) - far(x + 565);
    x += i * 143582 + (x ^ 121506) - far(x + 566);
    x += i * 143659 + (x ^ 121597) - far(x + 567);
    x += i * 143736 + (x ^ 121688) - far(x + 568);
    x += i * 143813 + (x ^ 121779) - far(x + 569);
    x += i * 143890 + (x ^ 121870) - far(x + 570);
    x += i * 143967 + (x ^ 121961) - far(x + 571);
    x += i * 144044 + (x ^ 122052) - far(x + 572);
    x += i * 144121 + (x ^ 122143) - far(x + 573);
    x += i * 144198 + (x ^ 122234) - far(x + 574);
    x += i * 144275 + (x ^ 122325) - far(x + 575);
    x += i * 144352 + (x ^ 122416) - far(x + 576);
    x += i * 144429 + (x ^ 122507) - far(x + 577);
    x += i * 144506 + (x ^ 122598) - far(x + 578);
    x += i * 144583 + (x ^ 122689) - far(x + 579);
    x += i * 144660 + (x ^ 122780) - far(x + 580);
    x += i * 144737 + (x ^ 122871) - far(x + 581);
    x += i * 144814 + (x ^ 122962) - far(x + 582);
    x += i * 144891 + (x ^ 123053) - far(x + 583);
    x += i * 144968 + (x ^ 123144) - far(x + 584);
    x += i * 145045 + (x ^ 123235) - far(x + 585);
    x += i * 145122 + (x ^ 123326) - far(x + 586);
    x += i * 145199 + (x ^ 123417) - far(x + 587);
    x += i * 145276 + (x ^ 123508) - far(x + 588);
    x += i * 145353 + (x ^ 123599) - far(x + 589);
    x += i * 145430 + (x ^ 123690) - far(x + 590);
    x += i * 145507 + (x ^ 123781) - far(x + 591);
    x += i * 145584 + (x ^ 123872) - far(x + 592);
    x += i * 145661 + (x ^ 123963) - far(x + 593);
    x += i * 145738 + (x ^ 124054) - far(x + 594);
    x += i * 145815 + (x ^ 124145) - far(x + 595);
    x += i * 145892 + (x ^ 124236) - far(x + 596);
    x += i * 145969 + (x ^ 124327) - far(x + 597);
    x += i * 146046 + (x ^ 124418) - far(x + 598);
    x += i * 146123 + (x ^ 124509) - far(x + 599);
    x += i * 146200 + (x ^ 124600) - far(x + 600);
    x += i * 146277 + (x ^ 124691) - far(x + 601);
    x += i * 146354 + (x ^ 124782) - far(x + 602);
    x += i * 146431 + (x ^ 124873) - far(x + 603);
    x += i * 146508 + (x ^ 124964) - far(x + 604);
    x += i * 146585 + (x ^ 125055) - far(x + 605);
    x += i * 146662 + (x ^ 125146) - far(x + 606);
    x += i * 146739 + (x ^ 125237) - far(x + 607);
    x += i * 146816 + (x ^ 125328) - far(x + 608);
    x += i * 146893 + (x ^ 125419) - far(x + 609);
    x += i * 146970 + (x ^ 125510) - far(x + 610);
    x += i * 147047 + (x ^ 125601) - far(x + 611);
    x += i * 147124 + (x ^ 125692) - far(x + 612);
    x += i * 147201 + (x ^ 125783) - far(x + 613);
    x += i * 147278 + (x ^ 125874) - far(x + 614);
    x += i * 147355 + (x ^ 125965) - far(x + 615);
    x += i * 147432 + (x ^ 126056) - far(x + 616);
    x += i * 147509 + (x ^ 126147) - far(x + 617);
    x += i * 147586 + (x ^ 126238) - far(x + 618);
    x += i * 147663 + (x ^ 126329) - far(x + 619);
    x += i * 147740 + (x ^ 126420) - far(x + 620);
    x += i * 147817 + (x ^ 126511) - far(x + 621);
    x += i * 147894 + (x ^ 126602) - far(x + 622);
    x += i * 147971 + (x ^ 126693) - far(x + 623);
    x += i * 148048 + (x ^ 126784) - far(x + 624);
    x += i * 148125 + (x ^ 126875) - far(x + 625);
    x += i * 148202 + (x ^ 126966) - far(x + 626);
    x += i * 148279 + (x ^ 127057) - far(x + 627);
    x += i * 148356 + (x ^ 127148) - far(x + 628);
    x += i * 148433 + (x ^ 127239) - far(x + 629);
    x += i * 148510 + (x ^ 127330) - far(x + 630);
    x += i * 148587 + (x ^ 127421) - far(x + 631);
    x += i * 148664 + (x ^ 127512) - far(x + 632);
    x += i * 148741 + (x ^ 127603) - far(x + 633);
    x += i * 148818 + (x ^ 127694) - far(x + 634);
    x += i * 148895 + (x ^ 127785) - far(x + 635);
    x += i * 148972 + (x ^ 127876) - far(x + 636);
    x += i * 149049 + (x ^ 127967) - far(x + 637);
    x += i * 149126 + (x ^ 128058) - far(x + 638);
    x += i * 149203 + (x ^ 128149) - far(x + 639);
    x += i * 149280 + (x ^ 128240) - far(x + 640);
    x += i * 149357 + (x ^ 128331) - far(x + 641);
    x += i * 149434 + (x ^ 128422) - far(x + 642);
    x += i * 149511 + (x ^ 128513) - far(x + 643);
    x += i * 149588 + (x ^ 128604) - far(x + 644);
    x += i * 149665 + (x ^ 128695) - far(x + 645);
    x += i * 149742 + (x ^ 128786) - far(x + 646);
    x += i * 149819 + (x ^ 128877) - far(x + 647);
    x += i * 149896 + (x ^ 128968) - far(x + 648);
    x += i * 149973 + (x ^ 129059) - far(x + 649);
    x += i * 150050 + (x ^ 129150) - far(x + 650);
    x += i * 150127 + (x ^ 129241) - far(x + 651);
    x += i * 150204 + (x ^ 129332) - far(x + 652);
    x += i * 150281 + (x ^ 129423) - far(x + 653);
    x += i * 150358 + (x ^ 129514) - far(x + 654);
    x += i * 150435 + (x ^ 129605) - far(x + 655);
    x += i * 150512 + (x ^ 129696) - far(x + 656);
    x += i * 150589 + (x ^ 129787) - far(x + 657);
    x += i * 150666 + (x ^ 129878) - far(x + 658);
    x += i * 150743 + (x ^ 129969) - far(x + 659);
    x += i * 150820 + (x ^ 130060) - far(x + 660);
    x += i * 150897 + (x ^ 130151) - far(x + 661);
    x += i * 150974 + (x ^ 130242) - far(x + 662);
    x += i * 151051 + (x ^ 130333) - far(x + 663);
    x += i * 151128 + (x ^ 130424) - far(x + 664);
    x += i * 151205 + (x ^ 130515) - far(x + 665);
    x += i * 151282 + (x ^ 130606) - far(x + 666);
    x += i * 151359 + (x ^ 130697) - far(x + 667);
    x += i * 151436 + (x ^ 130788) - far(x + 668);
    x += i * 151513 + (x ^ 130879) - far(x + 669);
    x += i * 151590 + (x ^ 130970) - far(x + 670);
    x += i * 151667 + (x ^ 131061) - far(x + 671);
    x += i * 151744 + (x ^ 131152) - far(x + 672);
    x += i * 151821 + (x ^ 131243) - far(x + 673);
    x += i * 151898 + (x ^ 131334) - far(x + 674);
    x += i * 151975 + (x ^ 131425) - far(x + 675);
    x += i * 152052 + (x ^ 131516) - far(x + 676);
    x += i * 152129 + (x ^ 131607) - far(x + 677);
    x += i * 152206 + (x ^ 131698) - far(x + 678);
    x += i * 152283 + (x ^ 131789) - far(x + 679);
    x += i * 152360 + (x ^ 131880) - far(x + 680);
    x += i * 152437 + (x ^ 131971) - far(x + 681);
    x += i * 152514 + (x ^ 132062) - far(x + 682);
    x += i * 152591 + (x ^ 132153) - far(x + 683);
    x += i * 152668 + (x ^ 132244) - far(x + 684);
    x += i * 152745 + (x ^ 132335) - far(x + 685);
    x += i * 152822 + (x ^ 132426) - far(x + 686);
    x += i * 152899 + (x ^ 132517) - far(x + 687);
    x += i * 152976 + (x ^ 132608) - far(x + 688);
    x += i * 153053 + (x ^ 132699) - far(x + 689);
    x += i * 153130 + (x ^ 132790) - far(x + 690);
    x += i * 153207 + (x ^ 132881) - far(x + 691);
    x += i * 153284 + (x ^ 132972) - far(x + 692);
    x += i * 153361 + (x ^ 133063) - far(x + 693);
    x += i * 153438 + (x ^ 133154) - far(x + 694);
    x += i * 153515 + (x ^ 133245) - far(x + 695);
    x += i * 153592 + (x ^ 133336) - far(x + 696);
    x += i * 153669 + (x ^ 133427) - far(x + 697);
    x += i * 153746 + (x ^ 133518) - far(x + 698);
    x += i * 153823 + (x ^ 133609) - far(x + 699);
    x += i * 153900 + (x ^ 133700) - far(x + 700);
    x += i * 153977 + (x ^ 133791) - far(x + 701);
    x += i * 154054 + (x ^ 133882) - far(x + 702);
    x += i * 154131 + (x ^ 133973) - far(x + 703);
    x += i * 154208 + (x ^ 134064) - far(x + 704);
    x += i * 154285 + (x ^ 134155) - far(x + 705);
    x += i * 154362 + (x ^ 134246) - far(x + 706);
    x += i * 154439 + (x ^ 134337) - far(x + 707);
    x += i * 154516 + (x ^ 134428) - far(x + 708);
    x += i * 154593 + (x ^ 134519) - far(x + 709);
    x += i * 154670 + (x ^ 134610) - far(x + 710);
    x += i * 154747 + (x ^ 134701) - far(x + 711);
    x += i * 154824 + (x ^ 134792) - far(x + 712);
    x += i * 154901 + (x ^ 134883) - far(x + 713);
    x += i * 154978 + (x ^ 134974) - far(x + 714);
    x += i * 155055 + (x ^ 135065) - far(x + 715);
    x += i * 155132 + (x ^ 135156) - far(x + 716);
    x += i * 155209 + (x ^ 135247) - far(x + 717);
    x += i * 155286 + (x ^ 135338) - far(x + 718);
    x += i * 155363 + (x ^ 135429) - far(x + 719);
    x += i * 155440 + (x ^ 135520) - far(x + 720);
    x += i * 155517 + (x ^ 135611) - far(x + 721);
    x += i * 155594 + (x ^ 135702) - far(x + 722);
    x += i * 155671 + (x ^ 135793) - far(x + 723);
    x += i * 155748 + (x ^ 135884) - far(x + 724);
    x += i * 155825 + (x ^ 135975) - far(x + 725);
    x += i * 155902 + (x ^ 136066) - far(x + 726);
    x += i * 155979 + (x ^ 136157) - far(x + 727);
    x += i * 156056 + (x ^ 136248) - far(x + 728);
    x += i * 156133 + (x ^ 136339) - far(x + 729);
    x += i * 156210 + (x ^ 136430) - far(x + 730);
    x += i * 156287 + (x ^ 136521) - far(x + 731);
    x += i * 156364 + (x ^ 136612) - far(x + 732);
    x += i * 156441 + (x ^ 136703) - far(x + 733);
    x += i * 156518 + (x ^ 136794) - far(x + 734);
    x += i * 156595 + (x ^ 136885) - far(x + 735);
    x += i * 156672 + (x ^ 136976) - far(x + 736);
    x += i * 156749 + (x ^ 137067) - far(x + 737);
    x += i * 156826 + (x ^ 137158) - far(x + 738);
    x += i * 156903 + (x ^ 137249) - far(x + 739);
    x += i * 156980 + (x ^ 137340) - far(x + 740);
    x += i * 157057 + (x ^ 137431) - far(x + 741);
    x += i * 157134 + (x ^ 137522) - far(x + 742);
    x += i * 157211 + (x ^ 137613) - far(x + 743);
    x += i * 157288 + (x ^ 137704) - far(x + 744);
    x += i * 157365 + (x ^ 137795) - far(x + 745);
    x += i * 157442 + (x ^ 137886) - far(x + 746);
    x += i * 157519 + (x ^ 137977) - far(x + 747);
    x += i * 157596 + (x ^ 138068) - far(x + 748);
    x += i * 157673 + (x ^ 138159) - far(x + 749);
    x += i * 157750 + (x ^ 138250) - far(x + 750);
    x += i * 157827 + (x ^ 138341) - far(x + 751);
    x += i * 157904 + (x ^ 138432) - far(x + 752);
    x += i * 157981 + (x ^ 138523) - far(x + 753);
    x += i * 158058 + (x ^ 138614) - far(x + 754);
    x += i * 158135 + (x ^ 138705) - far(x + 755);
    x += i * 158212 + (x ^ 138796) - far(x + 756);
    x += i * 158289 + (x ^ 138887) - far(x + 757);
    x += i * 158366 + (x ^ 138978) - far(x + 758);
    x += i * 158443 + (x ^ 139069) - far(x + 759);
    x += i * 158520 + (x ^ 139160) - far(x + 760);
    x += i * 158597 + (x ^ 139251) - far(x + 761);
    x += i * 158674 + (x ^ 139342) - far(x + 762);
    x += i * 158751 + (x ^ 139433) - far(x + 763);
    x += i * 158828 + (x ^ 139524) - far(x + 764);
    x += i * 158905 + (x ^ 139615) - far(x + 765);
    x += i * 158982 + (x ^ 139706) - far(x + 766);
    x += i * 159059 + (x ^ 139797) - far(x + 767);
    x += i * 159136 + (x ^ 139888) - far(x + 768);
    x += i * 159213 + (x ^ 139979) - far(x + 769);
    x += i * 159290 + (x ^ 140070) - far(x + 770);
    x += i * 159367 + (x ^ 140161) - far(x + 771);
    x += i * 159444 + (x ^ 140252) - far(x + 772);
    x += i * 159521 + (x ^ 140343) - far(x + 773);
    x += i * 159598 + (x ^ 140434) - far(x + 774);
    x += i * 159675 + (x ^ 140525) - far(x + 775);
    x += i * 159752 + (x ^ 140616) - far(x + 776);
    x += i * 159829 + (x ^ 140707) - far(x + 777);
    x += i * 159906 + (x ^ 140798) - far(x + 778);
    x += i * 159983 + (x ^ 140889) - far(x + 779);
    x += i * 160060 + (x ^ 140980) - far(x + 780);
    x += i * 160137 + (x ^ 141071) - far(x + 781);
    x += i * 160214 + (x ^ 141162) - far(x + 782);
    x += i * 160291 + (x ^ 141253) - far(x + 783);
    x += i * 160368 + (x ^ 141344) - far(x + 784);
    x += i * 160445 + (x ^ 141435) - far(x + 785);
    x += i * 160522 + (x ^ 141526) - far(x + 786);
    x += i * 160599 + (x ^ 141617) - far(x + 787);
    x += i * 160676 + (x ^ 141708) - far(x + 788);
    x += i * 160753 + (x ^ 141799) - far(x + 789);
    x += i * 160830 + (x ^ 141890) - far(x + 790);
    x += i * 160907 + (x ^ 141981) - far(x + 791);
    x += i * 160984 + (x ^ 142072) - far(x + 792);
    x += i * 161061 + (x ^ 142163) - far(x + 793);
    x += i * 161138 + (x ^ 142254) - far(x + 794);
    x += i * 161215 + (x ^ 142345) - far(x + 795);
    x += i * 161292 + (x ^ 142436) - far(x + 796);
    x += i * 161369 + (x ^ 142527) - far(x + 797);
    x += i * 161446 + (x ^ 142618) - far(x + 798);
    x += i * 161523 + (x ^ 142709) - far(x + 799);
    x += i * 161600 + (x ^ 142800) - far(x + 800);
    x += i * 161677 + (x ^ 142891) - far(x + 801);
    x += i * 161754 + (x ^ 142982) - far(x + 802);
    x += i * 161831 + (x ^ 143073) - far(x + 803);
    x += i * 161908 + (x ^ 143164) - far(x + 804);
    x += i * 161985 + (x ^ 143255) - far(x + 805);
    x += i * 162062 + (x ^ 143346) - far(x + 806);
    x += i * 162139 + (x ^ 143437) - far(x + 807);
    x += i * 162216 + (x ^ 143528) - far(x + 808);
    x += i * 162293 + (x ^ 143619) - far(x + 809);
    x += i * 162370 + (x ^ 143710) - far(x + 810);
    x += i * 162447 + (x ^ 143801) - far(x + 811);
    x += i * 162524 + (x ^ 143892) - far(x + 812);
    x += i * 162601 + (x ^ 143983) - far(x + 813);
    x += i * 162678 + (x ^ 144074) - far(x + 814);
    x += i * 162755 + (x ^ 144165) - far(x + 815);
    x += i * 162832 + (x ^ 144256) - far(x + 816);
    x += i * 162909 + (x ^ 144347) - far(x + 817);
    x += i * 162986 + (x ^ 144438) - far(x + 818);
    x += i * 163063 + (x ^ 144529) - far(x + 819);
    x += i * 163140 + (x ^ 144620) - far(x + 820);
    x += i * 163217 + (x ^ 144711) - far(x + 821);
    x += i * 163294 + (x ^ 144802) - far(x + 822);
    x += i * 163371 + (x ^ 144893) - far(x + 823);
    x += i * 163448 + (x ^ 144984) - far(x + 824);
    x += i * 163525 + (x ^ 145075) - far(x + 825);
    x += i * 163602 + (x ^ 145166) - far(x + 826);
    x += i * 163679 + (x ^ 145257) - far(x + 827);
    x += i * 163756 + (x ^ 145348) - far(x + 828);
    x += i * 163833 + (x ^ 145439) - far(x + 829);
    x += i * 163910 + (x ^ 145530) - far(x + 830);
    x += i * 163987 + (x ^ 145621) - far(x + 831);
    x += i * 164064 + (x ^ 145712) - far(x + 832);
    x += i * 164141 + (x ^ 145803) - far(x + 833);
    x += i * 164218 + (x ^ 145894) - far(x + 834);
    x += i * 164295 + (x ^ 145985) - far(x + 835);
    x += i * 164372 + (x ^ 146076) - far(x + 836);
    x += i * 164449 + (x ^ 146167) - far(x + 837);
    x += i * 164526 + (x ^ 146258) - far(x + 838);
    x += i * 164603 + (x ^ 146349) - far(x + 839);
    x += i * 164680 + (x ^ 146440) - far(x + 840);
    x += i * 164757 + (x ^ 146531) - far(x + 841);
    x += i * 164834 + (x ^ 146622) - far(x + 842);
    x += i * 164911 + (x ^ 146713) - far(x + 843);
    x += i * 164988 + (x ^ 146804) - far(x + 844);
    x += i * 165065 + (x ^ 146895) - far(x + 845);
    x += i * 165142 + (x ^ 146986) - far(x + 846);
    x += i * 165219 + (x ^ 147077) - far(x + 847);
    x += i * 165296 + (x ^ 147168) - far(x + 848);
    x += i * 165373 + (x ^ 147259) - far(x + 849);
    x += i * 165450 + (x ^ 147350) - far(x + 850);
    x += i * 165527 + (x ^ 147441) - far(x + 851);
    x += i * 165604 + (x ^ 147532) - far(x + 852);
    x += i * 165681 + (x ^ 147623) - far(x + 853);
    x += i * 165758 + (x ^ 147714) - far(x + 854);
    x += i * 165835 + (x ^ 147805) - far(x + 855);
    x += i * 165912 + (x ^ 147896) - far(x + 856);
    x += i * 165989 + (x ^ 147987) - far(x + 857);
    x += i * 166066 + (x ^ 148078) - far(x + 858);
    x += i * 166143 + (x ^ 148169) - far(x + 859);
    x += i * 166220 + (x ^ 148260) - far(x + 860);
    x += i * 166297 + (x ^ 148351) - far(x + 861);
    x += i * 166374 + (x ^ 148442) - far(x + 862);
    x += i * 166451 + (x ^ 148533) - far(x + 863);
    x += i * 166528 + (x ^ 148624) - far(x + 864);
    x += i * 166605 + (x ^ 148715) - far(x + 865);
    x += i * 166682 + (x ^ 148806) - far(x + 866);
    x += i * 166759 + (x ^ 148897) - far(x + 867);
    x += i * 166836 + (x ^ 148988) - far(x + 868);
    x += i * 166913 + (x ^ 149079) - far(x + 869);
    x += i * 166990 + (x ^ 149170) - far(x + 870);
    x += i * 167067 + (x ^ 149261) - far(x + 871);
    x += i * 167144 + (x ^ 149352) - far(x + 872);
    x += i * 167221 + (x ^ 149443) - far(x + 873);
    x += i * 167298 + (x ^ 149534) - far(x + 874);
    x += i * 167375 + (x ^ 149625) - far(x + 875);
    x += i * 167452 + (x ^ 149716) - far(x + 876);
    x += i * 167529 + (x ^ 149807) - far(x + 877);
    x += i * 167606 + (x ^ 149898) - far(x + 878);
    x += i * 167683 + (x ^ 149989) - far(x + 879);
    x += i * 167760 + (x ^ 150080) - far(x + 880);
    x += i * 167837 + (x ^ 150171) - far(x + 881);
    x += i * 167914 + (x ^ 150262) - far(x + 882);
    x += i * 167991 + (x ^ 150353) - far(x + 883);
    x += i * 168068 + (x ^ 150444) - far(x + 884);
    x += i * 168145 + (x ^ 150535) - far(x + 885);
    x += i * 168222 + (x ^ 150626) - far(x + 886);
    x += i * 168299 + (x ^ 150717) - far(x + 887);
    x += i * 168376 + (x ^ 150808) - far(x + 888);
    x += i * 168453 + (x ^ 150899) - far(x + 889);
    x += i * 168530 + (x ^ 150990) - far(x + 890);
    x += i * 168607 + (x ^ 151081) - far(x + 891);
    x += i * 168684 + (x ^ 151172) - far(x + 892);
    x += i * 168761 + (x ^ 151263) - far(x + 893);
    x += i * 168838 + (x ^ 151354) - far(x + 894);
    x += i * 168915 + (x ^ 151445) - far(x + 895);
    x += i * 168992 + (x ^ 151536) - far(x + 896);
    x += i * 169069 + (x ^ 151627) - far(x + 897);
    x += i * 169146 + (x ^ 151718) - far(x + 898);
    x += i * 169223 + (x ^ 151809) - far(x + 899);
  } } return x; }
}
