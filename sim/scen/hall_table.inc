{1, 1, "P 1", "P1", "", "P 1"},
{2, 2, "-P 1", "P-1", "", "P -1"},
{3, 3, "P 2y", "P2", "b", "P 1 2 1"},
{4, 3, "P 2", "P2", "c", "P 1 1 2"},
{5, 3, "P 2x", "P2", "a", "P 2 1 1"},
{6, 4, "P 2yb", "P2_1", "b", "P 1 2_1 1"},
{7, 4, "P 2c", "P2_1", "c", "P 1 1 2_1"},
{8, 4, "P 2xa", "P2_1", "a", "P 2_1 1 1"},
{9, 5, "C 2y", "C2", "b1", "C 1 2 1"},
{10, 5, "A 2y", "C2", "b2", "A 1 2 1"},
{11, 5, "I 2y", "C2", "b3", "I 1 2 1"},
{12, 5, "A 2", "C2", "c1", "A 1 1 2"},
{13, 5, "B 2", "C2", "c2", "B 1 1 2"},
{14, 5, "I 2", "C2", "c3", "I 1 1 2"},
{15, 5, "B 2x", "C2", "a1", "B 2 1 1"},
{16, 5, "C 2x", "C2", "a2", "C 2 1 1"},
{17, 5, "I 2x", "C2", "a3", "I 2 1 1"},
{18, 6, "P -2y", "Pm", "b", "P 1 m 1"},
{19, 6, "P -2", "Pm", "c", "P 1 1 m"},
{20, 6, "P -2x", "Pm", "a", "P m 1 1"},
{21, 7, "P -2yc", "Pc", "b1", "P 1 c 1"},
{22, 7, "P -2yac", "Pc", "b2", "P 1 n 1"},
{23, 7, "P -2ya", "Pc", "b3", "P 1 a 1"},
{24, 7, "P -2a", "Pc", "c1", "P 1 1 a"},
{25, 7, "P -2ab", "Pc", "c2", "P 1 1 n"},
{26, 7, "P -2b", "Pc", "c3", "P 1 1 b"},
{27, 7, "P -2xb", "Pc", "a1", "P b 1 1"},
{28, 7, "P -2xbc", "Pc", "a2", "P n 1 1"},
{29, 7, "P -2xc", "Pc", "a3", "P c 1 1"},
{30, 8, "C -2y", "Cm", "b1", "C 1 m 1"},
{31, 8, "A -2y", "Cm", "b2", "A 1 m 1"},
{32, 8, "I -2y", "Cm", "b3", "I 1 m 1"},
{33, 8, "A -2", "Cm", "c1", "A 1 1 m"},
{34, 8, "B -2", "Cm", "c2", "B 1 1 m"},
{35, 8, "I -2", "Cm", "c3", "I 1 1 m"},
{36, 8, "B -2x", "Cm", "a1", "B m 1 1"},
{37, 8, "C -2x", "Cm", "a2", "C m 1 1"},
{38, 8, "I -2x", "Cm", "a3", "I m 1 1"},
{39, 9, "C -2yc", "Cc", "b1", "C 1 c 1"},
{40, 9, "A -2yac", "Cc", "b2", "A 1 n 1"},
{41, 9, "I -2ya", "Cc", "b3", "I 1 a 1"},
{42, 9, "A -2ya", "Cc", "-b1", "A 1 a 1"},
{43, 9, "C -2ybc", "Cc", "-b2", "C 1 n 1"},
{44, 9, "I -2yc", "Cc", "-b3", "I 1 c 1"},
{45, 9, "A -2a", "Cc", "c1", "A 1 1 a"},
{46, 9, "B -2bc", "Cc", "c2", "B 1 1 n"},
{47, 9, "I -2b", "Cc", "c3", "I 1 1 b"},
{48, 9, "B -2b", "Cc", "-c1", "B 1 1 b"},
{49, 9, "A -2ac", "Cc", "-c2", "A 1 1 n"},
{50, 9, "I -2a", "Cc", "-c3", "I 1 1 a"},
{51, 9, "B -2xb", "Cc", "a1", "B b 1 1"},
{52, 9, "C -2xbc", "Cc", "a2", "C n 1 1"},
{53, 9, "I -2xc", "Cc", "a3", "I c 1 1"},
{54, 9, "C -2xc", "Cc", "-a1", "C c 1 1"},
{55, 9, "B -2xbc", "Cc", "-a2", "B n 1 1"},
{56, 9, "I -2xb", "Cc", "-a3", "I b 1 1"},
{57, 10, "-P 2y", "P2/m", "b", "P 1 2/m 1"},
{58, 10, "-P 2", "P2/m", "c", "P 1 1 2/m"},
{59, 10, "-P 2x", "P2/m", "a", "P 2/m 1 1"},
{60, 11, "-P 2yb", "P2_1/m", "b", "P 1 2_1/m 1"},
{61, 11, "-P 2c", "P2_1/m", "c", "P 1 1 2_1/m"},
{62, 11, "-P 2xa", "P2_1/m", "a", "P 2_1/m 1 1"},
{63, 12, "-C 2y", "C2/m", "b1", "C 1 2/m 1"},
{64, 12, "-A 2y", "C2/m", "b2", "A 1 2/m 1"},
{65, 12, "-I 2y", "C2/m", "b3", "I 1 2/m 1"},
{66, 12, "-A 2", "C2/m", "c1", "A 1 1 2/m"},
{67, 12, "-B 2", "C2/m", "c2", "B 1 1 2/m"},
{68, 12, "-I 2", "C2/m", "c3", "I 1 1 2/m"},
{69, 12, "-B 2x", "C2/m", "a1", "B 2/m 1 1"},
{70, 12, "-C 2x", "C2/m", "a2", "C 2/m 1 1"},
{71, 12, "-I 2x", "C2/m", "a3", "I 2/m 1 1"},
{72, 13, "-P 2yc", "P2/c", "b1", "P 1 2/c 1"},
{73, 13, "-P 2yac", "P2/c", "b2", "P 1 2/n 1"},
{74, 13, "-P 2ya", "P2/c", "b3", "P 1 2/a 1"},
{75, 13, "-P 2a", "P2/c", "c1", "P 1 1 2/a"},
{76, 13, "-P 2ab", "P2/c", "c2", "P 1 1 2/n"},
{77, 13, "-P 2b", "P2/c", "c3", "P 1 1 2/b"},
{78, 13, "-P 2xb", "P2/c", "a1", "P 2/b 1 1"},
{79, 13, "-P 2xbc", "P2/c", "a2", "P 2/n 1 1"},
{80, 13, "-P 2xc", "P2/c", "a3", "P 2/c 1 1"},
{81, 14, "-P 2ybc", "P2_1/c", "b1", "P 1 2_1/c 1"},
{82, 14, "-P 2yn", "P2_1/c", "b2", "P 1 2_1/n 1"},
{83, 14, "-P 2yab", "P2_1/c", "b3", "P 1 2_1/a 1"},
{84, 14, "-P 2ac", "P2_1/c", "c1", "P 1 1 2_1/a"},
{85, 14, "-P 2n", "P2_1/c", "c2", "P 1 1 2_1/n"},
{86, 14, "-P 2bc", "P2_1/c", "c3", "P 1 1 2_1/b"},
{87, 14, "-P 2xab", "P2_1/c", "a1", "P 2_1/b 1 1"},
{88, 14, "-P 2xn", "P2_1/c", "a2", "P 2_1/n 1 1"},
{89, 14, "-P 2xac", "P2_1/c", "a3", "P 2_1/c 1 1"},
{90, 15, "-C 2yc", "C2/c", "b1", "C 1 2/c 1"},
{91, 15, "-A 2yac", "C2/c", "b2", "A 1 2/n 1"},
{92, 15, "-I 2ya", "C2/c", "b3", "I 1 2/a 1"},
{93, 15, "-A 2ya", "C2/c", "-b1", "A 1 2/a 1"},
{94, 15, "-C 2ybc", "C2/c", "-b2", "C 1 2/n 1"},
{95, 15, "-I 2yc", "C2/c", "-b3", "I 1 2/c 1"},
{96, 15, "-A 2a", "C2/c", "c1", "A 1 1 2/a"},
{97, 15, "-B 2bc", "C2/c", "c2", "B 1 1 2/n"},
{98, 15, "-I 2b", "C2/c", "c3", "I 1 1 2/b"},
{99, 15, "-B 2b", "C2/c", "-c1", "B 1 1 2/b"},
{100, 15, "-A 2ac", "C2/c", "-c2", "A 1 1 2/n"},
{101, 15, "-I 2a", "C2/c", "-c3", "I 1 1 2/a"},
{102, 15, "-B 2xb", "C2/c", "a1", "B 2/b 1 1"},
{103, 15, "-C 2xbc", "C2/c", "a2", "C 2/n 1 1"},
{104, 15, "-I 2xc", "C2/c", "a3", "I 2/c 1 1"},
{105, 15, "-C 2xc", "C2/c", "-a1", "C 2/c 1 1"},
{106, 15, "-B 2xbc", "C2/c", "-a2", "B 2/n 1 1"},
{107, 15, "-I 2xb", "C2/c", "-a3", "I 2/b 1 1"},
{108, 16, "P 2 2", "P222", "", "P 2 2 2"},
{109, 17, "P 2c 2", "P222_1", "", "P 2 2 2_1"},
{110, 17, "P 2a 2a", "P2_122", "cab", "P 2_1 2 2"},
{111, 17, "P 2 2b", "P22_12", "bca", "P 2 2_1 2"},
{112, 18, "P 2 2ab", "P2_12_12", "", "P 2_1 2_1 2"},
{113, 18, "P 2bc 2", "P22_12_1", "cab", "P 2 2_1 2_1"},
{114, 18, "P 2ac 2ac", "P2_122_1", "bca", "P 2_1 2 2_1"},
{115, 19, "P 2ac 2ab", "P2_12_12_1", "", "P 2_1 2_1 2_1"},
{116, 20, "C 2c 2", "C222_1", "", "C 2 2 2_1"},
{117, 20, "A 2a 2a", "A2_122", "cab", "A 2_1 2 2"},
{118, 20, "B 2 2b", "B22_12", "bca", "B 2 2_1 2"},
{119, 21, "C 2 2", "C222", "", "C 2 2 2"},
{120, 21, "A 2 2", "A222", "cab", "A 2 2 2"},
{121, 21, "B 2 2", "B222", "bca", "B 2 2 2"},
{122, 22, "F 2 2", "F222", "", "F 2 2 2"},
{123, 23, "I 2 2", "I222", "", "I 2 2 2"},
{124, 24, "I 2b 2c", "I2_12_12_1", "", "I 2_1 2_1 2_1"},
{125, 25, "P 2 -2", "Pmm2", "", "P m m 2"},
{126, 25, "P -2 2", "P2mm", "cab", "P 2 m m"},
{127, 25, "P -2 -2", "Pm2m", "bca", "P m 2 m"},
{128, 26, "P 2c -2", "Pmc2_1", "", "P m c 2_1"},
{129, 26, "P 2c -2c", "Pcm2_1", "ba-c", "P c m 2_1"},
{130, 26, "P -2a 2a", "P2_1ma", "cab", "P 2_1 m a"},
{131, 26, "P -2 2a", "P2_1am", "-cba", "P 2_1 a m"},
{132, 26, "P -2 -2b", "Pb2_1m", "bca", "P b 2_1 m"},
{133, 26, "P -2b -2", "Pm2_1b", "a-cb", "P m 2_1 b"},
{134, 27, "P 2 -2c", "Pcc2", "", "P c c 2"},
{135, 27, "P -2a 2", "P2aa", "cab", "P 2 a a"},
{136, 27, "P -2b -2b", "Pb2b", "bca", "P b 2 b"},
{137, 28, "P 2 -2a", "Pma2", "", "P m a 2"},
{138, 28, "P 2 -2b", "Pbm2", "ba-c", "P b m 2"},
{139, 28, "P -2b 2", "P2mb", "cab", "P 2 m b"},
{140, 28, "P -2c 2", "P2cm", "-cba", "P 2 c m"},
{141, 28, "P -2c -2c", "Pc2m", "bca", "P c 2 m"},
{142, 28, "P -2a -2a", "Pm2a", "a-cb", "P m 2 a"},
{143, 29, "P 2c -2ac", "Pca2_1", "", "P c a 2_1"},
{144, 29, "P 2c -2b", "Pbc2_1", "ba-c", "P b c 2_1"},
{145, 29, "P -2b 2a", "P2_1ab", "cab", "P 2_1 a b"},
{146, 29, "P -2ac 2a", "P2_1ca", "-cba", "P 2_1 c a"},
{147, 29, "P -2bc -2c", "Pc2_1b", "bca", "P c 2_1 b"},
{148, 29, "P -2a -2ab", "Pb2_1a", "a-cb", "P b 2_1 a"},
{149, 30, "P 2 -2bc", "Pnc2", "", "P n c 2"},
{150, 30, "P 2 -2ac", "Pcn2", "ba-c", "P c n 2"},
{151, 30, "P -2ac 2", "P2na", "cab", "P 2 n a"},
{152, 30, "P -2ab 2", "P2an", "-cba", "P 2 a n"},
{153, 30, "P -2ab -2ab", "Pb2n", "bca", "P b 2 n"},
{154, 30, "P -2bc -2bc", "Pn2b", "a-cb", "P n 2 b"},
{155, 31, "P 2ac -2", "Pmn2_1", "", "P m n 2_1"},
{156, 31, "P 2bc -2bc", "Pnm2_1", "ba-c", "P n m 2_1"},
{157, 31, "P -2ab 2ab", "P2_1mn", "cab", "P 2_1 m n"},
{158, 31, "P -2 2ac", "P2_1nm", "-cba", "P 2_1 n m"},
{159, 31, "P -2 -2bc", "Pn2_1m", "bca", "P n 2_1 m"},
{160, 31, "P -2ab -2", "Pm2_1n", "a-cb", "P m 2_1 n"},
{161, 32, "P 2 -2ab", "Pba2", "", "P b a 2"},
{162, 32, "P -2bc 2", "P2cb", "cab", "P 2 c b"},
{163, 32, "P -2ac -2ac", "Pc2a", "bca", "P c 2 a"},
{164, 33, "P 2c -2n", "Pna2_1", "", "P n a 2_1"},
{165, 33, "P 2c -2ab", "Pbn2_1", "ba-c", "P b n 2_1"},
{166, 33, "P -2bc 2a", "P2_1nb", "cab", "P 2_1 n b"},
{167, 33, "P -2n 2a", "P2_1cn", "-cba", "P 2_1 c n"},
{168, 33, "P -2n -2ac", "Pc2_1n", "bca", "P c 2_1 n"},
{169, 33, "P -2ac -2n", "Pn2_1a", "a-cb", "P n 2_1 a"},
{170, 34, "P 2 -2n", "Pnn2", "", "P n n 2"},
{171, 34, "P -2n 2", "P2nn", "cab", "P 2 n n"},
{172, 34, "P -2n -2n", "Pn2n", "bca", "P n 2 n"},
{173, 35, "C 2 -2", "Cmm2", "", "C m m 2"},
{174, 35, "A -2 2", "A2mm", "cab", "A 2 m m"},
{175, 35, "B -2 -2", "Bm2m", "bca", "B m 2 m"},
{176, 36, "C 2c -2", "Cmc2_1", "", "C m c 2_1"},
{177, 36, "C 2c -2c", "Ccm2_1", "ba-c", "C c m 2_1"},
{178, 36, "A -2a 2a", "A2_1ma", "cab", "A 2_1 m a"},
{179, 36, "A -2 2a", "A2_1am", "-cba", "A 2_1 a m"},
{180, 36, "B -2 -2b", "Bb2_1m", "bca", "B b 2_1 m"},
{181, 36, "B -2b -2", "Bm2_1b", "a-cb", "B m 2_1 b"},
{182, 37, "C 2 -2c", "Ccc2", "", "C c c 2"},
{183, 37, "A -2a 2", "A2aa", "cab", "A 2 a a"},
{184, 37, "B -2b -2b", "Bb2b", "bca", "B b 2 b"},
{185, 38, "A 2 -2", "Amm2", "", "A m m 2"},
{186, 38, "B 2 -2", "Bmm2", "ba-c", "B m m 2"},
{187, 38, "B -2 2", "B2mm", "cab", "B 2 m m"},
{188, 38, "C -2 2", "C2mm", "-cba", "C 2 m m"},
{189, 38, "C -2 -2", "Cm2m", "bca", "C m 2 m"},
{190, 38, "A -2 -2", "Am2m", "a-cb", "A m 2 m"},
{191, 39, "A 2 -2c", "Aem2", "", "A e m 2"},
{192, 39, "B 2 -2c", "Bme2", "ba-c", "B m e 2"},
{193, 39, "B -2c 2", "B2em", "cab", "B 2 e m"},
{194, 39, "C -2b 2", "C2me", "-cba", "C 2 m e"},
{195, 39, "C -2b -2b", "Cm2e", "bca", "C m 2 e"},
{196, 39, "A -2c -2c", "Ae2m", "a-cb", "A e 2 m"},
{197, 40, "A 2 -2a", "Ama2", "", "A m a 2"},
{198, 40, "B 2 -2b", "Bbm2", "ba-c", "B b m 2"},
{199, 40, "B -2b 2", "B2mb", "cab", "B 2 m b"},
{200, 40, "C -2c 2", "C2cm", "-cba", "C 2 c m"},
{201, 40, "C -2c -2c", "Cc2m", "bca", "C c 2 m"},
{202, 40, "A -2a -2a", "Am2a", "a-cb", "A m 2 a"},
{203, 41, "A 2 -2ac", "Aea2", "", "A e a 2"},
{204, 41, "B 2 -2bc", "Bbe2", "ba-c", "B b e 2"},
{205, 41, "B -2bc 2", "B2eb", "cab", "B 2 e b"},
{206, 41, "C -2bc 2", "C2ce", "-cba", "C 2 c e"},
{207, 41, "C -2bc -2bc", "Cc2e", "bca", "C c 2 e"},
{208, 41, "A -2ac -2ac", "Ae2a", "a-cb", "A e 2 a"},
{209, 42, "F 2 -2", "Fmm2", "", "F m m 2"},
{210, 42, "F -2 2", "F2mm", "cab", "F 2 m m"},
{211, 42, "F -2 -2", "Fm2m", "bca", "F m 2 m"},
{212, 43, "F 2 -2d", "Fdd2", "", "F d d 2"},
{213, 43, "F -2d 2", "F2dd", "cab", "F 2 d d"},
{214, 43, "F -2d -2d", "Fd2d", "bca", "F d 2 d"},
{215, 44, "I 2 -2", "Imm2", "", "I m m 2"},
{216, 44, "I -2 2", "I2mm", "cab", "I 2 m m"},
{217, 44, "I -2 -2", "Im2m", "bca", "I m 2 m"},
{218, 45, "I 2 -2c", "Iba2", "", "I b a 2"},
{219, 45, "I -2a 2", "I2cb", "cab", "I 2 c b"},
{220, 45, "I -2b -2b", "Ic2a", "bca", "I c 2 a"},
{221, 46, "I 2 -2a", "Ima2", "", "I m a 2"},
{222, 46, "I 2 -2b", "Ibm2", "ba-c", "I b m 2"},
{223, 46, "I -2b 2", "I2mb", "cab", "I 2 m b"},
{224, 46, "I -2c 2", "I2cm", "-cba", "I 2 c m"},
{225, 46, "I -2c -2c", "Ic2m", "bca", "I c 2 m"},
{226, 46, "I -2a -2a", "Im2a", "a-cb", "I m 2 a"},
{227, 47, "-P 2 2", "Pmmm", "", "P 2/m 2/m 2/m"},
{228, 48, "P 2 2 -1n", "Pnnn", "1", "P 2/n 2/n 2/n"},
{229, 48, "-P 2ab 2bc", "Pnnn", "2", "P 2/n 2/n 2/n"},
{230, 49, "-P 2 2c", "Pccm", "", "P 2/c 2/c 2/m"},
{231, 49, "-P 2a 2", "Pmaa", "cab", "P 2/m 2/a 2/a"},
{232, 49, "-P 2b 2b", "Pbmb", "bca", "P 2/b 2/m 2/b"},
{233, 50, "P 2 2 -1ab", "Pban", "1", "P 2/b 2/a 2/n"},
{234, 50, "-P 2ab 2b", "Pban", "2", "P 2/b 2/a 2/n"},
{235, 50, "P 2 2 -1bc", "Pncb", "1cab", "P 2/n 2/c 2/b"},
{236, 50, "-P 2b 2bc", "Pncb", "2cab", "P 2/n 2/c 2/b"},
{237, 50, "P 2 2 -1ac", "Pcna", "1bca", "P 2/c 2/n 2/a"},
{238, 50, "-P 2a 2c", "Pcna", "2bca", "P 2/c 2/n 2/a"},
{239, 51, "-P 2a 2a", "Pmma", "", "P 2_1/m 2/m 2/a"},
{240, 51, "-P 2b 2", "Pmmb", "ba-c", "P 2/m 2_1/m 2/b"},
{241, 51, "-P 2 2b", "Pbmm", "cab", "P 2/b 2_1/m 2/m"},
{242, 51, "-P 2c 2c", "Pcmm", "-cba", "P 2/c 2/m 2_1/m"},
{243, 51, "-P 2c 2", "Pmcm", "bca", "P 2/m 2/c 2_1/m"},
{244, 51, "-P 2 2a", "Pmam", "a-cb", "P 2_1/m 2/a 2/m"},
{245, 52, "-P 2a 2bc", "Pnna", "", "P 2/n 2_1/n 2/a"},
{246, 52, "-P 2b 2n", "Pnnb", "ba-c", "P 2_1/n 2/n 2/b"},
{247, 52, "-P 2n 2b", "Pbnn", "cab", "P 2/b 2/n 2_1/n"},
{248, 52, "-P 2ab 2c", "Pcnn", "-cba", "P 2/c 2_1/n 2/n"},
{249, 52, "-P 2ab 2n", "Pncn", "bca", "P 2_1/n 2/c 2/n"},
{250, 52, "-P 2n 2bc", "Pnan", "a-cb", "P 2/n 2/a 2_1/n"},
{251, 53, "-P 2ac 2", "Pmna", "", "P 2/m 2/n 2_1/a"},
{252, 53, "-P 2bc 2bc", "Pnmb", "ba-c", "P 2/n 2/m 2_1/b"},
{253, 53, "-P 2ab 2ab", "Pbmn", "cab", "P 2_1/b 2/m 2/n"},
{254, 53, "-P 2 2ac", "Pcnm", "-cba", "P 2_1/c 2/n 2/m"},
{255, 53, "-P 2 2bc", "Pncm", "bca", "P 2/n 2_1/c 2/m"},
{256, 53, "-P 2ab 2", "Pman", "a-cb", "P 2/m 2_1/a 2/n"},
{257, 54, "-P 2a 2ac", "Pcca", "", "P 2_1/c 2/c 2/a"},
{258, 54, "-P 2b 2c", "Pccb", "ba-c", "P 2/c 2_1/c 2/b"},
{259, 54, "-P 2a 2b", "Pbaa", "cab", "P 2/b 2_1/a 2/a"},
{260, 54, "-P 2ac 2c", "Pcaa", "-cba", "P 2/c 2/a 2_1/a"},
{261, 54, "-P 2bc 2b", "Pbcb", "bca", "P 2/b 2/c 2_1/b"},
{262, 54, "-P 2b 2ab", "Pbab", "a-cb", "P 2_1/b 2/a 2/b"},
{263, 55, "-P 2 2ab", "Pbam", "", "P 2_1/b 2_1/a 2/m"},
{264, 55, "-P 2bc 2", "Pmcb", "cab", "P 2/m 2_1/c 2_1/b"},
{265, 55, "-P 2ac 2ac", "Pcma", "bca", "P 2_1/c 2/m 2_1/a"},
{266, 56, "-P 2ab 2ac", "Pccn", "", "P 2_1/c 2_1/c 2/n"},
{267, 56, "-P 2ac 2bc", "Pnaa", "cab", "P 2/n 2_1/a 2_1/a"},
{268, 56, "-P 2bc 2ab", "Pbnb", "bca", "P 2_1/b 2/n 2_1/b"},
{269, 57, "-P 2c 2b", "Pbcm", "", "P 2/b 2_1/c 2_1/m"},
{270, 57, "-P 2c 2ac", "Pcam", "ba-c", "P 2_1/c 2/a 2_1/m"},
{271, 57, "-P 2ac 2a", "Pmca", "cab", "P 2_1/m 2/c 2_1/a"},
{272, 57, "-P 2b 2a", "Pmab", "-cba", "P 2_1/m 2_1/a 2/b"},
{273, 57, "-P 2a 2ab", "Pbma", "bca", "P 2_1/b 2_1/m 2/a"},
{274, 57, "-P 2bc 2c", "Pcmb", "a-cb", "P 2/c 2_1/m 2_1/b"},
{275, 58, "-P 2 2n", "Pnnm", "", "P 2_1/n 2_1/n 2/m"},
{276, 58, "-P 2n 2", "Pmnn", "cab", "P 2/m 2_1/n 2_1/n"},
{277, 58, "-P 2n 2n", "Pnmn", "bca", "P 2_1/n 2/m 2_1/n"},
{278, 59, "P 2 2ab -1ab", "Pmmn", "1", "P 2_1/m 2_1/m 2/n"},
{279, 59, "-P 2ab 2a", "Pmmn", "2", "P 2_1/m 2_1/m 2/n"},
{280, 59, "P 2bc 2 -1bc", "Pnmm", "1cab", "P 2/n 2_1/m 2_1/m"},
{281, 59, "-P 2c 2bc", "Pnmm", "2cab", "P 2/n 2_1/m 2_1/m"},
{282, 59, "P 2ac 2ac -1ac", "Pmnm", "1bca", "P 2_1/m 2/n 2_1/m"},
{283, 59, "-P 2c 2a", "Pmnm", "2bca", "P 2_1/m 2/n 2_1/m"},
{284, 60, "-P 2n 2ab", "Pbcn", "", "P 2_1/b 2/c 2_1/n"},
{285, 60, "-P 2n 2c", "Pcan", "ba-c", "P 2/c 2_1/a 2_1/n"},
{286, 60, "-P 2a 2n", "Pnca", "cab", "P 2_1/n 2_1/c 2/a"},
{287, 60, "-P 2bc 2n", "Pnab", "-cba", "P 2_1/n 2/a 2_1/b"},
{288, 60, "-P 2ac 2b", "Pbna", "bca", "P 2/b 2_1/n 2_1/a"},
{289, 60, "-P 2b 2ac", "Pcnb", "a-cb", "P 2_1/c 2_1/n 2/b"},
{290, 61, "-P 2ac 2ab", "Pbca", "", "P 2_1/b 2_1/c 2_1/a"},
{291, 61, "-P 2bc 2ac", "Pcab", "ba-c", "P 2_1/c 2_1/a 2_1/b"},
{292, 62, "-P 2ac 2n", "Pnma", "", "P 2_1/n 2_1/m 2_1/a"},
{293, 62, "-P 2bc 2a", "Pmnb", "ba-c", "P 2_1/m 2_1/n 2_1/b"},
{294, 62, "-P 2c 2ab", "Pbnm", "cab", "P 2_1/b 2_1/n 2_1/m"},
{295, 62, "-P 2n 2ac", "Pcmn", "-cba", "P 2_1/c 2_1/m 2_1/n"},
{296, 62, "-P 2n 2a", "Pmcn", "bca", "P 2_1/m 2_1/c 2_1/n"},
{297, 62, "-P 2c 2n", "Pnam", "a-cb", "P 2_1/n 2_1/a 2_1/m"},
{298, 63, "-C 2c 2", "Cmcm", "", "C 2/m 2/c 2_1/m"},
{299, 63, "-C 2c 2c", "Ccmm", "ba-c", "C 2/c 2/m 2_1/m"},
{300, 63, "-A 2a 2a", "Amma", "cab", "A 2_1/m 2/m 2/a"},
{301, 63, "-A 2 2a", "Amam", "-cba", "A 2_1/m 2/a 2/m"},
{302, 63, "-B 2 2b", "Bbmm", "bca", "B 2/b 2_1/m 2/m"},
{303, 63, "-B 2b 2", "Bmmb", "a-cb", "B 2/m 2_1/m 2/b"},
{304, 64, "-C 2bc 2", "Cmce", "", "C 2/m 2/c 2_1/e"},
{305, 64, "-C 2bc 2bc", "Ccme", "ba-c", "C 2/c 2/m 2_1/e"},
{306, 64, "-A 2ac 2ac", "Aema", "cab", "A 2_1/e 2/m 2/a"},
{307, 64, "-A 2 2ac", "Aeam", "-cba", "A 2_1/e 2/a 2/m"},
{308, 64, "-B 2 2bc", "Bbem", "bca", "B 2/b 2_1/e 2/m"},
{309, 64, "-B 2bc 2", "Bmeb", "a-cb", "B 2/m 2_1/e 2/b"},
{310, 65, "-C 2 2", "Cmmm", "", "C 2/m 2/m 2/m"},
{311, 65, "-A 2 2", "Ammm", "cab", "A 2/m 2/m 2/m"},
{312, 65, "-B 2 2", "Bmmm", "bca", "B 2/m 2/m 2/m"},
{313, 66, "-C 2 2c", "Cccm", "", "C 2/c 2/c 2/m"},
{314, 66, "-A 2a 2", "Amaa", "cab", "A 2/m 2/a 2/a"},
{315, 66, "-B 2b 2b", "Bbmb", "bca", "B 2/b 2/m 2/b"},
{316, 67, "-C 2b 2", "Cmme", "", "C 2/m 2/m 2/e"},
{317, 67, "-C 2b 2b", "Cmme", "ba-c", "C 2/m 2/m 2/e"},
{318, 67, "-A 2c 2c", "Aemm", "cab", "A 2/e 2/m 2/m"},
{319, 67, "-A 2 2c", "Aemm", "-cba", "A 2/e 2/m 2/m"},
{320, 67, "-B 2 2c", "Bmem", "bca", "B 2/m 2/e 2/m"},
{321, 67, "-B 2c 2", "Bmem", "a-cb", "B 2/m 2/e 2/m"},
{322, 68, "C 2 2 -1bc", "Ccce", "1", "C 2/c 2/c 2/e"},
{323, 68, "-C 2b 2bc", "Ccce", "2", "C 2/c 2/c 2/e"},
{324, 68, "C 2 2 -1bc", "Ccce", "1ba-c", "C 2/c 2/c 2/e"},
{325, 68, "-C 2b 2c", "Ccce", "2ba-c", "C 2/c 2/c 2/e"},
{326, 68, "A 2 2 -1ac", "Aeaa", "1cab", "A 2/e 2/a 2/a"},
{327, 68, "-A 2a 2c", "Aeaa", "2cab", "A 2/e 2/a 2/a"},
{328, 68, "A 2 2 -1ac", "Aeaa", "1-cba", "A 2/e 2/a 2/a"},
{329, 68, "-A 2ac 2c", "Aeaa", "2-cba", "A 2/e 2/a 2/a"},
{330, 68, "B 2 2 -1bc", "Bbeb", "1bca", "B 2/b 2/e 2/b"},
{331, 68, "-B 2bc 2b", "Bbcb", "2bca", "B 2/b 2/e 2/b"},
{332, 68, "B 2 2 -1bc", "Bbeb", "1a-cb", "B 2/b 2/e 2/b"},
{333, 68, "-B 2b 2bc", "Bbeb", "2a-cb", "B 2/b 2/e 2/b"},
{334, 69, "-F 2 2", "Fmmm", "", "F 2/m 2/m 2/m"},
{335, 70, "F 2 2 -1d", "Fddd", "1", "F 2/d 2/d 2/d"},
{336, 70, "-F 2uv 2vw", "Fddd", "2", "F 2/d 2/d 2/d"},
{337, 71, "-I 2 2", "Immm", "", "I 2/m 2/m 2/m"},
{338, 72, "-I 2 2c", "Ibam", "", "I 2/b 2/a 2/m"},
{339, 72, "-I 2a 2", "Imcb", "cab", "I 2/m 2/c 2/b"},
{340, 72, "-I 2b 2b", "Icma", "bca", "I 2/c 2/m 2/a"},
{341, 73, "-I 2b 2c", "Ibca", "", "I 2/b 2/c 2/a"},
{342, 73, "-I 2a 2b", "Icab", "ba-c", "I 2/c 2/a 2/b"},
{343, 74, "-I 2b 2", "Imma", "", "I 2/m 2/m 2/a"},
{344, 74, "-I 2a 2a", "Immb", "ba-c", "I 2/m 2/m 2/b"},
{345, 74, "-I 2c 2c", "Ibmm", "cab", "I 2/b 2/m 2/m"},
{346, 74, "-I 2 2b", "Icmm", "-cba", "I 2/c 2/m 2/m"},
{347, 74, "-I 2 2a", "Imcm", "bca", "I 2/m 2/c 2/m"},
{348, 74, "-I 2c 2", "Imam", "a-cb", "I 2/m 2/a 2/m"},
{349, 75, "P 4", "P4", "", "P 4"},
{350, 76, "P 4w", "P4_1", "", "P 4_1"},
{351, 77, "P 4c", "P4_2", "", "P 4_2"},
{352, 78, "P 4cw", "P4_3", "", "P 4_3"},
{353, 79, "I 4", "I4", "", "I 4"},
{354, 80, "I 4bw", "I4_1", "", "I 4_1"},
{355, 81, "P -4", "P-4", "", "P -4"},
{356, 82, "I -4", "I-4", "", "I -4"},
{357, 83, "-P 4", "P4/m", "", "P 4/m"},
{358, 84, "-P 4c", "P4_2/m", "", "P 4_2/m"},
{359, 85, "P 4ab -1ab", "P4/n", "1", "P 4/n"},
{360, 85, "-P 4a", "P4/n", "2", "P 4/n"},
{361, 86, "P 4n -1n", "P4_2/n", "1", "P 4_2/n"},
{362, 86, "-P 4bc", "P4_2/n", "2", "P 4_2/n"},
{363, 87, "-I 4", "I4/m", "", "I 4/m"},
{364, 88, "I 4bw -1bw", "I4_1/a", "1", "I 4_1/a"},
{365, 88, "-I 4ad", "I4_1/a", "2", "I 4_1/a"},
{366, 89, "P 4 2", "P422", "", "P 4 2 2"},
{367, 90, "P 4ab 2ab", "P42_12", "", "P 4 2_1 2"},
{368, 91, "P 4w 2c", "P4_122", "", "P 4_1 2 2"},
{369, 92, "P 4abw 2nw", "P4_12_12", "", "P 4_1 2_1 2"},
{370, 93, "P 4c 2", "P4_222", "", "P 4_2 2 2"},
{371, 94, "P 4n 2n", "P4_22_12", "", "P 4_2 2_1 2"},
{372, 95, "P 4cw 2c", "P4_322", "", "P 4_3 2 2"},
{373, 96, "P 4nw 2abw", "P4_32_12", "", "P 4_3 2_1 2"},
{374, 97, "I 4 2", "I422", "", "I 4 2 2"},
{375, 98, "I 4bw 2bw", "I4_122", "", "I 4_1 2 2"},
{376, 99, "P 4 -2", "P4mm", "", "P 4 m m"},
{377, 100, "P 4 -2ab", "P4bm", "", "P 4 b m"},
{378, 101, "P 4c -2c", "P4_2cm", "", "P 4_2 c m"},
{379, 102, "P 4n -2n", "P4_2nm", "", "P 4_2 n m"},
{380, 103, "P 4 -2c", "P4cc", "", "P 4 c c"},
{381, 104, "P 4 -2n", "P4nc", "", "P 4 n c"},
{382, 105, "P 4c -2", "P4_2mc", "", "P 4_2 m c"},
{383, 106, "P 4c -2ab", "P4_2bc", "", "P 4_2 b c"},
{384, 107, "I 4 -2", "I4mm", "", "I 4 m m"},
{385, 108, "I 4 -2c", "I4cm", "", "I 4 c m"},
{386, 109, "I 4bw -2", "I4_1md", "", "I 4_1 m d"},
{387, 110, "I 4bw -2c", "I4_1cd", "", "I 4_1 c d"},
{388, 111, "P -4 2", "P-42m", "", "P -4 2 m"},
{389, 112, "P -4 2c", "P-42c", "", "P -4 2 c"},
{390, 113, "P -4 2ab", "P-42_1m", "", "P -4 2_1 m"},
{391, 114, "P -4 2n", "P-42_1c", "", "P -4 2_1 c"},
{392, 115, "P -4 -2", "P-4m2", "", "P -4 m 2"},
{393, 116, "P -4 -2c", "P-4c2", "", "P -4 c 2"},
{394, 117, "P -4 -2ab", "P-4b2", "", "P -4 b 2"},
{395, 118, "P -4 -2n", "P-4n2", "", "P -4 n 2"},
{396, 119, "I -4 -2", "I-4m2", "", "I -4 m 2"},
{397, 120, "I -4 -2c", "I-4c2", "", "I -4 c 2"},
{398, 121, "I -4 2", "I-42m", "", "I -4 2 m"},
{399, 122, "I -4 2bw", "I-42d", "", "I -4 2 d"},
{400, 123, "-P 4 2", "P4/mmm", "", "P 4/m 2/m 2/m"},
{401, 124, "-P 4 2c", "P4/mcc", "", "P 4/m 2/c 2/c"},
{402, 125, "P 4 2 -1ab", "P4/nbm", "1", "P 4/n 2/b 2/m"},
{403, 125, "-P 4a 2b", "P4/nbm", "2", "P 4/n 2/b 2/m"},
{404, 126, "P 4 2 -1n", "P4/nnc", "1", "P 4/n 2/n 2/c"},
{405, 126, "-P 4a 2bc", "P4/nnc", "2", "P 4/n 2/n 2/c"},
{406, 127, "-P 4 2ab", "P4/mbm", "", "P 4/m 2_1/b m"},
{407, 128, "-P 4 2n", "P4/mnc", "", "P 4/m 2_1/n c"},
{408, 129, "P 4ab 2ab -1ab", "P4/nmm", "1", "P 4/n 2_1/m m"},
{409, 129, "-P 4a 2a", "P4/nmm", "2", "P 4/n 2_1/m m"},
{410, 130, "P 4ab 2n -1ab", "P4/ncc", "1", "P 4/n 2_1/c c"},
{411, 130, "-P 4a 2ac", "P4/ncc", "2", "P 4/n 2_1/c c"},
{412, 131, "-P 4c 2", "P4_2/mmc", "", "P 4_2/m 2/m 2/c"},
{413, 132, "-P 4c 2c", "P4_2/mcm", "", "P 4_2/m 2/c 2/m"},
{414, 133, "P 4n 2c -1n", "P4_2/nbc", "1", "P 4_2/n 2/b 2/c"},
{415, 133, "-P 4ac 2b", "P4_2/nbc", "2", "P 4_2/n 2/b 2/c"},
{416, 134, "P 4n 2 -1n", "P4_2/nnm", "1", "P 4_2/n 2/n 2/m"},
{417, 134, "-P 4ac 2bc", "P4_2/nnm", "2", "P 4_2/n 2/n 2/m"},
{418, 135, "-P 4c 2ab", "P4_2/mbc", "", "P 4_2/m 2_1/b 2/c"},
{419, 136, "-P 4n 2n", "P4_2/mnm", "", "P 4_2/m 2_1/n 2/m"},
{420, 137, "P 4n 2n -1n", "P4_2/nmc", "1", "P 4_2/n 2_1/m 2/c"},
{421, 137, "-P 4ac 2a", "P4_2/nmc", "2", "P 4_2/n 2_1/m 2/c"},
{422, 138, "P 4n 2ab -1n", "P4_2/ncm", "1", "P 4_2/n 2_1/c 2/m"},
{423, 138, "-P 4ac 2ac", "P4_2/ncm", "2", "P 4_2/n 2_1/c 2/m"},
{424, 139, "-I 4 2", "I4/mmm", "", "I 4/m 2/m 2/m"},
{425, 140, "-I 4 2c", "I4/mcm", "", "I 4/m 2/c 2/m"},
{426, 141, "I 4bw 2bw -1bw", "I4_1/amd", "1", "I 4_1/a 2/m 2/d"},
{427, 141, "-I 4bd 2", "I4_1/amd", "2", "I 4_1/a 2/m 2/d"},
{428, 142, "I 4bw 2aw -1bw", "I4_1/acd", "1", "I 4_1/a 2/c 2/d"},
{429, 142, "-I 4bd 2c", "I4_1/acd", "2", "I 4_1/a 2/c 2/d"},
{430, 143, "P 3", "P3", "", "P 3"},
{431, 144, "P 31", "P3_1", "", "P 3_1"},
{432, 145, "P 32", "P3_2", "", "P 3_2"},
{433, 146, "R 3", "R3", "H", "R 3"},
{434, 146, "P 3*", "R3", "R", "R 3"},
{435, 147, "-P 3", "P-3", "", "P -3"},
{436, 148, "-R 3", "R-3", "H", "R -3"},
{437, 148, "-P 3*", "R-3", "R", "R -3"},
{438, 149, "P 3 2", "P312", "", "P 3 1 2"},
{439, 150, "P 3 2\"", "P321", "", "P 3 2 1"},
{440, 151, "P 31 2c (0 0 1)", "P3_112", "", "P 3_1 1 2"},
{441, 152, "P 31 2\"", "P3_121", "", "P 3_1 2 1"},
{442, 153, "P 32 2c (0 0 -1)", "P3_212", "", "P 3_2 1 2"},
{443, 154, "P 32 2\"", "P3_221", "", "P 3_2 2 1"},
{444, 155, "R 3 2\"", "R32", "H", "R 3 2"},
{445, 155, "P 3* 2", "R32", "R", "R 3 2"},
{446, 156, "P 3 -2\"", "P3m1", "", "P 3 m 1"},
{447, 157, "P 3 -2", "P31m", "", "P 3 1 m"},
{448, 158, "P 3 -2\"c", "P3c1", "", "P 3 c 1"},
{449, 159, "P 3 -2c", "P31c", "", "P 3 1 c"},
{450, 160, "R 3 -2\"", "R3m", "H", "R 3 m"},
{451, 160, "P 3* -2", "R3m", "R", "R 3 m"},
{452, 161, "R 3 -2\"c", "R3c", "H", "R 3 c"},
{453, 161, "P 3* -2n", "R3c", "R", "R 3 c"},
{454, 162, "-P 3 2", "P-31m", "", "P -3 1 2/m"},
{455, 163, "-P 3 2c", "P-31c", "", "P -3 1 2/c"},
{456, 164, "-P 3 2\"", "P-3m1", "", "P -3 2/m 1"},
{457, 165, "-P 3 2\"c", "P-3c1", "", "P -3 2/c 1"},
{458, 166, "-R 3 2\"", "R-3m", "H", "R -3 2/m"},
{459, 166, "-P 3* 2", "R-3m", "R", "R -3 2/m"},
{460, 167, "-R 3 2\"c", "R-3c", "H", "R -3 2/c"},
{461, 167, "-P 3* 2n", "R-3c", "R", "R -3 2/c"},
{462, 168, "P 6", "P6", "", "P 6"},
{463, 169, "P 61", "P6_1", "", "P 6_1"},
{464, 170, "P 65", "P6_5", "", "P 6_5"},
{465, 171, "P 62", "P6_2", "", "P 6_2"},
{466, 172, "P 64", "P6_4", "", "P 6_4"},
{467, 173, "P 6c", "P6_3", "", "P 6_3"},
{468, 174, "P -6", "P-6", "", "P -6"},
{469, 175, "-P 6", "P6/m", "", "P 6/m"},
{470, 176, "-P 6c", "P6_3/m", "", "P 6_3/m"},
{471, 177, "P 6 2", "P622", "", "P 6 2 2"},
{472, 178, "P 61 2 (0 0 -1)", "P6_122", "", "P 6_1 2 2"},
{473, 179, "P 65 2 (0 0 1)", "P6_522", "", "P 6_5 2 2"},
{474, 180, "P 62 2c (0 0 1)", "P6_222", "", "P 6_2 2 2"},
{475, 181, "P 64 2c (0 0 -1)", "P6_422", "", "P 6_4 2 2"},
{476, 182, "P 6c 2c", "P6_322", "", "P 6_3 2 2"},
{477, 183, "P 6 -2", "P6mm", "", "P 6 m m"},
{478, 184, "P 6 -2c", "P6cc", "", "P 6 c c"},
{479, 185, "P 6c -2", "P6_3cm", "", "P 6_3 c m"},
{480, 186, "P 6c -2c", "P6_3mc", "", "P 6_3 m c"},
{481, 187, "P -6 2", "P-6m2", "", "P -6 m 2"},
{482, 188, "P -6c 2", "P-6c2", "", "P -6 c 2"},
{483, 189, "P -6 -2", "P-62m", "", "P -6 2 m"},
{484, 190, "P -6c -2c", "P-62c", "", "P -6 2 c"},
{485, 191, "-P 6 2", "P6/mmm", "", "P 6/m 2/m 2/m"},
{486, 192, "-P 6 2c", "P6/mcc", "", "P 6/m 2/c 2/c"},
{487, 193, "-P 6c 2", "P6_3/mcm", "", "P 6_3/m 2/c 2/m"},
{488, 194, "-P 6c 2c", "P6_3/mmc", "", "P 6_3/m 2/m 2/c"},
{489, 195, "P 2 2 3", "P23", "", "P 2 3"},
{490, 196, "F 2 2 3", "F23", "", "F 2 3"},
{491, 197, "I 2 2 3", "I23", "", "I 2 3"},
{492, 198, "P 2ac 2ab 3", "P2_13", "", "P 2_1 3"},
{493, 199, "I 2b 2c 3", "I2_13", "", "I 2_1 3"},
{494, 200, "-P 2 2 3", "Pm-3", "", "P 2/m -3"},
{495, 201, "P 2 2 3 -1n", "Pn-3", "1", "P 2/n -3"},
{496, 201, "-P 2ab 2bc 3", "Pn-3", "2", "P 2/n -3"},
{497, 202, "-F 2 2 3", "Fm-3", "", "F 2/m -3"},
{498, 203, "F 2 2 3 -1d", "Fd-3", "1", "F 2/d -3"},
{499, 203, "-F 2uv 2vw 3", "Fd-3", "2", "F 2/d -3"},
{500, 204, "-I 2 2 3", "Im-3", "", "I 2/m -3"},
{501, 205, "-P 2ac 2ab 3", "Pa-3", "", "P 2_1/a -3"},
{502, 206, "-I 2b 2c 3", "Ia-3", "", "I 2_1/a -3"},
{503, 207, "P 4 2 3", "P432", "", "P 4 3 2"},
{504, 208, "P 4n 2 3", "P4_232", "", "P 4_2 3 2"},
{505, 209, "F 4 2 3", "F432", "", "F 4 3 2"},
{506, 210, "F 4d 2 3", "F4_132", "", "F 4_1 3 2"},
{507, 211, "I 4 2 3", "I432", "", "I 4 3 2"},
{508, 212, "P 4acd 2ab 3", "P4_332", "", "P 4_3 3 2"},
{509, 213, "P 4bd 2ab 3", "P4_132", "", "P 4_1 3 2"},
{510, 214, "I 4bd 2c 3", "I4_132", "", "I 4_1 3 2"},
{511, 215, "P -4 2 3", "P-43m", "", "P -4 3 m"},
{512, 216, "F -4 2 3", "F-43m", "", "F -4 3 m"},
{513, 217, "I -4 2 3", "I-43m", "", "I -4 3 m"},
{514, 218, "P -4n 2 3", "P-43n", "", "P -4 3 n"},
{515, 219, "F -4c 2 3", "F-43c", "", "F -4 3 c"},
{516, 220, "I -4bd 2c 3", "I-43d", "", "I -4 3 d"},
{517, 221, "-P 4 2 3", "Pm-3m", "", "P 4/m -3 2/m"},
{518, 222, "P 4 2 3 -1n", "Pn-3n", "1", "P 4/n -3 2/n"},
{519, 222, "-P 4a 2bc 3", "Pn-3n", "2", "P 4/n -3 2/n"},
{520, 223, "-P 4n 2 3", "Pm-3n", "", "P 4_2/m -3 2/n"},
{521, 224, "P 4n 2 3 -1n", "Pn-3m", "1", "P 4_2/n -3 2/m"},
{522, 224, "-P 4bc 2bc 3", "Pn-3m", "2", "P 4_2/n -3 2/m"},
{523, 225, "-F 4 2 3", "Fm-3m", "", "F 4/m -3 2/m"},
{524, 226, "-F 4c 2 3", "Fm-3c", "", "F 4/m -3 2/c"},
{525, 227, "F 4d 2 3 -1d", "Fd-3m", "1", "F 4_1/d -3 2/m"},
{526, 227, "-F 4vw 2vw 3", "Fd-3m", "2", "F 4_1/d -3 2/m"},
{527, 228, "F 4d 2 3 -1cd", "Fd-3c", "1", "F 4_1/d -3 2/c"},
{528, 228, "-F 4cvw 2vw 3", "Fd-3c", "2", "F 4_1/d -3 2/c"},
{529, 229, "-I 4 2 3", "Im-3m", "", "I 4/m -3 2/m"},
{530, 230, "-I 4bd 2c 3", "Ia-3d", "", "I 4_1/a -3 2/d"},
