//! For every name of a hand, entropy with which some choice of cards ends in
//! one at once: entropy seed, cards to swap (made by `sess mine`).
pub const MINED: [(&str, &[(u64, usize)]); 309] = [
    ("High card, ace", &[(1, 0), (2, 20), (5, 15), (7, 11)]),
    ("High card, eight", &[(12, 16), (18, 10), (23, 31), (50, 4)]),
    ("High card, jack", &[(5, 9), (8, 2), (9, 7), (15, 16)]),
    ("High card, king", &[(4, 5), (5, 1), (6, 1), (10, 0)]),
    ("High card, nine", &[(9, 2), (12, 1), (14, 31), (22, 17)]),
    ("High card, queen", &[(1, 16), (3, 0), (4, 15), (7, 10)]),
    ("High card, seven", &[(29, 20), (50, 5), (63, 28), (103, 31)]),
    ("High card, ten", &[(9, 0), (10, 16), (14, 15), (21, 0)]),
    ("Pair, aces", &[(2, 0), (13, 15), (17, 31), (44, 1)]),
    ("Pair, eights", &[(5, 13), (9, 3), (18, 0), (27, 11)]),
    ("Pair, fives", &[(5, 0), (10, 14), (14, 0), (20, 15)]),
    ("Pair, fours", &[(6, 7), (11, 0), (18, 31), (28, 1)]),
    ("Pair, jacks", &[(15, 3), (17, 30), (18, 23), (19, 0)]),
    ("Pair, kings", &[(4, 0), (16, 5), (25, 7), (67, 19)]),
    ("Pair, nines", &[(1, 31), (7, 2), (12, 7), (13, 11)]),
    ("Pair, queens", &[(19, 31), (30, 31), (33, 15), (35, 2)]),
    ("Pair, sevens", &[(2, 15), (4, 4), (6, 0), (8, 11)]),
    ("Pair, sixes", &[(1, 7), (3, 1), (15, 15), (21, 30)]),
    ("Pair, tens", &[(1, 3), (2, 4), (15, 14), (21, 1)]),
    ("Pair, threes", &[(30, 7), (32, 15), (44, 31), (45, 3)]),
    ("Pair, twos", &[(4, 13), (26, 23), (27, 0), (29, 23)]),
    ("Two pair, aces and eights", &[(42, 22), (155, 1), (190, 28), (209, 19)]),
    ("Two pair, aces and fives", &[(218, 21), (566, 18), (601, 1), (628, 0)]),
    ("Two pair, aces and fours", &[(44, 3), (151, 23), (238, 13), (379, 31)]),
    ("Two pair, aces and jacks", &[(152, 6), (197, 14), (278, 11), (560, 6)]),
    ("Two pair, aces and kings", &[(100, 0), (266, 4), (324, 14), (379, 29)]),
    ("Two pair, aces and nines", &[(155, 13), (283, 25), (447, 17), (492, 22)]),
    ("Two pair, aces and queens", &[(65, 1), (224, 7), (422, 30), (456, 6)]),
    ("Two pair, aces and sevens", &[(2, 19), (93, 20), (238, 12), (379, 15)]),
    ("Two pair, aces and sixes", &[(264, 22), (283, 4), (409, 12), (441, 13)]),
    ("Two pair, aces and tens", &[(2, 1), (65, 7), (165, 15), (398, 11)]),
    ("Two pair, aces and threes", &[(81, 26), (196, 11), (566, 26), (576, 2)]),
    ("Two pair, aces and twos", &[(51, 11), (196, 5), (214, 21), (306, 15)]),
    ("Two pair, eights and fives", &[(27, 25), (160, 0), (239, 27), (472, 2)]),
    ("Two pair, eights and fours", &[(60, 0), (64, 4), (313, 7), (424, 13)]),
    ("Two pair, eights and sevens", &[(18, 13), (144, 2), (355, 23), (502, 24)]),
    ("Two pair, eights and sixes", &[(199, 21), (226, 27), (346, 10), (356, 30)]),
    ("Two pair, eights and threes", &[(158, 14), (242, 9), (351, 26), (438, 11)]),
    ("Two pair, eights and twos", &[(84, 29), (183, 31), (274, 9), (485, 0)]),
    ("Two pair, fives and fours", &[(52, 3), (358, 2), (370, 20), (619, 25)]),
    ("Two pair, fives and threes", &[(466, 1), (501, 24), (632, 21), (652, 2)]),
    ("Two pair, fives and twos", &[(90, 2), (105, 8), (445, 7), (934, 15)]),
    ("Two pair, fours and threes", &[(125, 2), (151, 21), (175, 26), (249, 22)]),
    ("Two pair, fours and twos", &[(203, 30), (208, 7), (217, 1), (377, 15)]),
    ("Two pair, jacks and eights", &[(374, 30), (424, 28), (517, 6), (543, 21)]),
    ("Two pair, jacks and fives", &[(129, 3), (422, 17), (432, 31), (466, 0)]),
    ("Two pair, jacks and fours", &[(130, 12), (140, 14), (179, 0), (186, 7)]),
    ("Two pair, jacks and nines", &[(24, 6), (118, 31), (130, 30), (186, 5)]),
    ("Two pair, jacks and sevens", &[(217, 26), (326, 28), (341, 8), (425, 18)]),
    ("Two pair, jacks and sixes", &[(15, 23), (128, 5), (129, 5), (326, 10)]),
    ("Two pair, jacks and tens", &[(15, 22), (128, 17), (237, 10), (284, 28)]),
    ("Two pair, jacks and threes", &[(227, 5), (332, 28), (421, 9), (466, 4)]),
    ("Two pair, jacks and twos", &[(33, 0), (217, 9), (223, 17), (424, 18)]),
    ("Two pair, kings and eights", &[(42, 11), (49, 22), (221, 30), (347, 19)]),
    ("Two pair, kings and fives", &[(134, 13), (248, 11), (452, 27), (533, 7)]),
    ("Two pair, kings and fours", &[(28, 2), (169, 5), (248, 22), (259, 6)]),
    ("Two pair, kings and jacks", &[(453, 23), (542, 23), (560, 26), (608, 1)]),
    ("Two pair, kings and nines", &[(275, 1), (282, 20), (400, 12), (452, 14)]),
    ("Two pair, kings and queens", &[(49, 14), (154, 29), (303, 4), (320, 10)]),
    ("Two pair, kings and sevens", &[(2, 31), (4, 2), (16, 3), (48, 13)]),
    ("Two pair, kings and sixes", &[(67, 11), (94, 7), (111, 23), (287, 2)]),
    ("Two pair, kings and tens", &[(221, 3), (300, 11), (886, 0), (974, 27)]),
    ("Two pair, kings and threes", &[(70, 22), (292, 17), (336, 29), (448, 29)]),
    ("Two pair, kings and twos", &[(78, 13), (387, 14), (511, 12), (636, 9)]),
    ("Two pair, nines and eights", &[(85, 26), (118, 22), (155, 27), (245, 18)]),
    ("Two pair, nines and fives", &[(23, 30), (136, 23), (352, 9), (514, 1)]),
    ("Two pair, nines and fours", &[(116, 13), (186, 21), (270, 31), (272, 15)]),
    ("Two pair, nines and sevens", &[(477, 27), (605, 10), (749, 24), (896, 13)]),
    ("Two pair, nines and sixes", &[(207, 0), (356, 7), (405, 15), (664, 3)]),
    ("Two pair, nines and threes", &[(45, 10), (86, 0), (338, 6), (664, 0)]),
    ("Two pair, nines and twos", &[(20, 0), (35, 15), (89, 21), (171, 15)]),
    ("Two pair, queens and eights", &[(49, 3), (84, 23), (123, 15), (415, 2)]),
    ("Two pair, queens and fives", &[(369, 27), (422, 6), (466, 11), (618, 28)]),
    ("Two pair, queens and fours", &[(679, 1), (723, 3), (729, 5), (901, 15)]),
    ("Two pair, queens and jacks", &[(35, 10), (260, 0), (326, 30), (403, 30)]),
    ("Two pair, queens and nines", &[(247, 3), (439, 22), (547, 27), (897, 14)]),
    ("Two pair, queens and sevens", &[(72, 31), (87, 20), (95, 3), (240, 3)]),
    ("Two pair, queens and sixes", &[(138, 25), (161, 8), (177, 28), (343, 10)]),
    ("Two pair, queens and tens", &[(65, 11), (388, 28), (506, 7), (697, 4)]),
    ("Two pair, queens and threes", &[(32, 23), (126, 1), (193, 27), (277, 30)]),
    ("Two pair, queens and twos", &[(29, 15), (84, 4), (431, 28), (475, 13)]),
    ("Two pair, sevens and fives", &[(76, 30), (96, 13), (134, 19), (229, 12)]),
    ("Two pair, sevens and fours", &[(6, 14), (55, 29), (64, 9), (238, 14)]),
    ("Two pair, sevens and sixes", &[(64, 11), (359, 13), (402, 7), (430, 23)]),
    ("Two pair, sevens and threes", &[(53, 7), (148, 10), (234, 31), (271, 13)]),
    ("Two pair, sevens and twos", &[(4, 28), (38, 14), (92, 3), (217, 28)]),
    ("Two pair, sixes and fives", &[(129, 9), (287, 21), (362, 24), (450, 7)]),
    ("Two pair, sixes and fours", &[(64, 13), (250, 7), (253, 1), (263, 1)]),
    ("Two pair, sixes and threes", &[(184, 31), (321, 30), (491, 1), (559, 4)]),
    ("Two pair, sixes and twos", &[(254, 4), (264, 11), (350, 5), (402, 28)]),
    ("Two pair, tens and eights", &[(226, 15), (233, 11), (256, 11), (274, 3)]),
    ("Two pair, tens and fives", &[(10, 28), (88, 0), (101, 11), (170, 22)]),
    ("Two pair, tens and fours", &[(102, 11), (153, 1), (523, 27), (589, 8)]),
    ("Two pair, tens and nines", &[(35, 29), (127, 14), (366, 25), (532, 30)]),
    ("Two pair, tens and sevens", &[(2, 7), (103, 20), (256, 10), (300, 17)]),
    ("Two pair, tens and sixes", &[(15, 30), (128, 3), (184, 7), (535, 29)]),
    ("Two pair, tens and threes", &[(255, 18), (289, 1), (293, 1), (325, 13)]),
    ("Two pair, tens and twos", &[(132, 10), (274, 1), (289, 21), (435, 6)]),
    ("Two pair, threes and twos", &[(59, 17), (92, 14), (114, 5), (767, 25)]),
    ("Three of a kind, aces", &[(51, 3), (65, 5), (106, 25), (196, 7)]),
    ("Three of a kind, eights", &[(42, 13), (60, 25), (351, 7), (372, 0)]),
    ("Three of a kind, fives", &[(131, 23), (243, 1), (412, 3), (466, 27)]),
    ("Three of a kind, fours", &[(135, 9), (257, 25), (272, 31), (313, 6)]),
    ("Three of a kind, jacks", &[(117, 28), (197, 6), (278, 27), (378, 6)]),
    ("Three of a kind, kings", &[(28, 10), (169, 29), (191, 2), (221, 7)]),
    ("Three of a kind, nines", &[(7, 0), (236, 15), (258, 14), (270, 7)]),
    ("Three of a kind, queens", &[(46, 0), (69, 23), (123, 30), (187, 29)]),
    ("Three of a kind, sevens", &[(87, 22), (144, 7), (261, 1), (276, 3)]),
    ("Three of a kind, sixes", &[(3, 3), (129, 0), (207, 5), (226, 2)]),
    ("Three of a kind, tens", &[(101, 15), (131, 5), (198, 15), (322, 1)]),
    ("Three of a kind, threes", &[(53, 14), (174, 2), (474, 7), (587, 0)]),
    ("Three of a kind, twos", &[(33, 11), (90, 23), (105, 10), (214, 6)]),
    ("Straight, ace-high", &[(25, 6), (99, 25), (376, 4), (597, 12)]),
    ("Straight, eight-high", &[(63, 21), (71, 26), (241, 30), (489, 6)]),
    ("Straight, five-high", &[(498, 0), (638, 26), (683, 7), (756, 18)]),
    ("Straight, jack-high", &[(54, 24), (66, 9), (83, 30), (171, 9)]),
    ("Straight, king-high", &[(24, 19), (262, 12), (721, 5), (758, 22)]),
    ("Straight, nine-high", &[(12, 0), (53, 1), (121, 17), (327, 30)]),
    ("Straight, queen-high", &[(41, 3), (54, 25), (174, 17), (205, 6)]),
    ("Straight, seven-high", &[(151, 26), (175, 0), (281, 28), (345, 10)]),
    ("Straight, six-high", &[(281, 29), (446, 9), (582, 7), (722, 7)]),
    ("Straight, ten-high", &[(252, 31), (373, 21), (731, 7), (760, 6)]),
    ("Flush, ace-high", &[(17, 0), (26, 7), (108, 0), (252, 10)]),
    ("Flush, eight-high", &[(1103, 27), (2560, 24), (3857, 5), (4129, 21)]),
    ("Flush, jack-high", &[(206, 3), (486, 25), (610, 29), (793, 4)]),
    ("Flush, king-high", &[(70, 2), (88, 25), (140, 3), (255, 7)]),
    ("Flush, nine-high", &[(2776, 19), (2790, 3), (2937, 4), (3394, 13)]),
    ("Flush, queen-high", &[(111, 8), (121, 7), (149, 4), (265, 20)]),
    ("Flush, seven-high", &[(14247, 25), (19877, 9), (25025, 12), (26215, 25)]),
    ("Flush, ten-high", &[(939, 29), (2305, 23), (2669, 26), (2993, 2)]),
    ("Full house, aces over eights", &[(4825, 17), (9831, 1), (24737, 18), (28055, 10)]),
    ("Full house, aces over fives", &[(1804, 16), (10083, 31), (12129, 25), (15879, 2)]),
    ("Full house, aces over fours", &[(3320, 2), (4019, 12), (4825, 4), (10304, 4)]),
    ("Full house, aces over jacks", &[(8616, 3), (13440, 26), (24058, 24), (24285, 25)]),
    ("Full house, aces over kings", &[(8689, 16), (10494, 1), (12629, 18), (15661, 29)]),
    ("Full house, aces over nines", &[(1666, 9), (1725, 25), (3237, 19), (5515, 3)]),
    ("Full house, aces over queens", &[(65, 17), (1531, 9), (3838, 2), (5645, 19)]),
    ("Full house, aces over sevens", &[(1049, 9), (4794, 0), (7719, 23), (13221, 28)]),
    ("Full house, aces over sixes", &[(7819, 31), (10505, 0), (12319, 24), (13560, 17)]),
    ("Full house, aces over tens", &[(2623, 20), (3236, 20), (3437, 29), (5474, 11)]),
    ("Full house, aces over threes", &[(196, 19), (8955, 5), (16127, 1), (16213, 15)]),
    ("Full house, aces over twos", &[(2125, 20), (3903, 26), (8161, 1), (9179, 25)]),
    ("Full house, eights over aces", &[(6996, 7), (12322, 13), (17469, 11), (23080, 31)]),
    ("Full house, eights over fives", &[(5301, 4), (6581, 11), (7258, 27), (17080, 16)]),
    ("Full house, eights over fours", &[(416, 30), (2551, 25), (7186, 0), (12831, 16)]),
    ("Full house, eights over jacks", &[(3481, 11), (6798, 9), (8660, 13), (11111, 13)]),
    ("Full house, eights over kings", &[(42, 25), (4202, 4), (9761, 9), (10150, 13)]),
    ("Full house, eights over nines", &[(476, 17), (2678, 4), (11159, 1), (23345, 6)]),
    ("Full house, eights over queens", &[(6866, 9), (10150, 26), (14121, 31), (18025, 27)]),
    ("Full house, eights over sevens", &[(1921, 31), (1956, 11), (5337, 0), (8197, 11)]),
    ("Full house, eights over sixes", &[(5394, 18), (8584, 20), (10556, 16), (13603, 26)]),
    ("Full house, eights over tens", &[(372, 4), (5445, 6), (7655, 31), (10109, 9)]),
    ("Full house, eights over threes", &[(1582, 23), (5394, 5), (8138, 31), (13369, 4)]),
    ("Full house, eights over twos", &[(2425, 29), (4056, 15), (38696, 17), (41716, 14)]),
    ("Full house, fives over aces", &[(1308, 20), (4315, 9), (8907, 15), (25546, 9)]),
    ("Full house, fives over eights", &[(5813, 11), (6581, 27), (8994, 10), (10538, 17)]),
    ("Full house, fives over fours", &[(2999, 19), (6488, 11), (7704, 22), (13272, 6)]),
    ("Full house, fives over jacks", &[(672, 21), (3023, 18), (3906, 19), (6390, 25)]),
    ("Full house, fives over kings", &[(11815, 3), (12422, 10), (25582, 6), (31952, 1)]),
    ("Full house, fives over nines", &[(984, 31), (1415, 18), (9245, 25), (17652, 22)]),
    ("Full house, fives over queens", &[(2236, 30), (4236, 10), (12773, 20), (13774, 15)]),
    ("Full house, fives over sevens", &[(3139, 8), (11268, 29), (13464, 21), (16358, 13)]),
    ("Full house, fives over sixes", &[(9535, 18), (10194, 13), (10937, 24), (18033, 17)]),
    ("Full house, fives over tens", &[(1647, 22), (10119, 14), (10208, 24), (12640, 25)]),
    ("Full house, fives over threes", &[(6716, 22), (16436, 25), (17987, 10), (18731, 4)]),
    ("Full house, fives over twos", &[(3774, 7), (18195, 5), (18636, 15), (20298, 10)]),
    ("Full house, fours over aces", &[(8073, 9), (9652, 31), (11781, 27), (13222, 16)]),
    ("Full house, fours over eights", &[(2224, 9), (13006, 5), (17465, 3), (18254, 11)]),
    ("Full house, fours over fives", &[(358, 10), (1935, 22), (5454, 1), (7301, 27)]),
    ("Full house, fours over jacks", &[(6723, 2), (9943, 16), (10174, 1), (14592, 13)]),
    ("Full house, fours over kings", &[(414, 11), (7546, 20), (9486, 22), (10411, 4)]),
    ("Full house, fours over nines", &[(1911, 28), (14126, 24), (19962, 13), (24409, 30)]),
    ("Full house, fours over queens", &[(2630, 1), (7782, 2), (9167, 3), (9652, 7)]),
    ("Full house, fours over sevens", &[(2876, 9), (3705, 6), (7301, 9), (19373, 25)]),
    ("Full house, fours over sixes", &[(3479, 10), (4683, 17), (7561, 22), (11185, 17)]),
    ("Full house, fours over tens", &[(9370, 10), (9995, 11), (19731, 14), (19962, 3)]),
    ("Full house, fours over threes", &[(602, 28), (1067, 13), (7834, 6), (8062, 17)]),
    ("Full house, fours over twos", &[(1221, 27), (3547, 4), (12220, 10), (23400, 30)]),
    ("Full house, jacks over aces", &[(1808, 2), (7376, 0), (11370, 9), (31486, 24)]),
    ("Full house, jacks over eights", &[(604, 14), (927, 8), (24599, 31), (27528, 20)]),
    ("Full house, jacks over fives", &[(2536, 20), (7144, 22), (12229, 31), (14911, 6)]),
    ("Full house, jacks over fours", &[(3004, 20), (5078, 10), (14412, 18), (15171, 24)]),
    ("Full house, jacks over kings", &[(13648, 12), (21516, 15), (22423, 8), (23996, 28)]),
    ("Full house, jacks over nines", &[(3130, 29), (6746, 31), (7875, 19), (9643, 22)]),
    ("Full house, jacks over queens", &[(1418, 0), (1808, 17), (7960, 2), (10355, 31)]),
    ("Full house, jacks over sevens", &[(6199, 11), (10309, 22), (14668, 9), (19834, 2)]),
    ("Full house, jacks over sixes", &[(378, 22), (614, 11), (4487, 7), (5902, 15)]),
    ("Full house, jacks over tens", &[(2504, 6), (4158, 3), (4260, 29), (4487, 10)]),
    ("Full house, jacks over threes", &[(3790, 13), (9263, 23), (15081, 13), (27404, 8)]),
    ("Full house, jacks over twos", &[(2649, 14), (5521, 17), (9511, 24), (21165, 7)]),
    ("Full house, kings over aces", &[(2001, 20), (9019, 7), (16075, 4), (21862, 5)]),
    ("Full house, kings over eights", &[(2009, 2), (8117, 12), (9564, 18), (13831, 10)]),
    ("Full house, kings over fives", &[(11975, 4), (18651, 21), (21862, 19), (22263, 6)]),
    ("Full house, kings over fours", &[(12835, 20), (13708, 6), (16656, 2), (22556, 21)]),
    ("Full house, kings over jacks", &[(3412, 23), (9981, 15), (15269, 6), (15638, 16)]),
    ("Full house, kings over nines", &[(4087, 25), (7166, 31), (7286, 31), (7621, 21)]),
    ("Full house, kings over queens", &[(154, 31), (4347, 4), (26931, 2), (29260, 7)]),
    ("Full house, kings over sevens", &[(1447, 20), (2323, 3), (6037, 14), (6753, 7)]),
    ("Full house, kings over sixes", &[(2049, 14), (2948, 13), (9827, 28), (11088, 0)]),
    ("Full house, kings over tens", &[(9362, 17), (15418, 9), (15911, 12), (17445, 19)]),
    ("Full house, kings over threes", &[(1795, 1), (4744, 8), (6434, 25), (7505, 3)]),
    ("Full house, kings over twos", &[(3412, 28), (9439, 11), (15747, 6), (18211, 10)]),
    ("Full house, nines over aces", &[(1725, 24), (2810, 27), (6436, 29), (6835, 30)]),
    ("Full house, nines over eights", &[(1008, 2), (2132, 25), (7804, 2), (8254, 16)]),
    ("Full house, nines over fives", &[(2027, 12), (3116, 21), (4448, 25), (5231, 17)]),
    ("Full house, nines over fours", &[(4110, 24), (8772, 16), (11516, 8), (12797, 9)]),
    ("Full house, nines over jacks", &[(2241, 0), (3812, 11), (11118, 26), (26181, 21)]),
    ("Full house, nines over kings", &[(657, 20), (931, 12), (2635, 0), (7286, 23)]),
    ("Full house, nines over queens", &[(9759, 23), (11742, 9), (27923, 27), (31846, 9)]),
    ("Full house, nines over sevens", &[(3173, 16), (3399, 1), (5246, 3), (7294, 25)]),
    ("Full house, nines over sixes", &[(2882, 10), (5558, 0), (10705, 14), (17140, 30)]),
    ("Full house, nines over tens", &[(7052, 7), (13448, 17), (17243, 11), (18404, 21)]),
    ("Full house, nines over threes", &[(4693, 27), (10128, 26), (12749, 15), (13197, 22)]),
    ("Full house, nines over twos", &[(1740, 5), (1802, 4), (2888, 31), (4761, 18)]),
    ("Full house, queens over aces", &[(2579, 10), (6769, 19), (11909, 0), (32598, 27)]),
    ("Full house, queens over eights", &[(4763, 20), (14500, 25), (24470, 7), (34545, 31)]),
    ("Full house, queens over fives", &[(984, 17), (8137, 21), (11053, 12), (16015, 7)]),
    ("Full house, queens over fours", &[(6279, 31), (7290, 17), (10371, 14), (14321, 28)]),
    ("Full house, queens over jacks", &[(5150, 12), (7826, 12), (10136, 26), (11090, 5)]),
    ("Full house, queens over kings", &[(3505, 30), (4337, 0), (8541, 17), (9781, 3)]),
    ("Full house, queens over nines", &[(4212, 24), (9241, 0), (18364, 9), (24440, 15)]),
    ("Full house, queens over sevens", &[(1980, 6), (3182, 20), (3233, 12), (10026, 8)]),
    ("Full house, queens over sixes", &[(1220, 12), (2007, 8), (10259, 2), (14565, 18)]),
    ("Full house, queens over tens", &[(7339, 11), (9007, 7), (14013, 3), (19094, 0)]),
    ("Full house, queens over threes", &[(2612, 14), (7940, 7), (8214, 31), (11941, 21)]),
    ("Full house, queens over twos", &[(984, 1), (6042, 31), (8029, 6), (8339, 28)]),
    ("Full house, sevens over aces", &[(7719, 31), (7966, 24), (20919, 22), (20995, 29)]),
    ("Full house, sevens over eights", &[(2091, 5), (3593, 22), (5302, 23), (15455, 12)]),
    ("Full house, sevens over fives", &[(10057, 5), (17277, 17), (17299, 14), (20919, 7)]),
    ("Full house, sevens over fours", &[(17254, 15), (20688, 29), (25303, 22), (27318, 11)]),
    ("Full house, sevens over jacks", &[(7794, 26), (14668, 8), (14873, 4), (32900, 4)]),
    ("Full house, sevens over kings", &[(9642, 4), (10867, 2), (25202, 19), (32107, 5)]),
    ("Full house, sevens over nines", &[(436, 31), (3399, 3), (12884, 3), (13382, 26)]),
    ("Full house, sevens over queens", &[(7901, 9), (10057, 29), (10360, 7), (11762, 0)]),
    ("Full house, sevens over sixes", &[(9893, 3), (11399, 0), (17942, 16), (24231, 2)]),
    ("Full house, sevens over tens", &[(6807, 5), (17960, 4), (28597, 19), (31405, 19)]),
    ("Full house, sevens over threes", &[(261, 9), (10929, 22), (11132, 4), (11561, 28)]),
    ("Full house, sevens over twos", &[(402, 0), (4738, 24), (5812, 17), (7966, 29)]),
    ("Full house, sixes over aces", &[(5241, 31), (15303, 28), (20775, 24), (24884, 29)]),
    ("Full house, sixes over eights", &[(782, 14), (2485, 29), (15303, 16), (26314, 2)]),
    ("Full house, sixes over fives", &[(450, 23), (3215, 9), (3630, 6), (19874, 17)]),
    ("Full house, sixes over fours", &[(8170, 16), (9903, 27), (17485, 2), (19996, 0)]),
    ("Full house, sixes over jacks", &[(3856, 8), (5530, 14), (9084, 24), (10537, 14)]),
    ("Full house, sixes over kings", &[(742, 31), (7914, 28), (13668, 20), (14905, 15)]),
    ("Full house, sixes over nines", &[(883, 30), (3871, 20), (6634, 1), (11041, 25)]),
    ("Full house, sixes over queens", &[(1133, 19), (5065, 2), (7980, 5), (9964, 6)]),
    ("Full house, sixes over sevens", &[(1752, 8), (8987, 22), (13184, 26), (25239, 1)]),
    ("Full house, sixes over tens", &[(5530, 28), (9047, 5), (10684, 12), (10795, 13)]),
    ("Full house, sixes over threes", &[(3215, 21), (11706, 4), (12073, 13), (12845, 5)]),
    ("Full house, sixes over twos", &[(2659, 29), (8700, 7), (9086, 18), (10016, 18)]),
    ("Full house, tens over aces", &[(2255, 16), (5759, 1), (9985, 30), (32261, 10)]),
    ("Full house, tens over eights", &[(2563, 28), (3289, 23), (3303, 10), (7492, 11)]),
    ("Full house, tens over fives", &[(101, 27), (322, 0), (1643, 16), (12711, 14)]),
    ("Full house, tens over fours", &[(2369, 30), (3912, 14), (4918, 26), (7670, 10)]),
    ("Full house, tens over jacks", &[(999, 25), (4462, 10), (7446, 1), (7641, 1)]),
    ("Full house, tens over kings", &[(1256, 0), (1262, 31), (3084, 14), (5289, 27)]),
    ("Full house, tens over nines", &[(3671, 10), (13176, 26), (16135, 9), (18601, 13)]),
    ("Full house, tens over queens", &[(8756, 10), (8996, 0), (12563, 4), (20124, 1)]),
    ("Full house, tens over sevens", &[(999, 23), (3835, 7), (6417, 17), (16655, 19)]),
    ("Full house, tens over sixes", &[(1077, 5), (2486, 13), (2563, 4), (18612, 3)]),
    ("Full house, tens over threes", &[(2914, 15), (4971, 27), (6662, 0), (8038, 21)]),
    ("Full house, tens over twos", &[(8448, 21), (14326, 14), (18742, 31), (29042, 17)]),
    ("Full house, threes over aces", &[(8773, 22), (17200, 9), (21190, 14), (24830, 20)]),
    ("Full house, threes over eights", &[(5585, 16), (8751, 9), (12924, 25), (15226, 7)]),
    ("Full house, threes over fives", &[(578, 6), (8305, 21), (14987, 3), (16195, 14)]),
    ("Full house, threes over fours", &[(17214, 1), (19717, 15), (34803, 0), (43127, 1)]),
    ("Full house, threes over jacks", &[(9570, 1), (13299, 13), (13638, 4), (14657, 20)]),
    ("Full house, threes over kings", &[(1795, 0), (6434, 27), (13970, 27), (24405, 17)]),
    ("Full house, threes over nines", &[(474, 11), (2332, 8), (4693, 31), (12010, 26)]),
    ("Full house, threes over queens", &[(3752, 0), (3754, 28), (8260, 18), (9788, 18)]),
    ("Full house, threes over sevens", &[(53, 22), (1244, 26), (5760, 9), (9522, 12)]),
    ("Full house, threes over sixes", &[(739, 9), (1730, 8), (2968, 21), (6003, 24)]),
    ("Full house, threes over tens", &[(1844, 11), (8233, 18), (18973, 8), (22752, 17)]),
    ("Full house, threes over twos", &[(3656, 0), (4773, 23), (12610, 17), (23032, 18)]),
    ("Full house, twos over aces", &[(2244, 6), (4948, 2), (5027, 7), (13424, 17)]),
    ("Full house, twos over eights", &[(954, 21), (4015, 11), (10067, 5), (10078, 21)]),
    ("Full house, twos over fives", &[(105, 24), (3168, 6), (10126, 28), (11890, 1)]),
    ("Full house, twos over fours", &[(1297, 1), (1706, 11), (3377, 13), (9275, 0)]),
    ("Full house, twos over jacks", &[(4263, 8), (4780, 27), (5521, 16), (8794, 21)]),
    ("Full house, twos over kings", &[(10067, 10), (12574, 3), (13925, 23), (18515, 9)]),
    ("Full house, twos over nines", &[(386, 25), (1071, 0), (1740, 4), (4802, 0)]),
    ("Full house, twos over queens", &[(2152, 3), (8339, 20), (14955, 12), (17544, 5)]),
    ("Full house, twos over sevens", &[(2880, 12), (3124, 11), (3876, 7), (7340, 27)]),
    ("Full house, twos over sixes", &[(4110, 15), (10942, 1), (23068, 24), (35478, 2)]),
    ("Full house, twos over tens", &[(478, 16), (8448, 22), (14326, 6), (19487, 1)]),
    ("Full house, twos over threes", &[(1338, 16), (2510, 11), (4152, 4), (11946, 2)]),
    ("Four of a kind, aces", &[(1531, 11), (3320, 14), (17404, 7), (21765, 15)]),
    ("Four of a kind, eights", &[(5301, 14), (5337, 4), (9423, 6), (14036, 28)]),
    ("Four of a kind, fives", &[(18653, 14), (18688, 31), (27344, 13), (33009, 0)]),
    ("Four of a kind, fours", &[(9652, 15), (31255, 21), (35614, 22), (36134, 23)]),
    ("Four of a kind, jacks", &[(9533, 30), (9623, 1), (11370, 25), (11704, 19)]),
    ("Four of a kind, kings", &[(3467, 25), (8671, 3), (14563, 0), (15088, 30)]),
    ("Four of a kind, nines", &[(335, 6), (1504, 15), (2704, 20), (3290, 17)]),
    ("Four of a kind, queens", &[(6816, 20), (9487, 7), (10727, 18), (14416, 23)]),
    ("Four of a kind, sevens", &[(4861, 13), (7939, 26), (8613, 5), (8763, 4)]),
    ("Four of a kind, sixes", &[(3634, 24), (7982, 30), (9077, 27), (11246, 3)]),
    ("Four of a kind, tens", &[(2814, 30), (5759, 3), (6417, 23), (7492, 7)]),
    ("Four of a kind, threes", &[(1238, 0), (11910, 4), (15241, 30), (18973, 13)]),
    ("Four of a kind, twos", &[(2733, 9), (2961, 22), (6091, 9), (20114, 27)]),
    ("Royal flush", &[(94226, 11), (99614, 5), (146772, 5), (160687, 23)]),
    ("Straight flush, eight-high", &[(12377, 7), (44882, 17), (89326, 13), (114036, 19)]),
    ("Straight flush, five-high", &[(9403, 19), (40156, 15), (76663, 0), (81349, 1)]),
    ("Straight flush, jack-high", &[(7710, 29), (19900, 20), (69799, 30), (80819, 17)]),
    ("Straight flush, king-high", &[(4680, 24), (35270, 28), (38717, 31), (78462, 11)]),
    ("Straight flush, nine-high", &[(12377, 14), (17539, 8), (79066, 17), (118861, 20)]),
    ("Straight flush, queen-high", &[(14644, 23), (16070, 31), (22148, 15), (79009, 25)]),
    ("Straight flush, seven-high", &[(14689, 3), (26293, 30), (54685, 23), (159896, 17)]),
    ("Straight flush, six-high", &[(36762, 2), (123613, 17), (227705, 24), (245043, 3)]),
    ("Straight flush, ten-high", &[(23963, 10), (29229, 19), (63016, 20), (63655, 16)]),
];
