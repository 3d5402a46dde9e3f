// Composites that pass the strong test to all but one base of a base set of miller_rabin, or to all beyond the set's limit
static const unsigned long long hard_composites[] = {2047ull, 3277ull, 4033ull, 11041ull, 206981ull, 1373653ull, 1963501ull, 1988029ull, 2035153ull, 9080191ull, 25326001ull, 112702591ull, 134767153ull, 137340451ull, 150988753ull, 218793401ull, 227418133ull, 231405701ull, 247920661ull, 267152033ull, 267559627ull, 1009140161ull, 1011319501ull, 1027744453ull, 1034283421ull, 1183338241ull, 3215031751ull, 4759123141ull, 10374899377ull, 11734359787ull, 13147202251ull, 13723854301ull, 17425111681ull, 18074903681ull, 34816723021ull, 110330267041ull, 114826623031ull, 115206480091ull, 122692333441ull, 123572846953ull, 125412492641ull, 128093304751ull, 128634796153ull, 128996803501ull, 129219384961ull, 130723645027ull, 138894295567ull, 173723791361ull, 1011542237441ull, 1018480605031ull, 1034139077141ull, 1050776628301ull, 1056465857947ull, 1059405330691ull, 1060750744453ull, 1071123220261ull, 1087859951527ull, 1118675164753ull, 1122004669633ull, 2152302898747ull, 3474749660383ull, 10130407471801ull, 10380816337921ull, 11377272352951ull, 12334433741701ull, 14250760079221ull, 15147236416861ull, 16981387733441ull, 18851967524167ull, 20284000798951ull, 22749134240827ull, 27220482764287ull, 32398013051587ull, 58870996578241ull, 61995910815541ull, 75451785985621ull, 85704964823341ull, 155554134371191ull, 161248835066881ull, 180681233758741ull, 192562884509131ull, 226684032515461ull, 267118362607141ull, 341550071728321ull, 495036249224653ull, 611883807969367ull, 678190622066821ull, 740467623587581ull, 1021355031528001ull, 1895700504471481ull, 2139514112080621ull, 2273615634942541ull, 2612317848967261ull, 3834179022906541ull, 6624065024785981ull, 7763023769242141ull, 8000356088224081ull, 8371865933154751ull, 9029309541158341ull, 9772708037810581ull, 38154965342338981ull, 237374891042623951ull, 283840830380224981ull, 956203696888117567ull, 2512860749215923151ull, 2944507648448511811ull, 2947794550881573331ull, 3007021006231123771ull, 3055910700760530931ull, 3439253625043989061ull, 3825123056546413051ull, 14638630905349781221ull, 15860485967330334331ull};
