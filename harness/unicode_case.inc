// code point, lower, upper, title: the full case mappings of Unicode 6.0 (from the Unicode data of Python and Perl)
{65,"\x61",0,0},
{66,"\x62",0,0},
{67,"\x63",0,0},
{68,"\x64",0,0},
{69,"\x65",0,0},
{70,"\x66",0,0},
{71,"\x67",0,0},
{72,"\x68",0,0},
{73,"\x69",0,0},
{74,"\x6a",0,0},
{75,"\x6b",0,0},
{76,"\x6c",0,0},
{77,"\x6d",0,0},
{78,"\x6e",0,0},
{79,"\x6f",0,0},
{80,"\x70",0,0},
{81,"\x71",0,0},
{82,"\x72",0,0},
{83,"\x73",0,0},
{84,"\x74",0,0},
{85,"\x75",0,0},
{86,"\x76",0,0},
{87,"\x77",0,0},
{88,"\x78",0,0},
{89,"\x79",0,0},
{90,"\x7a",0,0},
{97,0,"\x41","\x41"},
{98,0,"\x42","\x42"},
{99,0,"\x43","\x43"},
{100,0,"\x44","\x44"},
{101,0,"\x45","\x45"},
{102,0,"\x46","\x46"},
{103,0,"\x47","\x47"},
{104,0,"\x48","\x48"},
{105,0,"\x49","\x49"},
{106,0,"\x4a","\x4a"},
{107,0,"\x4b","\x4b"},
{108,0,"\x4c","\x4c"},
{109,0,"\x4d","\x4d"},
{110,0,"\x4e","\x4e"},
{111,0,"\x4f","\x4f"},
{112,0,"\x50","\x50"},
{113,0,"\x51","\x51"},
{114,0,"\x52","\x52"},
{115,0,"\x53","\x53"},
{116,0,"\x54","\x54"},
{117,0,"\x55","\x55"},
{118,0,"\x56","\x56"},
{119,0,"\x57","\x57"},
{120,0,"\x58","\x58"},
{121,0,"\x59","\x59"},
{122,0,"\x5a","\x5a"},
{181,0,"\xce\x9c","\xce\x9c"},
{192,"\xc3\xa0",0,0},
{193,"\xc3\xa1",0,0},
{194,"\xc3\xa2",0,0},
{195,"\xc3\xa3",0,0},
{196,"\xc3\xa4",0,0},
{197,"\xc3\xa5",0,0},
{198,"\xc3\xa6",0,0},
{199,"\xc3\xa7",0,0},
{200,"\xc3\xa8",0,0},
{201,"\xc3\xa9",0,0},
{202,"\xc3\xaa",0,0},
{203,"\xc3\xab",0,0},
{204,"\xc3\xac",0,0},
{205,"\xc3\xad",0,0},
{206,"\xc3\xae",0,0},
{207,"\xc3\xaf",0,0},
{208,"\xc3\xb0",0,0},
{209,"\xc3\xb1",0,0},
{210,"\xc3\xb2",0,0},
{211,"\xc3\xb3",0,0},
{212,"\xc3\xb4",0,0},
{213,"\xc3\xb5",0,0},
{214,"\xc3\xb6",0,0},
{216,"\xc3\xb8",0,0},
{217,"\xc3\xb9",0,0},
{218,"\xc3\xba",0,0},
{219,"\xc3\xbb",0,0},
{220,"\xc3\xbc",0,0},
{221,"\xc3\xbd",0,0},
{222,"\xc3\xbe",0,0},
{223,0,"\x53\x53","\x53\x73"},
{224,0,"\xc3\x80","\xc3\x80"},
{225,0,"\xc3\x81","\xc3\x81"},
{226,0,"\xc3\x82","\xc3\x82"},
{227,0,"\xc3\x83","\xc3\x83"},
{228,0,"\xc3\x84","\xc3\x84"},
{229,0,"\xc3\x85","\xc3\x85"},
{230,0,"\xc3\x86","\xc3\x86"},
{231,0,"\xc3\x87","\xc3\x87"},
{232,0,"\xc3\x88","\xc3\x88"},
{233,0,"\xc3\x89","\xc3\x89"},
{234,0,"\xc3\x8a","\xc3\x8a"},
{235,0,"\xc3\x8b","\xc3\x8b"},
{236,0,"\xc3\x8c","\xc3\x8c"},
{237,0,"\xc3\x8d","\xc3\x8d"},
{238,0,"\xc3\x8e","\xc3\x8e"},
{239,0,"\xc3\x8f","\xc3\x8f"},
{240,0,"\xc3\x90","\xc3\x90"},
{241,0,"\xc3\x91","\xc3\x91"},
{242,0,"\xc3\x92","\xc3\x92"},
{243,0,"\xc3\x93","\xc3\x93"},
{244,0,"\xc3\x94","\xc3\x94"},
{245,0,"\xc3\x95","\xc3\x95"},
{246,0,"\xc3\x96","\xc3\x96"},
{248,0,"\xc3\x98","\xc3\x98"},
{249,0,"\xc3\x99","\xc3\x99"},
{250,0,"\xc3\x9a","\xc3\x9a"},
{251,0,"\xc3\x9b","\xc3\x9b"},
{252,0,"\xc3\x9c","\xc3\x9c"},
{253,0,"\xc3\x9d","\xc3\x9d"},
{254,0,"\xc3\x9e","\xc3\x9e"},
{255,0,"\xc5\xb8","\xc5\xb8"},
{256,"\xc4\x81",0,0},
{257,0,"\xc4\x80","\xc4\x80"},
{258,"\xc4\x83",0,0},
{259,0,"\xc4\x82","\xc4\x82"},
{260,"\xc4\x85",0,0},
{261,0,"\xc4\x84","\xc4\x84"},
{262,"\xc4\x87",0,0},
{263,0,"\xc4\x86","\xc4\x86"},
{264,"\xc4\x89",0,0},
{265,0,"\xc4\x88","\xc4\x88"},
{266,"\xc4\x8b",0,0},
{267,0,"\xc4\x8a","\xc4\x8a"},
{268,"\xc4\x8d",0,0},
{269,0,"\xc4\x8c","\xc4\x8c"},
{270,"\xc4\x8f",0,0},
{271,0,"\xc4\x8e","\xc4\x8e"},
{272,"\xc4\x91",0,0},
{273,0,"\xc4\x90","\xc4\x90"},
{274,"\xc4\x93",0,0},
{275,0,"\xc4\x92","\xc4\x92"},
{276,"\xc4\x95",0,0},
{277,0,"\xc4\x94","\xc4\x94"},
{278,"\xc4\x97",0,0},
{279,0,"\xc4\x96","\xc4\x96"},
{280,"\xc4\x99",0,0},
{281,0,"\xc4\x98","\xc4\x98"},
{282,"\xc4\x9b",0,0},
{283,0,"\xc4\x9a","\xc4\x9a"},
{284,"\xc4\x9d",0,0},
{285,0,"\xc4\x9c","\xc4\x9c"},
{286,"\xc4\x9f",0,0},
{287,0,"\xc4\x9e","\xc4\x9e"},
{288,"\xc4\xa1",0,0},
{289,0,"\xc4\xa0","\xc4\xa0"},
{290,"\xc4\xa3",0,0},
{291,0,"\xc4\xa2","\xc4\xa2"},
{292,"\xc4\xa5",0,0},
{293,0,"\xc4\xa4","\xc4\xa4"},
{294,"\xc4\xa7",0,0},
{295,0,"\xc4\xa6","\xc4\xa6"},
{296,"\xc4\xa9",0,0},
{297,0,"\xc4\xa8","\xc4\xa8"},
{298,"\xc4\xab",0,0},
{299,0,"\xc4\xaa","\xc4\xaa"},
{300,"\xc4\xad",0,0},
{301,0,"\xc4\xac","\xc4\xac"},
{302,"\xc4\xaf",0,0},
{303,0,"\xc4\xae","\xc4\xae"},
{304,"\x69\xcc\x87",0,0},
{305,0,"\x49","\x49"},
{306,"\xc4\xb3",0,0},
{307,0,"\xc4\xb2","\xc4\xb2"},
{308,"\xc4\xb5",0,0},
{309,0,"\xc4\xb4","\xc4\xb4"},
{310,"\xc4\xb7",0,0},
{311,0,"\xc4\xb6","\xc4\xb6"},
{313,"\xc4\xba",0,0},
{314,0,"\xc4\xb9","\xc4\xb9"},
{315,"\xc4\xbc",0,0},
{316,0,"\xc4\xbb","\xc4\xbb"},
{317,"\xc4\xbe",0,0},
{318,0,"\xc4\xbd","\xc4\xbd"},
{319,"\xc5\x80",0,0},
{320,0,"\xc4\xbf","\xc4\xbf"},
{321,"\xc5\x82",0,0},
{322,0,"\xc5\x81","\xc5\x81"},
{323,"\xc5\x84",0,0},
{324,0,"\xc5\x83","\xc5\x83"},
{325,"\xc5\x86",0,0},
{326,0,"\xc5\x85","\xc5\x85"},
{327,"\xc5\x88",0,0},
{328,0,"\xc5\x87","\xc5\x87"},
{329,0,"\xca\xbc\x4e","\xca\xbc\x4e"},
{330,"\xc5\x8b",0,0},
{331,0,"\xc5\x8a","\xc5\x8a"},
{332,"\xc5\x8d",0,0},
{333,0,"\xc5\x8c","\xc5\x8c"},
{334,"\xc5\x8f",0,0},
{335,0,"\xc5\x8e","\xc5\x8e"},
{336,"\xc5\x91",0,0},
{337,0,"\xc5\x90","\xc5\x90"},
{338,"\xc5\x93",0,0},
{339,0,"\xc5\x92","\xc5\x92"},
{340,"\xc5\x95",0,0},
{341,0,"\xc5\x94","\xc5\x94"},
{342,"\xc5\x97",0,0},
{343,0,"\xc5\x96","\xc5\x96"},
{344,"\xc5\x99",0,0},
{345,0,"\xc5\x98","\xc5\x98"},
{346,"\xc5\x9b",0,0},
{347,0,"\xc5\x9a","\xc5\x9a"},
{348,"\xc5\x9d",0,0},
{349,0,"\xc5\x9c","\xc5\x9c"},
{350,"\xc5\x9f",0,0},
{351,0,"\xc5\x9e","\xc5\x9e"},
{352,"\xc5\xa1",0,0},
{353,0,"\xc5\xa0","\xc5\xa0"},
{354,"\xc5\xa3",0,0},
{355,0,"\xc5\xa2","\xc5\xa2"},
{356,"\xc5\xa5",0,0},
{357,0,"\xc5\xa4","\xc5\xa4"},
{358,"\xc5\xa7",0,0},
{359,0,"\xc5\xa6","\xc5\xa6"},
{360,"\xc5\xa9",0,0},
{361,0,"\xc5\xa8","\xc5\xa8"},
{362,"\xc5\xab",0,0},
{363,0,"\xc5\xaa","\xc5\xaa"},
{364,"\xc5\xad",0,0},
{365,0,"\xc5\xac","\xc5\xac"},
{366,"\xc5\xaf",0,0},
{367,0,"\xc5\xae","\xc5\xae"},
{368,"\xc5\xb1",0,0},
{369,0,"\xc5\xb0","\xc5\xb0"},
{370,"\xc5\xb3",0,0},
{371,0,"\xc5\xb2","\xc5\xb2"},
{372,"\xc5\xb5",0,0},
{373,0,"\xc5\xb4","\xc5\xb4"},
{374,"\xc5\xb7",0,0},
{375,0,"\xc5\xb6","\xc5\xb6"},
{376,"\xc3\xbf",0,0},
{377,"\xc5\xba",0,0},
{378,0,"\xc5\xb9","\xc5\xb9"},
{379,"\xc5\xbc",0,0},
{380,0,"\xc5\xbb","\xc5\xbb"},
{381,"\xc5\xbe",0,0},
{382,0,"\xc5\xbd","\xc5\xbd"},
{383,0,"\x53","\x53"},
{384,0,"\xc9\x83","\xc9\x83"},
{385,"\xc9\x93",0,0},
{386,"\xc6\x83",0,0},
{387,0,"\xc6\x82","\xc6\x82"},
{388,"\xc6\x85",0,0},
{389,0,"\xc6\x84","\xc6\x84"},
{390,"\xc9\x94",0,0},
{391,"\xc6\x88",0,0},
{392,0,"\xc6\x87","\xc6\x87"},
{393,"\xc9\x96",0,0},
{394,"\xc9\x97",0,0},
{395,"\xc6\x8c",0,0},
{396,0,"\xc6\x8b","\xc6\x8b"},
{398,"\xc7\x9d",0,0},
{399,"\xc9\x99",0,0},
{400,"\xc9\x9b",0,0},
{401,"\xc6\x92",0,0},
{402,0,"\xc6\x91","\xc6\x91"},
{403,"\xc9\xa0",0,0},
{404,"\xc9\xa3",0,0},
{405,0,"\xc7\xb6","\xc7\xb6"},
{406,"\xc9\xa9",0,0},
{407,"\xc9\xa8",0,0},
{408,"\xc6\x99",0,0},
{409,0,"\xc6\x98","\xc6\x98"},
{410,0,"\xc8\xbd","\xc8\xbd"},
{412,"\xc9\xaf",0,0},
{413,"\xc9\xb2",0,0},
{414,0,"\xc8\xa0","\xc8\xa0"},
{415,"\xc9\xb5",0,0},
{416,"\xc6\xa1",0,0},
{417,0,"\xc6\xa0","\xc6\xa0"},
{418,"\xc6\xa3",0,0},
{419,0,"\xc6\xa2","\xc6\xa2"},
{420,"\xc6\xa5",0,0},
{421,0,"\xc6\xa4","\xc6\xa4"},
{422,"\xca\x80",0,0},
{423,"\xc6\xa8",0,0},
{424,0,"\xc6\xa7","\xc6\xa7"},
{425,"\xca\x83",0,0},
{428,"\xc6\xad",0,0},
{429,0,"\xc6\xac","\xc6\xac"},
{430,"\xca\x88",0,0},
{431,"\xc6\xb0",0,0},
{432,0,"\xc6\xaf","\xc6\xaf"},
{433,"\xca\x8a",0,0},
{434,"\xca\x8b",0,0},
{435,"\xc6\xb4",0,0},
{436,0,"\xc6\xb3","\xc6\xb3"},
{437,"\xc6\xb6",0,0},
{438,0,"\xc6\xb5","\xc6\xb5"},
{439,"\xca\x92",0,0},
{440,"\xc6\xb9",0,0},
{441,0,"\xc6\xb8","\xc6\xb8"},
{444,"\xc6\xbd",0,0},
{445,0,"\xc6\xbc","\xc6\xbc"},
{447,0,"\xc7\xb7","\xc7\xb7"},
{452,"\xc7\x86",0,"\xc7\x85"},
{453,"\xc7\x86","\xc7\x84",0},
{454,0,"\xc7\x84","\xc7\x85"},
{455,"\xc7\x89",0,"\xc7\x88"},
{456,"\xc7\x89","\xc7\x87",0},
{457,0,"\xc7\x87","\xc7\x88"},
{458,"\xc7\x8c",0,"\xc7\x8b"},
{459,"\xc7\x8c","\xc7\x8a",0},
{460,0,"\xc7\x8a","\xc7\x8b"},
{461,"\xc7\x8e",0,0},
{462,0,"\xc7\x8d","\xc7\x8d"},
{463,"\xc7\x90",0,0},
{464,0,"\xc7\x8f","\xc7\x8f"},
{465,"\xc7\x92",0,0},
{466,0,"\xc7\x91","\xc7\x91"},
{467,"\xc7\x94",0,0},
{468,0,"\xc7\x93","\xc7\x93"},
{469,"\xc7\x96",0,0},
{470,0,"\xc7\x95","\xc7\x95"},
{471,"\xc7\x98",0,0},
{472,0,"\xc7\x97","\xc7\x97"},
{473,"\xc7\x9a",0,0},
{474,0,"\xc7\x99","\xc7\x99"},
{475,"\xc7\x9c",0,0},
{476,0,"\xc7\x9b","\xc7\x9b"},
{477,0,"\xc6\x8e","\xc6\x8e"},
{478,"\xc7\x9f",0,0},
{479,0,"\xc7\x9e","\xc7\x9e"},
{480,"\xc7\xa1",0,0},
{481,0,"\xc7\xa0","\xc7\xa0"},
{482,"\xc7\xa3",0,0},
{483,0,"\xc7\xa2","\xc7\xa2"},
{484,"\xc7\xa5",0,0},
{485,0,"\xc7\xa4","\xc7\xa4"},
{486,"\xc7\xa7",0,0},
{487,0,"\xc7\xa6","\xc7\xa6"},
{488,"\xc7\xa9",0,0},
{489,0,"\xc7\xa8","\xc7\xa8"},
{490,"\xc7\xab",0,0},
{491,0,"\xc7\xaa","\xc7\xaa"},
{492,"\xc7\xad",0,0},
{493,0,"\xc7\xac","\xc7\xac"},
{494,"\xc7\xaf",0,0},
{495,0,"\xc7\xae","\xc7\xae"},
{496,0,"\x4a\xcc\x8c","\x4a\xcc\x8c"},
{497,"\xc7\xb3",0,"\xc7\xb2"},
{498,"\xc7\xb3","\xc7\xb1",0},
{499,0,"\xc7\xb1","\xc7\xb2"},
{500,"\xc7\xb5",0,0},
{501,0,"\xc7\xb4","\xc7\xb4"},
{502,"\xc6\x95",0,0},
{503,"\xc6\xbf",0,0},
{504,"\xc7\xb9",0,0},
{505,0,"\xc7\xb8","\xc7\xb8"},
{506,"\xc7\xbb",0,0},
{507,0,"\xc7\xba","\xc7\xba"},
{508,"\xc7\xbd",0,0},
{509,0,"\xc7\xbc","\xc7\xbc"},
{510,"\xc7\xbf",0,0},
{511,0,"\xc7\xbe","\xc7\xbe"},
{512,"\xc8\x81",0,0},
{513,0,"\xc8\x80","\xc8\x80"},
{514,"\xc8\x83",0,0},
{515,0,"\xc8\x82","\xc8\x82"},
{516,"\xc8\x85",0,0},
{517,0,"\xc8\x84","\xc8\x84"},
{518,"\xc8\x87",0,0},
{519,0,"\xc8\x86","\xc8\x86"},
{520,"\xc8\x89",0,0},
{521,0,"\xc8\x88","\xc8\x88"},
{522,"\xc8\x8b",0,0},
{523,0,"\xc8\x8a","\xc8\x8a"},
{524,"\xc8\x8d",0,0},
{525,0,"\xc8\x8c","\xc8\x8c"},
{526,"\xc8\x8f",0,0},
{527,0,"\xc8\x8e","\xc8\x8e"},
{528,"\xc8\x91",0,0},
{529,0,"\xc8\x90","\xc8\x90"},
{530,"\xc8\x93",0,0},
{531,0,"\xc8\x92","\xc8\x92"},
{532,"\xc8\x95",0,0},
{533,0,"\xc8\x94","\xc8\x94"},
{534,"\xc8\x97",0,0},
{535,0,"\xc8\x96","\xc8\x96"},
{536,"\xc8\x99",0,0},
{537,0,"\xc8\x98","\xc8\x98"},
{538,"\xc8\x9b",0,0},
{539,0,"\xc8\x9a","\xc8\x9a"},
{540,"\xc8\x9d",0,0},
{541,0,"\xc8\x9c","\xc8\x9c"},
{542,"\xc8\x9f",0,0},
{543,0,"\xc8\x9e","\xc8\x9e"},
{544,"\xc6\x9e",0,0},
{546,"\xc8\xa3",0,0},
{547,0,"\xc8\xa2","\xc8\xa2"},
{548,"\xc8\xa5",0,0},
{549,0,"\xc8\xa4","\xc8\xa4"},
{550,"\xc8\xa7",0,0},
{551,0,"\xc8\xa6","\xc8\xa6"},
{552,"\xc8\xa9",0,0},
{553,0,"\xc8\xa8","\xc8\xa8"},
{554,"\xc8\xab",0,0},
{555,0,"\xc8\xaa","\xc8\xaa"},
{556,"\xc8\xad",0,0},
{557,0,"\xc8\xac","\xc8\xac"},
{558,"\xc8\xaf",0,0},
{559,0,"\xc8\xae","\xc8\xae"},
{560,"\xc8\xb1",0,0},
{561,0,"\xc8\xb0","\xc8\xb0"},
{562,"\xc8\xb3",0,0},
{563,0,"\xc8\xb2","\xc8\xb2"},
{570,"\xe2\xb1\xa5",0,0},
{571,"\xc8\xbc",0,0},
{572,0,"\xc8\xbb","\xc8\xbb"},
{573,"\xc6\x9a",0,0},
{574,"\xe2\xb1\xa6",0,0},
{575,0,"\xe2\xb1\xbe","\xe2\xb1\xbe"},
{576,0,"\xe2\xb1\xbf","\xe2\xb1\xbf"},
{577,"\xc9\x82",0,0},
{578,0,"\xc9\x81","\xc9\x81"},
{579,"\xc6\x80",0,0},
{580,"\xca\x89",0,0},
{581,"\xca\x8c",0,0},
{582,"\xc9\x87",0,0},
{583,0,"\xc9\x86","\xc9\x86"},
{584,"\xc9\x89",0,0},
{585,0,"\xc9\x88","\xc9\x88"},
{586,"\xc9\x8b",0,0},
{587,0,"\xc9\x8a","\xc9\x8a"},
{588,"\xc9\x8d",0,0},
{589,0,"\xc9\x8c","\xc9\x8c"},
{590,"\xc9\x8f",0,0},
{591,0,"\xc9\x8e","\xc9\x8e"},
{592,0,"\xe2\xb1\xaf","\xe2\xb1\xaf"},
{593,0,"\xe2\xb1\xad","\xe2\xb1\xad"},
{594,0,"\xe2\xb1\xb0","\xe2\xb1\xb0"},
{595,0,"\xc6\x81","\xc6\x81"},
{596,0,"\xc6\x86","\xc6\x86"},
{598,0,"\xc6\x89","\xc6\x89"},
{599,0,"\xc6\x8a","\xc6\x8a"},
{601,0,"\xc6\x8f","\xc6\x8f"},
{603,0,"\xc6\x90","\xc6\x90"},
{608,0,"\xc6\x93","\xc6\x93"},
{611,0,"\xc6\x94","\xc6\x94"},
{613,0,"\xea\x9e\x8d","\xea\x9e\x8d"},
{616,0,"\xc6\x97","\xc6\x97"},
{617,0,"\xc6\x96","\xc6\x96"},
{619,0,"\xe2\xb1\xa2","\xe2\xb1\xa2"},
{623,0,"\xc6\x9c","\xc6\x9c"},
{625,0,"\xe2\xb1\xae","\xe2\xb1\xae"},
{626,0,"\xc6\x9d","\xc6\x9d"},
{629,0,"\xc6\x9f","\xc6\x9f"},
{637,0,"\xe2\xb1\xa4","\xe2\xb1\xa4"},
{640,0,"\xc6\xa6","\xc6\xa6"},
{643,0,"\xc6\xa9","\xc6\xa9"},
{648,0,"\xc6\xae","\xc6\xae"},
{649,0,"\xc9\x84","\xc9\x84"},
{650,0,"\xc6\xb1","\xc6\xb1"},
{651,0,"\xc6\xb2","\xc6\xb2"},
{652,0,"\xc9\x85","\xc9\x85"},
{658,0,"\xc6\xb7","\xc6\xb7"},
{837,0,"\xce\x99","\xce\x99"},
{880,"\xcd\xb1",0,0},
{881,0,"\xcd\xb0","\xcd\xb0"},
{882,"\xcd\xb3",0,0},
{883,0,"\xcd\xb2","\xcd\xb2"},
{886,"\xcd\xb7",0,0},
{887,0,"\xcd\xb6","\xcd\xb6"},
{891,0,"\xcf\xbd","\xcf\xbd"},
{892,0,"\xcf\xbe","\xcf\xbe"},
{893,0,"\xcf\xbf","\xcf\xbf"},
{902,"\xce\xac",0,0},
{904,"\xce\xad",0,0},
{905,"\xce\xae",0,0},
{906,"\xce\xaf",0,0},
{908,"\xcf\x8c",0,0},
{910,"\xcf\x8d",0,0},
{911,"\xcf\x8e",0,0},
{912,0,"\xce\x99\xcc\x88\xcc\x81","\xce\x99\xcc\x88\xcc\x81"},
{913,"\xce\xb1",0,0},
{914,"\xce\xb2",0,0},
{915,"\xce\xb3",0,0},
{916,"\xce\xb4",0,0},
{917,"\xce\xb5",0,0},
{918,"\xce\xb6",0,0},
{919,"\xce\xb7",0,0},
{920,"\xce\xb8",0,0},
{921,"\xce\xb9",0,0},
{922,"\xce\xba",0,0},
{923,"\xce\xbb",0,0},
{924,"\xce\xbc",0,0},
{925,"\xce\xbd",0,0},
{926,"\xce\xbe",0,0},
{927,"\xce\xbf",0,0},
{928,"\xcf\x80",0,0},
{929,"\xcf\x81",0,0},
{931,"\xcf\x83",0,0},
{932,"\xcf\x84",0,0},
{933,"\xcf\x85",0,0},
{934,"\xcf\x86",0,0},
{935,"\xcf\x87",0,0},
{936,"\xcf\x88",0,0},
{937,"\xcf\x89",0,0},
{938,"\xcf\x8a",0,0},
{939,"\xcf\x8b",0,0},
{940,0,"\xce\x86","\xce\x86"},
{941,0,"\xce\x88","\xce\x88"},
{942,0,"\xce\x89","\xce\x89"},
{943,0,"\xce\x8a","\xce\x8a"},
{944,0,"\xce\xa5\xcc\x88\xcc\x81","\xce\xa5\xcc\x88\xcc\x81"},
{945,0,"\xce\x91","\xce\x91"},
{946,0,"\xce\x92","\xce\x92"},
{947,0,"\xce\x93","\xce\x93"},
{948,0,"\xce\x94","\xce\x94"},
{949,0,"\xce\x95","\xce\x95"},
{950,0,"\xce\x96","\xce\x96"},
{951,0,"\xce\x97","\xce\x97"},
{952,0,"\xce\x98","\xce\x98"},
{953,0,"\xce\x99","\xce\x99"},
{954,0,"\xce\x9a","\xce\x9a"},
{955,0,"\xce\x9b","\xce\x9b"},
{956,0,"\xce\x9c","\xce\x9c"},
{957,0,"\xce\x9d","\xce\x9d"},
{958,0,"\xce\x9e","\xce\x9e"},
{959,0,"\xce\x9f","\xce\x9f"},
{960,0,"\xce\xa0","\xce\xa0"},
{961,0,"\xce\xa1","\xce\xa1"},
{962,0,"\xce\xa3","\xce\xa3"},
{963,0,"\xce\xa3","\xce\xa3"},
{964,0,"\xce\xa4","\xce\xa4"},
{965,0,"\xce\xa5","\xce\xa5"},
{966,0,"\xce\xa6","\xce\xa6"},
{967,0,"\xce\xa7","\xce\xa7"},
{968,0,"\xce\xa8","\xce\xa8"},
{969,0,"\xce\xa9","\xce\xa9"},
{970,0,"\xce\xaa","\xce\xaa"},
{971,0,"\xce\xab","\xce\xab"},
{972,0,"\xce\x8c","\xce\x8c"},
{973,0,"\xce\x8e","\xce\x8e"},
{974,0,"\xce\x8f","\xce\x8f"},
{975,"\xcf\x97",0,0},
{976,0,"\xce\x92","\xce\x92"},
{977,0,"\xce\x98","\xce\x98"},
{981,0,"\xce\xa6","\xce\xa6"},
{982,0,"\xce\xa0","\xce\xa0"},
{983,0,"\xcf\x8f","\xcf\x8f"},
{984,"\xcf\x99",0,0},
{985,0,"\xcf\x98","\xcf\x98"},
{986,"\xcf\x9b",0,0},
{987,0,"\xcf\x9a","\xcf\x9a"},
{988,"\xcf\x9d",0,0},
{989,0,"\xcf\x9c","\xcf\x9c"},
{990,"\xcf\x9f",0,0},
{991,0,"\xcf\x9e","\xcf\x9e"},
{992,"\xcf\xa1",0,0},
{993,0,"\xcf\xa0","\xcf\xa0"},
{994,"\xcf\xa3",0,0},
{995,0,"\xcf\xa2","\xcf\xa2"},
{996,"\xcf\xa5",0,0},
{997,0,"\xcf\xa4","\xcf\xa4"},
{998,"\xcf\xa7",0,0},
{999,0,"\xcf\xa6","\xcf\xa6"},
{1000,"\xcf\xa9",0,0},
{1001,0,"\xcf\xa8","\xcf\xa8"},
{1002,"\xcf\xab",0,0},
{1003,0,"\xcf\xaa","\xcf\xaa"},
{1004,"\xcf\xad",0,0},
{1005,0,"\xcf\xac","\xcf\xac"},
{1006,"\xcf\xaf",0,0},
{1007,0,"\xcf\xae","\xcf\xae"},
{1008,0,"\xce\x9a","\xce\x9a"},
{1009,0,"\xce\xa1","\xce\xa1"},
{1010,0,"\xcf\xb9","\xcf\xb9"},
{1012,"\xce\xb8",0,0},
{1013,0,"\xce\x95","\xce\x95"},
{1015,"\xcf\xb8",0,0},
{1016,0,"\xcf\xb7","\xcf\xb7"},
{1017,"\xcf\xb2",0,0},
{1018,"\xcf\xbb",0,0},
{1019,0,"\xcf\xba","\xcf\xba"},
{1021,"\xcd\xbb",0,0},
{1022,"\xcd\xbc",0,0},
{1023,"\xcd\xbd",0,0},
{1024,"\xd1\x90",0,0},
{1025,"\xd1\x91",0,0},
{1026,"\xd1\x92",0,0},
{1027,"\xd1\x93",0,0},
{1028,"\xd1\x94",0,0},
{1029,"\xd1\x95",0,0},
{1030,"\xd1\x96",0,0},
{1031,"\xd1\x97",0,0},
{1032,"\xd1\x98",0,0},
{1033,"\xd1\x99",0,0},
{1034,"\xd1\x9a",0,0},
{1035,"\xd1\x9b",0,0},
{1036,"\xd1\x9c",0,0},
{1037,"\xd1\x9d",0,0},
{1038,"\xd1\x9e",0,0},
{1039,"\xd1\x9f",0,0},
{1040,"\xd0\xb0",0,0},
{1041,"\xd0\xb1",0,0},
{1042,"\xd0\xb2",0,0},
{1043,"\xd0\xb3",0,0},
{1044,"\xd0\xb4",0,0},
{1045,"\xd0\xb5",0,0},
{1046,"\xd0\xb6",0,0},
{1047,"\xd0\xb7",0,0},
{1048,"\xd0\xb8",0,0},
{1049,"\xd0\xb9",0,0},
{1050,"\xd0\xba",0,0},
{1051,"\xd0\xbb",0,0},
{1052,"\xd0\xbc",0,0},
{1053,"\xd0\xbd",0,0},
{1054,"\xd0\xbe",0,0},
{1055,"\xd0\xbf",0,0},
{1056,"\xd1\x80",0,0},
{1057,"\xd1\x81",0,0},
{1058,"\xd1\x82",0,0},
{1059,"\xd1\x83",0,0},
{1060,"\xd1\x84",0,0},
{1061,"\xd1\x85",0,0},
{1062,"\xd1\x86",0,0},
{1063,"\xd1\x87",0,0},
{1064,"\xd1\x88",0,0},
{1065,"\xd1\x89",0,0},
{1066,"\xd1\x8a",0,0},
{1067,"\xd1\x8b",0,0},
{1068,"\xd1\x8c",0,0},
{1069,"\xd1\x8d",0,0},
{1070,"\xd1\x8e",0,0},
{1071,"\xd1\x8f",0,0},
{1072,0,"\xd0\x90","\xd0\x90"},
{1073,0,"\xd0\x91","\xd0\x91"},
{1074,0,"\xd0\x92","\xd0\x92"},
{1075,0,"\xd0\x93","\xd0\x93"},
{1076,0,"\xd0\x94","\xd0\x94"},
{1077,0,"\xd0\x95","\xd0\x95"},
{1078,0,"\xd0\x96","\xd0\x96"},
{1079,0,"\xd0\x97","\xd0\x97"},
{1080,0,"\xd0\x98","\xd0\x98"},
{1081,0,"\xd0\x99","\xd0\x99"},
{1082,0,"\xd0\x9a","\xd0\x9a"},
{1083,0,"\xd0\x9b","\xd0\x9b"},
{1084,0,"\xd0\x9c","\xd0\x9c"},
{1085,0,"\xd0\x9d","\xd0\x9d"},
{1086,0,"\xd0\x9e","\xd0\x9e"},
{1087,0,"\xd0\x9f","\xd0\x9f"},
{1088,0,"\xd0\xa0","\xd0\xa0"},
{1089,0,"\xd0\xa1","\xd0\xa1"},
{1090,0,"\xd0\xa2","\xd0\xa2"},
{1091,0,"\xd0\xa3","\xd0\xa3"},
{1092,0,"\xd0\xa4","\xd0\xa4"},
{1093,0,"\xd0\xa5","\xd0\xa5"},
{1094,0,"\xd0\xa6","\xd0\xa6"},
{1095,0,"\xd0\xa7","\xd0\xa7"},
{1096,0,"\xd0\xa8","\xd0\xa8"},
{1097,0,"\xd0\xa9","\xd0\xa9"},
{1098,0,"\xd0\xaa","\xd0\xaa"},
{1099,0,"\xd0\xab","\xd0\xab"},
{1100,0,"\xd0\xac","\xd0\xac"},
{1101,0,"\xd0\xad","\xd0\xad"},
{1102,0,"\xd0\xae","\xd0\xae"},
{1103,0,"\xd0\xaf","\xd0\xaf"},
{1104,0,"\xd0\x80","\xd0\x80"},
{1105,0,"\xd0\x81","\xd0\x81"},
{1106,0,"\xd0\x82","\xd0\x82"},
{1107,0,"\xd0\x83","\xd0\x83"},
{1108,0,"\xd0\x84","\xd0\x84"},
{1109,0,"\xd0\x85","\xd0\x85"},
{1110,0,"\xd0\x86","\xd0\x86"},
{1111,0,"\xd0\x87","\xd0\x87"},
{1112,0,"\xd0\x88","\xd0\x88"},
{1113,0,"\xd0\x89","\xd0\x89"},
{1114,0,"\xd0\x8a","\xd0\x8a"},
{1115,0,"\xd0\x8b","\xd0\x8b"},
{1116,0,"\xd0\x8c","\xd0\x8c"},
{1117,0,"\xd0\x8d","\xd0\x8d"},
{1118,0,"\xd0\x8e","\xd0\x8e"},
{1119,0,"\xd0\x8f","\xd0\x8f"},
{1120,"\xd1\xa1",0,0},
{1121,0,"\xd1\xa0","\xd1\xa0"},
{1122,"\xd1\xa3",0,0},
{1123,0,"\xd1\xa2","\xd1\xa2"},
{1124,"\xd1\xa5",0,0},
{1125,0,"\xd1\xa4","\xd1\xa4"},
{1126,"\xd1\xa7",0,0},
{1127,0,"\xd1\xa6","\xd1\xa6"},
{1128,"\xd1\xa9",0,0},
{1129,0,"\xd1\xa8","\xd1\xa8"},
{1130,"\xd1\xab",0,0},
{1131,0,"\xd1\xaa","\xd1\xaa"},
{1132,"\xd1\xad",0,0},
{1133,0,"\xd1\xac","\xd1\xac"},
{1134,"\xd1\xaf",0,0},
{1135,0,"\xd1\xae","\xd1\xae"},
{1136,"\xd1\xb1",0,0},
{1137,0,"\xd1\xb0","\xd1\xb0"},
{1138,"\xd1\xb3",0,0},
{1139,0,"\xd1\xb2","\xd1\xb2"},
{1140,"\xd1\xb5",0,0},
{1141,0,"\xd1\xb4","\xd1\xb4"},
{1142,"\xd1\xb7",0,0},
{1143,0,"\xd1\xb6","\xd1\xb6"},
{1144,"\xd1\xb9",0,0},
{1145,0,"\xd1\xb8","\xd1\xb8"},
{1146,"\xd1\xbb",0,0},
{1147,0,"\xd1\xba","\xd1\xba"},
{1148,"\xd1\xbd",0,0},
{1149,0,"\xd1\xbc","\xd1\xbc"},
{1150,"\xd1\xbf",0,0},
{1151,0,"\xd1\xbe","\xd1\xbe"},
{1152,"\xd2\x81",0,0},
{1153,0,"\xd2\x80","\xd2\x80"},
{1162,"\xd2\x8b",0,0},
{1163,0,"\xd2\x8a","\xd2\x8a"},
{1164,"\xd2\x8d",0,0},
{1165,0,"\xd2\x8c","\xd2\x8c"},
{1166,"\xd2\x8f",0,0},
{1167,0,"\xd2\x8e","\xd2\x8e"},
{1168,"\xd2\x91",0,0},
{1169,0,"\xd2\x90","\xd2\x90"},
{1170,"\xd2\x93",0,0},
{1171,0,"\xd2\x92","\xd2\x92"},
{1172,"\xd2\x95",0,0},
{1173,0,"\xd2\x94","\xd2\x94"},
{1174,"\xd2\x97",0,0},
{1175,0,"\xd2\x96","\xd2\x96"},
{1176,"\xd2\x99",0,0},
{1177,0,"\xd2\x98","\xd2\x98"},
{1178,"\xd2\x9b",0,0},
{1179,0,"\xd2\x9a","\xd2\x9a"},
{1180,"\xd2\x9d",0,0},
{1181,0,"\xd2\x9c","\xd2\x9c"},
{1182,"\xd2\x9f",0,0},
{1183,0,"\xd2\x9e","\xd2\x9e"},
{1184,"\xd2\xa1",0,0},
{1185,0,"\xd2\xa0","\xd2\xa0"},
{1186,"\xd2\xa3",0,0},
{1187,0,"\xd2\xa2","\xd2\xa2"},
{1188,"\xd2\xa5",0,0},
{1189,0,"\xd2\xa4","\xd2\xa4"},
{1190,"\xd2\xa7",0,0},
{1191,0,"\xd2\xa6","\xd2\xa6"},
{1192,"\xd2\xa9",0,0},
{1193,0,"\xd2\xa8","\xd2\xa8"},
{1194,"\xd2\xab",0,0},
{1195,0,"\xd2\xaa","\xd2\xaa"},
{1196,"\xd2\xad",0,0},
{1197,0,"\xd2\xac","\xd2\xac"},
{1198,"\xd2\xaf",0,0},
{1199,0,"\xd2\xae","\xd2\xae"},
{1200,"\xd2\xb1",0,0},
{1201,0,"\xd2\xb0","\xd2\xb0"},
{1202,"\xd2\xb3",0,0},
{1203,0,"\xd2\xb2","\xd2\xb2"},
{1204,"\xd2\xb5",0,0},
{1205,0,"\xd2\xb4","\xd2\xb4"},
{1206,"\xd2\xb7",0,0},
{1207,0,"\xd2\xb6","\xd2\xb6"},
{1208,"\xd2\xb9",0,0},
{1209,0,"\xd2\xb8","\xd2\xb8"},
{1210,"\xd2\xbb",0,0},
{1211,0,"\xd2\xba","\xd2\xba"},
{1212,"\xd2\xbd",0,0},
{1213,0,"\xd2\xbc","\xd2\xbc"},
{1214,"\xd2\xbf",0,0},
{1215,0,"\xd2\xbe","\xd2\xbe"},
{1216,"\xd3\x8f",0,0},
{1217,"\xd3\x82",0,0},
{1218,0,"\xd3\x81","\xd3\x81"},
{1219,"\xd3\x84",0,0},
{1220,0,"\xd3\x83","\xd3\x83"},
{1221,"\xd3\x86",0,0},
{1222,0,"\xd3\x85","\xd3\x85"},
{1223,"\xd3\x88",0,0},
{1224,0,"\xd3\x87","\xd3\x87"},
{1225,"\xd3\x8a",0,0},
{1226,0,"\xd3\x89","\xd3\x89"},
{1227,"\xd3\x8c",0,0},
{1228,0,"\xd3\x8b","\xd3\x8b"},
{1229,"\xd3\x8e",0,0},
{1230,0,"\xd3\x8d","\xd3\x8d"},
{1231,0,"\xd3\x80","\xd3\x80"},
{1232,"\xd3\x91",0,0},
{1233,0,"\xd3\x90","\xd3\x90"},
{1234,"\xd3\x93",0,0},
{1235,0,"\xd3\x92","\xd3\x92"},
{1236,"\xd3\x95",0,0},
{1237,0,"\xd3\x94","\xd3\x94"},
{1238,"\xd3\x97",0,0},
{1239,0,"\xd3\x96","\xd3\x96"},
{1240,"\xd3\x99",0,0},
{1241,0,"\xd3\x98","\xd3\x98"},
{1242,"\xd3\x9b",0,0},
{1243,0,"\xd3\x9a","\xd3\x9a"},
{1244,"\xd3\x9d",0,0},
{1245,0,"\xd3\x9c","\xd3\x9c"},
{1246,"\xd3\x9f",0,0},
{1247,0,"\xd3\x9e","\xd3\x9e"},
{1248,"\xd3\xa1",0,0},
{1249,0,"\xd3\xa0","\xd3\xa0"},
{1250,"\xd3\xa3",0,0},
{1251,0,"\xd3\xa2","\xd3\xa2"},
{1252,"\xd3\xa5",0,0},
{1253,0,"\xd3\xa4","\xd3\xa4"},
{1254,"\xd3\xa7",0,0},
{1255,0,"\xd3\xa6","\xd3\xa6"},
{1256,"\xd3\xa9",0,0},
{1257,0,"\xd3\xa8","\xd3\xa8"},
{1258,"\xd3\xab",0,0},
{1259,0,"\xd3\xaa","\xd3\xaa"},
{1260,"\xd3\xad",0,0},
{1261,0,"\xd3\xac","\xd3\xac"},
{1262,"\xd3\xaf",0,0},
{1263,0,"\xd3\xae","\xd3\xae"},
{1264,"\xd3\xb1",0,0},
{1265,0,"\xd3\xb0","\xd3\xb0"},
{1266,"\xd3\xb3",0,0},
{1267,0,"\xd3\xb2","\xd3\xb2"},
{1268,"\xd3\xb5",0,0},
{1269,0,"\xd3\xb4","\xd3\xb4"},
{1270,"\xd3\xb7",0,0},
{1271,0,"\xd3\xb6","\xd3\xb6"},
{1272,"\xd3\xb9",0,0},
{1273,0,"\xd3\xb8","\xd3\xb8"},
{1274,"\xd3\xbb",0,0},
{1275,0,"\xd3\xba","\xd3\xba"},
{1276,"\xd3\xbd",0,0},
{1277,0,"\xd3\xbc","\xd3\xbc"},
{1278,"\xd3\xbf",0,0},
{1279,0,"\xd3\xbe","\xd3\xbe"},
{1280,"\xd4\x81",0,0},
{1281,0,"\xd4\x80","\xd4\x80"},
{1282,"\xd4\x83",0,0},
{1283,0,"\xd4\x82","\xd4\x82"},
{1284,"\xd4\x85",0,0},
{1285,0,"\xd4\x84","\xd4\x84"},
{1286,"\xd4\x87",0,0},
{1287,0,"\xd4\x86","\xd4\x86"},
{1288,"\xd4\x89",0,0},
{1289,0,"\xd4\x88","\xd4\x88"},
{1290,"\xd4\x8b",0,0},
{1291,0,"\xd4\x8a","\xd4\x8a"},
{1292,"\xd4\x8d",0,0},
{1293,0,"\xd4\x8c","\xd4\x8c"},
{1294,"\xd4\x8f",0,0},
{1295,0,"\xd4\x8e","\xd4\x8e"},
{1296,"\xd4\x91",0,0},
{1297,0,"\xd4\x90","\xd4\x90"},
{1298,"\xd4\x93",0,0},
{1299,0,"\xd4\x92","\xd4\x92"},
{1300,"\xd4\x95",0,0},
{1301,0,"\xd4\x94","\xd4\x94"},
{1302,"\xd4\x97",0,0},
{1303,0,"\xd4\x96","\xd4\x96"},
{1304,"\xd4\x99",0,0},
{1305,0,"\xd4\x98","\xd4\x98"},
{1306,"\xd4\x9b",0,0},
{1307,0,"\xd4\x9a","\xd4\x9a"},
{1308,"\xd4\x9d",0,0},
{1309,0,"\xd4\x9c","\xd4\x9c"},
{1310,"\xd4\x9f",0,0},
{1311,0,"\xd4\x9e","\xd4\x9e"},
{1312,"\xd4\xa1",0,0},
{1313,0,"\xd4\xa0","\xd4\xa0"},
{1314,"\xd4\xa3",0,0},
{1315,0,"\xd4\xa2","\xd4\xa2"},
{1316,"\xd4\xa5",0,0},
{1317,0,"\xd4\xa4","\xd4\xa4"},
{1318,"\xd4\xa7",0,0},
{1319,0,"\xd4\xa6","\xd4\xa6"},
{1329,"\xd5\xa1",0,0},
{1330,"\xd5\xa2",0,0},
{1331,"\xd5\xa3",0,0},
{1332,"\xd5\xa4",0,0},
{1333,"\xd5\xa5",0,0},
{1334,"\xd5\xa6",0,0},
{1335,"\xd5\xa7",0,0},
{1336,"\xd5\xa8",0,0},
{1337,"\xd5\xa9",0,0},
{1338,"\xd5\xaa",0,0},
{1339,"\xd5\xab",0,0},
{1340,"\xd5\xac",0,0},
{1341,"\xd5\xad",0,0},
{1342,"\xd5\xae",0,0},
{1343,"\xd5\xaf",0,0},
{1344,"\xd5\xb0",0,0},
{1345,"\xd5\xb1",0,0},
{1346,"\xd5\xb2",0,0},
{1347,"\xd5\xb3",0,0},
{1348,"\xd5\xb4",0,0},
{1349,"\xd5\xb5",0,0},
{1350,"\xd5\xb6",0,0},
{1351,"\xd5\xb7",0,0},
{1352,"\xd5\xb8",0,0},
{1353,"\xd5\xb9",0,0},
{1354,"\xd5\xba",0,0},
{1355,"\xd5\xbb",0,0},
{1356,"\xd5\xbc",0,0},
{1357,"\xd5\xbd",0,0},
{1358,"\xd5\xbe",0,0},
{1359,"\xd5\xbf",0,0},
{1360,"\xd6\x80",0,0},
{1361,"\xd6\x81",0,0},
{1362,"\xd6\x82",0,0},
{1363,"\xd6\x83",0,0},
{1364,"\xd6\x84",0,0},
{1365,"\xd6\x85",0,0},
{1366,"\xd6\x86",0,0},
{1377,0,"\xd4\xb1","\xd4\xb1"},
{1378,0,"\xd4\xb2","\xd4\xb2"},
{1379,0,"\xd4\xb3","\xd4\xb3"},
{1380,0,"\xd4\xb4","\xd4\xb4"},
{1381,0,"\xd4\xb5","\xd4\xb5"},
{1382,0,"\xd4\xb6","\xd4\xb6"},
{1383,0,"\xd4\xb7","\xd4\xb7"},
{1384,0,"\xd4\xb8","\xd4\xb8"},
{1385,0,"\xd4\xb9","\xd4\xb9"},
{1386,0,"\xd4\xba","\xd4\xba"},
{1387,0,"\xd4\xbb","\xd4\xbb"},
{1388,0,"\xd4\xbc","\xd4\xbc"},
{1389,0,"\xd4\xbd","\xd4\xbd"},
{1390,0,"\xd4\xbe","\xd4\xbe"},
{1391,0,"\xd4\xbf","\xd4\xbf"},
{1392,0,"\xd5\x80","\xd5\x80"},
{1393,0,"\xd5\x81","\xd5\x81"},
{1394,0,"\xd5\x82","\xd5\x82"},
{1395,0,"\xd5\x83","\xd5\x83"},
{1396,0,"\xd5\x84","\xd5\x84"},
{1397,0,"\xd5\x85","\xd5\x85"},
{1398,0,"\xd5\x86","\xd5\x86"},
{1399,0,"\xd5\x87","\xd5\x87"},
{1400,0,"\xd5\x88","\xd5\x88"},
{1401,0,"\xd5\x89","\xd5\x89"},
{1402,0,"\xd5\x8a","\xd5\x8a"},
{1403,0,"\xd5\x8b","\xd5\x8b"},
{1404,0,"\xd5\x8c","\xd5\x8c"},
{1405,0,"\xd5\x8d","\xd5\x8d"},
{1406,0,"\xd5\x8e","\xd5\x8e"},
{1407,0,"\xd5\x8f","\xd5\x8f"},
{1408,0,"\xd5\x90","\xd5\x90"},
{1409,0,"\xd5\x91","\xd5\x91"},
{1410,0,"\xd5\x92","\xd5\x92"},
{1411,0,"\xd5\x93","\xd5\x93"},
{1412,0,"\xd5\x94","\xd5\x94"},
{1413,0,"\xd5\x95","\xd5\x95"},
{1414,0,"\xd5\x96","\xd5\x96"},
{1415,0,"\xd4\xb5\xd5\x92","\xd4\xb5\xd6\x82"},
{4256,"\xe2\xb4\x80",0,0},
{4257,"\xe2\xb4\x81",0,0},
{4258,"\xe2\xb4\x82",0,0},
{4259,"\xe2\xb4\x83",0,0},
{4260,"\xe2\xb4\x84",0,0},
{4261,"\xe2\xb4\x85",0,0},
{4262,"\xe2\xb4\x86",0,0},
{4263,"\xe2\xb4\x87",0,0},
{4264,"\xe2\xb4\x88",0,0},
{4265,"\xe2\xb4\x89",0,0},
{4266,"\xe2\xb4\x8a",0,0},
{4267,"\xe2\xb4\x8b",0,0},
{4268,"\xe2\xb4\x8c",0,0},
{4269,"\xe2\xb4\x8d",0,0},
{4270,"\xe2\xb4\x8e",0,0},
{4271,"\xe2\xb4\x8f",0,0},
{4272,"\xe2\xb4\x90",0,0},
{4273,"\xe2\xb4\x91",0,0},
{4274,"\xe2\xb4\x92",0,0},
{4275,"\xe2\xb4\x93",0,0},
{4276,"\xe2\xb4\x94",0,0},
{4277,"\xe2\xb4\x95",0,0},
{4278,"\xe2\xb4\x96",0,0},
{4279,"\xe2\xb4\x97",0,0},
{4280,"\xe2\xb4\x98",0,0},
{4281,"\xe2\xb4\x99",0,0},
{4282,"\xe2\xb4\x9a",0,0},
{4283,"\xe2\xb4\x9b",0,0},
{4284,"\xe2\xb4\x9c",0,0},
{4285,"\xe2\xb4\x9d",0,0},
{4286,"\xe2\xb4\x9e",0,0},
{4287,"\xe2\xb4\x9f",0,0},
{4288,"\xe2\xb4\xa0",0,0},
{4289,"\xe2\xb4\xa1",0,0},
{4290,"\xe2\xb4\xa2",0,0},
{4291,"\xe2\xb4\xa3",0,0},
{4292,"\xe2\xb4\xa4",0,0},
{4293,"\xe2\xb4\xa5",0,0},
{7545,0,"\xea\x9d\xbd","\xea\x9d\xbd"},
{7549,0,"\xe2\xb1\xa3","\xe2\xb1\xa3"},
{7680,"\xe1\xb8\x81",0,0},
{7681,0,"\xe1\xb8\x80","\xe1\xb8\x80"},
{7682,"\xe1\xb8\x83",0,0},
{7683,0,"\xe1\xb8\x82","\xe1\xb8\x82"},
{7684,"\xe1\xb8\x85",0,0},
{7685,0,"\xe1\xb8\x84","\xe1\xb8\x84"},
{7686,"\xe1\xb8\x87",0,0},
{7687,0,"\xe1\xb8\x86","\xe1\xb8\x86"},
{7688,"\xe1\xb8\x89",0,0},
{7689,0,"\xe1\xb8\x88","\xe1\xb8\x88"},
{7690,"\xe1\xb8\x8b",0,0},
{7691,0,"\xe1\xb8\x8a","\xe1\xb8\x8a"},
{7692,"\xe1\xb8\x8d",0,0},
{7693,0,"\xe1\xb8\x8c","\xe1\xb8\x8c"},
{7694,"\xe1\xb8\x8f",0,0},
{7695,0,"\xe1\xb8\x8e","\xe1\xb8\x8e"},
{7696,"\xe1\xb8\x91",0,0},
{7697,0,"\xe1\xb8\x90","\xe1\xb8\x90"},
{7698,"\xe1\xb8\x93",0,0},
{7699,0,"\xe1\xb8\x92","\xe1\xb8\x92"},
{7700,"\xe1\xb8\x95",0,0},
{7701,0,"\xe1\xb8\x94","\xe1\xb8\x94"},
{7702,"\xe1\xb8\x97",0,0},
{7703,0,"\xe1\xb8\x96","\xe1\xb8\x96"},
{7704,"\xe1\xb8\x99",0,0},
{7705,0,"\xe1\xb8\x98","\xe1\xb8\x98"},
{7706,"\xe1\xb8\x9b",0,0},
{7707,0,"\xe1\xb8\x9a","\xe1\xb8\x9a"},
{7708,"\xe1\xb8\x9d",0,0},
{7709,0,"\xe1\xb8\x9c","\xe1\xb8\x9c"},
{7710,"\xe1\xb8\x9f",0,0},
{7711,0,"\xe1\xb8\x9e","\xe1\xb8\x9e"},
{7712,"\xe1\xb8\xa1",0,0},
{7713,0,"\xe1\xb8\xa0","\xe1\xb8\xa0"},
{7714,"\xe1\xb8\xa3",0,0},
{7715,0,"\xe1\xb8\xa2","\xe1\xb8\xa2"},
{7716,"\xe1\xb8\xa5",0,0},
{7717,0,"\xe1\xb8\xa4","\xe1\xb8\xa4"},
{7718,"\xe1\xb8\xa7",0,0},
{7719,0,"\xe1\xb8\xa6","\xe1\xb8\xa6"},
{7720,"\xe1\xb8\xa9",0,0},
{7721,0,"\xe1\xb8\xa8","\xe1\xb8\xa8"},
{7722,"\xe1\xb8\xab",0,0},
{7723,0,"\xe1\xb8\xaa","\xe1\xb8\xaa"},
{7724,"\xe1\xb8\xad",0,0},
{7725,0,"\xe1\xb8\xac","\xe1\xb8\xac"},
{7726,"\xe1\xb8\xaf",0,0},
{7727,0,"\xe1\xb8\xae","\xe1\xb8\xae"},
{7728,"\xe1\xb8\xb1",0,0},
{7729,0,"\xe1\xb8\xb0","\xe1\xb8\xb0"},
{7730,"\xe1\xb8\xb3",0,0},
{7731,0,"\xe1\xb8\xb2","\xe1\xb8\xb2"},
{7732,"\xe1\xb8\xb5",0,0},
{7733,0,"\xe1\xb8\xb4","\xe1\xb8\xb4"},
{7734,"\xe1\xb8\xb7",0,0},
{7735,0,"\xe1\xb8\xb6","\xe1\xb8\xb6"},
{7736,"\xe1\xb8\xb9",0,0},
{7737,0,"\xe1\xb8\xb8","\xe1\xb8\xb8"},
{7738,"\xe1\xb8\xbb",0,0},
{7739,0,"\xe1\xb8\xba","\xe1\xb8\xba"},
{7740,"\xe1\xb8\xbd",0,0},
{7741,0,"\xe1\xb8\xbc","\xe1\xb8\xbc"},
{7742,"\xe1\xb8\xbf",0,0},
{7743,0,"\xe1\xb8\xbe","\xe1\xb8\xbe"},
{7744,"\xe1\xb9\x81",0,0},
{7745,0,"\xe1\xb9\x80","\xe1\xb9\x80"},
{7746,"\xe1\xb9\x83",0,0},
{7747,0,"\xe1\xb9\x82","\xe1\xb9\x82"},
{7748,"\xe1\xb9\x85",0,0},
{7749,0,"\xe1\xb9\x84","\xe1\xb9\x84"},
{7750,"\xe1\xb9\x87",0,0},
{7751,0,"\xe1\xb9\x86","\xe1\xb9\x86"},
{7752,"\xe1\xb9\x89",0,0},
{7753,0,"\xe1\xb9\x88","\xe1\xb9\x88"},
{7754,"\xe1\xb9\x8b",0,0},
{7755,0,"\xe1\xb9\x8a","\xe1\xb9\x8a"},
{7756,"\xe1\xb9\x8d",0,0},
{7757,0,"\xe1\xb9\x8c","\xe1\xb9\x8c"},
{7758,"\xe1\xb9\x8f",0,0},
{7759,0,"\xe1\xb9\x8e","\xe1\xb9\x8e"},
{7760,"\xe1\xb9\x91",0,0},
{7761,0,"\xe1\xb9\x90","\xe1\xb9\x90"},
{7762,"\xe1\xb9\x93",0,0},
{7763,0,"\xe1\xb9\x92","\xe1\xb9\x92"},
{7764,"\xe1\xb9\x95",0,0},
{7765,0,"\xe1\xb9\x94","\xe1\xb9\x94"},
{7766,"\xe1\xb9\x97",0,0},
{7767,0,"\xe1\xb9\x96","\xe1\xb9\x96"},
{7768,"\xe1\xb9\x99",0,0},
{7769,0,"\xe1\xb9\x98","\xe1\xb9\x98"},
{7770,"\xe1\xb9\x9b",0,0},
{7771,0,"\xe1\xb9\x9a","\xe1\xb9\x9a"},
{7772,"\xe1\xb9\x9d",0,0},
{7773,0,"\xe1\xb9\x9c","\xe1\xb9\x9c"},
{7774,"\xe1\xb9\x9f",0,0},
{7775,0,"\xe1\xb9\x9e","\xe1\xb9\x9e"},
{7776,"\xe1\xb9\xa1",0,0},
{7777,0,"\xe1\xb9\xa0","\xe1\xb9\xa0"},
{7778,"\xe1\xb9\xa3",0,0},
{7779,0,"\xe1\xb9\xa2","\xe1\xb9\xa2"},
{7780,"\xe1\xb9\xa5",0,0},
{7781,0,"\xe1\xb9\xa4","\xe1\xb9\xa4"},
{7782,"\xe1\xb9\xa7",0,0},
{7783,0,"\xe1\xb9\xa6","\xe1\xb9\xa6"},
{7784,"\xe1\xb9\xa9",0,0},
{7785,0,"\xe1\xb9\xa8","\xe1\xb9\xa8"},
{7786,"\xe1\xb9\xab",0,0},
{7787,0,"\xe1\xb9\xaa","\xe1\xb9\xaa"},
{7788,"\xe1\xb9\xad",0,0},
{7789,0,"\xe1\xb9\xac","\xe1\xb9\xac"},
{7790,"\xe1\xb9\xaf",0,0},
{7791,0,"\xe1\xb9\xae","\xe1\xb9\xae"},
{7792,"\xe1\xb9\xb1",0,0},
{7793,0,"\xe1\xb9\xb0","\xe1\xb9\xb0"},
{7794,"\xe1\xb9\xb3",0,0},
{7795,0,"\xe1\xb9\xb2","\xe1\xb9\xb2"},
{7796,"\xe1\xb9\xb5",0,0},
{7797,0,"\xe1\xb9\xb4","\xe1\xb9\xb4"},
{7798,"\xe1\xb9\xb7",0,0},
{7799,0,"\xe1\xb9\xb6","\xe1\xb9\xb6"},
{7800,"\xe1\xb9\xb9",0,0},
{7801,0,"\xe1\xb9\xb8","\xe1\xb9\xb8"},
{7802,"\xe1\xb9\xbb",0,0},
{7803,0,"\xe1\xb9\xba","\xe1\xb9\xba"},
{7804,"\xe1\xb9\xbd",0,0},
{7805,0,"\xe1\xb9\xbc","\xe1\xb9\xbc"},
{7806,"\xe1\xb9\xbf",0,0},
{7807,0,"\xe1\xb9\xbe","\xe1\xb9\xbe"},
{7808,"\xe1\xba\x81",0,0},
{7809,0,"\xe1\xba\x80","\xe1\xba\x80"},
{7810,"\xe1\xba\x83",0,0},
{7811,0,"\xe1\xba\x82","\xe1\xba\x82"},
{7812,"\xe1\xba\x85",0,0},
{7813,0,"\xe1\xba\x84","\xe1\xba\x84"},
{7814,"\xe1\xba\x87",0,0},
{7815,0,"\xe1\xba\x86","\xe1\xba\x86"},
{7816,"\xe1\xba\x89",0,0},
{7817,0,"\xe1\xba\x88","\xe1\xba\x88"},
{7818,"\xe1\xba\x8b",0,0},
{7819,0,"\xe1\xba\x8a","\xe1\xba\x8a"},
{7820,"\xe1\xba\x8d",0,0},
{7821,0,"\xe1\xba\x8c","\xe1\xba\x8c"},
{7822,"\xe1\xba\x8f",0,0},
{7823,0,"\xe1\xba\x8e","\xe1\xba\x8e"},
{7824,"\xe1\xba\x91",0,0},
{7825,0,"\xe1\xba\x90","\xe1\xba\x90"},
{7826,"\xe1\xba\x93",0,0},
{7827,0,"\xe1\xba\x92","\xe1\xba\x92"},
{7828,"\xe1\xba\x95",0,0},
{7829,0,"\xe1\xba\x94","\xe1\xba\x94"},
{7830,0,"\x48\xcc\xb1","\x48\xcc\xb1"},
{7831,0,"\x54\xcc\x88","\x54\xcc\x88"},
{7832,0,"\x57\xcc\x8a","\x57\xcc\x8a"},
{7833,0,"\x59\xcc\x8a","\x59\xcc\x8a"},
{7834,0,"\x41\xca\xbe","\x41\xca\xbe"},
{7835,0,"\xe1\xb9\xa0","\xe1\xb9\xa0"},
{7838,"\xc3\x9f",0,0},
{7840,"\xe1\xba\xa1",0,0},
{7841,0,"\xe1\xba\xa0","\xe1\xba\xa0"},
{7842,"\xe1\xba\xa3",0,0},
{7843,0,"\xe1\xba\xa2","\xe1\xba\xa2"},
{7844,"\xe1\xba\xa5",0,0},
{7845,0,"\xe1\xba\xa4","\xe1\xba\xa4"},
{7846,"\xe1\xba\xa7",0,0},
{7847,0,"\xe1\xba\xa6","\xe1\xba\xa6"},
{7848,"\xe1\xba\xa9",0,0},
{7849,0,"\xe1\xba\xa8","\xe1\xba\xa8"},
{7850,"\xe1\xba\xab",0,0},
{7851,0,"\xe1\xba\xaa","\xe1\xba\xaa"},
{7852,"\xe1\xba\xad",0,0},
{7853,0,"\xe1\xba\xac","\xe1\xba\xac"},
{7854,"\xe1\xba\xaf",0,0},
{7855,0,"\xe1\xba\xae","\xe1\xba\xae"},
{7856,"\xe1\xba\xb1",0,0},
{7857,0,"\xe1\xba\xb0","\xe1\xba\xb0"},
{7858,"\xe1\xba\xb3",0,0},
{7859,0,"\xe1\xba\xb2","\xe1\xba\xb2"},
{7860,"\xe1\xba\xb5",0,0},
{7861,0,"\xe1\xba\xb4","\xe1\xba\xb4"},
{7862,"\xe1\xba\xb7",0,0},
{7863,0,"\xe1\xba\xb6","\xe1\xba\xb6"},
{7864,"\xe1\xba\xb9",0,0},
{7865,0,"\xe1\xba\xb8","\xe1\xba\xb8"},
{7866,"\xe1\xba\xbb",0,0},
{7867,0,"\xe1\xba\xba","\xe1\xba\xba"},
{7868,"\xe1\xba\xbd",0,0},
{7869,0,"\xe1\xba\xbc","\xe1\xba\xbc"},
{7870,"\xe1\xba\xbf",0,0},
{7871,0,"\xe1\xba\xbe","\xe1\xba\xbe"},
{7872,"\xe1\xbb\x81",0,0},
{7873,0,"\xe1\xbb\x80","\xe1\xbb\x80"},
{7874,"\xe1\xbb\x83",0,0},
{7875,0,"\xe1\xbb\x82","\xe1\xbb\x82"},
{7876,"\xe1\xbb\x85",0,0},
{7877,0,"\xe1\xbb\x84","\xe1\xbb\x84"},
{7878,"\xe1\xbb\x87",0,0},
{7879,0,"\xe1\xbb\x86","\xe1\xbb\x86"},
{7880,"\xe1\xbb\x89",0,0},
{7881,0,"\xe1\xbb\x88","\xe1\xbb\x88"},
{7882,"\xe1\xbb\x8b",0,0},
{7883,0,"\xe1\xbb\x8a","\xe1\xbb\x8a"},
{7884,"\xe1\xbb\x8d",0,0},
{7885,0,"\xe1\xbb\x8c","\xe1\xbb\x8c"},
{7886,"\xe1\xbb\x8f",0,0},
{7887,0,"\xe1\xbb\x8e","\xe1\xbb\x8e"},
{7888,"\xe1\xbb\x91",0,0},
{7889,0,"\xe1\xbb\x90","\xe1\xbb\x90"},
{7890,"\xe1\xbb\x93",0,0},
{7891,0,"\xe1\xbb\x92","\xe1\xbb\x92"},
{7892,"\xe1\xbb\x95",0,0},
{7893,0,"\xe1\xbb\x94","\xe1\xbb\x94"},
{7894,"\xe1\xbb\x97",0,0},
{7895,0,"\xe1\xbb\x96","\xe1\xbb\x96"},
{7896,"\xe1\xbb\x99",0,0},
{7897,0,"\xe1\xbb\x98","\xe1\xbb\x98"},
{7898,"\xe1\xbb\x9b",0,0},
{7899,0,"\xe1\xbb\x9a","\xe1\xbb\x9a"},
{7900,"\xe1\xbb\x9d",0,0},
{7901,0,"\xe1\xbb\x9c","\xe1\xbb\x9c"},
{7902,"\xe1\xbb\x9f",0,0},
{7903,0,"\xe1\xbb\x9e","\xe1\xbb\x9e"},
{7904,"\xe1\xbb\xa1",0,0},
{7905,0,"\xe1\xbb\xa0","\xe1\xbb\xa0"},
{7906,"\xe1\xbb\xa3",0,0},
{7907,0,"\xe1\xbb\xa2","\xe1\xbb\xa2"},
{7908,"\xe1\xbb\xa5",0,0},
{7909,0,"\xe1\xbb\xa4","\xe1\xbb\xa4"},
{7910,"\xe1\xbb\xa7",0,0},
{7911,0,"\xe1\xbb\xa6","\xe1\xbb\xa6"},
{7912,"\xe1\xbb\xa9",0,0},
{7913,0,"\xe1\xbb\xa8","\xe1\xbb\xa8"},
{7914,"\xe1\xbb\xab",0,0},
{7915,0,"\xe1\xbb\xaa","\xe1\xbb\xaa"},
{7916,"\xe1\xbb\xad",0,0},
{7917,0,"\xe1\xbb\xac","\xe1\xbb\xac"},
{7918,"\xe1\xbb\xaf",0,0},
{7919,0,"\xe1\xbb\xae","\xe1\xbb\xae"},
{7920,"\xe1\xbb\xb1",0,0},
{7921,0,"\xe1\xbb\xb0","\xe1\xbb\xb0"},
{7922,"\xe1\xbb\xb3",0,0},
{7923,0,"\xe1\xbb\xb2","\xe1\xbb\xb2"},
{7924,"\xe1\xbb\xb5",0,0},
{7925,0,"\xe1\xbb\xb4","\xe1\xbb\xb4"},
{7926,"\xe1\xbb\xb7",0,0},
{7927,0,"\xe1\xbb\xb6","\xe1\xbb\xb6"},
{7928,"\xe1\xbb\xb9",0,0},
{7929,0,"\xe1\xbb\xb8","\xe1\xbb\xb8"},
{7930,"\xe1\xbb\xbb",0,0},
{7931,0,"\xe1\xbb\xba","\xe1\xbb\xba"},
{7932,"\xe1\xbb\xbd",0,0},
{7933,0,"\xe1\xbb\xbc","\xe1\xbb\xbc"},
{7934,"\xe1\xbb\xbf",0,0},
{7935,0,"\xe1\xbb\xbe","\xe1\xbb\xbe"},
{7936,0,"\xe1\xbc\x88","\xe1\xbc\x88"},
{7937,0,"\xe1\xbc\x89","\xe1\xbc\x89"},
{7938,0,"\xe1\xbc\x8a","\xe1\xbc\x8a"},
{7939,0,"\xe1\xbc\x8b","\xe1\xbc\x8b"},
{7940,0,"\xe1\xbc\x8c","\xe1\xbc\x8c"},
{7941,0,"\xe1\xbc\x8d","\xe1\xbc\x8d"},
{7942,0,"\xe1\xbc\x8e","\xe1\xbc\x8e"},
{7943,0,"\xe1\xbc\x8f","\xe1\xbc\x8f"},
{7944,"\xe1\xbc\x80",0,0},
{7945,"\xe1\xbc\x81",0,0},
{7946,"\xe1\xbc\x82",0,0},
{7947,"\xe1\xbc\x83",0,0},
{7948,"\xe1\xbc\x84",0,0},
{7949,"\xe1\xbc\x85",0,0},
{7950,"\xe1\xbc\x86",0,0},
{7951,"\xe1\xbc\x87",0,0},
{7952,0,"\xe1\xbc\x98","\xe1\xbc\x98"},
{7953,0,"\xe1\xbc\x99","\xe1\xbc\x99"},
{7954,0,"\xe1\xbc\x9a","\xe1\xbc\x9a"},
{7955,0,"\xe1\xbc\x9b","\xe1\xbc\x9b"},
{7956,0,"\xe1\xbc\x9c","\xe1\xbc\x9c"},
{7957,0,"\xe1\xbc\x9d","\xe1\xbc\x9d"},
{7960,"\xe1\xbc\x90",0,0},
{7961,"\xe1\xbc\x91",0,0},
{7962,"\xe1\xbc\x92",0,0},
{7963,"\xe1\xbc\x93",0,0},
{7964,"\xe1\xbc\x94",0,0},
{7965,"\xe1\xbc\x95",0,0},
{7968,0,"\xe1\xbc\xa8","\xe1\xbc\xa8"},
{7969,0,"\xe1\xbc\xa9","\xe1\xbc\xa9"},
{7970,0,"\xe1\xbc\xaa","\xe1\xbc\xaa"},
{7971,0,"\xe1\xbc\xab","\xe1\xbc\xab"},
{7972,0,"\xe1\xbc\xac","\xe1\xbc\xac"},
{7973,0,"\xe1\xbc\xad","\xe1\xbc\xad"},
{7974,0,"\xe1\xbc\xae","\xe1\xbc\xae"},
{7975,0,"\xe1\xbc\xaf","\xe1\xbc\xaf"},
{7976,"\xe1\xbc\xa0",0,0},
{7977,"\xe1\xbc\xa1",0,0},
{7978,"\xe1\xbc\xa2",0,0},
{7979,"\xe1\xbc\xa3",0,0},
{7980,"\xe1\xbc\xa4",0,0},
{7981,"\xe1\xbc\xa5",0,0},
{7982,"\xe1\xbc\xa6",0,0},
{7983,"\xe1\xbc\xa7",0,0},
{7984,0,"\xe1\xbc\xb8","\xe1\xbc\xb8"},
{7985,0,"\xe1\xbc\xb9","\xe1\xbc\xb9"},
{7986,0,"\xe1\xbc\xba","\xe1\xbc\xba"},
{7987,0,"\xe1\xbc\xbb","\xe1\xbc\xbb"},
{7988,0,"\xe1\xbc\xbc","\xe1\xbc\xbc"},
{7989,0,"\xe1\xbc\xbd","\xe1\xbc\xbd"},
{7990,0,"\xe1\xbc\xbe","\xe1\xbc\xbe"},
{7991,0,"\xe1\xbc\xbf","\xe1\xbc\xbf"},
{7992,"\xe1\xbc\xb0",0,0},
{7993,"\xe1\xbc\xb1",0,0},
{7994,"\xe1\xbc\xb2",0,0},
{7995,"\xe1\xbc\xb3",0,0},
{7996,"\xe1\xbc\xb4",0,0},
{7997,"\xe1\xbc\xb5",0,0},
{7998,"\xe1\xbc\xb6",0,0},
{7999,"\xe1\xbc\xb7",0,0},
{8000,0,"\xe1\xbd\x88","\xe1\xbd\x88"},
{8001,0,"\xe1\xbd\x89","\xe1\xbd\x89"},
{8002,0,"\xe1\xbd\x8a","\xe1\xbd\x8a"},
{8003,0,"\xe1\xbd\x8b","\xe1\xbd\x8b"},
{8004,0,"\xe1\xbd\x8c","\xe1\xbd\x8c"},
{8005,0,"\xe1\xbd\x8d","\xe1\xbd\x8d"},
{8008,"\xe1\xbd\x80",0,0},
{8009,"\xe1\xbd\x81",0,0},
{8010,"\xe1\xbd\x82",0,0},
{8011,"\xe1\xbd\x83",0,0},
{8012,"\xe1\xbd\x84",0,0},
{8013,"\xe1\xbd\x85",0,0},
{8016,0,"\xce\xa5\xcc\x93","\xce\xa5\xcc\x93"},
{8017,0,"\xe1\xbd\x99","\xe1\xbd\x99"},
{8018,0,"\xce\xa5\xcc\x93\xcc\x80","\xce\xa5\xcc\x93\xcc\x80"},
{8019,0,"\xe1\xbd\x9b","\xe1\xbd\x9b"},
{8020,0,"\xce\xa5\xcc\x93\xcc\x81","\xce\xa5\xcc\x93\xcc\x81"},
{8021,0,"\xe1\xbd\x9d","\xe1\xbd\x9d"},
{8022,0,"\xce\xa5\xcc\x93\xcd\x82","\xce\xa5\xcc\x93\xcd\x82"},
{8023,0,"\xe1\xbd\x9f","\xe1\xbd\x9f"},
{8025,"\xe1\xbd\x91",0,0},
{8027,"\xe1\xbd\x93",0,0},
{8029,"\xe1\xbd\x95",0,0},
{8031,"\xe1\xbd\x97",0,0},
{8032,0,"\xe1\xbd\xa8","\xe1\xbd\xa8"},
{8033,0,"\xe1\xbd\xa9","\xe1\xbd\xa9"},
{8034,0,"\xe1\xbd\xaa","\xe1\xbd\xaa"},
{8035,0,"\xe1\xbd\xab","\xe1\xbd\xab"},
{8036,0,"\xe1\xbd\xac","\xe1\xbd\xac"},
{8037,0,"\xe1\xbd\xad","\xe1\xbd\xad"},
{8038,0,"\xe1\xbd\xae","\xe1\xbd\xae"},
{8039,0,"\xe1\xbd\xaf","\xe1\xbd\xaf"},
{8040,"\xe1\xbd\xa0",0,0},
{8041,"\xe1\xbd\xa1",0,0},
{8042,"\xe1\xbd\xa2",0,0},
{8043,"\xe1\xbd\xa3",0,0},
{8044,"\xe1\xbd\xa4",0,0},
{8045,"\xe1\xbd\xa5",0,0},
{8046,"\xe1\xbd\xa6",0,0},
{8047,"\xe1\xbd\xa7",0,0},
{8048,0,"\xe1\xbe\xba","\xe1\xbe\xba"},
{8049,0,"\xe1\xbe\xbb","\xe1\xbe\xbb"},
{8050,0,"\xe1\xbf\x88","\xe1\xbf\x88"},
{8051,0,"\xe1\xbf\x89","\xe1\xbf\x89"},
{8052,0,"\xe1\xbf\x8a","\xe1\xbf\x8a"},
{8053,0,"\xe1\xbf\x8b","\xe1\xbf\x8b"},
{8054,0,"\xe1\xbf\x9a","\xe1\xbf\x9a"},
{8055,0,"\xe1\xbf\x9b","\xe1\xbf\x9b"},
{8056,0,"\xe1\xbf\xb8","\xe1\xbf\xb8"},
{8057,0,"\xe1\xbf\xb9","\xe1\xbf\xb9"},
{8058,0,"\xe1\xbf\xaa","\xe1\xbf\xaa"},
{8059,0,"\xe1\xbf\xab","\xe1\xbf\xab"},
{8060,0,"\xe1\xbf\xba","\xe1\xbf\xba"},
{8061,0,"\xe1\xbf\xbb","\xe1\xbf\xbb"},
{8064,0,"\xe1\xbc\x88\xce\x99","\xe1\xbe\x88"},
{8065,0,"\xe1\xbc\x89\xce\x99","\xe1\xbe\x89"},
{8066,0,"\xe1\xbc\x8a\xce\x99","\xe1\xbe\x8a"},
{8067,0,"\xe1\xbc\x8b\xce\x99","\xe1\xbe\x8b"},
{8068,0,"\xe1\xbc\x8c\xce\x99","\xe1\xbe\x8c"},
{8069,0,"\xe1\xbc\x8d\xce\x99","\xe1\xbe\x8d"},
{8070,0,"\xe1\xbc\x8e\xce\x99","\xe1\xbe\x8e"},
{8071,0,"\xe1\xbc\x8f\xce\x99","\xe1\xbe\x8f"},
{8072,"\xe1\xbe\x80","\xe1\xbc\x88\xce\x99",0},
{8073,"\xe1\xbe\x81","\xe1\xbc\x89\xce\x99",0},
{8074,"\xe1\xbe\x82","\xe1\xbc\x8a\xce\x99",0},
{8075,"\xe1\xbe\x83","\xe1\xbc\x8b\xce\x99",0},
{8076,"\xe1\xbe\x84","\xe1\xbc\x8c\xce\x99",0},
{8077,"\xe1\xbe\x85","\xe1\xbc\x8d\xce\x99",0},
{8078,"\xe1\xbe\x86","\xe1\xbc\x8e\xce\x99",0},
{8079,"\xe1\xbe\x87","\xe1\xbc\x8f\xce\x99",0},
{8080,0,"\xe1\xbc\xa8\xce\x99","\xe1\xbe\x98"},
{8081,0,"\xe1\xbc\xa9\xce\x99","\xe1\xbe\x99"},
{8082,0,"\xe1\xbc\xaa\xce\x99","\xe1\xbe\x9a"},
{8083,0,"\xe1\xbc\xab\xce\x99","\xe1\xbe\x9b"},
{8084,0,"\xe1\xbc\xac\xce\x99","\xe1\xbe\x9c"},
{8085,0,"\xe1\xbc\xad\xce\x99","\xe1\xbe\x9d"},
{8086,0,"\xe1\xbc\xae\xce\x99","\xe1\xbe\x9e"},
{8087,0,"\xe1\xbc\xaf\xce\x99","\xe1\xbe\x9f"},
{8088,"\xe1\xbe\x90","\xe1\xbc\xa8\xce\x99",0},
{8089,"\xe1\xbe\x91","\xe1\xbc\xa9\xce\x99",0},
{8090,"\xe1\xbe\x92","\xe1\xbc\xaa\xce\x99",0},
{8091,"\xe1\xbe\x93","\xe1\xbc\xab\xce\x99",0},
{8092,"\xe1\xbe\x94","\xe1\xbc\xac\xce\x99",0},
{8093,"\xe1\xbe\x95","\xe1\xbc\xad\xce\x99",0},
{8094,"\xe1\xbe\x96","\xe1\xbc\xae\xce\x99",0},
{8095,"\xe1\xbe\x97","\xe1\xbc\xaf\xce\x99",0},
{8096,0,"\xe1\xbd\xa8\xce\x99","\xe1\xbe\xa8"},
{8097,0,"\xe1\xbd\xa9\xce\x99","\xe1\xbe\xa9"},
{8098,0,"\xe1\xbd\xaa\xce\x99","\xe1\xbe\xaa"},
{8099,0,"\xe1\xbd\xab\xce\x99","\xe1\xbe\xab"},
{8100,0,"\xe1\xbd\xac\xce\x99","\xe1\xbe\xac"},
{8101,0,"\xe1\xbd\xad\xce\x99","\xe1\xbe\xad"},
{8102,0,"\xe1\xbd\xae\xce\x99","\xe1\xbe\xae"},
{8103,0,"\xe1\xbd\xaf\xce\x99","\xe1\xbe\xaf"},
{8104,"\xe1\xbe\xa0","\xe1\xbd\xa8\xce\x99",0},
{8105,"\xe1\xbe\xa1","\xe1\xbd\xa9\xce\x99",0},
{8106,"\xe1\xbe\xa2","\xe1\xbd\xaa\xce\x99",0},
{8107,"\xe1\xbe\xa3","\xe1\xbd\xab\xce\x99",0},
{8108,"\xe1\xbe\xa4","\xe1\xbd\xac\xce\x99",0},
{8109,"\xe1\xbe\xa5","\xe1\xbd\xad\xce\x99",0},
{8110,"\xe1\xbe\xa6","\xe1\xbd\xae\xce\x99",0},
{8111,"\xe1\xbe\xa7","\xe1\xbd\xaf\xce\x99",0},
{8112,0,"\xe1\xbe\xb8","\xe1\xbe\xb8"},
{8113,0,"\xe1\xbe\xb9","\xe1\xbe\xb9"},
{8114,0,"\xe1\xbe\xba\xce\x99","\xe1\xbe\xba\xcd\x85"},
{8115,0,"\xce\x91\xce\x99","\xe1\xbe\xbc"},
{8116,0,"\xce\x86\xce\x99","\xce\x86\xcd\x85"},
{8118,0,"\xce\x91\xcd\x82","\xce\x91\xcd\x82"},
{8119,0,"\xce\x91\xcd\x82\xce\x99","\xce\x91\xcd\x82\xcd\x85"},
{8120,"\xe1\xbe\xb0",0,0},
{8121,"\xe1\xbe\xb1",0,0},
{8122,"\xe1\xbd\xb0",0,0},
{8123,"\xe1\xbd\xb1",0,0},
{8124,"\xe1\xbe\xb3","\xce\x91\xce\x99",0},
{8126,0,"\xce\x99","\xce\x99"},
{8130,0,"\xe1\xbf\x8a\xce\x99","\xe1\xbf\x8a\xcd\x85"},
{8131,0,"\xce\x97\xce\x99","\xe1\xbf\x8c"},
{8132,0,"\xce\x89\xce\x99","\xce\x89\xcd\x85"},
{8134,0,"\xce\x97\xcd\x82","\xce\x97\xcd\x82"},
{8135,0,"\xce\x97\xcd\x82\xce\x99","\xce\x97\xcd\x82\xcd\x85"},
{8136,"\xe1\xbd\xb2",0,0},
{8137,"\xe1\xbd\xb3",0,0},
{8138,"\xe1\xbd\xb4",0,0},
{8139,"\xe1\xbd\xb5",0,0},
{8140,"\xe1\xbf\x83","\xce\x97\xce\x99",0},
{8144,0,"\xe1\xbf\x98","\xe1\xbf\x98"},
{8145,0,"\xe1\xbf\x99","\xe1\xbf\x99"},
{8146,0,"\xce\x99\xcc\x88\xcc\x80","\xce\x99\xcc\x88\xcc\x80"},
{8147,0,"\xce\x99\xcc\x88\xcc\x81","\xce\x99\xcc\x88\xcc\x81"},
{8150,0,"\xce\x99\xcd\x82","\xce\x99\xcd\x82"},
{8151,0,"\xce\x99\xcc\x88\xcd\x82","\xce\x99\xcc\x88\xcd\x82"},
{8152,"\xe1\xbf\x90",0,0},
{8153,"\xe1\xbf\x91",0,0},
{8154,"\xe1\xbd\xb6",0,0},
{8155,"\xe1\xbd\xb7",0,0},
{8160,0,"\xe1\xbf\xa8","\xe1\xbf\xa8"},
{8161,0,"\xe1\xbf\xa9","\xe1\xbf\xa9"},
{8162,0,"\xce\xa5\xcc\x88\xcc\x80","\xce\xa5\xcc\x88\xcc\x80"},
{8163,0,"\xce\xa5\xcc\x88\xcc\x81","\xce\xa5\xcc\x88\xcc\x81"},
{8164,0,"\xce\xa1\xcc\x93","\xce\xa1\xcc\x93"},
{8165,0,"\xe1\xbf\xac","\xe1\xbf\xac"},
{8166,0,"\xce\xa5\xcd\x82","\xce\xa5\xcd\x82"},
{8167,0,"\xce\xa5\xcc\x88\xcd\x82","\xce\xa5\xcc\x88\xcd\x82"},
{8168,"\xe1\xbf\xa0",0,0},
{8169,"\xe1\xbf\xa1",0,0},
{8170,"\xe1\xbd\xba",0,0},
{8171,"\xe1\xbd\xbb",0,0},
{8172,"\xe1\xbf\xa5",0,0},
{8178,0,"\xe1\xbf\xba\xce\x99","\xe1\xbf\xba\xcd\x85"},
{8179,0,"\xce\xa9\xce\x99","\xe1\xbf\xbc"},
{8180,0,"\xce\x8f\xce\x99","\xce\x8f\xcd\x85"},
{8182,0,"\xce\xa9\xcd\x82","\xce\xa9\xcd\x82"},
{8183,0,"\xce\xa9\xcd\x82\xce\x99","\xce\xa9\xcd\x82\xcd\x85"},
{8184,"\xe1\xbd\xb8",0,0},
{8185,"\xe1\xbd\xb9",0,0},
{8186,"\xe1\xbd\xbc",0,0},
{8187,"\xe1\xbd\xbd",0,0},
{8188,"\xe1\xbf\xb3","\xce\xa9\xce\x99",0},
{8486,"\xcf\x89",0,0},
{8490,"\x6b",0,0},
{8491,"\xc3\xa5",0,0},
{8498,"\xe2\x85\x8e",0,0},
{8526,0,"\xe2\x84\xb2","\xe2\x84\xb2"},
{8544,"\xe2\x85\xb0",0,0},
{8545,"\xe2\x85\xb1",0,0},
{8546,"\xe2\x85\xb2",0,0},
{8547,"\xe2\x85\xb3",0,0},
{8548,"\xe2\x85\xb4",0,0},
{8549,"\xe2\x85\xb5",0,0},
{8550,"\xe2\x85\xb6",0,0},
{8551,"\xe2\x85\xb7",0,0},
{8552,"\xe2\x85\xb8",0,0},
{8553,"\xe2\x85\xb9",0,0},
{8554,"\xe2\x85\xba",0,0},
{8555,"\xe2\x85\xbb",0,0},
{8556,"\xe2\x85\xbc",0,0},
{8557,"\xe2\x85\xbd",0,0},
{8558,"\xe2\x85\xbe",0,0},
{8559,"\xe2\x85\xbf",0,0},
{8560,0,"\xe2\x85\xa0","\xe2\x85\xa0"},
{8561,0,"\xe2\x85\xa1","\xe2\x85\xa1"},
{8562,0,"\xe2\x85\xa2","\xe2\x85\xa2"},
{8563,0,"\xe2\x85\xa3","\xe2\x85\xa3"},
{8564,0,"\xe2\x85\xa4","\xe2\x85\xa4"},
{8565,0,"\xe2\x85\xa5","\xe2\x85\xa5"},
{8566,0,"\xe2\x85\xa6","\xe2\x85\xa6"},
{8567,0,"\xe2\x85\xa7","\xe2\x85\xa7"},
{8568,0,"\xe2\x85\xa8","\xe2\x85\xa8"},
{8569,0,"\xe2\x85\xa9","\xe2\x85\xa9"},
{8570,0,"\xe2\x85\xaa","\xe2\x85\xaa"},
{8571,0,"\xe2\x85\xab","\xe2\x85\xab"},
{8572,0,"\xe2\x85\xac","\xe2\x85\xac"},
{8573,0,"\xe2\x85\xad","\xe2\x85\xad"},
{8574,0,"\xe2\x85\xae","\xe2\x85\xae"},
{8575,0,"\xe2\x85\xaf","\xe2\x85\xaf"},
{8579,"\xe2\x86\x84",0,0},
{8580,0,"\xe2\x86\x83","\xe2\x86\x83"},
{9398,"\xe2\x93\x90",0,0},
{9399,"\xe2\x93\x91",0,0},
{9400,"\xe2\x93\x92",0,0},
{9401,"\xe2\x93\x93",0,0},
{9402,"\xe2\x93\x94",0,0},
{9403,"\xe2\x93\x95",0,0},
{9404,"\xe2\x93\x96",0,0},
{9405,"\xe2\x93\x97",0,0},
{9406,"\xe2\x93\x98",0,0},
{9407,"\xe2\x93\x99",0,0},
{9408,"\xe2\x93\x9a",0,0},
{9409,"\xe2\x93\x9b",0,0},
{9410,"\xe2\x93\x9c",0,0},
{9411,"\xe2\x93\x9d",0,0},
{9412,"\xe2\x93\x9e",0,0},
{9413,"\xe2\x93\x9f",0,0},
{9414,"\xe2\x93\xa0",0,0},
{9415,"\xe2\x93\xa1",0,0},
{9416,"\xe2\x93\xa2",0,0},
{9417,"\xe2\x93\xa3",0,0},
{9418,"\xe2\x93\xa4",0,0},
{9419,"\xe2\x93\xa5",0,0},
{9420,"\xe2\x93\xa6",0,0},
{9421,"\xe2\x93\xa7",0,0},
{9422,"\xe2\x93\xa8",0,0},
{9423,"\xe2\x93\xa9",0,0},
{9424,0,"\xe2\x92\xb6","\xe2\x92\xb6"},
{9425,0,"\xe2\x92\xb7","\xe2\x92\xb7"},
{9426,0,"\xe2\x92\xb8","\xe2\x92\xb8"},
{9427,0,"\xe2\x92\xb9","\xe2\x92\xb9"},
{9428,0,"\xe2\x92\xba","\xe2\x92\xba"},
{9429,0,"\xe2\x92\xbb","\xe2\x92\xbb"},
{9430,0,"\xe2\x92\xbc","\xe2\x92\xbc"},
{9431,0,"\xe2\x92\xbd","\xe2\x92\xbd"},
{9432,0,"\xe2\x92\xbe","\xe2\x92\xbe"},
{9433,0,"\xe2\x92\xbf","\xe2\x92\xbf"},
{9434,0,"\xe2\x93\x80","\xe2\x93\x80"},
{9435,0,"\xe2\x93\x81","\xe2\x93\x81"},
{9436,0,"\xe2\x93\x82","\xe2\x93\x82"},
{9437,0,"\xe2\x93\x83","\xe2\x93\x83"},
{9438,0,"\xe2\x93\x84","\xe2\x93\x84"},
{9439,0,"\xe2\x93\x85","\xe2\x93\x85"},
{9440,0,"\xe2\x93\x86","\xe2\x93\x86"},
{9441,0,"\xe2\x93\x87","\xe2\x93\x87"},
{9442,0,"\xe2\x93\x88","\xe2\x93\x88"},
{9443,0,"\xe2\x93\x89","\xe2\x93\x89"},
{9444,0,"\xe2\x93\x8a","\xe2\x93\x8a"},
{9445,0,"\xe2\x93\x8b","\xe2\x93\x8b"},
{9446,0,"\xe2\x93\x8c","\xe2\x93\x8c"},
{9447,0,"\xe2\x93\x8d","\xe2\x93\x8d"},
{9448,0,"\xe2\x93\x8e","\xe2\x93\x8e"},
{9449,0,"\xe2\x93\x8f","\xe2\x93\x8f"},
{11264,"\xe2\xb0\xb0",0,0},
{11265,"\xe2\xb0\xb1",0,0},
{11266,"\xe2\xb0\xb2",0,0},
{11267,"\xe2\xb0\xb3",0,0},
{11268,"\xe2\xb0\xb4",0,0},
{11269,"\xe2\xb0\xb5",0,0},
{11270,"\xe2\xb0\xb6",0,0},
{11271,"\xe2\xb0\xb7",0,0},
{11272,"\xe2\xb0\xb8",0,0},
{11273,"\xe2\xb0\xb9",0,0},
{11274,"\xe2\xb0\xba",0,0},
{11275,"\xe2\xb0\xbb",0,0},
{11276,"\xe2\xb0\xbc",0,0},
{11277,"\xe2\xb0\xbd",0,0},
{11278,"\xe2\xb0\xbe",0,0},
{11279,"\xe2\xb0\xbf",0,0},
{11280,"\xe2\xb1\x80",0,0},
{11281,"\xe2\xb1\x81",0,0},
{11282,"\xe2\xb1\x82",0,0},
{11283,"\xe2\xb1\x83",0,0},
{11284,"\xe2\xb1\x84",0,0},
{11285,"\xe2\xb1\x85",0,0},
{11286,"\xe2\xb1\x86",0,0},
{11287,"\xe2\xb1\x87",0,0},
{11288,"\xe2\xb1\x88",0,0},
{11289,"\xe2\xb1\x89",0,0},
{11290,"\xe2\xb1\x8a",0,0},
{11291,"\xe2\xb1\x8b",0,0},
{11292,"\xe2\xb1\x8c",0,0},
{11293,"\xe2\xb1\x8d",0,0},
{11294,"\xe2\xb1\x8e",0,0},
{11295,"\xe2\xb1\x8f",0,0},
{11296,"\xe2\xb1\x90",0,0},
{11297,"\xe2\xb1\x91",0,0},
{11298,"\xe2\xb1\x92",0,0},
{11299,"\xe2\xb1\x93",0,0},
{11300,"\xe2\xb1\x94",0,0},
{11301,"\xe2\xb1\x95",0,0},
{11302,"\xe2\xb1\x96",0,0},
{11303,"\xe2\xb1\x97",0,0},
{11304,"\xe2\xb1\x98",0,0},
{11305,"\xe2\xb1\x99",0,0},
{11306,"\xe2\xb1\x9a",0,0},
{11307,"\xe2\xb1\x9b",0,0},
{11308,"\xe2\xb1\x9c",0,0},
{11309,"\xe2\xb1\x9d",0,0},
{11310,"\xe2\xb1\x9e",0,0},
{11312,0,"\xe2\xb0\x80","\xe2\xb0\x80"},
{11313,0,"\xe2\xb0\x81","\xe2\xb0\x81"},
{11314,0,"\xe2\xb0\x82","\xe2\xb0\x82"},
{11315,0,"\xe2\xb0\x83","\xe2\xb0\x83"},
{11316,0,"\xe2\xb0\x84","\xe2\xb0\x84"},
{11317,0,"\xe2\xb0\x85","\xe2\xb0\x85"},
{11318,0,"\xe2\xb0\x86","\xe2\xb0\x86"},
{11319,0,"\xe2\xb0\x87","\xe2\xb0\x87"},
{11320,0,"\xe2\xb0\x88","\xe2\xb0\x88"},
{11321,0,"\xe2\xb0\x89","\xe2\xb0\x89"},
{11322,0,"\xe2\xb0\x8a","\xe2\xb0\x8a"},
{11323,0,"\xe2\xb0\x8b","\xe2\xb0\x8b"},
{11324,0,"\xe2\xb0\x8c","\xe2\xb0\x8c"},
{11325,0,"\xe2\xb0\x8d","\xe2\xb0\x8d"},
{11326,0,"\xe2\xb0\x8e","\xe2\xb0\x8e"},
{11327,0,"\xe2\xb0\x8f","\xe2\xb0\x8f"},
{11328,0,"\xe2\xb0\x90","\xe2\xb0\x90"},
{11329,0,"\xe2\xb0\x91","\xe2\xb0\x91"},
{11330,0,"\xe2\xb0\x92","\xe2\xb0\x92"},
{11331,0,"\xe2\xb0\x93","\xe2\xb0\x93"},
{11332,0,"\xe2\xb0\x94","\xe2\xb0\x94"},
{11333,0,"\xe2\xb0\x95","\xe2\xb0\x95"},
{11334,0,"\xe2\xb0\x96","\xe2\xb0\x96"},
{11335,0,"\xe2\xb0\x97","\xe2\xb0\x97"},
{11336,0,"\xe2\xb0\x98","\xe2\xb0\x98"},
{11337,0,"\xe2\xb0\x99","\xe2\xb0\x99"},
{11338,0,"\xe2\xb0\x9a","\xe2\xb0\x9a"},
{11339,0,"\xe2\xb0\x9b","\xe2\xb0\x9b"},
{11340,0,"\xe2\xb0\x9c","\xe2\xb0\x9c"},
{11341,0,"\xe2\xb0\x9d","\xe2\xb0\x9d"},
{11342,0,"\xe2\xb0\x9e","\xe2\xb0\x9e"},
{11343,0,"\xe2\xb0\x9f","\xe2\xb0\x9f"},
{11344,0,"\xe2\xb0\xa0","\xe2\xb0\xa0"},
{11345,0,"\xe2\xb0\xa1","\xe2\xb0\xa1"},
{11346,0,"\xe2\xb0\xa2","\xe2\xb0\xa2"},
{11347,0,"\xe2\xb0\xa3","\xe2\xb0\xa3"},
{11348,0,"\xe2\xb0\xa4","\xe2\xb0\xa4"},
{11349,0,"\xe2\xb0\xa5","\xe2\xb0\xa5"},
{11350,0,"\xe2\xb0\xa6","\xe2\xb0\xa6"},
{11351,0,"\xe2\xb0\xa7","\xe2\xb0\xa7"},
{11352,0,"\xe2\xb0\xa8","\xe2\xb0\xa8"},
{11353,0,"\xe2\xb0\xa9","\xe2\xb0\xa9"},
{11354,0,"\xe2\xb0\xaa","\xe2\xb0\xaa"},
{11355,0,"\xe2\xb0\xab","\xe2\xb0\xab"},
{11356,0,"\xe2\xb0\xac","\xe2\xb0\xac"},
{11357,0,"\xe2\xb0\xad","\xe2\xb0\xad"},
{11358,0,"\xe2\xb0\xae","\xe2\xb0\xae"},
{11360,"\xe2\xb1\xa1",0,0},
{11361,0,"\xe2\xb1\xa0","\xe2\xb1\xa0"},
{11362,"\xc9\xab",0,0},
{11363,"\xe1\xb5\xbd",0,0},
{11364,"\xc9\xbd",0,0},
{11365,0,"\xc8\xba","\xc8\xba"},
{11366,0,"\xc8\xbe","\xc8\xbe"},
{11367,"\xe2\xb1\xa8",0,0},
{11368,0,"\xe2\xb1\xa7","\xe2\xb1\xa7"},
{11369,"\xe2\xb1\xaa",0,0},
{11370,0,"\xe2\xb1\xa9","\xe2\xb1\xa9"},
{11371,"\xe2\xb1\xac",0,0},
{11372,0,"\xe2\xb1\xab","\xe2\xb1\xab"},
{11373,"\xc9\x91",0,0},
{11374,"\xc9\xb1",0,0},
{11375,"\xc9\x90",0,0},
{11376,"\xc9\x92",0,0},
{11378,"\xe2\xb1\xb3",0,0},
{11379,0,"\xe2\xb1\xb2","\xe2\xb1\xb2"},
{11381,"\xe2\xb1\xb6",0,0},
{11382,0,"\xe2\xb1\xb5","\xe2\xb1\xb5"},
{11390,"\xc8\xbf",0,0},
{11391,"\xc9\x80",0,0},
{11392,"\xe2\xb2\x81",0,0},
{11393,0,"\xe2\xb2\x80","\xe2\xb2\x80"},
{11394,"\xe2\xb2\x83",0,0},
{11395,0,"\xe2\xb2\x82","\xe2\xb2\x82"},
{11396,"\xe2\xb2\x85",0,0},
{11397,0,"\xe2\xb2\x84","\xe2\xb2\x84"},
{11398,"\xe2\xb2\x87",0,0},
{11399,0,"\xe2\xb2\x86","\xe2\xb2\x86"},
{11400,"\xe2\xb2\x89",0,0},
{11401,0,"\xe2\xb2\x88","\xe2\xb2\x88"},
{11402,"\xe2\xb2\x8b",0,0},
{11403,0,"\xe2\xb2\x8a","\xe2\xb2\x8a"},
{11404,"\xe2\xb2\x8d",0,0},
{11405,0,"\xe2\xb2\x8c","\xe2\xb2\x8c"},
{11406,"\xe2\xb2\x8f",0,0},
{11407,0,"\xe2\xb2\x8e","\xe2\xb2\x8e"},
{11408,"\xe2\xb2\x91",0,0},
{11409,0,"\xe2\xb2\x90","\xe2\xb2\x90"},
{11410,"\xe2\xb2\x93",0,0},
{11411,0,"\xe2\xb2\x92","\xe2\xb2\x92"},
{11412,"\xe2\xb2\x95",0,0},
{11413,0,"\xe2\xb2\x94","\xe2\xb2\x94"},
{11414,"\xe2\xb2\x97",0,0},
{11415,0,"\xe2\xb2\x96","\xe2\xb2\x96"},
{11416,"\xe2\xb2\x99",0,0},
{11417,0,"\xe2\xb2\x98","\xe2\xb2\x98"},
{11418,"\xe2\xb2\x9b",0,0},
{11419,0,"\xe2\xb2\x9a","\xe2\xb2\x9a"},
{11420,"\xe2\xb2\x9d",0,0},
{11421,0,"\xe2\xb2\x9c","\xe2\xb2\x9c"},
{11422,"\xe2\xb2\x9f",0,0},
{11423,0,"\xe2\xb2\x9e","\xe2\xb2\x9e"},
{11424,"\xe2\xb2\xa1",0,0},
{11425,0,"\xe2\xb2\xa0","\xe2\xb2\xa0"},
{11426,"\xe2\xb2\xa3",0,0},
{11427,0,"\xe2\xb2\xa2","\xe2\xb2\xa2"},
{11428,"\xe2\xb2\xa5",0,0},
{11429,0,"\xe2\xb2\xa4","\xe2\xb2\xa4"},
{11430,"\xe2\xb2\xa7",0,0},
{11431,0,"\xe2\xb2\xa6","\xe2\xb2\xa6"},
{11432,"\xe2\xb2\xa9",0,0},
{11433,0,"\xe2\xb2\xa8","\xe2\xb2\xa8"},
{11434,"\xe2\xb2\xab",0,0},
{11435,0,"\xe2\xb2\xaa","\xe2\xb2\xaa"},
{11436,"\xe2\xb2\xad",0,0},
{11437,0,"\xe2\xb2\xac","\xe2\xb2\xac"},
{11438,"\xe2\xb2\xaf",0,0},
{11439,0,"\xe2\xb2\xae","\xe2\xb2\xae"},
{11440,"\xe2\xb2\xb1",0,0},
{11441,0,"\xe2\xb2\xb0","\xe2\xb2\xb0"},
{11442,"\xe2\xb2\xb3",0,0},
{11443,0,"\xe2\xb2\xb2","\xe2\xb2\xb2"},
{11444,"\xe2\xb2\xb5",0,0},
{11445,0,"\xe2\xb2\xb4","\xe2\xb2\xb4"},
{11446,"\xe2\xb2\xb7",0,0},
{11447,0,"\xe2\xb2\xb6","\xe2\xb2\xb6"},
{11448,"\xe2\xb2\xb9",0,0},
{11449,0,"\xe2\xb2\xb8","\xe2\xb2\xb8"},
{11450,"\xe2\xb2\xbb",0,0},
{11451,0,"\xe2\xb2\xba","\xe2\xb2\xba"},
{11452,"\xe2\xb2\xbd",0,0},
{11453,0,"\xe2\xb2\xbc","\xe2\xb2\xbc"},
{11454,"\xe2\xb2\xbf",0,0},
{11455,0,"\xe2\xb2\xbe","\xe2\xb2\xbe"},
{11456,"\xe2\xb3\x81",0,0},
{11457,0,"\xe2\xb3\x80","\xe2\xb3\x80"},
{11458,"\xe2\xb3\x83",0,0},
{11459,0,"\xe2\xb3\x82","\xe2\xb3\x82"},
{11460,"\xe2\xb3\x85",0,0},
{11461,0,"\xe2\xb3\x84","\xe2\xb3\x84"},
{11462,"\xe2\xb3\x87",0,0},
{11463,0,"\xe2\xb3\x86","\xe2\xb3\x86"},
{11464,"\xe2\xb3\x89",0,0},
{11465,0,"\xe2\xb3\x88","\xe2\xb3\x88"},
{11466,"\xe2\xb3\x8b",0,0},
{11467,0,"\xe2\xb3\x8a","\xe2\xb3\x8a"},
{11468,"\xe2\xb3\x8d",0,0},
{11469,0,"\xe2\xb3\x8c","\xe2\xb3\x8c"},
{11470,"\xe2\xb3\x8f",0,0},
{11471,0,"\xe2\xb3\x8e","\xe2\xb3\x8e"},
{11472,"\xe2\xb3\x91",0,0},
{11473,0,"\xe2\xb3\x90","\xe2\xb3\x90"},
{11474,"\xe2\xb3\x93",0,0},
{11475,0,"\xe2\xb3\x92","\xe2\xb3\x92"},
{11476,"\xe2\xb3\x95",0,0},
{11477,0,"\xe2\xb3\x94","\xe2\xb3\x94"},
{11478,"\xe2\xb3\x97",0,0},
{11479,0,"\xe2\xb3\x96","\xe2\xb3\x96"},
{11480,"\xe2\xb3\x99",0,0},
{11481,0,"\xe2\xb3\x98","\xe2\xb3\x98"},
{11482,"\xe2\xb3\x9b",0,0},
{11483,0,"\xe2\xb3\x9a","\xe2\xb3\x9a"},
{11484,"\xe2\xb3\x9d",0,0},
{11485,0,"\xe2\xb3\x9c","\xe2\xb3\x9c"},
{11486,"\xe2\xb3\x9f",0,0},
{11487,0,"\xe2\xb3\x9e","\xe2\xb3\x9e"},
{11488,"\xe2\xb3\xa1",0,0},
{11489,0,"\xe2\xb3\xa0","\xe2\xb3\xa0"},
{11490,"\xe2\xb3\xa3",0,0},
{11491,0,"\xe2\xb3\xa2","\xe2\xb3\xa2"},
{11499,"\xe2\xb3\xac",0,0},
{11500,0,"\xe2\xb3\xab","\xe2\xb3\xab"},
{11501,"\xe2\xb3\xae",0,0},
{11502,0,"\xe2\xb3\xad","\xe2\xb3\xad"},
{11520,0,"\xe1\x82\xa0","\xe1\x82\xa0"},
{11521,0,"\xe1\x82\xa1","\xe1\x82\xa1"},
{11522,0,"\xe1\x82\xa2","\xe1\x82\xa2"},
{11523,0,"\xe1\x82\xa3","\xe1\x82\xa3"},
{11524,0,"\xe1\x82\xa4","\xe1\x82\xa4"},
{11525,0,"\xe1\x82\xa5","\xe1\x82\xa5"},
{11526,0,"\xe1\x82\xa6","\xe1\x82\xa6"},
{11527,0,"\xe1\x82\xa7","\xe1\x82\xa7"},
{11528,0,"\xe1\x82\xa8","\xe1\x82\xa8"},
{11529,0,"\xe1\x82\xa9","\xe1\x82\xa9"},
{11530,0,"\xe1\x82\xaa","\xe1\x82\xaa"},
{11531,0,"\xe1\x82\xab","\xe1\x82\xab"},
{11532,0,"\xe1\x82\xac","\xe1\x82\xac"},
{11533,0,"\xe1\x82\xad","\xe1\x82\xad"},
{11534,0,"\xe1\x82\xae","\xe1\x82\xae"},
{11535,0,"\xe1\x82\xaf","\xe1\x82\xaf"},
{11536,0,"\xe1\x82\xb0","\xe1\x82\xb0"},
{11537,0,"\xe1\x82\xb1","\xe1\x82\xb1"},
{11538,0,"\xe1\x82\xb2","\xe1\x82\xb2"},
{11539,0,"\xe1\x82\xb3","\xe1\x82\xb3"},
{11540,0,"\xe1\x82\xb4","\xe1\x82\xb4"},
{11541,0,"\xe1\x82\xb5","\xe1\x82\xb5"},
{11542,0,"\xe1\x82\xb6","\xe1\x82\xb6"},
{11543,0,"\xe1\x82\xb7","\xe1\x82\xb7"},
{11544,0,"\xe1\x82\xb8","\xe1\x82\xb8"},
{11545,0,"\xe1\x82\xb9","\xe1\x82\xb9"},
{11546,0,"\xe1\x82\xba","\xe1\x82\xba"},
{11547,0,"\xe1\x82\xbb","\xe1\x82\xbb"},
{11548,0,"\xe1\x82\xbc","\xe1\x82\xbc"},
{11549,0,"\xe1\x82\xbd","\xe1\x82\xbd"},
{11550,0,"\xe1\x82\xbe","\xe1\x82\xbe"},
{11551,0,"\xe1\x82\xbf","\xe1\x82\xbf"},
{11552,0,"\xe1\x83\x80","\xe1\x83\x80"},
{11553,0,"\xe1\x83\x81","\xe1\x83\x81"},
{11554,0,"\xe1\x83\x82","\xe1\x83\x82"},
{11555,0,"\xe1\x83\x83","\xe1\x83\x83"},
{11556,0,"\xe1\x83\x84","\xe1\x83\x84"},
{11557,0,"\xe1\x83\x85","\xe1\x83\x85"},
{42560,"\xea\x99\x81",0,0},
{42561,0,"\xea\x99\x80","\xea\x99\x80"},
{42562,"\xea\x99\x83",0,0},
{42563,0,"\xea\x99\x82","\xea\x99\x82"},
{42564,"\xea\x99\x85",0,0},
{42565,0,"\xea\x99\x84","\xea\x99\x84"},
{42566,"\xea\x99\x87",0,0},
{42567,0,"\xea\x99\x86","\xea\x99\x86"},
{42568,"\xea\x99\x89",0,0},
{42569,0,"\xea\x99\x88","\xea\x99\x88"},
{42570,"\xea\x99\x8b",0,0},
{42571,0,"\xea\x99\x8a","\xea\x99\x8a"},
{42572,"\xea\x99\x8d",0,0},
{42573,0,"\xea\x99\x8c","\xea\x99\x8c"},
{42574,"\xea\x99\x8f",0,0},
{42575,0,"\xea\x99\x8e","\xea\x99\x8e"},
{42576,"\xea\x99\x91",0,0},
{42577,0,"\xea\x99\x90","\xea\x99\x90"},
{42578,"\xea\x99\x93",0,0},
{42579,0,"\xea\x99\x92","\xea\x99\x92"},
{42580,"\xea\x99\x95",0,0},
{42581,0,"\xea\x99\x94","\xea\x99\x94"},
{42582,"\xea\x99\x97",0,0},
{42583,0,"\xea\x99\x96","\xea\x99\x96"},
{42584,"\xea\x99\x99",0,0},
{42585,0,"\xea\x99\x98","\xea\x99\x98"},
{42586,"\xea\x99\x9b",0,0},
{42587,0,"\xea\x99\x9a","\xea\x99\x9a"},
{42588,"\xea\x99\x9d",0,0},
{42589,0,"\xea\x99\x9c","\xea\x99\x9c"},
{42590,"\xea\x99\x9f",0,0},
{42591,0,"\xea\x99\x9e","\xea\x99\x9e"},
{42592,"\xea\x99\xa1",0,0},
{42593,0,"\xea\x99\xa0","\xea\x99\xa0"},
{42594,"\xea\x99\xa3",0,0},
{42595,0,"\xea\x99\xa2","\xea\x99\xa2"},
{42596,"\xea\x99\xa5",0,0},
{42597,0,"\xea\x99\xa4","\xea\x99\xa4"},
{42598,"\xea\x99\xa7",0,0},
{42599,0,"\xea\x99\xa6","\xea\x99\xa6"},
{42600,"\xea\x99\xa9",0,0},
{42601,0,"\xea\x99\xa8","\xea\x99\xa8"},
{42602,"\xea\x99\xab",0,0},
{42603,0,"\xea\x99\xaa","\xea\x99\xaa"},
{42604,"\xea\x99\xad",0,0},
{42605,0,"\xea\x99\xac","\xea\x99\xac"},
{42624,"\xea\x9a\x81",0,0},
{42625,0,"\xea\x9a\x80","\xea\x9a\x80"},
{42626,"\xea\x9a\x83",0,0},
{42627,0,"\xea\x9a\x82","\xea\x9a\x82"},
{42628,"\xea\x9a\x85",0,0},
{42629,0,"\xea\x9a\x84","\xea\x9a\x84"},
{42630,"\xea\x9a\x87",0,0},
{42631,0,"\xea\x9a\x86","\xea\x9a\x86"},
{42632,"\xea\x9a\x89",0,0},
{42633,0,"\xea\x9a\x88","\xea\x9a\x88"},
{42634,"\xea\x9a\x8b",0,0},
{42635,0,"\xea\x9a\x8a","\xea\x9a\x8a"},
{42636,"\xea\x9a\x8d",0,0},
{42637,0,"\xea\x9a\x8c","\xea\x9a\x8c"},
{42638,"\xea\x9a\x8f",0,0},
{42639,0,"\xea\x9a\x8e","\xea\x9a\x8e"},
{42640,"\xea\x9a\x91",0,0},
{42641,0,"\xea\x9a\x90","\xea\x9a\x90"},
{42642,"\xea\x9a\x93",0,0},
{42643,0,"\xea\x9a\x92","\xea\x9a\x92"},
{42644,"\xea\x9a\x95",0,0},
{42645,0,"\xea\x9a\x94","\xea\x9a\x94"},
{42646,"\xea\x9a\x97",0,0},
{42647,0,"\xea\x9a\x96","\xea\x9a\x96"},
{42786,"\xea\x9c\xa3",0,0},
{42787,0,"\xea\x9c\xa2","\xea\x9c\xa2"},
{42788,"\xea\x9c\xa5",0,0},
{42789,0,"\xea\x9c\xa4","\xea\x9c\xa4"},
{42790,"\xea\x9c\xa7",0,0},
{42791,0,"\xea\x9c\xa6","\xea\x9c\xa6"},
{42792,"\xea\x9c\xa9",0,0},
{42793,0,"\xea\x9c\xa8","\xea\x9c\xa8"},
{42794,"\xea\x9c\xab",0,0},
{42795,0,"\xea\x9c\xaa","\xea\x9c\xaa"},
{42796,"\xea\x9c\xad",0,0},
{42797,0,"\xea\x9c\xac","\xea\x9c\xac"},
{42798,"\xea\x9c\xaf",0,0},
{42799,0,"\xea\x9c\xae","\xea\x9c\xae"},
{42802,"\xea\x9c\xb3",0,0},
{42803,0,"\xea\x9c\xb2","\xea\x9c\xb2"},
{42804,"\xea\x9c\xb5",0,0},
{42805,0,"\xea\x9c\xb4","\xea\x9c\xb4"},
{42806,"\xea\x9c\xb7",0,0},
{42807,0,"\xea\x9c\xb6","\xea\x9c\xb6"},
{42808,"\xea\x9c\xb9",0,0},
{42809,0,"\xea\x9c\xb8","\xea\x9c\xb8"},
{42810,"\xea\x9c\xbb",0,0},
{42811,0,"\xea\x9c\xba","\xea\x9c\xba"},
{42812,"\xea\x9c\xbd",0,0},
{42813,0,"\xea\x9c\xbc","\xea\x9c\xbc"},
{42814,"\xea\x9c\xbf",0,0},
{42815,0,"\xea\x9c\xbe","\xea\x9c\xbe"},
{42816,"\xea\x9d\x81",0,0},
{42817,0,"\xea\x9d\x80","\xea\x9d\x80"},
{42818,"\xea\x9d\x83",0,0},
{42819,0,"\xea\x9d\x82","\xea\x9d\x82"},
{42820,"\xea\x9d\x85",0,0},
{42821,0,"\xea\x9d\x84","\xea\x9d\x84"},
{42822,"\xea\x9d\x87",0,0},
{42823,0,"\xea\x9d\x86","\xea\x9d\x86"},
{42824,"\xea\x9d\x89",0,0},
{42825,0,"\xea\x9d\x88","\xea\x9d\x88"},
{42826,"\xea\x9d\x8b",0,0},
{42827,0,"\xea\x9d\x8a","\xea\x9d\x8a"},
{42828,"\xea\x9d\x8d",0,0},
{42829,0,"\xea\x9d\x8c","\xea\x9d\x8c"},
{42830,"\xea\x9d\x8f",0,0},
{42831,0,"\xea\x9d\x8e","\xea\x9d\x8e"},
{42832,"\xea\x9d\x91",0,0},
{42833,0,"\xea\x9d\x90","\xea\x9d\x90"},
{42834,"\xea\x9d\x93",0,0},
{42835,0,"\xea\x9d\x92","\xea\x9d\x92"},
{42836,"\xea\x9d\x95",0,0},
{42837,0,"\xea\x9d\x94","\xea\x9d\x94"},
{42838,"\xea\x9d\x97",0,0},
{42839,0,"\xea\x9d\x96","\xea\x9d\x96"},
{42840,"\xea\x9d\x99",0,0},
{42841,0,"\xea\x9d\x98","\xea\x9d\x98"},
{42842,"\xea\x9d\x9b",0,0},
{42843,0,"\xea\x9d\x9a","\xea\x9d\x9a"},
{42844,"\xea\x9d\x9d",0,0},
{42845,0,"\xea\x9d\x9c","\xea\x9d\x9c"},
{42846,"\xea\x9d\x9f",0,0},
{42847,0,"\xea\x9d\x9e","\xea\x9d\x9e"},
{42848,"\xea\x9d\xa1",0,0},
{42849,0,"\xea\x9d\xa0","\xea\x9d\xa0"},
{42850,"\xea\x9d\xa3",0,0},
{42851,0,"\xea\x9d\xa2","\xea\x9d\xa2"},
{42852,"\xea\x9d\xa5",0,0},
{42853,0,"\xea\x9d\xa4","\xea\x9d\xa4"},
{42854,"\xea\x9d\xa7",0,0},
{42855,0,"\xea\x9d\xa6","\xea\x9d\xa6"},
{42856,"\xea\x9d\xa9",0,0},
{42857,0,"\xea\x9d\xa8","\xea\x9d\xa8"},
{42858,"\xea\x9d\xab",0,0},
{42859,0,"\xea\x9d\xaa","\xea\x9d\xaa"},
{42860,"\xea\x9d\xad",0,0},
{42861,0,"\xea\x9d\xac","\xea\x9d\xac"},
{42862,"\xea\x9d\xaf",0,0},
{42863,0,"\xea\x9d\xae","\xea\x9d\xae"},
{42873,"\xea\x9d\xba",0,0},
{42874,0,"\xea\x9d\xb9","\xea\x9d\xb9"},
{42875,"\xea\x9d\xbc",0,0},
{42876,0,"\xea\x9d\xbb","\xea\x9d\xbb"},
{42877,"\xe1\xb5\xb9",0,0},
{42878,"\xea\x9d\xbf",0,0},
{42879,0,"\xea\x9d\xbe","\xea\x9d\xbe"},
{42880,"\xea\x9e\x81",0,0},
{42881,0,"\xea\x9e\x80","\xea\x9e\x80"},
{42882,"\xea\x9e\x83",0,0},
{42883,0,"\xea\x9e\x82","\xea\x9e\x82"},
{42884,"\xea\x9e\x85",0,0},
{42885,0,"\xea\x9e\x84","\xea\x9e\x84"},
{42886,"\xea\x9e\x87",0,0},
{42887,0,"\xea\x9e\x86","\xea\x9e\x86"},
{42891,"\xea\x9e\x8c",0,0},
{42892,0,"\xea\x9e\x8b","\xea\x9e\x8b"},
{42893,"\xc9\xa5",0,0},
{42896,"\xea\x9e\x91",0,0},
{42897,0,"\xea\x9e\x90","\xea\x9e\x90"},
{42912,"\xea\x9e\xa1",0,0},
{42913,0,"\xea\x9e\xa0","\xea\x9e\xa0"},
{42914,"\xea\x9e\xa3",0,0},
{42915,0,"\xea\x9e\xa2","\xea\x9e\xa2"},
{42916,"\xea\x9e\xa5",0,0},
{42917,0,"\xea\x9e\xa4","\xea\x9e\xa4"},
{42918,"\xea\x9e\xa7",0,0},
{42919,0,"\xea\x9e\xa6","\xea\x9e\xa6"},
{42920,"\xea\x9e\xa9",0,0},
{42921,0,"\xea\x9e\xa8","\xea\x9e\xa8"},
{64256,0,"\x46\x46","\x46\x66"},
{64257,0,"\x46\x49","\x46\x69"},
{64258,0,"\x46\x4c","\x46\x6c"},
{64259,0,"\x46\x46\x49","\x46\x66\x69"},
{64260,0,"\x46\x46\x4c","\x46\x66\x6c"},
{64261,0,"\x53\x54","\x53\x74"},
{64262,0,"\x53\x54","\x53\x74"},
{64275,0,"\xd5\x84\xd5\x86","\xd5\x84\xd5\xb6"},
{64276,0,"\xd5\x84\xd4\xb5","\xd5\x84\xd5\xa5"},
{64277,0,"\xd5\x84\xd4\xbb","\xd5\x84\xd5\xab"},
{64278,0,"\xd5\x8e\xd5\x86","\xd5\x8e\xd5\xb6"},
{64279,0,"\xd5\x84\xd4\xbd","\xd5\x84\xd5\xad"},
{65313,"\xef\xbd\x81",0,0},
{65314,"\xef\xbd\x82",0,0},
{65315,"\xef\xbd\x83",0,0},
{65316,"\xef\xbd\x84",0,0},
{65317,"\xef\xbd\x85",0,0},
{65318,"\xef\xbd\x86",0,0},
{65319,"\xef\xbd\x87",0,0},
{65320,"\xef\xbd\x88",0,0},
{65321,"\xef\xbd\x89",0,0},
{65322,"\xef\xbd\x8a",0,0},
{65323,"\xef\xbd\x8b",0,0},
{65324,"\xef\xbd\x8c",0,0},
{65325,"\xef\xbd\x8d",0,0},
{65326,"\xef\xbd\x8e",0,0},
{65327,"\xef\xbd\x8f",0,0},
{65328,"\xef\xbd\x90",0,0},
{65329,"\xef\xbd\x91",0,0},
{65330,"\xef\xbd\x92",0,0},
{65331,"\xef\xbd\x93",0,0},
{65332,"\xef\xbd\x94",0,0},
{65333,"\xef\xbd\x95",0,0},
{65334,"\xef\xbd\x96",0,0},
{65335,"\xef\xbd\x97",0,0},
{65336,"\xef\xbd\x98",0,0},
{65337,"\xef\xbd\x99",0,0},
{65338,"\xef\xbd\x9a",0,0},
{65345,0,"\xef\xbc\xa1","\xef\xbc\xa1"},
{65346,0,"\xef\xbc\xa2","\xef\xbc\xa2"},
{65347,0,"\xef\xbc\xa3","\xef\xbc\xa3"},
{65348,0,"\xef\xbc\xa4","\xef\xbc\xa4"},
{65349,0,"\xef\xbc\xa5","\xef\xbc\xa5"},
{65350,0,"\xef\xbc\xa6","\xef\xbc\xa6"},
{65351,0,"\xef\xbc\xa7","\xef\xbc\xa7"},
{65352,0,"\xef\xbc\xa8","\xef\xbc\xa8"},
{65353,0,"\xef\xbc\xa9","\xef\xbc\xa9"},
{65354,0,"\xef\xbc\xaa","\xef\xbc\xaa"},
{65355,0,"\xef\xbc\xab","\xef\xbc\xab"},
{65356,0,"\xef\xbc\xac","\xef\xbc\xac"},
{65357,0,"\xef\xbc\xad","\xef\xbc\xad"},
{65358,0,"\xef\xbc\xae","\xef\xbc\xae"},
{65359,0,"\xef\xbc\xaf","\xef\xbc\xaf"},
{65360,0,"\xef\xbc\xb0","\xef\xbc\xb0"},
{65361,0,"\xef\xbc\xb1","\xef\xbc\xb1"},
{65362,0,"\xef\xbc\xb2","\xef\xbc\xb2"},
{65363,0,"\xef\xbc\xb3","\xef\xbc\xb3"},
{65364,0,"\xef\xbc\xb4","\xef\xbc\xb4"},
{65365,0,"\xef\xbc\xb5","\xef\xbc\xb5"},
{65366,0,"\xef\xbc\xb6","\xef\xbc\xb6"},
{65367,0,"\xef\xbc\xb7","\xef\xbc\xb7"},
{65368,0,"\xef\xbc\xb8","\xef\xbc\xb8"},
{65369,0,"\xef\xbc\xb9","\xef\xbc\xb9"},
{65370,0,"\xef\xbc\xba","\xef\xbc\xba"},
{66560,"\xf0\x90\x90\xa8",0,0},
{66561,"\xf0\x90\x90\xa9",0,0},
{66562,"\xf0\x90\x90\xaa",0,0},
{66563,"\xf0\x90\x90\xab",0,0},
{66564,"\xf0\x90\x90\xac",0,0},
{66565,"\xf0\x90\x90\xad",0,0},
{66566,"\xf0\x90\x90\xae",0,0},
{66567,"\xf0\x90\x90\xaf",0,0},
{66568,"\xf0\x90\x90\xb0",0,0},
{66569,"\xf0\x90\x90\xb1",0,0},
{66570,"\xf0\x90\x90\xb2",0,0},
{66571,"\xf0\x90\x90\xb3",0,0},
{66572,"\xf0\x90\x90\xb4",0,0},
{66573,"\xf0\x90\x90\xb5",0,0},
{66574,"\xf0\x90\x90\xb6",0,0},
{66575,"\xf0\x90\x90\xb7",0,0},
{66576,"\xf0\x90\x90\xb8",0,0},
{66577,"\xf0\x90\x90\xb9",0,0},
{66578,"\xf0\x90\x90\xba",0,0},
{66579,"\xf0\x90\x90\xbb",0,0},
{66580,"\xf0\x90\x90\xbc",0,0},
{66581,"\xf0\x90\x90\xbd",0,0},
{66582,"\xf0\x90\x90\xbe",0,0},
{66583,"\xf0\x90\x90\xbf",0,0},
{66584,"\xf0\x90\x91\x80",0,0},
{66585,"\xf0\x90\x91\x81",0,0},
{66586,"\xf0\x90\x91\x82",0,0},
{66587,"\xf0\x90\x91\x83",0,0},
{66588,"\xf0\x90\x91\x84",0,0},
{66589,"\xf0\x90\x91\x85",0,0},
{66590,"\xf0\x90\x91\x86",0,0},
{66591,"\xf0\x90\x91\x87",0,0},
{66592,"\xf0\x90\x91\x88",0,0},
{66593,"\xf0\x90\x91\x89",0,0},
{66594,"\xf0\x90\x91\x8a",0,0},
{66595,"\xf0\x90\x91\x8b",0,0},
{66596,"\xf0\x90\x91\x8c",0,0},
{66597,"\xf0\x90\x91\x8d",0,0},
{66598,"\xf0\x90\x91\x8e",0,0},
{66599,"\xf0\x90\x91\x8f",0,0},
{66600,0,"\xf0\x90\x90\x80","\xf0\x90\x90\x80"},
{66601,0,"\xf0\x90\x90\x81","\xf0\x90\x90\x81"},
{66602,0,"\xf0\x90\x90\x82","\xf0\x90\x90\x82"},
{66603,0,"\xf0\x90\x90\x83","\xf0\x90\x90\x83"},
{66604,0,"\xf0\x90\x90\x84","\xf0\x90\x90\x84"},
{66605,0,"\xf0\x90\x90\x85","\xf0\x90\x90\x85"},
{66606,0,"\xf0\x90\x90\x86","\xf0\x90\x90\x86"},
{66607,0,"\xf0\x90\x90\x87","\xf0\x90\x90\x87"},
{66608,0,"\xf0\x90\x90\x88","\xf0\x90\x90\x88"},
{66609,0,"\xf0\x90\x90\x89","\xf0\x90\x90\x89"},
{66610,0,"\xf0\x90\x90\x8a","\xf0\x90\x90\x8a"},
{66611,0,"\xf0\x90\x90\x8b","\xf0\x90\x90\x8b"},
{66612,0,"\xf0\x90\x90\x8c","\xf0\x90\x90\x8c"},
{66613,0,"\xf0\x90\x90\x8d","\xf0\x90\x90\x8d"},
{66614,0,"\xf0\x90\x90\x8e","\xf0\x90\x90\x8e"},
{66615,0,"\xf0\x90\x90\x8f","\xf0\x90\x90\x8f"},
{66616,0,"\xf0\x90\x90\x90","\xf0\x90\x90\x90"},
{66617,0,"\xf0\x90\x90\x91","\xf0\x90\x90\x91"},
{66618,0,"\xf0\x90\x90\x92","\xf0\x90\x90\x92"},
{66619,0,"\xf0\x90\x90\x93","\xf0\x90\x90\x93"},
{66620,0,"\xf0\x90\x90\x94","\xf0\x90\x90\x94"},
{66621,0,"\xf0\x90\x90\x95","\xf0\x90\x90\x95"},
{66622,0,"\xf0\x90\x90\x96","\xf0\x90\x90\x96"},
{66623,0,"\xf0\x90\x90\x97","\xf0\x90\x90\x97"},
{66624,0,"\xf0\x90\x90\x98","\xf0\x90\x90\x98"},
{66625,0,"\xf0\x90\x90\x99","\xf0\x90\x90\x99"},
{66626,0,"\xf0\x90\x90\x9a","\xf0\x90\x90\x9a"},
{66627,0,"\xf0\x90\x90\x9b","\xf0\x90\x90\x9b"},
{66628,0,"\xf0\x90\x90\x9c","\xf0\x90\x90\x9c"},
{66629,0,"\xf0\x90\x90\x9d","\xf0\x90\x90\x9d"},
{66630,0,"\xf0\x90\x90\x9e","\xf0\x90\x90\x9e"},
{66631,0,"\xf0\x90\x90\x9f","\xf0\x90\x90\x9f"},
{66632,0,"\xf0\x90\x90\xa0","\xf0\x90\x90\xa0"},
{66633,0,"\xf0\x90\x90\xa1","\xf0\x90\x90\xa1"},
{66634,0,"\xf0\x90\x90\xa2","\xf0\x90\x90\xa2"},
{66635,0,"\xf0\x90\x90\xa3","\xf0\x90\x90\xa3"},
{66636,0,"\xf0\x90\x90\xa4","\xf0\x90\x90\xa4"},
{66637,0,"\xf0\x90\x90\xa5","\xf0\x90\x90\xa5"},
{66638,0,"\xf0\x90\x90\xa6","\xf0\x90\x90\xa6"},
{66639,0,"\xf0\x90\x90\xa7","\xf0\x90\x90\xa7"},
