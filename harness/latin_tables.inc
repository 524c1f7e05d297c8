// generated by tools/mklatin.py from Python's codecs; 0 = not defined in the part
static const unsigned short latinUpper[9][128] = {
	/* ISO-8859-1 */ {0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8a,0x8b,0x8c,0x8d,0x8e,0x8f,0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9a,0x9b,0x9c,0x9d,0x9e,0x9f,0xa0,0xa1,0xa2,0xa3,0xa4,0xa5,0xa6,0xa7,0xa8,0xa9,0xaa,0xab,0xac,0xad,0xae,0xaf,0xb0,0xb1,0xb2,0xb3,0xb4,0xb5,0xb6,0xb7,0xb8,0xb9,0xba,0xbb,0xbc,0xbd,0xbe,0xbf,0xc0,0xc1,0xc2,0xc3,0xc4,0xc5,0xc6,0xc7,0xc8,0xc9,0xca,0xcb,0xcc,0xcd,0xce,0xcf,0xd0,0xd1,0xd2,0xd3,0xd4,0xd5,0xd6,0xd7,0xd8,0xd9,0xda,0xdb,0xdc,0xdd,0xde,0xdf,0xe0,0xe1,0xe2,0xe3,0xe4,0xe5,0xe6,0xe7,0xe8,0xe9,0xea,0xeb,0xec,0xed,0xee,0xef,0xf0,0xf1,0xf2,0xf3,0xf4,0xf5,0xf6,0xf7,0xf8,0xf9,0xfa,0xfb,0xfc,0xfd,0xfe,0xff},
	/* ISO-8859-2 */ {0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8a,0x8b,0x8c,0x8d,0x8e,0x8f,0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9a,0x9b,0x9c,0x9d,0x9e,0x9f,0xa0,0x104,0x2d8,0x141,0xa4,0x13d,0x15a,0xa7,0xa8,0x160,0x15e,0x164,0x179,0xad,0x17d,0x17b,0xb0,0x105,0x2db,0x142,0xb4,0x13e,0x15b,0x2c7,0xb8,0x161,0x15f,0x165,0x17a,0x2dd,0x17e,0x17c,0x154,0xc1,0xc2,0x102,0xc4,0x139,0x106,0xc7,0x10c,0xc9,0x118,0xcb,0x11a,0xcd,0xce,0x10e,0x110,0x143,0x147,0xd3,0xd4,0x150,0xd6,0xd7,0x158,0x16e,0xda,0x170,0xdc,0xdd,0x162,0xdf,0x155,0xe1,0xe2,0x103,0xe4,0x13a,0x107,0xe7,0x10d,0xe9,0x119,0xeb,0x11b,0xed,0xee,0x10f,0x111,0x144,0x148,0xf3,0xf4,0x151,0xf6,0xf7,0x159,0x16f,0xfa,0x171,0xfc,0xfd,0x163,0x2d9},
	/* ISO-8859-3 */ {0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8a,0x8b,0x8c,0x8d,0x8e,0x8f,0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9a,0x9b,0x9c,0x9d,0x9e,0x9f,0xa0,0x126,0x2d8,0xa3,0xa4,0x0,0x124,0xa7,0xa8,0x130,0x15e,0x11e,0x134,0xad,0x0,0x17b,0xb0,0x127,0xb2,0xb3,0xb4,0xb5,0x125,0xb7,0xb8,0x131,0x15f,0x11f,0x135,0xbd,0x0,0x17c,0xc0,0xc1,0xc2,0x0,0xc4,0x10a,0x108,0xc7,0xc8,0xc9,0xca,0xcb,0xcc,0xcd,0xce,0xcf,0x0,0xd1,0xd2,0xd3,0xd4,0x120,0xd6,0xd7,0x11c,0xd9,0xda,0xdb,0xdc,0x16c,0x15c,0xdf,0xe0,0xe1,0xe2,0x0,0xe4,0x10b,0x109,0xe7,0xe8,0xe9,0xea,0xeb,0xec,0xed,0xee,0xef,0x0,0xf1,0xf2,0xf3,0xf4,0x121,0xf6,0xf7,0x11d,0xf9,0xfa,0xfb,0xfc,0x16d,0x15d,0x2d9},
	/* ISO-8859-4 */ {0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8a,0x8b,0x8c,0x8d,0x8e,0x8f,0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9a,0x9b,0x9c,0x9d,0x9e,0x9f,0xa0,0x104,0x138,0x156,0xa4,0x128,0x13b,0xa7,0xa8,0x160,0x112,0x122,0x166,0xad,0x17d,0xaf,0xb0,0x105,0x2db,0x157,0xb4,0x129,0x13c,0x2c7,0xb8,0x161,0x113,0x123,0x167,0x14a,0x17e,0x14b,0x100,0xc1,0xc2,0xc3,0xc4,0xc5,0xc6,0x12e,0x10c,0xc9,0x118,0xcb,0x116,0xcd,0xce,0x12a,0x110,0x145,0x14c,0x136,0xd4,0xd5,0xd6,0xd7,0xd8,0x172,0xda,0xdb,0xdc,0x168,0x16a,0xdf,0x101,0xe1,0xe2,0xe3,0xe4,0xe5,0xe6,0x12f,0x10d,0xe9,0x119,0xeb,0x117,0xed,0xee,0x12b,0x111,0x146,0x14d,0x137,0xf4,0xf5,0xf6,0xf7,0xf8,0x173,0xfa,0xfb,0xfc,0x169,0x16b,0x2d9},
	/* ISO-8859-9 */ {0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8a,0x8b,0x8c,0x8d,0x8e,0x8f,0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9a,0x9b,0x9c,0x9d,0x9e,0x9f,0xa0,0xa1,0xa2,0xa3,0xa4,0xa5,0xa6,0xa7,0xa8,0xa9,0xaa,0xab,0xac,0xad,0xae,0xaf,0xb0,0xb1,0xb2,0xb3,0xb4,0xb5,0xb6,0xb7,0xb8,0xb9,0xba,0xbb,0xbc,0xbd,0xbe,0xbf,0xc0,0xc1,0xc2,0xc3,0xc4,0xc5,0xc6,0xc7,0xc8,0xc9,0xca,0xcb,0xcc,0xcd,0xce,0xcf,0x11e,0xd1,0xd2,0xd3,0xd4,0xd5,0xd6,0xd7,0xd8,0xd9,0xda,0xdb,0xdc,0x130,0x15e,0xdf,0xe0,0xe1,0xe2,0xe3,0xe4,0xe5,0xe6,0xe7,0xe8,0xe9,0xea,0xeb,0xec,0xed,0xee,0xef,0x11f,0xf1,0xf2,0xf3,0xf4,0xf5,0xf6,0xf7,0xf8,0xf9,0xfa,0xfb,0xfc,0x131,0x15f,0xff},
	/* ISO-8859-10 */ {0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8a,0x8b,0x8c,0x8d,0x8e,0x8f,0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9a,0x9b,0x9c,0x9d,0x9e,0x9f,0xa0,0x104,0x112,0x122,0x12a,0x128,0x136,0xa7,0x13b,0x110,0x160,0x166,0x17d,0xad,0x16a,0x14a,0xb0,0x105,0x113,0x123,0x12b,0x129,0x137,0xb7,0x13c,0x111,0x161,0x167,0x17e,0x2015,0x16b,0x14b,0x100,0xc1,0xc2,0xc3,0xc4,0xc5,0xc6,0x12e,0x10c,0xc9,0x118,0xcb,0x116,0xcd,0xce,0xcf,0xd0,0x145,0x14c,0xd3,0xd4,0xd5,0xd6,0x168,0xd8,0x172,0xda,0xdb,0xdc,0xdd,0xde,0xdf,0x101,0xe1,0xe2,0xe3,0xe4,0xe5,0xe6,0x12f,0x10d,0xe9,0x119,0xeb,0x117,0xed,0xee,0xef,0xf0,0x146,0x14d,0xf3,0xf4,0xf5,0xf6,0x169,0xf8,0x173,0xfa,0xfb,0xfc,0xfd,0xfe,0x138},
	/* ISO-8859-13 */ {0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8a,0x8b,0x8c,0x8d,0x8e,0x8f,0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9a,0x9b,0x9c,0x9d,0x9e,0x9f,0xa0,0x201d,0xa2,0xa3,0xa4,0x201e,0xa6,0xa7,0xd8,0xa9,0x156,0xab,0xac,0xad,0xae,0xc6,0xb0,0xb1,0xb2,0xb3,0x201c,0xb5,0xb6,0xb7,0xf8,0xb9,0x157,0xbb,0xbc,0xbd,0xbe,0xe6,0x104,0x12e,0x100,0x106,0xc4,0xc5,0x118,0x112,0x10c,0xc9,0x179,0x116,0x122,0x136,0x12a,0x13b,0x160,0x143,0x145,0xd3,0x14c,0xd5,0xd6,0xd7,0x172,0x141,0x15a,0x16a,0xdc,0x17b,0x17d,0xdf,0x105,0x12f,0x101,0x107,0xe4,0xe5,0x119,0x113,0x10d,0xe9,0x17a,0x117,0x123,0x137,0x12b,0x13c,0x161,0x144,0x146,0xf3,0x14d,0xf5,0xf6,0xf7,0x173,0x142,0x15b,0x16b,0xfc,0x17c,0x17e,0x2019},
	/* ISO-8859-14 */ {0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8a,0x8b,0x8c,0x8d,0x8e,0x8f,0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9a,0x9b,0x9c,0x9d,0x9e,0x9f,0xa0,0x1e02,0x1e03,0xa3,0x10a,0x10b,0x1e0a,0xa7,0x1e80,0xa9,0x1e82,0x1e0b,0x1ef2,0xad,0xae,0x178,0x1e1e,0x1e1f,0x120,0x121,0x1e40,0x1e41,0xb6,0x1e56,0x1e81,0x1e57,0x1e83,0x1e60,0x1ef3,0x1e84,0x1e85,0x1e61,0xc0,0xc1,0xc2,0xc3,0xc4,0xc5,0xc6,0xc7,0xc8,0xc9,0xca,0xcb,0xcc,0xcd,0xce,0xcf,0x174,0xd1,0xd2,0xd3,0xd4,0xd5,0xd6,0x1e6a,0xd8,0xd9,0xda,0xdb,0xdc,0xdd,0x176,0xdf,0xe0,0xe1,0xe2,0xe3,0xe4,0xe5,0xe6,0xe7,0xe8,0xe9,0xea,0xeb,0xec,0xed,0xee,0xef,0x175,0xf1,0xf2,0xf3,0xf4,0xf5,0xf6,0x1e6b,0xf8,0xf9,0xfa,0xfb,0xfc,0xfd,0x177,0xff},
	/* ISO-8859-15 */ {0x80,0x81,0x82,0x83,0x84,0x85,0x86,0x87,0x88,0x89,0x8a,0x8b,0x8c,0x8d,0x8e,0x8f,0x90,0x91,0x92,0x93,0x94,0x95,0x96,0x97,0x98,0x99,0x9a,0x9b,0x9c,0x9d,0x9e,0x9f,0xa0,0xa1,0xa2,0xa3,0x20ac,0xa5,0x160,0xa7,0x161,0xa9,0xaa,0xab,0xac,0xad,0xae,0xaf,0xb0,0xb1,0xb2,0xb3,0x17d,0xb5,0xb6,0xb7,0x17e,0xb9,0xba,0xbb,0x152,0x153,0x178,0xbf,0xc0,0xc1,0xc2,0xc3,0xc4,0xc5,0xc6,0xc7,0xc8,0xc9,0xca,0xcb,0xcc,0xcd,0xce,0xcf,0xd0,0xd1,0xd2,0xd3,0xd4,0xd5,0xd6,0xd7,0xd8,0xd9,0xda,0xdb,0xdc,0xdd,0xde,0xdf,0xe0,0xe1,0xe2,0xe3,0xe4,0xe5,0xe6,0xe7,0xe8,0xe9,0xea,0xeb,0xec,0xed,0xee,0xef,0xf0,0xf1,0xf2,0xf3,0xf4,0xf5,0xf6,0xf7,0xf8,0xf9,0xfa,0xfb,0xfc,0xfd,0xfe,0xff},
};
