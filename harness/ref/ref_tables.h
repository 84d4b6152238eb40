/* generated by tools/gen_ref_tables.py from the pinned tree; see there */
#include <stdint.h>
/* row 0 is K8 (most significant nibble) ... row 7 is K1 */
static const uint8_t ref_sb_GostR3411_94_TestParamSet[8][16] = {
  {1,15,13,0,5,7,10,4,9,2,3,14,6,11,8,12},
  {13,11,4,1,3,15,5,9,0,10,14,7,6,8,2,12},
  {4,11,10,0,7,2,1,13,3,6,8,5,9,12,15,14},
  {6,12,7,1,5,15,13,8,4,10,9,14,0,3,11,2},
  {7,13,10,1,0,8,9,15,14,4,6,12,11,2,5,3},
  {5,8,1,13,10,3,4,2,14,15,12,7,6,0,9,11},
  {14,11,4,12,6,13,15,10,2,3,8,1,0,7,5,9},
  {4,10,9,2,13,8,0,14,6,11,1,12,7,15,5,3},
};
static const uint8_t ref_sb_GostR3411_94_CryptoProParamSet[8][16] = {
  {1,3,10,9,5,11,4,15,8,6,7,14,13,0,2,12},
  {13,14,4,1,7,0,5,10,3,12,8,15,6,2,9,11},
  {7,6,2,4,13,9,15,0,10,1,5,11,8,14,12,3},
  {7,6,4,11,9,12,2,10,1,8,0,14,15,13,3,5},
  {4,10,7,12,0,15,2,8,14,1,6,5,13,11,9,3},
  {7,15,12,14,9,4,1,0,3,11,5,2,6,10,8,13},
  {5,15,4,0,2,13,11,9,1,7,6,3,12,14,10,8},
  {10,4,5,6,8,1,3,7,13,12,14,0,9,2,11,15},
};
static const uint8_t ref_sb_Gost28147_TestParamSet[8][16] = {
  {12,6,5,2,11,0,9,13,3,14,7,10,15,4,1,8},
  {9,11,12,0,3,6,7,5,4,8,14,15,1,10,2,13},
  {8,15,6,11,1,9,12,5,13,3,7,10,0,14,2,4},
  {3,14,5,9,6,8,0,13,10,11,7,12,2,1,15,4},
  {14,9,11,2,5,15,7,1,0,13,12,6,10,4,3,8},
  {13,8,14,12,7,3,9,10,1,5,2,4,6,15,0,11},
  {12,9,15,14,8,1,3,10,2,7,4,13,6,0,11,5},
  {4,2,15,5,9,1,0,8,14,3,11,12,13,7,10,6},
};
static const uint8_t ref_sb_Gost28147_CryptoProParamSetA[8][16] = {
  {11,10,15,5,0,12,14,8,6,2,3,9,1,7,13,4},
  {1,13,2,9,7,10,6,0,8,12,4,5,15,3,11,14},
  {3,10,13,12,1,2,0,11,7,5,9,4,8,15,14,6},
  {11,5,1,9,8,13,15,0,14,4,2,3,12,7,10,6},
  {14,7,10,12,13,1,3,9,0,2,11,4,15,8,5,6},
  {14,4,6,2,11,3,13,8,12,15,5,10,0,7,1,9},
  {3,7,14,9,8,10,15,0,5,2,6,12,11,4,13,1},
  {9,6,3,2,8,11,1,7,10,4,14,15,12,0,13,5},
};
static const uint8_t ref_sb_Gost28147_CryptoProParamSetB[8][16] = {
  {0,4,11,14,8,3,7,1,10,2,9,6,15,13,5,12},
  {5,2,10,11,9,1,12,3,7,4,13,0,6,15,8,14},
  {8,3,2,6,4,13,14,11,12,1,7,15,10,0,9,5},
  {2,7,12,15,9,5,10,11,1,4,0,13,6,8,14,3},
  {7,5,0,13,11,6,1,2,3,10,12,15,4,14,9,8},
  {14,12,0,10,9,2,13,11,7,5,8,15,3,6,1,4},
  {0,1,2,10,4,13,5,12,9,7,3,15,11,8,6,14},
  {8,4,11,1,3,5,0,9,2,14,10,12,13,6,7,15},
};
static const uint8_t ref_sb_Gost28147_CryptoProParamSetC[8][16] = {
  {7,4,0,5,10,2,15,14,12,6,1,11,13,9,3,8},
  {10,9,6,8,13,14,2,0,15,3,5,11,4,1,12,7},
  {12,9,11,1,8,14,2,4,7,3,6,5,10,0,15,13},
  {8,13,11,0,4,5,1,2,9,3,12,14,6,15,10,7},
  {3,6,0,1,5,13,10,8,11,2,9,7,14,15,12,4},
  {8,2,5,0,4,9,15,10,3,7,12,13,6,14,1,11},
  {0,1,7,13,11,4,5,2,8,14,15,12,9,10,6,3},
  {1,11,12,2,9,13,0,15,4,5,8,14,10,7,6,3},
};
static const uint8_t ref_sb_Gost28147_CryptoProParamSetD[8][16] = {
  {1,10,6,8,15,11,0,4,12,3,5,9,7,13,2,14},
  {3,0,6,15,1,14,9,2,13,8,12,4,11,10,5,7},
  {8,0,15,3,2,5,14,11,1,10,4,7,12,9,13,6},
  {0,12,8,9,13,2,10,11,7,3,6,5,4,14,15,1},
  {1,5,14,12,10,7,0,13,6,2,11,4,9,3,15,8},
  {1,12,11,0,15,14,6,5,10,13,4,8,9,3,7,2},
  {11,6,3,4,12,15,14,2,7,13,8,0,5,10,9,1},
  {15,12,2,10,6,4,5,0,7,9,14,13,1,11,8,3},
};
static const uint8_t ref_sb_Gost28147_TC26ParamSetZ[8][16] = {
  {1,7,14,13,0,5,8,3,4,15,10,6,9,12,11,2},
  {8,14,2,5,6,9,1,12,15,4,11,0,13,10,3,7},
  {5,13,15,6,9,2,12,10,11,7,8,1,4,3,14,0},
  {7,15,5,10,8,1,6,13,0,9,3,14,11,4,2,12},
  {12,8,2,1,13,4,15,6,7,0,10,5,3,14,9,11},
  {11,3,5,8,2,15,10,13,14,1,7,4,12,9,6,0},
  {6,8,2,3,9,10,5,12,1,14,4,7,11,13,0,15},
  {12,4,6,2,10,5,11,9,14,8,13,7,0,3,15,1},
};
static const uint8_t ref_pi[256] = {252,238,221,17,207,110,49,22,251,196,250,218,35,197,4,77,233,119,240,219,147,46,153,186,23,54,241,187,20,205,95,193,249,24,101,90,226,92,239,33,129,28,60,66,139,1,142,79,5,132,2,174,227,106,143,160,6,11,237,152,127,212,211,31,235,52,44,81,234,200,72,171,242,42,104,162,253,58,206,204,181,112,14,86,8,12,118,18,191,114,19,71,156,183,93,135,21,161,150,41,16,123,154,199,243,145,120,111,157,158,178,177,50,117,25,61,255,53,138,126,109,84,198,128,195,189,13,87,223,245,36,169,62,168,67,201,215,121,214,246,124,34,185,3,224,15,236,222,122,148,176,188,220,232,40,80,78,51,10,74,167,151,96,115,30,0,98,68,26,184,56,130,100,159,38,65,173,69,70,146,39,94,85,47,140,163,165,125,105,213,149,59,7,88,179,64,134,172,29,247,48,55,107,228,136,217,231,137,225,27,131,73,76,63,248,254,141,83,170,144,202,216,133,97,32,113,103,164,45,43,9,91,203,155,37,208,190,229,108,82,89,166,116,210,230,244,180,192,209,102,175,194,57,75,99,182};
/* little-endian qwords */
static const uint64_t ref_sb_C[12][8] = {
  {0xdd806559f2a64507ULL,0x05767436cc744d23ULL,0xa2422a08a460d315ULL,0x4b7ce09192676901ULL,0x714eb88d7585c4fcULL,0x2f6a76432e45d016ULL,0xebcb2f81c0657c1fULL,0xb1085bda1ecadae9ULL},
  {0xe679047021b19bb7ULL,0x55dda21bd7cbcd56ULL,0x5cb561c2db0aa7caULL,0x9ab5176b12d69958ULL,0x61d55e0f16b50131ULL,0xf3feea720a232b98ULL,0x4fe39d460f70b5d7ULL,0x6fa3b58aa99d2f1aULL},
  {0x991e96f50aba0ab2ULL,0xc2b6f443867adb31ULL,0xc1c93a376062db09ULL,0xd3e20fe490359eb1ULL,0xf2ea7514b1297b7bULL,0x06f15e5f529c1f8bULL,0x0a39fc286a3d8435ULL,0xf574dcac2bce2fc7ULL},
  {0x220cbebc84e3d12eULL,0x3453eaa193e837f1ULL,0xd8b71333935203beULL,0xa9d72c82ed03d675ULL,0x9d721cad685e353fULL,0x488e857e335c3c7dULL,0xf948e1a05d71e4ddULL,0xef1fdfb3e81566d2ULL},
  {0x601758fd7c6cfe57ULL,0x7a56a27ea9ea63f5ULL,0xdfff00b723271a16ULL,0xbfcd1747253af5a3ULL,0x359e35d7800fffbdULL,0x7f151c1f1686104aULL,0x9a3f410c6ca92363ULL,0x4bea6bacad474799ULL},
  {0xfa68407a46647d6eULL,0xbf71c57236904f35ULL,0x0af21f66c2bec6b6ULL,0xcffaa6b71c9ab7b4ULL,0x187f9ab49af08ec6ULL,0x2d66c4f95142a46cULL,0x6fa4c33b7a3039c0ULL,0xae4faeae1d3ad3d9ULL},
  {0x8886564d3a14d493ULL,0x3517454ca23c4af3ULL,0x06476983284a0504ULL,0x0992abc52d822c37ULL,0xd3473e33197a93c9ULL,0x399ec6c7e6bf87c9ULL,0x51ac86febf240954ULL,0xf4c70e16eeaac5ecULL},
  {0xa47f0dd4bf02e71eULL,0x36acc2355951a8d9ULL,0x69d18d2bd1a5c42fULL,0xf4892bcb929b0690ULL,0x89b4443b4ddbc49aULL,0x4eb7f8719c36de1eULL,0x03e7aa020c6e4141ULL,0x9b1f5b424d93c9a7ULL},
  {0x7261445183235adbULL,0x0e38dc92cb1f2a60ULL,0x7b2b8a9aa6079c54ULL,0x800a440bdbb2ceb1ULL,0x3cd955b7e00d0984ULL,0x3a7d3a1b25894224ULL,0x944c9ad8ec165fdeULL,0x378f5a541631229bULL},
  {0x74b4c7fb98459cedULL,0x3698fad1153bb6c3ULL,0x7a1e6c303b7652f4ULL,0x9fe76702af69334bULL,0x1fffe18a1b336103ULL,0x8941e71cff8a78dbULL,0x382ae548b2e4f3f3ULL,0xabbedea680056f52ULL},
  {0x6bcaa4cd81f32d1bULL,0xdea2594ac06fd85dULL,0xefbacd1d7d476e98ULL,0x8a1d71efea48b9caULL,0x2001802114846679ULL,0xd8fa6bbbebab0761ULL,0x3002c6cd635afe94ULL,0x7bcd9ed0efc889fbULL},
  {0x48bc924af11bd720ULL,0xfaf417d5d9b21b99ULL,0xe71da4aa88e12852ULL,0x5d80ef9d1891cc86ULL,0xf82012d430219f9bULL,0xcda43c32bcdf1d77ULL,0xd21380b00449b17aULL,0x378ee767f11631baULL},
};
static const struct { const char *nm; const char *a,*b,*p,*q,*x,*y; int h; } ref_curves[] = {
  {"id_GostR3410_2001_TestParamSet","7","5FBFF498AA938CE739B8E022FBAFEF40563F6E6A3472FC2A514C0CE9DAE23B7E","8000000000000000000000000000000000000000000000000000000000000431","8000000000000000000000000000000150FE8A1892976154C59CFC193ACCF5B3","2","08E2A8A0E65147D4BD6316030E16D19C85C97F0A9CA267122B96ABBCEA7E8FC8",1},
  {"id_GostR3410_2001_CryptoPro_A_ParamSet","FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFD94","a6","FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFD97","FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF6C611070995AD10045841B09B761B893","1","8D91E471E0989CDA27DF505A453F2B7635294F2DDF23E3B122ACC99C9E9F1E14",1},
  {"id_GostR3410_2001_CryptoPro_B_ParamSet","8000000000000000000000000000000000000000000000000000000000000C96","3E1AF419A269A5F866A7D3C25C3DF80AE979259373FF2B182F49D4CE7E1BBC8B","8000000000000000000000000000000000000000000000000000000000000C99","800000000000000000000000000000015F700CFFF1A624E5E497161BCC8A198F","1","3FA8124359F96680B83D1C3EB2C070E5C545C9858D03ECFB744BF8D717717EFC",1},
  {"id_GostR3410_2001_CryptoPro_C_ParamSet","9B9F605F5A858107AB1EC85E6B41C8AACF846E86789051D37998F7B9022D7598","805a","9B9F605F5A858107AB1EC85E6B41C8AACF846E86789051D37998F7B9022D759B","9B9F605F5A858107AB1EC85E6B41C8AA582CA3511EDDFB74F02F3A6598980BB9","0","41ECE55743711A8C3CBF3783CD08C0EE4D4DC440D4641A8F366E550DFDB3BB67",1},
  {"id_GostR3410_2001_CryptoPro_XchA_ParamSet","FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFD94","a6","FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFD97","FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF6C611070995AD10045841B09B761B893","1","8D91E471E0989CDA27DF505A453F2B7635294F2DDF23E3B122ACC99C9E9F1E14",1},
  {"id_GostR3410_2001_CryptoPro_XchB_ParamSet","9B9F605F5A858107AB1EC85E6B41C8AACF846E86789051D37998F7B9022D7598","805a","9B9F605F5A858107AB1EC85E6B41C8AACF846E86789051D37998F7B9022D759B","9B9F605F5A858107AB1EC85E6B41C8AA582CA3511EDDFB74F02F3A6598980BB9","0","41ECE55743711A8C3CBF3783CD08C0EE4D4DC440D4641A8F366E550DFDB3BB67",1},
  {"id_tc26_gost_3410_2012_256_paramSetA","C2173F1513981673AF4892C23035A27CE25E2013BF95AA33B22C656F277E7335","295F9BAE7428ED9CCC20E7C359A9D41A22FCCD9108E17BF7BA9337A6F8AE9513","FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFD97","400000000000000000000000000000000FD8CDDFC87B6635C115AF556C360C67","91E38443A5E82C0D880923425712B2BB658B9196932E02C78B2582FE742DAA28","32879423AB1A0375895786C4BB46E9565FDE0B5344766740AF268ADB32322E5C",4},
  {"id_tc26_gost_3410_2012_512_paramSetTest","7","1CFF0806A31116DA29D8CFA54E57EB748BC5F377E49400FDD788B649ECA1AC4361834013B2AD7322480A89CA58E0CF74BC9E540C2ADD6897FAD0A3084F302ADC","4531ACD1FE0023C7550D267B6B2FEE80922B14B2FFB90F04D4EB7C09B5D2D15DF1D852741AF4704A0458047E80E4546D35B8336FAC224DD81664BBF528BE6373","4531ACD1FE0023C7550D267B6B2FEE80922B14B2FFB90F04D4EB7C09B5D2D15DA82F2D7ECB1DBAC719905C5EECC423F1D86E25EDBE23C595D644AAF187E6E6DF","24D19CC64572EE30F396BF6EBBFD7A6C5213B3B3D7057CC825F91093A68CD762FD60611262CD838DC6B60AA7EEE804E28BC849977FAC33B4B530F1B120248A9A","2BB312A43BD2CE6E0D020613C857ACDDCFBF061E91E5F2C3F32447C259F39B2C83AB156D77F1496BF7EB3351E1EE4E43DC1A18B91B24640B6DBB92CB1ADD371E",1},
  {"id_tc26_gost_3410_2012_512_paramSetA","FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFDC4","E8C2505DEDFC86DDC1BD0B2B6667F1DA34B82574761CB0E879BD081CFD0B6265EE3CB090F30D27614CB4574010DA90DD862EF9D4EBEE4761503190785A71C760","FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFDC7","FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF27E69532F48D89116FF22B8D4E0560609B4B38ABFAD2B85DCACDB1411F10B275","3","7503CFE87A836AE3A61B8816E25450E6CE5E1C93ACF1ABC1778064FDCBEFA921DF1626BE4FD036E93D75E6A50E3A41E98028FE5FC235F5B889A589CB5215F2A4",1},
  {"id_tc26_gost_3410_2012_512_paramSetB","8000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000006C","687D1B459DC841457E3E06CF6F5E2517B97C7D614AF138BCBF85DC806C4B289F3E965D2DB1416D217F8B276FAD1AB69C50F78BEE1FA3106EFB8CCBC7C5140116","8000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000006F","800000000000000000000000000000000000000000000000000000000000000149A1EC142565A545ACFDB77BD9D40CFA8B996712101BEA0EC6346C54374F25BD","2","1A8F7EDA389B094C2C071E3647A8940F3C123B697578C213BE6DD9E6C8EC7335DCB228FD1EDF4A39152CBCAAF8C0398828041055F94CEEEC7E21340780FE41BD",1},
  {"id_tc26_gost_3410_2012_512_paramSetC","DC9203E514A721875485A529D2C722FB187BC8980EB866644DE41C68E143064546E861C0E2C9EDD92ADE71F46FCF50FF2AD97F951FDA9F2A2EB6546F39689BD3","B4C4EE28CEBC6C2C8AC12952CF37F16AC7EFB6A9F69F4B57FFDA2E4F0DE5ADE038CBC2FFF719D2C18DE0284B8BFEF3B52B8CC7A5F5BF0A3C8D2319A5312557E1","FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFDC7","3FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFC98CDBA46506AB004C33A9FF5147502CC8EDA9E7A769A12694623CEF47F023ED","E2E31EDFC23DE7BDEBE241CE593EF5DE2295B7A9CBAEF021D385F7074CEA043AA27272A7AE602BF2A7B9033DB9ED3610C6FB85487EAE97AAC5BC7928C1950148","F5CE40D95B5EB899ABBCCFF5911CB8577939804D6527378B8C108C3D2090FF9BE18E2D33E3021ED2EF32D85822423B6304F726AA854BAE07D0396E9A9ADDC40F",4},
  {0}};
/* image of bit i (LSB first) under the Streebog linear map l */
static const uint64_t ref_sb_A[64] = {0x641c314b2b8ee083ULL,0xc83862965601dd1bULL,0x8d70c431ac02a736ULL,0x07e095624504536cULL,0x0edd37c48a08a6d8ULL,0x1ca76e95091051adULL,0x3853dc371220a247ULL,0x70a6a56e2440598eULL,0xa48b474f9ef5dc18ULL,0x550b8e9e21f7a530ULL,0xaa16012142f35760ULL,0x492c024284fbaec0ULL,0x9258048415eb419dULL,0x39b008152acb8227ULL,0x727d102a548b194eULL,0xe4fa2054a80b329cULL,0xf97d86d98a327728ULL,0xeffa11af0964ee50ULL,0xc3e9224312c8c1a0ULL,0x9bcf4486248d9f5dULL,0x2b838811480723baULL,0x561b0d22900e4669ULL,0xac361a443d1c8cd2ULL,0x456c34887a3805b9ULL,0x5b068c651810a89eULL,0xb60c05ca30204d21ULL,0x71180a8960409a42ULL,0xe230140fc0802984ULL,0xd960281e9d1d5215ULL,0xafc0503c273aa42aULL,0x439da0784e745554ULL,0x86275df09ce8aaa8ULL,0x0321658cba93c138ULL,0x0642ca05693b9f70ULL,0x0c84890ad27623e0ULL,0x18150f14b9ec46ddULL,0x302a1e286fc58ca7ULL,0x60543c50de970553ULL,0xc0a878a0a1330aa6ULL,0x9d4df05d5f661451ULL,0xaccc9ca9328a8950ULL,0x4585254f64090fa0ULL,0x8a174a9ec8121e5dULL,0x092e94218d243cbaULL,0x125c354207487869ULL,0x24b86a840e90f0d2ULL,0x486dd4151c3dfdb9ULL,0x90dab52a387ae76fULL,0x46b60f011a83988eULL,0x8c711e02341b2d01ULL,0x05e23c0468365a02ULL,0x0ad97808d06cb404ULL,0x14aff010bdd87508ULL,0x2843fd2067adea10ULL,0x5086e740ce47c920ULL,0xa011d380818e8f40ULL,0x83478b07b2468764ULL,0x1b8e0b0e798c13c8ULL,0x3601161cf205268dULL,0x6c022c38f90a4c07ULL,0xd8045870ef14980eULL,0xad08b0e0c3282d1cULL,0x47107ddd9b505a38ULL,0x8e20faa72ba0b470ULL};
