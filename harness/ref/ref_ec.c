#define OPENSSL_SUPPRESS_DEPRECATED
#include "ref_ec.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#define F16 "FFFFFFFFFFFFFFFF"
#define F32 F16 F16
#define F64 F32 F32
#define Z16 "0000000000000000"
#define Z32 Z16 Z16
#define Z64 Z32 Z32
rcurve ref_curves[RC_N] = {
 {"2001-Test", 32, "8000000000000000000000000000000000000000000000000000000000000431", "7",
  "5FBFF498AA938CE739B8E022FBAFEF40563F6E6A3472FC2A514C0CE9DAE23B7E",
  "8000000000000000000000000000000150FE8A1892976154C59CFC193ACCF5B3", "2",
  "08E2A8A0E65147D4BD6316030E16D19C85C97F0A9CA267122B96ABBCEA7E8FC8", 1},
 {"CryptoPro-A", 32, F32 F16 "FFFFFFFFFFFFFD97", F32 F16 "FFFFFFFFFFFFFD94", "A6",
  F32 "6C611070995AD10045841B09B761B893", "1",
  "8D91E471E0989CDA27DF505A453F2B7635294F2DDF23E3B122ACC99C9E9F1E14", 1},
 {"CryptoPro-B", 32, "8000000000000000000000000000000000000000000000000000000000000C99",
  "8000000000000000000000000000000000000000000000000000000000000C96",
  "3E1AF419A269A5F866A7D3C25C3DF80AE979259373FF2B182F49D4CE7E1BBC8B",
  "800000000000000000000000000000015F700CFFF1A624E5E497161BCC8A198F", "1",
  "3FA8124359F96680B83D1C3EB2C070E5C545C9858D03ECFB744BF8D717717EFC", 1},
 {"CryptoPro-C", 32, "9B9F605F5A858107AB1EC85E6B41C8AACF846E86789051D37998F7B9022D759B",
  "9B9F605F5A858107AB1EC85E6B41C8AACF846E86789051D37998F7B9022D7598", "805A",
  "9B9F605F5A858107AB1EC85E6B41C8AA582CA3511EDDFB74F02F3A6598980BB9", "0",
  "41ECE55743711A8C3CBF3783CD08C0EE4D4DC440D4641A8F366E550DFDB3BB67", 1},
 {"tc26-256-A", 32, F32 F16 "FFFFFFFFFFFFFD97",
  "C2173F1513981673AF4892C23035A27CE25E2013BF95AA33B22C656F277E7335",
  "295F9BAE7428ED9CCC20E7C359A9D41A22FCCD9108E17BF7BA9337A6F8AE9513",
  "400000000000000000000000000000000FD8CDDFC87B6635C115AF556C360C67",
  "91E38443A5E82C0D880923425712B2BB658B9196932E02C78B2582FE742DAA28",
  "32879423AB1A0375895786C4BB46E9565FDE0B5344766740AF268ADB32322E5C", 4},
 {"tc26-512-A", 64, F64 F32 F16 "FFFFFFFFFFFFFDC7", F64 F32 F16 "FFFFFFFFFFFFFDC4",
  "E8C2505DEDFC86DDC1BD0B2B6667F1DA34B82574761CB0E879BD081CFD0B6265EE3CB090F30D27614CB4574010DA90DD862EF9D4EBEE4761503190785A71C760",
  F64 "27E69532F48D89116FF22B8D4E0560609B4B38ABFAD2B85DCACDB1411F10B275", "3",
  "7503CFE87A836AE3A61B8816E25450E6CE5E1C93ACF1ABC1778064FDCBEFA921DF1626BE4FD036E93D75E6A50E3A41E98028FE5FC235F5B889A589CB5215F2A4", 1},
 {"tc26-512-B", 64, "80000000000000" Z64 Z32 Z16 "6F", "80000000000000" Z64 Z32 Z16 "6C",
  "687D1B459DC841457E3E06CF6F5E2517B97C7D614AF138BCBF85DC806C4B289F3E965D2DB1416D217F8B276FAD1AB69C50F78BEE1FA3106EFB8CCBC7C5140116",
  "8000000000000000" Z32 "0000000000000001" "49A1EC142565A545ACFDB77BD9D40CFA8B996712101BEA0EC6346C54374F25BD", "2",
  "1A8F7EDA389B094C2C071E3647A8940F3C123B697578C213BE6DD9E6C8EC7335DCB228FD1EDF4A39152CBCAAF8C0398828041055F94CEEEC7E21340780FE41BD", 1},
 {"tc26-512-C", 64, F64 F32 F16 "FFFFFFFFFFFFFDC7",
  "DC9203E514A721875485A529D2C722FB187BC8980EB866644DE41C68E143064546E861C0E2C9EDD92ADE71F46FCF50FF2AD97F951FDA9F2A2EB6546F39689BD3",
  "B4C4EE28CEBC6C2C8AC12952CF37F16AC7EFB6A9F69F4B57FFDA2E4F0DE5ADE038CBC2FFF719D2C18DE0284B8BFEF3B52B8CC7A5F5BF0A3C8D2319A5312557E1",
  "3FFFFFFFFFFFFFFF" F32 F16 "C98CDBA46506AB004C33A9FF5147502CC8EDA9E7A769A12694623CEF47F023ED",
  "E2E31EDFC23DE7BDEBE241CE593EF5DE2295B7A9CBAEF021D385F7074CEA043AA27272A7AE602BF2A7B9033DB9ED3610C6FB85487EAE97AAC5BC7928C1950148",
  "F5CE40D95B5EB899ABBCCFF5911CB8577939804D6527378B8C108C3D2090FF9BE18E2D33E3021ED2EF32D85822423B6304F726AA854BAE07D0396E9A9ADDC40F", 4},
 {"tc26-512-Test", 64,
  "4531ACD1FE0023C7550D267B6B2FEE80922B14B2FFB90F04D4EB7C09B5D2D15DF1D852741AF4704A0458047E80E4546D35B8336FAC224DD81664BBF528BE6373", "7",
  "1CFF0806A31116DA29D8CFA54E57EB748BC5F377E49400FDD788B649ECA1AC4361834013B2AD7322480A89CA58E0CF74BC9E540C2ADD6897FAD0A3084F302ADC",
  "4531ACD1FE0023C7550D267B6B2FEE80922B14B2FFB90F04D4EB7C09B5D2D15DA82F2D7ECB1DBAC719905C5EECC423F1D86E25EDBE23C595D644AAF187E6E6DF",
  "24D19CC64572EE30F396BF6EBBFD7A6C5213B3B3D7057CC825F91093A68CD762FD60611262CD838DC6B60AA7EEE804E28BC849977FAC33B4B530F1B120248A9A",
  "2BB312A43BD2CE6E0D020613C857ACDDCFBF061E91E5F2C3F32447C259F39B2C83AB156D77F1496BF7EB3351E1EE4E43DC1A18B91B24640B6DBB92CB1ADD371E", 1},
};
static BN_CTX *cx;
#define MUST(c) do { if (!(c)) { fprintf(stderr, "HARNESS-ERROR ref_ec %d: %s\n", __LINE__, #c); exit(3); } } while (0)
static BIGNUM *hx(const char *s) { BIGNUM *b = NULL; MUST(BN_hex2bn(&b, s)); return b; }
static __thread BN_CTX *tcx;
static BN_CTX *bctx(void) { if (!tcx) MUST(tcx = BN_CTX_new()); return tcx; }
int ref_ec_init(void)
{
    BN_CTX *c = bctx();
    (void)cx;
    for (int i = 0; i < RC_N; i++) {
        rcurve *r = ref_curves + i;
        r->p = hx(r->sp); r->a = hx(r->sa); r->b = hx(r->sb); r->q = hx(r->sq); r->x = hx(r->sx); r->y = hx(r->sy);
        BIGNUM *h = BN_new(); BN_set_word(h, r->h);
        EC_POINT *G, *O;
        if (BN_num_bytes(r->p) != r->n) { fprintf(stderr, "ref_ec: %s size\n", r->name); return 1; }
        MUST(r->g = EC_GROUP_new_curve_GFp(r->p, r->a, r->b, c));
        MUST(G = EC_POINT_new(r->g)); MUST(O = EC_POINT_new(r->g));
        if (!EC_POINT_set_affine_coordinates(r->g, G, r->x, r->y, c)) { fprintf(stderr, "ref_ec: %s base\n", r->name); return 1; }
        MUST(EC_GROUP_set_generator(r->g, G, r->q, h));
        /* q*G = O without the library's shortcut of reducing modulo the order */
        BIGNUM *q1 = BN_dup(r->q); BN_sub_word(q1, 1);
        MUST(EC_POINT_mul(r->g, O, NULL, G, q1, c)); MUST(EC_POINT_add(r->g, O, O, G, c));
        if (!EC_POINT_is_at_infinity(r->g, O)) { fprintf(stderr, "ref_ec: %s order\n", r->name); return 1; }
        BN_free(q1); BN_free(h); EC_POINT_free(G); EC_POINT_free(O);
        if (EC_GROUP_get_curve_name(r->g) != 0) return 1;
    }
    return 0;
}
int ref_point_xy(const rcurve *c, const EC_POINT *P, u8 *xy)
{
    if (EC_POINT_is_at_infinity(c->g, P)) return 0;
    BIGNUM *x = BN_new(), *y = BN_new();
    MUST(EC_POINT_get_affine_coordinates(c->g, P, x, y, bctx()));
    MUST(BN_bn2lebinpad(x, xy, c->n) == c->n && BN_bn2lebinpad(y, xy + c->n, c->n) == c->n);
    BN_free(x); BN_free(y);
    return 1;
}
EC_POINT *ref_point(const rcurve *c, const u8 *xy)
{
    BIGNUM *x = BN_lebin2bn(xy, c->n, NULL), *y = BN_lebin2bn(xy + c->n, c->n, NULL);
    EC_POINT *P = EC_POINT_new(c->g);
    MUST(x && y && P);
    if (BN_cmp(x, c->p) >= 0 || BN_cmp(y, c->p) >= 0 || !EC_POINT_set_affine_coordinates(c->g, P, x, y, bctx())) { EC_POINT_free(P); P = NULL; }
    BN_free(x); BN_free(y);
    return P;
}
/* plain double-and-add over the generic group law (never reduces the scalar) */
static void mul_da(const rcurve *c, EC_POINT *R, const BIGNUM *k, const EC_POINT *P)
{
    EC_POINT *A = EC_POINT_new(c->g); MUST(A && EC_POINT_set_to_infinity(c->g, A));
    for (int i = BN_num_bits(k) - 1; i >= 0; i--) {
        MUST(EC_POINT_dbl(c->g, A, A, bctx()));
        if (BN_is_bit_set(k, i)) MUST(EC_POINT_add(c->g, A, A, P, bctx()));
    }
    MUST(EC_POINT_copy(R, A)); EC_POINT_free(A);
}
int ref_mul(const rcurve *c, const BIGNUM *k, const EC_POINT *P, u8 *xy)
{
    EC_POINT *R = EC_POINT_new(c->g); MUST(R);
    mul_da(c, R, k, P ? P : EC_GROUP_get0_generator(c->g));
    int r = ref_point_xy(c, R, xy);
    EC_POINT_free(R);
    return r;
}
int ref_pub(const rcurve *c, const BIGNUM *d, u8 *xy) { return ref_mul(c, d, NULL, xy); }
void ref_e(const rcurve *c, const u8 *dg, int dl, BIGNUM *e)
{
    MUST(BN_lebin2bn(dg, dl, e)); MUST(BN_nnmod(e, e, c->q, bctx()));
    if (BN_is_zero(e)) BN_one(e);
}
int ref_verify_ec(const rcurve *c, const u8 *xy, const u8 *dg, int dl, const u8 *sig, size_t sl)
{
    int ok = 0;
    if (sl != 2 * (size_t)c->n) return 0;
    EC_POINT *Q = ref_point(c, xy);
    if (!Q) return 0;
    BIGNUM *s = BN_bin2bn(sig, c->n, NULL), *r = BN_bin2bn(sig + c->n, c->n, NULL), *e = BN_new(), *v = BN_new(), *z1 = BN_new(), *z2 = BN_new(), *x = BN_new();
    EC_POINT *A = EC_POINT_new(c->g), *B = EC_POINT_new(c->g);
    BN_CTX *t = bctx();
    if (BN_is_zero(s) || BN_is_zero(r) || BN_cmp(s, c->q) >= 0 || BN_cmp(r, c->q) >= 0) goto end;
    ref_e(c, dg, dl, e);
    MUST(BN_mod_inverse(v, e, c->q, t));
    MUST(BN_mod_mul(z1, s, v, c->q, t)); MUST(BN_mod_mul(z2, r, v, c->q, t)); MUST(BN_sub(z2, c->q, z2));
    MUST(EC_POINT_mul(c->g, A, z1, NULL, NULL, t));
    mul_da(c, B, z2, Q);
    MUST(EC_POINT_add(c->g, A, A, B, t));
    if (EC_POINT_is_at_infinity(c->g, A)) goto end;
    MUST(EC_POINT_get_affine_coordinates(c->g, A, x, NULL, t));
    MUST(BN_nnmod(x, x, c->q, t));
    ok = BN_cmp(x, r) == 0;
end:
    BN_free(s); BN_free(r); BN_free(e); BN_free(v); BN_free(z1); BN_free(z2); BN_free(x);
    EC_POINT_free(A); EC_POINT_free(B); EC_POINT_free(Q);
    return ok;
}
int ref_sign_ec(const rcurve *c, const BIGNUM *d, const BIGNUM *k, const u8 *dg, int dl, u8 *sig)
{
    u8 xy[128]; int ok = 0; BN_CTX *t = bctx();
    if (!ref_mul(c, k, NULL, xy)) return 0;
    BIGNUM *r = BN_lebin2bn(xy, c->n, NULL), *s = BN_new(), *e = BN_new(), *u = BN_new();
    MUST(BN_nnmod(r, r, c->q, t));
    ref_e(c, dg, dl, e);
    MUST(BN_mod_mul(s, r, d, c->q, t)); MUST(BN_mod_mul(u, k, e, c->q, t)); MUST(BN_mod_add(s, s, u, c->q, t));
    if (!BN_is_zero(r) && !BN_is_zero(s)) {
        MUST(BN_bn2binpad(s, sig, c->n) == c->n && BN_bn2binpad(r, sig + c->n, c->n) == c->n);
        ok = 1;
    }
    BN_free(r); BN_free(s); BN_free(e); BN_free(u);
    return ok;
}
void ref_nonce(const rcurve *c, const BIGNUM *d, const u8 *dg, int dl, const u8 *sig, BIGNUM *k)
{
    BN_CTX *t = bctx();
    BIGNUM *s = BN_bin2bn(sig, c->n, NULL), *r = BN_bin2bn(sig + c->n, c->n, NULL), *e = BN_new();
    ref_e(c, dg, dl, e);
    MUST(BN_mod_mul(r, r, d, c->q, t)); MUST(BN_mod_sub(s, s, r, c->q, t));
    MUST(BN_mod_inverse(e, e, c->q, t)); MUST(BN_mod_mul(k, s, e, c->q, t));
    BN_free(s); BN_free(r); BN_free(e);
}
u8 ref_shared_xy[128];        /* the point behind the last shared key */
int ref_vko(const rcurve *c, const BIGNUM *d, const u8 *pubxy, const u8 *ukm, size_t ul, int h, u8 *out)
{
    BIGNUM *k = BN_lebin2bn(ukm, ul, NULL); u8 xy[128]; int r;
    EC_POINT *Q = ref_point(c, pubxy);
    MUST(k && Q);
    MUST(BN_mod_mul(k, k, d, c->q, bctx())); MUST(BN_mul_word(k, c->h));
    r = ref_mul(c, k, Q, xy);
    if (r) { ref_hash(h, xy, 2 * c->n, out); r = ref_hash_len(h); memcpy(ref_shared_xy, xy, 2 * c->n); }
    BN_free(k); EC_POINT_free(Q);
    return r;
}
int ref_keg(const rcurve *c, const BIGNUM *d, const u8 *pubxy, const u8 ukm[32], u8 out[64])
{
    u8 u[16], t[64]; int nz = 0;
    for (int i = 0; i < 16; i++) { u[i] = ukm[15 - i]; nz |= u[i]; }
    if (!nz) u[15] = 1;
    if (c->n == 64) return ref_vko(c, d, pubxy, u, 16, 2, out);
    if (!ref_vko(c, d, pubxy, u, 16, 1, t)) return 0;
    ref_kdf_tree(t, 32, (const u8 *)"kdf tree", 8, ukm + 16, 8, 1, 64, out);
    return 64;
}
