#include "pk.h"
const char *pk_bnh(const BIGNUM *b) { u8 t[128]; int n = BN_num_bytes(b); if (n > 128) return "(huge)"; BN_bn2bin(b, t); return n ? vh_hex(t, n) : "0"; }
#define R1 NID_id_GostR3410_2001
#define R2 NID_id_GostR3410_2012_256
#define R5 NID_id_GostR3410_2012_512
const pk_type pk_types[] = {
#define SET256(A, H, H12) \
 {A, NID_id_GostR3410_2001_TestParamSet, RC_TEST, H, H12, "0"}, \
 {A, NID_id_GostR3410_2001_CryptoPro_A_ParamSet, RC_CPA, H, H12, "A"}, \
 {A, NID_id_GostR3410_2001_CryptoPro_B_ParamSet, RC_CPB, H, H12, "B"}, \
 {A, NID_id_GostR3410_2001_CryptoPro_C_ParamSet, RC_CPC, H, H12, "C"}, \
 {A, NID_id_GostR3410_2001_CryptoPro_XchA_ParamSet, RC_CPA, H, H12, "XA"}, \
 {A, NID_id_GostR3410_2001_CryptoPro_XchB_ParamSet, RC_CPC, H, H12, "XB"}
 SET256(R1, 0, 0), SET256(R2, 1, 1),
 {R2, NID_id_tc26_gost_3410_2012_256_paramSetA, RC_TCA, 1, 1, "TCA"},
 {R2, NID_id_tc26_gost_3410_2012_256_paramSetB, RC_CPA, 1, 1, "TCB"},
 {R2, NID_id_tc26_gost_3410_2012_256_paramSetC, RC_CPB, 1, 1, "TCC"},
 {R2, NID_id_tc26_gost_3410_2012_256_paramSetD, RC_CPC, 1, 1, "TCD"},
 {R5, NID_id_tc26_gost_3410_2012_512_paramSetA, RC_512A, 2, 1, "A"},
 {R5, NID_id_tc26_gost_3410_2012_512_paramSetB, RC_512B, 2, 1, "B"},
 {R5, NID_id_tc26_gost_3410_2012_512_paramSetC, RC_512C, 2, 1, "C"},
 {R5, NID_id_tc26_gost_3410_2012_512_paramSetTest, RC_512T, 2, 1, "id-tc26-gost-3410-2012-512-paramSetTest"},
};
const int pk_ntypes = sizeof pk_types / sizeof *pk_types;

void der_raw(der *o, const void *p, size_t n) { HARN(o->n + n <= sizeof o->b); if (n) memcpy(o->b + o->n, p, n); o->n += n; }
void der_tlv(der *o, int tag, const void *p, size_t n)
{
    u8 h[4] = {(u8)tag}; int l = 2;
    if (n < 128) h[1] = n;
    else if (n < 256) { h[1] = 0x81; h[2] = n; l = 3; }
    else { h[1] = 0x82; h[2] = n >> 8; h[3] = n; l = 4; }
    der_raw(o, h, l); der_raw(o, p, n);
}
void der_wrap(der *o, int tag, const der *in) { der_tlv(o, tag, in->b, in->n); }
void der_oid(der *o, int nid)
{
    const ASN1_OBJECT *ob = OBJ_nid2obj(nid); HARN(ob);
    der_tlv(o, 6, OBJ_get0_data(ob), OBJ_length(ob));
}
void der_alg(der *o, int alg, int curve, int dgst)
{
    der p = {{0}}, s = {{0}};
    der_oid(&p, curve); if (dgst) der_oid(&p, dgst);
    der_oid(&s, alg); der_wrap(&s, 0x30, &p);
    der_wrap(o, 0x30, &s);
}
int pk_dgst_param(const pk_type *t)
{
    if (t->alg == R1) return NID_id_GostR3411_94_CryptoProParamSet;
    if (t->alg == R5) return t->rc == RC_512C ? 0 : NID_id_GostR3411_2012_512;
    switch (t->curve) {
    case NID_id_tc26_gost_3410_2012_256_paramSetA: case NID_id_tc26_gost_3410_2012_256_paramSetB:
    case NID_id_tc26_gost_3410_2012_256_paramSetC: case NID_id_tc26_gost_3410_2012_256_paramSetD: return 0;
    }
    return NID_id_GostR3411_2012_256;
}
/* fmt 0: octets as they are; 1: OCTET STRING; 2: INTEGER (oct big-endian already); 3: SEQUENCE {OCTET STRING, OCTET STRING} */
void pk_pkcs8(const pk_type *t, const u8 *oct, size_t n, int fmt, der *o)
{
    der s = {{0}}, k = {{0}}, q = {{0}};
    der_tlv(&s, 2, "\0", 1);
    der_alg(&s, t->alg, t->curve, pk_dgst_param(t));
    switch (fmt) {
    case 0: der_raw(&k, oct, n); break;
    case 1: der_tlv(&k, 4, oct, n); break;
    case 2: { size_t i = 0; while (i + 1 < n && !oct[i]) i++;
              if (oct[i] & 0x80) der_raw(&q, "\0", 1);
              der_raw(&q, oct + i, n - i); der_wrap(&k, 2, &q); break; }
    case 3: der_tlv(&q, 4, oct, n); der_tlv(&q, 4, "", 0); der_wrap(&k, 0x30, &q); break;
    }
    der_wrap(&s, 4, &k);
    der_wrap(o, 0x30, &s);
}
void pk_spki(const pk_type *t, const u8 *xy, int n, der *o)
{
    der s = {{0}}, b = {{0}};
    der_alg(&s, t->alg, t->curve, pk_dgst_param(t));
    der_raw(&b, "\0", 1); der_tlv(&b, 4, xy, 2 * n);
    der_wrap(&s, 3, &b);
    der_wrap(o, 0x30, &s);
}
EVP_PKEY *pk_load_pkcs8(const der *o)
{
    const u8 *p = o->b;
    PKCS8_PRIV_KEY_INFO *p8 = d2i_PKCS8_PRIV_KEY_INFO(NULL, &p, o->n);
    if (!p8) return NULL;
    EVP_PKEY *r = EVP_PKCS82PKEY(p8);
    PKCS8_PRIV_KEY_INFO_free(p8);
    return r;
}
EVP_PKEY *pk_load_spki(const der *o) { const u8 *p = o->b; return d2i_PUBKEY(NULL, &p, o->n); }
const pk_type *pk_rtype(void) { return &pk_types[rn(pk_ntypes)]; }
void pk_rscalar(const rcurve *c, BIGNUM *d)
{
    u8 b[64]; int n = c->n;
    switch (rn(10)) {
    case 0: BN_set_word(d, 1 + rn(20)); break;
    case 1: HARN(BN_copy(d, c->q)); BN_sub_word(d, 1 + rn(20)); break;
    case 2: BN_zero(d); BN_set_bit(d, rn(BN_num_bits(c->q) - 1)); break;
    case 3: rcontent(b, n); HARN(BN_lebin2bn(b, n, d)); BN_mask_bits(d, BN_num_bits(c->q) - 1); break;
    case 4: HARN(BN_copy(d, c->q)); BN_rshift(d, d, 1 + rn(4)); if (chance(1, 2)) BN_add_word(d, rn(3)); break;
    default: rbytes(b, n); HARN(BN_lebin2bn(b, n, d)); BN_mask_bits(d, BN_num_bits(c->q)); if (BN_cmp(d, c->q) >= 0) BN_mask_bits(d, BN_num_bits(c->q) - 1);
    }
    if (BN_is_zero(d)) BN_one(d);
    HARN(BN_cmp(d, c->q) < 0);
}
int pk_get_xy(EVP_PKEY *pk, int n, u8 *xy)
{
    const EC_KEY *ec = EVP_PKEY_get0(pk);
    const EC_POINT *P = ec ? EC_KEY_get0_public_key(ec) : NULL;
    if (!P) return 0;
    BIGNUM *x = BN_new(), *y = BN_new();
    int ok = EC_POINT_get_affine_coordinates(EC_KEY_get0_group(ec), P, x, y, NULL)
             && BN_bn2lebinpad(x, xy, n) == n && BN_bn2lebinpad(y, xy + n, n) == n;
    BN_free(x); BN_free(y);
    return ok;
}
const BIGNUM *pk_get_d(EVP_PKEY *pk) { const EC_KEY *ec = EVP_PKEY_get0(pk); return ec ? EC_KEY_get0_private_key(ec) : NULL; }
const EVP_MD *pk_md(const pk_type *t)
{
    const EVP_MD *m = EVP_get_digestbynid(t->hash == 0 ? NID_id_GostR3411_94 : t->hash == 1 ? NID_id_GostR3411_2012_256 : NID_id_GostR3411_2012_512);
    ENG(m);
    return m;
}
static void pk_finish(pk_key *k)
{
    der o = {{0}};
    pk_spki(k->t, k->xy, k->n, &o);
    ENG(k->pub = pk_load_spki(&o));
}
static void pk_begin(pk_key *k, const pk_type *t)
{
    memset(k, 0, sizeof *k);
    k->t = t; k->c = &ref_curves[t->rc]; k->n = k->c->n;
    HARN(k->d = BN_new());
}
void pk_make_d(pk_key *k, const pk_type *t, const BIGNUM *d)
{
    u8 b[64]; der o = {{0}};
    pk_begin(k, t);
    HARN(BN_copy(k->d, d));
    HARN(BN_bn2lebinpad(d, b, k->n) == k->n);
    pk_pkcs8(t, b, k->n, 0, &o);
    ENG(k->pk = pk_load_pkcs8(&o));
    HARN(ref_pub(k->c, d, k->xy));
    k->how = "loaded";
    pk_finish(k);
}
void pk_make(pk_key *k, const pk_type *t)
{
    if (chance(1, 2)) {
        BIGNUM *d = BN_new(); pk_rscalar(&ref_curves[t->rc], d);
        pk_make_d(k, t, d); BN_free(d);
        return;
    }
    pk_begin(k, t);
    EVP_PKEY_CTX *c;
    ENG(c = EVP_PKEY_CTX_new_id(t->alg, NULL));
    ENG(EVP_PKEY_keygen_init(c) > 0);
    /* tc26 256-bit sets B-D are known by their short names only */
    if (chance(1, 2) || !strcmp(t->pset, "TCB") || !strcmp(t->pset, "TCC") || !strcmp(t->pset, "TCD")) ENG(EVP_PKEY_CTX_ctrl_str(c, "paramset", t->pset) > 0);
    else ENG(EVP_PKEY_CTX_ctrl_str(c, "paramset", OBJ_nid2sn(t->curve)) > 0);
    ENG(EVP_PKEY_keygen(c, &k->pk) > 0);
    EVP_PKEY_CTX_free(c);
    const BIGNUM *d;
    ENG(d = pk_get_d(k->pk));
    HARN(BN_copy(k->d, d));
    if (BN_is_zero(d) || BN_is_negative(d) || BN_cmp(d, k->c->q) >= 0) vh_viol("keygen-range", "generated private key outside 1..q-1: %s", pk_bnh(d));
    HARN(ref_pub(k->c, d, k->xy));
    k->how = "generated";
    pk_finish(k);
}
void pk_free(pk_key *k) { BN_free(k->d); EVP_PKEY_free(k->pk); EVP_PKEY_free(k->pub); memset(k, 0, sizeof *k); }
void pk_setup(void)
{
    static int done;
    if (!done && ref_ec_init()) vh_fatal("ref_ec_init");
    done = 1;
}
