/* Key transport tokens: DER writer/parser and independent wrapping of the two formats
 * (GOST_KEY_TRANSPORT, PSKeyTransport). */
#ifndef TOK_H
#define TOK_H
#include "pk.h"
#pragma GCC diagnostic ignored "-Wunused-function"
#define R1 NID_id_GostR3410_2001
static int ukm_zero(const rcurve *c, const u8 *u, int ul)
{
    BIGNUM *k = BN_lebin2bn(u, ul, NULL); BN_CTX *bx = BN_CTX_new();
    HARN(k && bx && BN_nnmod(k, k, c->q, bx));
    int z = BN_is_zero(k); BN_free(k); BN_CTX_free(bx);
    return z;
}
/* token fields found by position */
typedef struct { int kind; u8 ct[64]; size_t ctl; u8 imit[8]; int sbox_nid; int has_eph; u8 eph[128]; u8 ukm[32]; size_t ul; } tok;
static void tok_build(const pk_type *t, const tok *k, der *o)
{
    der a = {{0}}, b = {{0}}, s = {{0}};
    int n = ref_curves[t->rc].n;
    if (k->kind == 0) {
        der_tlv(&a, 4, k->ct, k->ctl); der_tlv(&a, 4, k->imit, 4); der_wrap(&s, 0x30, &a);
        der_oid(&b, k->sbox_nid);
        if (k->has_eph) { der e = {{0}}; pk_spki(t, k->eph, n, &e); e.b[0] = 0xa0; der_raw(&b, e.b, e.n); }
        der_tlv(&b, 4, k->ukm, k->ul);
        der_wrap(&s, 0xa0, &b);
    } else {
        der_tlv(&s, 4, k->ct, k->ctl);
        pk_spki(t, k->eph, n, &s);
        if (k->ul) der_tlv(&s, 4, k->ukm, k->ul);
    }
    der_wrap(o, 0x30, &s);
}
static int rd(const u8 *p, size_t n, int tag, size_t *hl, size_t *l)
{
    if (n < 2 || p[0] != tag) return 0;
    if (p[1] < 128) { *hl = 2; *l = p[1]; } else if (p[1] == 0x81 && n > 2) { *hl = 3; *l = p[2]; } else if (p[1] == 0x82 && n > 3) { *hl = 4; *l = p[2] * 256 + p[3]; } else return 0;
    return *hl + *l <= n;
}
#define EAT(tag) do { if (!rd(p, e - p, tag, &h, &l)) return 0; } while (0)
static int oid_nid(const u8 *p, size_t n) { ASN1_OBJECT *o = NULL; const u8 *q = p; o = d2i_ASN1_OBJECT(NULL, &q, n); int r = o ? OBJ_obj2nid(o) : 0; ASN1_OBJECT_free(o); return r; }
static int spki_xy(const u8 *p, size_t n, int nn, u8 *xy, int *alg, int *curve)
{
    const u8 *e = p + n; size_t h, l;
    EAT(0x30); const u8 *ae = p + h + l; p += h; { size_t h2, l2; if (!rd(p, ae - p, 6, &h2, &l2)) return 0; *alg = oid_nid(p, h2 + l2); p += h2 + l2; if (!rd(p, ae - p, 0x30, &h2, &l2)) return 0; p += h2; if (!rd(p, ae - p, 6, &h2, &l2)) return 0; *curve = oid_nid(p, h2 + l2); }
    p = ae; EAT(3); p += h; if (*p++) return 0;
    EAT(4); p += h; if (l != 2 * (size_t)nn) return 0;
    memcpy(xy, p, l);
    return p + l == e;
}
static int tok_parse(const u8 *p, size_t n, const pk_type *t, tok *k)
{
    const u8 *e = p + n; size_t h, l; int nn = ref_curves[t->rc].n, alg, curve;
    EAT(0x30); p += h; if (p + l != e) return 0;
    if (k->kind == 0) {
        EAT(0x30); p += h; const u8 *se = p + l;
        EAT(4); if (l != 32) return 0; memcpy(k->ct, p + h, k->ctl = l); p += h + l;
        EAT(4); if (l != 4) return 0; memcpy(k->imit, p + h, 4); p += h + l; if (p != se) return 0;
        EAT(0xa0); p += h; if (p + l != e) return 0;
        EAT(6); k->sbox_nid = oid_nid(p, h + l); p += h + l;
        k->has_eph = *p == 0xa0;
        if (k->has_eph) { EAT(0xa0); if (!spki_xy(p + h, l, nn, k->eph, &alg, &curve) || alg != t->alg || curve != t->curve) return 0; p += h + l; }
        EAT(4); if (l != 8) return 0; memcpy(k->ukm, p + h, k->ul = 8); p += h + l;
    } else {
        EAT(4); if (l > 64) return 0; memcpy(k->ct, p + h, k->ctl = l); p += h + l;
        EAT(0x30); { size_t ih, il; if (!rd(p + h, l, 0x30, &ih, &il)) return 0; }
        if (!spki_xy(p + h, l, nn, k->eph, &alg, &curve) || alg != t->alg || curve != t->curve) return 0;
        k->has_eph = 1; p += h + l;
        k->ul = 0;
        if (p != e) { EAT(4); if (l > 32) return 0; memcpy(k->ukm, p + h, k->ul = l); p += h + l; }
    }
    return p == e;
}
static int sb_of(int nid) { switch (nid) { case NID_id_Gost28147_89_CryptoPro_A_ParamSet: return SB_A; case NID_id_Gost28147_89_CryptoPro_B_ParamSet: return SB_B; case NID_id_Gost28147_89_CryptoPro_C_ParamSet: return SB_C; case NID_id_Gost28147_89_CryptoPro_D_ParamSet: return SB_D; case NID_id_tc26_gost_28147_param_Z: return SB_Z; case NID_id_Gost28147_89_TestParamSet: return SB_TEST; } return -1; }
/* key inside a token, from private key d and public point xy; 0 if it does not authenticate */
static int tok_open(const rcurve *c, const pk_type *t, const BIGNUM *d, const u8 *xy, const tok *k, u8 cek[32])
{
    if (k->kind == 0) {
        u8 kek[64], w[44]; int sb = sb_of(k->sbox_nid);
        if (sb < 0 || ukm_zero(c, k->ukm, 8) || !ref_vko(c, d, xy, k->ukm, 8, t->alg == R1 ? 0 : 1, kek)) return 0;
        memcpy(w, k->ukm, 8); memcpy(w + 8, k->ct, 32); memcpy(w + 40, k->imit, 4);
        return ref_cpunwrap(sb, kek, w, cek);
    }
    u8 ek[64]; bc_type b = k->kind == 1 ? BC_MAGMA : BC_KUZ; int bs = b == BC_KUZ ? 16 : 8;
    if (k->ul != 32 || k->ctl != 32 + (size_t)bs || !ref_keg(c, d, xy, k->ukm, ek)) return 0;
    return ref_kimp15(b, k->ct, ek + 32, ek, k->ukm + 24, cek);
}
static void tok_make(const rcurve *c, const pk_type *t, const BIGNUM *d, const u8 *xy, const u8 cek[32], tok *k)
{
    if (k->kind == 0) {
        u8 kek[64], w[44];
        HARN(ref_vko(c, d, xy, k->ukm, 8, t->alg == R1 ? 0 : 1, kek));
        ref_cpwrap(sb_of(k->sbox_nid), kek, k->ukm, cek, w);
        memcpy(k->ct, w + 8, 32); k->ctl = 32; memcpy(k->imit, w + 40, 4); k->ul = 8;
        return;
    }
    u8 ek[64]; bc_type b = k->kind == 1 ? BC_MAGMA : BC_KUZ;
    k->ul = 32; HARN(ref_keg(c, d, xy, k->ukm, ek));
    ref_kexp15(b, cek, ek + 32, ek, k->ukm + 24, k->ct); k->ctl = 32 + (b == BC_KUZ ? 16 : 8);
}
#endif
