/* P26, and P27 for the provider: cipher parameters in ASN.1 */
#include "tok.h"
/* ---------------------------------------------------------------- P26 */
static const struct { const char *n; bc_type t; int mode, kind, ivl; size_t section; int sb; } pc[] = {
    {"gost89", BC_GOST89, M_G89CFB, 0, 8, 0, SB_Z}, {"gost89-cbc", BC_GOST89, M_CBC, 0, 8, 0, SB_Z},
    {"magma-ctr-acpkm", BC_MAGMA, M_CTR, 1, 4, 8192, 0}, {"kuznyechik-ctr-acpkm", BC_KUZ, M_CTR, 1, 8, 262144, 0},
    {"magma-ctr-acpkm-omac", BC_MAGMA, M_CTR, 2, 4, 8192, 0}, {"kuznyechik-ctr-acpkm-omac", BC_KUZ, M_CTR, 2, 8, 262144, 0},
};
#ifdef VH_PROV
#define NPC 4       /* the provider refuses to initialise the last two: see known_findings.txt */
#else
#define NPC 6
#endif
static const EVP_CIPHER *pci[NPC];
static void par_setup(void)
{
    for (int i = 0; i < NPC; i++) { int nid = OBJ_txt2nid(pc[i].n); ENG(nid); ENG(pci[i] = ENGINE_get_cipher(vh_eng, nid)); }
}
static int is_crypt(int nid) { return sb_of(nid) >= 0; }
static void par_der(int i, const u8 *ukm, size_t ul, int oid, der *o)
{
    der s = {{0}};
    der_tlv(&s, 4, ukm, ul); if (pc[i].kind == 0 && oid) der_oid(&s, oid);
    der_wrap(o, 0x30, &s);
}
static void par_key(int i, const u8 *key, const u8 *seed, u8 *ek) { u8 ks[64]; if (pc[i].kind == 2) { ref_kdf_tree(key, 32, (const u8 *)"kdf tree", 8, seed, 8, 1, 64, ks); memcpy(ek, ks, 32); } else memcpy(ek, key, 32); }
static void par_ref(int i, int sb, const u8 *key, const u8 *ukm, const u8 *in, size_t n, u8 *out)
{
    u8 iv[16] = {0}, ek[32]; memcpy(iv, ukm, pc[i].ivl);
    ref_mode m = {pc[i].t, sb, pc[i].mode, pc[i].mode != M_CBC && pc[i].kind == 0, pc[i].section};
    par_key(i, key, ukm + pc[i].ivl, ek);
    HARN(ref_crypt(&m, ek, iv, 1, in, n, out) >= 0);
}
static void feed(EVP_CIPHER_CTX *c, const u8 *in, size_t n, u8 *out)
{
    size_t p = 0, o = 0; int l;
    while (p < n) { size_t k = chance(1, 3) ? n - p : 1 + rn(n - p < 5000 ? n - p : 5000); ENG(EVP_CipherUpdate(c, out + o, &l, in + p, k) > 0); p += k; o += l; HARN(o <= n + 16); }
}
static ASN1_TYPE *to_type(const u8 *p, size_t n) { const u8 *q = p; return d2i_ASN1_TYPE(NULL, &q, n); }
static void params_case(void)
{
    int i = rn(NPC), ivl = pc[i].ivl, ul = ivl + (pc[i].kind ? 8 : 0); size_t n = rlen(20000), cl = n;
    if (pc[i].t == BC_KUZ && chance(1, 12)) n = 250000 + rn(300000);
    if (pc[i].mode == M_CBC) { n &= ~7ul; }
    cl = n;
    u8 key[32], iv[16], *m = malloc(n + 16), *c = malloc(n + 32), *w = malloc(n + 32), *enc = NULL; ASN1_TYPE *at; der d = {{0}};
    static const int sbn[] = {NID_id_Gost28147_89_CryptoPro_A_ParamSet, NID_id_Gost28147_89_CryptoPro_B_ParamSet, NID_id_Gost28147_89_CryptoPro_C_ParamSet, NID_id_Gost28147_89_CryptoPro_D_ParamSet, NID_id_tc26_gost_28147_param_Z, NID_id_Gost28147_89_TestParamSet};
    int nid = 0, sb = pc[i].sb;
    rkey(key, 32); rbytes(iv, 16); if (chance(1, 8)) rcontent(iv, 16); rcontent(m, n);
    EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new(), *y = EVP_CIPHER_CTX_new(); u8 ukm[16];
    /* writing, as CMS does it */
    ENG(EVP_EncryptInit_ex(x, pci[i], NULL, NULL, NULL) > 0);
    for (int k = 0; k < 6; k++) if (sb_of(sbn[k]) == sb) nid = sbn[k];
    if (HAS_SBOX && pc[i].kind == 0 && chance(1, 2)) { nid = sbn[rn(6)]; sb = sb_of(nid); ENG(EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_SET_SBOX, 0, (void *)OBJ_nid2sn(nid)) > 0); }
    ENG(EVP_EncryptInit_ex(x, NULL, NULL, key, iv) > 0);
    EVP_CIPHER_CTX_set_padding(x, 0);
    if (chance(1, 6)) { ENG(EVP_EncryptInit_ex(x, NULL, NULL, NULL, iv) > 0); }
    at = ASN1_TYPE_new(); if (chance(1, 3)) ASN1_TYPE_set(at, V_ASN1_NULL, NULL);
    vh_log("write %s n %zu S-box %d", pc[i].n, n, sb);
    ENG(EVP_CIPHER_param_to_asn1(x, at) > 0);
    int el = i2d_ASN1_TYPE(at, &enc);
    memcpy(ukm, iv, 16);
    if (pc[i].kind) {
        if (el != 4 + ul || enc[3] != ul) { vh_viol("params-written", "%s: %s", pc[i].n, vh_hex(enc, el > 0 ? el : 0)); goto end; }
        memcpy(ukm + ivl, enc + 4 + ivl, 8);
    }
    par_der(i, ukm, ul, nid, &d);
    if (el != (int)d.n || memcmp(enc, d.b, el)) vh_viol("params-written", "%s: %s want %s", pc[i].n, vh_hex(enc, el > 0 ? el : 0), vh_hex(d.b, d.n));
    vh_count("params_written", 1);
    feed(x, m, n, c);
    par_ref(i, sb, key, ukm, m, n, w);
    if (memcmp(c, w, n)) { size_t k = 0; while (c[k] == w[k]) k++; vh_viol("params-not-in-force", "%s S-box %d: encryption differs from the parameters written at octet %zu of %zu", pc[i].n, sb, k, n); }
    vh_sig("w|%s|%d|%zu", pc[i].n, sb, n / 4096);
    /* reading, reference-made parameters and ciphertext; contexts in different states */
    for (int rep = 0; rep < 2; rep++) {
        int st = rn(4); EVP_CIPHER_CTX *z = y;
        rkey(key, 32); rbytes(ukm, 16); nid = sbn[rn(6)]; sb = sb_of(nid);
        d.n = 0; par_der(i, ukm, ul, nid, &d);
        par_ref(i, pc[i].kind ? 0 : sb, key, ukm, m, n, w);
        ASN1_TYPE *pt = to_type(d.b, d.n); HARN(pt);
        if (st == 1) z = x;                                     /* used for something else before */
        if (st == 2) { u8 k2[32]; rbytes(k2, 32); ENG(EVP_EncryptInit_ex(y, pci[rn(NPC)], NULL, k2, k2) > 0); if (chance(1, 2)) feed(y, m, n & ~15ul, c); }
        if (st == 3 && rep) EVP_CIPHER_CTX_reset(y);
        ENG(EVP_DecryptInit_ex(z, pci[i], NULL, NULL, NULL) > 0);
        vh_log("read %s state %d n %zu S-box %d %s", pc[i].n, st, n, sb, vh_hex(d.b, d.n));
        if (chance(1, 4)) {     /* refused parameters first */
            u8 bad[2] = {5, 0}; ASN1_TYPE *bt = to_type(bad, 2); HARN(bt);
            if (EVP_CIPHER_asn1_to_param(z, bt) > 0) vh_viol("bad-params-accepted", "%s: NULL", pc[i].n);
            ASN1_TYPE_free(bt); ERR_clear_error();
        }
        ENG(EVP_CIPHER_asn1_to_param(z, pt) > 0);
        ENG(EVP_DecryptInit_ex(z, NULL, NULL, key, NULL) > 0);
        EVP_CIPHER_CTX_set_padding(z, 0);
        memset(c, 0, n); feed(z, w, cl, c);
        if (memcmp(c, m, n)) { size_t k = 0; while (c[k] == m[k]) k++; vh_viol("params-not-applied", "%s state %d S-box %d: decryption differs at octet %zu of %zu", pc[i].n, st, sb, k, n); }
        ASN1_TYPE_free(pt);
        vh_count("params_applied", 1); vh_sig("r|%s|%d|%d|%zu", pc[i].n, st, pc[i].kind ? 0 : sb, n / 4096);
    }
    /* malformed */
    for (int k = 0; k < 4; k++) {
        int bad = rn(9); der b = {{0}}, s = {{0}}; u8 big[64]; rbytes(big, 64); const char *nm = "";
        ENG(EVP_DecryptInit_ex(y, pci[i], NULL, NULL, NULL) > 0);
        switch (bad) {
        case 0: { int l; do l = rn(33); while (l == ul); par_der(i, big, l, nid, &b); nm = "IV length"; break; }
        case 1: der_tlv(&b, 4, big, ul); nm = "octet string"; break;
        case 2: der_wrap(&b, 0x30, &s); nm = "empty sequence"; break;
        case 3: if (pc[i].kind) { der_tlv(&s, 2, big, 8); nm = "integer in the sequence"; } else { der_tlv(&s, 4, big, 8); nm = "no parameter set"; } der_wrap(&b, 0x30, &s); break;
        case 4: if (pc[i].kind) { der_tlv(&s, 4, big, ul); der_tlv(&s, 4, big, ul); der_wrap(&b, 0x30, &s); nm = "two UKMs"; }
                else { static const int un[] = {NID_sha256, NID_id_GostR3411_94_CryptoProParamSet, NID_id_GostR3410_2001_CryptoPro_A_ParamSet, NID_id_Gost28147_89_CryptoPro_KeyMeshing, NID_id_Gost28147_89_CryptoPro_Oscar_1_1_ParamSet, NID_id_GostR3411_2012_256}; par_der(i, big, 8, un[rn(6)], &b); nm = "not an S-box"; } break;
        case 5: der_tlv(&b, 2, "\1", 1); nm = "integer"; break;
        case 6: der_tlv(&s, 6, "\x2a\x85\x03\x02\x02\x1f\x63", 7); { der q = {{0}}; der_tlv(&q, 4, big, ul); der_raw(&q, s.b, s.n); if (pc[i].kind) der_raw(&q, s.b, s.n); der_wrap(&b, 0x30, &q); } nm = "unknown OID"; break;
        case 7: { der q = {{0}}; der_raw(&q, "\x04\x7f", 2); der_raw(&q, big, 9); der_wrap(&b, 0x30, &q); nm = "bad inner length"; break; }
        case 8: der_oid(&b, nid); nm = "bare OID"; break;
        }
        ASN1_TYPE *bt = to_type(b.b, b.n);
        if (!bt) continue;
        vh_log("malformed %s %d %s", pc[i].n, bad, vh_hex(b.b, b.n));
        if (EVP_CIPHER_asn1_to_param(y, bt) > 0) vh_viol("bad-params-accepted", "%s: %s %s", pc[i].n, nm, vh_hex(b.b, b.n));
        ERR_clear_error(); ASN1_TYPE_free(bt);
        vh_count("bad_params_refused", 1); vh_sig("bad|%s|%d", pc[i].n, bad);
    }
end:
    OPENSSL_free(enc); ASN1_TYPE_free(at); EVP_CIPHER_CTX_free(x); EVP_CIPHER_CTX_free(y); free(m); free(c); free(w);
}

