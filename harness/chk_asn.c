/* ASN.1 cipher parameters (P26) and hostile encoded input (P17). */
#include "pk.h"
#include "tok.h"
#include "ciphers.h"
#include "dermut.h"
#include <openssl/pem.h>
#include <openssl/cms.h>
#include <openssl/pkcs12.h>
#include <openssl/x509v3.h>
#include <glob.h>
static const char *vdata(const char *f) { static char b[1024]; const char *d = getenv("VDATA"); HARN(d); snprintf(b, sizeof b, "%s%s", d, f); return b; }

#include "par.h"
/* ---------------------------------------------------------------- P17 */
static dn_blob oids[64]; static int noids;
static const int oid_nids[] = {
    NID_id_GostR3410_2001, NID_id_GostR3410_2012_256, NID_id_GostR3410_2012_512, NID_id_GostR3411_94, NID_id_GostR3411_2012_256, NID_id_GostR3411_2012_512,
    NID_id_GostR3410_2001_TestParamSet, NID_id_GostR3410_2001_CryptoPro_A_ParamSet, NID_id_GostR3410_2001_CryptoPro_XchA_ParamSet, NID_id_GostR3410_2001_CryptoPro_C_ParamSet,
    NID_id_tc26_gost_3410_2012_256_paramSetA, NID_id_tc26_gost_3410_2012_512_paramSetA, NID_id_tc26_gost_3410_2012_512_paramSetC, NID_id_tc26_gost_3410_2012_512_paramSetTest,
    NID_id_GostR3411_94_CryptoProParamSet, NID_id_Gost28147_89_CryptoPro_A_ParamSet, NID_id_tc26_gost_28147_param_Z, NID_id_Gost28147_89_TestParamSet,
    NID_magma_ctr_acpkm, NID_magma_ctr_acpkm_omac, NID_kuznyechik_ctr_acpkm, NID_kuznyechik_ctr_acpkm_omac, NID_id_Gost28147_89, NID_magma_kexp15, NID_kuznyechik_kexp15,
    NID_id_tc26_agreement_gost_3410_2012_256, NID_id_tc26_agreement_gost_3410_2012_512, NID_id_tc26_signwithdigest_gost3410_2012_256, NID_id_tc26_signwithdigest_gost3410_2012_512, NID_id_GostR3411_94_with_GostR3410_2001,
    NID_sha256, NID_rsaEncryption, NID_id_Gost28147_89_MAC, NID_id_GostR3410_94, NID_id_GostR3410_2001DH, NID_hmacWithSHA256, NID_id_tc26_hmac_gost_3411_2012_512, NID_pkcs7_data };
static X509 *cert(pk_key *k, const char *cn)
{
    X509 *x = X509_new(); HARN(x);
    X509_set_version(x, 2); ASN1_INTEGER_set(X509_get_serialNumber(x), 1 + rn(1000000));
    X509_NAME_add_entry_by_txt(X509_get_subject_name(x), "CN", MBSTRING_ASC, (const u8 *)cn, -1, -1, 0);
    X509_set_issuer_name(x, X509_get_subject_name(x));
    X509_gmtime_adj(X509_getm_notBefore(x), -3600); X509_gmtime_adj(X509_getm_notAfter(x), 36000);
    ENG(X509_set_pubkey(x, k->pk) > 0);
    ENG(X509_sign(x, k->pk, pk_md(k->t)) > 0);
    return x;
}
static void use_key(EVP_PKEY *p, const char *from)
{
    BIO *b = BIO_new(BIO_s_mem()); int nid = EVP_PKEY_base_id(p); u8 sig[128], dg[64]; size_t sl;
    int gost = nid == NID_id_GostR3410_2001 || nid == NID_id_GostR3410_2001DH || nid == NID_id_GostR3410_2012_256 || nid == NID_id_GostR3410_2012_512;
    EVP_PKEY_print_public(b, p, 2, NULL); EVP_PKEY_print_private(b, p, 2, NULL); EVP_PKEY_print_params(b, p, 2, NULL);
    int n = EVP_PKEY_size(p), bits = EVP_PKEY_bits(p); (void)bits; EVP_PKEY_get_security_bits(p); EVP_PKEY_missing_parameters(p); EVP_PKEY_can_sign(p);
    int mdn; EVP_PKEY_get_default_digest_nid(p, &mdn);
    EVP_PKEY_eq(p, p);
    u8 *o = NULL, *o2 = NULL; int l = i2d_PUBKEY(p, &o), l2;
    if (l > 0) {
        const u8 *q = o; EVP_PKEY *r = d2i_PUBKEY(NULL, &q, l);
        if (gost && !r) vh_viol("reencoding", "%s: a key that was decoded is encoded as something undecodable: %s", from, vh_hex(o, l));
        if (gost && r) {
            if (EVP_PKEY_eq(p, r) != 1) vh_viol("reencoding", "%s: decode(encode(key)) is another key", from);
            l2 = i2d_PUBKEY(r, &o2); if (l2 != l || memcmp(o, o2, l)) vh_viol("reencoding", "%s: encoding not stable", from);
        }
        EVP_PKEY_free(r);
    }
    OPENSSL_free(o); OPENSSL_free(o2);
    PKCS8_PRIV_KEY_INFO *p8 = gost && pk_get_d(p) ? EVP_PKEY2PKCS8(p) : NULL; PKCS8_PRIV_KEY_INFO_free(p8);
    if (gost) {
        const EC_KEY *ec = EVP_PKEY_get0(p); const EC_GROUP *g = ec ? EC_KEY_get0_group(ec) : NULL; const EC_POINT *Q = ec ? EC_KEY_get0_public_key(ec) : NULL; const BIGNUM *d = pk_get_d(p);
        if (!g) vh_viol("no-parameters", "%s: key without parameters accepted", from);
        else {
            if (Q && !EC_POINT_is_at_infinity(g, Q) && EC_POINT_is_on_curve(g, Q, NULL) != 1) vh_viol("point-off-curve", "%s: accepted public key is not on its curve", from);
            if (d && Q) { EC_POINT *R = EC_POINT_new(g); if (EC_POINT_mul(g, R, d, NULL, NULL, NULL) == 1 && EC_POINT_cmp(g, R, Q, NULL)) vh_viol("key-mismatch", "%s: public key does not belong to the accepted private key", from); EC_POINT_free(R); }
            if (EC_GROUP_get_degree(g) > 512 || n < 64 || n > 128) vh_viol("size", "%s: %d", from, n);
            else if (n != 2 * ((EC_GROUP_get_degree(g) + 7) / 8)) vh_viol("size", "%s: signature size %d for a curve of %d bits", from, n, EC_GROUP_get_degree(g));
        }
        /* operations with it */
        EVP_PKEY_CTX *c = EVP_PKEY_CTX_new(p, NULL); rbytes(dg, 64);
        if (c) {
            sl = 128; int r = 0;
            if (d && EVP_PKEY_sign_init(c) > 0) { r = EVP_PKEY_sign(c, sig, &sl, dg, n / 2); if (r > 0 && sl != (size_t)n) vh_viol("size", "%s: signature of %zu octets", from, sl); }
            if (r <= 0) { rbytes(sig, 128); sl = n; }
            if (EVP_PKEY_verify_init(c) > 0) { int v = EVP_PKEY_verify(c, sig, sl, dg, n / 2); if (r > 0 && v != 1 && d && BN_cmp(d, EC_GROUP_get0_order(EC_KEY_get0_group(EVP_PKEY_get0(p)))) < 0 && !BN_is_zero(d)) vh_viol("self-verify", "%s: own signature does not verify", from); }
            if (EVP_PKEY_encrypt_init(c) > 0) { u8 t[1024]; size_t tl = sizeof t; if (chance(1, 2)) EVP_PKEY_CTX_ctrl(c, -1, -1, EVP_PKEY_CTRL_CIPHER, chance(1, 2) ? NID_magma_ctr : NID_kuznyechik_ctr, NULL); EVP_PKEY_encrypt(c, t, &tl, dg, 32); }
            if (EVP_PKEY_derive_init(c) > 0) { u8 t[64]; size_t tl = 64; EVP_PKEY_CTX_ctrl(c, -1, -1, EVP_PKEY_CTRL_SET_IV, chance(1, 2) ? 8 : 32, dg); if (EVP_PKEY_derive_set_peer(c, p) > 0) EVP_PKEY_derive(c, t, &tl); }
        }
        EVP_PKEY_CTX_free(c);
        /* a copy of the parameters, a key generated from them */
        EVP_PKEY *q = EVP_PKEY_new(); if (EVP_PKEY_copy_parameters(q, p) > 0) {
            if (EVP_PKEY_parameters_eq(q, p) != 1) vh_viol("params-copy", "%s: copied parameters differ", from);
            EVP_PKEY_CTX *kc = EVP_PKEY_CTX_new(q, NULL); EVP_PKEY *nk = NULL;
            if (kc && EVP_PKEY_keygen_init(kc) > 0) EVP_PKEY_keygen(kc, &nk);
            EVP_PKEY_free(nk); EVP_PKEY_CTX_free(kc);
        }
        EVP_PKEY_free(q);
        vh_count("hostile_keys_used", 1);
    }
    BIO_free(b);
    ERR_clear_error();
}
#define NF 40
static struct { char name[80]; u8 *p; size_t n; int what; } files[NF]; static int nfiles;
static EVP_PKEY *fkey[8]; static X509 *fcert[8]; static int nfk, nfc;
static u8 fsym[64]; static size_t fsyml;
enum { F_CMS, F_CERT, F_KEY };
static void fuzz_setup(void)
{
    pk_setup(); par_setup();
    for (size_t i = 0; i < sizeof oid_nids / sizeof *oid_nids; i++) { const ASN1_OBJECT *o = OBJ_nid2obj(oid_nids[i]); if (o && OBJ_length(o)) { oids[noids].p = OBJ_get0_data(o); oids[noids++].n = OBJ_length(o); } }
    glob_t g; HARN(!glob(vdata("/tc26/*.pem"), 0, NULL, &g));
    for (size_t i = 0; i < g.gl_pathc && nfiles < NF; i++) {
        FILE *f = fopen(g.gl_pathv[i], "r"); char *nm, *hd; u8 *d; long l; HARN(f);
        HARN(PEM_read(f, &nm, &hd, &d, &l)); fclose(f);
        snprintf(files[nfiles].name, 80, "%s", strrchr(g.gl_pathv[i], '/') + 1);
        files[nfiles].p = malloc(l); memcpy(files[nfiles].p, d, l); files[nfiles].n = l;
        files[nfiles].what = strstr(nm, "PRIVATE") ? F_KEY : strstr(nm, "CERT") ? F_CERT : F_CMS;
        const u8 *q = d;
        if (files[nfiles].what == F_KEY) { ENG(fkey[nfk] = d2i_AutoPrivateKey(NULL, &q, l)); nfk++; }
        if (files[nfiles].what == F_CERT) { ENG(fcert[nfc] = d2i_X509(NULL, &q, l)); nfc++; }
        nfiles++;
        OPENSSL_free(nm); OPENSSL_free(hd); OPENSSL_free(d);
    }
    globfree(&g);
    FILE *f = fopen(vdata("/tc26/encryption_key.hex"), "r"); char h[130] = ""; HARN(f && fgets(h, 130, f)); fclose(f);
    for (fsyml = 0; fsyml < 32; fsyml++) { unsigned v; HARN(sscanf(h + 2 * fsyml, "%2x", &v) == 1); fsym[fsyml] = v; }
}
static void fuzz_done(void)
{
    while (nfk) EVP_PKEY_free(fkey[--nfk]);
    while (nfc) X509_free(fcert[--nfc]);
    while (nfiles) free(files[--nfiles].p);
}
static void run_cms(const u8 *p, size_t n, EVP_PKEY *k, X509 *x, X509 *k2)
{
    const u8 *q = p; CMS_ContentInfo *c = d2i_CMS_ContentInfo(NULL, &q, n); BIO *o = BIO_new(BIO_s_mem()); int r = 0;
    if (c) {
        switch (OBJ_obj2nid(CMS_get0_type(c))) {
        case NID_pkcs7_signed: r = CMS_verify(c, NULL, NULL, NULL, o, CMS_NO_SIGNER_CERT_VERIFY | CMS_BINARY); break;
        case NID_pkcs7_digest: r = CMS_digest_verify(c, NULL, o, CMS_BINARY); break;
        case NID_pkcs7_encrypted: r = CMS_EncryptedData_decrypt(c, fsym, 32, NULL, o, CMS_BINARY); break;
        case NID_pkcs7_enveloped:
            if (chance(1, 2) && k2) r = CMS_decrypt_set1_pkey_and_peer(c, k, x, k2); else r = CMS_decrypt_set1_pkey(c, k, chance(3, 4) ? x : NULL);
            if (r > 0 || chance(1, 2)) r = CMS_decrypt(c, NULL, NULL, NULL, o, CMS_BINARY);
            break;
        }
        vh_count(r > 0 ? "cms_processed" : "cms_refused", 1);
        BIO *pr = BIO_new(BIO_s_mem()); if (chance(1, 4)) CMS_ContentInfo_print_ctx(pr, c, 0, NULL); BIO_free(pr);
        if (chance(1, 4)) { u8 *e = NULL; i2d_CMS_ContentInfo(c, &e); OPENSSL_free(e); }
    } else vh_count("undecodable", 1);
    CMS_ContentInfo_free(c); BIO_free(o);
    ERR_clear_error();
}
static void fuzz_case(void)
{
    const pk_type *t = pk_rtype(); pk_key k, k2; pk_make(&k, t); pk_make(&k2, chance(3, 4) ? t : pk_rtype());
    const rcurve *c = k.c; int n = k.n; u8 buf[512], *seed = NULL, *m = NULL; size_t sn = 0, mn; char what[64]; X509 *xc = NULL;
    int kind = rn(12), fi = -1, sub = 0; der e = {{0}};
    switch (kind) {
    case 0: pk_spki(t, k.xy, n, &e); break;
    case 1: {
        sub = rn(4); if (sub == 2) HARN(BN_bn2binpad(k.d, buf, n) == n); else HARN(BN_bn2lebinpad(k.d, buf, n) == n);
        size_t l = n; if (sub == 3 || (sub == 0 && chance(1, 2))) { rbytes(buf + n, 3 * n); l = n * (1 + rn(4)); }
        if (chance(1, 8)) l = rn(4 * n);
        pk_pkcs8(t, buf, l, sub, &e); break; }
    case 2: { sub = rn(NPC); u8 ukm[16]; rbytes(ukm, 16); par_der(sub, ukm, pc[sub].ivl + (pc[sub].kind ? 8 : 0), NID_id_tc26_gost_28147_param_Z, &e); break; }
    case 3: case 4: {
        tok k3 = {0}; BIGNUM *ed = BN_new(); u8 cek[32]; rbytes(cek, 32); pk_rscalar(c, ed);
        sub = k3.kind = t->alg == R1 ? 0 : rn(3); k3.sbox_nid = NID_id_tc26_gost_28147_param_Z; rbytes(k3.ukm, 32); k3.has_eph = 1;
        HARN(ref_pub(c, ed, k3.eph)); tok_make(c, t, ed, k.xy, cek, &k3); tok_build(t, &k3, &e); BN_free(ed); break; }
    case 5: { der a = {{0}}; der_oid(&a, t->curve); if (pk_dgst_param(t)) der_oid(&a, pk_dgst_param(t)); der_wrap(&e, 0x30, &a); break; }     /* domain parameters */
    case 6: {
        X509 *x = cert(&k, "fuzz"); unsigned char *o = NULL; int l = i2d_X509(x, &o); HARN(l > 0); seed = malloc(l); memcpy(seed, o, sn = l); OPENSSL_free(o); X509_free(x); break; }
    case 7: case 8: {   /* CMS made here */
        xc = cert(&k, "fuzz"); BIO *in = BIO_new_mem_buf("hostile input test content, long enough for several blocks", -1); CMS_ContentInfo *cm = NULL; STACK_OF(X509) *st = sk_X509_new_null(); sk_X509_push(st, xc);
        sub = rn(3); u8 *o = NULL; int l;
        if (sub == 0) ENG(cm = CMS_sign(xc, k.pk, NULL, in, CMS_BINARY | (chance(1, 2) ? CMS_NOATTR : 0)));
        else {
            int ci = rn(NPC); while (!strcmp(pc[ci].n, "gost89-cnt-12") || !strcmp(pc[ci].n, "gost89-cbc") || !strcmp(pc[ci].n, "gost89-cnt")) ci = rn(NPC);
            vh_log("cms %d %s %s alg %s", sub, pc[ci].n, t->pset, OBJ_nid2sn(t->alg));
            if (sub == 1) { cm = CMS_encrypt(st, in, pci[ci], CMS_BINARY); if (!cm) { ERR_print_errors_fp(stderr); } ENG(cm); } else ENG(cm = CMS_EncryptedData_encrypt(in, pci[ci], fsym, 32, CMS_BINARY));
        }
        l = i2d_CMS_ContentInfo(cm, &o); HARN(l > 0); seed = malloc(l); memcpy(seed, o, sn = l); OPENSSL_free(o);
        CMS_ContentInfo_free(cm); BIO_free(in); sk_X509_free(st); break; }
    case 9: {           /* PKCS#12 with a GOST MAC */
        xc = cert(&k, "fuzz"); PKCS12 *p = PKCS12_create("pw", "n", k.pk, xc, NULL, -1, -1, 1, -1, 0); ENG(p);
        ENG(PKCS12_set_mac(p, "pw", -1, NULL, 0, 3, EVP_get_digestbynid(chance(1, 2) ? NID_id_GostR3411_2012_512 : NID_id_GostR3411_94)) > 0);
        u8 *o = NULL; int l = i2d_PKCS12(p, &o); HARN(l > 0); seed = malloc(l); memcpy(seed, o, sn = l); OPENSSL_free(o); PKCS12_free(p); break; }
    default: fi = rn(nfiles); seed = malloc(files[fi].n); memcpy(seed, files[fi].p, sn = files[fi].n); sub = fi; break;
    }
    if (!seed) { seed = malloc(e.n); memcpy(seed, e.b, sn = e.n); }
    int rounds = kind >= 6 && kind <= 9 ? 8 : 5;
    for (int a = 0; a < rounds; a++) {
        if (a == 0 && chance(1, 4)) { m = malloc(sn); memcpy(m, seed, mn = sn); strcpy(what, "unchanged"); }
        else mn = der_mutate(seed, sn, oids, noids, &m, what);
        vh_log("kind %d.%d %s %s: %s", kind, sub, t->pset, what, vh_hex(m, mn < 1500 ? mn : 1500));
        const u8 *q = m; char from[100]; snprintf(from, 100, "kind %d.%d %s", kind, sub, what);
        switch (fi >= 0 && files[fi].what == F_KEY ? 1 : fi >= 0 && files[fi].what == F_CERT ? 6 : fi >= 0 ? 10 : kind) {
        case 0: { EVP_PKEY *p = d2i_PUBKEY(NULL, &q, mn); if (p) { vh_count("decoded", 1); use_key(p, from); } else vh_count("undecodable", 1); EVP_PKEY_free(p); break; }
        case 1: { PKCS8_PRIV_KEY_INFO *p8 = d2i_PKCS8_PRIV_KEY_INFO(NULL, &q, mn); EVP_PKEY *p = p8 ? EVP_PKCS82PKEY(p8) : NULL; if (p) { vh_count("decoded", 1); use_key(p, from); } else vh_count("undecodable", 1); EVP_PKEY_free(p); PKCS8_PRIV_KEY_INFO_free(p8); break; }
        case 2: {
            ASN1_TYPE *at = d2i_ASN1_TYPE(NULL, &q, mn);
            if (at) {
                int ci = chance(3, 4) ? sub : (int)rn(NPC), l; u8 key[32], o[200]; rbytes(key, 32); EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new();
                ENG(EVP_DecryptInit_ex(x, pci[ci], NULL, NULL, NULL) > 0);
                if (EVP_CIPHER_asn1_to_param(x, at) > 0) {
                    if (EVP_DecryptInit_ex(x, NULL, NULL, key, NULL) > 0) EVP_DecryptUpdate(x, o, &l, buf, 160);
                    ASN1_TYPE *a2 = ASN1_TYPE_new(); EVP_CIPHER_param_to_asn1(x, a2); ASN1_TYPE_free(a2);
                    vh_count("decoded", 1);
                } else vh_count("undecodable", 1);
                EVP_CIPHER_CTX_free(x);
            }
            ASN1_TYPE_free(at); break; }
        case 3: case 4: {
            u8 got[32]; size_t gl = 32; EVP_PKEY_CTX *dc; ENG(dc = EVP_PKEY_CTX_new(k.pk, NULL)); ENG(EVP_PKEY_decrypt_init(dc) > 0);
            int kd = chance(7, 8) ? sub : (int)rn(3); if (kd) ENG(EVP_PKEY_CTX_ctrl(dc, -1, -1, EVP_PKEY_CTRL_CIPHER, kd == 1 ? NID_magma_ctr : NID_kuznyechik_ctr, NULL) > 0);
            if (chance(1, 4)) EVP_PKEY_derive_set_peer(dc, k2.pub);
            vh_count(EVP_PKEY_decrypt(dc, got, &gl, m, mn) > 0 ? "decoded" : "undecodable", 1);
            EVP_PKEY_CTX_free(dc); break; }
        case 5: { EVP_PKEY *p = d2i_KeyParams(t->alg, NULL, &q, mn); if (p) { vh_count("decoded", 1);
                EVP_PKEY_CTX *kc = EVP_PKEY_CTX_new(p, NULL); EVP_PKEY *nk = NULL; if (kc && EVP_PKEY_keygen_init(kc) > 0 && EVP_PKEY_keygen(kc, &nk) > 0) use_key(nk, from);
                u8 *o = NULL; i2d_KeyParams(p, &o); OPENSSL_free(o); BIO *b = BIO_new(BIO_s_mem()); EVP_PKEY_print_params(b, p, 0, NULL); EVP_PKEY_print_public(b, p, 0, NULL); EVP_PKEY_print_private(b, p, 0, NULL); BIO_free(b);
                EVP_PKEY_free(nk); EVP_PKEY_CTX_free(kc); } else vh_count("undecodable", 1); EVP_PKEY_free(p); break; }
        case 6: { X509 *x = d2i_X509(NULL, &q, mn); if (x) {
                EVP_PKEY *p = X509_get0_pubkey(x); vh_count("decoded", 1);
                int v = X509_verify(x, chance(1, 2) && p ? p : k.pk); (void)v;
                if (p) use_key(p, from);
                BIO *b = BIO_new(BIO_s_mem()); X509_print_ex(b, x, 0, 0); BIO_free(b); ERR_clear_error();
                } else vh_count("undecodable", 1); X509_free(x); break; }
        case 7: case 8: run_cms(m, mn, k.pk, xc, NULL); break;
        case 9: { PKCS12 *p = d2i_PKCS12(NULL, &q, mn); if (p) { EVP_PKEY *pk = NULL; X509 *x = NULL; vh_count("decoded", 1); PKCS12_verify_mac(p, "pw", 2); if (PKCS12_parse(p, "pw", &pk, &x, NULL) && pk) use_key(pk, from); EVP_PKEY_free(pk); X509_free(x); } else vh_count("undecodable", 1); PKCS12_free(p); break; }
        case 10: { int ki = rn(nfk), rc = -1;
            for (int z = 0; z < nfc; z++) if (EVP_PKEY_eq(X509_get0_pubkey(fcert[z]), fkey[ki]) == 1) rc = z;
            X509 *peer = fcert[rn(nfc)];
            ERR_clear_error();
            run_cms(m, mn, fkey[ki], rc >= 0 ? fcert[rc] : NULL, peer); break; }
        }
        ERR_clear_error();
        vh_sig("f|%d.%d|%s|%s", kind, sub, t->pset, what);
        free(m); m = NULL;
    }
    vh_count("mutants", rounds);
    if (chance(1, 20)) vh_sample("kind %d.%d %s last change %s", kind, sub, t->pset, what);
    free(seed); X509_free(xc); pk_free(&k); pk_free(&k2);
}
static void pset(void) { pk_setup(); par_setup(); (void)is_crypt; (void)cds; (void)cph; (void)sboxes; (void)ciphers_setup; (void)bcbs; }
const vh_workload vh_workloads[] = { {"params", params_case, pset, NULL}, {"fuzz", fuzz_case, fuzz_setup, fuzz_done}, {0} };
