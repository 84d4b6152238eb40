/* P25: CMS, PKCS#12, X.509 and TLS made and read through libcrypto and libssl, with alterations on the way. */
#include "pk.h"
#include <openssl/cms.h>
#include <openssl/ssl.h>
#include <openssl/pem.h>
#include <openssl/pkcs12.h>
#include <openssl/x509v3.h>
#include <openssl/hmac.h>
#include <openssl/asn1t.h>
#include <glob.h>
static const char *vdata(const char *f) { static char b[1024]; const char *d = getenv("VDATA"); HARN(d); snprintf(b, sizeof b, "%s%s", d, f); return b; }

/* ------------------------------------------------------------ certificates */
static long serial;
static X509 *mkcert(const char *cn, EVP_PKEY *pub, X509 *icert, EVP_PKEY *ikey, const pk_type *it, int ca)
{
    X509 *x = X509_new(); X509_NAME *n; X509V3_CTX vc; X509_EXTENSION *e;
    ENG(x && X509_set_version(x, 2) && ASN1_INTEGER_set(X509_get_serialNumber(x), ++serial) && X509_gmtime_adj(X509_getm_notBefore(x), -86400) && X509_gmtime_adj(X509_getm_notAfter(x), 86400 * 365));
    n = X509_get_subject_name(x);
    ENG(X509_NAME_add_entry_by_txt(n, "CN", MBSTRING_ASC, (const u8 *)cn, -1, -1, 0) && X509_NAME_add_entry_by_txt(n, "O", MBSTRING_UTF8, (const u8 *)"\xd0\x93\xd0\x9e\xd0\xa1\xd0\xa2", -1, -1, 0));
    ENG(X509_set_issuer_name(x, icert ? X509_get_subject_name(icert) : n));
    ENG(X509_set_pubkey(x, pub));
    X509V3_set_ctx(&vc, icert ? icert : x, x, NULL, NULL, 0);
    ENG(e = X509V3_EXT_conf_nid(NULL, &vc, NID_basic_constraints, ca ? "critical,CA:TRUE" : "CA:FALSE")); ENG(X509_add_ext(x, e, -1)); X509_EXTENSION_free(e);
    ENG(e = X509V3_EXT_conf_nid(NULL, &vc, NID_subject_key_identifier, "hash")); ENG(X509_add_ext(x, e, -1)); X509_EXTENSION_free(e);
    ENG(X509_sign(x, ikey, pk_md(it)) > 0);
    /* as it comes off the wire */
    u8 *d = NULL; int l; const u8 *p; ENG((l = i2d_X509(x, &d)) > 0); X509_free(x); p = d; ENG(x = d2i_X509(NULL, &p, l)); OPENSSL_free(d);
    return x;
}
static int chain_ok(X509 *x, X509 *root, STACK_OF(X509) *inter)
{
    X509_STORE *st = X509_STORE_new(); X509_STORE_CTX *c = X509_STORE_CTX_new(); int r;
    HARN(st && c && X509_STORE_add_cert(st, root));
    ENG(X509_STORE_CTX_init(c, st, x, inter));
    X509_STORE_CTX_set_flags(c, X509_V_FLAG_CHECK_SS_SIGNATURE);
    r = X509_verify_cert(c);
    X509_STORE_CTX_free(c); X509_STORE_free(st); ERR_clear_error();
    return r == 1;
}
static int tbs_same(X509 *a, X509 *b)
{
    u8 *x = NULL, *y = NULL; int l = i2d_re_X509_tbs(a, &x), m = i2d_re_X509_tbs(b, &y), r = l == m && l > 0 && !memcmp(x, y, l); OPENSSL_free(x); OPENSSL_free(y); return r;
}
static void alter(u8 *p, size_t n, size_t *at) { *at = rn(n); switch (rn(3)) { case 0: p[*at] ^= 1 << rn(8); break; case 1: p[*at] += 1 + rn(255); break; default: p[*at] ^= 0xff; } }
static void x509_case(void)
{
    pk_key kr, ki, kl; X509 *root, *inter, *leaf, *bad; STACK_OF(X509) *sk = sk_X509_new_null(); u8 *d = NULL, *m; int l; const u8 *p; size_t at; char w[120];
    pk_make(&kr, pk_rtype()); pk_make(&ki, pk_rtype()); pk_make(&kl, pk_rtype());
    snprintf(w, sizeof w, "%s(%d) %s(%d) %s(%d)", kr.t->pset, kr.n, ki.t->pset, ki.n, kl.t->pset, kl.n);
    root = mkcert("root", kr.pk, NULL, kr.pk, kr.t, 1); inter = mkcert("inter", ki.pk, root, kr.pk, kr.t, 1); leaf = mkcert("leaf", kl.pk, inter, ki.pk, ki.t, 0);
    sk_X509_push(sk, inter);
    if (!chain_ok(leaf, root, sk)) vh_viol("chain-refused", "%s", w);
    if (X509_check_private_key(leaf, kl.pk) != 1) vh_viol("key-mismatch", "%s", w);
    vh_count("chains", 1); vh_sig("chain|%s|%s|%s", kr.t->pset, ki.t->pset, kl.t->pset); vh_sample("chain %s", w);
    /* a certificate signed by someone else with the same name */
    { pk_key ko; X509 *f; pk_make(&ko, ki.t); f = mkcert("leaf", kl.pk, inter, ko.pk, ko.t, 0); if (BN_cmp(ko.d, ki.d) && chain_ok(f, root, sk)) vh_viol("forged-chain", "%s", w); X509_free(f); pk_free(&ko); vh_count("forgeries", 1); }
    ENG((l = i2d_X509(leaf, &d)) > 0); m = malloc(l);
    for (int i = 0; i < 12; i++) {
        memcpy(m, d, l); alter(m, l, &at); p = m; bad = d2i_X509(NULL, &p, l);
        if (bad) { if (chain_ok(bad, root, sk) && !tbs_same(bad, leaf)) vh_viol("altered-certificate", "%s octet %zu %02x->%02x", w, at, d[at], m[at]); vh_count("altered", 1); } else vh_count("altered_undecodable", 1);
        X509_free(bad);
    }
    OPENSSL_free(d); d = NULL; free(m);
    /* request */
    X509_REQ *q = X509_REQ_new(), *q2; ENG(q && X509_REQ_set_version(q, 0) && X509_NAME_add_entry_by_txt(X509_REQ_get_subject_name(q), "CN", MBSTRING_ASC, (const u8 *)"req", -1, -1, 0) && X509_REQ_set_pubkey(q, kl.pk) && X509_REQ_sign(q, kl.pk, pk_md(kl.t)) > 0);
    ENG((l = i2d_X509_REQ(q, &d)) > 0); m = malloc(l); p = d; ENG(q2 = d2i_X509_REQ(NULL, &p, l));
    EVP_PKEY *pub; ENG(pub = X509_REQ_get_pubkey(q2)); if (X509_REQ_verify(q2, pub) != 1) vh_viol("request-refused", "%s", w); if (EVP_PKEY_eq(pub, kl.pk) != 1) vh_viol("key-mismatch", "request %s", w); EVP_PKEY_free(pub); X509_REQ_free(q2);
    for (int i = 0; i < 4; i++) {
        memcpy(m, d, l); alter(m, l, &at); p = m;
        if ((q2 = d2i_X509_REQ(NULL, &p, l))) {
            u8 *x = NULL, *y = NULL; int a = i2d_re_X509_REQ_tbs(q2, &x), b = i2d_re_X509_REQ_tbs(q, &y);
            if ((pub = X509_REQ_get_pubkey(q2)) && X509_REQ_verify(q2, pub) == 1 && (a != b || memcmp(x, y, a))) vh_viol("altered-request", "%s octet %zu %02x->%02x", w, at, d[at], m[at]);
            EVP_PKEY_free(pub); OPENSSL_free(x); OPENSSL_free(y); vh_count("altered", 1); X509_REQ_free(q2);
        }
        ERR_clear_error();
    }
    OPENSSL_free(d); d = NULL; free(m); X509_REQ_free(q);
    /* revocation list */
    X509_CRL *cr = X509_CRL_new(), *c2; X509_REVOKED *rv = X509_REVOKED_new(); ASN1_TIME *tm = X509_gmtime_adj(NULL, -100);
    ENG(cr && X509_CRL_set_version(cr, 1) && X509_CRL_set_issuer_name(cr, X509_get_subject_name(inter)) && X509_CRL_set1_lastUpdate(cr, tm) && X509_REVOKED_set_serialNumber(rv, X509_get_serialNumber(leaf)) && X509_REVOKED_set_revocationDate(rv, tm) && X509_CRL_add0_revoked(cr, rv) && X509_CRL_sign(cr, ki.pk, pk_md(ki.t)) > 0);
    ENG((l = i2d_X509_CRL(cr, &d)) > 0); m = malloc(l); p = d; ENG(c2 = d2i_X509_CRL(NULL, &p, l)); if (X509_CRL_verify(c2, X509_get0_pubkey(inter)) != 1) vh_viol("crl-refused", "%s", w); X509_CRL_free(c2);
    for (int i = 0; i < 4; i++) {
        memcpy(m, d, l); alter(m, l, &at); p = m;
        if ((c2 = d2i_X509_CRL(NULL, &p, l))) {
            u8 *x = NULL, *y = NULL; int a = i2d_re_X509_CRL_tbs(c2, &x), b = i2d_re_X509_CRL_tbs(cr, &y);
            if (X509_CRL_verify(c2, X509_get0_pubkey(inter)) == 1 && (a != b || memcmp(x, y, a))) vh_viol("altered-crl", "%s octet %zu %02x->%02x", w, at, d[at], m[at]);
            OPENSSL_free(x); OPENSSL_free(y); vh_count("altered", 1); X509_CRL_free(c2);
        }
        ERR_clear_error();
    }
    OPENSSL_free(d); free(m); X509_CRL_free(cr); ASN1_TIME_free(tm);
    sk_X509_free(sk); X509_free(root); X509_free(inter); X509_free(leaf); pk_free(&kr); pk_free(&ki); pk_free(&kl);
}
/* ------------------------------------------------------------ CMS */
static int cms_der(CMS_ContentInfo *c, u8 **d) { *d = NULL; return i2d_CMS_ContentInfo(c, d); }
static CMS_ContentInfo *cms_rd(const u8 *d, int l) { const u8 *p = d; return d2i_CMS_ContentInfo(NULL, &p, l); }
/* 1: processed, content in o */
static int same(BIO *o, const u8 *b, size_t n) { char *p; long l = BIO_get_mem_data(o, &p); return l == (long)n && (!n || !memcmp(p, b, n)); }
static void sign_case(void)
{
    int ns = 1 + rn(3), fl = CMS_BINARY | (chance(1, 3) ? CMS_NOATTR : 0) | (chance(1, 4) ? CMS_USE_KEYID : 0) | (chance(1, 4) ? CMS_NOSMIMECAP : 0), det = chance(1, 3), n = rlen(3000), l; pk_key ca, k[3]; X509 *root, *x[3]; u8 in[3000], *d, *m; char w[200] = ""; BIO *bi, *o; CMS_ContentInfo *c; size_t at;
    rcontent(in, n);
    pk_make(&ca, pk_rtype()); root = mkcert("root", ca.pk, NULL, ca.pk, ca.t, 1);
    X509_STORE *st = X509_STORE_new(); X509_STORE_add_cert(st, root);
    for (int i = 0; i < ns; i++) { pk_make(&k[i], pk_rtype()); x[i] = mkcert("signer", k[i].pk, root, ca.pk, ca.t, 0); snprintf(w + strlen(w), sizeof w - strlen(w), "%s(%d) ", k[i].t->pset, k[i].n); }
    if (det) fl |= CMS_DETACHED;
    ENG(c = CMS_sign(NULL, NULL, NULL, NULL, fl | CMS_PARTIAL));
    for (int i = 0; i < ns; i++) ENG(CMS_add1_signer(c, x[i], k[i].pk, chance(1, 2) ? NULL : pk_md(k[i].t), fl));
    bi = BIO_new_mem_buf(in, n); ENG(CMS_final(c, bi, NULL, fl)); BIO_free(bi);
    ENG((l = cms_der(c, &d)) > 0); CMS_ContentInfo_free(c);
    vh_sig("signed|%d|%s|%d%d", ns, k[0].t->pset, det, !!(fl & CMS_NOATTR)); vh_sample("signed by %s, %d octets, detached %d", w, n, det);
    int vf = CMS_BINARY | (chance(1, 2) ? CMS_NO_SIGNER_CERT_VERIFY : 0);
    m = malloc(l); u8 *in2 = malloc(n + 1);
    for (int i = -1; i < 14; i++) {
        int ok, alt = 0;
        memcpy(m, d, l); memcpy(in2, in, n);
        if (i >= 0) { if (det && n && chance(1, 4)) { alter(in2, n, &at); alt = 2; } else { alter(m, l, &at); alt = 1; } }
        o = BIO_new(BIO_s_mem()); bi = BIO_new_mem_buf(in2, n);
        c = cms_rd(m, l);
        ok = c && CMS_verify(c, NULL, st, det ? bi : NULL, o, vf) > 0;
        if (!alt && (!ok || !same(o, in, n))) vh_viol("signed-refused", "%s flags %x: %s", w, fl, vh_eng_reason());
        if (alt == 1 && ok && !same(o, in, n)) vh_viol("signed-altered", "%s octet %zu %02x->%02x: other content is accepted", w, at, d[at], m[at]);
        if (alt == 2 && ok) vh_viol("signed-altered", "%s octet %zu of the detached content", w, at);
        if (alt) vh_count(!c ? "altered_undecodable" : ok ? "altered_harmless" : "altered_refused", 1); else vh_count("signed", 1);
        CMS_ContentInfo_free(c); BIO_free(o); BIO_free(bi); ERR_clear_error();
    }
    free(m); free(in2); OPENSSL_free(d); X509_STORE_free(st); X509_free(root); pk_free(&ca);
    for (int i = 0; i < ns; i++) { X509_free(x[i]); pk_free(&k[i]); }
}
static const struct { const char *n; int mac; } ecs[] = { {"gost89", 0}, {"magma-ctr-acpkm", 0}, {"magma-ctr-acpkm-omac", 8}, {"kuznyechik-ctr-acpkm", 0}, {"kuznyechik-ctr-acpkm-omac", 16} };
static int cms_dec(const u8 *d, int l, EVP_PKEY *k, X509 *x, const u8 *in, int n, int fl, int *eq)
{
    CMS_ContentInfo *c = cms_rd(d, l); BIO *o = BIO_new(BIO_s_mem()); int r = c ? (CMS_decrypt(c, k, x, NULL, o, fl) > 0) : -1;
    *eq = r > 0 && same(o, in, n);
    CMS_ContentInfo_free(c); BIO_free(o); return r;
}
static void env_case(void)
{
    int e = rn(5), nr = 1 + rn(3), n = rlen(5000), l, eq; pk_key k[3], other; X509 *x[3]; u8 in[5000], *d, *m; const EVP_CIPHER *ci; char w[400] = ""; BIO *bi; CMS_ContentInfo *c; size_t at; STACK_OF(X509) *sk = sk_X509_new_null();
    rcontent(in, n); ENG(ci = EVP_get_cipherbyname(ecs[e].n));
    for (int i = 0; i < nr; i++) { pk_make(&k[i], pk_rtype()); x[i] = mkcert("recipient", k[i].pk, NULL, k[i].pk, k[i].t, 0); sk_X509_push(sk, x[i]); snprintf(w + strlen(w), sizeof w - strlen(w), "%s(%d) ", k[i].t->pset, k[i].n); }
    snprintf(w + strlen(w), sizeof w - strlen(w), "%s %d octets", ecs[e].n, n);
    bi = BIO_new_mem_buf(in, n);
    if (chance(1, 2)) { ENG(c = CMS_encrypt(sk, bi, ci, CMS_BINARY | (chance(1, 3) ? CMS_USE_KEYID : 0))); }
    else {
        /* recipients added one by one; with parameters the transport algorithm can be chosen */
        ENG(c = CMS_encrypt(NULL, NULL, ci, CMS_BINARY | CMS_PARTIAL));
        for (int i = 0; i < nr; i++) {
            int par = chance(2, 3), tc = rn(4); CMS_RecipientInfo *ri; X509_ALGOR *al = NULL;
            static const char *const tcn[] = { NULL, "magma-ctr-acpkm", "kuznyechik-ctr-acpkm", "gost89" };
            if (tc && tc < 3 && k[i].t->alg == NID_id_GostR3410_2001) tc = 3;     /* no KExp15 transport for 2001 keys */
            ENG(ri = CMS_add1_recipient_cert(c, x[i], (par ? CMS_KEY_PARAM : 0) | (chance(1, 3) ? CMS_USE_KEYID : 0)));
            if (par && tc) ENG(EVP_PKEY_CTX_ctrl(CMS_RecipientInfo_get0_pkey_ctx(ri), -1, EVP_PKEY_OP_ENCRYPT, EVP_PKEY_CTRL_CIPHER, OBJ_sn2nid(chance(1, 2) && tc < 3 ? (tc == 1 ? "magma-ctr" : "kuznyechik-ctr") : tcn[tc]), NULL) > 0);
            snprintf(w + strlen(w), sizeof w - strlen(w), " %s%s", par ? "param:" : "plain", par ? tcn[tc] ? tcn[tc] : "default" : "");
            vh_sig("recipient|%d|%s|%s", par, k[i].t->pset, par && tc ? tcn[tc] : "default"); vh_count(par && tc && tc < 3 ? "kexp15_recipients" : "vko_recipients", 1);
            ENG(CMS_RecipientInfo_ktri_get0_algs(ri, NULL, NULL, &al) > 0);
        }
        ENG(CMS_final(c, bi, NULL, CMS_BINARY) > 0);
    }
    BIO_free(bi);
    ENG((l = cms_der(c, &d)) > 0);
    /* encrypted content */
    vh_sig("enveloped|%s|%d|%s", ecs[e].n, nr, k[0].t->pset); vh_sample("enveloped %s", w);
    if (n > 32 && memmem(d, l, in, n)) vh_viol("in-clear", "%s", w);
    for (int i = 0; i < nr; i++) for (int wc = 0; wc < 2; wc++) {
        int r = cms_dec(d, l, k[i].pk, wc ? x[i] : NULL, in, n, CMS_BINARY, &eq);
        if (r <= 0 || !eq) vh_viol("enveloped-lost", "%s recipient %d certificate %d result %d: %s", w, i, wc, r, vh_eng_reason());
        vh_count("enveloped_read", 1); ERR_clear_error();
    }
    pk_make(&other, k[0].t);
    if (BN_cmp(other.d, k[0].d) && (cms_dec(d, l, other.pk, NULL, in, n, CMS_BINARY, &eq), eq) && n > 8) vh_viol("other-key", "%s: another key gives the content", w);
    ERR_clear_error();
    pk_free(&other);
    m = malloc(l);
    for (int i = 0; i < 10; i++) {
        memcpy(m, d, l); alter(m, l, &at);
        int j = rn(nr), wc = chance(1, 2), r = cms_dec(m, l, k[j].pk, wc ? x[j] : NULL, in, n, CMS_BINARY | (chance(1, 2) ? CMS_DEBUG_DECRYPT : 0), &eq);
        if (ecs[e].mac && r > 0 && !eq) {
            /* the algorithm identifier itself may have lost its MAC */
            CMS_ContentInfo *cc = cms_rd(m, l); u8 *dd; int ll = cms_der(cc, &dd), has; const ASN1_OBJECT *ob = OBJ_nid2obj(EVP_CIPHER_nid(ci)); u8 *od = NULL; int on = i2d_ASN1_OBJECT(ob, &od);
            has = memmem(dd, ll, od, on) != NULL; OPENSSL_free(od); OPENSSL_free(dd); CMS_ContentInfo_free(cc);
            if (has) vh_viol("enveloped-altered", "%s octet %zu %02x->%02x: other content is accepted", w, at, d[at], m[at]);
        }
        vh_count(r < 0 ? "altered_undecodable" : r > 0 && eq ? "altered_harmless" : r > 0 ? "altered_garbled" : "altered_refused", 1);
        ERR_clear_error();
    }
    /* the last octets of an authenticated message: content and MAC */
    if (ecs[e].mac) for (int i = 0; i < 6; i++) {
        memcpy(m, d, l); size_t a; a = l - 1 - rn(ecs[e].mac + 4 < l ? (i & 1 ? ecs[e].mac : ecs[e].mac + n) : l); m[a] ^= 1 << rn(8);
        int r = cms_dec(m, l, k[0].pk, x[0], in, n, CMS_BINARY, &eq);
        if (r > 0 && !eq) { CMS_ContentInfo *cc = cms_rd(m, l); vh_viol("enveloped-altered", "%s octet %zu from the end", w, l - a); CMS_ContentInfo_free(cc); }
        if (r > 0 && l - a <= (size_t)ecs[e].mac) vh_viol("enveloped-mac", "%s octet %zu from the end: a wrong MAC is accepted", w, l - a);
        vh_count("altered_authenticated", 1); ERR_clear_error();
    }
    free(m); OPENSSL_free(d); CMS_ContentInfo_free(c); sk_X509_free(sk);
    for (int i = 0; i < nr; i++) { X509_free(x[i]); pk_free(&k[i]); }
}
static void misc_case(void)
{
    int n = rlen(4000), l, e = rn(5), r; u8 in[4000], key[32], *d, *m; size_t at; CMS_ContentInfo *c; BIO *bi, *o; static const char *const mds[] = { "md_gost94", "md_gost12_256", "md_gost12_512" }; int h = rn(3);
    rcontent(in, n); rbytes(key, 32);
    /* digested */
    bi = BIO_new_mem_buf(in, n); ENG(c = CMS_digest_create(bi, EVP_get_digestbyname(mds[h]), CMS_BINARY)); BIO_free(bi); ENG((l = cms_der(c, &d)) > 0); CMS_ContentInfo_free(c); m = malloc(l);
    for (int i = -1; i < 8; i++) {
        memcpy(m, d, l); if (i >= 0) alter(m, l, &at);
        o = BIO_new(BIO_s_mem()); c = cms_rd(m, l); r = c && OBJ_obj2nid(CMS_get0_type(c)) == NID_pkcs7_digest && CMS_digest_verify(c, NULL, o, CMS_BINARY) > 0;
        if (i < 0 && (!r || !same(o, in, n))) vh_viol("digested-refused", "%s %d octets", mds[h], n);
        if (i >= 0 && r && !same(o, in, n)) vh_viol("digested-altered", "%s octet %zu %02x->%02x", mds[h], at, d[at], m[at]);
        CMS_ContentInfo_free(c); BIO_free(o); ERR_clear_error(); vh_count("digested", 1);
    }
    free(m); OPENSSL_free(d);
    /* encrypted with a shared key */
    while (ecs[e].mac) e = rn(5);       /* libcrypto keeps no MAC in EncryptedData */
    const EVP_CIPHER *ci; ENG(ci = EVP_get_cipherbyname(ecs[e].n));
    bi = BIO_new_mem_buf(in, n); c = CMS_EncryptedData_encrypt(bi, ci, key, 32, CMS_BINARY); BIO_free(bi); ENG(c); ENG((l = cms_der(c, &d)) > 0); CMS_ContentInfo_free(c); m = malloc(l);
    for (int i = -1; i < 8; i++) {
        u8 k2[32]; memcpy(k2, key, 32); memcpy(m, d, l); int wrongkey = i >= 0 && chance(1, 4); if (wrongkey) { k2[rn(32)] ^= 1 << rn(8); } else if (i >= 0) { if (ecs[e].mac && chance(1, 2)) { at = l - 1 - rn(ecs[e].mac); m[at] ^= 1 << rn(8); } else alter(m, l, &at); }
        o = BIO_new(BIO_s_mem()); c = cms_rd(m, l); r = c && OBJ_obj2nid(CMS_get0_type(c)) == NID_pkcs7_encrypted && CMS_EncryptedData_decrypt(c, k2, 32, NULL, o, CMS_BINARY) > 0;
        if (i < 0 && (!r || !same(o, in, n))) vh_viol("encrypted-lost", "%s %d octets: %s", ecs[e].n, n, vh_eng_reason());
        if (i >= 0 && r && ecs[e].mac && wrongkey) vh_viol("encrypted-wrong-key", "%s %d octets", ecs[e].n, n);
        if (i >= 0 && r && ecs[e].mac && !wrongkey && !same(o, in, n)) {
            u8 *dd; int ll = cms_der(c, &dd), on, has; u8 *od = NULL; on = i2d_ASN1_OBJECT(OBJ_nid2obj(EVP_CIPHER_nid(ci)), &od); has = memmem(dd, ll, od, on) != NULL; OPENSSL_free(od); OPENSSL_free(dd);
            if (has) vh_viol("encrypted-altered", "%s octet %zu of %d %02x->%02x", ecs[e].n, at, l, d[at], m[at]);
        }
        CMS_ContentInfo_free(c); BIO_free(o); ERR_clear_error(); vh_count("encrypted", 1);
    }
    free(m); OPENSSL_free(d);
    vh_sig("misc|%s|%s|%d", mds[h], ecs[e].n, n / 512);
}
/* ------------------------------------------------------------ published messages */
ASN1_ITEM_TEMPLATE(CMS_Attributes_Verify_) = ASN1_EX_TEMPLATE_TYPE(ASN1_TFLG_SET_OF, 0, CMS_Attributes_Verify_, X509_ATTRIBUTE) ASN1_ITEM_TEMPLATE_END(CMS_Attributes_Verify_)
static struct { char name[60]; u8 *p; int n, cms; EVP_PKEY *key; X509 *x; } fs[40]; static int nfs; static u8 sym[32], *plain; static long plainl;
static EVP_PKEY *fkey(const char *n) { for (int i = 0; i < nfs; i++) if (!strcmp(fs[i].name, n)) return fs[i].key; vh_fatal("%s", n); }
static X509 *fcert(const char *n) { for (int i = 0; i < nfs; i++) if (!strcmp(fs[i].name, n)) return fs[i].x; vh_fatal("%s", n); }
static void kat_setup(void)
{
    glob_t g; pk_setup(); HARN(!glob(vdata("/tc26/*.pem"), 0, NULL, &g));
    for (size_t i = 0; i < g.gl_pathc; i++) {
        FILE *f = fopen(g.gl_pathv[i], "r"); char *nm, *hd; u8 *d; const u8 *q; long l; HARN(f && PEM_read(f, &nm, &hd, &d, &l)); fclose(f);
        snprintf(fs[nfs].name, 60, "%s", strrchr(g.gl_pathv[i], '/') + 1); q = d;
        if (strstr(nm, "PRIVATE")) ENG(fs[nfs].key = d2i_AutoPrivateKey(NULL, &q, l)); else if (strstr(nm, "CERT")) ENG(fs[nfs].x = d2i_X509(NULL, &q, l)); else { fs[nfs].cms = 1; fs[nfs].p = malloc(l); memcpy(fs[nfs].p, d, l); fs[nfs].n = l; }
        nfs++; OPENSSL_free(nm); OPENSSL_free(hd); OPENSSL_free(d);
    }
    globfree(&g);
    FILE *f = fopen(vdata("/tc26/encryption_key.hex"), "r"); char h[130] = ""; HARN(f && fgets(h, 130, f)); fclose(f); for (int i = 0; i < 32; i++) { unsigned v; HARN(sscanf(h + 2 * i, "%2x", &v) == 1); sym[31 - i] = v; }      /* the file has it as a number */
    f = fopen(vdata("/tc26/plain/text_decrypted.plain"), "r"); HARN(f); plain = malloc(10000); plainl = fread(plain, 1, 10000, f); fclose(f); HARN(plainl > 33);
}
static void kat_done(void) { while (nfs--) { free(fs[nfs].p); EVP_PKEY_free(fs[nfs].key); X509_free(fs[nfs].x); } free(plain); }
/* SEQUENCE { OID, [0] { SEQUENCE { 0, SEQUENCE { OID, AlgorithmIdentifier at 34, [0] content }, [1] { attribute } } } } */
static int encrypted_mac(const u8 *d, size_t n, BIO *o)
{
    const u8 *p = d + 34, *end = d + n, *c, *t; long l; int tag, cl, r = 0, k, f = 0; X509_ALGOR *al = d2i_X509_ALGOR(NULL, &p, end - p); u8 b[200]; STACK_OF(X509_ATTRIBUTE) *sk = NULL; EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new(); const EVP_CIPHER *ci;
    if (!al || !(ci = EVP_get_cipherbyobj(al->algorithm)) || !al->parameter) goto end;
    if ((ASN1_get_object(&p, &l, &tag, &cl, end - p) & 0x80) || tag != 0 || l > (long)sizeof b) goto end;
    c = p; p += l; t = p;
    if ((ASN1_get_object(&t, &(long){0}, &tag, &cl, end - t) & 0x80) || tag != 1) goto end;
    { u8 m[200]; size_t ml = end - p; HARN(ml <= sizeof m); memcpy(m, p, ml); m[0] = 0x31; t = m; sk = (STACK_OF(X509_ATTRIBUTE) *)ASN1_item_d2i(NULL, &t, ml, ASN1_ITEM_rptr(CMS_Attributes_Verify_)); }
    if (!sk) goto end;
    if (EVP_DecryptInit_ex(x, ci, NULL, NULL, NULL) <= 0 || EVP_CIPHER_asn1_to_param(x, al->parameter) <= 0 || EVP_CIPHER_CTX_key_length(x) != 32 || EVP_DecryptInit_ex(x, NULL, NULL, sym, NULL) <= 0) goto end;
    if ((EVP_CIPHER_flags(ci) & EVP_CIPH_FLAG_CIPHER_WITH_MAC) && EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_PROCESS_UNPROTECTED, 0, sk) <= 0) goto end;
    if (!(EVP_CIPHER_flags(ci) & EVP_CIPH_FLAG_CIPHER_WITH_MAC)) goto end;
    if (EVP_DecryptUpdate(x, b, &k, c, l) <= 0 || EVP_DecryptFinal_ex(x, b + k, &f) <= 0) goto end;
    BIO_write(o, b, k + f); r = 1;
end:
    X509_ALGOR_free(al); EVP_CIPHER_CTX_free(x); sk_X509_ATTRIBUTE_pop_free(sk, X509_ATTRIBUTE_free); ERR_clear_error();
    return r;
}
static int kat_run(int i, const u8 *d, BIO *o)
{
    CMS_ContentInfo *c = cms_rd(d, fs[i].n); int r = 0, t = c ? OBJ_obj2nid(CMS_get0_type(c)) : 0; const char *n = fs[i].name;
    if (!c) return 0;
    if (t == NID_pkcs7_signed) r = CMS_verify(c, NULL, NULL, NULL, o, CMS_NO_SIGNER_CERT_VERIFY | CMS_BINARY);
    else if (t == NID_pkcs7_digest) r = CMS_digest_verify(c, NULL, o, CMS_BINARY);
    else if (t == NID_pkcs7_encrypted && strstr(n, "a411")) r = encrypted_mac(d, fs[i].n, o);      /* libcrypto keeps no MAC in EncryptedData */
    else if (t == NID_pkcs7_encrypted) r = CMS_EncryptedData_decrypt(c, sym, 32, NULL, o, CMS_BINARY);
    else if (t == NID_pkcs7_enveloped) {
        const char *b = strstr(n, "a211") || strstr(n, "a241") ? "512" : "256"; char kn[40], xn[40], sn[40]; snprintf(kn, 40, "recipient%s_key.pem", b); snprintf(xn, 40, "recipient%s_cert.pem", b); snprintf(sn, 40, "sender%s_cert.pem", b);
        r = strstr(n, "agree") ? CMS_decrypt_set1_pkey_and_peer(c, fkey(kn), fcert(xn), fcert(sn)) : CMS_decrypt_set1_pkey(c, fkey(kn), NULL);
        if (r > 0) r = CMS_decrypt(c, NULL, NULL, NULL, o, CMS_BINARY);
    }
    CMS_ContentInfo_free(c); return r > 0;
}
static void kat_case(void)
{
    int i; do i = rn(nfs); while (!fs[i].cms);
    u8 want[100]; size_t wl; memcpy(want, plain, 33); strcpy((char *)want + 33, strstr(fs[i].name, "signed") ? "SignedData." : strstr(fs[i].name, "hashed") ? "DigestData." : strstr(fs[i].name, "key") ? "EnvelopedData." : "EncryptedData."); wl = 33 + strlen((char *)want + 33);
    u8 *m = malloc(fs[i].n); BIO *o = BIO_new(BIO_s_mem()); size_t at; int auth = !strstr(fs[i].name, "a221") && !strstr(fs[i].name, "a231") && !strstr(fs[i].name, "kuznyechik_a421");
    if (!kat_run(i, fs[i].p, o)) vh_viol("published-refused", "%s: %s", fs[i].name, vh_eng_reason());
    else if (!same(o, want, wl)) { char *p; long l = BIO_get_mem_data(o, &p); vh_viol("published-content", "%s: %ld octets, %zu expected: %s", fs[i].name, l, wl, vh_hex(p, l)); }
    BIO_free(o); ERR_clear_error(); vh_count("published", 1); vh_sig("published|%s", fs[i].name);
    for (int k = 0; k < 20; k++) {
        memcpy(m, fs[i].p, fs[i].n); alter(m, fs[i].n, &at); o = BIO_new(BIO_s_mem());
        if (kat_run(i, m, o) && auth && !same(o, want, wl)) vh_viol("published-altered", "%s octet %zu %02x->%02x", fs[i].name, at, fs[i].p[at], m[at]);
        BIO_free(o); ERR_clear_error(); vh_count("altered", 1);
    }
    free(m);
}
/* ------------------------------------------------------------ PKCS#12 */
static void p12_case(void)
{
    static const char *const cn[] = { "gost89", "magma-ctr-acpkm", "kuznyechik-ctr-acpkm", "magma-ctr-acpkm-omac", "kuznyechik-ctr-acpkm-omac" }, *const mn[] = { "md_gost94", "md_gost12_256", "md_gost12_512" };
    pk_key k; X509 *x, *x2 = NULL; EVP_PKEY *k2 = NULL; PKCS12 *p; int kc = rn(3), cc = rn(3), mi = rn(3), it = 1 + rn(20), l; u8 *d = NULL, *m; const u8 *q; char pw[40] = ""; size_t at; STACK_OF(X509) *ca = NULL; char w[200];
    int pl = rn(30); for (int i = 0; i < pl; i++) pw[i] = 33 + rn(90); pw[pl] = 0;
    char pw0[40]; strcpy(pw0, pw);
    pk_make(&k, pk_rtype()); x = mkcert("holder", k.pk, NULL, k.pk, k.t, 0);
    snprintf(w, sizeof w, "%s(%d) key %s certificate %s mac %s", k.t->pset, k.n, cn[kc], chance(1, 4) ? (cc = -1, "-") : cn[cc], mn[mi]);
    p = PKCS12_create(pw, "name", k.pk, x, NULL, EVP_CIPHER_nid(EVP_get_cipherbyname(cn[kc])), cc < 0 ? -1 : EVP_CIPHER_nid(EVP_get_cipherbyname(cn[cc])), it, -1, 0);
    ENG(p); ENG(PKCS12_set_mac(p, pw, -1, NULL, 0, it, EVP_get_digestbyname(mn[mi])));
    ENG((l = i2d_PKCS12(p, &d)) > 0); PKCS12_free(p); q = d; ENG(p = d2i_PKCS12(NULL, &q, l));
    if (PKCS12_parse(p, pw, &k2, &x2, &ca) != 1) vh_viol("p12-refused", "%s: %s", w, vh_eng_reason());
    else if (EVP_PKEY_eq(k2, k.pk) != 1 || !x2 || X509_cmp(x, x2) || BN_cmp(pk_get_d(k2), k.d)) vh_viol("p12-content", "%s", w);
    EVP_PKEY_free(k2); X509_free(x2); sk_X509_pop_free(ca, X509_free); ca = NULL; k2 = NULL; x2 = NULL;
    pw[rn(pl + 1)] ^= 1; if (pw[0]) { if (PKCS12_parse(p, pw, &k2, &x2, &ca) == 1) vh_viol("p12-wrong-password", "%s", w); EVP_PKEY_free(k2); X509_free(x2); sk_X509_pop_free(ca, X509_free); ca = NULL; }
    ERR_clear_error(); PKCS12_free(p);
    vh_count("p12", 1); vh_sig("p12|%s|%d|%d|%d", k.t->pset, kc, cc, mi); vh_sample("PKCS#12 %s", w);
    m = malloc(l); pw[0] = 0; strcpy(pw, pw0);
    for (int i = 0; i < 12; i++) {
        memcpy(m, d, l); alter(m, l, &at); q = m; k2 = NULL; x2 = NULL; ca = NULL;
        if ((p = d2i_PKCS12(NULL, &q, l))) {
            int r = PKCS12_parse(p, pw, &k2, &x2, &ca);
            if (r == 1 && (!k2 || EVP_PKEY_eq(k2, k.pk) != 1 || !x2 || X509_cmp(x, x2))) vh_viol("p12-altered", "%s octet %zu %02x->%02x", w, at, d[at], m[at]);
            vh_count(r == 1 ? "altered_harmless" : "altered_refused", 1);
            EVP_PKEY_free(k2); X509_free(x2); sk_X509_pop_free(ca, X509_free); PKCS12_free(p);
        } else vh_count("altered_undecodable", 1);
        ERR_clear_error();
    }
    OPENSSL_free(d); free(m);
    X509_free(x); pk_free(&k);
}
/* ------------------------------------------------------------ TLS */
static const struct { const char *n; int nid12; } suites[] = { {"GOST2001-GOST89-GOST89", 0}, {"GOST2001-NULL-GOST94", 0}, {"LEGACY-GOST2012-GOST8912-GOST8912", 1}, {"GOST2012-NULL-GOST12", 1}, {"IANA-GOST2012-GOST8912-GOST8912", 1}, {"GOST2012-MAGMA-MAGMAOMAC", 1}, {"GOST2012-KUZNYECHIK-KUZNYECHIKOMAC", 1} };
typedef struct { u8 *b; size_t n, cap; } buf;
static void put(buf *x, const void *p, size_t n) { if (x->n + n > x->cap) x->b = realloc(x->b, x->cap = 2 * (x->n + n) + 1000); memcpy(x->b + x->n, p, n); x->n += n; }
static struct { long at, seen; int dir, type, done; size_t pos; u8 bit; char what[80]; } tam;      /* alter the at-th record of this type and direction */
/* moves whole records from one side to the other */
static void carry(SSL *from, SSL *to, int dir, buf *q)
{
    char *p; long l = BIO_get_mem_data(SSL_get_wbio(from), &p);
    if (l > 0) { put(q, p, l); (void)BIO_reset(SSL_get_wbio(from)); }
    size_t i = 0;
    while (q->n - i >= 5) {
        size_t rl = 5 + (q->b[i + 3] << 8 | q->b[i + 4]);
        if (q->n - i < rl) break;
        u8 *r = q->b + i; vh_count("records", 1);
        if (tam.at >= 0 && tam.dir == dir && r[0] == tam.type && tam.seen++ == tam.at && rl > 5) {
            size_t k = 5 + tam.pos % (rl - 5); r[k] ^= tam.bit; tam.done = 1;
            snprintf(tam.what, sizeof tam.what, "octet %zu of %zu of record %ld type %d from %s ^%02x", k, rl, tam.at, tam.type, dir ? "server" : "client", tam.bit);
        }
        BIO_write(SSL_get_rbio(to), r, rl); i += rl;
    }
    if (i) memmove(q->b, q->b + i, q->n - i);
    q->n -= i;
}
static int pump(SSL *c, SSL *s, buf *cq, buf *sq) { size_t a = BIO_ctrl_pending(SSL_get_wbio(c)), b = BIO_ctrl_pending(SSL_get_wbio(s)); carry(c, s, 0, cq); carry(s, c, 1, sq); return a + b > 0; }
static int shake(SSL *c, SSL *s, buf *cq, buf *sq)
{
    int rc = 0, rs = 0, ce = 0, se = 0;
    for (int i = 0; i < 60; i++) {
        if (rc != 1 && !ce) { rc = SSL_do_handshake(c); if (rc != 1 && SSL_get_error(c, rc) != SSL_ERROR_WANT_READ) ce = 1; }
        if (rs != 1 && !se) { rs = SSL_do_handshake(s); if (rs != 1 && SSL_get_error(s, rs) != SSL_ERROR_WANT_READ) se = 1; }
        pump(c, s, cq, sq);
        if ((rc == 1 || ce) && (rs == 1 || se)) break;
    }
    pump(c, s, cq, sq);
    return (rc == 1) + 2 * (rs == 1);
}
/* sends data one way in records of random sizes; 1: all arrived, 0: refused, -1: something else arrived */
static int transfer(SSL *f, SSL *t, SSL *c, SSL *s, buf *cq, buf *sq, const u8 *b, size_t n, size_t rec)
{
    size_t o = 0, g = 0; static u8 r[20000]; int w, k;
    while (o < n || g < n) {
        if (o < n) { size_t m = 1 + rn(rec); if (m > n - o) m = n - o; w = SSL_write(f, b + o, m); if (w <= 0) { ERR_clear_error(); return 0; } o += w; }
        pump(c, s, cq, sq);
        while ((k = SSL_read(t, r, sizeof r)) > 0) { if (g + k > n || memcmp(r, b + g, k)) return -1; g += k; }
        if (SSL_get_error(t, k) != SSL_ERROR_WANT_READ) { ERR_clear_error(); return 0; }
        if (o >= n && g < n && !BIO_ctrl_pending(SSL_get_wbio(f))) { pump(c, s, cq, sq); while ((k = SSL_read(t, r, sizeof r)) > 0) { if (g + k > n || memcmp(r, b + g, k)) return -1; g += k; } if (g < n) return 0; }
    }
    return 1;
}
static void tls_case(void)
{
    int su = rn(7); const pk_type *t; pk_key ca, k, kc; X509 *root, *x, *xc; SSL_CTX *cc = SSL_CTX_new(TLS_client_method()), *sc = SSL_CTX_new(TLS_server_method()); SSL *c, *s; buf cq = {0}, sq = {0}; char w[200], list[100]; int r, auth = chance(1, 2);
    do t = pk_rtype(); while ((t->alg == NID_id_GostR3410_2001) != !suites[su].nid12);
    pk_make(&ca, pk_rtype()); pk_make(&k, t);
    do { pk_make(&kc, pk_rtype()); if ((kc.t->alg == NID_id_GostR3410_2001) == !suites[su].nid12) break; pk_free(&kc); } while (1);
    root = mkcert("root", ca.pk, NULL, ca.pk, ca.t, 1); x = mkcert("server", k.pk, root, ca.pk, ca.t, 0); xc = mkcert("client", kc.pk, root, ca.pk, ca.t, 0);
    SSL_CTX_set_min_proto_version(cc, TLS1_VERSION); SSL_CTX_set_max_proto_version(cc, TLS1_2_VERSION); SSL_CTX_set_max_proto_version(sc, TLS1_2_VERSION); SSL_CTX_set_min_proto_version(sc, TLS1_VERSION);
    snprintf(list, sizeof list, "%s:@SECLEVEL=0", suites[su].n);
    HARN(SSL_CTX_set_cipher_list(cc, list)); HARN(SSL_CTX_set_cipher_list(sc, "ALL:NULL:@SECLEVEL=0"));
    HARN(X509_STORE_add_cert(SSL_CTX_get_cert_store(cc), root) && X509_STORE_add_cert(SSL_CTX_get_cert_store(sc), root));
    SSL_CTX_set_verify(cc, SSL_VERIFY_PEER, NULL); if (auth) SSL_CTX_set_verify(sc, SSL_VERIFY_PEER | SSL_VERIFY_FAIL_IF_NO_PEER_CERT, NULL);
    SSL_CTX_set_session_id_context(sc, (const u8 *)"vh", 2); SSL_CTX_set_options(sc, chance(1, 2) ? SSL_OP_NO_TICKET : 0);
    snprintf(w, sizeof w, "%s server %s(%d) client %s(%d)%s", suites[su].n, t->pset, k.n, kc.t->pset, kc.n, auth ? " authenticated" : "");
    ENG(SSL_CTX_use_certificate(sc, x) > 0 && SSL_CTX_use_PrivateKey(sc, k.pk) > 0); if (auth) ENG(SSL_CTX_use_certificate(cc, xc) > 0 && SSL_CTX_use_PrivateKey(cc, kc.pk) > 0);
    SSL_SESSION *se = NULL;
    size_t n = chance(1, 6) ? 60000 : 200 + rn(6000), rec = chance(1, 3) ? 40 : chance(1, 2) ? 1500 : 20000; u8 *d = malloc(n); rcontent(d, n);
    for (int round = 0; round < 4; round++) {       /* plain, resumed, altered handshake, altered data */
        c = SSL_new(cc); s = SSL_new(sc); cq.n = sq.n = 0; tam.at = -1; tam.seen = 0; tam.done = 0;
        SSL_set_bio(c, BIO_new(BIO_s_mem()), BIO_new(BIO_s_mem())); SSL_set_bio(s, BIO_new(BIO_s_mem()), BIO_new(BIO_s_mem())); SSL_set_connect_state(c); SSL_set_accept_state(s);
        BIO_set_mem_eof_return(SSL_get_rbio(c), -1); BIO_set_mem_eof_return(SSL_get_rbio(s), -1);
        if (round == 1 && se) SSL_set_session(c, se);
        if (round == 2) { tam.at = rn(5); tam.dir = rn(2); tam.type = 22; tam.pos = rnd() >> 40; tam.bit = 1 << rn(8); }
        r = shake(c, s, &cq, &sq);
        if (round == 2 && tam.done) {
            if (r == 3) vh_viol("tls-handshake-altered", "%s: %s, and both sides are content", w, tam.what);
            vh_count("altered_handshakes", 1); vh_sig("tls-altered|%s|%d|%ld", suites[su].n, tam.dir, tam.at);
            goto next;
        }
        if (r != 3) { vh_viol("tls-refused", "%s round %d: %d %s", w, round, r, vh_eng_reason()); SSL_free(c); SSL_free(s); break; }
        if (strcmp(SSL_CIPHER_get_name(SSL_get_current_cipher(s)), suites[su].n)) vh_viol("tls-cipher", "%s", w);
        X509 *pc = SSL_get1_peer_certificate(c), *ps = SSL_get1_peer_certificate(s);
        if (!pc || X509_cmp(pc, x) || (auth && round != 1 && (!ps || X509_cmp(ps, xc)))) vh_viol("tls-peer", "%s", w);
        X509_free(pc); X509_free(ps);
        vh_count(round == 1 && SSL_session_reused(c) ? "tls_resumed" : "tls_handshakes", 1);
        if (round == 3) {
            int dir = rn(2);
            if (strstr(suites[su].n, "NULL")) vh_count("tls_null", 1);
            tam.at = rn(3); tam.seen = 0; tam.dir = dir; tam.type = 23; tam.pos = rnd() >> 40; tam.bit = 1 << rn(8);
            r = transfer(dir ? s : c, dir ? c : s, c, s, &cq, &sq, d, n, rec);
            if (tam.done) { if (r == 1 || r == -1) vh_viol("tls-data-altered", "%s: %s is accepted", w, tam.what); vh_count("altered_data", 1); }
            else if (r != 1) vh_viol("tls-data", "%s: %d", w, r);
        } else for (int dir = 0; dir < 3; dir++) {
            r = transfer(dir & 1 ? s : c, dir & 1 ? c : s, c, s, &cq, &sq, d, n, rec);
            if (r != 1) { vh_viol("tls-data", "%s dir %d round %d result %d (%zu octets in records of up to %zu)", w, dir, round, r, n, rec); break; }
            vh_count("tls_octets", n);
        }
        if (round == 0) { se = SSL_get1_session(c); SSL_shutdown(c); SSL_shutdown(s); }
next:
        SSL_free(c); SSL_free(s); ERR_clear_error();
    }
    vh_sig("tls|%s|%s|%s|%d", suites[su].n, t->pset, auth ? kc.t->pset : "-", rec == 40); vh_sample("TLS %s, %zu octets", w, n);
    SSL_SESSION_free(se); free(d); free(cq.b); free(sq.b); SSL_CTX_free(cc); SSL_CTX_free(sc); X509_free(root); X509_free(x); X509_free(xc); pk_free(&ca); pk_free(&k); pk_free(&kc);
}
static void setup(void) { pk_setup(); }
const vh_workload vh_workloads[] = { {"x509", x509_case, setup, NULL}, {"sign", sign_case, setup, NULL}, {"env", env_case, setup, NULL}, {"misc", misc_case, setup, NULL}, {"kat", kat_case, kat_setup, kat_done}, {"p12", p12_case, setup, NULL}, {"tls", tls_case, setup, NULL}, {0} };
