/* P21: several threads use the engine at once, each with contexts and keys of its own.  Observed by
 * ThreadSanitizer (the engine is instrumented; the EC_GROUP and EC_KEY functions of libcrypto, which is
 * not, are wrapped so that what they do to a shared object is an access ThreadSanitizer sees), and by
 * comparison with the same work done by one thread after another. */
#include "pk.h"
#include "tok.h"
#include <openssl/cms.h>
#include <openssl/x509.h>
#include <pthread.h>
#include <dlfcn.h>
#include <time.h>
#include <unistd.h>
#include <sched.h>
#include "gost_lcl.h"
#define MAXT 8
#define MAXOPS 24
#define OB 65536

/* ------------------------------------------------------------ accesses to libcrypto objects */
#if defined(__SANITIZE_THREAD__)
void __tsan_read8(void *p); void __tsan_write8(void *p);
# define RD(p) do { if (p) __tsan_read8((void *)(p)); } while (0)
# define WR(p) do { if (p) __tsan_write8((void *)(p)); } while (0)
void EC_GROUP_set_curve_name(EC_GROUP *g, int nid) { static void (*r)(EC_GROUP *, int); void (*q)(EC_GROUP *, int) = __atomic_load_n(&r, __ATOMIC_RELAXED); if (!q) { *(void **)&q = dlsym(RTLD_NEXT, "EC_GROUP_set_curve_name"); __atomic_store_n(&r, q, __ATOMIC_RELAXED); } WR(g); q(g, nid); }
#define W(ret, name, decl, call, acc) ret name decl { static ret (*r) decl; ret (*q) decl = __atomic_load_n(&r, __ATOMIC_RELAXED); if (!q) { *(void **)&q = dlsym(RTLD_NEXT, #name); __atomic_store_n(&r, q, __ATOMIC_RELAXED); } acc; return q call; }
W(int, EC_GROUP_get_curve_name, (const EC_GROUP *g), (g), RD(g))
W(int, EC_GROUP_set_generator, (EC_GROUP *g, const EC_POINT *p, const BIGNUM *o, const BIGNUM *c), (g, p, o, c), WR(g))
W(EC_GROUP *, EC_GROUP_dup, (const EC_GROUP *g), (g), RD(g))
W(int, EC_GROUP_get_order, (const EC_GROUP *g, BIGNUM *o, BN_CTX *c), (g, o, c), RD(g))
W(int, EC_GROUP_get_cofactor, (const EC_GROUP *g, BIGNUM *o, BN_CTX *c), (g, o, c), RD(g))
W(const EC_POINT *, EC_GROUP_get0_generator, (const EC_GROUP *g), (g), RD(g))
W(EC_POINT *, EC_POINT_new, (const EC_GROUP *g), (g), RD(g))
W(int, EC_POINT_mul, (const EC_GROUP *g, EC_POINT *o, const BIGNUM *n, const EC_POINT *q_, const BIGNUM *m, BN_CTX *c), (g, o, n, q_, m, c), RD(g))
W(int, EC_KEY_set_group, (EC_KEY *k, const EC_GROUP *g), (k, g), do { RD(g); WR(k); } while (0))
W(int, EC_KEY_set_private_key, (EC_KEY *k, const BIGNUM *d), (k, d), WR(k))
W(int, EC_KEY_set_public_key, (EC_KEY *k, const EC_POINT *p), (k, p), WR(k))
W(const EC_GROUP *, EC_KEY_get0_group, (const EC_KEY *k), (k), RD(k))
W(const BIGNUM *, EC_KEY_get0_private_key, (const EC_KEY *k), (k), RD(k))
W(const EC_POINT *, EC_KEY_get0_public_key, (const EC_KEY *k), (k), RD(k))
#endif

/* ------------------------------------------------------------ per thread state */
typedef struct {
    int id, nops, fail; uint64_t rs, drbg; u8 *b; size_t n; const char *what; char fails[120];
    int op[MAXOPS]; uint64_t par[MAXOPS]; struct timespec t0[MAXOPS], t1[MAXOPS]; size_t at[MAXOPS + 1]; long seq[MAXOPS];
} thr;
static __thread thr *me;
static uint64_t mix(uint64_t *s) { uint64_t z = (*s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static uint64_t maindrbg = 7;
static int d_bytes(unsigned char *b, int n) { uint64_t *s = me ? &me->drbg : &maindrbg; for (int i = 0; i < n; i++) b[i] = mix(s) >> 37; return 1; }
static int d_status(void) { return 1; }
static const RAND_METHOD det = {NULL, d_bytes, NULL, NULL, d_bytes, d_status};
static uint64_t r_(uint64_t n) { return mix(&me->rs) % n; }
static void rb(u8 *p, size_t n) { for (size_t i = 0; i < n; i++) p[i] = mix(&me->rs) >> 41; }
static void out(const void *p, size_t n) { if (me->n + n > OB) n = OB - me->n; if (n) memcpy(me->b + me->n, p, n); me->n += n; }
#define T(c) do { if (!(c)) { if (!me->fail++) snprintf(me->fails, sizeof me->fails, "%d: %.90s", __LINE__, #c); goto end; } } while (0)

static const EVP_CIPHER *cis[32]; static int ncis; static const EVP_MD *mds[16]; static int nmds;
static const char *cn[32], *mn[16];

static void t_digest(uint64_t p)
{
    EVP_MD_CTX *c = EVP_MD_CTX_new(); u8 b[700], d[64]; unsigned l; static const char *n[] = { SN_id_GostR3411_94, SN_id_GostR3411_2012_256, SN_id_GostR3411_2012_512 };
    T(c && EVP_DigestInit_ex(c, EVP_get_digestbyname(n[p % 3]), NULL) > 0);
    for (int i = 0; i < 4; i++) { size_t k = r_(700); rb(b, k); T(EVP_DigestUpdate(c, b, k) > 0); }
    T(EVP_DigestFinal_ex(c, d, &l) > 0); out(d, l);
end:
    EVP_MD_CTX_free(c);
}
static void t_cipher(uint64_t p)
{
    EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new(), *d = NULL; u8 b[1500], e[1600], f[1700], k[32], iv[16], tag[16]; int l, m, i = p % ncis, n, aead; const EVP_CIPHER *ci = EVP_get_cipherbyname(cn[i]);
    int nid = EVP_CIPHER_nid(cis[i]);
    if (nid == NID_magma_kexp15 || nid == NID_kuznyechik_kexp15 || nid == NID_magma_ctr_acpkm_omac || nid == NID_kuznyechik_ctr_acpkm_omac) { i = 0; ci = EVP_get_cipherbyname(cn[0]); }
    n = 16 * r_(94); rb(k, 32); rb(iv, 16); rb(b, sizeof b);
    T(c && ci); aead = !!(EVP_CIPHER_flags(ci) & EVP_CIPH_FLAG_AEAD_CIPHER);
    T(EVP_EncryptInit_ex(c, ci, NULL, k, iv) > 0);
    if (aead) T(EVP_EncryptUpdate(c, NULL, &l, b, 11) > 0);
    m = 0; int a = r_(n + 1);
    T(EVP_EncryptUpdate(c, e, &l, b, a) > 0); m += l;
    if (!aead && r_(3) == 0) { d = EVP_CIPHER_CTX_new(); T(EVP_CIPHER_CTX_copy(d, c) > 0); EVP_CIPHER_CTX_free(c); c = d; d = NULL; }
    T(EVP_EncryptUpdate(c, e + m, &l, b + a, n - a) > 0); m += l;
    T(EVP_EncryptFinal_ex(c, e + m, &l) > 0); m += l; out(e, m);
    if (aead) { T(EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_GET_TAG, EVP_CIPHER_block_size(ci) == 8 || strstr(cn[i], "agma") ? 8 : 16, tag) > 0); out(tag, 8); goto end; }
    EVP_CIPHER_CTX_reset(c);
    T(EVP_DecryptInit_ex(c, ci, NULL, k, iv) > 0); a = 0;
    T(EVP_DecryptUpdate(c, f, &l, e, m) > 0); a = l; T(EVP_DecryptFinal_ex(c, f + a, &l) > 0); a += l;
    T(a == n && !memcmp(f, b, n));
end:
    EVP_CIPHER_CTX_free(c); EVP_CIPHER_CTX_free(d);
}
static void t_omac(uint64_t p)      /* content encryption with a MAC and its parameters */
{
    const EVP_CIPHER *ci = EVP_get_cipherbynid(p & 1 ? NID_kuznyechik_ctr_acpkm_omac : NID_magma_ctr_acpkm_omac); EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new(); u8 k[32], iv[16], b[600], e[600]; int l; ASN1_TYPE *at = ASN1_TYPE_new(); STACK_OF(X509_ATTRIBUTE) *as = sk_X509_ATTRIBUTE_new_null(); u8 *dr = NULL;
    rb(k, 32); rb(iv, 16); rb(b, 600);
    T(EVP_EncryptInit_ex(c, ci, NULL, NULL, NULL) > 0 && EVP_EncryptInit_ex(c, NULL, NULL, k, iv) > 0 && EVP_CIPHER_param_to_asn1(c, at) > 0);
    T((l = i2d_ASN1_TYPE(at, &dr)) > 0); out(dr, l);
    T(EVP_EncryptUpdate(c, e, &l, b, 600) > 0); out(e, l);
    T(EVP_EncryptFinal_ex(c, e, &l) > 0);
    T(EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_PROCESS_UNPROTECTED, 1, as) > 0);
    if (sk_X509_ATTRIBUTE_num(as)) { ASN1_TYPE *v = X509_ATTRIBUTE_get0_type(sk_X509_ATTRIBUTE_value(as, 0), 0); T(v && v->type == V_ASN1_OCTET_STRING); out(v->value.octet_string->data, v->value.octet_string->length); }
end:
    OPENSSL_free(dr); ASN1_TYPE_free(at); sk_X509_ATTRIBUTE_pop_free(as, X509_ATTRIBUTE_free); EVP_CIPHER_CTX_free(c);
}
static void t_params(uint64_t p)      /* parameters of GOST 28147-89, which ask for the engine's own setting */
{
    const EVP_CIPHER *ci = EVP_get_cipherbynid(p & 1 ? NID_id_Gost28147_89 : NID_gost89_cbc); EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new(); u8 k[32], iv[8], b[64], e[80]; int l; ASN1_TYPE *at = ASN1_TYPE_new(); u8 *dr = NULL;
    rb(k, 32); rb(iv, 8); rb(b, 64);
    T(EVP_EncryptInit_ex(c, ci, NULL, k, iv) > 0 && EVP_CIPHER_param_to_asn1(c, at) > 0); T((l = i2d_ASN1_TYPE(at, &dr)) > 0); out(dr, l);
    T(EVP_EncryptUpdate(c, e, &l, b, 64) > 0); out(e, l);
end:
    OPENSSL_free(dr); ASN1_TYPE_free(at); EVP_CIPHER_CTX_free(c);
}
static const int macnids[] = { NID_id_Gost28147_89_MAC, NID_gost_mac_12, NID_magma_mac, NID_grasshopper_mac, NID_id_tc26_cipher_gostr3412_2015_kuznyechik_ctracpkm_omac };
static void t_mac(uint64_t p)
{
    static const char *dn[] = { "gost-mac", "gost-mac-12", "magma-mac", "kuznyechik-mac", SN_id_tc26_cipher_gostr3412_2015_kuznyechik_ctracpkm_omac }; int i = p % 5; EVP_PKEY_CTX *c = NULL; EVP_PKEY *k = NULL; EVP_MD_CTX *mc = EVP_MD_CTX_new(), *m2 = EVP_MD_CTX_new(); u8 kb[32], b[500], o[64]; size_t l = 64;
    rb(kb, 32); rb(b, 500);
    T(c = EVP_PKEY_CTX_new_id(macnids[i], NULL)); T(EVP_PKEY_keygen_init(c) > 0); T(EVP_PKEY_CTX_ctrl(c, -1, EVP_PKEY_OP_KEYGEN, EVP_PKEY_CTRL_SET_MAC_KEY, 32, kb) > 0); T(EVP_PKEY_keygen(c, &k) > 0);
    T(EVP_DigestSignInit(mc, NULL, EVP_get_digestbyname(dn[i]), NULL, k) > 0); T(EVP_DigestSignUpdate(mc, b, 300) > 0); T(EVP_MD_CTX_copy_ex(m2, mc) > 0); T(EVP_DigestSignUpdate(m2, b + 300, 200) > 0);
    T(EVP_DigestSignFinal(m2, o, &l) > 0); out(o, l); l = 64; T(EVP_DigestSignFinal(mc, o, &l) > 0); out(o, l);
end:
    EVP_MD_CTX_free(mc); EVP_MD_CTX_free(m2); EVP_PKEY_CTX_free(c); EVP_PKEY_free(k);
}
static EVP_PKEY *gen(const pk_type *t)
{
    EVP_PKEY_CTX *c = NULL; EVP_PKEY *k = NULL;
    T(c = EVP_PKEY_CTX_new_id(t->alg, NULL)); T(EVP_PKEY_keygen_init(c) > 0); T(EVP_PKEY_CTX_ctrl_str(c, "paramset", t->pset) > 0); T(EVP_PKEY_keygen(c, &k) > 0);
end:
    EVP_PKEY_CTX_free(c); return k;
}
static void outkey(EVP_PKEY *k)
{
    u8 *d = NULL; int l; PKCS8_PRIV_KEY_INFO *p8 = NULL; EVP_PKEY *q = NULL; const u8 *p;
    T((l = i2d_PUBKEY(k, &d)) > 0); out(d, l); p = d; T(q = d2i_PUBKEY(NULL, &p, l)); T(EVP_PKEY_eq(q, k) == 1); EVP_PKEY_free(q); q = NULL; OPENSSL_free(d); d = NULL;
    T(p8 = EVP_PKEY2PKCS8(k)); T((l = i2d_PKCS8_PRIV_KEY_INFO(p8, &d)) > 0); out(d, l); T(q = EVP_PKCS82PKEY(p8)); T(EVP_PKEY_eq(q, k) == 1);
end:
    OPENSSL_free(d); PKCS8_PRIV_KEY_INFO_free(p8); EVP_PKEY_free(q);
}
static void t_keygen(uint64_t p) { EVP_PKEY *k = gen(&pk_types[p % pk_ntypes]); if (k) outkey(k); EVP_PKEY_free(k); }
static void t_load(uint64_t p)      /* decoding of foreign keys: private, public */
{
    const pk_type *t = &pk_types[p % pk_ntypes]; u8 oct[64]; der o = {{0}, 0}; const u8 *q; EVP_PKEY *k = NULL; PKCS8_PRIV_KEY_INFO *p8 = NULL; int n = t->alg == NID_id_GostR3410_2012_512 ? 64 : 32; BIO *b = BIO_new(BIO_s_mem()); char *s; long l;
    rb(oct, n); oct[n - 1] &= 0x1f; oct[0] &= 0x1f; pk_pkcs8(t, oct, n, p / 64 % 4, &o); q = o.b;
    T(p8 = d2i_PKCS8_PRIV_KEY_INFO(NULL, &q, o.n)); T(k = EVP_PKCS82PKEY(p8)); outkey(k);
    T(EVP_PKEY_print_private(b, k, 0, NULL) > 0); l = BIO_get_mem_data(b, &s); out(s, l);
end:
    BIO_free(b); EVP_PKEY_free(k); PKCS8_PRIV_KEY_INFO_free(p8);
}
static void t_sign(uint64_t p)
{
    const pk_type *t = &pk_types[p % pk_ntypes]; EVP_PKEY *k = gen(t); EVP_MD_CTX *c = EVP_MD_CTX_new(); u8 b[300], s[128]; size_t l = 128;
    static const char *n[] = { SN_id_GostR3411_94, SN_id_GostR3411_2012_256, SN_id_GostR3411_2012_512 };
    const EVP_MD *md = EVP_get_digestbyname(n[t->hash]);
    rb(b, 300); T(k && c && md);
    T(EVP_DigestSignInit(c, NULL, md, NULL, k) > 0); T(EVP_DigestSignUpdate(c, b, 300) > 0); T(EVP_DigestSignFinal(c, s, &l) > 0); out(s, l);
    EVP_MD_CTX_reset(c); T(EVP_DigestVerifyInit(c, NULL, md, NULL, k) > 0); T(EVP_DigestVerifyUpdate(c, b, 300) > 0); T(EVP_DigestVerifyFinal(c, s, l) == 1);
    s[5] ^= 1; EVP_MD_CTX_reset(c); T(EVP_DigestVerifyInit(c, NULL, md, NULL, k) > 0); T(EVP_DigestVerifyUpdate(c, b, 300) > 0); T(EVP_DigestVerifyFinal(c, s, l) != 1);
end:
    EVP_MD_CTX_free(c); EVP_PKEY_free(k);
}
static void t_derive(uint64_t p)
{
    const pk_type *t = &pk_types[p % pk_ntypes]; EVP_PKEY *a = gen(t), *b = gen(t); u8 ukm[32], x[64], y[64]; size_t l = 64, m = 64; EVP_PKEY_CTX *c = NULL; int ul = t->alg != R1 && p / 100 % 2 ? 32 : 8;
    rb(ukm, 32); T(a && b);
    T(c = EVP_PKEY_CTX_new(a, NULL)); T(EVP_PKEY_derive_init(c) > 0); T(EVP_PKEY_derive_set_peer(c, b) > 0); T(EVP_PKEY_CTX_ctrl(c, -1, -1, EVP_PKEY_CTRL_SET_IV, ul, ukm) > 0); T(EVP_PKEY_derive(c, x, &l) > 0); EVP_PKEY_CTX_free(c);
    T(c = EVP_PKEY_CTX_new(b, NULL)); T(EVP_PKEY_derive_init(c) > 0); T(EVP_PKEY_derive_set_peer(c, a) > 0); T(EVP_PKEY_CTX_ctrl(c, -1, -1, EVP_PKEY_CTRL_SET_IV, ul, ukm) > 0); T(EVP_PKEY_derive(c, y, &m) > 0);
    T(l == m && !memcmp(x, y, l)); out(x, l);
end:
    EVP_PKEY_CTX_free(c); EVP_PKEY_free(a); EVP_PKEY_free(b);
}
static void t_transport(uint64_t p)
{
    const pk_type *t = &pk_types[p % pk_ntypes]; EVP_PKEY *k = gen(t); int kind = t->alg == R1 ? 0 : p / 100 % 3; static const int kinds[] = {0, NID_magma_ctr, NID_kuznyechik_ctr}; u8 key[32], tk[600], o[64]; size_t l = 600, m = 64; EVP_PKEY_CTX *c = NULL;
    rb(key, 32); T(k);
    T(c = EVP_PKEY_CTX_new(k, NULL)); T(EVP_PKEY_encrypt_init(c) > 0); if (kind) T(EVP_PKEY_CTX_ctrl(c, -1, -1, EVP_PKEY_CTRL_CIPHER, kinds[kind], NULL) > 0);
    if (kind) { u8 u[32]; rb(u, 32); T(EVP_PKEY_CTX_ctrl(c, -1, -1, EVP_PKEY_CTRL_SET_IV, 32, u) > 0); }
    T(EVP_PKEY_encrypt(c, tk, &l, key, 32) > 0); out(tk, l); EVP_PKEY_CTX_free(c);
    T(c = EVP_PKEY_CTX_new(k, NULL)); T(EVP_PKEY_decrypt_init(c) > 0); if (kind) T(EVP_PKEY_CTX_ctrl(c, -1, -1, EVP_PKEY_CTRL_CIPHER, kinds[kind], NULL) > 0);
    T(EVP_PKEY_decrypt(c, o, &m, tk, l) > 0); T(m == 32 && !memcmp(o, key, 32));
end:
    EVP_PKEY_CTX_free(c); EVP_PKEY_free(k);
}
static void t_kdf(uint64_t p)
{
    u8 k[32], o[64], iv[8], w[48]; int wl = 48; (void)p;
    rb(k, 32); rb(iv, 8);
    T(gost_kdftree2012_256(o, 64, k, 32, k, 10, iv, 8, 1) == 1); out(o, 64);
    T(gost_tlstree(p & 1 ? NID_magma_cbc : NID_grasshopper_cbc, k, o, iv) == 1); out(o, 32);
    T(gost_kexp15(o, 32, p & 1 ? NID_magma_ctr : NID_grasshopper_ctr, k, p & 1 ? NID_magma_mac : NID_grasshopper_mac, o + 32, iv, p & 1 ? 4 : 8, w, &wl) == 1); out(w, wl);
end: ;
}
static void t_hmac(uint64_t p)
{
    u8 k[64], b[200], o[64]; unsigned l; rb(k, 64); rb(b, 200);
    T(HMAC(EVP_get_digestbyname(p & 1 ? SN_id_GostR3411_2012_256 : SN_id_GostR3411_94), k, 32 + p % 33, b, 200, o, &l)); out(o, l);
end: ;
}
static void t_ecb(uint64_t p)   /* block primitives straight */
{
    u8 k[32], b[16], o[16]; gost_ctx g; rb(k, 32); rb(b, 16); (void)p;
    gost_init(&g, p & 1 ? &Gost28147_TC26ParamSetZ : &Gost28147_CryptoProParamSetA); gost_key(&g, k); gostcrypt(&g, b, o); out(o, 8); gostdecrypt(&g, o, o); T(!memcmp(o, b, 8)); gost_destroy(&g);
end: ;
}
static void t_cms(uint64_t p)
{
    const pk_type *t = &pk_types[p % pk_ntypes]; EVP_PKEY *k = gen(t); X509 *x = X509_new(); u8 b[200]; BIO *in = NULL, *op = BIO_new(BIO_s_mem()); CMS_ContentInfo *c = NULL; char *s; long l;
    static const int ciph[] = { NID_id_Gost28147_89, NID_magma_ctr_acpkm, NID_kuznyechik_ctr_acpkm }; static const char *n[] = { SN_id_GostR3411_94, SN_id_GostR3411_2012_256, SN_id_GostR3411_2012_512 };
    rb(b, 200); T(k && x && op && (in = BIO_new_mem_buf(b, 200)));
    T(X509_set_version(x, 2) && ASN1_INTEGER_set(X509_get_serialNumber(x), 5) && X509_gmtime_adj(X509_getm_notBefore(x), -1000) && X509_gmtime_adj(X509_getm_notAfter(x), 100000) && X509_set_pubkey(x, k));
    T(X509_NAME_add_entry_by_txt(X509_get_subject_name(x), "CN", MBSTRING_ASC, (u8 *)"t", -1, -1, 0) && X509_set_issuer_name(x, X509_get_subject_name(x))); T(X509_sign(x, k, EVP_get_digestbyname(n[t->hash])) > 0); T(X509_verify(x, k) == 1);
    if (p / 64 & 1) {
        T(c = CMS_sign(x, k, NULL, in, CMS_BINARY | CMS_NOATTR)); T(CMS_verify(c, NULL, NULL, NULL, op, CMS_BINARY | CMS_NO_SIGNER_CERT_VERIFY) > 0);
    } else {
        STACK_OF(X509) *st = sk_X509_new_null(); sk_X509_push(st, x); c = CMS_encrypt(st, in, EVP_get_cipherbynid(ciph[t->alg == R1 ? 0 : p / 128 % 3]), CMS_BINARY); sk_X509_free(st);
        T(c); T(CMS_decrypt(c, k, x, NULL, op, CMS_BINARY) > 0);
    }
    l = BIO_get_mem_data(op, &s); T(l == 200 && !memcmp(s, b, 200)); out(s, l);
end:
    CMS_ContentInfo_free(c); BIO_free(in); BIO_free(op); X509_free(x); EVP_PKEY_free(k);
}

/* ------------------------------------------------------------ objects used by all threads, none of which changes them */
static EVP_PKEY *shk[2]; static const pk_type *sht[2]; static EVP_MD_CTX *shmd; static EVP_CIPHER_CTX *shci; static u8 shtk[600], shmsg[64], shsig[128]; static size_t shtkl, shsigl;
static int share_on;
static const char *hashes[] = { SN_id_GostR3411_94, SN_id_GostR3411_2012_256, SN_id_GostR3411_2012_512 };
static void share_free(void) { for (int i = 0; i < 2; i++) { EVP_PKEY_free(shk[i]); shk[i] = NULL; } EVP_MD_CTX_free(shmd); shmd = NULL; EVP_CIPHER_CTX_free(shci); shci = NULL; share_on = 0; }
static void share_make(thr *m)      /* runs before the threads */
{
    EVP_PKEY_CTX *c = NULL; EVP_MD_CTX *mc = EVP_MD_CTX_new(); u8 k[32], b[16], o[16]; int l;
    me = m; share_on = 1;
    const pk_type *t = &pk_types[r_(pk_ntypes)];
    for (int i = 0; i < 2; i++) {
        u8 oct[64]; der d = {{0}, 0}; const u8 *q; PKCS8_PRIV_KEY_INFO *p8; int n = t->alg == NID_id_GostR3410_2012_512 ? 64 : 32;
        sht[i] = t;
        if (r_(2)) { shk[i] = gen(t); }
        else { rb(oct, n); oct[n - 1] &= 0x1f; oct[0] &= 0x1f; pk_pkcs8(t, oct, n, r_(4), &d); q = d.b; if ((p8 = d2i_PKCS8_PRIV_KEY_INFO(NULL, &q, d.n))) shk[i] = EVP_PKCS82PKEY(p8); PKCS8_PRIV_KEY_INFO_free(p8); }
        ENG(shk[i]);
    }
    rb(shmsg, 64); shsigl = 128; ENG(EVP_DigestSignInit(mc, NULL, EVP_get_digestbyname(hashes[t->hash]), NULL, shk[0]) > 0 && EVP_DigestSign(mc, shsig, &shsigl, shmsg, 64) > 0); EVP_MD_CTX_free(mc);
    shtkl = 600; ENG((c = EVP_PKEY_CTX_new(shk[0], NULL)) && EVP_PKEY_encrypt_init(c) > 0 && EVP_PKEY_encrypt(c, shtk, &shtkl, shmsg, 32) > 0); EVP_PKEY_CTX_free(c);
    shmd = EVP_MD_CTX_new(); ENG(EVP_DigestInit_ex(shmd, EVP_get_digestbyname(hashes[r_(3)]), NULL) > 0 && EVP_DigestUpdate(shmd, shmsg, 37) > 0);
    rb(k, 32); rb(b, 16); shci = EVP_CIPHER_CTX_new(); { const EVP_CIPHER *ci; do ci = cis[r_(ncis)]; while (EVP_CIPHER_flags(ci) & EVP_CIPH_FLAG_AEAD_CIPHER || EVP_CIPHER_nid(ci) == NID_magma_kexp15 || EVP_CIPHER_nid(ci) == NID_kuznyechik_kexp15 || EVP_CIPHER_nid(ci) == NID_magma_ctr_acpkm_omac || EVP_CIPHER_nid(ci) == NID_kuznyechik_ctr_acpkm_omac);
    ENG(EVP_EncryptInit_ex(shci, ci, NULL, k, b) > 0 && EVP_EncryptUpdate(shci, o, &l, shmsg, 11) > 0); }
    me = NULL;
}
static void t_shared(uint64_t p)
{
    EVP_MD_CTX *c = NULL; EVP_PKEY_CTX *k = NULL; u8 x[600], ukm[32]; size_t l = 128; unsigned u; int n, n2; BIO *b = NULL; char *s; long sl; EVP_CIPHER_CTX *e = NULL; u8 *dr = NULL; EVP_PKEY *cp = NULL;
    if (!share_on) { t_sign(p); return; }
    switch (p % 9) {
    case 0: T((c = EVP_MD_CTX_new()) && EVP_DigestSignInit(c, NULL, EVP_get_digestbyname(hashes[sht[0]->hash]), NULL, shk[0]) > 0 && EVP_DigestSign(c, x, &l, shmsg, 64) > 0); out(x, l); break;
    case 1: T((c = EVP_MD_CTX_new()) && EVP_DigestVerifyInit(c, NULL, EVP_get_digestbyname(hashes[sht[0]->hash]), NULL, shk[0]) > 0 && EVP_DigestVerify(c, shsig, shsigl, shmsg, 64) == 1); out("v", 1); break;
    case 2: rb(ukm, 8); l = 64; T((k = EVP_PKEY_CTX_new(shk[p / 16 & 1], NULL)) && EVP_PKEY_derive_init(k) > 0 && EVP_PKEY_derive_set_peer(k, shk[!(p / 16 & 1)]) > 0 && EVP_PKEY_CTX_ctrl(k, -1, -1, EVP_PKEY_CTRL_SET_IV, 8, ukm) > 0 && EVP_PKEY_derive(k, x, &l) > 0); out(x, l); break;
    case 3: l = 32; T((k = EVP_PKEY_CTX_new(shk[0], NULL)) && EVP_PKEY_decrypt_init(k) > 0 && EVP_PKEY_decrypt(k, x, &l, shtk, shtkl) > 0 && l == 32 && !memcmp(x, shmsg, 32)); out(x, l); break;
    case 4: l = 600; T((k = EVP_PKEY_CTX_new(shk[1], NULL)) && EVP_PKEY_encrypt_init(k) > 0 && EVP_PKEY_encrypt(k, x, &l, shmsg, 32) > 0); out(x, l); break;
    case 5: b = BIO_new(BIO_s_mem()); T(EVP_PKEY_print_private(b, shk[p / 16 & 1], 0, NULL) > 0 && EVP_PKEY_print_params(b, shk[0], 0, NULL) > 0); sl = BIO_get_mem_data(b, &s); out(s, sl); break;
    case 6: T((n = i2d_PrivateKey(shk[p / 16 & 1], &dr)) > 0); out(dr, n); OPENSSL_free(dr); dr = NULL; T((n = i2d_PUBKEY(shk[0], &dr)) > 0); out(dr, n); T(EVP_PKEY_eq(shk[0], shk[0]) == 1 && EVP_PKEY_eq(shk[0], shk[1]) != 1 && EVP_PKEY_size(shk[0]) > 0 && EVP_PKEY_bits(shk[0]) > 0);
            T((cp = EVP_PKEY_new()) && EVP_PKEY_copy_parameters(cp, shk[0]) > 0); break;
    case 7: T((c = EVP_MD_CTX_new()) && EVP_MD_CTX_copy_ex(c, shmd) > 0); rb(ukm, 32); T(EVP_DigestUpdate(c, ukm, 32) > 0 && EVP_DigestFinal_ex(c, x, &u) > 0); out(x, u); break;
    case 8: T((e = EVP_CIPHER_CTX_new()) && EVP_CIPHER_CTX_copy(e, shci) > 0); rb(ukm, 32); T(EVP_EncryptUpdate(e, x, &n, ukm, 32) > 0 && EVP_EncryptFinal_ex(e, x + n, &n2) > 0); out(x, n + n2); break;
    }
end:
    EVP_MD_CTX_free(c); EVP_PKEY_CTX_free(k); BIO_free(b); EVP_CIPHER_CTX_free(e); OPENSSL_free(dr); EVP_PKEY_free(cp);
}
static const struct { const char *name; void (*f)(uint64_t); } tops[] = { {"shared", t_shared}, {"digest", t_digest}, {"cipher", t_cipher}, {"omac-content", t_omac}, {"params", t_params}, {"mac", t_mac}, {"keygen", t_keygen}, {"load", t_load}, {"sign", t_sign}, {"derive", t_derive}, {"transport", t_transport}, {"kdf", t_kdf}, {"hmac", t_hmac}, {"block", t_ecb}, {"cms", t_cms} };
#define NTOPS (int)(sizeof tops / sizeof *tops)

static pthread_barrier_t bar; static int serial; static long oseq;
static void do_all(thr *t)
{
    me = t; t->n = 0; t->fail = 0; uint64_t s0 = t->rs, d0 = t->drbg;
    for (int i = 0; i < t->nops; i++) {
        if (!serial) {
            if (i == 0) pthread_barrier_wait(&bar);
            else switch (t->par[i] >> 40 & 7) { case 0: sched_yield(); break; case 1: usleep(t->par[i] >> 44 & 255); break; }
            t->seq[i] = __atomic_fetch_add(&oseq, 1, __ATOMIC_RELAXED);
            clock_gettime(CLOCK_MONOTONIC, &t->t0[i]);
        }
        t->at[i] = t->n; tops[t->op[i]].f(t->par[i] & 0xffffffff); t->at[i + 1] = t->n;
        if (!serial) clock_gettime(CLOCK_MONOTONIC, &t->t1[i]);
        ERR_clear_error();
    }
    t->rs = s0; t->drbg = d0; me = NULL;
}
static void *thr_main(void *p) { do_all(p); OPENSSL_thread_stop(); return NULL; }
static long ns(struct timespec a) { return a.tv_sec * 1000000000l + a.tv_nsec; }
static void thr_case(void)
{
    static thr t[MAXT]; static u8 *keep[MAXT]; static size_t keepn[MAXT]; char kf[MAXT][120]; int nf[MAXT]; pthread_t id[MAXT]; int n = 2 + rn(MAXT - 1), shared = chance(2, 3), nops = 2 + rn(vh_case % 4 ? 6 : 3);
    int op0 = rn(NTOPS), first = chance(3, 4), share = chance(1, 3), heavy = chance(1, 2); uint64_t par0 = rnd(); if (chance(1, 2)) op0 = 6 + rn(5);
    if (share && heavy) op0 = 0;
    for (int i = 0; i < n; i++) {
        if (!t[i].b) HARN(t[i].b = malloc(OB));
        if (!keep[i]) HARN(keep[i] = malloc(OB));
        t[i].id = i; t[i].rs = rnd(); t[i].drbg = rnd(); t[i].nops = nops;
        for (int k = 0; k < nops; k++) {
            t[i].op[k] = first && k == 0 ? op0 : shared && k ? t[0].op[k] : share && heavy ? 0 : (int)rn(NTOPS);
            t[i].par[k] = (first && k == 0) || (shared && chance(1, 2)) ? (par0 & 0xffffffff) + (chance(1, 3) ? 0 : rn(2)) + (rnd() << 32) : rnd();
            if (shared && i == 0 && k) t[0].op[k] = rn(NTOPS);
        }
    }
    share_free(); if (share) { thr m = {0}; m.rs = rnd(); m.drbg = rnd(); share_make(&m); vh_count("cases_with_shared_objects", 1); }
    for (int i = 0; i < n; i++) for (int k = 0; k < nops && k < 4; k++) vh_log("thread %d: %s %llu", i, tops[t[i].op[k]].name, (unsigned long long)(t[i].par[k] & 0xffffffff));
    serial = 0; oseq = 0; pthread_barrier_init(&bar, NULL, n);
    for (int i = 0; i < n; i++) HARN(pthread_create(&id[i], NULL, thr_main, &t[i]) == 0);
    for (int i = 0; i < n; i++) pthread_join(id[i], NULL);
    pthread_barrier_destroy(&bar);
    for (int i = 0; i < n; i++) { memcpy(keep[i], t[i].b, t[i].n); keepn[i] = t[i].n; nf[i] = t[i].fail; memcpy(kf[i], t[i].fails, sizeof kf[i]); }
    size_t at[MAXT][MAXOPS + 1]; for (int i = 0; i < n; i++) memcpy(at[i], t[i].at, sizeof at[i]);
    serial = 1;
    for (int i = 0; i < n; i++) {
        do_all(&t[i]);
        if (t[i].fail) { vh_viol("serial-failure", "alone, thread %d fails at %s", i, t[i].fails); continue; }
        if (nf[i]) { vh_viol("concurrent-failure", "with %d threads, thread %d fails at %s; alone it does not", n, i, kf[i]); continue; }
        if (keepn[i] != t[i].n || memcmp(keep[i], t[i].b, t[i].n)) {
            int k = 0; while (k < nops - 1 && at[i][k + 1] == t[i].at[k + 1] && !memcmp(keep[i], t[i].b, at[i][k + 1])) k++;
            char key[80]; snprintf(key, sizeof key, "result:%s", tops[t[i].op[k]].name);
            vh_viol(key, "with %d threads, the %s operation (%llu) of thread %d gives another result than alone", n, tops[t[i].op[k]].name, (unsigned long long)(t[i].par[k] & 0xffffffff), i);
        }
    }
    /* what ran at the same time */
    long ov = 0; char il[256]; size_t iln = 0;
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) for (int k = 0; k < nops; k++) for (int m = 0; m < nops; m++)
        if (ns(t[i].t0[k]) < ns(t[j].t1[m]) && ns(t[j].t0[m]) < ns(t[i].t1[k])) { ov++; int a = t[i].op[k], b = t[j].op[m]; vh_sig("pair|%s|%s|%d", tops[a < b ? a : b].name, tops[a < b ? b : a].name, vh_case % 2 == 0); }
    for (long s = 0; s < n * nops; s++) for (int i = 0; i < n; i++) for (int k = 0; k < nops; k++) if (t[i].seq[k] == s && iln < sizeof il - 2) il[iln++] = 'a' + i;
    il[iln] = 0; vh_sig("order|%s", il);
    vh_count("overlapping_pairs", ov); vh_count("operations", (long)n * nops); vh_count("threads", n);
    if (chance(1, 20)) vh_sample("%d threads x %d operations, start order %s, %ld overlapping pairs", n, nops, il, ov);
}
static void thr_setup(void)
{
    const int *n; int c;
    RAND_set_rand_method(&det);
    /* names only: no algorithm is used before the threads start */
    c = ENGINE_get_ciphers(vh_eng)(vh_eng, NULL, &n, 0); for (int i = 0; i < c; i++) { ENG(cis[ncis] = ENGINE_get_cipher(vh_eng, n[i])); cn[ncis] = OBJ_nid2sn(n[i]); ncis++; }
    c = ENGINE_get_digests(vh_eng)(vh_eng, NULL, &n, 0); for (int i = 0; i < c; i++) { ENG(mds[nmds] = ENGINE_get_digest(vh_eng, n[i])); mn[nmds] = OBJ_nid2sn(n[i]); nmds++; }
    (void)mn;
}
const vh_workload vh_workloads[] = { {"thr", thr_case, thr_setup, NULL}, {0} };
