/* P18: random sequences of API calls, legal in the sense of the documentation (buffers of the size
 * the call announces or the documentation asks for) but in any order and with any state, including
 * operations that fail.  The oracle is the instrumentation (ASan, UBSan, LSan, valgrind) with buffers
 * of exactly the right size, plus: lengths reported stay within the buffer, and every octet reported
 * as output has been written. */
#include "pk.h"
#include "tok.h"
#include "ciphers.h"
#include <openssl/crypto.h>
#include <openssl/pem.h>
#if __has_include(<valgrind/memcheck.h>)
# include <valgrind/memcheck.h>
#else
# define VALGRIND_CHECK_MEM_IS_DEFINED(p, n) 0
# define VALGRIND_MAKE_MEM_UNDEFINED(p, n)
#endif
#define NC 4
#define NM 4
#define NK 6
#define NP 4
static EVP_CIPHER_CTX *cc[NC]; static EVP_MD_CTX *mc[NM]; static EVP_PKEY *kk[NK]; static EVP_PKEY_CTX *pc[NP]; static EVP_PKEY_CTX *mcp[NM];
static int mst[NM];         /* 0 none, 1 digest, 2 sign, 3 verify */
static int pop[NP];
static const EVP_CIPHER *ciph[32]; static int nciph; static const EVP_MD *mds[16]; static int nmds; static int pknids[16], npk;
static int trace_op;
static void seq_setup(void)
{
    const int *n; int c;
    pk_setup();
    c = ENGINE_get_ciphers(vh_eng)(vh_eng, NULL, &n, 0); HARN(c > 0 && c < 32); for (int i = 0; i < c; i++) ENG(ciph[nciph++] = ENGINE_get_cipher(vh_eng, n[i]));
    c = ENGINE_get_digests(vh_eng)(vh_eng, NULL, &n, 0); HARN(c > 0 && c < 16); for (int i = 0; i < c; i++) ENG(mds[nmds++] = ENGINE_get_digest(vh_eng, n[i]));
    c = ENGINE_get_pkey_meths(vh_eng)(vh_eng, NULL, &n, 0); HARN(c > 0 && c < 16); for (int i = 0; i < c; i++) pknids[npk++] = n[i];
}
static size_t secure_base;      /* the random generators' own state, created by their first use */
static void sec_setup(void) { u8 b[8]; HARN(CRYPTO_secure_malloc_init(1 << 20, 16) == 1); HARN(RAND_bytes(b, 8) == 1 && RAND_priv_bytes(b, 8) == 1); seq_setup(); secure_base = CRYPTO_secure_used(); }
static u8 *buf(size_t n) { u8 *p = malloc(n ? n : 1); HARN(p); rcontent(p, n); return p; }
/* output octets must have been written by the callee: memory is undefined before, and under plain
 * sanitizers a second run would be needed, so that part is valgrind's */
static u8 *obuf(size_t n) { u8 *p = malloc(n ? n : 1); HARN(p); memset(p, 0xa5, n); VALGRIND_MAKE_MEM_UNDEFINED(p, n); return p; }
static void out(const char *what, u8 *p, long n, size_t cap)
{
    if (n < 0 || (size_t)n > cap) vh_viol("length", "%s reports %ld octets for a buffer of %zu", what, n, cap);
    else if (n && VALGRIND_CHECK_MEM_IS_DEFINED(p, n)) vh_viol("undefined-output", "%s: octets among the %ld reported were never written", what, n);
}
static size_t slen(void) { return chance(1, 8) ? rlen(9000) : rn(100); }
static void R(int r) { if (r > 0) vh_count("calls_ok", 1); else { vh_count("calls_failed", 1); ERR_clear_error(); } vh_sig("op|%d|%d", trace_op, r > 0 ? 1 : r); }
static const char *strs[] = { "A", "B", "C", "D", "0", "XA", "XB", "TCA", "TCB", "TCC", "TCD", "XX", "", "id-Gost28147-89-CryptoPro-A-ParamSet", "id-tc26-gost-28147-param-Z", "id-GostR3410-2001-CryptoPro-A-ParamSet",
    "1.2.643.2.2.31.1", "id-tc26-gost-3410-2012-512-paramSetTest", "sha256", "8", "16", "4", "1", "-1", "0x10", "256", "512", "99999999999", "0123456789abcdef", "0123456789abcdef0123456789abcdef",
    "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef", "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcde", "zz", "short", "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef00" };
static const char *rstr(void) { return strs[rn(sizeof strs / sizeof *strs)]; }
static const char *names[] = { "paramset", "ukmhex", "vko", "key", "hexkey", "size", "digest", "nonsense" };

static void op_cipher(void)
{
    int i = rn(NC), j, l, r; EVP_CIPHER_CTX *c = cc[i]; const EVP_CIPHER *cur = EVP_CIPHER_CTX_cipher(c);
    int op = rn(20); trace_op = 100 + op;
    vh_log("cipher %d %s op %d", i, cur ? EVP_CIPHER_name(cur) : "-", op);
    switch (op) {
    case 0: case 1: case 2: {
        const EVP_CIPHER *n = chance(1, 2) || !cur ? ciph[rn(nciph)] : NULL; const EVP_CIPHER *t = n ? n : cur;
        int kl = EVP_CIPHER_key_length(t), il = EVP_CIPHER_iv_length(t); if (cur && !n) il = EVP_CIPHER_CTX_iv_length(c) > il ? EVP_CIPHER_CTX_iv_length(c) : il;
        u8 *k = chance(2, 3) ? buf(kl) : NULL, *v = chance(2, 3) ? buf(il) : NULL;
        r = EVP_CipherInit_ex(c, n, n && chance(1, 2) ? vh_eng : NULL, k, v, (int)rn(3) - 1); free(k); free(v); R(r); break; }
    case 3: case 4: case 5: case 6: {
        size_t n = slen(); int bs = cur ? EVP_CIPHER_CTX_block_size(c) : 16; size_t cap = n + bs; u8 *in = buf(n);
        if (chance(1, 6)) { u8 *io = malloc(cap); HARN(io); memcpy(io, in, n); l = 0; r = EVP_CipherUpdate(c, io, &l, io, n); if (r > 0) out("CipherUpdate", io, l, cap); free(io); }
        else { u8 *o = obuf(cap); l = 0; r = EVP_CipherUpdate(c, o, &l, in, n); if (r > 0) out("CipherUpdate", o, l, cap); free(o); }
        free(in); R(r); break; }
    case 7: { size_t n = slen(); u8 *in = buf(n); l = 0; if (cur && (EVP_CIPHER_flags(cur) & EVP_CIPH_FLAG_AEAD_CIPHER)) { r = EVP_CipherUpdate(c, NULL, &l, in, n); R(r); } free(in); break; }
    case 8: { int bs = cur ? EVP_CIPHER_CTX_block_size(c) : 16; u8 *o = obuf(bs); l = 0; r = chance(1, 2) ? EVP_CipherFinal_ex(c, o, &l) : EVP_CipherFinal(c, o, &l); if (r > 0) out("CipherFinal", o, l, bs); free(o); R(r); break; }
    case 9: { j = rn(NC); if (j != i) { r = EVP_CIPHER_CTX_copy(cc[j], c); R(r); } break; }
    case 10: if (chance(1, 2)) EVP_CIPHER_CTX_reset(c); else { EVP_CIPHER_CTX_free(c); cc[i] = EVP_CIPHER_CTX_new(); HARN(cc[i]); } break;
    case 11: R(cur ? EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_SET_SBOX, 0, (void *)rstr()) : 0); break;
    case 12: R(cur ? EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_KEY_MESH, chance(1, 4) ? (int)rnd() : (int)rn(4) * 16 + (int)rn(2) * 8, NULL) : 0); break;
    case 13: { static const int tl[] = {0, 1, 4, 8, 12, 16, 17, 32, -1}; int t = tl[rn(9)]; if (!cur) break; u8 *b = buf(t > 0 ? t : 0);
        r = EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_SET_TAG, t, b); free(b); R(r); break; }
    case 14: { static const int tl[] = {0, 1, 4, 8, 12, 16, 17, 32, -1}; int t = tl[rn(9)]; if (!cur) break; u8 *b = obuf(t > 0 ? t : 0);
        r = EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_GET_TAG, t, b); if (r > 0) out("GET_TAG", b, t, t > 0 ? t : 0); free(b); R(r); break; }
    case 15: { if (!cur) break; u8 *b = buf(8); r = EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_TLSTREE, (int)rn(3), b); free(b); R(r); break; }
    case 16: { static const int vl[] = {0, 1, 4, 8, 12, 16, 17, 1024, -5}; if (cur) R(EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_SET_IVLEN, vl[rn(9)], NULL)); break; }
    case 17: { if (!cur) break; if (chance(1, 2)) { int nid = 0; r = EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_PBE_PRF_NID, 0, &nid); R(r); } else { int kl = EVP_CIPHER_CTX_key_length(c); u8 *b = obuf(kl); r = EVP_CIPHER_CTX_rand_key(c, b); if (r > 0) out("rand_key", b, kl, kl); free(b); R(r); } break; }
    case 18: { if (!cur) break; STACK_OF(X509_ATTRIBUTE) *st = sk_X509_ATTRIBUTE_new_null(); HARN(st); int enc = EVP_CIPHER_CTX_encrypting(c);
        if (!enc && chance(3, 4)) { ASN1_OBJECT *o = OBJ_txt2obj("1.2.643.7.1.0.6.1.1", 1); size_t n = chance(3, 4) ? 8 + 8 * rn(2) : rn(40); u8 *b = buf(n); X509at_add1_attr_by_OBJ(&st, o, V_ASN1_OCTET_STRING, b, n); free(b); ASN1_OBJECT_free(o); }
        r = EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_PROCESS_UNPROTECTED, 0, st); sk_X509_ATTRIBUTE_pop_free(st, X509_ATTRIBUTE_free); R(r); break; }
    case 19: {
        if (!cur) break;
        if (chance(1, 2)) { ASN1_TYPE *t = ASN1_TYPE_new(); r = EVP_CIPHER_param_to_asn1(c, t); if (r > 0) { u8 *e = NULL; int n = ASN1_TYPE_get(t) ? i2d_ASN1_TYPE(t, &e) : 0; if (n > 0) out("param_to_asn1", e, n, n); OPENSSL_free(e); } ASN1_TYPE_free(t); }
        else { der s = {{0}}, o = {{0}}; u8 b[32]; rbytes(b, 32); static const int sz[] = {8, 12, 16, 4, 0, 20}; der_tlv(&s, 4, b, sz[rn(6)]); if (chance(1, 2)) der_oid(&s, chance(3, 4) ? NID_id_tc26_gost_28147_param_Z : NID_sha256); der_wrap(&o, 0x30, &s);
               const u8 *q = o.b; ASN1_TYPE *t = d2i_ASN1_TYPE(NULL, &q, o.n); HARN(t); r = EVP_CIPHER_asn1_to_param(c, t); ASN1_TYPE_free(t); }
        R(r); break; }
    }
}
static void op_md(void)
{
    int i = rn(NM), j, r = 0; EVP_MD_CTX *m = mc[i]; const EVP_MD *cur = EVP_MD_CTX_md(m);
    int op = rn(16); trace_op = 200 + op + 20 * mst[i];
    vh_log("md %d %s state %d op %d", i, cur ? EVP_MD_name(cur) : "-", mst[i], op);
    switch (op) {
    case 0: case 1: r = EVP_DigestInit_ex(m, cur && mst[i] < 2 && chance(1, 3) ? NULL : mds[rn(nmds)], NULL); mst[i] = r > 0; R(r); break;
    case 2: {
        EVP_PKEY *k = kk[rn(NK)]; if (!k) break;
        EVP_MD_CTX_free(m); m = mc[i] = EVP_MD_CTX_new(); HARN(m); mcp[i] = NULL;
        const EVP_MD *md = chance(2, 3) ? mds[rn(nmds)] : NULL;
        if (chance(1, 2) || EVP_PKEY_size(k) <= 0) { r = EVP_DigestSignInit(m, &mcp[i], md, NULL, k); mst[i] = r > 0 ? 2 : 0; } else { r = EVP_DigestVerifyInit(m, &mcp[i], md, NULL, k); mst[i] = r > 0 ? 3 : 0; }
        R(r); if (r <= 0) { EVP_MD_CTX_free(m); mc[i] = EVP_MD_CTX_new(); HARN(mc[i]); mcp[i] = NULL; } break; }
    case 3: case 4: case 5: case 6: { if (!mst[i]) break; size_t n = slen(); u8 *b = buf(n); r = mst[i] == 2 ? EVP_DigestSignUpdate(m, b, n) : mst[i] == 3 ? EVP_DigestVerifyUpdate(m, b, n) : EVP_DigestUpdate(m, b, n); free(b); R(r); break; }
    case 7: case 8:
        if (mst[i] == 2) {
            size_t l = 0, want; r = EVP_DigestSignFinal(m, NULL, &l);
            if (r > 0) { want = l; if (chance(1, 6)) l = rn(l); size_t cap = l; u8 *o = obuf(cap); r = EVP_DigestSignFinal(m, o, &l); if (r > 0) { out("DigestSignFinal", o, l, cap); if (cap < want && l > cap) vh_viol("length", "DigestSignFinal wrote %zu into %zu", l, cap); } free(o); }
            R(r);
        } else if (mst[i] == 3) { size_t l = chance(3, 4) ? 64 + 64 * rn(2) : rn(200); u8 *b = buf(l); r = EVP_DigestVerifyFinal(m, b, l); free(b); R(r); }
        else if (cur && mst[i]) { mst[i] = 0; unsigned l = 0; int cap = EVP_MD_CTX_size(m); u8 *o = obuf(64); r = EVP_DigestFinal_ex(m, o, &l); (void)cap; if (r > 0) out("DigestFinal", o, l, 64); free(o); R(r); }
        break;
    case 9: if (mst[i] == 1 && cur) { mst[i] = 0; size_t n = chance(1, 2) ? EVP_MD_size(cur) : rn(40); u8 *o = obuf(n); r = EVP_DigestFinalXOF(m, o, n); if (r > 0) out("FinalXOF", o, n, n); free(o); R(r); } break;
    case 10: { j = rn(NM); if (j != i && cur) { r = EVP_MD_CTX_copy_ex(mc[j], m); mst[j] = r > 0 ? mst[i] : 0; mcp[j] = NULL; R(r); if (r <= 0) { EVP_MD_CTX_free(mc[j]); mc[j] = EVP_MD_CTX_new(); HARN(mc[j]); } } break; }
    case 11: if (chance(1, 2)) EVP_MD_CTX_reset(m); else { EVP_MD_CTX_free(m); mc[i] = EVP_MD_CTX_new(); HARN(mc[i]); } mst[i] = 0; mcp[i] = NULL; break;
    case 12: { if (!cur || !mst[i]) break; size_t n = chance(4, 5) ? 32 : rn(70); u8 *b = buf(n ? n : 1); r = n ? EVP_MD_CTX_ctrl(m, EVP_MD_CTRL_ALG_CTRL + 4, n, b) : 0; free(b); R(r); break; }
    case 13: if (cur) { static const int xl[] = {0, 1, 4, 7, 8, 9, 16, 17, 64, -3}; R(EVP_MD_CTX_ctrl(m, EVP_MD_CTRL_XOF_LEN, xl[rn(10)], NULL)); } break;
    case 14: { if (!cur) break; unsigned kl = 0; r = EVP_MD_CTX_ctrl(m, EVP_MD_CTRL_ALG_CTRL + 3, 0, &kl); if (r > 0 && (kl == 0 || kl > 64)) vh_viol("length", "key length %u", kl); R(r); break; }
    case 15: { if (!cur || !mst[i]) break; u8 *b = buf(8); r = EVP_MD_CTX_ctrl(m, EVP_MD_CTRL_TLSTREE, (int)rn(2), b); free(b); R(r); if (chance(1, 4)) R(EVP_MD_CTX_ctrl(m, EVP_CTRL_KEY_MESH, chance(1, 4) ? (int)rnd() : (int)rn(6) * 16, NULL)); break; }
    }
}
static int mac_nid(int nid) { return nid != NID_id_GostR3410_2001 && nid != NID_id_GostR3410_2001DH && nid != NID_id_GostR3410_2012_256 && nid != NID_id_GostR3410_2012_512; }
static void op_key(void)
{
    int i = rn(NK), j, op = rn(14); trace_op = 300 + op; EVP_PKEY *k = kk[i]; int r = 0;
    vh_log("key %d %s op %d", i, k ? OBJ_nid2sn(EVP_PKEY_base_id(k)) : "-", op);
    switch (op) {
    case 0: EVP_PKEY_free(k); kk[i] = NULL; break;
    case 1: case 2: { pk_key q; pk_make(&q, pk_rtype()); EVP_PKEY_free(k); kk[i] = chance(2, 3) ? q.pk : q.pub; EVP_PKEY_up_ref(kk[i]); pk_free(&q); break; }
    case 3: { int nid; do nid = pknids[rn(npk)]; while (!mac_nid(nid)); size_t n = chance(7, 8) ? 32 : rn(70); u8 *b = buf(n); EVP_PKEY *nk = EVP_PKEY_new_mac_key(nid, NULL, b, n); free(b); R(nk != NULL); if (nk) { EVP_PKEY_free(k); kk[i] = nk; } break; }
    case 4: j = rn(NK); if (k && kk[j]) { R(EVP_PKEY_copy_parameters(kk[j], k)); } else if (k && !kk[j]) { EVP_PKEY *n = EVP_PKEY_new(); HARN(n); r = EVP_PKEY_copy_parameters(n, k); R(r); if (r > 0) kk[j] = n; else EVP_PKEY_free(n); } break;
    case 5: j = rn(NK); if (k && kk[j]) { R(EVP_PKEY_eq(k, kk[j]) == 1); R(EVP_PKEY_parameters_eq(k, kk[j]) == 1); } break;
    case 6: if (k) { BIO *b = BIO_new(BIO_s_mem()); int ind = rn(5); R(EVP_PKEY_print_public(b, k, ind, NULL)); R(EVP_PKEY_print_private(b, k, ind, NULL)); R(EVP_PKEY_print_params(b, k, ind, NULL)); BIO_free(b); } break;
    case 7: if (k) { u8 *o = NULL; int l = i2d_PUBKEY(k, &o); if (l > 0) { const u8 *q = o; EVP_PKEY *n = d2i_PUBKEY(NULL, &q, l); if (n) { EVP_PKEY_free(k); kk[i] = n; } R(n != NULL); } else R(0); OPENSSL_free(o); } break;
    case 8: case 9: if (k) {
            PKCS8_PRIV_KEY_INFO *p = EVP_PKEY2PKCS8(k); R(p != NULL); if (p) { EVP_PKEY *n = EVP_PKCS82PKEY(p); R(n != NULL); if (n) { EVP_PKEY_free(k); kk[i] = n; } } PKCS8_PRIV_KEY_INFO_free(p); } break;
    case 10: if (k) { BIO *b = BIO_new(BIO_s_mem()); if (!mac_nid(EVP_PKEY_base_id(k)) && pk_get_d(k)) { R(PEM_write_bio_PrivateKey(b, k, chance(1, 2) ? EVP_aes_128_cbc() : NULL, (u8 *)"pw", 2, NULL, NULL)); } R(PEM_write_bio_PUBKEY(b, k)); BIO_free(b); } break;
    case 11: if (k) { EVP_PKEY_size(k); EVP_PKEY_bits(k); EVP_PKEY_security_bits(k); EVP_PKEY_missing_parameters(k); int d; R(EVP_PKEY_get_default_digest_nid(k, &d)); } break;
    case 12: if (k && !mac_nid(EVP_PKEY_base_id(k))) { u8 *o = NULL; int l = i2d_KeyParams(k, &o); R(l); if (l > 0) { const u8 *q = o; EVP_PKEY *n = d2i_KeyParams(EVP_PKEY_base_id(k), NULL, &q, l); R(n != NULL); j = rn(NK); if (n && !kk[j]) kk[j] = n; else EVP_PKEY_free(n); } OPENSSL_free(o); } break;
    case 13: if (k) { EVP_PKEY_CTX *c = EVP_PKEY_CTX_new(k, NULL); if (c && !mac_nid(EVP_PKEY_base_id(k))) { R(EVP_PKEY_check(c)); R(EVP_PKEY_public_check(c)); R(EVP_PKEY_param_check(c)); } EVP_PKEY_CTX_free(c); } break;
    }
}
static void op_pctx(void)
{
    int i = rn(NP), j, op = rn(20), r = 0; EVP_PKEY_CTX *c = pc[i]; EVP_PKEY *k = c ? EVP_PKEY_CTX_get0_pkey(c) : NULL;
    trace_op = 400 + op + 50 * pop[i];
    vh_log("pctx %d %s op %d after %d", i, k ? OBJ_nid2sn(EVP_PKEY_base_id(k)) : c ? "id" : "-", op, pop[i]);
    if (!c && op > 3) op = rn(4);
    switch (op) {
    case 0: case 1: { j = rn(NK); if (!kk[j]) break; EVP_PKEY_CTX_free(c); pc[i] = EVP_PKEY_CTX_new(kk[j], chance(1, 2) ? vh_eng : NULL); pop[i] = 0; R(pc[i] != NULL); break; }
    case 2: EVP_PKEY_CTX_free(c); pc[i] = EVP_PKEY_CTX_new_id(pknids[rn(npk)], chance(1, 2) ? vh_eng : NULL); pop[i] = 0; R(pc[i] != NULL); break;
    case 3: j = rn(NP); if (c && j != i && pop[i] < 6) { /* libcrypto refuses to copy generation contexts, leaking the engine reference */ EVP_PKEY_CTX *d = EVP_PKEY_CTX_dup(c); R(d != NULL); if (d) { EVP_PKEY_CTX_free(pc[j]); pc[j] = d; pop[j] = pop[i]; } } break;
    case 4: { int o = rn(7); pop[i] = 0; r = o == 0 ? EVP_PKEY_sign_init(c) : o == 1 ? EVP_PKEY_verify_init(c) : o == 2 ? EVP_PKEY_encrypt_init(c) : o == 3 ? EVP_PKEY_decrypt_init(c) : o == 4 ? EVP_PKEY_derive_init(c) : o == 5 ? EVP_PKEY_keygen_init(c) : EVP_PKEY_paramgen_init(c); if (r > 0) pop[i] = o + 1; R(r); break; }
    case 5: case 6: R(EVP_PKEY_CTX_ctrl_str(c, names[rn(8)], rstr())); break;
    case 7: { int n = chance(2, 3) ? 8 + 24 * (int)rn(2) : (int)rn(chance(1, 3) ? 300 : 40) - 3; u8 *b = buf(n > 0 ? n : 0); r = EVP_PKEY_CTX_ctrl(c, -1, -1, EVP_PKEY_CTRL_SET_IV, n, chance(1, 20) ? NULL : b); free(b); R(r); break; }
    case 8: { static const int nn[] = {NID_id_GostR3411_2012_256, NID_id_GostR3411_2012_512, 0, NID_sha256}; R(EVP_PKEY_CTX_ctrl(c, -1, -1, EVP_PKEY_ALG_CTRL + 11, nn[rn(4)], NULL)); break; }
    case 9: { static const int nn[] = {NID_magma_ctr, NID_kuznyechik_ctr, NID_magma_ctr_acpkm, NID_kuznyechik_ctr_acpkm_omac, NID_undef, NID_id_Gost28147_89, NID_aes_128_cbc}; R(EVP_PKEY_CTX_ctrl(c, -1, -1, EVP_PKEY_CTRL_CIPHER, nn[rn(7)], NULL)); break; }
    case 10: R(EVP_PKEY_CTX_set_signature_md(c, chance(3, 4) ? mds[rn(nmds)] : EVP_sha256())); break;
    case 11: { if (k && !mac_nid(EVP_PKEY_base_id(k))) { static const int nn[] = {NID_id_GostR3410_2001_CryptoPro_A_ParamSet, NID_id_tc26_gost_3410_2012_512_paramSetA, NID_id_tc26_gost_3410_2012_256_paramSetB, NID_sha256, 0, -1, 999999}; R(EVP_PKEY_CTX_ctrl(c, -1, -1, EVP_PKEY_ALG_CTRL + 1, nn[rn(7)], NULL)); } break; }
    case 12: { if (k || pop[i] == 6) { size_t n = chance(4, 5) ? 32 : rn(70); u8 *b = buf(n); r = EVP_PKEY_CTX_ctrl(c, -1, -1, EVP_PKEY_CTRL_SET_MAC_KEY, n, b); free(b); R(r); static const int sz[] = {0, 1, 4, 8, 9, 16, 17, -2}; R(EVP_PKEY_CTX_ctrl(c, -1, -1, EVP_PKEY_ALG_CTRL + 5, sz[rn(8)], NULL)); } break; }
    case 13: j = rn(NK); if (kk[j]) R(EVP_PKEY_derive_set_peer(c, kk[j])); break;
    case 14: case 15: case 16: case 17: {
        size_t l = 0, n; u8 *b, *o;
        if (!k && pop[i] < 6) break;      /* operations with no key at all are misuse */
        switch (pop[i]) {
        case 1: n = chance(7, 8) ? 32 + 32 * rn(2) : rn(80); b = buf(n); r = EVP_PKEY_sign(c, NULL, &l, b, n); if (r > 0) { HARN(l < 4096); if (chance(1, 6)) l = rn(l + 1); size_t cap = l; o = obuf(cap); r = EVP_PKEY_sign(c, o, &l, b, n); if (r > 0) out("sign", o, l, cap); free(o); } free(b); R(r); break;
        case 2: n = chance(7, 8) ? 32 + 32 * rn(2) : rn(80); b = buf(n); l = chance(3, 4) ? 64 + 64 * rn(2) : rn(200); o = buf(l); R(EVP_PKEY_verify(c, o, l, b, n)); free(o); free(b); break;
        case 3: n = chance(7, 8) ? 32 : rn(80); b = buf(n); r = EVP_PKEY_encrypt(c, NULL, &l, b, n); if (r > 0) { HARN(l < 4096); if (chance(1, 6)) l = rn(l + 1); size_t cap = l; o = obuf(cap); r = EVP_PKEY_encrypt(c, o, &l, b, n); if (r > 0) out("encrypt", o, l, cap); free(o); } free(b); R(r); break;
        case 4: {
            der d = {{0}}; n = 0; const EVP_PKEY *pk = k; b = NULL;
            if (pk && !mac_nid(EVP_PKEY_base_id(pk)) && chance(7, 8)) {   /* a token for somebody */
                EVP_PKEY_CTX *e = EVP_PKEY_CTX_new((EVP_PKEY *)pk, NULL); u8 cek[32], t[1024]; size_t tl = sizeof t; rbytes(cek, 32);
                if (e && EVP_PKEY_encrypt_init(e) > 0) { if (chance(2, 3)) EVP_PKEY_CTX_ctrl(e, -1, -1, EVP_PKEY_CTRL_CIPHER, chance(1, 2) ? NID_magma_ctr : NID_kuznyechik_ctr, NULL); if (EVP_PKEY_encrypt(e, t, &tl, cek, 32) > 0) der_raw(&d, t, tl); }
                EVP_PKEY_CTX_free(e); ERR_clear_error();
            }
            if (!d.n) { u8 t[60]; rbytes(t, 60); t[0] = 0x30; t[1] = 58; der_raw(&d, t, 60); }
            b = malloc(d.n); memcpy(b, d.b, d.n); if (chance(1, 4)) b[rn(d.n)] ^= 1 << rn(8); n = d.n;
            r = EVP_PKEY_decrypt(c, NULL, &l, b, n); if (r > 0) { HARN(l < 4096); if (chance(1, 6)) l = rn(l + 1); size_t cap = l; o = obuf(cap); r = EVP_PKEY_decrypt(c, o, &l, b, n); if (r > 0) out("decrypt", o, l, cap); free(o); }
            free(b); R(r); break; }
        case 5: r = EVP_PKEY_derive(c, NULL, &l); if (r > 0) { HARN(l < 4096); if (chance(1, 6)) l = rn(l + 1); size_t cap = l; o = obuf(cap); r = EVP_PKEY_derive(c, o, &l); if (r > 0) out("derive", o, l, cap); free(o); } R(r); break;
        case 6: case 7: { EVP_PKEY *n2 = NULL; r = pop[i] == 6 ? EVP_PKEY_keygen(c, &n2) : EVP_PKEY_paramgen(c, &n2); R(r); j = rn(NK); if (r > 0) { EVP_PKEY_free(kk[j]); kk[j] = n2; } else EVP_PKEY_free(n2); break; }
        }
        break; }
    case 18: { const EVP_MD *md = NULL; if (pop[i] == 1 || pop[i] == 2) R(EVP_PKEY_CTX_get_signature_md(c, &md)); break; }
    case 19: EVP_PKEY_CTX_free(c); pc[i] = NULL; pop[i] = 0; break;
    }
}
static void seq_case(void)
{
    memset(cc, 0, sizeof cc); memset(mc, 0, sizeof mc); memset(kk, 0, sizeof kk); memset(pc, 0, sizeof pc); memset(mcp, 0, sizeof mcp); memset(mst, 0, sizeof mst); memset(pop, 0, sizeof pop);
    for (int i = 0; i < NC; i++) HARN(cc[i] = EVP_CIPHER_CTX_new());
    for (int i = 0; i < NM; i++) HARN(mc[i] = EVP_MD_CTX_new());
    int n = 40 + rn(160), w[4] = {1 + rn(4), 1 + rn(4), 1 + rn(2), 1 + rn(4)}, tot = w[0] + w[1] + w[2] + w[3];
    for (int s = 0; s < n; s++) {
        int x = rn(tot);
        if (x < w[0]) op_cipher(); else if (x < w[0] + w[1]) op_md(); else if (x < w[0] + w[1] + w[2]) op_key(); else op_pctx();
        vh_count("calls", 1);
    }
    for (int i = 0; i < NC; i++) EVP_CIPHER_CTX_free(cc[i]);
    for (int i = 0; i < NM; i++) EVP_MD_CTX_free(mc[i]);
    for (int i = 0; i < NP; i++) EVP_PKEY_CTX_free(pc[i]);
    for (int i = 0; i < NK; i++) EVP_PKEY_free(kk[i]);
    ERR_clear_error();
    if (CRYPTO_secure_malloc_initialized() && CRYPTO_secure_used() != secure_base) { vh_viol("secure-leak", "%zd octets of the secure heap stay in use", CRYPTO_secure_used() - secure_base); secure_base = CRYPTO_secure_used(); }
    if (chance(1, 40)) vh_sample("%d calls, mix %d/%d/%d/%d (cipher/digest/key/pkey ctx)", n, w[0], w[1], w[2], w[3]);
}
static void pset(void) { (void)cds; (void)cph; (void)sboxes; (void)ciphers_setup; (void)bcbs; seq_setup(); }
const vh_workload vh_workloads[] = { {"seq", seq_case, pset, NULL}, {"sec", seq_case, sec_setup, NULL}, {0} };
