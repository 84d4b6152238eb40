/* P24: histories of loading, configuring, using and unloading the engine in one process.
 * With DYN the engine is the module gost.so loaded by OpenSSL's dynamic engine (VH_SO), otherwise the library. */
#define OPENSSL_SUPPRESS_DEPRECATED
#include "vheng.h"
#include <openssl/conf.h>
#include <dlfcn.h>
#include <unistd.h>

#include "ciphers.h"
#ifndef DYN
# include "gost-engine.h"
#endif
ENGINE *vh_eng;
const char *vh_eng_reason(void)
{
    static char b[300]; unsigned long e = ERR_peek_last_error();
    if (!e) return "";
    ERR_error_string_n(e, b, sizeof b); return b;
}
/* ------------------------------------------------------------ allocations made by the engine's own sources */
typedef struct blk { struct blk *n, *p; size_t size; const char *file; int line; long serial; } blk;
static blk head = {&head, &head}; static long serial; static int tracking;
static void *m_alloc(size_t n, const char *f, int l)
{
    blk *b = malloc(sizeof *b + n);
    if (!b) return NULL;
    b->size = n; b->file = f; b->line = l; b->serial = ++serial; b->n = &head; b->p = head.p; b->p->n = b; head.p = b;
    return b + 1;
}
static void m_free(void *p, const char *f, int l) { blk *b = p; (void)f; (void)l; if (!p) return; b--; b->n->p = b->p; b->p->n = b->n; free(b); }
static void *m_realloc(void *p, size_t n, const char *f, int l)
{
    void *q; blk *b = p;
    if (!p) return m_alloc(n, f, l);
    if (!n) { m_free(p, f, l); return NULL; }
    if ((q = m_alloc(n, f, l))) { memcpy(q, p, b[-1].size < n ? b[-1].size : n); m_free(p, f, l); }
    return q;
}
/* ------------------------------------------------------------ what the engine has to offer */
static const struct { const char *sn, *ln; int bs, kl, ivl, mode, aead; } ciphers[] = {
    {"gost89", "GOST 28147-89", 1, 32, 8, EVP_CIPH_CFB_MODE, 0}, {"gost89-cnt", "gost89-cnt", 1, 32, 8, EVP_CIPH_OFB_MODE, 0}, {"gost89-cnt-12", "gost89-cnt-12", 1, 32, 8, EVP_CIPH_OFB_MODE, 0}, {"gost89-cbc", "gost89-cbc", 8, 32, 8, EVP_CIPH_CBC_MODE, 0},
    {"kuznyechik-ecb", "kuznyechik-ecb", 16, 32, 0, EVP_CIPH_ECB_MODE, 0}, {"kuznyechik-cbc", "kuznyechik-cbc", 16, 32, 16, EVP_CIPH_CBC_MODE, 0}, {"kuznyechik-cfb", "kuznyechik-cfb", 1, 32, 16, EVP_CIPH_CFB_MODE, 0}, {"kuznyechik-ofb", "kuznyechik-ofb", 1, 32, 16, EVP_CIPH_OFB_MODE, 0},
    {"kuznyechik-ctr", "kuznyechik-ctr", 1, 32, 8, EVP_CIPH_CTR_MODE, 0}, {"magma-ecb", "magma-ecb", 8, 32, 0, EVP_CIPH_ECB_MODE, 0}, {"kuznyechik-mgm", "kuznyechik-mgm", 1, 32, 16, -1, 1}, {"magma-cbc", "magma-cbc", 8, 32, 8, EVP_CIPH_CBC_MODE, 0}, {"magma-ctr", "magma-ctr", 1, 32, 4, EVP_CIPH_CTR_MODE, 0},
    {"magma-ctr-acpkm", "magma-ctr-acpkm", 1, 32, 4, EVP_CIPH_CTR_MODE, 0}, {"magma-ctr-acpkm-omac", "magma-ctr-acpkm-omac", 1, 32, 4, EVP_CIPH_CTR_MODE, 0}, {"magma-mgm", "magma-mgm", 1, 32, 8, -1, 1}, {"kuznyechik-ctr-acpkm", "kuznyechik-ctr-acpkm", 1, 32, 8, EVP_CIPH_CTR_MODE, 0},
    {"kuznyechik-ctr-acpkm-omac", "kuznyechik-ctr-acpkm-omac", 1, 32, 8, EVP_CIPH_CTR_MODE, 0}, {"magma-kexp15", "magma-kexp15", -1, 64, 4, EVP_CIPH_WRAP_MODE, 0}, {"kuznyechik-kexp15", "kuznyechik-kexp15", -1, 64, 8, EVP_CIPH_WRAP_MODE, 0},
};
static const struct { const char *sn, *ln; int size, bs; const char *alias; } digests[] = {
    {"md_gost94", "GOST R 34.11-94", 32, 32, NULL}, {"gost-mac", "GOST 28147-89 MAC", 4, 0, NULL}, {"md_gost12_256", "GOST R 34.11-2012 with 256 bit hash", 32, 64, "streebog256"}, {"md_gost12_512", "GOST R 34.11-2012 with 512 bit hash", 64, 64, "streebog512"},
    {"gost-mac-12", "gost-mac-12", 4, 0, NULL}, {"magma-mac", "magma-mac", 8, 0, NULL}, {"kuznyechik-mac", "kuznyechik-mac", 16, 0, NULL}, {"kuznyechik-ctr-acpkm-omac", NULL, 16, 0, NULL},
};
static const struct { const char *sn; int key; } pkeys[] = { {"gost2001", 1}, {"id-GostR3410-2001DH", 1}, {"gost2012_256", 1}, {"gost2012_512", 1}, {"gost-mac", 0}, {"gost-mac-12", 0}, {"magma-mac", 0}, {"kuznyechik-mac", 0}, {"magma-ctr-acpkm-omac", 0}, {"kuznyechik-ctr-acpkm-omac", 0} };
#define N(a) (int)(sizeof(a) / sizeof((a)[0]))
static const char *const crypt_names[] = { "id-Gost28147-89-CryptoPro-A-ParamSet", "id-Gost28147-89-CryptoPro-B-ParamSet", "id-Gost28147-89-CryptoPro-C-ParamSet", "id-Gost28147-89-CryptoPro-D-ParamSet", "id-tc26-gost-28147-param-Z", "id-Gost28147-89-TestParamSet", "1.2.643.2.2.31.1", "1.2.643.7.1.2.5.1.1", "no-such-set", "md_gost94" };
static const int crypt_sb[] = { SB_A, SB_B, SB_C, SB_D, SB_Z, SB_TEST, SB_A, SB_Z, -1, -1 };
static const char *const pbe_names[] = { "md_gost12_256", "md_gost12_512", "md_gost94" }; 
static const char *const pk_names[] = { "LEGACY_PK_WRAP", "PLAIN" };
static const char *const cmds[] = { "CRYPT_PARAMS", "PBE_PARAMS", "GOST_PK_FORMAT" }, *const envs[] = { "CRYPT_PARAMS", "GOST_PBE_HMAC", "GOST_PK_FORMAT" };
/* ------------------------------------------------------------ model */
static int conf, loaded, listed, deflt; static const char *set[3], *env[3]; static int cycles; static int pending;   /* pending: unloaded, but a context still uses it */
static const char *eff(int p) { return set[p] ? set[p] : env[p]; }
static EVP_CIPHER_CTX *live_c; static EVP_MD_CTX *live_m; static EVP_PKEY *live_k; static u8 live_key[32], live_iv[16]; static const cdef *live_d;

static int nid_of(const char *s) { int n = OBJ_sn2nid(s); return n != NID_undef ? n : OBJ_ln2nid(s); }
static void do_load(void)
{
#ifdef DYN
    ENGINE *e; char la[4]; int l = rn(3);      /* 0: not listed, 1: listed if possible, 2: must be listed */
    ENGINE_load_dynamic();
    if (chance(1, 3)) {       /* as an openssl.cnf does it */
        char b[900]; long eline; int n = snprintf(b, sizeof b, "openssl_conf = o\n[o]\nengines = es\n[es]\ng = gs\n[gs]\nengine_id = gost\ndynamic_path = %s\n", VH_SO);
        deflt = chance(2, 3);
        for (int p = 0; p < 3; p++) if (chance(1, 2)) { const char *v = p == 0 ? crypt_names[rn(N(crypt_names))] : p == 1 ? pbe_names[rn(3)] : pk_names[rn(2)]; n += snprintf(b + n, sizeof b - n, "%s = %s\n", cmds[p], v); set[p] = env[p] ? env[p] : v; }
        n += snprintf(b + n, sizeof b - n, "%sinit = 1\n", deflt ? "default_algorithms = ALL\n" : "");
        BIO *bio = BIO_new_mem_buf(b, n); CONF *cf = NCONF_new(NULL);
        OPENSSL_load_builtin_modules();
        HARN(bio && cf && NCONF_load_bio(cf, bio, &eline) > 0);
        ENG(CONF_modules_load(cf, NULL, 0) > 0);
        NCONF_free(cf); BIO_free(bio); conf = 1;
        ENG(vh_eng = ENGINE_by_id("gost")); ENG(ENGINE_init(vh_eng)); listed = 1; loaded = 1;
        vh_count("loads_by_config", 1); vh_log("load by config%s", deflt ? " default" : "");
        return;
    }
    ENG(e = ENGINE_by_id("dynamic"));
    sprintf(la, "%d", l);
    ENG(ENGINE_ctrl_cmd_string(e, "SO_PATH", VH_SO, 0));
    if (chance(1, 2)) ENG(ENGINE_ctrl_cmd_string(e, "ID", "gost", 0));
    ENG(ENGINE_ctrl_cmd_string(e, "LIST_ADD", la, 0));
    ENG(ENGINE_ctrl_cmd_string(e, "LOAD", NULL, 0));
    listed = l > 0; vh_eng = e;
#else
    ENGINE_load_gost();
    ENG(vh_eng = ENGINE_by_id("gost")); listed = 1;
#endif
    ENG(!strcmp(ENGINE_get_id(vh_eng), "gost"));
    ENG(ENGINE_init(vh_eng));
    deflt = chance(4, 5);
    if (deflt) { if (chance(1, 3)) ENG(ENGINE_set_default_string(vh_eng, "ALL")); else ENG(ENGINE_set_default(vh_eng, ENGINE_METHOD_ALL)); }
    loaded = 1; vh_count("loads", 1); vh_log("load%s%s", listed ? " listed" : "", deflt ? " default" : "");
}
static void gone(void);
static void do_unload(void)
{
    if (conf) { CONF_modules_finish(); CONF_modules_unload(1); conf = 0; }
    ENGINE_unregister_ciphers(vh_eng); ENGINE_unregister_digests(vh_eng); ENGINE_unregister_pkey_meths(vh_eng); ENGINE_unregister_pkey_asn1_meths(vh_eng);
    if (chance(1, 2)) { if (listed) ENG(ENGINE_remove(vh_eng)); ENG(ENGINE_finish(vh_eng)); ENG(ENGINE_free(vh_eng)); }
    else { ENG(ENGINE_finish(vh_eng)); if (listed) ENG(ENGINE_remove(vh_eng)); ENG(ENGINE_free(vh_eng)); }
    vh_eng = NULL; loaded = 0; cycles++; vh_count("unloads", 1);
    pending = live_c || live_m || live_k; vh_log("unload%s", pending ? " with contexts left" : "");
    for (int i = 0; i < 3; i++) if (!pending) set[i] = NULL;
    if (!pending) gone();
}
static void again(void)     /* a second load while it is loaded changes nothing */
{
    int so = dup(1), nul; fflush(stdout); nul = dup2(2, 1); (void)nul;
#ifdef DYN
    ENGINE *e; ENG(e = ENGINE_by_id("dynamic"));
    ENG(ENGINE_ctrl_cmd_string(e, "SO_PATH", VH_SO, 0));
    int r = ENGINE_ctrl_cmd_string(e, "LOAD", NULL, 0); ENGINE_free(e);
    if (r > 0) vh_viol("loaded-twice", "the engine let itself be loaded twice");
#else
    ENGINE_load_gost();
#endif
    fflush(stdout); dup2(so, 1); close(so); ERR_clear_error();
    vh_count("second_loads", 1); vh_log("second load");
}
/* nothing of the engine is left */
static int from_engine(const char *f) { size_t l = strlen(VREPO); return !strncmp(f, VREPO, l) && f[l] == '/'; }
static void gone(void)
{
    for (int i = 0; i < N(ciphers); i++) if (EVP_get_cipherbyname(ciphers[i].sn) || EVP_get_cipherbyname(ciphers[i].ln)) { vh_viol("stale-cipher", "%s is found by name although the engine is unloaded", ciphers[i].sn); break; }
    for (int i = 0; i < N(digests); i++) if (EVP_get_digestbyname(digests[i].sn) || (digests[i].ln && EVP_get_digestbyname(digests[i].ln)) || (digests[i].alias && EVP_get_digestbyname(digests[i].alias))) { vh_viol("stale-digest", "%s is found by name although the engine is unloaded", digests[i].sn); break; }
    for (int i = 0; i < N(pkeys); i++) { EVP_PKEY_CTX *c = EVP_PKEY_CTX_new_id(nid_of(pkeys[i].sn), NULL); if (c) vh_viol("stale-pkey", "%s can be used although the engine is unloaded", pkeys[i].sn); EVP_PKEY_CTX_free(c); }
    ENGINE *e = ENGINE_by_id("gost"); if (e) { vh_viol("stale-engine", "the engine is found although it is unloaded"); ENGINE_free(e); }
#ifdef DYN
    void *h = dlopen(VH_SO, RTLD_NOLOAD | RTLD_NOW); if (h) { vh_viol("still-mapped", "the module stays in memory"); dlclose(h); }
#endif
    ERR_clear_error();
    int n = 0;
    for (blk *b = head.n; b != &head; b = b->n) if (b->serial > tracking && b->file && from_engine(b->file)) {
        if (n++ < 3) vh_viol("left", "%zu octets allocated at %s:%d stay after unloading", b->size, b->file, b->line);
        b->serial = 0;
    }
    vh_count("unloaded_states_checked", 1); vh_sig("gone|%d", cycles < 20 ? cycles : 20);
}
static void announced(void)
{
    const int *n; int c;
    for (int i = 0; i < N(ciphers); i++) {
        const EVP_CIPHER *x, *y = EVP_get_cipherbyname(ciphers[i].sn); int nid = nid_of(ciphers[i].sn);
        if (!y || !EVP_get_cipherbyname(ciphers[i].ln)) { vh_viol("cipher-name", "%s is not found by name (after %d cycles)", ciphers[i].sn, cycles); continue; }
        x = ENGINE_get_cipher(vh_eng, nid);
        if (!x || EVP_CIPHER_nid(y) != nid || EVP_CIPHER_nid(x) != nid || (nid && EVP_get_cipherbynid(nid) != y)) { vh_viol("cipher-nid", "%s: identifier %d, by name %d, engine %d (after %d cycles)", ciphers[i].sn, nid, EVP_CIPHER_nid(y), x ? EVP_CIPHER_nid(x) : -1, cycles); continue; }
        for (int k = 0; k < 2; k++, x = y)
            if ((ciphers[i].bs > 0 && EVP_CIPHER_block_size(x) != ciphers[i].bs) || EVP_CIPHER_key_length(x) != ciphers[i].kl || EVP_CIPHER_iv_length(x) != ciphers[i].ivl || (ciphers[i].mode >= 0 && EVP_CIPHER_mode(x) != ciphers[i].mode) || !!(EVP_CIPHER_flags(x) & EVP_CIPH_FLAG_AEAD_CIPHER) != ciphers[i].aead)
                vh_viol("cipher-sizes", "%s: block %d key %d iv %d mode %d", ciphers[i].sn, EVP_CIPHER_block_size(x), EVP_CIPHER_key_length(x), EVP_CIPHER_iv_length(x), (int)EVP_CIPHER_mode(x));
        vh_count("algorithms_checked", 1);
    }
    for (int i = 0; i < N(digests); i++) {
        const EVP_MD *x, *y = EVP_get_digestbyname(digests[i].sn); int nid = nid_of(digests[i].sn);
        x = ENGINE_get_digest(vh_eng, nid);
        if (!y || !x || EVP_MD_type(x) != nid || EVP_MD_type(y) != nid || (digests[i].ln && EVP_get_digestbyname(digests[i].ln) != y) || (digests[i].alias && EVP_get_digestbyname(digests[i].alias) != y)) { vh_viol("digest-name", "%s is not found by its names or identifier (after %d cycles)", digests[i].sn, cycles); continue; }
        if (EVP_MD_size(x) != digests[i].size || (digests[i].bs && EVP_MD_block_size(x) != digests[i].bs)) vh_viol("digest-sizes", "%s: size %d block %d", digests[i].sn, EVP_MD_size(x), EVP_MD_block_size(x));
        vh_count("algorithms_checked", 1);
    }
    for (int i = 0; i < N(pkeys); i++) {
        int nid = nid_of(pkeys[i].sn); const EVP_PKEY_METHOD *m = ENGINE_get_pkey_meth(vh_eng, nid); const EVP_PKEY_ASN1_METHOD *a = ENGINE_get_pkey_asn1_meth(vh_eng, nid); char k[60];
        snprintf(k, sizeof k, "pkey:%s", pkeys[i].sn);
        if (!m || !a) { static char said[N(pkeys)]; if (!said[i] && (said[i] = 1)) vh_viol(k, "%s is announced but not implemented", pkeys[i].sn); continue; }
        EVP_PKEY_CTX *c = EVP_PKEY_CTX_new_id(nid, chance(1, 2) || !deflt ? vh_eng : NULL);
        if (!c || EVP_PKEY_keygen_init(c) <= 0) vh_viol(k, "%s can not be used (after %d cycles)", pkeys[i].sn, cycles);
        EVP_PKEY_CTX_free(c);
        vh_count("algorithms_checked", 1);
    }
    /* nothing else is announced */
    c = ENGINE_get_ciphers(vh_eng)(vh_eng, NULL, &n, 0); if (c != N(ciphers)) vh_viol("announced", "%d ciphers", c);
    for (int i = 0; i < c; i++) { int k = 0; while (k < N(ciphers) && nid_of(ciphers[k].sn) != n[i]) k++; if (k == N(ciphers)) vh_viol("announced", "cipher %d %s", n[i], OBJ_nid2sn(n[i])); }
    c = ENGINE_get_digests(vh_eng)(vh_eng, NULL, &n, 0); if (c != N(digests)) vh_viol("announced", "%d digests", c);
    for (int i = 0; i < c; i++) { int k = 0; while (k < N(digests) && nid_of(digests[k].sn) != n[i]) k++; if (k == N(digests)) vh_viol("announced", "digest %d %s", n[i], OBJ_nid2sn(n[i])); }
    c = ENGINE_get_pkey_meths(vh_eng)(vh_eng, NULL, &n, 0); if (c != N(pkeys)) vh_viol("announced", "%d key methods", c);
    vh_sig("announced|%d|%d", cycles < 20 ? cycles : 20, deflt);
    vh_log("announced algorithms");
}
static void use_cipher(void)
{
    const cdef *d = &cds[rn(NCD)]; const EVP_CIPHER *ci = EVP_get_cipherbyname(d->name); u8 key[32], iv[16] = {0}, in[2000], o[2064], want[2000]; int l, m, n = rn(125) * 16, sb = d->sb; const char *p = eff(0); EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new();
    rbytes(key, 32); rbytes(iv, d->ivlen); rcontent(in, n);
    ENG(ci);
    if (!strcmp(d->name, "gost89") || !strcmp(d->name, "gost89-cbc"))
        if (p && *p) { for (int i = 0; i < N(crypt_names); i++) if (!strcmp(p, crypt_names[i])) sb = crypt_sb[i]; }
    ref_mode rm = { d->t, sb < 0 ? 0 : sb, d->mode, d->mesh, d->section };
    int r = EVP_EncryptInit_ex(c, ci, chance(1, 2) || !deflt ? vh_eng : NULL, key, d->ivlen ? iv : NULL);
    if (sb < 0) { if (r > 0) vh_viol("bad-set-used", "%s can be initialised although CRYPT_PARAMS is '%s'", d->name, p); ERR_clear_error(); goto end; }
    if (r <= 0) { vh_viol("cipher-init", "%s: %s (CRYPT_PARAMS %s)", d->name, vh_eng_reason(), p ? p : "-"); goto end; }
    EVP_CIPHER_CTX_set_padding(c, 0);
    ENG(EVP_EncryptUpdate(c, o, &l, in, n) > 0); ENG(EVP_EncryptFinal_ex(c, o + l, &m) > 0);
    ref_crypt(&rm, key, iv, 1, in, n, want);
    if (l + m != n || memcmp(o, want, n)) vh_viol("cipher-result", "%s of %d octets is wrong (CRYPT_PARAMS: command %s, environment %s; cycle %d)", d->name, n, set[0] ? set[0] : "-", env[0] ? env[0] : "-", cycles);
    vh_count("cipher_results", 1); if (!strncmp(d->name, "gost89", 6)) vh_sig("cipher|%s|%s|%d", d->name, p ? p : "", !!set[0] + 2 * !!env[0]);
    vh_log("cipher %s", d->name);
end:
    EVP_CIPHER_CTX_free(c);
}
static void use_digest(void)
{
    static const char *nm[] = { "md_gost94", "md_gost12_256", "md_gost12_512", "streebog256", "streebog512" }; u8 b[600], o[64], w[64]; unsigned l; int k = rn(5), n = rlen(600); EVP_MD_CTX *c = EVP_MD_CTX_new(); const EVP_MD *md = EVP_get_digestbyname(nm[k]);
    ENG(md); rcontent(b, n);
    ENG(EVP_DigestInit_ex(c, md, chance(1, 2) || !deflt ? vh_eng : NULL) > 0 && EVP_DigestUpdate(c, b, n) > 0 && EVP_DigestFinal_ex(c, o, &l) > 0);
    if (k == 0) ref_gost94(SB_94CP, b, n, w); else ref_streebog(k == 1 || k == 3 ? 256 : 512, b, n, w);
    if (memcmp(o, w, l)) vh_viol("digest-result", "%s of %d octets is wrong (cycle %d)", nm[k], n, cycles);
    EVP_MD_CTX_free(c); vh_count("digest_results", 1); vh_log("digest %s", nm[k]);
}
static EVP_PKEY *newkey(void)
{
    static const struct { const char *n, *p; } t[] = { {"gost2001", "A"}, {"gost2001", "XA"}, {"gost2012_256", "A"}, {"gost2012_256", "TCA"}, {"gost2012_512", "A"}, {"gost2012_512", "B"}, {"gost2012_512", "C"} }; int i = rn(N(t)); EVP_PKEY *k = NULL; EVP_PKEY_CTX *c;
    ENG(c = EVP_PKEY_CTX_new_id(nid_of(t[i].n), deflt ? NULL : vh_eng)); ENG(EVP_PKEY_keygen_init(c) > 0 && EVP_PKEY_CTX_ctrl_str(c, "paramset", t[i].p) > 0 && EVP_PKEY_keygen(c, &k) > 0);
    EVP_PKEY_CTX_free(c); return k;
}
static const EVP_MD *mdof(EVP_PKEY *k) { int n = EVP_PKEY_id(k); return EVP_get_digestbynid(n == NID_id_GostR3410_2001 ? NID_id_GostR3411_94 : n == NID_id_GostR3410_2012_256 ? NID_id_GostR3411_2012_256 : NID_id_GostR3411_2012_512); }
static void signver(EVP_PKEY *k, const char *when)
{
    EVP_MD_CTX *c = EVP_MD_CTX_new(); u8 s[128], b[50]; size_t l = 128; rbytes(b, 50);
    ENG(EVP_DigestSignInit(c, NULL, mdof(k), NULL, k) > 0 && EVP_DigestSign(c, s, &l, b, 50) > 0); EVP_MD_CTX_free(c);
    c = EVP_MD_CTX_new(); ENG(EVP_DigestVerifyInit(c, NULL, mdof(k), NULL, k) > 0); if (EVP_DigestVerify(c, s, l, b, 50) != 1) vh_viol("signature", "a signature is refused (%s)", when); EVP_MD_CTX_free(c);
    b[3] ^= 1; c = EVP_MD_CTX_new(); ENG(EVP_DigestVerifyInit(c, NULL, mdof(k), NULL, k) > 0); if (EVP_DigestVerify(c, s, l, b, 50) == 1) vh_viol("signature", "a wrong signature is accepted (%s)", when); EVP_MD_CTX_free(c);
    vh_count("signatures", 1);
}
static void use_key(void)
{
    if (!deflt) return;
    EVP_PKEY *k = newkey(); PKCS8_PRIV_KEY_INFO *p8; const u8 *pk; int n, want; const char *f = eff(2);
    signver(k, "new key");
    ENG(p8 = EVP_PKEY2PKCS8(k)); ENG(PKCS8_pkey_get0(NULL, &pk, &n, NULL, p8));
    want = EVP_PKEY_id(k) == NID_id_GostR3410_2012_512 ? 64 : 32;
    if (f && !strcmp(f, "LEGACY_PK_WRAP") ? n != want + 2 || pk[0] != 4 || pk[1] != want : n != want) vh_viol("key-format", "a private key is written as %d octets %02x.. although the format is %s (command %s, environment %s)", n, pk[0], f ? f : "-", set[2] ? set[2] : "-", env[2] ? env[2] : "-");
    EVP_PKEY *q; ENG(q = EVP_PKCS82PKEY(p8)); if (EVP_PKEY_eq(k, q) != 1) vh_viol("key-format", "the key read back differs");
    EVP_PKEY_free(q); PKCS8_PRIV_KEY_INFO_free(p8);
    vh_count("keys", 1); vh_sig("key|%s|%d", f ? f : "", !!set[2] + 2 * !!env[2]);
    /* key transport takes its set from the key, whatever the commands say */
    EVP_PKEY_CTX *c = EVP_PKEY_CTX_new(k, NULL); u8 key[32], o[600], back[32]; size_t l = 600, bl = 32; rbytes(key, 32);
    int sn = EVP_PKEY_id(k) == NID_id_GostR3410_2001 ? NID_id_Gost28147_89_CryptoPro_A_ParamSet : NID_id_tc26_gost_28147_param_Z;
    if (EVP_PKEY_encrypt_init(c) <= 0 || EVP_PKEY_encrypt(c, o, &l, key, 32) <= 0) vh_viol("transport", "a key can not be transported: %s", vh_eng_reason());
    else {
        ASN1_OBJECT *ob = OBJ_nid2obj(sn); u8 *d = NULL; int dl = i2d_ASN1_OBJECT(ob, &d); if (!memmem(o, l, d, dl)) vh_viol("transport-set", "a transported key does not name the set %s", OBJ_nid2sn(sn)); OPENSSL_free(d);
        EVP_PKEY_CTX_free(c); c = EVP_PKEY_CTX_new(k, NULL); ENG(EVP_PKEY_decrypt_init(c) > 0); if (EVP_PKEY_decrypt(c, back, &bl, o, l) <= 0 || memcmp(back, key, 32)) vh_viol("transport", "a transported key does not come back (set %s)", OBJ_nid2sn(sn));
        vh_count("transports", 1);
    }
    ERR_clear_error();
    EVP_PKEY_CTX_free(c); EVP_PKEY_free(k); vh_log("key");
}
static void use_pbe(void)
{
    static const char *cn[] = { "gost89", "gost89-cbc", "magma-cbc", "kuznyechik-cbc", "magma-ctr", "kuznyechik-ctr" }; EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new(); int nid = -1, i = rn(2), want = NID_id_tc26_hmac_gost_3411_2012_512; const char *p = eff(1), *q = eff(0);
    if (q && (!strcmp(q, "no-such-set") || !strcmp(q, "md_gost94"))) goto end;
    if (p && !strcmp(p, "md_gost12_256")) want = NID_id_tc26_hmac_gost_3411_2012_256; else if (p && !strcmp(p, "md_gost94")) want = NID_id_HMACGostR3411_94;
    ENG(EVP_EncryptInit_ex(c, EVP_get_cipherbyname(cn[i]), chance(1, 2) || !deflt ? vh_eng : NULL, NULL, NULL) > 0);
    if (EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_PBE_PRF_NID, 0, &nid) <= 0 || nid != want) vh_viol("pbe-hash", "%s: hash for PBE is %d although PBE_PARAMS is %s (command %s, environment %s)", cn[i], nid, p ? p : "-", set[1] ? set[1] : "-", env[1] ? env[1] : "-");
    vh_count("pbe", 1); vh_sig("pbe|%s|%d", p ? p : "", !!set[1] + 2 * !!env[1]); vh_log("pbe");
end:
    EVP_CIPHER_CTX_free(c);
}
static void do_set(void)
{
    int p = rn(3); const char *v = p == 0 ? crypt_names[rn(N(crypt_names))] : p == 1 ? pbe_names[rn(3)] : pk_names[rn(2)];
    char tmp[100]; strcpy(tmp, v);      /* the engine has to keep a copy */
    if (ENGINE_ctrl_cmd_string(vh_eng, cmds[p], tmp, 0) <= 0) vh_viol("command", "%s %s is refused", cmds[p], v);
    memset(tmp, 'x', sizeof tmp);
    set[p] = env[p] ? env[p] : v;       /* documented: the environment wins */
    vh_count("commands", 1); vh_log("%s = %s", cmds[p], v);
    if (chance(1, 8)) { if (ENGINE_ctrl_cmd_string(vh_eng, chance(1, 2) ? "NO_SUCH_COMMAND" : "CRYPT_PARAM", "x", 0) > 0) vh_viol("command", "an unknown command is accepted"); if (ENGINE_ctrl(vh_eng, ENGINE_CMD_BASE + 3 + rn(20), 0, tmp, NULL) > 0) vh_viol("command", "an unknown command number is accepted"); ERR_clear_error(); }
}
static void do_env(void)    /* only while unloaded: when a change takes effect is not promised */
{
    int p = rn(3);
    if (chance(1, 2)) { unsetenv(envs[p]); env[p] = NULL; }
    else { env[p] = p == 0 ? crypt_names[rn(N(crypt_names) - 2)] : p == 1 ? pbe_names[rn(3)] : pk_names[rn(2)]; setenv(envs[p], env[p], 1); }
    vh_log("environment %s = %s", envs[p], env[p] ? env[p] : "-");
}
static void live_make(void)
{
    if (live_c || live_m || live_k) return;
    live_d = &cds[rn(NCD)];
    if (live_d->sbox) live_d = &cds[6];
    rbytes(live_key, 32); memset(live_iv, 0, 16); rbytes(live_iv, live_d->ivlen);
    if (chance(2, 3)) { live_c = EVP_CIPHER_CTX_new(); ENG(EVP_EncryptInit_ex(live_c, EVP_get_cipherbyname(live_d->name), vh_eng, live_key, live_d->ivlen ? live_iv : NULL) > 0); EVP_CIPHER_CTX_set_padding(live_c, 0); }
    if (chance(1, 2)) { live_m = EVP_MD_CTX_new(); ENG(EVP_DigestInit_ex(live_m, EVP_get_digestbyname("md_gost12_256"), vh_eng) > 0 && EVP_DigestUpdate(live_m, live_key, 32) > 0); }
    if (chance(1, 2) && deflt) live_k = newkey();
    vh_log("contexts made");
}
static void live_end(void)
{
    u8 in[160] = {1}, o[200], w[200]; int l, m; unsigned u;
    if (live_c) {
        ref_mode rm = { live_d->t, live_d->sb, live_d->mode, live_d->mesh, live_d->section };
        ENG(EVP_EncryptUpdate(live_c, o, &l, in, 160) > 0 && EVP_EncryptFinal_ex(live_c, o + l, &m) > 0); ref_crypt(&rm, live_key, live_iv, 1, in, 160, w);
        if (memcmp(o, w, 160)) vh_viol("live-context", "%s context made before the unloading is wrong", live_d->name);
        EVP_CIPHER_CTX_free(live_c); live_c = NULL;
    }
    if (live_m) { ENG(EVP_DigestFinal_ex(live_m, o, &u) > 0); ref_streebog(256, live_key, 32, w); if (memcmp(o, w, 32)) vh_viol("live-context", "digest context made before the unloading is wrong"); EVP_MD_CTX_free(live_m); live_m = NULL; }
    if (live_k) {       /* a key keeps the engine; operations on it look the engine up again, so it can only be freed */
        if (!pending) signver(live_k, "key made before");
        EVP_PKEY_free(live_k); live_k = NULL;
    }
    ERR_clear_error();
    if (pending) { pending = 0; for (int i = 0; i < 3; i++) set[i] = NULL; vh_count("released_after_unload", 1); vh_log("last context released"); gone(); }
}
static void life_case(void)
{
    int n = 10 + rn(40);
    if (!tracking) tracking = serial;
    while (n--) {
        int k = rn(16);
        if (pending) { live_end(); continue; }
        if (!loaded) { if (chance(1, 3)) do_env(); else do_load(); continue; }
        switch (k) {
        case 0: case 1: do_unload(); break;
        case 2: again(); break;
        case 3: announced(); break;
        case 4: case 5: case 6: do_set(); break;
        case 7: case 8: case 9: use_cipher(); break;
        case 10: use_digest(); break;
        case 11: case 12: use_key(); break;
        case 13: use_pbe(); break;
        case 14: if (chance(1, 2)) live_make(); break;
        default: if (chance(1, 2)) live_end();
        }
        if (vh_case_failed > 10) break;
    }
    live_end();
    if (loaded) { announced(); do_unload(); live_end(); }
    for (int i = 0; i < 3; i++) { unsetenv(envs[i]); env[i] = NULL; }
}
void vh_program_init(int argc, char **argv)
{
    (void)argc; (void)argv;
    HARN(CRYPTO_set_mem_functions(m_alloc, m_realloc, m_free));
    if (ref_selftest()) vh_fatal("reference self-test");
    setenv("OPENSSL_ENGINES", "/nonexistent", 1);
    for (int i = 0; i < 3; i++) unsetenv(envs[i]);
    OPENSSL_init_crypto(OPENSSL_INIT_NO_LOAD_CONFIG, NULL);
}
void vh_program_exit(void) { ERR_clear_error(); }
const vh_workload vh_workloads[] = { {"life", life_case, NULL, NULL}, {0} };
