/* P27: what only the provider has: MACs, parameters, dispatch tables, loading and unloading */
#include "prov.h"
#include <openssl/asn1.h>
#include <openssl/asn1t.h>

static const struct { const char *name, *alt; int max, def, sb; } ma[] = {
    { "gost-mac", "1.2.643.2.2.22", 8, 4, SB_A }, { "gost-mac-12", NULL, 8, 4, SB_Z }, { "magma-mac", NULL, 8, 8, SB_Z },
    { "kuznyechik-mac", NULL, 16, 16, SB_Z }, { "kuznyechik-ctr-acpkm-omac", "1.2.643.7.1.1.5.2.2", 16, 16, SB_Z } };
#define NM 5
typedef struct {
    EVP_MAC_CTX *c; int alg, keyed, live, dups, inits, ops, fins;
    u8 key[32]; size_t size, section, tstar; u8 *buf; size_t len, cap;
} ms;
#define MAXC 4
static ms x[MAXC];
static EVP_MAC *fetched[NM];
static void mac_setup(void)
{
    for (int i = 0; i < NM; i++) if (!fetched[i]) ENG(fetched[i] = EVP_MAC_fetch(NULL, ma[i].alt && chance(1, 2) ? ma[i].alt : ma[i].name, NULL));
}
static void mdrop(ms *s) { EVP_MAC_CTX_free(s->c); free(s->buf); memset(s, 0, sizeof *s); }
static void mac_done(void)
{
    for (int i = 0; i < MAXC; i++) mdrop(&x[i]);
    for (int i = 0; i < NM; i++) { EVP_MAC_free(fetched[i]); fetched[i] = NULL; }
}
static void expect(ms *s, u8 *out)
{
    switch (s->alg) {
    case 0: case 1: ref_imit(ma[s->alg].sb, 1, s->key, NULL, s->buf, s->len, 64, out); break;
    case 2: ref_omac(BC_MAGMA, s->key, s->buf, s->len, out); break;
    case 3: ref_omac(BC_KUZ, s->key, s->buf, s->len, out); break;
    case 4: ref_omac_acpkm(BC_KUZ, s->key, s->section, s->tstar, s->buf, s->len, out); break;
    }
}
/* parameters of the wrong kind or value: refused, or at least without effect on memory */
static void mac_begin(int i)
{
    ms *s = &x[i];
    if (s->c && chance(1, 3)) mdrop(s);
    int fresh = !s->c;
    if (fresh) {
        s->alg = (int)rn(NM); s->size = ma[s->alg].def;
        ENG(s->c = EVP_MAC_CTX_new(fetched[s->alg]));
        vh_log("ctx%d new %s", i, ma[s->alg].name);
    }
    s->len = 0; s->ops = 0; s->inits++;
    OSSL_PARAM p[6]; int n = 0; size_t sz = 0, km = 0, ckm = 0; u8 *k = NULL; u8 bytes[64];
    int how = s->keyed && chance(1, 4) ? 2 : (int)rn(2);       /* key as argument, as parameter, or the one there is */
    if (chance(1, 40)) {                                        /* a key of a length there is none of */
        size_t kl = rn(4) ? rn(32) : 33 + rn(31); u8 *b = malloc(kl ? kl : 1); rbytes(b, kl);
        OSSL_PARAM q[2] = { OSSL_PARAM_construct_octet_string("key", b, kl), OSSL_PARAM_construct_end() };
        int r = chance(1, 2) ? EVP_MAC_init(s->c, b, kl, NULL) : EVP_MAC_CTX_set_params(s->c, q);
        vh_log("ctx%d key of %zu -> %d", i, kl, r);
        if (r == 1) vh_viol("prov-mac-key-length", "%s takes a key of %zu octets", ma[s->alg].name, kl);
        free(b); ERR_clear_error(); vh_count("bad_keys", 1); mdrop(s); return;
    }
    if (how != 2) { rkey(s->key, 32); memcpy(bytes, s->key, 32); k = bytes; s->section = 4096; s->tstar = 4096; }
    if (how == 1) p[n++] = OSSL_PARAM_construct_octet_string("key", k, 32);
    if (chance(1, 3)) { sz = 1 + rn(ma[s->alg].max); s->size = sz; p[n++] = OSSL_PARAM_construct_size_t("size", &sz); }
    if (s->alg == 4 && how != 2 && chance(2, 3)) {
        km = 16 * (1 + rn(chance(1, 2) ? 6 : 70)); s->section = km;
        p[n++] = OSSL_PARAM_construct_size_t("key-mesh", &km);
        if (chance(1, 2)) { ckm = 48 * (1 + rn(chance(1, 2) ? 4 : 40)); s->tstar = ckm; p[n++] = OSSL_PARAM_construct_size_t("cipher-key-mesh", &ckm); }
    }
    p[n] = OSSL_PARAM_construct_end();
    /* all with the initialisation, or the settings afterwards */
    int later = how == 0 && n && chance(1, 2);
    int r = EVP_MAC_init(s->c, how ? NULL : k, how ? 0 : 32, n && !later ? p : NULL);
    vh_log("ctx%d init %s how=%d key=%s size=%zu section=%zu tstar=%zu%s -> %d", i, ma[s->alg].name, how, vh_hex(s->key, 32), s->size, s->section, s->tstar, later ? " (set later)" : "", r);
    if (r == 1 && later) { r = EVP_MAC_CTX_set_params(s->c, p); vh_log("ctx%d set -> %d", i, r); }
    memset(bytes, 0xDD, sizeof bytes);
    if (r != 1) { vh_viol("prov-mac-init", "%s: initialisation %s is refused (%s) %s", ma[s->alg].name, how == 2 ? "with the key there is" : how ? "with the key as a parameter" : "with a key", fresh ? "new context" : "used context", vh_eng_reason()); mdrop(s); return; }
    s->keyed = s->live = 1;
    if (how == 2) vh_count("mac_reinits_same_key", 1);
    if (!fresh) vh_count("mac_reinits", 1);
    if (chance(1, 3)) {
        size_t a = EVP_MAC_CTX_get_mac_size(s->c);
        if (a != s->size) vh_viol("prov-mac-size", "%s reports a size of %zu, not %zu", ma[s->alg].name, a, s->size);
    }
    if (chance(1, 6)) {
        size_t l = 0, kl = 0; OSSL_PARAM g[3] = { OSSL_PARAM_construct_size_t("size", &l), OSSL_PARAM_construct_size_t("keylen", &kl), OSSL_PARAM_construct_end() };
        if (EVP_MAC_CTX_get_params(s->c, g) != 1 || l != s->size || kl != 32) vh_viol("prov-mac-params", "%s: size %zu, key length %zu", ma[s->alg].name, l, kl);
    }
}
static void mac_feed(int i, size_t n)
{
    ms *s = &x[i];
    if (s->len + n + 1 > s->cap) { s->cap = s->len + n + 4096; HARN(s->buf = realloc(s->buf, s->cap)); }
    u8 *d = malloc(n ? n : 1); rcontent(d, n);
    memcpy(s->buf + s->len, d, n); s->len += n; s->ops++;
    int r = EVP_MAC_update(s->c, d, n);
    vh_log("ctx%d update %zu (total %zu) -> %d", i, n, s->len, r);
    if (r != 1) { vh_viol("prov-mac-update", "%s: update of %zu is refused", ma[s->alg].name, n); s->live = 0; }
    free(d); vh_count("mac_updates", 1);
}
static void mac_fin(int i)
{
    ms *s = &x[i]; u8 e[16], *got; size_t l = 0;
    if (chance(1, 6)) {
        if (EVP_MAC_final(s->c, NULL, &l, 0) != 1 || l != s->size) vh_viol("prov-mac-size", "%s: query gives %zu, not %zu", ma[s->alg].name, l, s->size);
    }
    if (s->size > 1 && chance(1, 8)) {          /* too small a buffer */
        size_t sm = rn(s->size); got = malloc(sm ? sm : 1);
        int r = EVP_MAC_final(s->c, got, &l, sm);
        vh_log("ctx%d final into %zu -> %d", i, sm, r);
        if (r == 1) vh_viol("prov-mac-short-buffer", "%s of %zu octets is delivered in %zu", ma[s->alg].name, s->size, sm);
        free(got); ERR_clear_error(); vh_count("short_buffers", 1);
    }
    if (chance(1, 12)) {                        /* a size which no MAC of this kind has: refused now or when the MAC is taken */
        size_t bad = rn(3) ? ma[s->alg].max + 1 + rn(rn(2) ? 200 : 3) : rn(2) ? 0 : ((size_t)1 << (31 + rn(3))) + rn(20);
        OSSL_PARAM p[2] = { OSSL_PARAM_construct_size_t("size", &bad), OSSL_PARAM_construct_end() };
        int r = EVP_MAC_CTX_set_params(s->c, p);
        vh_log("ctx%d size %zu -> %d", i, bad, r); vh_count("bad_sizes", 1);
        if (r == 1) {
            size_t room = bad > 1000 ? 1000 : bad; got = malloc(1000); memset(got, 0x5A, 1000);
            r = EVP_MAC_final(s->c, got, &l, bad > 1000 ? bad : room);
            if (r == 1) vh_viol("prov-mac-size-accepted", "%s: size %zu is accepted, and %zu octets delivered", ma[s->alg].name, bad, l);
            free(got); ERR_clear_error(); mdrop(s); return;
        }
        ERR_clear_error();
    }
    expect(s, e);
    size_t room = s->size + (chance(1, 3) ? rn(40) : 0);
    got = malloc(room + 1); memset(got, 0x5A, room + 1);
    int r = EVP_MAC_final(s->c, got, &l, room);
    vh_log("ctx%d final -> %d %zu %s", i, r, l, vh_hex(got, s->size));
    int over = 0; for (size_t k = s->size; k <= room; k++) over |= got[k] != 0x5A;
    if (r != 1 || l != s->size || over) vh_viol("prov-mac-final", "%s: result %d, length %zu instead of %zu%s", ma[s->alg].name, r, l, s->size, over ? ", more written" : "");
    else if (memcmp(got, e, l)) vh_viol("prov-mac-value", "%s of %zu octets in %d updates, size %zu, section %zu/%zu, %d initialisations, %d duplications: got %s want %s", ma[s->alg].name, s->len, s->ops, s->size, s->section, s->tstar, s->inits, s->dups, vh_hex(got, l), vh_hex(e, l));
    free(got); s->live = 0; s->fins++;
    vh_count("macs_checked", 1);
    vh_sig("mac %d %zu %zu %d %d %d %d", s->alg, s->size, s->len > 48 ? 48 + s->len % 16 : s->len, s->ops > 3 ? 3 : s->ops, s->inits > 3 ? 3 : s->inits, s->dups > 1, s->section < 100);
    vh_sample("%s size %zu, %zu octets, %d updates, initialised %d times, duplicated %d times: %s", ma[s->alg].name, s->size, s->len, s->ops, s->inits, s->dups, vh_hex(e, s->size));
    if (chance(1, 5)) {         /* the finished context cannot go on as if nothing had happened */
        u8 o[16] = { 0 }; size_t q = 0;
        if (EVP_MAC_update(s->c, e, 1) == 1 && EVP_MAC_final(s->c, o, &q, sizeof o) == 1 && q == s->size && s->size >= 4) {
            u8 c2[16]; if (s->len + 2 > s->cap) { s->cap += 64; s->buf = realloc(s->buf, s->cap); }
            s->buf[s->len++] = e[0]; expect(s, c2);
            if (memcmp(c2, o, q)) { s->len = 1; s->buf[0] = e[0]; expect(s, c2); }
            if (memcmp(c2, o, q)) vh_viol("prov-mac-stale", "%s: used after its end without an initialisation gives %s", ma[s->alg].name, vh_hex(o, q));
        }
        ERR_clear_error();
    }
}
static void run_mac(void)
{
    int steps = 5 + (int)rn(30); size_t mx = chance(1, 30) ? 30000 : chance(1, 3) ? 3000 : chance(1, 2) ? 200 : 24;
    mac_setup();
    for (int k = 0; k < steps; k++) {
        int i = (int)rn(MAXC); ms *s = &x[i];
        if (!s->live) { mac_begin(i); continue; }
        switch (rn(10)) {
        case 0: case 1: case 2: mac_feed(i, rlen(mx)); break;
        case 3: mac_feed(i, rn(9)); break;
        case 4: case 5: {
            int j = (int)rn(MAXC); if (i == j) break;
            mdrop(&x[j]);
            EVP_MAC_CTX *c = EVP_MAC_CTX_dup(s->c);
            vh_log("dup ctx%d -> ctx%d %s", i, j, c ? "" : "failed");
            if (!c) { vh_viol("prov-mac-dup", "%s is not duplicated", ma[s->alg].name); break; }
            x[j] = *s; x[j].c = c; HARN(x[j].buf = malloc(s->cap + 1)); if (s->len) memcpy(x[j].buf, s->buf, s->len);
            x[j].dups++; vh_count("mac_dups", 1);
            if (chance(1, 3)) { vh_log("free ctx%d", i); mdrop(s); }
            break; }
        case 6: case 7: mac_fin(i); break;
        case 8: if (chance(1, 3)) mac_begin(i); break;
        case 9: if (chance(1, 8)) { vh_log("free ctx%d", i); mdrop(s); } break;
        }
    }
    for (int i = 0; i < MAXC; i++) { if (x[i].live) mac_fin(i); if (chance(1, 2)) mdrop(&x[i]); else { x[i].live = 0; } }
    mac_done();
}

/* --- the tables given to libcrypto: bounded (ASan watches this walk), complete, and saying what is so --- */
static const struct { const char *name; int bs, iv, cms; } ca[] = {
    { "gost89", 1, 8, 1 }, { "gost89-cnt", 1, 8, 0 }, { "gost89-cnt-12", 1, 8, 0 }, { "gost89-cbc", 8, 8, 1 },
    { "kuznyechik-ecb", 16, 0, 0 }, { "kuznyechik-cbc", 16, 16, 0 }, { "kuznyechik-cfb", 1, 16, 0 }, { "kuznyechik-ofb", 1, 16, 0 }, { "kuznyechik-ctr", 1, 8, 0 },
    { "magma-cbc", 8, 8, 0 }, { "magma-ctr", 1, 4, 0 }, { "magma-ctr-acpkm", 1, 4, 1 }, { "1.2.643.7.1.1.5.1.1", 1, 4, 1 }, { "magma-ctr-acpkm-omac", 1, 4, 1 }, { "magma-mgm", 1, 8, 0 },
    { "kuznyechik-ctr-acpkm", 1, 8, 1 }, { "1.2.643.7.1.1.5.2.1", 1, 8, 1 }, { "kuznyechik-ctr-acpkm-omac", 1, 8, 1 }, { "kuznyechik-mgm", 1, 16, 0 }, { "1.2.643.2.2.21", 1, 8, 1 }, { "GOST 28147-89", 1, 8, 1 } };
static const struct { const char *name; int size, bs; } da[] = {
    { "md_gost12_256", 32, 64 }, { "md_gost12_512", 64, 64 }, { "md_gost94", 32, 32 }, { "1.2.643.7.1.1.2.2", 32, 64 }, { "1.2.643.7.1.1.2.3", 64, 64 }, { "1.2.643.2.2.9", 32, 32 },
    { "id-tc26-gost3411-12-256", 32, 64 }, { "id-tc26-gost3411-12-512", 64, 64 }, { "id-GostR3411-94", 32, 32 } };
static void run_tables(void)
{
    int algs = 0;
    for (int op = 1; op <= 22; op++) {
        int nc = 0; const OSSL_ALGORITHM *a = OSSL_PROVIDER_query_operation(vp_prov, op, &nc);
        for (; a && a->algorithm_names; a++, algs++) {
            unsigned char seen[256] = { 0 }; int n = 0, dup = 0;
            for (const OSSL_DISPATCH *d = a->implementation; d->function_id; d++, n++) {
                if (n > 60 || d->function_id < 0 || d->function_id > 255) { dup = 1; break; }
                dup |= seen[d->function_id]; seen[d->function_id] = 1;
                if (!d->function) vh_viol("prov-table", "%s: no function for %d", a->algorithm_names, d->function_id);
            }
            if (dup) vh_viol("prov-table", "%s: the table of functions does not end where it should (%d entries)", a->algorithm_names, n);
            vh_count("tables_walked", 1); vh_sig("table|%d|%s", op, a->algorithm_names);
        }
        if (a) OSSL_PROVIDER_unquery_operation(vp_prov, op, a);
    }
    if (algs != 25) vh_viol("prov-table", "%d algorithms", algs);
    for (size_t i = 0; i < sizeof ca / sizeof *ca; i++) {
        EVP_CIPHER *c = EVP_CIPHER_fetch(NULL, ca[i].name, NULL); ENG(c);
        if (EVP_CIPHER_get_block_size(c) != ca[i].bs || EVP_CIPHER_get_iv_length(c) != ca[i].iv || EVP_CIPHER_get_key_length(c) != 32)
            vh_viol("prov-sizes", "%s: block %d, IV %d, key %d", ca[i].name, EVP_CIPHER_get_block_size(c), EVP_CIPHER_get_iv_length(c), EVP_CIPHER_get_key_length(c));
        if (strcmp(OSSL_PROVIDER_get0_name(EVP_CIPHER_get0_provider(c)), "gost")) vh_viol("prov-source", "%s comes from %s", ca[i].name, OSSL_PROVIDER_get0_name(EVP_CIPHER_get0_provider(c)));
        /* parameters of a context */
        EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new(); u8 key[32], iv[16], g[64], m[80], o[96]; int l; rbytes(key, 32); rbytes(iv, 16); rbytes(m, 80);
        if (EVP_EncryptInit_ex2(x, c, key, ca[i].iv ? iv : NULL, NULL) != 1) {
            if (strstr(ca[i].name, "omac")) vh_viol("prov-acpkm-omac-init", "%s is offered, and cannot be initialised", ca[i].name);
            else vh_viol("prov-init", "%s is refused", ca[i].name);
            ERR_clear_error();
        } else {
            size_t a = 0, b = 0, k = 0;
            OSSL_PARAM p[4] = { OSSL_PARAM_construct_size_t("ivlen", &a), OSSL_PARAM_construct_size_t("keylen", &k), OSSL_PARAM_construct_size_t("blocksize", &b), OSSL_PARAM_construct_end() };
            if (EVP_CIPHER_CTX_get_params(x, p) != 1 || (int)a != ca[i].iv || k != 32 || (int)b != ca[i].bs) vh_viol("prov-sizes", "context of %s: IV %zu key %zu block %zu", ca[i].name, a, k, b);
            if (ca[i].iv) {     /* the IV in force, into a buffer of the right length or a longer one, and refused a shorter one */
                size_t room = chance(1, 2) ? ca[i].iv : chance(1, 2) ? 64 : rn(ca[i].iv); u8 *q = malloc(room + 1); memset(q, 0x5A, room + 1); memset(g, 0, 64);
                int r = EVP_CIPHER_CTX_get_updated_iv(x, q, room);
                if (room < (size_t)ca[i].iv ? r == 1 : r != 1 || memcmp(q, iv, ca[i].iv)) vh_viol("prov-iv", "%s: IV %s in %zu octets is %s (%d)", ca[i].name, vh_hex(iv, ca[i].iv), room, vh_hex(q, room > 16 ? 16 : room), r);
                if (q[room] != 0x5A) vh_viol("prov-iv", "%s: IV written beyond %zu octets", ca[i].name, room);
                free(q); ERR_clear_error(); vh_count("ivs_read", 1);
            }
            ENG(EVP_EncryptUpdate(x, o, &l, m, 80) == 1);
            if (ca[i].iv && ca[i].bs > 1) {     /* CBC: the IV goes on with the last block of ciphertext */
                ENG(EVP_CIPHER_CTX_get_updated_iv(x, g, ca[i].iv) == 1);
                if (memcmp(g, o + l - ca[i].iv, ca[i].bs) && strcmp(ca[i].name, "kuznyechik-cbc")) vh_viol("prov-iv", "%s: IV after %d octets %s", ca[i].name, l, vh_hex(g, ca[i].iv));
            }
        }
        vh_sig("cipher|%s", ca[i].name);
        EVP_CIPHER_CTX_free(x); EVP_CIPHER_free(c); vh_count("ciphers_described", 1);
    }
    for (size_t i = 0; i < sizeof da / sizeof *da; i++) {
        EVP_MD *d = EVP_MD_fetch(NULL, da[i].name, NULL); ENG(d);
        if (EVP_MD_get_size(d) != da[i].size || EVP_MD_get_block_size(d) != da[i].bs || (EVP_MD_get_flags(d) & EVP_MD_FLAG_XOF)) vh_viol("prov-sizes", "%s: size %d block %d", da[i].name, EVP_MD_get_size(d), EVP_MD_get_block_size(d));
        EVP_MD_CTX *x = EVP_MD_CTX_new(), *y = EVP_MD_CTX_new(); u8 m[200], o[64], e[64]; unsigned l = 0; size_t n = rn(200); rcontent(m, n);
        ENG(EVP_DigestInit_ex2(x, d, NULL) == 1 && EVP_MD_CTX_copy_ex(y, x) == 1 && EVP_DigestUpdate(y, m, n) == 1 && EVP_DigestFinal_ex(y, o, &l) == 1);
        ref_hash(da[i].size == 64 ? 2 : da[i].bs == 64, m, n, e);
        if ((int)l != da[i].size || memcmp(o, e, l)) vh_viol("prov-digest", "%s of %zu octets: %s", da[i].name, n, vh_hex(o, l));
        vh_sig("digest|%s", da[i].name);
        EVP_MD_CTX_free(x); EVP_MD_CTX_free(y); EVP_MD_free(d); vh_count("digests_described", 1);
    }
    for (int i = 0; i < NM; i++) for (int j = 0; j < 2; j++) {
        const char *nm = j ? ma[i].alt : ma[i].name; if (!nm) continue;
        EVP_MAC *m = EVP_MAC_fetch(NULL, nm, NULL); ENG(m);
        size_t a = 0, k = 0; OSSL_PARAM p[3] = { OSSL_PARAM_construct_size_t("size", &a), OSSL_PARAM_construct_size_t("keylen", &k), OSSL_PARAM_construct_end() };
        if (EVP_MAC_get_params(m, p) != 1 || (int)a != ma[i].def || k != 32) vh_viol("prov-sizes", "%s: size %zu key %zu", nm, a, k);
        vh_sig("mac|%s", nm);
        EVP_MAC_free(m); vh_count("macs_described", 1);
    }
    const char *nm = NULL; int st = 0; OSSL_PARAM p[3] = { OSSL_PARAM_construct_utf8_ptr("name", (char **)&nm, 0), OSSL_PARAM_construct_int("status", &st), OSSL_PARAM_construct_end() };
    if (OSSL_PROVIDER_get_params(vp_prov, p) != 1 || !nm || !strstr(nm, "GOST") || st != 1) vh_viol("prov-params", "name %s status %d", nm ? nm : "", st);
    vh_sample("%d algorithms", algs);
}

/* --- loading and unloading, in several library contexts, with objects of each in use --- */
int GOST_provider_init(const OSSL_CORE_HANDLE *core, const OSSL_DISPATCH *in, const OSSL_DISPATCH **out, void **ctx);
#define NL 3
static struct { OSSL_LIB_CTX *l; OSSL_PROVIDER *p; int made; } lc[NL];
#define NO 6
typedef struct { int kind, from, enc, alg; EVP_MD_CTX *d; EVP_CIPHER_CTX *c; EVP_MAC_CTX *m; u8 *in, *out, key[32], iv[16]; size_t n; } ob;
static ob o_[NO];
static const struct { const char *n; bc_type t; int mode, mesh, iv; } oc[] = { { "kuznyechik-ctr", BC_KUZ, M_CTR, 0, 8 }, { "magma-ctr", BC_MAGMA, M_CTR, 0, 4 }, { "gost89-cnt", BC_GOST89, M_G89CNT, 1, 8 }, { "kuznyechik-cfb", BC_KUZ, M_CFB, 0, 16 } };
static void ob_end(ob *o)
{
    if (!o->kind) return;
    u8 e[64], g[64]; unsigned l = 0; size_t ll = 0; int f;
    if (o->kind == 1) {
        if (EVP_DigestFinal_ex(o->d, g, &l) != 1) vh_viol("prov-object", "digest of library context %d fails", o->from);
        else { ref_hash(o->alg, o->in, o->n, e); if (memcmp(e, g, l) || (int)l != ref_hash_len(o->alg)) vh_viol("prov-object", "digest %d of library context %d: %s", o->alg, o->from, vh_hex(g, l)); }
    } else if (o->kind == 2) {
        ref_mode m = { oc[o->alg].t, oc[o->alg].t == BC_GOST89 ? SB_A : SB_Z, oc[o->alg].mode, oc[o->alg].mesh, 0 }; u8 *w = malloc(o->n + 16);
        HARN(ref_crypt(&m, o->key, o->iv, o->enc, o->in, o->n, w));
        if (memcmp(w, o->out, o->n)) vh_viol("prov-object", "%s of library context %d: wrong output", oc[o->alg].n, o->from);
        free(w); f = 0; if (EVP_CipherFinal_ex(o->c, g, &f) != 1) vh_viol("prov-object", "%s: final", oc[o->alg].n);
    } else if (o->kind == 3) {
        if (EVP_MAC_final(o->m, g, &ll, sizeof g) != 1) vh_viol("prov-object", "MAC of library context %d fails", o->from);
        else {
            if (o->alg == 0) ref_imit(SB_A, 1, o->key, NULL, o->in, o->n, 64, e); else ref_omac(o->alg == 2 ? BC_MAGMA : BC_KUZ, o->key, o->in, o->n, e);
            if (memcmp(e, g, ll) || (int)ll != ma[o->alg].def) vh_viol("prov-object", "%s of library context %d: %s", ma[o->alg].name, o->from, vh_hex(g, ll));
        }
    }
    vh_count("objects_judged", 1);
    EVP_MD_CTX_free(o->d); EVP_CIPHER_CTX_free(o->c); EVP_MAC_CTX_free(o->m); free(o->in); free(o->out); memset(o, 0, sizeof *o);
}
static void ob_new(ob *o, int i)
{
    static const char *dn[] = { "md_gost94", "md_gost12_256", "md_gost12_512" };
    memset(o, 0, sizeof *o); o->from = i; o->in = malloc(2000); o->out = malloc(2064); rkey(o->key, 32); rbytes(o->iv, 16);
    int k = 1 + (int)rn(3);
    if (k == 1) {
        o->alg = (int)rn(3); EVP_MD *m = EVP_MD_fetch(lc[i].l, dn[o->alg], NULL); ENG(m);
        o->d = EVP_MD_CTX_new(); ENG(EVP_DigestInit_ex(o->d, m, NULL) == 1); EVP_MD_free(m);
    } else if (k == 2) {
        o->alg = (int)rn(4); EVP_CIPHER *c = EVP_CIPHER_fetch(lc[i].l, oc[o->alg].n, NULL); ENG(c); o->enc = (int)rn(2); memset(o->iv + oc[o->alg].iv, 0, 16 - (size_t)oc[o->alg].iv);
        o->c = EVP_CIPHER_CTX_new(); ENG(EVP_CipherInit_ex(o->c, c, NULL, o->key, o->iv, o->enc) == 1); EVP_CIPHER_free(c);
    } else {
        o->alg = (int[]){ 0, 2, 3 }[rn(3)]; EVP_MAC *m = EVP_MAC_fetch(lc[i].l, ma[o->alg].name, NULL); ENG(m);
        ENG(o->m = EVP_MAC_CTX_new(m)); EVP_MAC_free(m);
        if (EVP_MAC_init(o->m, o->key, 32, NULL) != 1) {    /* the cipher of an OMAC comes from the default library context: see known_findings.txt */
            vh_viol(o->alg && !lc[0].p ? "prov-mac-private-libctx" : "prov-object", "%s takes no key in library context %d, while the provider is %sloaded in the default one", ma[o->alg].name, i, lc[0].p ? "" : "not ");
            EVP_MAC_CTX_free(o->m); free(o->in); free(o->out); memset(o, 0, sizeof *o); ERR_clear_error(); return;
        }
    }
    o->kind = k; vh_count("objects", 1);
    vh_log("object %d (%d) in library context %d", k, o->alg, i);
}
static void ob_use(ob *o)
{
    size_t k = rn(40); int l = 0, r; u8 *d = o->in + o->n;
    if (o->n + k > 1900) return;
    rbytes(d, k);
    r = o->kind == 1 ? EVP_DigestUpdate(o->d, d, k) : o->kind == 2 ? EVP_CipherUpdate(o->c, o->out + o->n, &l, d, (int)k) : EVP_MAC_update(o->m, d, k);
    if (r != 1 || (o->kind == 2 && l != (int)k)) vh_viol("prov-object", "object %d of library context %d refuses data", o->kind, o->from);
    o->n += k;
}
static int lc_made;
static void run_load(void)
{
    int steps = 15 + (int)rn(50), loads = 0, max = 0;
    char sig[200] = ""; size_t sl = 0;
    vp_unload();
    memset(lc, 0, sizeof lc); memset(o_, 0, sizeof o_); lc[0].made = 1;
    for (int k = 0; k < steps; k++) {
        int i = (int)rn(NL), j = (int)rn(NO), n = 0; char ch = 0;
        switch (rn(10)) {
        case 0: case 1:
            if (lc[i].p) break;
            if (!lc[i].made) { HARN(lc[i].l = OSSL_LIB_CTX_new()); lc_made++; HARN(OSSL_PROVIDER_add_builtin(lc[i].l, "gost", GOST_provider_init)); lc[i].made = 1; }
            ENG(lc[i].p = OSSL_PROVIDER_load(lc[i].l, "gost"));
            vh_log("load in %d", i); ch = 'L'; loads++; vh_count("provider_loads", 1);
            break;
        case 2:
            if (!lc[i].p) break;
            vh_log("unload in %d", i);
            ENG(OSSL_PROVIDER_unload(lc[i].p) == 1); lc[i].p = NULL; ch = 'U'; vh_count("provider_unloads", 1);
            if (i && chance(1, 2)) {            /* and away with the library context; its objects first */
                for (int q = 0; q < NO; q++) if (o_[q].kind && o_[q].from == i) ob_end(&o_[q]);
                vh_log("free %d", i); OSSL_LIB_CTX_free(lc[i].l); lc[i].l = NULL; lc[i].made = 0; ch = 'F'; vh_count("library_contexts_freed", 1);
            }
            break;
        case 3: case 4: if (lc[i].p && !o_[j].kind) { ob_new(&o_[j], i); ch = 'n'; } break;
        case 5: case 6: case 7: if (o_[j].kind) { ob_use(&o_[j]); ch = 'u'; if (!lc[o_[j].from].p) { ch = 'x'; vh_count("used_after_unload", 1); } } break;
        case 8: if (o_[j].kind) { ob_end(&o_[j]); ch = 'e'; } break;
        case 9:                                 /* something is refused: an error is reported */
            if (lc[i].p) {
                EVP_MAC *m = EVP_MAC_fetch(lc[i].l, "gost-mac", NULL); ENG(m); EVP_MAC_CTX *c = EVP_MAC_CTX_new(m); u8 b[40] = { 0 };
                ERR_clear_error();
                if (c && EVP_MAC_init(c, b, 31, NULL) == 1) vh_viol("prov-mac-key-length", "31 octets");
                unsigned long e = ERR_peek_last_error();
                /* OpenSSL has 128 numbers for libraries, and never reuses one: then it wraps around */
                if (c && (!ERR_GET_REASON(e) || (lc_made < 20 && !ERR_reason_error_string(e)))) vh_viol("prov-error", "no reason is given for a refused key (library context %d, error %lx)", i, e);
                EVP_MAC_CTX_free(c); EVP_MAC_free(m); ERR_clear_error(); vh_count("errors_reported", 1); ch = 'r';
            }
            break;
        }
        for (int q = 0; q < NL; q++) n += !!lc[q].p;
        if (n > max) max = n;
        if (ch && ch != 'u' && sl < sizeof sig - 2) { sig[sl++] = ch; sig[sl++] = '0' + i; }
    }
    for (int q = 0; q < NO; q++) ob_end(&o_[q]);
    for (int i = 0; i < NL; i++) {
        if (lc[i].p) ENG(OSSL_PROVIDER_unload(lc[i].p) == 1);
        if (i && lc[i].l) OSSL_LIB_CTX_free(lc[i].l);
        memset(&lc[i], 0, sizeof lc[i]);
    }
    sig[sl < 24 ? sl : 24] = 0;
    vh_sig("load %d %s", max, sig); vh_sample("%s, at most %d at a time", sig, max);
    vp_load();
}
/* --- one call with more octets than an int holds, against many calls with few --- */
#include <sys/mman.h>
static void run_big(void)
{
    static const char *bn[] = { "md_gost12_512", "kuznyechik-mac", "magma-mac", "gost-mac", "md_gost12_256", "gost-mac-12", "md_gost94" };
    int a = (int)(vh_case % 7), isd = !strncmp(bn[a], "md_", 3);
    size_t n = ((size_t)1 << 31) + (size_t)rn(200), head = rn(70);
    u8 *m = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0), o[2][64], key[32];
    HARN(m != MAP_FAILED);
    rbytes(m, 4096); rbytes(m + n - 500, 500); rkey(key, 32);
    size_t ll[2];
    for (int k = 0; k < 2; k++) {
        EVP_MD_CTX *d = NULL; EVP_MAC_CTX *c = NULL;
        if (isd) { EVP_MD *f = EVP_MD_fetch(NULL, bn[a], NULL); ENG(f); d = EVP_MD_CTX_new(); ENG(EVP_DigestInit_ex(d, f, NULL) == 1); EVP_MD_free(f); }
        else { EVP_MAC *f = EVP_MAC_fetch(NULL, bn[a], NULL); ENG(f); ENG(c = EVP_MAC_CTX_new(f)); EVP_MAC_free(f); ENG(EVP_MAC_init(c, key, 32, NULL) == 1); }
        for (size_t p = 0; p < n; ) {
            size_t q = p == 0 ? head : k ? 65536 + 8 * rn(9000) : n;
            if (q > n - p) q = n - p;
            if (!p && !q) q = 1;
            if (d ? EVP_DigestUpdate(d, m + p, q) != 1 : EVP_MAC_update(c, m + p, q) != 1) { vh_viol("prov-big", "%s refuses %zu octets", bn[a], q); break; }
            p += q; vh_count("big_updates", 1);
        }
        unsigned l = 0; ll[k] = 0; memset(o[k], 0, 64);
        ENG(d ? EVP_DigestFinal_ex(d, o[k], &l) == 1 : EVP_MAC_final(c, o[k], &ll[k], 64) == 1);
        if (d) ll[k] = l;
        EVP_MD_CTX_free(d); EVP_MAC_CTX_free(c);
    }
    munmap(m, n);
    if (ll[0] != ll[1] || memcmp(o[0], o[1], 64)) vh_viol("prov-big", "%s of %zu octets in one call differs from that in many", bn[a], n);
    vh_count("big_messages", 1); vh_sig("big %s", bn[a]); vh_sample("%s %zu octets", bn[a], n);
}
const vh_workload vh_workloads[] = { { "mac", run_mac, 0, 0 }, { "load", run_load, 0, 0 }, { "tables", run_tables, 0, 0 }, { "big", run_big, 0, 0 }, { 0 } };
