/* P28: what the provider allocated is released with its last library context.  Here the default library context never
 * has the provider: OpenSSL keeps a provider it has unloaded until the library context goes. */
#include "prov.h"
#include "palloc.h"
int vp_private = 1;
int GOST_provider_init(const OSSL_CORE_HANDLE *core, const OSSL_DISPATCH *in, const OSSL_DISPATCH **out, void **ctx);
static const char *const cn[] = { "gost89", "gost89-cnt", "gost89-cnt-12", "gost89-cbc", "magma-cbc", "magma-ctr", "magma-ctr-acpkm", "magma-mgm", "kuznyechik-ecb", "kuznyechik-cbc", "kuznyechik-cfb", "kuznyechik-ofb", "kuznyechik-ctr", "kuznyechik-ctr-acpkm", "kuznyechik-mgm" };
static const char *const dn[] = { "md_gost94", "md_gost12_256", "md_gost12_512" };
static const char *const mn[] = { "gost-mac", "gost-mac-12" };
#define NL 3
static OSSL_LIB_CTX *l[NL]; static OSSL_PROVIDER *pr[NL];
static void use(int i)
{
    u8 key[32], iv[16], in[100], out[140], md[64]; int n = 0, w = (int)rn(3); unsigned u = 0; size_t z = 0;
    rbytes(key, 32); rbytes(iv, 16); rbytes(in, 100); iv[0] &= 0x7f;
    if (w == 0) {
        EVP_CIPHER *c = EVP_CIPHER_fetch(l[i], cn[rn(15)], NULL); ENG(c); EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new();
        ENG(EVP_CipherInit_ex(x, c, NULL, key, iv, 1) == 1 && EVP_CipherUpdate(x, out, &n, in, 96) == 1); EVP_CIPHER_CTX_free(x); EVP_CIPHER_free(c);
    } else if (w == 1) {
        int a = (int)rn(3); EVP_MD *d = EVP_MD_fetch(l[i], dn[a], NULL); ENG(d); EVP_MD_CTX *x = EVP_MD_CTX_new();
        ENG(EVP_DigestInit_ex2(x, d, NULL) == 1 && EVP_DigestUpdate(x, in, 100) == 1 && EVP_DigestFinal_ex(x, md, &u) == 1); EVP_MD_CTX_free(x); EVP_MD_free(d);
        u8 e[64]; ref_hash(a, in, 100, e); if (memcmp(e, md, u)) vh_viol("prov-object", "digest %s after %d library contexts", dn[a], i);
    } else {
        EVP_MAC *m = EVP_MAC_fetch(l[i], mn[rn(2)], NULL); ENG(m); EVP_MAC_CTX *x = EVP_MAC_CTX_new(m);
        ENG(x && EVP_MAC_init(x, key, 32, NULL) == 1 && EVP_MAC_update(x, in, 50) == 1 && EVP_MAC_final(x, md, &z, 64) == 1); EVP_MAC_CTX_free(x); EVP_MAC_free(m);
    }
    vh_count("objects", 1);
}
static void run_gone(void)
{
    char sig[100] = ""; size_t sl = 0; int steps = 4 + (int)rn(30), up = 0;
    for (int k = 0; k < steps || up; k++) {
        int i = (int)rn(NL), op = k >= steps ? 2 : (int)rn(4); char ch = 0;
        if (op < 2 && !l[i]) {
            HARN(l[i] = OSSL_LIB_CTX_new()); HARN(OSSL_PROVIDER_add_builtin(l[i], "gost", GOST_provider_init));
            ENG(pr[i] = OSSL_PROVIDER_load(l[i], "gost")); up++; ch = 'L'; vh_count("provider_loads", 1);
        } else if (op == 2 && l[i]) {
            ENG(OSSL_PROVIDER_unload(pr[i]) == 1);
            OSSL_LIB_CTX_free(l[i]); l[i] = NULL; pr[i] = NULL; up--; ch = 'F'; vh_count("library_contexts_freed", 1);
        } else if (l[i]) { use(i); ch = 'u'; }
        if (ch && sl < 90) { sig[sl++] = ch; sig[sl++] = (char)('0' + i); }
    }
    ERR_clear_error();
    /* libcrypto keeps for itself: the objects it was told of (with nodes of its tables), what the thread needs, its random
     * generator; and two locks are made once.  Everything the provider asked for directly has to be gone. */
    long n = 0;
    for (blk *b = all.next; b != &all; b = b->next) {
        static const char *const keep[] = { "obj_", "a_object", "lhash", "initthread", "threads_", "ex_data", "evp_rand", "err" };
        
        int k = !b->eng || b->eng > 7 || b->told;
        for (size_t i = 0; !k && i < sizeof keep / sizeof *keep; i++) k = !strncmp(base(b->file), keep[i], strlen(keep[i]));
        if (k) continue;
        b->told = 1; n++;
        vh_viol("prov-left", "%s:%d: %zu octets are left after the provider has been unloaded everywhere", base(b->file), b->line, b->n);
    }
    vh_count("empty_states_checked", 1); vh_sig("gone %.24s", sig); vh_sample("%s: %ld blocks", sig, n);
}
const vh_workload vh_workloads[] = { { "gone", run_gone, 0, 0 }, { 0 } };
