/* P19: memory allocation failures.  P20: key material in released memory.
 * The program installs its own allocator in libcrypto.  Every allocation made below an engine
 * frame (found by unwinding) can be made to fail, every block released below an engine frame or
 * allocated there is searched for the secrets of the operation. */
#include "pk.h"
#include "tok.h"
#include "ciphers.h"
#include <openssl/crypto.h>
#include <openssl/pem.h>
#include <openssl/cms.h>
#include <openssl/pkcs12.h>
#include <openssl/x509v3.h>
#include <openssl/hmac.h>
#include "gost_lcl.h"
#include "gost_keywrap.h"
#include <execinfo.h>
#include <link.h>
#include <dlfcn.h>
const char *vh_eng_reason(void);

/* ------------------------------------------------------------ allocator */
#define NBT 28
#define MAGIC 0x6d656d6f72795f21ull
typedef struct blk { struct blk *next, *prev; size_t n; const char *file; int line, nbt; uint64_t seq, magic; void **bt; uint64_t eng, pad; } blk;     /* a multiple of 16 octets */
_Static_assert(sizeof(blk) % 16 == 0, "alignment");
static blk live = {&live, &live, 0, 0, 0, 0, 0, MAGIC, 0, 0, 0};
static uintptr_t eng_lo, eng_hi;
static int armed, busy;             /* armed: count allocations below engine frames */
static long nall, fail_at = -1, fail_also = -1; static int sticky, hit; static void *failbt[NBT]; static int nfailbt; static const char *failfile; static int failline;
static uint64_t seqno;
static int scan;                    /* 1: look for secrets in released blocks */
static long frees_scanned, live_eng;
static int find_eng(struct dl_phdr_info *i, size_t s, void *u)
{
    if (!strstr(i->dlpi_name, "libgost.so")) return 0;
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD && i->dlpi_phdr[k].p_flags & PF_X) { eng_lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; eng_hi = eng_lo + i->dlpi_phdr[k].p_memsz; }
    return 1;
}
static int below(void **bt, int n) { for (int i = 0; i < n; i++) if ((uintptr_t)bt[i] >= eng_lo && (uintptr_t)bt[i] < eng_hi) return 1; return 0; }
static void check_released(blk *b);
static void *new_block(size_t n, const char *file, int line)
{
    void *bt[NBT]; int nb = 0, e = 0;
    if (armed && !busy) {
        busy = 1;
        nb = backtrace(bt, NBT);
        e = below(bt, nb);
        busy = 0;
        if (e) {
            long i = nall++;
            if (fail_at >= 0 && (i == fail_at || i == fail_also || (sticky && i > fail_at))) {
                if (!hit) { memcpy(failbt, bt, sizeof bt); nfailbt = nb; failfile = file; failline = line; }
                hit++;
                return NULL;
            }
        }
    }
    blk *b = malloc(sizeof *b + n);
    if (!b) return NULL;
    b->n = n; b->file = file; b->line = line; b->seq = ++seqno; b->magic = MAGIC; b->eng = e; b->bt = NULL; b->nbt = 0;
    if (e) { b->bt = malloc(nb * sizeof *bt); if (b->bt) { memcpy(b->bt, bt, nb * sizeof *bt); b->nbt = nb; } live_eng++; }
    b->next = live.next; b->prev = &live; live.next->prev = b; live.next = b;
    memset(b + 1, 0xcd, n);
    return b + 1;
}
static void old_block(void *p)
{
    blk *b = (blk *)p - 1;
    if (b->magic != MAGIC) { fprintf(stderr, "free of a foreign or freed block\n"); abort(); }
    if (scan) check_released(b);
    b->next->prev = b->prev; b->prev->next = b->next; b->magic = 0;
    if (b->eng) live_eng--;
    free(b->bt); free(b);
}
static void *h_malloc(size_t n, const char *f, int l) { return new_block(n, f, l); }
static void h_free(void *p, const char *f, int l) { if (p) old_block(p); }
static void *h_realloc(void *p, size_t n, const char *f, int l)
{
    if (!p) return new_block(n, f, l);
    if (!n) { old_block(p); return NULL; }
    blk *b = (blk *)p - 1; void *q = new_block(n, f, l);
    if (!q) return NULL;
    memcpy(q, p, b->n < n ? b->n : n);
    old_block(p);
    return q;
}
__attribute__((constructor)) static void install(void)
{
    void *t[4]; backtrace(t, 4);
    if (!CRYPTO_set_mem_functions(h_malloc, h_realloc, h_free)) abort();
}
/* innermost engine frame of the failing allocation, as an offset in the library */
static unsigned long fplace(void) { for (int i = 0; i < nfailbt; i++) if ((uintptr_t)failbt[i] >= eng_lo && (uintptr_t)failbt[i] < eng_hi) return (uintptr_t)failbt[i] - eng_lo; return 0; }
static const char *where(void **bt, int n)      /* innermost engine functions and the libcrypto function they called */
{
    static char o[400]; size_t k = 0; int got = 0; o[0] = 0; busy = 1;
    const char *inner = "";
    for (int i = 0; i < n && got < 2; i++) {
        Dl_info d; if (!dladdr((char *)bt[i] - 1, &d)) continue;
        if ((uintptr_t)bt[i] < eng_lo || (uintptr_t)bt[i] >= eng_hi) { if (!got && d.dli_sname && !strstr(d.dli_fname, "chk_mem")) inner = d.dli_sname; continue; }
        char cmd[300], ln[160] = "?";
        snprintf(cmd, sizeof cmd, "addr2line -f -s -e %s 0x%lx 2>/dev/null | tr '\\n' ' '", d.dli_fname, (long)((char *)bt[i] - 1 - (char *)d.dli_fbase));
        FILE *f = popen(cmd, "r"); if (f) { if (!fgets(ln, sizeof ln, f)) strcpy(ln, "?"); pclose(f); }
        ln[strcspn(ln, "\n")] = 0; size_t z = strlen(ln); while (z && ln[z - 1] == ' ') ln[--z] = 0;
        k += snprintf(o + k, sizeof o - k, "%s%s%s", got ? " < " : *inner ? inner : "", got ? "" : *inner ? " < " : "", ln);
        got++;
    }
    busy = 0;
    return o;
}
/* key of a place that survives line changes: function names only */
static const char *fkey(const char *w)
{
    static char o[2][200]; static int t; char *p = o[t ^= 1]; size_t k = 0;
    char b[400]; snprintf(b, sizeof b, "%s", w);
    for (char *s = strtok(b, " "); s && k < 150; s = strtok(NULL, " ")) if (!strpbrk(s, ":()<")) k += snprintf(p + k, 200 - k, "%s%s", k ? "<" : "", s);
    return p;
}

/* ------------------------------------------------------------ secrets */
#define NSEC 64
static struct { u8 v[128]; size_t n; const char *what; } secs[NSEC]; static int nsecs, collect = 1;
static void sec(const char *what, const void *p, size_t n)
{
    if (!collect || n < 16 || nsecs >= NSEC) return;
    if (n > 128) n = 128;
    for (int i = 0; i < nsecs; i++) if (secs[i].n == n && !memcmp(secs[i].v, p, n)) return;
    memcpy(secs[nsecs].v, p, n); secs[nsecs].n = n; secs[nsecs++].what = what;
}
static void sec_both(const char *what, const void *p, size_t n)
{
    u8 r[128]; if (!collect) return;
    sec(what, p, n);
    for (size_t i = 0; i < n; i++) r[i] = ((const u8 *)p)[n - 1 - i];
    sec(what, r, n);
    OPENSSL_cleanse(r, sizeof r);
}
/* coordinates of the shared point, also in the form in which a group of OpenSSL holds a point with Z = 1 */
static void sec_shared(const rcurve *c, int n)
{
    if (!collect) return;
    int a = armed; armed = 0;
    for (int i = 0; i < 2; i++) {
        u8 t[64]; BN_CTX *x = BN_CTX_new(); BIGNUM *m = BN_lebin2bn(ref_shared_xy + i * n, n, NULL);
        sec_both("coordinate of the shared point", ref_shared_xy + i * n, n);
        HARN(m && x && BN_lshift(m, m, 8 * n) && BN_nnmod(m, m, c->p, x) && BN_bn2lebinpad(m, t, n) == n);
        sec("coordinate of the shared point (Montgomery form)", t, n);
        BN_clear_free(m); BN_CTX_free(x); OPENSSL_cleanse(t, 64);
    }
    armed = a;
}
/* a symmetric key, also as Magma and GOST 28147-89 hold it */
static void sec_key(const char *what, const void *p)
{
    u8 r[32]; if (!collect) return;
    sec(what, p, 32);
    for (int i = 0; i < 32; i++) r[i] = ((const u8 *)p)[(i & ~3) + 3 - (i & 3)];
    sec(what, r, 32); OPENSSL_cleanse(r, 32);
}
static void sec_bn(const char *what, const BIGNUM *b, int n) { u8 t[64]; int a = armed; if (!collect) return; armed = 0; if (BN_bn2lebinpad(b, t, n) == n) sec_both(what, t, n); armed = a; OPENSSL_cleanse(t, 64); }
static const char *curop = "";
static void check_released(blk *b)
{
    void *bt[NBT]; int nb, e;
    if (busy || b->n < 16 || !nsecs) return;
    for (int i = 0; i < nsecs; i++) {
        const u8 *d = (u8 *)(b + 1);
        const u8 *h = memmem(d, b->n, secs[i].v, 16); if (!h) h = memmem(d, b->n, secs[i].v + secs[i].n - 16, 16);
        if (!h) continue;
        busy = 1; nb = backtrace(bt, NBT); e = below(bt, nb); busy = 0;
        if (!e) { vh_count("secrets_released_outside_engine", 1); continue; }
        char w[400]; snprintf(w, sizeof w, "%s", where(bt, nb)); char a[400]; snprintf(a, sizeof a, "%s", b->bt ? where(b->bt, b->nbt) : "");
        if (!strncmp(w, "ASN1_item_d2i", 13)) { vh_count("released_in_asn1_decoding", 1); continue; }      /* a decoding that fails inside libcrypto, not engine code */
        char key[300]; snprintf(key, sizeof key, "released-secret:%s", fkey(w));
        vh_viol(key, "%s: %s (octets %ld.. of a block of %zu allocated at %s:%d %s) released unwiped in %s", curop, secs[i].what, (long)(h - d), b->n, b->file, b->line, a, w);
        break;
    }
    frees_scanned++;
}

/* ------------------------------------------------------------ deterministic randomness */
static uint64_t rs; static const char *draw_secret; 
static int d_bytes(unsigned char *b, int n)
{
    for (int i = 0; i < n; i++) { uint64_t z = (rs += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; b[i] = z >> 56; }
    if (draw_secret) sec_both(draw_secret, b, n);
    return 1;
}
static int d_status(void) { return 1; }
static const RAND_METHOD det = {NULL, d_bytes, NULL, NULL, d_bytes, d_status};

/* ------------------------------------------------------------ operations */
typedef struct { u8 b[32768]; size_t n; } ob;
static void out(ob *o, const void *p, size_t n) { HARN(o->n + n <= sizeof o->b); memcpy(o->b + o->n, p, n); o->n += n; }
#define T(c) do { if (!(c)) { if (vh_verbose) fprintf(stderr, "  failed at line %d: %s %s\n", __LINE__, #c, vh_eng_reason()); goto end; } } while (0)
static u8 pat[4096];
static const EVP_MD *mds[32]; static int nmd;
static const EVP_CIPHER *cis[40]; static const EVP_CIPHER *cis[40]; static int nci, asn1_ok[40];
static const int ktypes[] = { 1, 6, 8, 12, 16, 17, 18 };    /* indices in pk_types */
#define NKT 7
static pk_key K[NKT], P[NKT];
static u8 SK[32];       /* symmetric key used everywhere */

static int is_mac(const EVP_MD *m) { int n = EVP_MD_type(m); return n != NID_id_GostR3411_94 && n != NID_id_GostR3411_2012_256 && n != NID_id_GostR3411_2012_512; }
static int o_digest(ob *o, int a)
{
    int ok = 0; unsigned l; u8 t[64];
    EVP_MD_CTX *c = EVP_MD_CTX_new(), *d = EVP_MD_CTX_new(), *e = EVP_MD_CTX_new();
    T(c && d && e);
    if (is_mac(mds[a])) sec_key("MAC key", SK);
    T(EVP_DigestInit_ex(c, mds[a], NULL) > 0);
    if (is_mac(mds[a])) T(EVP_MD_CTX_ctrl(c, EVP_MD_CTRL_SET_KEY, 32, SK) > 0);
    T(EVP_MD_CTX_copy_ex(e, c) > 0);
    T(EVP_DigestUpdate(c, pat, 13) > 0);
    T(EVP_DigestUpdate(c, pat, 1300) > 0);
    T(EVP_MD_CTX_copy_ex(d, c) > 0);
    T(EVP_DigestUpdate(c, pat, 77) > 0 && EVP_DigestUpdate(d, pat, 33) > 0 && EVP_DigestUpdate(e, pat, 1500) > 0);
    T(EVP_DigestFinal_ex(c, t, &l) > 0); out(o, t, l);
    T(EVP_DigestFinal_ex(d, t, &l) > 0); out(o, t, l);
    T(EVP_DigestFinal_ex(e, t, &l) > 0); out(o, t, l);
    T(EVP_DigestInit_ex(c, mds[a], NULL) > 0);
    if (is_mac(mds[a])) T(EVP_MD_CTX_ctrl(c, EVP_MD_CTRL_SET_KEY, 32, SK) > 0);
    T(EVP_DigestUpdate(c, pat, 8) > 0);
    T(EVP_MD_CTX_copy_ex(d, c) > 0);
    T(EVP_DigestFinal_ex(d, t, &l) > 0); out(o, t, l);
    ok = 1;
end:
    EVP_MD_CTX_free(c); EVP_MD_CTX_free(d); EVP_MD_CTX_free(e);
    return ok;
}
static int o_hmac(ob *o, int a)
{
    u8 t[64]; unsigned l;
    sec("HMAC key", SK, 32);
    static const int h[] = { NID_id_GostR3411_94, NID_id_GostR3411_2012_256, NID_id_GostR3411_2012_512 };
    if (!HMAC(EVP_get_digestbynid(h[a]), SK, 32, pat, 100, t, &l)) return 0;
    out(o, t, l); return 1;
}
static int o_cipher(ob *o, int a)
{
    int ok = 0, l, m, ml; const EVP_CIPHER *ci = cis[a]; u8 iv[16], *b = malloc(4096), tag[16];
    EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new(), *d = EVP_CIPHER_CTX_new(), *e = EVP_CIPHER_CTX_new(); ASN1_TYPE *at = NULL;
    int mode = EVP_CIPHER_mode(ci), ivl = EVP_CIPHER_iv_length(ci), aead = (EVP_CIPHER_flags(ci) & EVP_CIPH_FLAG_AEAD_CIPHER) != 0, nid = EVP_CIPHER_nid(ci);
    int omac = nid == NID_magma_ctr_acpkm_omac || nid == NID_kuznyechik_ctr_acpkm_omac;
    memcpy(iv, pat + 100, 16);
    T(c && d && e);
    sec_key("cipher key", SK);
    if (collect) if (nid == NID_magma_ctr_acpkm || nid == NID_kuznyechik_ctr_acpkm) { static u8 k2[32]; memcpy(k2, SK, 32); for (int i = 0; i < 4; i++) { ref_acpkm(nid == NID_magma_ctr_acpkm ? BC_MAGMA : BC_KUZ, k2); sec_key("section key", k2); } }
    T(EVP_CipherInit_ex(c, ci, NULL, SK, ivl ? iv : NULL, 1) > 0);
    T(EVP_CIPHER_CTX_copy(e, c) > 0);
    if (aead) T(EVP_CipherUpdate(c, NULL, &l, pat, 20) > 0);
    T(EVP_CipherUpdate(c, b, &m, pat, 1234) > 0);
    T(EVP_CIPHER_CTX_copy(d, c) > 0);
    T(EVP_CipherUpdate(c, b + m, &l, pat + 1234, 1500) > 0); m += l;
    if (!aead && !omac && asn1_ok[a]) { at = ASN1_TYPE_new(); T(at); T(EVP_CIPHER_param_to_asn1(c, at) > 0); }
    T(EVP_CipherFinal_ex(c, b + m, &l) > 0); m += l;
    out(o, b, m);
    if (aead) { T(EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_GET_TAG, EVP_CIPHER_block_size(ci) > 1 ? EVP_CIPHER_block_size(ci) : ivl, tag) > 0); out(o, tag, 8); }
    T(EVP_CipherUpdate(d, b, &ml, pat + 1234, 300) > 0); out(o, b, ml);
    T(EVP_CipherFinal_ex(d, b, &l) > 0); out(o, b, l);
    if (aead) T(EVP_CipherUpdate(e, NULL, &l, pat, 20) > 0);
    T(EVP_CipherUpdate(e, b, &ml, pat + 1234, 300) > 0); out(o, b, ml);
    /* the other direction, same context, parameters from ASN.1 */
    if (!aead && !omac && asn1_ok[a]) {
        T(EVP_CipherInit_ex(c, ci, NULL, NULL, NULL, 0) > 0);
        T(EVP_CIPHER_asn1_to_param(c, at) > 0);
        T(EVP_CipherInit_ex(c, NULL, NULL, SK, NULL, 0) > 0);
        T(EVP_CipherUpdate(c, b, &m, o->b, 1200) > 0); out(o, b, m);
    }
    if (mode == EVP_CIPH_CTR_MODE) (void)EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_TLSTREE, 0, iv);
    ok = 1;
end:
    ERR_clear_error();
    ASN1_TYPE_free(at); EVP_CIPHER_CTX_free(c); EVP_CIPHER_CTX_free(d); EVP_CIPHER_CTX_free(e); OPENSSL_cleanse(b, 4096); free(b);
    return ok;
}
static void sec_tree(const u8 *k, int kuz, const u8 *seq)
{
    static const u8 m[2][2][8] = { {{255, 255, 255, 0xc0}, {255, 255, 255, 255, 0xfe}}, {{255, 255, 255, 255}, {255, 255, 255, 255, 255, 0xf8}} };
    static u8 a[32], b[32], c[32], s[8]; uint64_t n = 0; int r = armed; if (!collect) return;
    armed = 0;
    for (int i = 0; i < 8; i++) n = n << 8 | seq[i];
    for (int i = 0; i < 8; i++) s[i] = seq[i] & m[kuz][0][i];
    ref_kdf256(k, 32, (u8 *)"level1", 6, s, 8, a); sec_key("TLSTREE level 1 key", a);
    for (int i = 0; i < 8; i++) s[i] = seq[i] & m[kuz][1][i];
    ref_kdf256(a, 32, (u8 *)"level2", 6, s, 8, b); sec_key("TLSTREE level 2 key", b);
    ref_tlstree(kuz ? BC_KUZ : BC_MAGMA, k, n, c); sec_key("TLSTREE key", c);
    armed = r;
}
static int o_tlstree(ob *o, int a)
{
    int ok = 0, l, r; u8 b[200], seq[8] = {0, 0, 0, 1, 0, 2, 0, 3}; EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new(); EVP_MD_CTX *m = EVP_MD_CTX_new(), *n = EVP_MD_CTX_new(); u8 t[16]; unsigned tl;
    T(c && m && n);
    sec_key("TLS key", SK); sec_tree(SK, a, seq);
    T(EVP_CipherInit_ex(c, EVP_get_cipherbynid(a ? NID_kuznyechik_ctr_acpkm : NID_magma_ctr_acpkm), NULL, SK, pat, 1) > 0);
    r = EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_TLSTREE, 0, seq); T(r > 0);
    T(EVP_CipherUpdate(c, b, &l, pat, 200) > 0); out(o, b, l);
    const EVP_MD *md = EVP_get_digestbynid(a ? NID_grasshopper_mac : NID_magma_mac); T(md);
    T(EVP_DigestInit_ex(m, md, NULL) > 0 && EVP_MD_CTX_ctrl(m, EVP_MD_CTRL_SET_KEY, 32, SK) > 0);
    T(EVP_MD_CTX_ctrl(m, EVP_MD_CTRL_TLSTREE, 0, seq) > 0);
    T(EVP_MD_CTX_copy_ex(n, m) > 0);
    T(EVP_DigestUpdate(n, pat, 100) > 0 && EVP_DigestFinal_ex(n, t, &tl) > 0); out(o, t, tl);
    ok = 1;
end:
    EVP_CIPHER_CTX_free(c); EVP_MD_CTX_free(m); EVP_MD_CTX_free(n);
    return ok;
}
/* content encryption with MAC as CMS does it */
static int o_omac(ob *o, int a)
{
    int ok = 0, l, m; u8 b[1200], p[1200], ivz[16]; const EVP_CIPHER *ci = EVP_get_cipherbynid(a ? NID_kuznyechik_ctr_acpkm_omac : NID_magma_ctr_acpkm_omac);
    EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new(), *d = EVP_CIPHER_CTX_new(), *e = EVP_CIPHER_CTX_new(); ASN1_TYPE *at = ASN1_TYPE_new(); STACK_OF(X509_ATTRIBUTE) *as = sk_X509_ATTRIBUTE_new_null();
    T(c && d && e && at && as);
    sec_key("content key", SK);
    memcpy(ivz, pat, 16);
    T(EVP_CipherInit_ex(c, ci, NULL, NULL, NULL, 1) > 0);
    T(EVP_CipherInit_ex(c, NULL, NULL, SK, ivz, 1) > 0);
    T(EVP_CIPHER_param_to_asn1(c, at) > 0);
    if (collect) {      /* the keys of the content, from the parameters */
        static u8 ks[64]; u8 *dr = NULL; int sv = armed, n; armed = 0;
        n = i2d_ASN1_TYPE(at, &dr); HARN(n >= 8); ref_kdf_tree(SK, 32, (const u8 *)"kdf tree", 8, dr + n - 8, 8, 1, 64, ks);
        sec_key("content encryption key", ks); sec_key("content MAC key", ks + 32); OPENSSL_cleanse(ks, 64); OPENSSL_free(dr); armed = sv;
    }
    T(EVP_CipherUpdate(c, b, &m, pat, 1000) > 0);
    T(EVP_CIPHER_CTX_copy(e, c) > 0);
    T(EVP_CipherUpdate(c, b + m, &l, pat + 1000, 50) > 0); m += l;
    T(EVP_CipherFinal_ex(c, b + m, &l) > 0); m += l; out(o, b, m);
    T(EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_PROCESS_UNPROTECTED, 1, as) > 0);
    T(EVP_CipherInit_ex(d, ci, NULL, NULL, NULL, 0) > 0);
    T(EVP_CIPHER_asn1_to_param(d, at) > 0);
    T(EVP_CipherInit_ex(d, NULL, NULL, SK, NULL, 0) > 0);
    T(EVP_CIPHER_CTX_ctrl(d, EVP_CTRL_PROCESS_UNPROTECTED, 0, as) > 0);
    T(EVP_CipherUpdate(d, p, &m, b, 1050) > 0); out(o, p, m);
    T(EVP_CipherFinal_ex(d, p, &l) > 0);
    T(EVP_CipherFinal_ex(e, p, &l) > 0);
    ok = 1;
end:
    sk_X509_ATTRIBUTE_pop_free(as, X509_ATTRIBUTE_free);
    ASN1_TYPE_free(at); EVP_CIPHER_CTX_free(c); EVP_CIPHER_CTX_free(d); EVP_CIPHER_CTX_free(e);
    return ok;
}
static int o_randkey(ob *o, int a)
{
    int ok = 0; u8 k[32]; EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new(); draw_secret = "generated cipher key";
    T(c && EVP_CipherInit_ex(c, cis[a], NULL, NULL, NULL, 1) > 0 && EVP_CIPHER_CTX_rand_key(c, k) > 0);
    out(o, k, 32); ok = 1;
end:
    draw_secret = NULL; EVP_CIPHER_CTX_free(c); OPENSSL_cleanse(k, 32);
    return ok;
}
static int o_wrapcipher(ob *o, int a)
{
    int ok = 0, l; u8 in[48], p[64]; static u8 w[2][48]; static int have[2]; EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new(); u8 k[64]; int bs = a ? 16 : 8;
    memcpy(k, SK, 32); memcpy(k + 32, pat + 300, 32);
    if (!have[a]) { ref_kexp15(a ? BC_KUZ : BC_MAGMA, pat + 40, k + 32, k, pat + 200, w[a]); have[a] = 1; }
    memcpy(in, w[a], 48);
    sec("wrapping key", SK, 32); sec("wrapping key", k + 32, 32); sec("wrapped key", pat + 40, 32);
    T(c);
    EVP_CIPHER_CTX_set_flags(c, EVP_CIPHER_CTX_FLAG_WRAP_ALLOW);
    T(EVP_CipherInit_ex(c, EVP_get_cipherbynid(a ? NID_kuznyechik_kexp15 : NID_magma_kexp15), NULL, k, pat + 200, 0) > 0);
    l = EVP_Cipher(c, p, in, 32 + bs); T(l > 0);
    out(o, p, 32); ok = 1;
end:
    EVP_CIPHER_CTX_free(c); OPENSSL_cleanse(p, sizeof p); OPENSSL_cleanse(k, sizeof k);
    return ok;
}
static void secret_key(EVP_PKEY *k) { const BIGNUM *d = k ? pk_get_d(k) : NULL; if (d && !BN_is_zero(d)) sec_bn("private key", d, pk_get_d(k) && BN_num_bits(d) > 256 ? 64 : 32); }
static int o_keygen(ob *o, int a)
{
    int ok = 0; EVP_PKEY_CTX *c = NULL, *c2 = NULL; EVP_PKEY *k = NULL, *pp = NULL; u8 xy[128];
    const pk_type *t = K[a].t;
    T(c = EVP_PKEY_CTX_new_id(t->alg, NULL));
    T(EVP_PKEY_paramgen_init(c) > 0 && EVP_PKEY_CTX_ctrl_str(c, "paramset", t->pset) > 0);
    T(EVP_PKEY_paramgen(c, &pp) > 0);
    T(c2 = EVP_PKEY_CTX_new(pp, NULL)); T(EVP_PKEY_keygen_init(c2) > 0);
    draw_secret = "private key";
    T(EVP_PKEY_keygen(c2, &k) > 0);
    draw_secret = NULL;
    secret_key(k);
    int s = armed; armed = 0; HARN(pk_get_xy(k, K[a].n, xy)); armed = s; out(o, xy, 2 * K[a].n);
    ok = 1;
end:
    draw_secret = NULL;
    EVP_PKEY_CTX_free(c); EVP_PKEY_CTX_free(c2); EVP_PKEY_free(k); EVP_PKEY_free(pp);
    return ok;
}
static int o_sign(ob *o, int a)
{
    int ok = 0; u8 s[128]; size_t l = 128; EVP_PKEY_CTX *c = NULL, *d = NULL;
    secret_key(K[a].pk);
    T(c = EVP_PKEY_CTX_new(K[a].pk, NULL)); T(EVP_PKEY_sign_init(c) > 0);
    T(d = EVP_PKEY_CTX_dup(c));
    draw_secret = "signature nonce";
    T(EVP_PKEY_sign(d, s, &l, pat, K[a].n) > 0); out(o, s, l);
    ok = 1;
end:
    draw_secret = NULL;
    EVP_PKEY_CTX_free(c); EVP_PKEY_CTX_free(d);
    return ok;
}
static u8 sigs[NKT][128];
static int o_verify(ob *o, int a)
{
    int ok = 0; EVP_PKEY_CTX *c = NULL; u8 s[128]; memcpy(s, sigs[a], 128); s[3] ^= 1;
    T(c = EVP_PKEY_CTX_new(K[a].pub, NULL)); T(EVP_PKEY_verify_init(c) > 0);
    T(EVP_PKEY_verify(c, sigs[a], 2 * K[a].n, pat, K[a].n) == 1);
    if (EVP_PKEY_verify(c, s, 2 * K[a].n, pat, K[a].n) == 1) { vh_viol("forged-accepted", "an altered signature was accepted"); goto end; }
    ok = 1;
end:
    EVP_PKEY_CTX_free(c);
    return ok;
}
static int o_dsign(ob *o, int a)
{
    int ok = 0; u8 s[128]; size_t l = 128; EVP_MD_CTX *c = EVP_MD_CTX_new(), *v = EVP_MD_CTX_new();
    secret_key(K[a].pk);
    T(c && v);
    T(EVP_DigestSignInit(c, NULL, pk_md(K[a].t), NULL, K[a].pk) > 0 && EVP_DigestSignUpdate(c, pat, 500) > 0 && EVP_DigestSignFinal(c, s, &l) > 0); out(o, s, l);
    T(EVP_DigestVerifyInit(v, NULL, pk_md(K[a].t), NULL, K[a].pub) > 0 && EVP_DigestVerifyUpdate(v, pat, 500) > 0 && EVP_DigestVerifyFinal(v, s, l) == 1);
    ok = 1;
end:
    EVP_MD_CTX_free(c); EVP_MD_CTX_free(v);
    return ok;
}
static int o_derive(ob *o, int a)
{
    int ok = 0, m = a / NKT; a %= NKT; EVP_PKEY_CTX *c = NULL, *d = NULL; u8 s[64]; size_t l = 64;
    if (K[a].t->alg == R1 && m) m = 0;
    secret_key(K[a].pk);
    if (collect) { static u8 w[64]; if (m == 2) ref_keg(K[a].c, K[a].d, P[a].xy, pat + 64, w); else ref_vko(K[a].c, K[a].d, P[a].xy, pat + 64, m ? 32 : 8, K[a].t->alg == R1 ? 0 : 1, w);
      sec("shared key", w, 32); if (m == 2) sec("shared key", w + 32, 32); sec_shared(K[a].c, K[a].n); }
    T(c = EVP_PKEY_CTX_new(K[a].pk, NULL)); T(EVP_PKEY_derive_init(c) > 0);
    T(EVP_PKEY_CTX_ctrl(c, -1, -1, EVP_PKEY_CTRL_SET_IV, m ? 32 : 8, pat + 64) > 0);
    if (m == 1) T(EVP_PKEY_CTX_ctrl(c, -1, -1, EVP_PKEY_CTRL_SET_VKO, NID_id_GostR3411_2012_256, NULL) > 0);
    T(EVP_PKEY_derive_set_peer(c, P[a].pub) > 0);
    T(d = EVP_PKEY_CTX_dup(c));
    T(EVP_PKEY_derive(d, s, &l) > 0); out(o, s, l);
    ok = 1;
end:
    OPENSSL_cleanse(s, 64);
    EVP_PKEY_CTX_free(c); EVP_PKEY_CTX_free(d);
    return ok;
}
/* keys that protect a token */
static void sec_tok(const pk_key *k, int kind, const u8 *t, size_t n)
{
    static tok x; static u8 w[64], e[32]; int s = armed; if (!collect) return;
    armed = 0; x.kind = kind;
    if (tok_parse(t, n, k->t, &x)) {
        if (kind == 0) { if (ref_vko(k->c, k->d, x.eph, x.ukm, 8, k->t->alg == R1 ? 0 : 1, w)) { sec_key("key exchange key", w); sec_shared(k->c, k->n); ref_diversify(sb_of(x.sbox_nid), w, x.ukm, e); sec_key("diversified key exchange key", e); } }
        else if (ref_keg(k->c, k->d, x.eph, x.ukm, w)) { sec_shared(k->c, k->n); sec_key("export MAC key", w); sec_key("export cipher key", w + 32); }
    }
    armed = s;
}
static const int kinds[3] = { 0, NID_magma_ctr, NID_kuznyechik_ctr };
static u8 toks[3][NKT][300]; static size_t tokl[3][NKT];
static int o_encrypt(ob *o, int a)
{
    int ok = 0, kind = a / NKT, st = 0; EVP_PKEY_CTX *c = NULL; u8 t[400]; size_t l = 400; a %= NKT;
    if (kind >= 3) { kind -= 3; st = 1; }
    if (K[a].t->alg == R1) kind = 0;
    sec("transported key", SK, 32);
    T(c = EVP_PKEY_CTX_new(P[a].pub, NULL)); T(EVP_PKEY_encrypt_init(c) > 0);
    if (kind) T(EVP_PKEY_CTX_ctrl(c, -1, -1, EVP_PKEY_CTRL_SET_IV, 32, pat + 64) > 0);
    else T(EVP_PKEY_CTX_ctrl(c, -1, -1, EVP_PKEY_CTRL_SET_IV, 8, pat + 64) > 0);
    if (kind) T(EVP_PKEY_CTX_ctrl(c, -1, -1, EVP_PKEY_CTRL_CIPHER, kinds[kind], NULL) > 0);
    if (st) { T(EVP_PKEY_derive_init(c) != -99); T(EVP_PKEY_encrypt_init(c) > 0); }
    draw_secret = "ephemeral private key";
    T(EVP_PKEY_encrypt(c, t, &l, SK, 32) > 0); out(o, t, l);
    sec_tok(&P[a], kind, t, l);
    if (!toks[kind][a][0]) { memcpy(toks[kind][a], t, l); tokl[kind][a] = l; }
    ok = 1;
end:
    draw_secret = NULL;
    EVP_PKEY_CTX_free(c);
    return ok;
}
static int o_decrypt(ob *o, int a)
{
    int ok = 0, kind = a / NKT; EVP_PKEY_CTX *c = NULL; u8 k[32]; size_t l = 32; a %= NKT;
    if (K[a].t->alg == R1) kind = 0;
    secret_key(P[a].pk); sec("transported key", SK, 32); sec_tok(&P[a], kind, toks[kind][a], tokl[kind][a]);
    T(c = EVP_PKEY_CTX_new(P[a].pk, NULL)); T(EVP_PKEY_decrypt_init(c) > 0);
    if (kind) T(EVP_PKEY_CTX_ctrl(c, -1, -1, EVP_PKEY_CTRL_CIPHER, kinds[kind], NULL) > 0);
    T(EVP_PKEY_decrypt(c, k, &l, toks[kind][a], tokl[kind][a]) > 0); out(o, k, l);
    ok = 1;
end:
    OPENSSL_cleanse(k, 32);
    EVP_PKEY_CTX_free(c);
    return ok;
}
/* a token whose MAC is wrong: refused, and nothing of the key is left behind */
static int o_decrypt_bad(ob *o, int a)
{
    int ok = 0, kind = a / NKT; EVP_PKEY_CTX *c = NULL; u8 k[32] = {0}, t[400]; size_t l = 32; a %= NKT;
    if (K[a].t->alg == R1) kind = 0;
    memcpy(t, toks[kind][a], tokl[kind][a]);
    t[kind ? 36 : 40] ^= 4;
    { tok x = {.kind = kind}; if (!tok_parse(t, tokl[kind][a], P[a].t, &x)) return 1; }
    secret_key(P[a].pk); sec("transported key", SK, 32); sec_tok(&P[a], kind, toks[kind][a], tokl[kind][a]);
    T(c = EVP_PKEY_CTX_new(P[a].pk, NULL)); T(EVP_PKEY_decrypt_init(c) > 0);
    if (kind) T(EVP_PKEY_CTX_ctrl(c, -1, -1, EVP_PKEY_CTRL_CIPHER, kinds[kind], NULL) > 0);
    if (EVP_PKEY_decrypt(c, k, &l, t, tokl[kind][a]) > 0) { vh_viol("forged-accepted", "an altered token was accepted"); goto end; }
    ok = 1;
end:
    EVP_PKEY_CTX_free(c);
    return ok;
}
/* Things that must be refused; running out of memory must not turn that into acceptance.
 * 0..3 x key: a signature of the zero digest, of no key at all (d = 0), of another key, of another digest */
static u8 bads[4 * NKT][128];
static void bad_setup(void)
{
    for (int i = 0; i < NKT; i++) for (int k = 0; k < 4; k++) {
        u8 dg[64] = {0}; BIGNUM *d = BN_new(), *n = BN_new(); 
        if (k) memcpy(dg, pat, 64);
        if (k == 3) dg[0] ^= 1;
        if (k != 1) BN_copy(d, k == 2 ? P[i].d : K[i].d);
        BN_set_word(n, 0x123457 + k);
        HARN(ref_sign_ec(K[i].c, d, n, dg, K[i].n, bads[k * NKT + i]));
        BN_free(d); BN_free(n);
    }
}
static int o_refuse(ob *o, int a)
{
    EVP_PKEY_CTX *c = NULL; int r = 0, i = a % NKT;
    if ((c = EVP_PKEY_CTX_new(K[i].pub, NULL)) && EVP_PKEY_verify_init(c) > 0) r = EVP_PKEY_verify(c, bads[a], 2 * K[i].n, pat, K[i].n) == 1;
    EVP_PKEY_CTX_free(c);
    out(o, r ? "y" : "n", 1);
    return 1;
}
static int o_refuse_sym(ob *o, int a)
{
    int r = 0, l, m, t = a & 1, sv = armed; u8 b[512], w[64], k[48], tag[16]; static u8 full[512];
    EVP_CIPHER_CTX *c = NULL; EVP_MD_CTX *mc = NULL; const EVP_CIPHER *ci; STACK_OF(X509_ATTRIBUTE) *as = NULL; ASN1_TYPE *at = NULL;
    gost_ctx g;
    switch (a / 2) {
    case 0:     /* MGM tag */
        ci = EVP_get_cipherbyname(t ? "kuznyechik-mgm" : "magma-mgm"); memset(tag, 0x55, 16);
        if (!(c = EVP_CIPHER_CTX_new()) || EVP_DecryptInit_ex(c, ci, NULL, SK, (u8 *)"0123456789abcdef") <= 0 || EVP_DecryptUpdate(c, NULL, &l, pat, 20) <= 0
            || EVP_DecryptUpdate(c, b, &l, pat, 100) <= 0 || EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_SET_TAG, t ? 16 : 8, tag) <= 0) break;
        r = EVP_DecryptFinal_ex(c, b, &l) > 0;
        break;
    case 1:     /* KExp15 */
        ref_kexp15(t ? BC_KUZ : BC_MAGMA, pat + 40, SK, pat + 300, pat, w); w[7] ^= 1;
        r = gost_kimp15(w, t ? 48 : 40, t ? NID_grasshopper_ctr : NID_magma_ctr, SK, t ? NID_grasshopper_mac : NID_magma_mac, pat + 300, pat, t ? 8 : 4, k) > 0;
        break;
    case 2:     /* CryptoPro and GOST wrapping */
        ref_cpwrap(SB_Z, pat + 300, pat, SK, w); w[t ? 43 : 30] ^= 1; gost_init(&g, &Gost28147_TC26ParamSetZ);
        r = keyUnwrapCryptoPro(&g, pat + 300, w, k);
        gost_destroy(&g);
        break;
    default:    /* authenticated CMS content */
        armed = 0;
        ci = EVP_get_cipherbynid(t ? NID_kuznyechik_ctr_acpkm_omac : NID_magma_ctr_acpkm_omac); at = ASN1_TYPE_new(); as = sk_X509_ATTRIBUTE_new_null();
        c = EVP_CIPHER_CTX_new(); memcpy(w, pat, 16);
        ENG(EVP_CipherInit_ex(c, ci, NULL, NULL, NULL, 1) > 0 && EVP_CipherInit_ex(c, NULL, NULL, SK, w, 1) > 0 && EVP_CIPHER_param_to_asn1(c, at) > 0 && EVP_CipherUpdate(c, full, &m, pat, 300) > 0
            && EVP_CipherFinal_ex(c, full + m, &l) > 0 && EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_PROCESS_UNPROTECTED, 1, as) > 0);
        EVP_CIPHER_CTX_free(c); full[17] ^= 0x10;
        armed = sv;
        if (!(c = EVP_CIPHER_CTX_new()) || EVP_CipherInit_ex(c, ci, NULL, NULL, NULL, 0) <= 0 || EVP_CIPHER_asn1_to_param(c, at) <= 0 || EVP_CipherInit_ex(c, NULL, NULL, SK, NULL, 0) <= 0
            || EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_PROCESS_UNPROTECTED, 0, as) <= 0 || EVP_CipherUpdate(c, b, &m, full, 300) <= 0) break;
        r = EVP_CipherFinal_ex(c, b, &l) > 0;
    }
    armed = 0;
    EVP_CIPHER_CTX_free(c); EVP_MD_CTX_free(mc); ASN1_TYPE_free(at); sk_X509_ATTRIBUTE_pop_free(as, X509_ATTRIBUTE_free);
    armed = sv;
    out(o, r > 0 ? "y" : "n", 1);
    return 1;
}
static const int macnids[] = { NID_id_Gost28147_89_MAC, NID_gost_mac_12, NID_magma_mac, NID_grasshopper_mac, NID_id_tc26_cipher_gostr3412_2015_kuznyechik_ctracpkm_omac };   /* the Magma one is not registered */
static int o_mackey(ob *o, int a)
{
    int ok = 0; EVP_PKEY_CTX *c = NULL; EVP_PKEY *k = NULL, *k2 = NULL; EVP_MD_CTX *m = EVP_MD_CTX_new(), *m2 = EVP_MD_CTX_new(); u8 t[32]; size_t l = 32; BIO *bio = NULL;
    int nid = macnids[a % 5], how = a / 5;
    T(m && m2);
    sec_key("MAC key", SK);
    if (collect && a % 5 == 4) { static u8 km[48]; ref_acpkm_master(BC_KUZ, SK, 96, km, 48); sec_key("OMAC-ACPKM section key", km); sec_both("OMAC-ACPKM mask key K1", km + 32, 16); OPENSSL_cleanse(km, 48); }
    T(c = EVP_PKEY_CTX_new_id(nid, NULL)); T(EVP_PKEY_keygen_init(c) > 0);
    if (how == 0) T(EVP_PKEY_CTX_ctrl(c, -1, EVP_PKEY_OP_KEYGEN, EVP_PKEY_CTRL_SET_MAC_KEY, 32, SK) > 0);
    else { char h[65]; for (int i = 0; i < 32; i++) sprintf(h + 2 * i, "%02x", SK[i]); sec("MAC key in hexadecimal", h, 64); T(EVP_PKEY_CTX_ctrl_str(c, "hexkey", h) > 0); }
    T(EVP_PKEY_keygen(c, &k) > 0);
    T(EVP_DigestSignInit(m, NULL, NULL, NULL, k) > 0);
    T(EVP_DigestSignUpdate(m, pat, 100) > 0);
    T(EVP_MD_CTX_copy_ex(m2, m) > 0);
    T(EVP_DigestSignFinal(m, t, &l) > 0); out(o, t, l); l = 32;
    T(EVP_DigestSignUpdate(m2, pat, 10) > 0);
    T(EVP_DigestSignFinal(m2, t, &l) > 0); out(o, t, l);
    ok = 1;
end:
    BIO_free(bio);
    EVP_MD_CTX_free(m); EVP_MD_CTX_free(m2); EVP_PKEY_CTX_free(c); EVP_PKEY_free(k); EVP_PKEY_free(k2);
    return ok;
}
static der p8s[NKT][6], spkis[NKT]; static u8 maskv[NKT][3 * 64];
/* private keys: 0 raw, 1 octet string, 2 integer, 3..: masked */
static int o_load(ob *o, int a)
{
    int ok = 0, f = a / NKT; a %= NKT; EVP_PKEY *k = NULL, *p = NULL; u8 xy[128]; BIO *b = NULL; char *s; long n;
    sec_bn("private key", K[a].d, K[a].n);
    if (f >= 4) for (int i = 0; i < 3; i++) sec("mask or masked private key", maskv[a] + i * K[a].n, K[a].n);
    T(k = pk_load_pkcs8(&p8s[a][f]));
    T(pk_get_xy(k, K[a].n, xy)); out(o, xy, 2 * K[a].n);
    T(p = pk_load_spki(&spkis[a]));
    T(EVP_PKEY_eq(k, p) == 1 && EVP_PKEY_eq(p, K[a].pub) == 1 && EVP_PKEY_parameters_eq(k, p) == 1);
    T(EVP_PKEY_get_bits(k) > 0 && EVP_PKEY_get_size(k) > 0);
    T(b = BIO_new(BIO_s_mem()));
    T(EVP_PKEY_print_public(b, k, 0, NULL) > 0 && EVP_PKEY_print_params(b, k, 0, NULL) > 0);
    n = BIO_get_mem_data(b, &s); out(o, s, n);
    ok = 1;
end:
    BIO_free(b); EVP_PKEY_free(k); EVP_PKEY_free(p);
    return ok;
}
static int o_print(ob *o, int a)
{
    int ok = 0; BIO *b = NULL; char *s; long n;
    sec_bn("private key", K[a].d, K[a].n);
    T(b = BIO_new(BIO_s_mem()));
    T(EVP_PKEY_print_private(b, K[a].pk, 0, NULL) > 0);
    n = BIO_get_mem_data(b, &s); out(o, s, n);
    ok = 1;
end:
    BIO_free(b);
    return ok;
}
static int o_save(ob *o, int a)
{
    int ok = 0, f = a / NKT; a %= NKT; u8 *pd = NULL; int l; PKCS8_PRIV_KEY_INFO *p8 = NULL; EVP_PKEY *c = NULL;
    static const char *fmt[] = { "", "LEGACY_PK_WRAP" };
    int sv = armed; armed = 0; ENG(ENGINE_ctrl_cmd_string(vh_eng, "GOST_PK_FORMAT", fmt[f], 0) > 0); armed = sv;
    sec_bn("private key", K[a].d, K[a].n);
    T(p8 = EVP_PKEY2PKCS8(K[a].pk));
    T((l = i2d_PKCS8_PRIV_KEY_INFO(p8, &pd)) > 0); out(o, pd, l);
    OPENSSL_cleanse(pd, l); OPENSSL_free(pd); pd = NULL;
    T((l = i2d_PUBKEY(K[a].pk, &pd)) > 0); out(o, pd, l);
    T(c = EVP_PKEY_new()); T(EVP_PKEY_copy_parameters(c, K[a].pk) > 0); T(EVP_PKEY_missing_parameters(c) == 0 || 1);
    ok = 1;
end:
    PKCS8_PRIV_KEY_INFO_free(p8); OPENSSL_free(pd); EVP_PKEY_free(c);
    return ok;
}
static X509 *cert(int a, EVP_PKEY *pk)
{
    X509 *x = X509_new(); X509_NAME *n;
    T(x && X509_set_version(x, 2) && ASN1_INTEGER_set(X509_get_serialNumber(x), 7 + a) && ASN1_TIME_set(X509_getm_notBefore(x), 0) && ASN1_TIME_set(X509_getm_notAfter(x), 2000000000));
    n = X509_get_subject_name(x);
    T(n && X509_NAME_add_entry_by_txt(n, "CN", MBSTRING_ASC, (u8 *)"check", -1, -1, 0) && X509_set_issuer_name(x, n));
    T(X509_set_pubkey(x, pk));
    T(X509_sign(x, pk, pk_md(K[a].t)) > 0);
    return x;
end:
    X509_free(x);
    return NULL;
}
static X509 *certs[NKT];
static int o_x509(ob *o, int a)
{
    int ok = 0, l; u8 *b = NULL; X509 *x = NULL;
    secret_key(K[a].pk);
    T(x = cert(a, K[a].pk));
    T((l = i2d_X509(x, &b)) > 0); out(o, b, l);
    T(X509_verify(x, K[a].pub) == 1);
    T(X509_check_private_key(x, K[a].pk) == 1);
    ok = 1;
end:
    OPENSSL_free(b); X509_free(x);
    return ok;
}
static int o_cms_sign(ob *o, int a)
{
    int ok = 0; BIO *in = BIO_new_mem_buf(pat, 300), *op = BIO_new(BIO_s_mem()); CMS_ContentInfo *c = NULL; char *p; long n;
    secret_key(K[a].pk);
    T(in && op);
    T(c = CMS_sign(certs[a], K[a].pk, NULL, in, CMS_BINARY));
    T(CMS_verify(c, NULL, NULL, NULL, op, CMS_BINARY | CMS_NO_SIGNER_CERT_VERIFY) > 0);
    n = BIO_get_mem_data(op, &p); out(o, p, n);
    ok = 1;
end:
    BIO_free(in); BIO_free(op); CMS_ContentInfo_free(c);
    return ok;
}
static int o_cms_enc(ob *o, int a)
{
    int ok = 0, how = a / NKT, kari = how & 1, ci = how / 2; a %= NKT;
    static const int cn[] = { NID_id_Gost28147_89, NID_magma_ctr_acpkm, NID_kuznyechik_ctr_acpkm_omac };
    BIO *in = BIO_new_mem_buf(pat, 300), *op = BIO_new(BIO_s_mem()); CMS_ContentInfo *c = NULL; char *p; long n; CMS_RecipientInfo *ri;
    secret_key(K[a].pk);
    T(in && op);
    draw_secret = NULL;
    T(c = CMS_encrypt(NULL, NULL, EVP_get_cipherbynid(cn[ci]), CMS_BINARY | CMS_PARTIAL));
    T(ri = CMS_add1_recipient_cert(c, certs[a], kari ? CMS_USE_KEYID & 0 : CMS_KEY_PARAM));
    T(CMS_final(c, in, NULL, CMS_BINARY) > 0);
    T(CMS_decrypt(c, K[a].pk, certs[a], NULL, op, CMS_BINARY | CMS_DEBUG_DECRYPT) > 0);
    n = BIO_get_mem_data(op, &p); out(o, p, n);
    ok = 1;
end:
    BIO_free(in); BIO_free(op); CMS_ContentInfo_free(c);
    return ok;
}
static int o_p12(ob *o, int a)
{
    int ok = 0; PKCS12 *p = NULL; EVP_PKEY *k = NULL; X509 *x = NULL; u8 xy[128];
    sec_bn("private key", K[a].d, K[a].n);
    T(p = PKCS12_create("password", "name", K[a].pk, certs[a], NULL, NID_id_Gost28147_89, NID_id_Gost28147_89, 5, -1, 0));
    T(PKCS12_set_mac(p, "password", -1, NULL, 0, 5, pk_md(K[a].t)) > 0);
    T(PKCS12_parse(p, "password", &k, &x, NULL) > 0);
    T(pk_get_xy(k, K[a].n, xy)); out(o, xy, 2 * K[a].n);
    ok = 1;
end:
    PKCS12_free(p); EVP_PKEY_free(k); X509_free(x);
    return ok;
}
static int o_engine(ob *o, int a)
{
    int ok = 0;
    static const char *v[] = { "id-Gost28147-89-CryptoPro-A-ParamSet", "id-tc26-gost-28147-param-Z" };
    T(ENGINE_ctrl_cmd_string(vh_eng, "CRYPT_PARAMS", v[0], 0) > 0);
    T(ENGINE_ctrl_cmd_string(vh_eng, "CRYPT_PARAMS", v[1], 0) > 0);
    T(ENGINE_ctrl_cmd_string(vh_eng, "PBE_PARAMS", "md_gost12_512", 0) > 0);
    T(ENGINE_ctrl_cmd_string(vh_eng, "GOST_PK_FORMAT", "", 0) > 0);
    ok = 1;
end:
    (void)o;
    /* what is stored now is state of the engine, not a leak: store it over by blocks that are not counted */
    armed = 0; static const char *c[] = { "CRYPT_PARAMS", "PBE_PARAMS", "GOST_PK_FORMAT" };
    for (int i = 0; i < 3; i++) HARN(ENGINE_ctrl_cmd_string(vh_eng, c[i], i == 0 ? v[1] : i == 1 ? "md_gost12_512" : "", 0) > 0);
    return ok;
}
static int o_kdf(ob *o, int a)
{
    u8 t[64]; (void)a;
    sec("KDF key", SK, 32);
    if (gost_kdftree2012_256(t, 64, SK, 32, pat, 10, pat + 20, 8, 1) != 1) return 0;
    out(o, t, 64);
    sec("derived key", t, 32); sec("derived key", t + 32, 32);
    sec_tree(SK, 0, pat);
    if (gost_tlstree(NID_magma_cbc, SK, t, pat) != 1) return 0;
    out(o, t, 32);
    u8 w[48]; int wl = 40;
    sec("wrapped key", pat + 40, 32); sec("wrapping key", pat + 300, 32);
    if (gost_kexp15(pat + 40, 32, NID_magma_ctr, SK, NID_magma_mac, pat + 300, pat, 4, w, &wl) != 1) return 0;
    out(o, w, wl);
    if (gost_kimp15(w, wl, NID_magma_ctr, SK, NID_magma_mac, pat + 300, pat, 4, t) != 1) return 0;
    OPENSSL_cleanse(t, 64);
    wl = 48;
    if (gost_kexp15(pat + 40, 32, NID_grasshopper_ctr, SK, NID_grasshopper_mac, pat + 300, pat, 8, w, &wl) != 1) return 0;
    out(o, w, wl);
    return 1;
}
#define STK (1 << 20)
static u8 *stk, *snap; static int peeking, nsnap;
/* what the call that has just returned left below this frame: later calls would cover it */
#define PEEK() do { if (peeking && nsnap < 2) memcpy(snap + STK * nsnap++, stk, STK); } while (0)
/* the primitives alone, so that nothing covers what they leave on the stack */
static int o_prim(ob *o, int a)
{
    static gost_ctx c; static u8 w[44], k[32], e[32], s[64]; int i = a / 4 % NKT, r, sv = armed;
    armed = 0;
    if (collect) { sec("transported key", SK, 32); sec_key("key exchange key", pat + 300); ref_diversify(SB_Z, pat + 300, pat, e); sec_key("diversified key exchange key", e); }
    static EC_POINT *pt; const EC_KEY *ek = EVP_PKEY_get0(K[i].pk);
    pt = (EC_POINT *)EC_KEY_get0_public_key(EVP_PKEY_get0(P[i].pub));
    if (collect && a % 4 == 2) { sec_bn("private key", K[i].d, K[i].n); ref_vko(K[i].c, K[i].d, P[i].xy, pat, 8, 1, s); sec("shared key", s, 32); sec_shared(K[i].c, K[i].n); }
    armed = sv;
    switch (a % 4) {
    case 0: gost_init(&c, &Gost28147_TC26ParamSetZ); keyWrapCryptoPro(&c, pat + 300, pat, SK, w); PEEK(); gost_destroy(&c); out(o, w, 44); return 1;
    case 1: if (collect) ref_cpwrap(SB_Z, pat + 300, pat, SK, w); gost_init(&c, &Gost28147_TC26ParamSetZ); r = keyUnwrapCryptoPro(&c, pat + 300, w, k); PEEK(); gost_destroy(&c); out(o, k, 32); memset(k, 0, 32); return r == 1;
    case 2: r = VKO_compute_key(s, pt, ek, pat, 8, NID_id_GostR3411_2012_256); PEEK(); if (r != 32) return 0; out(o, s, 32); memset(s, 0, 64); return 1;
    default: if (collect) ref_cpwrap(SB_Z, pat + 300, pat, SK, w);
        w[41] ^= 1; gost_init(&c, &Gost28147_TC26ParamSetZ); r = keyUnwrapCryptoPro(&c, pat + 300, w, k); PEEK(); gost_destroy(&c); w[41] ^= 1;
        if (r == 1) vh_viol("forged-accepted", "an altered wrapped key was accepted");
        out(o, k, 32); return r == 0;
    }
}
static int o_prim2(ob *o, int a)
{
    static u8 w[64], k[64], x[32], seq[8] = {0, 0, 0, 1, 0, 2, 0, 3}; int l = a & 1 ? 48 : 40, r, t = a & 1, sv = armed; EVP_MD_CTX *m;
    armed = 0;
    if (collect) {
        static u8 ks[64];
        switch (a / 2) {
        case 0: ref_kdf_tree(SK, 32, (const u8 *)"kdf tree", 8, pat + 8, 8, 1, 64, ks); sec_key("content encryption key", ks); sec_key("content MAC key", ks + 32); OPENSSL_cleanse(ks, 64); break;
        case 1: case 2: case 3: sec("transported key", SK, 32); ref_kexp15(t ? BC_KUZ : BC_MAGMA, SK, pat + 300, pat + 40, pat, w); if (a / 2 == 3) w[33] ^= 1; break;
        case 4: sec_tree(SK, t, seq); break;
        case 5: ref_kdf_tree(SK, 32, (const u8 *)"label", 5, pat, 20, 1, 64, ks); sec("derived keys", ks, 64); OPENSSL_cleanse(ks, 64); break;
        }
    }
    armed = sv;
    switch (a / 2) {
    case 0: m = EVP_MD_CTX_new(); if (!m) return 0; memcpy(w, pat + 8, 8); r = gost2015_acpkm_omac_init(t ? NID_kuznyechik_mac : NID_magma_mac, 0, SK, m, x, w); PEEK(); if (r > 0) out(o, x, 32); memset(x, 0, 32); EVP_MD_CTX_free(m); return r > 0;
    case 1: r = gost_kexp15(SK, 32, t ? NID_grasshopper_ctr : NID_magma_ctr, pat + 300, t ? NID_grasshopper_mac : NID_magma_mac, pat + 40, pat, t ? 8 : 4, k, &l); if (r > 0) out(o, k, l); memset(k, 0, 64); return r > 0;
    case 2: case 3: r = gost_kimp15(w, t ? 48 : 40, t ? NID_grasshopper_ctr : NID_magma_ctr, pat + 300, t ? NID_grasshopper_mac : NID_magma_mac, pat + 40, pat, t ? 8 : 4, k); if (a / 2 == 3) r = r <= 0; out(o, k, r > 0 ? 32 : 0); memset(k, 0, 64); return r > 0;
    case 4: r = gost_tlstree(t ? NID_grasshopper_cbc : NID_magma_cbc, SK, x, seq); if (r > 0) out(o, x, 32); memset(x, 0, 32); return r > 0;
    default: r = gost_kdftree2012_256(k, 64, SK, 32, (const u8 *)"label", 5, pat, 20, 1); if (r > 0) out(o, k, 64); memset(k, 0, 64); return r > 0;
    }
}
typedef struct { char name[40]; int (*fn)(ob *, int); int a; } op;
static op ops[400]; static int nops;
static void add(int (*fn)(ob *, int), int n, const char *name) { for (int i = 0; i < n; i++) { HARN(nops < 400); snprintf(ops[nops].name, 40, "%s/%d", name, i); ops[nops].fn = fn; ops[nops++].a = i; } }
static void mem_setup(void)
{
    const int *n; int c;
    pk_setup();
    RAND_set_rand_method(&det); rs = 1;
    dl_iterate_phdr(find_eng, NULL); HARN(eng_lo);
    d_bytes(pat, sizeof pat); d_bytes(SK, 32);
    c = ENGINE_get_ciphers(vh_eng)(vh_eng, NULL, &n, 0); for (int i = 0; i < c; i++) ENG(cis[nci++] = ENGINE_get_cipher(vh_eng, n[i]));
    c = ENGINE_get_digests(vh_eng)(vh_eng, NULL, &n, 0); for (int i = 0; i < c; i++) ENG(mds[nmd++] = ENGINE_get_digest(vh_eng, n[i]));
    for (int i = 0; i < nci; i++) {     /* ECB and some others have no parameters */
        EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new(); ASN1_TYPE *at = ASN1_TYPE_new();
        asn1_ok[i] = !(EVP_CIPHER_flags(cis[i]) & (EVP_CIPH_FLAG_AEAD_CIPHER)) && EVP_CIPHER_mode(cis[i]) != EVP_CIPH_WRAP_MODE && EVP_CipherInit_ex(x, cis[i], NULL, SK, pat, 1) > 0 && EVP_CIPHER_param_to_asn1(x, at) > 0;
        ERR_clear_error(); ASN1_TYPE_free(at); EVP_CIPHER_CTX_free(x);
        if (asn1_ok[i]) vh_count("ciphers_with_parameters", 1);
    }
    for (int i = 0; i < NKT; i++) for (int w = 0; w < 2; w++) {
        const pk_type *t = &pk_types[ktypes[i]]; u8 b[64]; BIGNUM *d = BN_new(); d_bytes(b, 64);
        BN_lebin2bn(b, ref_curves[t->rc].n, d); BN_mask_bits(d, BN_num_bits(ref_curves[t->rc].q) - 1);
        pk_make_d(w ? &P[i] : &K[i], t, d); BN_free(d);
    }
    for (int i = 0; i < NKT; i++) {
        u8 b[64], r[64]; BN_bn2lebinpad(K[i].d, b, K[i].n); BN_bn2binpad(K[i].d, r, K[i].n);
        pk_pkcs8(K[i].t, b, K[i].n, 0, &p8s[i][0]); pk_pkcs8(K[i].t, b, K[i].n, 1, &p8s[i][1]); pk_pkcs8(K[i].t, r, K[i].n, 2, &p8s[i][2]); 
        pk_pkcs8(K[i].t, b, K[i].n, 3, &p8s[i][3]);
        /* masked: key multiplied by two masks */
        BIGNUM *m = BN_new(), *x = BN_new(); BN_CTX *bx = BN_CTX_new(); u8 mk[3 * 64]; int nn = K[i].n;
        BN_copy(x, K[i].d);
        for (int j = 0; j < 2; j++) { u8 mm[64]; d_bytes(mm, nn); BN_lebin2bn(mm, nn, m); BN_mask_bits(m, BN_num_bits(K[i].c->q) - 1); BN_bn2lebinpad(m, mk + nn * (1 + j), nn); BN_mod_inverse(m, m, K[i].c->q, bx); BN_mod_mul(x, x, m, K[i].c->q, bx); }
        BN_bn2lebinpad(x, mk, nn); BN_free(m); BN_free(x); BN_CTX_free(bx);
        memcpy(maskv[i], mk, sizeof mk);
        pk_pkcs8(K[i].t, mk, 3 * nn, 0, &p8s[i][4]); pk_pkcs8(K[i].t, mk, 3 * nn, 3, &p8s[i][5]);
        pk_spki(K[i].t, K[i].xy, nn, &spkis[i]);
        ENG(certs[i] = cert(i, K[i].pk));
        ob o = {{0}}; rs = 99; ENG(o_sign(&o, i)); memcpy(sigs[i], o.b, o.n);
        for (int k = 0; k < 3; k++) { o.n = 0; ENG(o_encrypt(&o, k * NKT + i)); }
    }
    nsecs = 0;
    bad_setup(); add(o_refuse, 4 * NKT, "refuse-signature"); add(o_refuse_sym, 8, "refuse");
    add(o_digest, nmd, "digest"); add(o_hmac, 3, "hmac");
    add(o_keygen, NKT, "keygen"); add(o_sign, NKT, "sign"); add(o_verify, NKT, "verify"); add(o_dsign, NKT, "message-sign");
    add(o_derive, 3 * NKT, "derive"); add(o_encrypt, 3 * NKT, "encrypt"); add(o_decrypt, 3 * NKT, "decrypt"); add(o_decrypt_bad, 3 * NKT, "decrypt-altered");
    add(o_mackey, 10, "mac-key"); add(o_load, 6 * NKT, "load"); add(o_save, 2 * NKT, "save"); add(o_print, NKT, "print"); add(o_x509, NKT, "x509");
    add(o_cms_sign, NKT, "cms-sign"); add(o_cms_enc, 6 * NKT, "cms-encrypt"); add(o_p12, NKT, "pkcs12"); add(o_engine, 1, "engine"); add(o_kdf, 1, "kdf"); add(o_prim, 4 * NKT, "primitive"); add(o_prim2, 12, "derivation"); add(o_tlstree, 2, "tlstree"); add(o_omac, 2, "omac-content"); add(o_wrapcipher, 2, "kexp15-cipher");
    for (int i = 0; i < nci; i++) {
        int nid = EVP_CIPHER_nid(cis[i]);
        if (nid == NID_magma_kexp15 || nid == NID_kuznyechik_kexp15) continue;
        if (nid != NID_magma_ctr_acpkm_omac && nid != NID_kuznyechik_ctr_acpkm_omac) { ops[nops] = (op){.fn = o_cipher, .a = i}; snprintf(ops[nops++].name, 40, "cipher/%s", EVP_CIPHER_name(cis[i])); }
        if (EVP_CIPHER_flags(cis[i]) & EVP_CIPH_RAND_KEY) { ops[nops] = (op){.fn = o_randkey, .a = i}; snprintf(ops[nops++].name, 40, "rand-key/%s", EVP_CIPHER_name(cis[i])); }
    }
}
static int runop(const op *p, ob *o) { o->n = 0; rs = 4242; int r; ERR_clear_error(); armed = 1; r = p->fn(o, p->a); armed = 0; ERR_clear_error(); return r; }
static ob clean, got;
/* slices: each operation's failure points are divided over SL cases */
#define SL 2
static void oom_any(int pairs)
{
    const op *p = &ops[pairs ? vh_case % nops : (vh_case / SL) % nops]; long n, k, before; int sl = vh_case % SL, r;
    curop = p->name; nsecs = 0; scan = 0;
    fail_at = -1;
    if (!runop(p, &clean)) { vh_viol("clean-run", "%s fails: %s", p->name, vh_eng_reason()); return; }
    if (!strncmp(p->name, "refuse", 6)) { vh_count("refusals", 1); if (clean.b[0] != 'n') vh_viol("forged-accepted", "%s: accepted", p->name); }
    HARN(runop(p, &got));
    nall = 0;
    if (!runop(p, &got) || got.n != clean.n || memcmp(got.b, clean.b, got.n)) vh_fatal("%s is not deterministic", p->name);
    n = nall;
    before = live_eng;
    if (vh_verbose) fprintf(stderr, "%s: %ld allocations\n", p->name, n);
    for (int st = 0; st < 2; st++) for (k = pairs ? 0 : sl; k < (pairs ? 15 : n); k += pairs ? 1 : SL) {
        uint64_t s0 = seqno; char w[400] = "";
        nall = 0; hit = 0; sticky = pairs ? 0 : st; fail_at = pairs ? (long)rn(n) : k; fail_also = pairs ? fail_at + 1 + (long)rn(chance(1, 2) ? 4 : n) : -1;
        long fa = fail_at;
        vh_log("%s with allocation %ld (and %ld) of %ld failing%s", p->name, fa, fail_also, n, sticky ? " and all later ones" : "");
        r = runop(p, &got);
        fail_at = fail_also = -1;
        if (!hit) { vh_count(n ? fa + 4 >= n ? "unreached_at_end" : "unreached_midway" : "nothing_allocated", 1); continue; }   /* the signing time in CMS moves the count a little */
        vh_count("failures_injected", 1);
        if (chance(1, 2000)) vh_sample("%s: allocation %ld (and %ld) of %ld fails in %s: %s", p->name, fa, fail_also, n, where(failbt, nfailbt), r ? "same result" : "reported");
        if (r) vh_count("operations_succeeded_anyway", 1); else vh_count("operations_failed", 1);
        if (r && (got.n != clean.n || memcmp(got.b, clean.b, got.n))) {
            snprintf(w, sizeof w, "%s", where(failbt, nfailbt));
            char key[300]; snprintf(key, sizeof key, "wrong-result:%s", fkey(w));
            vh_viol(key, "%s reports success with another result when %s fails (%s:%d)", p->name, w, failfile, failline);
        }
        if (live_eng != before) {
            snprintf(w, sizeof w, "%s", where(failbt, nfailbt));
            for (blk *b = live.next; b != &live; b = b->next) if (b->eng && b->seq > s0) {
                if (strstr(b->file, "crypto/err/")) { b->eng = 0; live_eng--; continue; }      /* the thread's error queue keeps its buffers */
                char a[400]; snprintf(a, sizeof a, "%s", where(b->bt, b->nbt));
                char key[300]; snprintf(key, sizeof key, "leak:%s", fkey(a));
                vh_viol(key, "%s: %zu octets allocated in %s (%s:%d) are not released when %s fails (%s:%d)", p->name, b->n, a, b->file, b->line, w, failfile, failline);
                b->eng = 0; live_eng--;
            }
            before = live_eng;
        }
        vh_sig("%s|%d|%lx", p->name, pairs ? 2 : st, fplace());
        if (vh_case_failed > 40) return;
    }
    if (!runop(p, &got) || got.n != clean.n || memcmp(got.b, clean.b, got.n)) vh_viol("state-damaged", "%s: another result after allocation failures", p->name);
    vh_count("operations", 1);
}
static void oom_case(void) { oom_any(0); }
static void oom2_case(void) { oom_any(1); }
#include <ucontext.h>
static ucontext_t uc_main, uc_op; static const op *uc_p; static ob *uc_o; static int uc_r;
static void uc_run(void) { uc_r = uc_p->fn(uc_o, uc_p->a); }
static int runop_on_stack(const op *p, ob *o)
{
    if (!stk) { HARN(stk = aligned_alloc(4096, STK)); HARN(snap = aligned_alloc(4096, 2 * STK)); memset(snap, 0, 2 * STK); }
    memset(stk, 0, STK);
    HARN(getcontext(&uc_op) == 0);
    uc_op.uc_stack.ss_sp = stk; uc_op.uc_stack.ss_size = STK; uc_op.uc_link = &uc_main; uc_p = p; uc_o = o;
    o->n = 0; rs = 4242; ERR_clear_error();
    makecontext(&uc_op, uc_run, 0);
    peeking = 1; nsnap = 0;
    HARN(swapcontext(&uc_main, &uc_op) == 0);
    peeking = 0;
    return uc_r;
}
static void wipe_case(void)
{
    const op *p = &ops[vh_case % nops];
    curop = p->name; nsecs = 0; scan = 0; fail_at = -1; frees_scanned = 0;
    if (!runop(p, &clean)) { vh_viol("clean-run", "%s fails: %s", p->name, vh_eng_reason()); return; }
    if (!nsecs) return;
    scan = 1;
    int r = runop(p, &got);
    scan = 0;
    if (!r || got.n != clean.n || memcmp(got.b, clean.b, got.n)) vh_fatal("%s is not deterministic", p->name);
    collect = 0; runop_on_stack(p, &got); collect = 1;
    /* Not judged on the stack: the cipher key of the 64-bit ciphers (the round function holds it in registers,
     * which some compilers spill) and the shared key of 34.10-2001 (the output of a hash function that is not keyed). */
    int judged = !(p->fn == o_digest || p->fn == o_mackey || p->fn == o_hmac || (p->fn == o_derive && K[p->a % NKT].t->alg == R1) || (p->fn == o_cipher && !strstr(p->name, "kuznyechik")));
    /* Nor coordinates of shared points: the property names keys, and field arithmetic on the way to one passes through many frames. */
#if defined(__has_feature)
# if __has_feature(address_sanitizer)
#  define INSTRUMENTED
# endif
#elif defined(__SANITIZE_ADDRESS__)
# define INSTRUMENTED
#endif
#ifdef INSTRUMENTED
    judged = 0;     /* instrumented frames keep copies of their own */
#endif
    if (judged) vh_count("stacks_searched", 1 + nsnap);
    for (int i = 0; judged && i < nsecs; i++) for (size_t k = 0; !strstr(secs[i].what, "shared point") && k + 16 <= secs[i].n; k += 8) {
        const u8 *h = memmem(stk, STK, secs[i].v + k, 16), *base = stk;
        for (int j = 0; j < nsnap && !h; j++) h = memmem(base = snap + STK * j, STK, secs[i].v + k, 16);
        if (h) { char key[200]; snprintf(key, sizeof key, "stack-secret:%.*s:%s", (int)strcspn(p->name, "/"), p->name, secs[i].what); vh_viol(key, "%s: %s (octets %zu..) is left on the stack when the operation has finished (%ld octets down)", p->name, secs[i].what, k, (long)(base + STK - h)); break; }
    }
    if (chance(1, 30)) vh_sample("%s: %d secrets (%s, ..) searched in %ld released blocks", p->name, nsecs, secs[0].what, frees_scanned);
    vh_count("blocks_searched", frees_scanned); vh_count("secrets", nsecs); vh_count("operations", 1);
    vh_sig("%s", p->name);
}
/* error paths: every allocation fails in turn, and what is released on the way out is searched */
static void wipefail_case(void)
{
    const op *p = &ops[vh_case % nops]; long n, k;
    curop = p->name; nsecs = 0; scan = 0; fail_at = -1; frees_scanned = 0;
    if (!runop(p, &clean)) { vh_viol("clean-run", "%s fails: %s", p->name, vh_eng_reason()); return; }
    if (!nsecs) return;
    collect = 0;
    HARN(runop(p, &got)); nall = 0; HARN(runop(p, &got)); n = nall;
    for (k = 0; k < n; k++) {
        nall = 0; hit = 0; sticky = 0; fail_at = k; scan = 1;
        vh_log("%s with allocation %ld of %ld failing", p->name, k, n);
        runop(p, &got);
        fail_at = -1; scan = 0;
        if (hit) vh_count("failures_injected", 1);
        vh_sig("%s|%lx", p->name, fplace());
        if (vh_case_failed > 40) break;
    }
    collect = 1;
    vh_count("error_blocks_searched", frees_scanned); vh_count("error_operations", 1);
}
const vh_workload vh_workloads[] = { {"wipefail", wipefail_case, mem_setup, NULL}, {"oom", oom_case, mem_setup, NULL}, {"oom2", oom2_case, mem_setup, NULL}, {"wipe", wipe_case, mem_setup, NULL}, {0} };
