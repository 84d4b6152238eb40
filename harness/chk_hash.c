/* P01: digests against the reference for arbitrary feedings, clones, re-use. */
#include "vheng.h"

static const char *names[] = { "md_gost94", "md_gost12_256", "md_gost12_512" };
static const EVP_MD *mds[3];
static void setup(void)
{
    for (int i = 0; i < 3; i++) {
        ENG(mds[i] = ENGINE_get_digest(vh_eng, OBJ_sn2nid(names[i])));
        if (EVP_MD_size(mds[i]) != ref_hash_len(i)) vh_viol("md-size", "%s size %d", names[i], EVP_MD_size(mds[i]));
    }
}
#define MAXC 4
static struct { EVP_MD_CTX *c; u8 *buf; size_t len; int live; int alg; int ops; } x[MAXC];

static void feed(int i, size_t n)
{
    u8 tmp[70000 + 16];
    size_t off = rn(16);
    if (n > 70000) n = 70000;
    rcontent(tmp + off, n);
    x[i].buf = realloc(x[i].buf, x[i].len + n + 1);
    memcpy(x[i].buf + x[i].len, tmp + off, n);
    x[i].len += n;
    vh_log("ctx%d update off=%zu len=%zu (total %zu) data=%s", i, off, n, x[i].len, vh_hex(tmp + off, n > 80 ? 80 : n));
    if (EVP_DigestUpdate(x[i].c, tmp + off, n) != 1) vh_viol("update-failed", "%s", names[x[i].alg]);
    memset(tmp + off, 0xEE, n);
    vh_count("updates", 1);
    x[i].ops++;
}
static void fin(int i)
{
    u8 got[EVP_MAX_MD_SIZE + 8], exp[64]; unsigned l = 0;
    memset(got, 0xA5, sizeof got);
    int hl = ref_hash_len(x[i].alg);
    if (EVP_DigestFinal_ex(x[i].c, got, &l) != 1) { vh_viol("final-failed", "%s", names[x[i].alg]); x[i].live = 0; return; }
    vh_log("ctx%d final total=%zu -> %s", i, x[i].len, vh_hex(got, l));
    ref_hash(x[i].alg, x[i].buf, x[i].len, exp);
    if ((int)l != hl || memcmp(got, exp, hl))
        vh_viol("digest", "%s of %zu bytes: got %s want %s", names[x[i].alg], x[i].len, vh_hex(got, l), vh_hex(exp, hl));
    for (int j = hl; j < (int)sizeof got; j++) if (got[j] != 0xA5) { vh_viol("digest-overrun", "%s wrote past %d", names[x[i].alg], hl); break; }
    vh_count("digests_checked", 1);
    vh_sig("%d %zu %zu %d", x[i].alg, x[i].len % 64, x[i].len / 64 > 40 ? 40 : x[i].len / 64, x[i].ops > 8 ? 8 : x[i].ops);
    vh_sample("alg=%s len=%zu updates=%d digest=%s", names[x[i].alg], x[i].len, x[i].ops, vh_hex(exp, hl));
    x[i].live = 0;
}
static void begin(int i)
{
    int a = (int)rn(3);
    if (!x[i].c) HARN(x[i].c = EVP_MD_CTX_new());
    if (chance(1, 8)) { EVP_MD_CTX_reset(x[i].c); vh_log("ctx%d reset", i); }
    vh_log("ctx%d init %s", i, names[a]);
    if (EVP_DigestInit_ex(x[i].c, mds[a], chance(1, 2) ? vh_eng : NULL) != 1) { vh_viol("init-failed", "%s", names[a]); return; }
    x[i].alg = a; x[i].len = 0; x[i].live = 1; x[i].ops = 0;
}
static void run(void)
{
    int steps = 4 + (int)rn(24);
    size_t mx = chance(1, 20) ? 70000 : chance(1, 4) ? 5000 : 400;
    for (int k = 0; k < steps; k++) {
        int i = (int)rn(MAXC);
        if (!x[i].live) { begin(i); continue; }
        switch (rn(10)) {
        case 0: case 1: case 2: case 3: case 4: feed(i, rlen(mx)); break;
        case 5: feed(i, rn(3)); break;
        case 6: case 7: {
            int j = (int)rn(MAXC);
            if (j == i) break;
            if (x[j].live && chance(1, 2)) fin(j);
            if (!x[j].c) x[j].c = EVP_MD_CTX_new();
            else if (chance(1, 3)) { EVP_MD_CTX_free(x[j].c); x[j].c = EVP_MD_CTX_new(); }
            vh_log("copy ctx%d -> ctx%d", i, j);
            if (EVP_MD_CTX_copy_ex(x[j].c, x[i].c) != 1) { vh_viol("copy-failed", "%s", names[x[i].alg]); break; }
            x[j].buf = realloc(x[j].buf, x[i].len + 1);
            memcpy(x[j].buf, x[i].buf ? x[i].buf : (u8 *)"", x[i].len);
            x[j].len = x[i].len; x[j].live = 1; x[j].alg = x[i].alg; x[j].ops = x[i].ops + 1;
            vh_count("copies", 1);
            if (chance(1, 3)) { vh_log("free ctx%d", i); EVP_MD_CTX_free(x[i].c); x[i].c = NULL; x[i].live = 0; }
            break; }
        case 8: fin(i); break;
        case 9: if (chance(1, 3)) { vh_log("abandon ctx%d", i); begin(i); } break;
        }
    }
    for (int i = 0; i < MAXC; i++) {
        if (x[i].live) fin(i);
        if (x[i].c && chance(1, 2)) { EVP_MD_CTX_free(x[i].c); x[i].c = NULL; }
        free(x[i].buf); x[i].buf = NULL; x[i].len = 0;
    }
}
static void done(void)
{
    for (int i = 0; i < MAXC; i++) { EVP_MD_CTX_free(x[i].c); x[i].c = NULL; free(x[i].buf); x[i].buf = NULL; }
}
/* one-shot of every short length, and every split of it into two */
static void run_dense(void)
{
    size_t len = vh_case % 300; int a = (int)(vh_case / 300 % 3);
    u8 m[300], e[64], g[64]; unsigned l;
    rcontent(m, len);
    ref_hash(a, m, len, e);
    EVP_MD_CTX *c = EVP_MD_CTX_new();
    for (size_t cut = 0; cut <= len; cut++) {
        ENG(EVP_DigestInit_ex(c, mds[a], NULL));
        EVP_DigestUpdate(c, m, cut);
        EVP_DigestUpdate(c, m + cut, len - cut);
        EVP_DigestFinal_ex(c, g, &l);
        vh_count("digests_checked", 1);
        vh_sig("dense %d %zu %zu", a, len, cut);
        if (memcmp(g, e, ref_hash_len(a))) { vh_viol("digest", "%s len %zu split at %zu: got %s want %s", names[a], len, cut, vh_hex(g, l), vh_hex(e, ref_hash_len(a))); break; }
    }
    EVP_MD_CTX_free(c);
}
/* HMAC over the engine's digests (RFC 2104), the digest contexts being cloned internally */
static void run_hmac(void)
{
    int a = (int)rn(3);
    size_t kl = rlen(200), ml = rlen(3000);
    u8 *k = malloc(kl + 1), *m = malloc(ml + 1), e[64], g[64]; unsigned gl = 0;
    rcontent(k, kl); rcontent(m, ml);
    ref_hmac(a, k, kl, m, ml, e);
    HMAC_CTX *h = HMAC_CTX_new();
    HARN(h);
    int reps = 1 + (int)rn(2);
    for (int r = 0; r < reps; r++) {
        HARN(r ? HMAC_Init_ex(h, NULL, 0, NULL, NULL) : HMAC_Init_ex(h, k, (int)kl, mds[a], NULL));
        size_t p = 0;
        while (p < ml) { size_t n = 1 + rn(ml - p); HMAC_Update(h, m + p, n); p += n; }
        HMAC_Final(h, g, &gl);
        vh_count("hmacs_checked", 1);
        vh_sig("hmac %d %zu %zu %d", a, kl > 70 ? 70 + kl % 3 : kl, ml % 64, r);
        if ((int)gl != ref_hash_len(a) || memcmp(g, e, gl))
            vh_viol("hmac", "%s key %zu msg %zu round %d: got %s want %s", names[a], kl, ml, r, vh_hex(g, gl), vh_hex(e, ref_hash_len(a)));
    }
    HMAC_CTX_free(h); free(k); free(m);
}
/* messages whose length in bits passes 2^32 (case 0..2) */
static void run_big(void)
{
    int a = (int)(vh_case % 3);
    size_t len = (1ull << 29) + rn(200);
    u8 *m = malloc(len), e[64], g[64]; unsigned l;
    HARN(m);
    uint64_t v = rnd();
    for (size_t i = 0; i + 8 <= len; i += 8) { v = v * 6364136223846793005ull + 1442695040888963407ull; memcpy(m + i, &v, 8); }
    EVP_MD_CTX *c = EVP_MD_CTX_new();
    ENG(EVP_DigestInit_ex(c, mds[a], NULL));
    size_t p = 0;
    while (p < len) { size_t n = 1 + rn(1 << 28); if (n > len - p) n = len - p; EVP_DigestUpdate(c, m + p, n); p += n; }
    EVP_DigestFinal_ex(c, g, &l);
    EVP_MD_CTX_free(c);
    ref_hash(a, m, len, e);
    vh_count("digests_over_512MiB", 1);
    vh_sig("big %d", a);
    if (memcmp(g, e, ref_hash_len(a))) vh_viol("digest-long", "%s of %zu bytes", names[a], len);
    free(m);
}
const vh_workload vh_workloads[] = { { "ops", run, setup, done }, { "dense", run_dense, setup, 0 }, { "hmac", run_hmac, setup, 0 }, { "big", run_big, setup, 0 }, { 0 } };
