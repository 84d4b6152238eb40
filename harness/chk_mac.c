/* P06: MACs against the reference, through the keyed digest and the MAC key interfaces */
#include "vheng.h"
#include "gost_lcl.h"

static const struct { const char *name; int bs, minlen, maxlen, deflen, xof; } md_[] = {
    { "gost-mac", 8, 1, 8, 4, 1 }, { "gost-mac-12", 8, 1, 8, 4, 1 },
    { "magma-mac", 8, 1, 8, 8, 1 }, { "kuznyechik-mac", 16, 1, 16, 16, 1 },
    { "kuznyechik-ctr-acpkm-omac", 16, 1, 16, 16, 1 },
};
#define NM 5
static const struct { const char *txt; int sb; } psets[] = {
    { "id-Gost28147-89-CryptoPro-A-ParamSet", SB_A }, { "id-Gost28147-89-CryptoPro-B-ParamSet", SB_B },
    { "id-Gost28147-89-CryptoPro-C-ParamSet", SB_C }, { "id-Gost28147-89-CryptoPro-D-ParamSet", SB_D },
    { "id-tc26-gost-28147-param-Z", SB_Z }, { "id-Gost28147-89-TestParamSet", SB_TEST } };
static const EVP_MD *mds[NM]; static int nids[NM];
static void setup(void)
{
    for (int i = 0; i < NM; i++) {
        nids[i] = OBJ_sn2nid(md_[i].name);
        if (nids[i] == NID_undef) nids[i] = OBJ_ln2nid(md_[i].name);
        ENG(nids[i] != NID_undef);
        ENG(mds[i] = ENGINE_get_digest(vh_eng, nids[i]));
        if (EVP_MD_size(mds[i]) != md_[i].deflen) vh_viol("mac-size", "%s size %d", md_[i].name, EVP_MD_size(mds[i]));
    }
}
static int acpkm_only;
typedef struct {
    EVP_MD_CTX *c; EVP_PKEY *pk; int live, pkif, alg, sb, size, copies, reused, ops, finals, setlen;   /* setlen: length asked for beforehand */
    u8 key[32]; size_t section, tstar; int tls; u8 seq[8];
    u8 *buf; size_t len, cap;
} ms;
#define MAXC 4
static ms x[MAXC];
static void *dup(const void *p, size_t n) { void *q = malloc(n ? n : 1); if (n) memcpy(q, p, n); return q; }
static void setup_acpkm(void) { setup(); acpkm_only = 1; }
static void expect(ms *s, u8 *out)
{
    u8 k[32];
    memcpy(k, s->key, 32);
    if (s->tls) { uint64_t q = 0; for (int i = 0; i < 8; i++) q = q << 8 | s->seq[i]; ref_tlstree(s->alg == 2 ? BC_MAGMA : BC_KUZ, s->key, q, k); }
    switch (s->alg) {
    case 0: case 1: ref_imit(s->sb, 1, k, NULL, s->buf, s->len, 64, out); break;
    case 2: ref_omac(BC_MAGMA, k, s->buf, s->len, out); break;
    case 3: ref_omac(BC_KUZ, k, s->buf, s->len, out); break;
    case 4: ref_omac_acpkm(BC_KUZ, k, s->section, s->tstar, s->buf, s->len, out); break;
    }
}
static void begin(int i)
{
    ms *s = &x[i];
    int reuse = s->c && chance(2, 3);
    if (s->c && !reuse) { EVP_MD_CTX_free(s->c); s->c = NULL; }
    /* a context of a keyed digest and one of the MAC key interface are not interchanged without a reset */
    int pkif = chance(1, 2);
    if (s->c && (s->pkif || pkif || chance(1, 6))) { vh_log("ctx%d reset", i); EVP_MD_CTX_reset(s->c); }
    if (!s->c) HARN(s->c = EVP_MD_CTX_new());
    EVP_PKEY *oldpk = s->pk; s->pk = NULL;
    s->reused = reuse; s->copies = s->ops = s->finals = s->setlen = 0; s->tls = 0; s->len = 0; s->live = 0; s->pkif = pkif;
    s->alg = acpkm_only ? (int[]){ 0, 1, 2, 3, 4, 4, 4, 4 }[rn(8)] : (int)rn(NM); rkey_next(s->key, 32);
    s->sb = s->alg == 0 ? SB_A : SB_Z; s->size = md_[s->alg].deflen; s->section = 4096; s->tstar = 0;
    const EVP_MD *md = mds[s->alg];
    u8 *k = dup(s->key, 32);
    if (!s->pkif) {
        vh_log("ctx%d digest init %s key=%s%s", i, md_[s->alg].name, vh_hex(s->key, 32), reuse ? " (used context)" : "");
        ENG(EVP_DigestInit_ex(s->c, md, chance(1, 2) ? vh_eng : NULL) == 1);
        unsigned kl = 0;
        if (chance(1, 4)) { ENG(EVP_MD_CTX_ctrl(s->c, EVP_MD_CTRL_KEY_LEN, 0, &kl) > 0); if (kl != 32) vh_viol("mac-keylen", "%u", kl); }
        ENG(EVP_MD_CTX_ctrl(s->c, EVP_MD_CTRL_SET_KEY, 32, k) > 0);
    } else {
        int how = (int)rn(4), setsize = chance(1, 2), ps = s->alg < 2 && chance(1, 2) ? (int)rn(6) : -1;
        if (setsize) s->size = 1 + (int)rn(md_[s->alg].maxlen);
        if (ps >= 0) s->sb = psets[ps].sb;
        if (how == 0 && !setsize && ps < 0) ENG(s->pk = EVP_PKEY_new_mac_key(nids[s->alg], vh_eng, k, 32));
        else {
            EVP_PKEY_CTX *pc; char b[80];
            ENG(pc = EVP_PKEY_CTX_new_id(nids[s->alg], vh_eng));
            ENG(EVP_PKEY_keygen_init(pc) == 1);
            if (how == 1) { for (int j = 0; j < 32; j++) sprintf(b + 2 * j, chance(1, 2) ? "%02x" : "%02X", s->key[j]); ENG(EVP_PKEY_CTX_ctrl_str(pc, "hexkey", b) == 1); }
            else if (how == 2 && !memchr(s->key, 0, 32)) { memcpy(b, s->key, 32); b[32] = 0; ENG(EVP_PKEY_CTX_ctrl_str(pc, "key", b) == 1); }
            else ENG(EVP_PKEY_CTX_ctrl(pc, -1, EVP_PKEY_OP_KEYGEN, EVP_PKEY_CTRL_SET_MAC_KEY, 32, k) == 1);
            if (ps >= 0) ENG(EVP_PKEY_CTX_ctrl_str(pc, "paramset", psets[ps].txt) == 1);
            if (setsize) {
                sprintf(b, "%d", s->size);
                if (s->size <= 8 && chance(1, 2)) ENG(EVP_PKEY_CTX_ctrl_str(pc, "size", b) == 1);
                else ENG(EVP_PKEY_CTX_ctrl(pc, -1, EVP_PKEY_OP_KEYGEN, EVP_PKEY_CTRL_MAC_LEN, s->size, NULL) == 1);
            }
            ENG(EVP_PKEY_keygen(pc, &s->pk) == 1);
            EVP_PKEY_CTX_free(pc);
        }
        vh_log("ctx%d mac key %s how=%d size=%d paramset=%d key=%s", i, md_[s->alg].name, how, s->size, ps, vh_hex(s->key, 32));
        ENG(EVP_DigestSignInit(s->c, NULL, chance(1, 2) ? md : NULL, vh_eng, s->pk) == 1);
        if (chance(1, 2)) { EVP_PKEY_free(s->pk); s->pk = NULL; }
        vh_count("pkey_macs_started", 1);
    }
    memset(k, 0xDD, 32); free(k);
    EVP_PKEY_free(oldpk);
    if (s->alg == 4 && chance(1, 4)) {      /* a section is a whole number of blocks, and not none */
        int sec = chance(1, 4) ? 0 : 16 * (int)rn(70) + 1 + (int)rn(15), q = EVP_MD_CTX_ctrl(s->c, EVP_CTRL_KEY_MESH, sec, NULL);
        vh_log("ctx%d section %d -> %d", i, sec, q);
        if (q == 1) vh_viol("mac-section", "%s: a section of %d octets is accepted", md_[s->alg].name, sec);
        ERR_clear_error(); vh_count("bad_sections_refused", 1);
    }
    if (s->alg == 4 && chance(3, 4)) {
        int ts = chance(2, 3) ? 48 * (1 + (int)rn(chance(1, 2) ? 4 : 40)) : 0;   /* whole pieces of key material */
        s->section = 16 * (1 + rn(chance(1, 2) ? 6 : 70)); s->tstar = ts;
        vh_log("ctx%d section %zu tstar %d", i, s->section, ts);
        ENG(EVP_MD_CTX_ctrl(s->c, EVP_CTRL_KEY_MESH, (int)s->section, ts ? &ts : NULL) == 1);
        if (!ts) s->tstar = 4096;   /* the CTR-ACPKM default */
    } else if (s->alg == 4) s->tstar = 4096;
    s->live = 1;
    if (s->alg >= 2 && s->alg <= 3 && chance(acpkm_only ? 3 : 1, 4)) {
        s->tls = 1; rbytes(s->seq, 8);
        if (chance(1, 2)) memset(s->seq, 0, (int)rn(8));
        vh_log("ctx%d tlstree %s", i, vh_hex(s->seq, 8));
        ENG(EVP_MD_CTX_ctrl(s->c, EVP_MD_CTRL_TLSTREE, 0, s->seq) > 0);
        vh_count("tlstree_macs", 1);
    }
}
/* a MAC length chosen in advance; it belongs to the context and to its copies */
static void setlen(int i)
{
    ms *s = &x[i];
    if (s->pkif) return;
    int n = 1 + (int)rn(md_[s->alg].maxlen), r = EVP_MD_CTX_ctrl(s->c, EVP_MD_CTRL_XOF_LEN, n, NULL);
    vh_log("ctx%d length %d -> %d", i, n, r);
    if (r != 1) { vh_viol("mac-length", "%s: a MAC length of %d is refused", md_[s->alg].name, n); return; }
    s->setlen = n; vh_count("lengths_set", 1);
}
static void feed(int i, size_t n)
{
    ms *s = &x[i];
    if (chance(1, 12)) setlen(i);
    if (s->len + n + 1 > s->cap) { s->cap = s->len + n + 4096; s->buf = realloc(s->buf, s->cap); }
    u8 *d = malloc(n ? n : 1); rcontent(d, n);
    memcpy(s->buf + s->len, d, n); s->len += n; s->ops++;
    int r = s->pkif ? EVP_DigestSignUpdate(s->c, d, n) : EVP_DigestUpdate(s->c, d, n);
    vh_log("ctx%d update %zu (total %zu) -> %d", i, n, s->len, r);
    if (r != 1) { vh_viol("mac-update", "%s update of %zu failed", md_[s->alg].name, n); s->live = 0; }
    free(d);
    vh_count("updates", 1);
}
static void fin(int i)
{
    ms *s = &x[i]; u8 exp[32], *got; size_t gl; int r;
    expect(s, exp);
    if (!s->pkif && chance(1, 5)) {
        /* a length no MAC of this kind has is refused and changes nothing */
        int mx = md_[s->alg].maxlen, bad = rn(5); bad = bad == 0 ? 0 : bad == 1 ? -1 - (int)rn(300) : bad == 2 ? mx + 1 : mx + 1 + (int)rn(300);
        r = EVP_MD_CTX_ctrl(s->c, EVP_MD_CTRL_XOF_LEN, bad, NULL);
        vh_log("ctx%d length %d -> %d", i, bad, r);
        if (r > 0) { vh_viol("mac-length-accepted", "%s: a MAC length of %d is accepted", md_[s->alg].name, bad); s->live = 0; return; }
        ERR_clear_error(); vh_count("bad_lengths", 1);
    }
    if (s->pkif) {
        size_t want = 0;
        r = EVP_DigestSignFinal(s->c, NULL, &want);
        if (r != 1 || (int)want != s->size) vh_viol("mac-siglen", "%s size query %d -> %zu, expected %d", md_[s->alg].name, r, want, s->size);
        got = malloc(s->size + 1); got[s->size] = 0x5A; gl = s->size;
        r = EVP_DigestSignFinal(s->c, got, &gl);
        s->finals++;
        if (chance(2, 3)) s->live = 0;      /* else: the context may be fed further */
    } else if (chance(1, 2)) {
        s->size = md_[s->alg].minlen + (int)rn(md_[s->alg].maxlen - md_[s->alg].minlen + 1);
        got = malloc(s->size + 1); got[s->size] = 0x5A; gl = s->size;
        r = EVP_DigestFinalXOF(s->c, got, gl);
        s->live = 0;
    } else {
        unsigned l = 0;
        if (s->setlen) s->size = s->setlen;     /* the reported length is that of the digest, what is written is what was asked for */
        got = malloc(s->size + 1); got[s->size] = 0x5A;
        r = EVP_DigestFinal_ex(s->c, got, &l); gl = s->setlen ? (size_t)s->size : l;
        s->live = 0;
    }
    vh_log("ctx%d final (%s) -> %d %zu %s", i, s->pkif ? "pkey" : "digest", r, gl, vh_hex(got, gl > 16 ? 16 : gl));
    if (r != 1 || (int)gl != s->size || got[s->size] != 0x5A)
        vh_viol("mac-final", "%s ret %d length %zu (expected %d) overrun %d", md_[s->alg].name, r, gl, s->size, got[s->size] != 0x5A);
    else if (memcmp(got, exp, gl))
        vh_viol("mac-value", "%s%s of %zu bytes in %d updates, size %zu, section %zu/%zu, copies %d, reused %d, finals %d: got %s want %s", md_[s->alg].name, s->pkif ? " (MAC key)" : "", s->len, s->ops, gl, s->section, s->tstar, s->copies, s->reused, s->finals, vh_hex(got, gl), vh_hex(exp, gl));
    vh_count("macs_checked", 1);
    vh_sig("%d %d %d %zu %zu %d %d %d %d %zu", s->alg, s->pkif, s->size, s->len > 48 ? 48 + s->len % md_[s->alg].bs : s->len, s->len / 1024 > 5 ? 5 : s->len / 1024, s->ops > 4 ? 4 : s->ops, s->copies > 1 ? 1 : s->copies, s->tls, s->finals > 1, s->alg == 4 ? s->section < 64 : 0);
    vh_sample("%s %s len=%zu updates=%d size=%zu copies=%d mac=%s", md_[s->alg].name, s->pkif ? "mac-key" : "digest", s->len, s->ops, gl, s->copies, vh_hex(exp, gl));
    free(got);
}
static void run(void)
{
    int steps = 4 + (int)rn(26);
    size_t mx = acpkm_only ? 6000 : chance(1, 40) ? 40000 : chance(1, 3) ? 3000 : chance(1, 2) ? 200 : 24;
    for (int k = 0; k < steps; k++) {
        int i = (int)rn(MAXC); ms *s = &x[i];
        if (!s->live) { begin(i); continue; }
        switch (rn(10)) {
        case 0: case 1: case 2: feed(i, rlen(mx)); break;
        case 3: feed(i, rn(9)); break;
        case 4: feed(i, (md_[s->alg].bs - s->len % md_[s->alg].bs) % md_[s->alg].bs); break;   /* to the block boundary */
        case 5: case 6: {
            int j = (int)rn(MAXC); ms *t = &x[j];
            if (i == j) break;
            if (t->c && (t->pkif != s->pkif || chance(1, 3))) { EVP_MD_CTX_free(t->c); t->c = NULL; }
            if (!t->c) t->c = EVP_MD_CTX_new();
            vh_log("copy ctx%d -> ctx%d", i, j);
            ENG(EVP_MD_CTX_copy_ex(t->c, s->c) == 1);
            EVP_MD_CTX *tc = t->c; u8 *b = t->buf; size_t cap = t->cap; EVP_PKEY_free(t->pk);
            *t = *s; t->c = tc; t->pk = NULL; t->buf = b; t->cap = cap;
            if (s->len + 1 > t->cap) { t->cap = s->len + 4096; t->buf = realloc(t->buf, t->cap); }
            if (s->len) memcpy(t->buf, s->buf, s->len);
            t->copies++; vh_count("copies", 1);
            if (chance(1, 3)) { vh_log("free ctx%d", i); EVP_MD_CTX_free(s->c); s->c = NULL; s->live = 0; EVP_PKEY_free(s->pk); s->pk = NULL; }
            break; }
        case 7: case 8: fin(i); break;
        case 9: if (chance(1, 4)) { vh_log("abandon ctx%d", i); begin(i); } break;
        }
    }
    for (int i = 0; i < MAXC; i++) {
        if (x[i].live) fin(i);
        if (x[i].c && chance(1, 2)) { EVP_MD_CTX_free(x[i].c); x[i].c = NULL; }
        x[i].live = 0;
    }
}
static void done(void)
{
    for (int i = 0; i < MAXC; i++) { EVP_MD_CTX_free(x[i].c); x[i].c = NULL; free(x[i].buf); x[i].buf = NULL; EVP_PKEY_free(x[i].pk); x[i].pk = NULL; }
}
/* all lengths 0..80, every split into two updates */
static void run_dense(void)
{
    size_t len = vh_case % 81; int a = (int)(vh_case / 81 % NM);
    u8 m[81], key[32], e[16], g[16];
    rcontent(m, len); rkey(key, 32);
    ms s = { .alg = a, .sb = a == 0 ? SB_A : SB_Z, .section = 4096, .tstar = 4096, .buf = m, .len = len };
    int small = a == 4 && chance(1, 2);
    if (small) { s.section = 16; s.tstar = 48; }
    memcpy(s.key, key, 32);
    expect(&s, e);
    EVP_MD_CTX *c = EVP_MD_CTX_new();
    for (size_t cut = 0; cut <= len; cut++) {
        unsigned l = 0; int ts = 48;
        ENG(EVP_DigestInit_ex(c, mds[a], NULL) == 1);
        ENG(EVP_MD_CTX_ctrl(c, EVP_MD_CTRL_SET_KEY, 32, key) > 0);
        if (small) ENG(EVP_MD_CTX_ctrl(c, EVP_CTRL_KEY_MESH, 16, &ts) == 1);
        ENG(EVP_DigestUpdate(c, m, cut) == 1);
        ENG(EVP_DigestUpdate(c, m + cut, len - cut) == 1);
        ENG(EVP_DigestFinal_ex(c, g, &l) == 1);
        vh_count("macs_checked", 1);
        vh_sig("dense %d %zu %zu", a, len, cut);
        if ((int)l != md_[a].deflen || memcmp(g, e, l)) { vh_viol("mac-value", "%s len %zu split at %zu: got %s want %s key %s msg %s", md_[a].name, len, cut, vh_hex(g, l), vh_hex(e, l), vh_hex(key, 32), vh_hex(m, len)); break; }
    }
    EVP_MD_CTX_free(c);
}
const vh_workload vh_workloads[] = { { "ops", run, setup, done }, { "acpkm", run, setup_acpkm, done }, { "dense", run_dense, setup, 0 }, { 0 } };
