/* P05: MGM; P07: CTR-ACPKM-OMAC content encryption */
#include "vheng.h"
#include <openssl/cms.h>
#include "gost_lcl.h"
#include <sys/mman.h>

/* ------------------------------------------------------------ MGM (P05) */
#define MAXC 3
typedef struct {
    EVP_CIPHER_CTX *c;
    int kuz, enc, live, keyed, copies, reinits, started; /* started: a data update happened (AAD is over, even if it was empty) */
    u8 key[32], iv[16];
    u8 *aad, *in, *out; size_t al, il, cap;
} ms;
static ms x[MAXC];
static const EVP_CIPHER *mgm[2];
static void mgm_setup(void)
{
    const char *n[] = { "magma-mgm", "kuznyechik-mgm" };
    for (int i = 0; i < 2; i++) { int nid = OBJ_sn2nid(n[i]); ENG(nid != NID_undef); ENG(mgm[i] = ENGINE_get_cipher(vh_eng, nid)); }
}
static void room(ms *s, size_t n)
{
    size_t m = s->al > s->il ? s->al : s->il;
    if (m + n + 64 > s->cap) { s->cap = m + n + 4096; s->aad = realloc(s->aad, s->cap); s->in = realloc(s->in, s->cap); s->out = realloc(s->out, s->cap); }
}
static void mdrop(int i) { ms *s = &x[i]; EVP_CIPHER_CTX_free(s->c); free(s->aad); free(s->in); free(s->out); memset(s, 0, sizeof *s); }
static void *dup(const void *p, size_t n) { void *q = malloc(n ? n : 1); if (n) memcpy(q, p, n); return q; }   /* exact-size copies: over-reads are seen by ASan */
/* a nonce whose first data (y) or authentication counter is about to carry across octets or wrap around */
static void edge_nonce(ms *s)
{
    int bs = s->kuz ? 16 : 8, h = bs / 2, z = chance(1, 2);
    bc k; u8 b[16];
    bc_init(&k, s->kuz ? BC_KUZ : BC_MAGMA, SB_Z, s->key);
    for (int t = 0; t < 64; t++) {
        rbytes(b, bs);
        u8 *half = z ? b : b + h;
        int ff = 1 + (int)rn(h);                       /* number of low octets that are all ones, more or less */
        memset(half + h - ff, 0xFF, ff);
        half[h - 1] -= (u8)rn(5);
        if (ff < h && chance(1, 2)) half[h - 1 - ff] = chance(1, 2) ? 0x7F : 0;
        bc_dec(&k, b, s->iv);
        if ((s->iv[0] >> 7) == z) { vh_count(z ? "mgm_edge_auth_counters" : "mgm_edge_data_counters", 1); break; }
    }
    s->iv[0] &= 0x7F;
}
static void mbegin(int i, int kind)
{
    ms *s = &x[i];
    if (!s->c) { s->c = EVP_CIPHER_CTX_new(); kind = (int)rn(3); s->copies = s->reinits = 0; s->keyed = 0; }
    if (kind >= 3 && !s->keyed) kind = (int)rn(3);
    if (kind < 3) { s->kuz = chance(1, 2); s->enc = chance(1, 2); }
    int bs = s->kuz ? 16 : 8, e = s->enc;
    if (kind == 4 && chance(1, 2)) e = s->enc = !s->enc;
    if (kind != 3) rkey_next(s->key, 32);
    if (kind == 5) ;
    else if (chance(1, 3)) edge_nonce(s);
    else if (chance(1, 4)) rcontent(s->iv, bs); else rbytes(s->iv, bs);
    u8 *k = dup(s->key, 32), *v = dup(s->iv, bs);
    const EVP_CIPHER *ci = mgm[s->kuz];
    vh_log("ctx%d init kind=%d %s %s key=%s iv=%s", i, kind, s->kuz ? "kuz" : "magma", e ? "enc" : "dec", vh_hex(s->key, 32), vh_hex(s->iv, bs));
    s->live = 0;
    switch (kind) {
    case 0: ENG(EVP_CipherInit_ex(s->c, ci, NULL, k, v, e) == 1); break;
    case 1: ENG(EVP_CipherInit_ex(s->c, ci, NULL, NULL, NULL, e) == 1); if (chance(1, 2)) ENG(EVP_CIPHER_CTX_ctrl(s->c, EVP_CTRL_AEAD_SET_IVLEN, bs, NULL) == 1);
            ENG(EVP_CipherInit_ex(s->c, NULL, NULL, k, NULL, e) == 1); ENG(EVP_CipherInit_ex(s->c, NULL, NULL, NULL, v, e) == 1); break;
    case 2: ENG(EVP_CipherInit_ex(s->c, ci, NULL, NULL, v, e) == 1); memset(v, 0xEE, bs); ENG(EVP_CipherInit_ex(s->c, NULL, NULL, k, NULL, e) == 1); break;
    case 3: ENG(EVP_CipherInit_ex(s->c, NULL, NULL, NULL, v, e) == 1); s->reinits++; vh_count("mgm_reinits_iv_only", 1); break;
    case 4: ENG(EVP_CipherInit_ex(s->c, NULL, NULL, k, v, e) == 1); s->reinits++; vh_count("mgm_reinits", 1); break;
    case 5: ENG(EVP_CipherInit_ex(s->c, NULL, NULL, k, NULL, e) == 1); s->reinits++; vh_count("mgm_reinits_key_only", 1); break;    /* the nonce is kept */
    }
    memset(k, 0, 32); free(k); free(v);
    s->live = s->keyed = 1; s->al = s->il = 0; s->started = 0;
}
static void maad(int i, size_t n)
{
    ms *s = &x[i]; int ol = -1;
    room(s, n);
    u8 *b = malloc(n ? n : 1); rcontent(b, n);
    int r = EVP_CipherUpdate(s->c, NULL, &ol, b, (int)n);
    vh_log("ctx%d aad %zu -> %d", i, n, r);
    if (r != 1) vh_viol("mgm-aad", "aad update of %zu refused", n);
    memcpy(s->aad + s->al, b, n); s->al += n; free(b);
    vh_count("mgm_aad_updates", 1);
}
static void mdata(int i, size_t n)
{
    ms *s = &x[i]; int ol = -1, bs = s->kuz ? 16 : 8;
    room(s, n); s->started = 1;
    u8 *b = malloc(n ? n : 1), *o; rcontent(b, n);
    memcpy(s->in + s->il, b, n);
    int ip = chance(1, 3);
    o = ip ? b : malloc(n ? n : 1);
    int r = EVP_CipherUpdate(s->c, o, &ol, b, (int)n);
    vh_log("ctx%d data %zu%s -> %d, %d out", i, n, ip ? " in place" : "", r, ol);
    if (r != 1 || ol != (int)n) { vh_viol("mgm-update", "update of %zu: ret %d, %d out", n, r, ol); s->live = 0; }
    memcpy(s->out + s->il, o, n); s->il += n;
    if (!ip) free(o);
    free(b);
    u8 *e = malloc(s->il + 1), t[16];
    ref_mgm(s->kuz ? BC_KUZ : BC_MAGMA, s->key, s->iv, s->aad, s->al, s->in, s->il, s->enc, e, t);
    if (s->live && memcmp(e, s->out, s->il)) {
        size_t k = 0; while (e[k] == s->out[k]) k++;
        vh_viol("mgm-output", "%s-mgm %s byte %zu of %zu (aad %zu) key %s iv %s", s->kuz ? "kuz" : "magma", s->enc ? "enc" : "dec", k, s->il, s->al, vh_hex(s->key, 32), vh_hex(s->iv, bs));
        s->live = 0;
    }
    free(e);
    vh_count("mgm_data_updates", 1);
}
/* additional data after data: refused, and the message goes on as if nothing had been asked */
static void mlate(int i)
{
    ms *s = &x[i]; int ol = -1;
    if (!s->il) return;
    u8 b[48]; size_t n = 1 + rn(sizeof b); rbytes(b, n);
    int r = EVP_CipherUpdate(s->c, NULL, &ol, b, (int)n);
    vh_log("ctx%d late aad %zu -> %d", i, n, r);
    if (r == 1) { vh_viol("mgm-late-aad", "%s-mgm %s: additional data is accepted after %zu octets of data", s->kuz ? "kuz" : "magma", s->enc ? "enc" : "dec", s->il); s->live = 0; }
    ERR_clear_error(); vh_count("mgm_late_aad_refused", 1);
}
/* Magma: the lengths of a message together stay below 2^32 bits; an update that would reach that is refused without effect */
static void mlimit(int i)
{
    static u8 *big; static int took; static const size_t L = (size_t)1 << 29;
    ms *s = &x[i]; int ol = -1;
    if (s->kuz || took) return;
    if (!big) { big = mmap(NULL, L + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (big == MAP_FAILED) { big = NULL; vh_count("mgm_no_room_for_limits", 1); return; } }
    int data = s->started || chance(1, 2);
    size_t n = data ? L - s->al - s->il : L - s->al, over = chance(1, 2) ? 0 : rn(4000);
    n = n + over > L + 4096 ? L + 4096 : n + over;
    int r = EVP_CipherUpdate(s->c, data ? big : NULL, &ol, big, (int)n);
    vh_log("ctx%d %s of %zu -> %d", i, data ? "data" : "aad", n, r);
    if (r == 1) { vh_viol("mgm-too-long", "magma-mgm %s: an update of %zu octets of %s is accepted after %zu octets of aad and %zu of data", s->enc ? "enc" : "dec", n, data ? "data" : "aad", s->al, s->il); s->live = 0; took = 1; madvise(big, L + 4096, MADV_DONTNEED); }
    ERR_clear_error(); vh_count("mgm_over_limit_refused", 1);
    vh_sig("mgm limit %d %d %d %d", data, !s->al, !s->il, !over);
}
static void mfin(int i)
{
    ms *s = &x[i]; int bs = s->kuz ? 16 : 8, ol = -1;
    u8 tag[16], got[64], dummy[32];
    u8 *e = malloc(s->il + 1);
    ref_mgm(s->kuz ? BC_KUZ : BC_MAGMA, s->key, s->iv, s->aad, s->al, s->in, s->il, s->enc, e, tag);
    if (s->enc) {
        int r = EVP_CipherFinal_ex(s->c, dummy, &ol);
        int tl = chance(3, 4) ? bs : 1 + (int)rn(bs);
        memset(got, 0xC3, sizeof got);
        int g = EVP_CIPHER_CTX_ctrl(s->c, EVP_CTRL_AEAD_GET_TAG, tl, got);
        vh_log("ctx%d final -> %d %d, get_tag(%d) -> %d", i, r, ol, tl, g);
        if (r != 1 || ol) vh_viol("mgm-final", "encrypt final: ret %d len %d", r, ol);
        else if (g != 1) vh_viol("mgm-get-tag", "GET_TAG(%d) refused after final", tl);
        else if (memcmp(got, tag, tl) || got[tl] != 0xC3)
            vh_viol("mgm-tag", "%s-mgm tag for aad %zu data %zu (copies %d reinits %d): got %s want %s key %s iv %s", s->kuz ? "kuz" : "magma", s->al, s->il, s->copies, s->reinits, vh_hex(got, tl), vh_hex(tag, tl), vh_hex(s->key, 32), vh_hex(s->iv, bs));
        vh_count("mgm_tags_checked", 1);
    } else {
        u8 t[16]; const char *what = "right";
        memcpy(t, tag, 16);
        u8 *a2 = dup(s->aad, s->al), *i2 = dup(s->in, s->il), iv2[16]; size_t al2 = s->al, il2 = s->il;
        memcpy(iv2, s->iv, 16);
        int other = 0;
        switch (rn(12)) {
        case 0: case 1: case 2: case 3: break;
        case 4: case 5: t[rn(bs)] ^= 1 << rn(8); what = "tag bit"; break;
        case 6: rbytes(t, bs); what = "random tag"; break;
        case 7: if (al2) { a2[rn(al2)] ^= 1 << rn(8); other = 1; what = "aad bit"; } break;
        case 8: if (il2) { i2[rn(il2)] ^= 1 << rn(8); other = 1; what = "ciphertext bit"; } break;
        case 9: { int b = 1 + (int)rn(bs * 8 - 1); iv2[b / 8] ^= 0x80 >> (b % 8); other = 1; what = "nonce bit"; break; }
        case 10: if (al2) { al2--; other = 1; what = "aad shortened"; } break;
        case 11: if (il2) { il2--; other = 1; what = "ciphertext shortened"; } break;
        }
        if (other) { u8 *z = malloc(il2 + 1); ref_mgm(s->kuz ? BC_KUZ : BC_MAGMA, s->key, iv2, a2, al2, i2, il2, 0, z, t); free(z); }
        free(a2); free(i2);
        int want = !memcmp(t, tag, bs);
        if (chance(1, 4)) {         /* a shorter tag would be easier to forge */
            int n = chance(1, 2) ? 1 + (int)rn(bs - 1) : chance(1, 2) ? bs + 1 + (int)rn(16) : chance(1, 2) ? bs - 1 : bs / 2;
            u8 *w = malloc(n);
            for (int j = 0; j < n; j++) w[j] = tag[j % bs];
            int q = EVP_CIPHER_CTX_ctrl(s->c, EVP_CTRL_AEAD_SET_TAG, n, w);
            vh_log("ctx%d set_tag of %d octets -> %d", i, n, q);
            if (q == 1) vh_viol("mgm-tag-length", "%s-mgm: a tag of %d octets is accepted for verification", s->kuz ? "kuz" : "magma", n);
            free(w); ERR_clear_error(); vh_count("mgm_tag_lengths_refused", 1);
        }
        int st = EVP_CIPHER_CTX_ctrl(s->c, EVP_CTRL_AEAD_SET_TAG, bs, t);
        int r = EVP_CipherFinal_ex(s->c, dummy, &ol);
        vh_log("ctx%d set_tag (%s) -> %d, final -> %d", i, what, st, r);
        if (st != 1) vh_viol("mgm-set-tag", "SET_TAG refused");
        else if ((r == 1) != want)
            vh_viol(want ? "mgm-reject-valid" : "mgm-accept-forged", "%s-mgm decrypt final with %s: returned %d (aad %zu, data %zu, copies %d, reinits %d)", s->kuz ? "kuz" : "magma", what, r, s->al, s->il, s->copies, s->reinits);
        vh_count(want ? "mgm_valid_accepted" : "mgm_forged_rejected", 1);
        vh_sig("mgmdec %d %s %zu %zu", s->kuz, what, s->al % bs, s->il % bs);
        if (r != 1) goto out;
    }
    if (chance(1, 3)) {             /* the nonce is used up: no second message under it */
        u8 b[40], o[40]; int n = 1 + (int)rn(33), aad = chance(1, 4), r;
        rbytes(b, sizeof b);
        r = EVP_CipherUpdate(s->c, aad ? NULL : o, &ol, b, n);
        vh_log("ctx%d update (%s) after the end -> %d", i, aad ? "aad" : "data", r);
        if (r == 1) vh_viol("mgm-nonce-reuse", "%s-mgm %s: %s is accepted after the message was finished, without a new nonce", s->kuz ? "kuz" : "magma", s->enc ? "enc" : "dec", aad ? "aad" : "data");
        ERR_clear_error(); vh_count("mgm_after_final_refused", 1);
    }
out:
    free(e);
    vh_sig("mgm %d %d %zu %zu %d %d", s->kuz, s->enc, s->al > 40 ? 40 + s->al % bs : s->al, s->il > 40 ? 40 + s->il % bs : s->il, s->copies > 1 ? 1 : s->copies, s->reinits > 1 ? 1 : s->reinits);
    vh_sample("%s-mgm %s aad=%zu data=%zu copies=%d reinits=%d", s->kuz ? "kuz" : "magma", s->enc ? "enc" : "dec", s->al, s->il, s->copies, s->reinits);
    s->live = 0;
}
static void run_mgm(void)
{
    int steps = 5 + (int)rn(25);
    size_t mx = chance(1, 400) ? 200000 : chance(1, 20) ? 9000 : chance(1, 3) ? 300 : 40;
    for (int k = 0; k < steps; k++) {
        int i = (int)rn(MAXC); ms *s = &x[i];
        if (!s->live) { mbegin(i, (int)rn(5)); continue; }   /* 5 keeps the nonce: not after the end of a message */
        if (chance(1, 3000)) { mlimit(i); continue; }
        if (chance(1, 30)) { mlate(i); continue; }
        switch (rn(12)) {
        case 0: case 1: case 2: if (!s->started) { maad(i, rlen(mx)); break; } /* fall through */
        case 3: case 4: case 5: case 6: mdata(i, rlen(mx)); break;
        case 7: {
            int j = (int)rn(MAXC); ms *t = &x[j];
            if (i == j) break;
            if (!t->c) t->c = EVP_CIPHER_CTX_new();
            vh_log("copy ctx%d -> ctx%d", i, j);
            ENG(EVP_CIPHER_CTX_copy(t->c, s->c) == 1);
            EVP_CIPHER_CTX *tc = t->c; u8 *a = t->aad, *in = t->in, *o = t->out; size_t cap = t->cap;
            *t = *s; t->c = tc; t->aad = a; t->in = in; t->out = o; t->cap = cap; t->al = t->il = 0;
            room(t, s->cap);
            t->al = s->al; t->il = s->il;
            if (s->al) memcpy(t->aad, s->aad, s->al);
            if (s->il) { memcpy(t->in, s->in, s->il); memcpy(t->out, s->out, s->il); }
            t->copies++; vh_count("mgm_copies", 1);
            if (chance(1, 3)) { vh_log("destroy ctx%d", i); mdrop(i); }
            break; }
        case 8: case 9: mfin(i); break;
        case 10: mbegin(i, 3 + (int)rn(3)); break;
        case 11: if (chance(1, 4)) { vh_log("reset ctx%d", i); EVP_CIPHER_CTX_reset(s->c); s->live = s->keyed = 0; } else mbegin(i, (int)rn(3)); break;
        }
    }
    for (int i = 0; i < MAXC; i++) { if (x[i].live) mfin(i); if (x[i].c) mdrop(i); }
}
static void mgm_done(void) { for (int i = 0; i < MAXC; i++) mdrop(i); }

/* --------------------------------------------- CTR-ACPKM-OMAC (P07) */
static const EVP_CIPHER *om[2];
static void om_setup(void)
{
    ENG(om[0] = ENGINE_get_cipher(vh_eng, NID_magma_ctr_acpkm_omac));
    ENG(om[1] = ENGINE_get_cipher(vh_eng, NID_kuznyechik_ctr_acpkm_omac));
}
static void om_ref(int kuz, const u8 *key, const u8 *ukm, size_t section, const u8 *m, size_t n, u8 *ct, u8 *emac)
{
    int bs = kuz ? 16 : 8, h = bs / 2; bc_type t = kuz ? BC_KUZ : BC_MAGMA;
    u8 k[64], iv[16] = { 0 }, mac[16];
    ref_kdf_tree(key, 32, (const u8 *)"kdf tree", 8, ukm + h, 8, 1, 64, k);
    memcpy(iv, ukm, h);
    ref_omac(t, k + 32, m, n, mac);
    u8 *b = malloc(n + bs), *o = malloc(n + bs);
    memcpy(b, m, n); memcpy(b + n, mac, bs);
    ref_mode rm = { t, SB_Z, M_CTR, 0, section };
    ref_crypt(&rm, k, iv, 1, b, n + bs, o);
    memcpy(ct, o, n); memcpy(emac, o + n, bs);
    free(b); free(o);
}
static void feedall(EVP_CIPHER_CTX **pc, const u8 *in, size_t n, u8 *out)
{
    size_t p = 0;
    while (p < n) {
        size_t k = chance(1, 6) ? 1 + rn(20) : chance(1, 3) ? n - p : 1 + rn(n - p); int ol = -1;
        if (k > n - p) k = n - p;
        u8 *b = dup(in + p, k), *o = chance(1, 3) ? b : malloc(k);
        int r = EVP_CipherUpdate(*pc, o, &ol, b, (int)k);
        if (r != 1 || ol != (int)k) { vh_viol("omac-update", "update of %zu returned %d, %d out", k, r, ol); }
        memcpy(out + p, o, k);
        if (o != b) free(o);
        free(b);
        p += k;
        if (chance(1, 12)) {        /* continue on a clone */
            EVP_CIPHER_CTX *c2 = EVP_CIPHER_CTX_new();
            ENG(EVP_CIPHER_CTX_copy(c2, *pc) == 1);
            if (chance(1, 2)) { u8 z[40] = { 0 }; int l; EVP_CipherUpdate(*pc, z, &l, z, 33); }
            EVP_CIPHER_CTX_free(*pc); *pc = c2; vh_count("omac_copies", 1);
        }
    }
}
static void run_omac(void)
{
    int kuz = chance(1, 2), bs = kuz ? 16 : 8, h = bs / 2, ul = h + 8;
    u8 key[32], iv[16]; rkey(key, 32); rbytes(iv, h);
    size_t n = chance(1, 300) ? 270000 + rn(300000) : chance(1, 10) ? rlen(60000) : rlen(400);
    u8 *m = malloc(n + 1), *ct = malloc(n + 32), *ect = malloc(n + 32), *pt = malloc(n + 32), mac[16], ol_[32]; int ol;
    rcontent(m, n);
    EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new();
    u8 *k_ = dup(key, 32), *v_ = dup(iv, h);
    if (chance(1, 6)) {    /* a context that was used before */
        u8 ok[32], tmp[40] = { 1 }; rbytes(ok, 32);
        ENG(EVP_CipherInit_ex(c, om[kuz], NULL, ok, v_, 1) == 1);
        if (chance(1, 2)) EVP_CipherUpdate(c, tmp, &ol, tmp, 37);
        vh_count("omac_reinits", 1);
    }
    size_t section = kuz ? 256 * 1024 : 8192, sec2 = 0;
    ENG(EVP_CipherInit_ex(c, om[kuz], NULL, NULL, NULL, 1) == 1);
    if (chance(1, 8)) { EVP_CIPHER_CTX *c2 = EVP_CIPHER_CTX_new(); ENG(EVP_CIPHER_CTX_copy(c2, c) == 1); EVP_CIPHER_CTX_free(c); c = c2; vh_count("omac_unkeyed_copies", 1); }
    ENG(EVP_CipherInit_ex(c, NULL, NULL, k_, v_, 1) == 1);
    ASN1_TYPE *at = ASN1_TYPE_new();
    ENG(EVP_CIPHER_param_to_asn1(c, at) > 0);
    if (chance(1, 2)) { sec2 = bs * (1 + rn(40)); ENG(EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_KEY_MESH, (int)sec2, NULL) == 1); section = sec2; }
    /* UKM as written: SEQUENCE { OCTET STRING } */
    const u8 *d = at->value.sequence->data; int dl = at->value.sequence->length;
    if (at->type != V_ASN1_SEQUENCE || dl != ul + 4 || d[0] != 0x30 || d[1] != ul + 2 || d[2] != 4 || d[3] != ul || memcmp(d + 4, iv, h)) {
        vh_viol("omac-params", "parameters are %s for iv %s", vh_hex(d, dl), vh_hex(iv, h)); goto out;
    }
    u8 ukm[16]; memcpy(ukm, d + 4, ul);
    vh_log("encrypt %s n=%zu section=%zu key=%s ukm=%s", kuz ? "kuz" : "magma", n, section, vh_hex(key, 32), vh_hex(ukm, ul));
    feedall(&c, m, n, ct);
    ENG(EVP_CipherFinal_ex(c, ol_, &ol) == 1);
    STACK_OF(X509_ATTRIBUTE) *at2 = sk_X509_ATTRIBUTE_new_null();
    ENG(EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_PROCESS_UNPROTECTED, 1, at2) > 0);
    X509_ATTRIBUTE *xa = sk_X509_ATTRIBUTE_value(at2, 0);
    char oid[80] = ""; ASN1_TYPE *av = xa ? X509_ATTRIBUTE_get0_type(xa, 0) : NULL;
    if (xa) OBJ_obj2txt(oid, sizeof oid, X509_ATTRIBUTE_get0_object(xa), 1);
    om_ref(kuz, key, ukm, section, m, n, ect, mac);
    if (memcmp(ct, ect, n)) {
        size_t z = 0; while (ct[z] == ect[z]) z++;
        vh_viol("omac-ciphertext", "%s n=%zu section=%zu differs at %zu", kuz ? "kuz" : "magma", n, section, z);
    }
    if (sk_X509_ATTRIBUTE_num(at2) != 1 || strcmp(oid, "1.2.643.7.1.0.6.1.1") || !av || av->type != V_ASN1_OCTET_STRING || av->value.octet_string->length != bs || memcmp(av->value.octet_string->data, mac, bs))
        vh_viol("omac-mac", "%s n=%zu section=%zu attribute %s %s want %s", kuz ? "kuz" : "magma", n, section, oid, av ? vh_hex(av->value.octet_string->data, av->value.octet_string->length) : "none", vh_hex(mac, bs));
    vh_count("omac_encryptions", 1);
    /* decrypt (the reference's message, possibly altered) */
    for (int round = 0; round < 2; round++) {
        u8 *dc = dup(ect, n), du[16], dm[17]; size_t dn = n; int bad = 1, mlen = bs; const char *what = "nothing"; u8 dk[32];
        memcpy(du, ukm, ul); memcpy(dm, mac, bs); memcpy(dk, key, 32);
        switch (round ? 1 + rn(7) : 0) {
        case 0: bad = 0; break;
        case 1: case 2: if (n) { dc[rn(n)] ^= 1 << rn(8); what = "content bit"; } else bad = 0; break;
        case 3: dm[rn(bs)] ^= 1 << rn(8); what = "mac bit"; break;
        case 4: du[rn(h)] ^= 1 << rn(8); what = "ukm iv bit"; break;
        case 5: du[h + rn(8)] ^= 1 << rn(8); what = "ukm seed bit"; break;
        case 6: if (n) { dn = n - 1 - rn(n < 20 ? n : 20); what = "truncated"; } else bad = 0; break;
        case 7: mlen = chance(1, 2) ? bs - 1 : bs + 1; dm[16] = 0; what = "mac length"; break;
        }
        EVP_CIPHER_CTX *x = !c || chance(1, 2) ? EVP_CIPHER_CTX_new() : (EVP_CIPHER_CTX_reset(c), c);
        if (x == c) c = NULL;
        u8 der[24] = { 0x30, ul + 2, 4, ul }; memcpy(der + 4, du, ul);
        ASN1_TYPE *p = ASN1_TYPE_new(); ASN1_STRING *os = ASN1_STRING_type_new(V_ASN1_SEQUENCE);
        ASN1_STRING_set(os, der, ul + 4); ASN1_TYPE_set(p, V_ASN1_SEQUENCE, os);
        ENG(EVP_CipherInit_ex(x, om[kuz], NULL, NULL, NULL, 0) == 1);
        ENG(EVP_CIPHER_asn1_to_param(x, p) > 0);
        memcpy(k_, dk, 32);
        int before = sec2 && chance(1, 2);
        if (before) ENG(EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_KEY_MESH, (int)sec2, NULL) == 1);
        if (chance(1, 6)) {         /* settings made so far go along into a copy */
            EVP_CIPHER_CTX *x2 = EVP_CIPHER_CTX_new(); ENG(EVP_CIPHER_CTX_copy(x2, x) == 1);
            EVP_CIPHER_CTX_free(x); x = x2; vh_count("omac_unkeyed_copies", 1);
        }
        ENG(EVP_CipherInit_ex(x, NULL, NULL, k_, NULL, 0) == 1);
        if (sec2 && !before) ENG(EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_KEY_MESH, (int)sec2, NULL) == 1);
        X509_ATTRIBUTE *a = X509_ATTRIBUTE_create_by_txt(NULL, "1.2.643.7.1.0.6.1.1", V_ASN1_OCTET_STRING, dm, mlen);
        STACK_OF(X509_ATTRIBUTE) *sk = sk_X509_ATTRIBUTE_new_null(); sk_X509_ATTRIBUTE_push(sk, a);
        int early = chance(1, 2), cr = 1;
        if (early) cr = EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_PROCESS_UNPROTECTED, 0, sk);
        feedall(&x, dc, dn, pt);
        if (!early) cr = EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_PROCESS_UNPROTECTED, 0, sk);
        int r = cr > 0 ? EVP_CipherFinal_ex(x, ol_, &ol) : 0;
        vh_log("decrypt with altered %s: ctrl %d final %d", what, cr, r);
        if (!bad) {
            if (r != 1) vh_viol("omac-reject-valid", "%s n=%zu section=%zu: valid content rejected", kuz ? "kuz" : "magma", n, section);
            else if (memcmp(pt, m, n)) vh_viol("omac-plaintext", "%s n=%zu section=%zu: wrong content", kuz ? "kuz" : "magma", n, section);
            vh_count("omac_valid_decrypted", 1);
        } else {
            if (r == 1) vh_viol("omac-accept-altered", "%s n=%zu section=%zu: altered %s accepted", kuz ? "kuz" : "magma", n, section, what);
            vh_count("omac_altered_rejected", 1);
        }
        vh_sig("omac %d %s %zu %d %d", kuz, what, n > 300 ? 300 + n / 4096 : n, sec2 ? 1 : 0, early);
        EVP_CIPHER_CTX_free(x); ASN1_TYPE_free(p); free(dc);
        sk_X509_ATTRIBUTE_pop_free(sk, X509_ATTRIBUTE_free);
    }
    sk_X509_ATTRIBUTE_pop_free(at2, X509_ATTRIBUTE_free);
    vh_sample("%s-ctr-acpkm-omac content=%zu section=%zu", kuz ? "kuz" : "magma", n, section);
out:
    ASN1_TYPE_free(at);
    EVP_CIPHER_CTX_free(c);
    free(m); free(ct); free(ect); free(pt); free(k_); free(v_);
}
const vh_workload vh_workloads[] = { { "mgm", run_mgm, mgm_setup, mgm_done }, { "omac", run_omac, om_setup, 0 }, { 0 } };
