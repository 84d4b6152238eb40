/* P02/P03/P04/P26: shadow-model monitor over EVP cipher contexts.
 * Every context is shadowed by (key, iv, parameters, all input so far); after
 * every call the output produced so far must be a prefix of the reference
 * transformation of the input so far. */
#include "ciphers.h"

#define MAXC 4
typedef struct {
    EVP_CIPHER_CTX *c;
    int live, alg, enc, sb, mesh, pad, dead;
    size_t section;
    u8 key[32], iv[16];
    u8 *in, *out; size_t inl, outl, cap;
    int ops, reinits, copies;
} shadow;
static shadow x[MAXC];
static int aset[NCD], naset;

static void pick_all(void) { ciphers_setup(); naset = 0; for (int i = 0; i < NCD; i++) if (cph[i]) aset[naset++] = i; }
static void pick_rekey(void)
{
    ciphers_setup(); naset = 0;
    for (int i = 0; i < NCD; i++) if (cph[i] && (cds[i].mesh || cds[i].section)) aset[naset++] = i;
}
static void room(shadow *s, size_t n)
{
    if (s->inl + n + 64 > s->cap || s->outl + n + 64 > s->cap) {
        s->cap = (s->inl > s->outl ? s->inl : s->outl) + n + 4096;
        s->in = realloc(s->in, s->cap); s->out = realloc(s->out, s->cap);
    }
}
/* reference output for the whole input so far (whole blocks for block modes) */
static size_t expect(shadow *s, u8 *exp, size_t inl)
{
    const cdef *d = &cds[s->alg];
    u8 iv[16] = { 0 };
    memcpy(iv, s->iv, d->ivlen);
    ref_mode m = { d->t, s->sb, d->mode, s->mesh, s->section };
    if (d->pad) inl -= inl % bcbs(d->t);
    HARN(ref_crypt(&m, s->key, iv, s->enc, s->in, inl, exp));
    return inl;
}
static void compare(shadow *s, const char *where)
{
    u8 *exp = malloc(s->inl + 64);
    size_t l = expect(s, exp, s->inl);
    const cdef *d = &cds[s->alg];
    if (s->outl > l || (!d->pad && s->outl != s->inl))
        vh_viol("cipher-length", "%s %s after %s: %zu bytes in, %zu out", d->name, s->enc ? "enc" : "dec", where, s->inl, s->outl);
    else if (memcmp(exp, s->out, s->outl)) {
        size_t k = 0;
        while (exp[k] == s->out[k]) k++;
        vh_viol("cipher-output", "%s %s (sbox %d mesh %d section %zu) after %s: byte %zu of %zu differs; got %s want %s; key %s iv %s",
                d->name, s->enc ? "enc" : "dec", s->sb, s->mesh, s->section, where, k, s->outl, vh_hex(s->out + k, s->outl - k > 32 ? 32 : s->outl - k),
                vh_hex(exp + k, s->outl - k > 32 ? 32 : s->outl - k), vh_hex(s->key, 32), vh_hex(s->iv, d->ivlen));
        s->dead = 1;
    }
    free(exp);
    vh_count("outputs_compared", 1);
}
static void params(shadow *s)
{
    const cdef *d = &cds[s->alg];
    s->sb = d->sb; s->mesh = d->mesh; s->section = d->section; s->pad = d->pad;
    EVP_CIPHER_CTX_set_padding(s->c, 1);
    if (d->pad && chance(1, 3)) { s->pad = 0; EVP_CIPHER_CTX_set_padding(s->c, 0); }
}
static void begin(int i, int kind /* 0 full, 1 two-step, 2 iv only, 3 same cipher (NULL) new key+iv */)
{
    shadow *s = &x[i];
    if (!s->c) { HARN(s->c = EVP_CIPHER_CTX_new()); kind = kind == 1; s->ops = s->reinits = s->copies = 0; s->section = 0; }
    if (s->dead && kind > 1) kind = 0;
    const EVP_CIPHER *ci = NULL;
    int newalg = kind < 2, same = 0;
    if (newalg) { int na = aset[rn(naset)]; if (s->ops && chance(1, 8)) na = s->alg; same = s->ops && na == s->alg; s->alg = na; ci = cph[na]; }
    const cdef *d = &cds[s->alg];
    s->enc = chance(1, 2);
    if (kind != 2) rkey_next(s->key, 32);
    if (d->ivlen) { if (chance(1, 5)) rcontent(s->iv, d->ivlen); else rbytes(s->iv, d->ivlen); }
    u8 kb[32 + 8], ib[16 + 8]; size_t ko = rn(8), io = rn(8);
    memcpy(kb + ko, s->key, 32); memcpy(ib + io, s->iv, d->ivlen);
    int r;
    if (kind == 1) {
        /* cipher first, key and IV (perhaps separately) later */
        r = EVP_CipherInit_ex(s->c, ci, NULL, NULL, NULL, s->enc);
        if (chance(1, 2) && d->ivlen) {
            r = r == 1 ? EVP_CipherInit_ex(s->c, NULL, NULL, kb + ko, NULL, s->enc) : r;
            r = r == 1 ? EVP_CipherInit_ex(s->c, NULL, NULL, NULL, ib + io, s->enc) : r;
        } else
            r = r == 1 ? EVP_CipherInit_ex(s->c, NULL, NULL, kb + ko, d->ivlen ? ib + io : NULL, s->enc) : r;
    } else
        r = EVP_CipherInit_ex(s->c, ci, chance(1, 2) ? vh_eng : NULL, kind == 2 ? NULL : kb + ko, d->ivlen ? ib + io : NULL, s->enc);
    memset(kb, 0, sizeof kb); memset(ib, 0, sizeof ib);
    vh_log("ctx%d init kind=%d %s %s key=%s iv=%s", i, kind, d->name, s->enc ? "enc" : "dec", vh_hex(s->key, 32), vh_hex(s->iv, d->ivlen));
    if (r != 1) { vh_viol("cipher-init", "%s init kind %d failed", d->name, kind); s->live = 0; s->dead = 1; return; }
    s->live = 1; s->dead = 0; s->inl = s->outl = 0; s->ops++;
    int osb = s->sb, om = s->mesh; size_t os = s->section;
    if (newalg) { params(s); if (same) { s->sb = osb; s->mesh = om; s->section = os; } }
    else {
        /* a re-initialised context is like a fresh one: default parameters of
         * the cipher unless set (S-box set and padding are kept settings) */
        s->reinits++;
        vh_count("reinits", 1);
        if (kind == 2) vh_count("reinits_iv_only", 1);
    }
    /* settings are made explicitly after a re-initialisation that follows non-default
     * ones: which of them survive it is not part of the property */
    int redo = (!newalg || same) && (s->sb != d->sb || s->mesh != d->mesh || s->section != (size_t)d->section);
    if (HAS_SBOX && d->sbox && (redo || chance(1, 2))) {
        int k = (int)rn(6);
        int rr = EVP_CIPHER_CTX_ctrl(s->c, EVP_CTRL_SET_SBOX, 0, (void *)sboxes[k].txt);
        vh_log("ctx%d sbox %s -> %d", i, sboxes[k].txt, rr);
        if (rr != 1) { vh_viol("set-sbox", "%s refuses S-box set %s before data", d->name, sboxes[k].txt); s->dead = 1; }
        else { s->sb = sboxes[k].sb; vh_count("sbox_sets", 1); }
    }
    if (redo && d->keymesh) {
        int v = d->section ? d->section : d->mesh;
        if (EVP_CIPHER_CTX_ctrl(s->c, EVP_CTRL_KEY_MESH, v, NULL) != 1) { vh_viol("key-mesh-ctrl", "%s refuses re-keying setting before data", d->name); s->dead = 1; }
        s->section = d->section; s->mesh = d->mesh;
    }
    /* initialisation vectors whose counter soon comes to an edge */
    if (d->mode == M_G89CNT && s->mesh == d->mesh && !s->dead && chance(1, 4)) {
        bc b; u8 t[8]; bc_init(&b, BC_GOST89, s->sb, s->key);
        uint32_t n3 = (uint32_t)rnd(), n4 = (uint32_t)rnd(), k = rn(40);
        if (chance(1, 2)) n4 = 0xffffffffu - k * 0x01010104u - rn(3) + 1; else n3 = 0u - k * 0x01010101u - rn(2);
        if (chance(1, 4)) n4 = 0u - k * 0x01010104u + rn(3);
        for (int j = 0; j < 4; j++) { t[j] = n3 >> 8 * j; t[4 + j] = n4 >> 8 * j; }
        bc_dec(&b, t, s->iv);
        if (EVP_CipherInit_ex(s->c, NULL, NULL, NULL, s->iv, s->enc) != 1) { vh_viol("cipher-init", "%s refuses another IV", d->name); s->dead = 1; }
        for (int k = 0; k < 6; k++) if (sboxes[k].sb == s->sb && s->sb != d->sb) EVP_CIPHER_CTX_ctrl(s->c, EVP_CTRL_SET_SBOX, 0, (void *)sboxes[k].txt);
        vh_count("counter_edges", 1);
    }
}
/* long messages: the keystream blocks around every power of two, and others */
static void run_long(void)
{
    static const char *nm[] = {"magma-ctr", "kuznyechik-ctr", "magma-ctr-acpkm", "kuznyechik-ctr-acpkm"};
    int w = (int)(vh_case % 4), al = 0; while (strcmp(cds[al].name, nm[w])) al++;
    const cdef *d = &cds[al]; int bs = bcbs(d->t); size_t sec = 0;
    u8 key[32], kk[32], iv[16] = {0}, ct[16], g[16]; rbytes(key, 32); rbytes(iv, d->ivlen);
    EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new(); HARN(c);
    ENG(EVP_EncryptInit_ex(c, cph[al], NULL, key, iv) == 1);
    if (d->section) { sec = 4096u << rn(4); ENG(EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_KEY_MESH, (int)sec, NULL) == 1); }
    uint64_t total = ((uint64_t)1 << 24) + 3000, blk = 0; size_t cap = 1 << 20; u8 *in = calloc(1, cap + 64), *out = malloc(cap + 64); HARN(in && out);
    bc b; memcpy(kk, key, 32); bc_init(&b, d->t, SB_Z, kk);
    uint64_t secno = 0, checked = 0;
    size_t carry = 0;                          /* octets of the current block already consumed */
    while (blk < total) {
        size_t n = chance(1, 4) ? 1 + rn(5000) : cap - rn(200); int l = 0;
        ENG(EVP_EncryptUpdate(c, out, &l, in, (int)n) == 1 && l == (int)n);
        /* blocks that lie wholly in this piece */
        size_t off = carry ? bs - carry : 0; uint64_t first = carry ? blk + 1 : blk;
        for (size_t o = off; o + bs <= n; o += bs, first++) {
            uint64_t hi = first + 40, lo = first >= 40 ? first - 40 : 0; int near = first < 2000 || (hi ^ lo) & ~(uint64_t)0xff ? (hi & (hi - 1)) == 0 || (63 - __builtin_clzll(hi | 1)) != (63 - __builtin_clzll(lo | 1)) || (first & 0xffff) < 40 || (first & 0xffff) > 0xffff - 40 : 0;
            if (!near && rnd() % 20000) continue;
            if (sec) { uint64_t sn = first * bs / sec; if (sn != secno) { while (secno < sn) { ref_acpkm(d->t, kk); secno++; } bc_init(&b, d->t, SB_Z, kk); } }
            memcpy(ct, iv, 16); uint64_t v = first; for (int j = bs - 1; j >= bs / 2 && j >= 0; j--, v >>= 8) ct[j] = (u8)v;
            bc_enc(&b, ct, g); checked++;
            if (memcmp(g, out + o, bs)) { vh_viol("long-keystream", "%s: keystream block %llu (section %zu) is %s, not %s; key %s iv %s", d->name, (unsigned long long)first, sec, vh_hex(out + o, bs), vh_hex(g, bs), vh_hex(key, 32), vh_hex(iv, d->ivlen)); goto end; }
        }
        carry += n; blk += carry / bs; carry %= bs;
    }
 end:
    vh_count("long_messages", 1); vh_count("long_blocks_checked", checked); vh_sig("long|%s", d->name);
    vh_sample("%s: %llu blocks in one message, %llu compared", d->name, (unsigned long long)blk, (unsigned long long)checked);
    EVP_CIPHER_CTX_free(c); free(in); free(out);
}
static void set_section(int i)
{
    shadow *s = &x[i];
    const cdef *d = &cds[s->alg];
    if (!d->keymesh || s->inl || s->dead) return;
    if (d->section) {
        int bs = bcbs(d->t);
        size_t sec = bs * (1 + rn(chance(1, 2) ? 6 : 80));
        if (chance(1, 6)) sec = d->section;
        int r = EVP_CIPHER_CTX_ctrl(s->c, EVP_CTRL_KEY_MESH, (int)sec, NULL);
        vh_log("ctx%d KEY_MESH %zu -> %d", i, sec, r);
        if (r != 1) vh_viol("key-mesh-ctrl", "%s refuses section size %zu before data", d->name, sec);
        else s->section = sec;
    } else if (chance(1, 4)) {
        int r = EVP_CIPHER_CTX_ctrl(s->c, EVP_CTRL_KEY_MESH, 0, NULL);
        if (r != 1) vh_viol("key-mesh-ctrl", "%s refuses to disable meshing before data", d->name);
        else s->mesh = 0;
        vh_log("ctx%d meshing off", i);
    }
}
/* settings come too late once data has been processed: refused, and nothing changes */
static void late_setting(int i)
{
    shadow *s = &x[i];
    const cdef *d = &cds[s->alg];
    if (!HAS_SBOX || !d->sbox || !d->keymesh || !s->inl || s->dead) return;
    int what = (int)rn(2), k = (int)rn(6), r;
    if (what) r = EVP_CIPHER_CTX_ctrl(s->c, EVP_CTRL_SET_SBOX, 0, (void *)sboxes[k].txt);
    else r = EVP_CIPHER_CTX_ctrl(s->c, EVP_CTRL_KEY_MESH, (int)rn(2), NULL);
    vh_log("ctx%d late %s -> %d", i, what ? "SET_SBOX" : "KEY_MESH", r);
    if (r == 1) vh_viol("late-setting", "%s accepts another %s after %zu octets of the message", d->name, what ? "S-box set" : "key meshing", s->inl);
    ERR_clear_error(); vh_count("late_settings_refused", 1);
}
static void feed(int i, size_t n)
{
    shadow *s = &x[i];
    const cdef *d = &cds[s->alg];
    int bs = bcbs(d->t), direct = 0, ol = 0;
    if (s->dead) return;
    room(s, n);
    size_t io = rn(17), oo = rn(17);
    u8 *ib = malloc(io + n + 1), *ob;
    rcontent(ib + io, n);
    memcpy(s->in + s->inl, ib + io, n);
    int inplace = !d->pad && chance(1, 3);
    /* for padded modes EVP buffers: in place is fine when no partial block is held */
    if (d->pad && n && s->inl % bs == 0 && (s->enc || !s->pad) && chance(1, 3)) inplace = 1;
    if (inplace) ob = ib, oo = io; else { ob = malloc(oo + n + 64); memset(ob, 0xC3, oo + n + 64); }
    if (chance(1, 6) && n && (!d->pad || (n % bs == 0 && s->inl % bs == 0 && !s->pad)) && s->outl == s->inl) direct = 1;
    int r;
    if (direct) { r = EVP_Cipher(s->c, ob + oo, ib + io, (unsigned)n); r = r > 0 ? 1 : 0; ol = (int)n; }
    else r = EVP_CipherUpdate(s->c, ob + oo, &ol, ib + io, (int)n);
    vh_log("ctx%d %s len=%zu%s (off %zu/%zu) -> ret %d, %d out, total in %zu", i, direct ? "EVP_Cipher" : "update", n, inplace ? " in place" : "", io, oo, r, ol, s->inl + n);
    if (r != 1 && n) { vh_viol("cipher-update", "%s update of %zu failed", d->name, n); s->dead = 1; ol = 0; }
    if (ol < 0 || ol > (int)n + bs) { vh_viol("cipher-length", "%s update of %zu returned length %d", d->name, n, ol); s->dead = 1; ol = 0; }
    if (!inplace) {
        for (size_t k = 0; k < oo; k++) if (ob[k] != 0xC3) { vh_viol("cipher-overrun", "%s wrote before output", d->name); break; }
        for (size_t k = oo + ol; k < oo + n + 64; k++)
            if (ob[k] != 0xC3) { if (k < oo + n + 32 && d->pad) break; vh_viol("cipher-overrun", "%s wrote past output (%d bytes reported, offset %zu)", d->name, ol, k - oo); break; }
        if (memcmp(ib + io, s->in + s->inl, n)) vh_viol("cipher-input-changed", "%s modified its input", d->name);
    }
    memcpy(s->out + s->outl, ob + oo, ol);
    s->inl += n; s->outl += ol; s->ops++;
    if (!inplace) free(ob);
    free(ib);
    vh_count("updates", 1);
    if (!s->dead) compare(s, direct ? "EVP_Cipher" : "update");
}
static void fin(int i)
{
    shadow *s = &x[i];
    const cdef *d = &cds[s->alg];
    u8 ob[64]; int ol = -1, bs = bcbs(d->t);
    if (s->dead) { s->live = 0; return; }
    memset(ob, 0xC3, sizeof ob);
    int r = EVP_CipherFinal_ex(s->c, ob, &ol);
    vh_log("ctx%d final -> %d, %d out", i, r, ol);
    vh_count("finals", 1);
    if (!d->pad) {
        if (r != 1 || ol) vh_viol("cipher-final", "%s final: ret %d len %d", d->name, r, ol);
    } else {
        u8 *exp = malloc(s->inl + 64);
        if (!s->pad) {
            int want = s->inl % bs == 0;
            if ((r == 1) != want) vh_viol("cipher-final", "%s unpadded final over %zu bytes returned %d", d->name, s->inl, r);
            if (r == 1 && s->outl + ol != s->inl) vh_viol("cipher-length", "%s unpadded: %zu in %zu out", d->name, s->inl, s->outl + ol);
        } else if (s->enc) {
            size_t p = bs - s->inl % bs, l0 = s->inl;
            room(s, 64);
            memset(s->in + s->inl, (int)p, p); s->inl += p;
            expect(s, exp, s->inl);
            if (r != 1 || s->outl + ol != s->inl) vh_viol("cipher-final", "%s padded final over %zu bytes: ret %d, %zu out", d->name, l0, r, s->outl + ol);
            else {
                memcpy(s->out + s->outl, ob, ol); s->outl += ol;
                if (memcmp(exp, s->out, s->inl)) vh_viol("cipher-output", "%s padded final block of %zu bytes", d->name, l0);
            }
        } else {
            /* padded decryption of arbitrary ciphertext */
            int ok = 0; size_t pl = 0;
            if (s->inl && s->inl % bs == 0) {
                expect(s, exp, s->inl);
                int p = exp[s->inl - 1];
                if (p >= 1 && p <= bs) { ok = 1; for (int k = 0; k < p; k++) if (exp[s->inl - 1 - k] != p) ok = 0; }
                pl = s->inl - (ok ? p : 0);
            }
            if ((r == 1) != ok) vh_viol("cipher-final", "%s padded decrypt of %zu bytes returned %d, padding is %s", d->name, s->inl, r, ok ? "right" : "wrong");
            else if (ok) {
                memcpy(s->out + s->outl, ob, ol);
                if (s->outl + ol != pl || memcmp(exp, s->out, pl)) vh_viol("cipher-output", "%s padded decrypt of %zu bytes", d->name, s->inl);
            }
            vh_count(ok ? "padded_decrypt_ok" : "padded_decrypt_rejected", 1);
        }
        free(exp);
    }
    vh_sig("%d %d %d %d %zu %zu %zu %d %d", s->alg, s->enc, s->sb, s->mesh, s->section, s->inl % (d->section ? 64 : 16), s->inl / 512 > 20 ? 20 : s->inl / 512, s->reinits > 2 ? 2 : s->reinits, s->copies > 2 ? 2 : s->copies);
    vh_sample("cipher=%s %s sbox=%d mesh=%d section=%zu len=%zu calls=%d reinits=%d copies=%d", d->name, s->enc ? "enc" : "dec", s->sb, s->mesh, s->section, s->inl, s->ops, s->reinits, s->copies);
    s->live = 0;
}
static void drop(int i)
{
    shadow *s = &x[i];
    EVP_CIPHER_CTX_free(s->c);
    free(s->in); free(s->out);
    memset(s, 0, sizeof *s);
}
/* padded round trip: encrypt with one context, decrypt with another */
static void roundtrip(void)
{
    int a = aset[rn(naset)]; const cdef *d = &cds[a];
    u8 key[32], iv[16]; size_t n = rlen(chance(1, 10) ? 20000 : 700);
    rkey(key, 32); rbytes(iv, 16);
    u8 *m = malloc(n + 1), *ct = malloc(n + 64), *pt = malloc(n + 64);
    rcontent(m, n);
    size_t cl = 0, pl = 0;
    for (int dec = 0; dec < 2; dec++) {
        EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new();
        ENG(EVP_CipherInit_ex(c, cph[a], NULL, key, d->ivlen ? iv : NULL, !dec) == 1);
        const u8 *src = dec ? ct : m; size_t len = dec ? cl : n, p = 0, q = 0; int ol;
        u8 *dst = dec ? pt : ct;
        while (p < len) {
            size_t k = 1 + rn(chance(1, 2) ? 20 : len - p); if (k > len - p) k = len - p;
            if (EVP_CipherUpdate(c, dst + q, &ol, src + p, (int)k) != 1) { vh_viol("roundtrip", "%s update failed", d->name); ol = 0; }
            p += k; q += ol;
        }
        int r = EVP_CipherFinal_ex(c, dst + q, &ol);
        if (r != 1) { vh_viol("roundtrip", "%s %s of %zu bytes: final failed", d->name, dec ? "decrypt" : "encrypt", len); ol = 0; }
        q += ol;
        if (dec) pl = q; else cl = q;
        EVP_CIPHER_CTX_free(c);
    }
    if (pl != n || memcmp(pt, m, n)) vh_viol("roundtrip", "%s of %zu bytes: got back %zu", d->name, n, pl);
    if (d->pad && cl) {     /* whole-block requirement */
        EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new();
        size_t cut = 1 + rn(bcbs(d->t) - 1); int ol, ol2 = 0;
        if (cut < cl) {
            ENG(EVP_CipherInit_ex(c, cph[a], NULL, key, d->ivlen ? iv : NULL, 0) == 1);
            EVP_CipherUpdate(c, pt, &ol, ct, (int)(cl - cut));
            if (EVP_CipherFinal_ex(c, pt + ol, &ol2) == 1) vh_viol("partial-block-accepted", "%s accepted %zu bytes", d->name, cl - cut);
            vh_count("partial_rejected", 1);
        }
        EVP_CIPHER_CTX_free(c);
    }
    vh_count("roundtrips", 1);
    vh_sig("rt %d %zu", a, n > 300 ? 300 + n % 16 : n);
    free(m); free(ct); free(pt);
}
static void run_conf(void)
{
    if (chance(1, 4)) { roundtrip(); return; }
    begin(0, (int)rn(2));
    set_section(0);
    int n = 1 + (int)rn(12);
    size_t mx = chance(1, 12) ? 20000 : chance(1, 3) ? 3000 : 200;
    for (int k = 0; k < n; k++) {
        feed(0, chance(1, 6) ? rn(2) : rlen(mx));
        if (chance(1, 4)) late_setting(0);
        if (x[0].inl > 40000) break;
    }
    fin(0);
    if (chance(3, 4)) drop(0); else EVP_CIPHER_CTX_reset(x[0].c);
}
static void run_indep(void)
{
    int steps = 6 + (int)rn(30);
    size_t mx = chance(1, 12) ? 6000 : chance(1, 3) ? 2300 : 100;
    for (int k = 0; k < steps; k++) {
        int i = (int)rn(MAXC);
        shadow *s = &x[i];
        if (!s->live) { begin(i, s->c && s->ops && !s->dead && chance(2, 3) ? 2 + (int)rn(2) : (int)rn(2)); if (chance(1, 4)) set_section(i); continue; }
        switch (rn(12)) {
        case 0: case 1: case 2: case 3: case 4: case 5: feed(i, rlen(mx)); break;
        case 6: case 7: {
            int j = (int)rn(MAXC);
            if (j == i || s->dead) break;
            shadow *t = &x[j];
            if (chance(1, 3) && t->c) drop(j);
            if (!t->c) HARN(t->c = EVP_CIPHER_CTX_new());
            vh_log("copy ctx%d -> ctx%d", i, j);
            vh_count("copies", 1);
            if (EVP_CIPHER_CTX_copy(t->c, s->c) != 1) { vh_viol("cipher-copy", "%s copy failed", cds[s->alg].name); t->dead = 1; break; }
            EVP_CIPHER_CTX *tc = t->c; u8 *ti = t->in, *to = t->out; size_t cap = t->cap;
            *t = *s; t->c = tc; t->in = ti; t->out = to; t->cap = cap;
            size_t il = s->inl, ol = s->outl;
            t->inl = t->outl = 0; room(t, (il > ol ? il : ol) + 64);
            if (il) memcpy(t->in, s->in, il);
            if (ol) memcpy(t->out, s->out, ol);
            t->inl = il; t->outl = ol; t->copies++; s->copies++;
            if (chance(1, 4)) { vh_log("destroy ctx%d", i); drop(i); }
            break; }
        case 8: fin(i); break;
        case 9: case 10: begin(i, 2 + (int)rn(2)); break;     /* re-initialise in mid-message */
        case 11:
            if (chance(1, 2)) { vh_log("reset ctx%d", i); EVP_CIPHER_CTX_reset(s->c); s->live = 0; s->dead = 1; }
            else begin(i, (int)rn(2));
            break;
        }
    }
    for (int i = 0; i < MAXC; i++) { if (x[i].live) fin(i); if (x[i].c) drop(i); }
}
static void run_rekey(void)
{
    begin(0, (int)rn(2));
    set_section(0);
    shadow *s = &x[0];
    size_t sec = s->section ? s->section : 1024, total = sec * (1 + rn(10)) + rn(sec);
    if (chance(1, 10)) total = 40000;
    if (total > 60000) total = 60000;
    while (s->inl < total && !s->dead) {
        size_t left = sec - s->inl % sec, n;
        switch (rn(6)) {
        case 0: n = left; break;
        case 1: n = left + rn(20); break;
        case 2: n = left > 8 ? left - rn(8) : 1 + rn(9); break;
        case 3: n = 1 + rn(17); break;
        default: n = 1 + rn(total - s->inl + 1);
        }
        if (n > total - s->inl) n = total - s->inl;
        feed(0, n);
    }
    vh_count("rekeyings_crossed", (long)((s->inl ? s->inl - 1 : 0) / sec));
    fin(0);
    drop(0);
}
/* --- TLSTREE through EVP_CTRL_TLSTREE: record n is protected under the key and IV of its number --- */
static void run_tlstree(void)
{
    int kuz = chance(1, 2);
    int a = -1;
    for (int i = 0; i < NCD; i++) if (!strcmp(cds[i].name, kuz ? (chance(1, 2) ? "kuznyechik-ctr-acpkm" : "kuznyechik-ctr-acpkm") : "magma-ctr-acpkm")) a = i;
    const cdef *d = &cds[a]; int bs = bcbs(d->t), h = bs / 2;
    u8 key[32], iv[16] = { 0 }; rkey(key, 32); rbytes(iv, h);
    int enc = chance(1, 2);
    EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new(), *c2;
    ENG(EVP_CipherInit_ex(c, cph[a], NULL, key, iv, enc) == 1);
    uint64_t seq = chance(1, 3) ? 0 : chance(1, 2) ? rn(10000) : rnd();
    int nrec = 1 + (int)rn(8);
    for (int k = 0; k < nrec; k++) {
        u8 sq[8], rk[32], riv[16] = { 0 };
        for (int j = 0; j < 8; j++) sq[7 - j] = (u8)(seq >> (8 * j));
        /* the control's argument: 0 take the number as is, 1 the number was already advanced */
        int mode = (int)rn(2);
        u8 pass[8]; uint64_t v = seq + (mode == 1);
        for (int j = 0; j < 8; j++) pass[7 - j] = (u8)(v >> (8 * j));
        int r = EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_TLSTREE, mode, pass);
        vh_log("record %d %s seq=%016llx mode=%d -> %d", k, d->name, (unsigned long long)seq, mode, r);
        if (r != 1) { vh_viol("tlstree-ctrl", "%s seq %llx refused", d->name, (unsigned long long)seq); break; }
        ref_tlstree(d->t, key, seq, rk);
        unsigned carry = 0;     /* IV + sequence number modulo 2^(h*8) */
        for (int j = h - 1; j >= 0; j--) { carry += iv[j] + sq[8 - h + j]; riv[j] = (u8)carry; carry >>= 8; }
        size_t n = rlen(chance(1, 8) ? 9000 : 300), p = 0;
        u8 *m = malloc(n + 1), *o = malloc(n + 1), *e = malloc(n + 1);
        rcontent(m, n);
        ref_mode rm = { d->t, SB_Z, M_CTR, 0, d->section };
        ref_crypt(&rm, rk, riv, enc, m, n, e);
        while (p < n) {
            size_t q = 1 + rn(n - p); int ol;
            if (EVP_CipherUpdate(c, o + p, &ol, m + p, (int)q) != 1) break;
            p += q;
        }
        if (p != n || memcmp(o, e, n)) {
            size_t z = 0; while (z < n && o[z] == e[z]) z++;
            vh_viol("tlstree-record", "%s seq %016llx len %zu differs at %zu (key %s)", d->name, (unsigned long long)seq, n, z, vh_hex(key, 32));
        }
        vh_count("tls_records", 1);
        vh_sig("tls %d %d %zu %d", a, seq < 4 ? (int)seq : seq < 100000 ? 4 : 5, n % 16, mode);
        free(m); free(o); free(e);
        if (chance(1, 5)) { c2 = EVP_CIPHER_CTX_new(); ENG(EVP_CIPHER_CTX_copy(c2, c) == 1); EVP_CIPHER_CTX_free(c); c = c2; }
        switch (rn(5)) {
        case 0: seq += 1; break;
        case 1: seq += 64; break;
        case 2: seq = (seq | 0xfff) + rn(2); break;
        case 3: seq ^= 1ull << rn(64); break;
        default: seq += 1 + rn(3);
        }
        if (seq == ~0ull) seq = 0;
    }
    EVP_CIPHER_CTX_free(c);
}
static void all_done(void) { for (int i = 0; i < MAXC; i++) drop(i); }
const vh_workload vh_workloads[] = {
    { "conf", run_conf, pick_all, all_done }, { "indep", run_indep, pick_all, all_done },
    { "rekey", run_rekey, pick_rekey, all_done }, { "tlstree", run_tlstree, pick_all, 0 },
    { "long", run_long, pick_all, 0 }, { 0 } };
