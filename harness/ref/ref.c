#include "ref.h"
#include "ref_tables.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>

static const uint8_t (*sbs[SB_N])[16] = {
    ref_sb_GostR3411_94_TestParamSet, ref_sb_GostR3411_94_CryptoProParamSet,
    ref_sb_Gost28147_TestParamSet, ref_sb_Gost28147_CryptoProParamSetA,
    ref_sb_Gost28147_CryptoProParamSetB, ref_sb_Gost28147_CryptoProParamSetC,
    ref_sb_Gost28147_CryptoProParamSetD, ref_sb_Gost28147_TC26ParamSetZ
};

/* ---------------- Kuznyechik ---------------- */
static const int lc[16] = { 148, 32, 133, 16, 194, 192, 1, 251, 1, 192, 194, 16, 133, 32, 148, 1 };
static u8 lmul[16][256], pinv[256];
static u8 gf(u8 a, u8 b)
{
    unsigned r = 0, x = a;
    while (b) {
        if (b & 1) r ^= x;
        x <<= 1;
        if (x & 0x100) x ^= 0x1c3;
        b >>= 1;
    }
    return (u8)r;
}
__attribute__((constructor)) static void kinit(void)
{
    for (int i = 0; i < 16; i++)
        for (int j = 0; j < 256; j++) lmul[i][j] = gf((u8)lc[i], (u8)j);
    for (int j = 0; j < 256; j++) pinv[ref_pi[j]] = (u8)j;
}
static void kL(u8 *a)
{
    for (int r = 0; r < 16; r++) {
        u8 x = 0;
        for (int i = 0; i < 16; i++) x ^= lmul[i][a[i]];
        memmove(a + 1, a, 15);
        a[0] = x;
    }
}
static void kLinv(u8 *a)
{
    for (int r = 0; r < 16; r++) {
        u8 x0 = a[0];
        memmove(a, a + 1, 15);
        a[15] = x0;             /* solve for a[15]: coefficient 1 */
        u8 x = 0;
        for (int i = 0; i < 15; i++) x ^= lmul[i][a[i]];
        a[15] = x ^ x0;
    }
}
static void kkeys(bc *b, const u8 *key)
{
    u8 x[16], y[16], c[16], t[16];
    memcpy(x, key, 16); memcpy(y, key + 16, 16);
    memcpy(b->rk[0], x, 16); memcpy(b->rk[1], y, 16);
    for (int i = 1; i <= 32; i++) {
        memset(c, 0, 16); c[15] = (u8)i; kL(c);
        for (int j = 0; j < 16; j++) t[j] = ref_pi[x[j] ^ c[j]];
        kL(t);
        for (int j = 0; j < 16; j++) t[j] ^= y[j];
        memcpy(y, x, 16); memcpy(x, t, 16);
        if (i % 8 == 0) {
            memcpy(b->rk[i / 4], x, 16);
            memcpy(b->rk[i / 4 + 1], y, 16);
        }
    }
}
/* ---------------- GOST 28147-89 / Magma core ---------------- */
static uint32_t gF(const bc *b, uint32_t x)
{
    const uint8_t (*s)[16] = sbs[b->sb];
    uint32_t r = 0;
    for (int i = 0; i < 8; i++) r |= (uint32_t)s[7 - i][(x >> (4 * i)) & 15] << (4 * i);
    return r << 11 | r >> 21;
}
static uint32_t ld(const u8 *p, int be)
{
    return be ? (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]
              : (uint32_t)p[3] << 24 | p[2] << 16 | p[1] << 8 | p[0];
}
static void st(u8 *p, uint32_t v, int be)
{
    for (int i = 0; i < 4; i++) p[be ? 3 - i : i] = (u8)(v >> (8 * i));
}
static void feistel(const bc *b, const u8 *in, u8 *out, int rounds, int dec)
{
    int be = b->t == BC_MAGMA;
    uint32_t a = be ? ld(in + 4, 1) : ld(in, 0);        /* A1: low half */
    uint32_t c = be ? ld(in, 1) : ld(in + 4, 0);
    for (int i = 0; i < rounds; i++) {
        int ki;
        if (rounds == 16) ki = i & 7;
        else if (!dec) ki = i < 24 ? (i & 7) : 7 - (i & 7);
        else ki = i < 8 ? i : 7 - (i & 7);
        uint32_t t = c ^ gF(b, a + b->k[ki]);
        c = a; a = t;
    }
    if (rounds == 32) { uint32_t t = a; a = c; c = t; }  /* no swap in the last round */
    if (be) { st(out, c, 1); st(out + 4, a, 1); }
    else { st(out, a, 0); st(out + 4, c, 0); }
}
void bc_init(bc *b, bc_type t, int sb, const u8 key[32])
{
    b->t = t;
    b->bs = t == BC_KUZ ? 16 : 8;
    b->sb = t == BC_MAGMA ? SB_Z : sb;
    if (t == BC_KUZ) kkeys(b, key);
    else for (int i = 0; i < 8; i++) b->k[i] = ld(key + 4 * i, t == BC_MAGMA);
}
void bc_enc(const bc *b, const u8 *in, u8 *out)
{
    if (b->t != BC_KUZ) { feistel(b, in, out, 32, 0); return; }
    u8 s[16];
    memcpy(s, in, 16);
    for (int r = 0; r < 9; r++) {
        for (int i = 0; i < 16; i++) s[i] = ref_pi[s[i] ^ b->rk[r][i]];
        kL(s);
    }
    for (int i = 0; i < 16; i++) out[i] = s[i] ^ b->rk[9][i];
}
void bc_dec(const bc *b, const u8 *in, u8 *out)
{
    if (b->t != BC_KUZ) { feistel(b, in, out, 32, 1); return; }
    u8 s[16];
    for (int i = 0; i < 16; i++) s[i] = in[i] ^ b->rk[9][i];
    for (int r = 8; r >= 0; r--) {
        kLinv(s);
        for (int i = 0; i < 16; i++) s[i] = pinv[s[i]] ^ b->rk[r][i];
    }
    memcpy(out, s, 16);
}
/* ---------------- re-keying ---------------- */
static const u8 meshc[32] = {
    0x69,0x00,0x72,0x22,0x64,0xC9,0x04,0x23,0x8D,0x3A,0xDB,0x96,0x46,0xE9,0x2A,0xC4,
    0x18,0xFE,0xAC,0x94,0x00,0xED,0x07,0x12,0xC0,0x86,0xDC,0xC2,0xEF,0x4C,0xA9,0x2B };
void ref_cp_mesh(bc_type t, int sb, u8 key[32])
{
    bc b; u8 nk[32];
    bc_init(&b, t, sb, key);
    for (int i = 0; i < 4; i++) bc_dec(&b, meshc + 8 * i, nk + 8 * i);
    memcpy(key, nk, 32);
}
void ref_acpkm(bc_type t, u8 key[32])
{
    bc b; u8 d[32], nk[32];
    bc_init(&b, t, SB_Z, key);
    for (int i = 0; i < 32; i++) d[i] = (u8)(0x80 + i);
    for (int i = 0; i < 32; i += b.bs) bc_enc(&b, d + i, nk + i);
    memcpy(key, nk, 32);
}
static void ctr_inc(u8 *c, int n) { while (n-- > 0) if (++c[n]) break; }

int ref_crypt(const ref_mode *m, const u8 key0[32], const u8 *iv0, int enc,
              const u8 *in, size_t len, u8 *out)
{
    bc b; u8 key[32], iv[16], g[16] = {0}, c[16];
    memcpy(key, key0, 32);
    bc_init(&b, m->t, m->sb, key);
    int bs = b.bs;
    if (m->mode != M_ECB) memcpy(iv, iv0, bs);
    switch (m->mode) {
    case M_ECB:
        if (len % bs) return 0;
        for (size_t i = 0; i < len; i += bs) {
            if (enc) bc_enc(&b, in + i, c); else bc_dec(&b, in + i, c);
            memcpy(out + i, c, bs);
        }
        return 1;
    case M_CBC:
        if (len % bs) return 0;
        for (size_t i = 0; i < len; i += bs) {
            if (enc) {
                for (int j = 0; j < bs; j++) iv[j] ^= in[i + j];
                bc_enc(&b, iv, iv);
                memcpy(out + i, iv, bs);
            } else {
                memcpy(c, in + i, bs);
                bc_dec(&b, c, g);
                for (int j = 0; j < bs; j++) out[i + j] = g[j] ^ iv[j];
                memcpy(iv, c, bs);
            }
        }
        return 1;
    case M_CFB: case M_G89CFB:
        for (size_t i = 0; i < len; i++) {
            int o = (int)(i % bs);
            if (!o) {
                if (m->mode == M_G89CFB && m->mesh && i && i % 1024 == 0) {
                    ref_cp_mesh(m->t, m->sb, key);
                    bc_init(&b, m->t, m->sb, key);
                    bc_enc(&b, iv, iv);
                }
                bc_enc(&b, iv, g);
            }
            u8 x = in[i], y = x ^ g[o];
            out[i] = y;
            iv[o] = enc ? y : x;
        }
        return 1;
    case M_OFB:
        for (size_t i = 0; i < len; i++) {
            int o = (int)(i % bs);
            if (!o) { bc_enc(&b, iv, iv); }
            out[i] = in[i] ^ iv[o];
        }
        return 1;
    case M_CTR:
        for (size_t i = 0; i < len; i++) {
            int o = (int)(i % bs);
            if (m->section && i && i % m->section == 0) {
                ref_acpkm(m->t, key);
                bc_init(&b, m->t, m->sb, key);
            }
            if (!o) { bc_enc(&b, iv, g); ctr_inc(iv, bs); }
            out[i] = in[i] ^ g[o];
        }
        return 1;
    case M_G89CNT: {
        uint32_t n3, n4;
        bc_enc(&b, iv, iv);
        n3 = ld(iv, 0); n4 = ld(iv + 4, 0);
        for (size_t i = 0; i < len; i++) {
            int o = (int)(i % 8);
            if (!o) {
                if (m->mesh && i && i % 1024 == 0) {
                    u8 t[8];
                    ref_cp_mesh(m->t, m->sb, key);
                    bc_init(&b, m->t, m->sb, key);
                    st(t, n3, 0); st(t + 4, n4, 0);
                    bc_enc(&b, t, t);
                    n3 = ld(t, 0); n4 = ld(t + 4, 0);
                }
                n3 += 0x01010101u;
                uint64_t s = (uint64_t)n4 + 0x01010104u;   /* mod 2^32-1 */
                n4 = (uint32_t)(s >= 0x100000000ull ? s - 0xffffffffull : s);
                u8 t[8];
                st(t, n3, 0); st(t + 4, n4, 0);
                bc_enc(&b, t, g);
            }
            out[i] = in[i] ^ g[o];
        }
        return 1;
    }
    }
    return 0;
}
/* ---------------- MACs ---------------- */
void ref_imit(int sb, int mesh, const u8 key0[32], const u8 *iv8,
              const u8 *m, size_t len, int bits, u8 *out)
{
    bc b; u8 key[32], s[8] = {0};
    memcpy(key, key0, 32);
    if (iv8) memcpy(s, iv8, 8);
    bc_init(&b, BC_GOST89, sb, key);
    size_t nb = (len + 7) / 8;
    if (nb == 1) nb = 2;        /* a single block is followed by a zero block */
    for (size_t i = 0; i < nb; i++) {
        if (mesh && i && i % 128 == 0) {
            ref_cp_mesh(BC_GOST89, sb, key);
            bc_init(&b, BC_GOST89, sb, key);
        }
        for (size_t j = 0; j < 8; j++)
            if (8 * i + j < len) s[j] ^= m[8 * i + j];
        feistel(&b, s, s, 16, 0);
    }
    int n = bits / 8, r = bits % 8;
    memcpy(out, s, n);
    if (r) out[n] = s[n] & ((1 << r) - 1);
}
static void dbl(u8 *p, int bs)
{
    int top = p[0] >> 7;
    for (int i = 0; i < bs; i++) p[i] = (u8)(p[i] << 1 | (i + 1 < bs ? p[i + 1] >> 7 : 0));
    if (top) p[bs - 1] ^= bs == 16 ? 0x87 : 0x1b;
}
void ref_omac(bc_type t, const u8 key[32], const u8 *m, size_t len, u8 *out)
{
    bc b; u8 k[16] = {0}, s[16] = {0};
    bc_init(&b, t, SB_Z, key);
    int bs = b.bs;
    bc_enc(&b, k, k);
    dbl(k, bs);
    size_t nb = len ? (len + bs - 1) / bs : 1;
    if (len != nb * bs) dbl(k, bs);
    for (size_t i = 0; i < nb; i++) {
        for (int j = 0; j < bs; j++) {
            size_t p = i * bs + j;
            s[j] ^= p < len ? m[p] : p == len ? 0x80 : 0;
            if (i == nb - 1) s[j] ^= k[j];
        }
        bc_enc(&b, s, s);
    }
    memcpy(out, s, bs);
}
void ref_acpkm_master(bc_type t, const u8 key[32], size_t tstar, u8 *km, size_t n)
{
    u8 iv[16] = {0};
    memset(iv, 0xff, t == BC_KUZ ? 8 : 4);
    memset(km, 0, n);
    ref_mode md = { t, SB_Z, M_CTR, 0, tstar };
    ref_crypt(&md, key, iv, 1, km, n, km);
}
void ref_omac_acpkm(bc_type t, const u8 key[32], size_t section, size_t tstar,
                    const u8 *m, size_t len, u8 *out)
{
    bc b; u8 s[16] = {0}, k1[16];
    int bs = t == BC_KUZ ? 16 : 8;
    size_t nb = len ? (len + bs - 1) / bs : 1;
    size_t per = section / bs, ns = (nb + per - 1) / per, kl = 32 + bs;
    u8 *km = calloc(ns, kl);
    ref_acpkm_master(t, key, tstar, km, ns * kl);
    for (size_t i = 0; i < nb; i++) {
        if (i % per == 0) bc_init(&b, t, SB_Z, km + (i / per) * kl);
        if (i == nb - 1) {
            memcpy(k1, km + (i / per) * kl + 32, bs);
            if (len != nb * bs) dbl(k1, bs);
        }
        for (int j = 0; j < bs; j++) {
            size_t p = i * bs + j;
            s[j] ^= p < len ? m[p] : p == len ? 0x80 : 0;
            if (i == nb - 1) s[j] ^= k1[j];
        }
        bc_enc(&b, s, s);
    }
    memcpy(out, s, bs);
    free(km);
}
/* ---------------- MGM (RFC 9058) ---------------- */
static void gfmul(int bs, const u8 *a, const u8 *b, u8 *r)
{
    u8 acc[16] = {0}, x[16];
    memcpy(x, a, bs);
    for (int i = bs * 8 - 1; i >= 0; i--) {      /* bits of b, least significant first */
        int bit = bs * 8 - 1 - i;
        if (b[bs - 1 - bit / 8] >> (bit % 8) & 1)
            for (int j = 0; j < bs; j++) acc[j] ^= x[j];
        dbl(x, bs);
    }
    memcpy(r, acc, bs);
}
static void mgm_acc(const bc *b, u8 *z, u8 *sum, const u8 *blk)
{
    u8 h[16], p[16];
    bc_enc(b, z, h);
    gfmul(b->bs, h, blk, p);
    for (int j = 0; j < b->bs; j++) sum[j] ^= p[j];
    ctr_inc(z, b->bs / 2);      /* incr_l */
}
void ref_mgm(bc_type t, const u8 key[32], const u8 *nonce, const u8 *aad,
             size_t alen, const u8 *in, size_t len, int enc, u8 *out, u8 *tag)
{
    bc b; u8 y[16], z[16], sum[16] = {0}, g[16], blk[16];
    bc_init(&b, t, SB_Z, key);
    int bs = b.bs;
    memcpy(y, nonce, bs); y[0] &= 0x7f;
    memcpy(z, nonce, bs); z[0] |= 0x80;
    bc_enc(&b, y, y);
    bc_enc(&b, z, z);
    for (size_t i = 0; i < alen; i += bs) {
        memset(blk, 0, 16);
        memcpy(blk, aad + i, alen - i < (size_t)bs ? alen - i : (size_t)bs);
        mgm_acc(&b, z, sum, blk);
    }
    for (size_t i = 0; i < len; i += bs) {
        size_t n = len - i < (size_t)bs ? len - i : (size_t)bs;
        u8 ct[16] = {0};
        bc_enc(&b, y, g);
        {   /* incr_r: low half */
            int k = bs;
            while (k-- > bs / 2) if (++y[k]) break;
        }
        for (size_t j = 0; j < n; j++) {
            u8 x = in[i + j], o = x ^ g[j];
            ct[j] = enc ? o : x;
            out[i + j] = o;
        }
        mgm_acc(&b, z, sum, ct);
    }
    memset(blk, 0, 16);
    uint64_t ab = (uint64_t)alen * 8, cb = (uint64_t)len * 8;
    int h = bs / 2;
    for (int j = 0; j < h; j++) {
        blk[h - 1 - j] = (u8)(ab >> (8 * j));
        blk[bs - 1 - j] = (u8)(cb >> (8 * j));
    }
    mgm_acc(&b, z, sum, blk);
    bc_enc(&b, sum, tag);
}
/* ---------------- GOST R 34.11-94 ---------------- */
static void h94A(u8 *y)
{
    u8 t[8];
    for (int i = 0; i < 8; i++) t[i] = y[i] ^ y[8 + i];
    memmove(y, y + 8, 24);
    memcpy(y + 24, t, 8);
}
static void h94psi(u8 *y, int n)
{
    while (n--) {
        u8 a = y[0] ^ y[2] ^ y[4] ^ y[6] ^ y[24] ^ y[30];
        u8 b = y[1] ^ y[3] ^ y[5] ^ y[7] ^ y[25] ^ y[31];
        memmove(y, y + 2, 30);
        y[30] = a; y[31] = b;
    }
}
static void h94step(int sb, u8 *H, const u8 *M)
{
    static const u8 C3msb[32] = { 0xff,0,0xff,0xff,0,0,0,0xff,0xff,0,0,0xff,0,0xff,0xff,0,
        0,0xff,0,0xff,0,0xff,0,0xff,0xff,0,0xff,0,0xff,0,0xff,0 };
    u8 U[32], V[32], K[32], S[32];
    memcpy(U, H, 32); memcpy(V, M, 32);
    for (int i = 0; i < 4; i++) {
        if (i) {
            h94A(U);
            if (i == 2) for (int j = 0; j < 32; j++) U[j] ^= C3msb[31 - j];
            h94A(V); h94A(V);
        }
        for (int a = 0; a < 4; a++)
            for (int k = 0; k < 8; k++) K[a + 4 * k] = U[8 * a + k] ^ V[8 * a + k];
        bc b;
        bc_init(&b, BC_GOST89, sb, K);
        bc_enc(&b, H + 8 * i, S + 8 * i);
    }
    h94psi(S, 12);
    for (int j = 0; j < 32; j++) S[j] ^= M[j];
    h94psi(S, 1);
    for (int j = 0; j < 32; j++) S[j] ^= H[j];
    h94psi(S, 61);
    memcpy(H, S, 32);
}
void ref_gost94(int sb, const u8 *m, size_t len, u8 out[32])
{
    u8 H[32] = {0}, S[32] = {0}, L[32] = {0}, B[32];
    size_t i = 0;
    do {
        size_t n = len - i < 32 ? len - i : 32;
        memset(B, 0, 32);
        if (n) memcpy(B, m + i, n);
        h94step(sb, H, B);
        unsigned c = 0;
        for (int j = 0; j < 32; j++) { c += S[j] + B[j]; S[j] = (u8)c; c >>= 8; }
        i += n;
    } while (i < len);
    for (int j = 0; j < 9; j++) L[j] = (u8)(((unsigned __int128)len * 8) >> (8 * j));
    h94step(sb, H, L);
    h94step(sb, H, S);
    memcpy(out, H, 32);
}
/* ---------------- Streebog ---------------- */
typedef struct { uint64_t q[8]; } s512;
static uint64_t slrow(uint64_t x)
{
    uint64_t r = 0;
    for (int i = 0; i < 64; i++) if (x >> i & 1) r ^= ref_sb_A[i];
    return r;
}
static uint64_t slt[8][256];
__attribute__((constructor)) static void slinit(void)
{
    for (int k = 0; k < 8; k++)
        for (int v = 0; v < 256; v++) slt[k][v] = slrow((uint64_t)v << (8 * k));
}
static void slps(s512 *s)
{
    u8 in[64], t[64];
    for (int i = 0; i < 64; i++) in[i] = ref_pi[(u8)(s->q[i / 8] >> (8 * (i % 8)))];
    for (int i = 0; i < 8; i++) for (int k = 0; k < 8; k++) t[8 * i + k] = in[8 * k + i];
    for (int i = 0; i < 8; i++) {
        uint64_t r = 0;
        for (int k = 0; k < 8; k++) r ^= slt[k][t[8 * i + k]];
        s->q[i] = r;
    }
}
static void sx(s512 *a, const s512 *b) { for (int i = 0; i < 8; i++) a->q[i] ^= b->q[i]; }
static void sadd(s512 *a, const s512 *b)
{
    unsigned __int128 c = 0;
    for (int i = 0; i < 8; i++) { c += a->q[i]; c += b->q[i]; a->q[i] = (uint64_t)c; c >>= 64; }
}
static void sg(s512 *h, const s512 *N, const s512 *m)
{
    s512 K = *h, t = *m, C;
    sx(&K, N); slps(&K);
    for (int i = 0; i < 12; i++) {
        sx(&t, &K); slps(&t);
        memcpy(&C, ref_sb_C[i], 64);
        sx(&K, &C); slps(&K);
    }
    sx(&t, &K);
    sx(&t, h); sx(&t, m);
    *h = t;
}
void ref_streebog(int bits, const u8 *m, size_t len, u8 *out)
{
    s512 h, N, S, B, z;
    memset(&h, bits == 256 ? 1 : 0, 64);
    memset(&N, 0, 64); memset(&S, 0, 64); memset(&z, 0, 64);
    size_t i = 0;
    for (;;) {
        size_t n = len - i < 64 ? len - i : 64;
        u8 b[64] = {0};
        if (n) memcpy(b, m + i, n);
        if (n < 64) b[n] = 1;
        for (int k = 0; k < 8; k++) {
            B.q[k] = 0;
            for (int j = 0; j < 8; j++) B.q[k] |= (uint64_t)b[8 * k + j] << (8 * j);
        }
        sg(&h, &N, &B);
        s512 L; memset(&L, 0, 64); L.q[0] = n * 8;
        sadd(&N, &L);
        sadd(&S, &B);
        i += n;
        if (n < 64) break;
    }
    sg(&h, &z, &N);
    sg(&h, &z, &S);
    int o = bits == 256 ? 4 : 0;
    for (int k = o; k < 8; k++)
        for (int j = 0; j < 8; j++) out[8 * (k - o) + j] = (u8)(h.q[k] >> (8 * j));
}
int ref_hash_len(int h) { return h == 2 ? 64 : 32; }
void ref_hash(int h, const u8 *m, size_t len, u8 *out)
{
    if (h == 0) ref_gost94(SB_94CP, m, len, out);
    else if (h == 3) ref_gost94(SB_94TEST, m, len, out);
    else ref_streebog(h == 1 ? 256 : 512, m, len, out);
}
void ref_hmac(int h, const u8 *key, size_t klen, const u8 *m, size_t len, u8 *out)
{
    int bl = h == 0 || h == 3 ? 32 : 64, hl = ref_hash_len(h);
    u8 k[64] = {0}, *buf = malloc(bl + len + 64), in[64];
    if (klen > (size_t)bl) ref_hash(h, key, klen, k); else if (klen) memcpy(k, key, klen);
    for (int i = 0; i < bl; i++) buf[i] = k[i] ^ 0x36;
    if (len) memcpy(buf + bl, m, len);
    ref_hash(h, buf, bl + len, in);
    for (int i = 0; i < bl; i++) buf[i] = k[i] ^ 0x5c;
    memcpy(buf + bl, in, hl);
    ref_hash(h, buf, bl + hl, out);
    free(buf);
}
/* ---------------- KDFs ---------------- */
void ref_kdf_tree(const u8 *key, size_t klen, const u8 *label, size_t llen,
                  const u8 *seed, size_t slen, int R, size_t outlen, u8 *out)
{
    u8 L[8]; int ln = 0;
    uint64_t bits = (uint64_t)outlen * 8;
    for (int i = 7; i >= 0; i--) if (ln || (bits >> (8 * i)) & 0xff) L[ln++] = (u8)(bits >> (8 * i));
    u8 *b = malloc(4 + llen + 1 + slen + 8);
    for (size_t i = 1; 32 * (i - 1) < outlen; i++) {
        size_t p = 0;
        for (int j = R - 1; j >= 0; j--) b[p++] = (u8)(i >> (8 * j));
        if (llen) memcpy(b + p, label, llen);
        p += llen;
        b[p++] = 0;
        if (slen) memcpy(b + p, seed, slen);
        p += slen;
        memcpy(b + p, L, ln); p += ln;
        ref_hmac(1, key, klen, b, p, out + 32 * (i - 1));
    }
    free(b);
}
void ref_kdf256(const u8 *key, size_t klen, const u8 *label, size_t llen,
                const u8 *seed, size_t slen, u8 out[32])
{
    u8 *b = malloc(1 + llen + 1 + slen + 2); size_t p = 0;
    b[p++] = 1;
    memcpy(b + p, label, llen); p += llen;
    b[p++] = 0;
    memcpy(b + p, seed, slen); p += slen;
    b[p++] = 1; b[p++] = 0;
    ref_hmac(1, key, klen, b, p, out);
    free(b);
}
void ref_tlstree(bc_type t, const u8 key[32], uint64_t seq, u8 out[32])
{
    static const uint64_t c[2][3] = {
        { 0xFFFFFFC000000000ull, 0xFFFFFFFFFE000000ull, 0xFFFFFFFFFFFFF000ull },   /* Magma */
        { 0xFFFFFFFF00000000ull, 0xFFFFFFFFFFF80000ull, 0xFFFFFFFFFFFFFFC0ull } };  /* Kuznyechik */
    u8 k[32], s[8], o[32];
    memcpy(k, key, 32);
    for (int l = 0; l < 3; l++) {
        char lab[8];
        uint64_t v = seq & c[t == BC_KUZ][l];
        for (int j = 0; j < 8; j++) s[7 - j] = (u8)(v >> (8 * j));
        snprintf(lab, sizeof lab, "level%d", l + 1);
        ref_kdf256(k, 32, (u8 *)lab, 6, s, 8, o);
        memcpy(k, o, 32);
    }
    memcpy(out, k, 32);
}
/* ---------------- KExp15 ---------------- */
void ref_kexp15(bc_type t, const u8 key[32], const u8 *ckey, const u8 *mkey,
                const u8 *iv, u8 *out)
{
    int bs = t == BC_KUZ ? 16 : 8;
    u8 b[64], full[16] = {0}, tag[16];
    memcpy(b, iv, bs / 2); memcpy(b + bs / 2, key, 32);
    ref_omac(t, mkey, b, bs / 2 + 32, tag);
    memcpy(b, key, 32); memcpy(b + 32, tag, bs);
    memcpy(full, iv, bs / 2);
    ref_mode m = { t, SB_Z, M_CTR, 0, 0 };
    ref_crypt(&m, ckey, full, 1, b, 32 + bs, out);
}
int ref_kimp15(bc_type t, const u8 *in, const u8 *ckey, const u8 *mkey,
               const u8 *iv, u8 *out)
{
    int bs = t == BC_KUZ ? 16 : 8;
    u8 b[64], d[64], full[16] = {0}, tag[16];
    memcpy(full, iv, bs / 2);
    ref_mode m = { t, SB_Z, M_CTR, 0, 0 };
    ref_crypt(&m, ckey, full, 0, in, 32 + bs, d);
    memcpy(b, iv, bs / 2); memcpy(b + bs / 2, d, 32);
    ref_omac(t, mkey, b, bs / 2 + 32, tag);
    memcpy(out, d, 32);
    return !memcmp(tag, d + 32, bs);
}
/* ---------------- CryptoPro wrap ---------------- */
void ref_diversify(int sb, const u8 kek[32], const u8 ukm[8], u8 out[32])
{
    u8 k[32];
    memcpy(k, kek, 32);
    for (int i = 0; i < 8; i++) {
        uint32_t s1 = 0, s2 = 0;
        for (int j = 0; j < 8; j++)
            if (ukm[i] >> j & 1) s1 += ld(k + 4 * j, 0); else s2 += ld(k + 4 * j, 0);
        u8 S[8]; st(S, s1, 0); st(S + 4, s2, 0);
        ref_mode m = { BC_GOST89, sb, M_CFB, 0, 0 };
        u8 t[32];
        ref_crypt(&m, k, S, 1, k, 32, t);
        memcpy(k, t, 32);
    }
    memcpy(out, k, 32);
}
void ref_cpwrap(int sb, const u8 kek[32], const u8 ukm[8], const u8 cek[32], u8 out[44])
{
    u8 k[32]; bc b;
    ref_diversify(sb, kek, ukm, k);
    bc_init(&b, BC_GOST89, sb, k);
    memcpy(out, ukm, 8);
    for (int i = 0; i < 4; i++) bc_enc(&b, cek + 8 * i, out + 8 + 8 * i);
    ref_imit(sb, 0, k, ukm, cek, 32, 32, out + 40);
}
int ref_cpunwrap(int sb, const u8 kek[32], const u8 in[44], u8 out[32])
{
    u8 k[32], mac[4]; bc b;
    ref_diversify(sb, kek, in, k);
    bc_init(&b, BC_GOST89, sb, k);
    for (int i = 0; i < 4; i++) bc_dec(&b, in + 8 + 8 * i, out + 8 * i);
    ref_imit(sb, 0, k, in, out, 32, 32, mac);
    return !memcmp(mac, in + 40, 4);
}
/* ---------------- published known answers ---------------- */
static int hexs(const char *s, u8 *o)
{
    int n = 0; unsigned v;
    while (*s) { if (*s == ' ') { s++; continue; } sscanf(s, "%2x", &v); o[n++] = (u8)v; s += 2; }
    return n;
}
static int expect(const char *what, const u8 *got, const char *hex)
{
    u8 e[256]; int n = hexs(hex, e);
    if (!memcmp(got, e, n)) return 0;
    fprintf(stderr, "reference self-test failed: %s\n", what);
    return 1;
}
int ref_selftest(void)
{
    int bad = 0; u8 k[64], in[512], out[512], tag[16]; bc b;
    /* GOST R 34.12-2015 A.1, A.2 */
    hexs("8899aabbccddeeff0011223344556677fedcba98765432100123456789abcdef", k);
    bc_init(&b, BC_KUZ, 0, k);
    hexs("1122334455667700ffeeddccbbaa9988", in);
    bc_enc(&b, in, out); bad += expect("kuznyechik", out, "7f679d90bebc24305a468d42b9d4edcd");
    bc_dec(&b, out, out); bad += expect("kuznyechik dec", out, "1122334455667700ffeeddccbbaa9988");
    u8 km[32];
    hexs("ffeeddccbbaa99887766554433221100f0f1f2f3f4f5f6f7f8f9fafbfcfdfeff", km);
    bc_init(&b, BC_MAGMA, 0, km);
    hexs("fedcba9876543210", in);
    bc_enc(&b, in, out); bad += expect("magma", out, "4ee901e5c2d8ca3d");
    bc_dec(&b, out, out); bad += expect("magma dec", out, "fedcba9876543210");
    /* GOST R 34.13-2015 A.1.2 CTR, A.1.6 MAC */
    hexs("1122334455667700ffeeddccbbaa998800112233445566778899aabbcceeff0a112233445566778899aabbcceeff0a002233445566778899aabbcceeff0a0011", in);
    u8 iv[16] = {0}; hexs("1234567890abcef0", iv);
    ref_mode m = { BC_KUZ, 0, M_CTR, 0, 0 };
    ref_crypt(&m, k, iv, 1, in, 64, out);
    bad += expect("kuz ctr", out, "f195d8bec10ed1dbd57b5fa240bda1b885eee733f6a13e5df33ce4b33c45dee4a5eae88be6356ed3d5e877f13564a3a5cb91fab1f20cbab6d1c6d15820bdba73");
    ref_omac(BC_KUZ, k, in, 64, out); bad += expect("kuz mac", out, "336f4d296059fbe3");
    hexs("92def06b3c130a59db54c704f8189d204a98fb2e67a8024c8912409b17b57e41", in);
    ref_omac(BC_MAGMA, km, in, 32, out); bad += expect("magma mac", out, "154e7210");
    /* RFC 6986 */
    ref_streebog(512, (u8 *)"012345678901234567890123456789012345678901234567890123456789012", 63, out);
    bad += expect("streebog512 M1", out, "1b54d01a4af5b9d5cc3d86d68d285462b19abc2475222f35c085122be4ba1ffa00ad30f8767b3a82384c6574f024c311e2a481332b08ef7f41797891c1646f48");
    ref_streebog(256, (u8 *)"012345678901234567890123456789012345678901234567890123456789012", 63, out);
    bad += expect("streebog256 M1", out, "9d151eefd8590b89daa6ba6cb74af9275dd051026bb149a452fd84e5e57b5500");
    ref_streebog(256, (u8 *)"", 0, out);
    bad += expect("streebog256 empty", out, "3f539a213e97c802cc229d474c6aa32a825a360b2a933a949fd925208d9ce1bb");
    /* RFC 5831 and CryptoPro */
    ref_gost94(SB_94TEST, (u8 *)"This is message, length=32 bytes", 32, out);
    bad += expect("gost94 test", out, "b1c466d37519b82e8319819ff32595e047a28cb6f83eff1c6916a815a637fffa");
    ref_gost94(SB_94CP, (u8 *)"abc", 3, out);
    bad += expect("gost94 cp abc", out, "b285056dbf18d7392d7677369524dd14747459ed8143997e163b2986f92fd42c");
    /* RFC 9058 A.1 */
    u8 p[128], a[64];
    hexs("1122334455667700ffeeddccbbaa998800112233445566778899aabbcceeff0a112233445566778899aabbcceeff0a002233445566778899aabbcceeff0a0011aabbcc", p);
    hexs("0202020202020202010101010101010104040404040404040303030303030303ea0505050505050505", a);
    hexs("1122334455667700ffeeddccbbaa9988", iv);
    ref_mgm(BC_KUZ, k, iv, a, 41, p, 67, 1, out, tag);
    bad += expect("kuz mgm ct", out, "a9757b8147956e9055b8a33de89f42fc8075d2212bf9fd5bd3f7069aadc16b39497ab15915a6ba85936b5d0ea9f6851cc60c14d4d3f883d0ab94420695c76deb2c7552");
    bad += expect("kuz mgm tag", tag, "cf5d656f40c34f5c46e8bb0e29fcdb4c");
    hexs("ffeeddccbbaa998811223344556677008899aabbcceeff0a001122334455667799aabbcceeff0a001122334455667788aabbcceeff0a00112233445566778899aabbcc", p);
    hexs("01010101010101010202020202020202030303030303030304040404040404040505050505050505ea", a);
    hexs("12def06b3c130a59", iv);
    ref_mgm(BC_MAGMA, km, iv, a, 41, p, 67, 1, out, tag);
    bad += expect("magma mgm ct", out, "c795066c5f9ea03b85113342459185ae1f2e00d6bf2b785d940470b8bb9c8e7d9a5dd3731f7ddc70ec27cb0ace6fa57670f65c646abb75d547aa37c3bcb5c34e03bb9c");
    bad += expect("magma mgm tag", tag, "a7928069aa10fd10");
    /* RFC 8645 / R 1323565.1.017 CTR-ACPKM kuznyechik, N=256 bit */
    hexs("1122334455667700ffeeddccbbaa998800112233445566778899aabbcceeff0a112233445566778899aabbcceeff0a002233445566778899aabbcceeff0a001133445566778899aabbcceeff0a001122445566778899aabbcceeff0a001122335566778899aabbcceeff0a0011223344", in);
    memset(iv, 0, 16); hexs("1234567890abcef0", iv);
    ref_mode ma = { BC_KUZ, 0, M_CTR, 0, 32 };
    ref_crypt(&ma, k, iv, 1, in, 112, out);
    bad += expect("kuz ctr-acpkm", out, "f195d8bec10ed1dbd57b5fa240bda1b885eee733f6a13e5df33ce4b33c45dee44bceeb8f646f4c55001706275e85e800587c4df568d094393e4834afd08050 46cf30f57686aeece11cfc6c316b8a896edffd07ec813636460c4f3b743423163e6409a9c282fac8d469d221e7fbd6de5d");
    /* OMAC-ACPKM kuznyechik, N=256 bit, T*=768 bit */
    ref_omac_acpkm(BC_KUZ, k, 32, 96, in, 24, out);
    bad += expect("omac-acpkm 1", out, "b5367f47b62b995eeb2a648c5843145e");
    ref_omac_acpkm(BC_KUZ, k, 32, 96, in, 80, out);
    bad += expect("omac-acpkm 2", out, "fbb8dcee45bea67c35f58c5700898e5d");
    /* KDF_TREE (RFC 7836) */
    for (int i = 0; i < 32; i++) k[i] = (u8)i;
    u8 lab[4] = { 0x26, 0xbd, 0xb8, 0x78 }, seed[8]; hexs("af21434145656378", seed);
    ref_kdf256(k, 32, lab, 4, seed, 8, out);
    bad += expect("kdf256", out, "a1aa5f7de402d7b3d323f2991c8d4534013137010a83754fd0af6d7cd4922ed9");
    ref_kdf_tree(k, 32, lab, 4, seed, 8, 1, 64, out);
    bad += expect("kdf_tree", out, "22b6837845c6bef65ea71672b265831086d3c76aebe6dae91cad51d83f79d16b074c9330599d7f8d712fca54392f4ddde93751206b3584c8f43f9e6dc51531f9");
    return bad;
}
