/* DER-aware mutation: parse into a tree (also inside OCTET/BIT STRINGs), change it, write it back. */
#ifndef DERMUT_H
#define DERMUT_H
#include "vh.h"
typedef struct dn { int tag, bit, raw; struct dn **k; int nk; u8 *v; size_t n; } dn;    /* bit: BIT STRING prefix octet present */
static void dn_free(dn *x) { if (!x) return; for (int i = 0; i < x->nk; i++) dn_free(x->k[i]); free(x->k); free(x->v); free(x); }
static int dn_list(const u8 *p, size_t n, dn ***out, int *cnt, int depth);
static dn *dn_one(const u8 **pp, const u8 *e, int depth)
{
    const u8 *p = *pp; size_t l; if (e - p < 2 || (p[0] & 0x1f) == 0x1f) return NULL;
    int tag = *p++;
    if (*p < 128) l = *p++;
    else { int k = *p++ & 127; if (k < 1 || k > 3 || e - p < k) return NULL; for (l = 0; k--;) l = l << 8 | *p++; }
    if (l > (size_t)(e - p)) return NULL;
    dn *x = calloc(1, sizeof *x); HARN(x); x->tag = tag;
    int ok = 0;
    if (depth < 12) {
        if (tag & 0x20) ok = dn_list(p, l, &x->k, &x->nk, depth + 1);
        else if (tag == 4 && l > 1) ok = dn_list(p, l, &x->k, &x->nk, depth + 1);
        else if (tag == 3 && l > 2 && !p[0]) { ok = dn_list(p + 1, l - 1, &x->k, &x->nk, depth + 1); x->bit = ok; }
    }
    if (!ok) { x->v = malloc(l + 1); memcpy(x->v, p, l); x->n = l; }
    *pp = p + l;
    return x;
}
static int dn_list(const u8 *p, size_t n, dn ***out, int *cnt, int depth)
{
    const u8 *e = p + n; dn **k = NULL; int c = 0;
    while (p < e) {
        dn *x = dn_one(&p, e, depth);
        if (!x) { while (c) dn_free(k[--c]); free(k); return 0; }
        k = realloc(k, (c + 1) * sizeof *k); k[c++] = x;
    }
    *out = k; *cnt = c;
    return c > 0;
}
static size_t dn_len(const dn *x);
static size_t dn_body(const dn *x) { if (!x->nk) return x->n + x->bit; size_t s = x->bit; for (int i = 0; i < x->nk; i++) s += dn_len(x->k[i]); return s; }
static size_t dn_len(const dn *x) { if (x->raw) return x->n; size_t b = dn_body(x); return b + (b < 128 ? 2 : b < 256 ? 3 : b < 65536 ? 4 : 5); }
static u8 *dn_put(const dn *x, u8 *o)
{
    if (x->raw) { memcpy(o, x->v, x->n); return o + x->n; }
    size_t b = dn_body(x); *o++ = x->tag;
    if (b < 128) *o++ = b; else if (b < 256) { *o++ = 0x81; *o++ = b; } else if (b < 65536) { *o++ = 0x82; *o++ = b >> 8; *o++ = b; } else { *o++ = 0x83; *o++ = b >> 16; *o++ = b >> 8; *o++ = b; }
    if (x->bit) *o++ = 0;
    if (!x->nk) { memcpy(o, x->v, x->n); return o + x->n; }
    for (int i = 0; i < x->nk; i++) o = dn_put(x->k[i], o);
    return o;
}
static dn *dn_copy(const dn *x)
{
    dn *y = calloc(1, sizeof *y); HARN(y); *y = *x;
    if (x->v) { y->v = malloc(x->n + 1); memcpy(y->v, x->v, x->n); }
    if (x->nk) { y->k = malloc(x->nk * sizeof *y->k); for (int i = 0; i < x->nk; i++) y->k[i] = dn_copy(x->k[i]); }
    return y;
}
static void dn_collect(dn *x, dn **a, int *n, int max) { if (*n < max) a[(*n)++] = x; for (int i = 0; i < x->nk; i++) dn_collect(x->k[i], a, n, max); }
static void dn_leaf(dn *x, const u8 *v, size_t n) { for (int i = 0; i < x->nk; i++) dn_free(x->k[i]); free(x->k); x->k = NULL; x->nk = 0; free(x->v); x->v = malloc(n + 1); if (n) memcpy(x->v, v, n); x->n = n; x->bit = 0; }
/* one structural change; oids: pool of OID contents to substitute */
typedef struct { const u8 *p; size_t n; } dn_blob;
static int dn_mutate(dn *root, const dn_blob *oids, int noids, char *what)
{
    dn *a[400]; int n = 0; dn_collect(root, a, &n, 400);
    dn *x = a[rn(n)], *y = a[rn(n)]; u8 t[600];
    int op = rn(14);
    /* favour leaves */
    if (x->nk && chance(1, 2)) x = a[rn(n)];
    if (noids && chance(1, 8)) { for (int i = 0; i < 20 && x->tag != 6; i++) x = a[rn(n)]; op = 12; }
    sprintf(what, "op %d tag %02x", op, x->tag);
    switch (op) {
    case 0: x->tag = chance(1, 2) ? (int)rn(256) : (int)"\x02\x03\x04\x05\x06\x30\x31\xa0\x80\xa1"[rn(10)]; break;
    case 1: dn_leaf(x, t, 0); break;
    case 2: if (x->nk) { int i = rn(x->nk); dn_free(x->k[i]); memmove(x->k + i, x->k + i + 1, (x->nk - i - 1) * sizeof *x->k); if (!--x->nk) { free(x->k); x->k = NULL; x->v = malloc(1); x->n = 0; } } else if (x->n) x->n--; break;
    case 3: if (x->nk) { int i = rn(x->nk); x->k = realloc(x->k, (x->nk + 1) * sizeof *x->k); x->k[x->nk++] = dn_copy(x->k[i]); } else { size_t l = rn(64); rbytes(t, l); x->v = realloc(x->v, x->n + l + 1); memcpy(x->v + x->n, t, l); x->n += l; } break;
    case 4: if (x->nk > 1) { int i = rn(x->nk), j = rn(x->nk); dn *z = x->k[i]; x->k[i] = x->k[j]; x->k[j] = z; } else if (!x->nk && x->n) x->v[rn(x->n)] ^= 1 << rn(8); break;
    case 5: if (x != y) { dn *c = dn_copy(y); u8 *b = malloc(dn_len(c) + 8); size_t l = dn_put(c, b) - b; dn_leaf(x, b, l); x->raw = 1; free(b); dn_free(c); } break;
    case 6: if (!x->nk) { size_t l = rn(x->n + 1); x->n = l; } break;
    case 7: { size_t l = rn(sizeof t); rbytes(t, l); dn_leaf(x, t, l); break; }
    case 8: { size_t l = x->nk ? 40 : x->n; if (l > sizeof t) l = sizeof t; memset(t, chance(1, 2) ? 0 : 0xff, l); dn_leaf(x, t, l); break; }
    case 9: if (!x->nk && x->n) x->v[rn(x->n)] ^= 1 << rn(8); break;
    case 10: if (!x->nk) { size_t l = rn(200); rcontent(t, l); dn_leaf(x, t, l); } break;
    case 11: if (!x->nk && x->n > 1) { size_t l = x->n / 2; memmove(x->v, x->v + l, x->n - l); x->n -= l; } break;
    case 12: if (x->tag == 6 && noids) { const dn_blob *o = &oids[rn(noids)]; dn_leaf(x, o->p, o->n); } else if (x->tag == 6 && x->n) x->v[x->n - 1] = rnd() & 127; break;
    case 13: { u8 b[2100]; size_t l = dn_len(x); if (l > 2000) break; dn_put(x, b); if (l > 1) b[1 + rn(l > 4 ? 3 : 1)] = chance(1, 2) ? 0x80 + rn(6) : rnd(); dn_leaf(x, b, l); x->raw = 1; break; }     /* length field */
    }
    return op;
}
/* mutated copy of p (DER or not); returns its length, result in malloc'ed *out of exactly that size */
static size_t der_mutate(const u8 *p, size_t n, const dn_blob *oids, int noids, u8 **out, char *what)
{
    const u8 *q = p; dn *r = NULL; u8 *b; size_t l; int rounds = 1 + (chance(1, 3) ? rn(4) : 0);
    what[0] = 0;
    if (chance(3, 4)) r = dn_one(&q, p + n, 0);
    if (r && q == p + n) {
        while (rounds--) dn_mutate(r, oids, noids, what);
        l = dn_len(r); b = malloc(l + 1); dn_put(r, b);
    } else {
        b = malloc(n + 64); memcpy(b, p, n); l = n;
        while (rounds-- && l) {
            size_t pos = rn(l);
            switch (rn(5)) {
            case 0: b[pos] ^= 1 << rn(8); break;
            case 1: b[pos] = rnd(); break;
            case 2: l = pos; break;
            case 3: { size_t x = 1 + rn(8); if (x > l - pos) x = l - pos; memmove(b + pos, b + pos + x, l - pos - x); l -= x; break; }
            case 4: if (l < n + 32) { memmove(b + pos + 1, b + pos, l - pos); b[pos] = rnd(); l++; } break;
            }
        }
        sprintf(what, "octets");
    }
    dn_free(r);
    u8 *f = malloc(l ? l : 1); memcpy(f, b, l); free(b);
    *out = f;
    return l;
}
#endif
