/* Signatures, nonces, curve arithmetic (P08-P11). */
#include "pk.h"
#include "gost_lcl.h"
#define NK 3
static pk_key K[NK];
static void free_keys(void) { for (int i = 0; i < NK; i++) if (K[i].t) pk_free(&K[i]); }

static void check_pub(pk_key *k)
{
    u8 xy[128];
    ENG(pk_get_xy(k->pk, k->n, xy));
    if (memcmp(xy, k->xy, 2 * k->n)) vh_viol("public-key", "%s %s: public key is not d*G: d=%s got %s want %s", k->how, k->t->pset, pk_bnh(k->d), vh_hex(xy, 2 * k->n), vh_hex(k->xy, 2 * k->n));
    vh_count("public_keys_checked", 1);
}
/* digest values, some of them congruent to 0 or tiny or huge modulo q */
static int rdigest(const rcurve *c, u8 *d, int dl)
{
    int kind = rn(8);
    memset(d, 0, 64);
    switch (kind) {
    case 0: case 1: {   /* multiples of q and neighbours */
        BIGNUM *m = BN_new(); BN_copy(m, c->q);
        BIGNUM *lim = BN_new(); BN_zero(lim); BN_set_bit(lim, dl * 8);
        unsigned mul = rn(4); BN_mul_word(m, mul);
        if (kind == 1) BN_add_word(m, rn(3));
        if (BN_cmp(m, lim) >= 0) BN_copy(m, c->q);
        if (BN_cmp(m, lim) >= 0) BN_zero(m);
        HARN(BN_bn2lebinpad(m, d, dl) == dl);
        BN_free(m); BN_free(lim);
        break; }
    case 2: memset(d, 0xff, dl); break;
    case 3: rcontent(d, dl); break;
    default: rbytes(d, dl);
    }
    return kind;
}
static int eng_verify(EVP_PKEY *pk, const u8 *sig, size_t sl, const u8 *dg, int dl)
{
    EVP_PKEY_CTX *c;
    ENG(c = EVP_PKEY_CTX_new(pk, NULL));
    ENG(EVP_PKEY_verify_init(c) > 0);
    int r = EVP_PKEY_verify(c, sig, sl, dg, dl);
    EVP_PKEY_CTX_free(c);
    if (r <= 0) ERR_clear_error();
    return r > 0;
}
static void chunked(EVP_MD_CTX *m, int sign, const u8 *p, size_t n)
{
    size_t o = 0;
    while (o < n) {
        size_t l = chance(1, 4) ? n - o : 1 + rn(n - o < 70 ? n - o : 70);
        if (sign) ENG(EVP_DigestSignUpdate(m, p + o, l) > 0); else ENG(EVP_DigestVerifyUpdate(m, p + o, l) > 0);
        o += l;
    }
}
static void sign_case(void)
{
    int nk = 1 + rn(NK);
    free_keys();
    for (int i = 0; i < nk; i++) {
        const pk_type *t = i && chance(1, 2) ? K[0].t : pk_rtype();
        pk_make(&K[i], t); check_pub(&K[i]);
    }
    EVP_PKEY_CTX *sc[NK] = {0};
    int ops = 2 + rn(4);
    for (int o = 0; o < ops; o++) {
        int ki = rn(nk); pk_key *k = &K[ki];
        u8 dg[64], sig[160], msg[600]; size_t sl = 0;
        int dl = k->n, dk;
        int what = rn(4);
        vh_log("op %d key %d %s %s d=%s", what, ki, OBJ_nid2sn(k->t->alg), k->t->pset, pk_bnh(k->d));
        switch (what) {
        case 0: case 1: {       /* raw signing, context reused for several signatures or copied */
            dk = rdigest(k->c, dg, dl);
            EVP_PKEY_CTX *c = sc[ki];
            if (!c || chance(1, 3)) {
                EVP_PKEY_CTX_free(sc[ki]);
                ENG(c = sc[ki] = EVP_PKEY_CTX_new(k->pk, NULL));
                ENG(EVP_PKEY_sign_init(c) > 0);
                if (chance(1, 2)) ENG(EVP_PKEY_CTX_set_signature_md(c, pk_md(k->t)) > 0);
            }
            EVP_PKEY_CTX *u = c, *dup = NULL;
            if (chance(1, 3)) { ENG(dup = EVP_PKEY_CTX_dup(c)); u = dup; }
            if (chance(1, 2)) { ENG(EVP_PKEY_sign(u, NULL, &sl, dg, dl) > 0); if (sl < 2 * (size_t)k->n) vh_viol("sig-size", "size query says %zu", sl); }
            sl = sizeof sig;
            memset(sig, 0xa5, sizeof sig);
            ENG(EVP_PKEY_sign(u, sig, &sl, dg, dl) > 0);
            for (size_t i = 2 * k->n; i < sizeof sig; i++) if (sig[i] != 0xa5) { vh_viol("sig-overrun", "bytes after the signature written"); break; }
            EVP_PKEY_CTX_free(dup);
            vh_sig("raw|%s|%s|%s|dk%d|%d", OBJ_nid2sn(k->t->alg), k->t->pset, k->how, dk, BN_num_bits(k->d) / 16);
            goto judge; }
        case 2: {               /* message signing */
            size_t ml = rlen(sizeof msg); rcontent(msg, ml);
            EVP_MD_CTX *m = EVP_MD_CTX_new(); EVP_PKEY_CTX *pc = NULL;
            int expl = chance(1, 2);
            ENG(EVP_DigestSignInit(m, &pc, expl ? pk_md(k->t) : NULL, NULL, k->pk) > 0);
            if (chance(1, 3)) {
                size_t h = rn(ml + 1);
                chunked(m, 1, msg, h);
                EVP_MD_CTX *m2 = EVP_MD_CTX_new();
                ENG(EVP_MD_CTX_copy_ex(m2, m));
                if (chance(1, 2)) { EVP_DigestSignUpdate(m, "x", 1); sl = sizeof sig; if (chance(1, 2)) EVP_DigestSignFinal(m, sig, &sl); }
                EVP_MD_CTX_free(m); m = m2;
                chunked(m, 1, msg + h, ml - h);
            } else chunked(m, 1, msg, ml);
            if (chance(1, 2)) { ENG(EVP_DigestSignFinal(m, NULL, &sl) > 0); if (sl < 2 * (size_t)k->n) vh_viol("sig-size", "DigestSignFinal size query says %zu", sl); }
            sl = sizeof sig; ENG(EVP_DigestSignFinal(m, sig, &sl) > 0);
            EVP_MD_CTX_free(m);
            ref_hash(k->t->hash, msg, ml, dg);
            m = EVP_MD_CTX_new();
            ENG(EVP_DigestVerifyInit(m, NULL, pk_md(k->t), NULL, k->pub) > 0);
            chunked(m, 0, msg, ml);
            if (EVP_DigestVerifyFinal(m, sig, sl) != 1) vh_viol("own-signature-rejected", "%s %s: message signature not accepted", OBJ_nid2sn(k->t->alg), k->t->pset);
            EVP_MD_CTX_free(m);
            vh_count("messages_signed", 1);
            vh_sig("msg|%s|%s|%s|%zu", OBJ_nid2sn(k->t->alg), k->t->pset, k->how, ml / 8);
            goto judge; }
        case 3: {               /* reference signature must be accepted */
            dk = rdigest(k->c, dg, dl);
            BIGNUM *kk = BN_new(); pk_rscalar(k->c, kk);
            if (!ref_sign_ec(k->c, k->d, kk, dg, dl, sig)) { BN_free(kk); break; }
            if (!eng_verify(chance(1, 2) ? k->pub : k->pk, sig, 2 * k->n, dg, dl))
                vh_viol("reference-signature-rejected", "%s %s d=%s k=%s dg=%s sig=%s", OBJ_nid2sn(k->t->alg), k->t->pset, pk_bnh(k->d), pk_bnh(kk), vh_hex(dg, dl), vh_hex(sig, 2 * k->n));
            vh_count("reference_signatures_accepted", 1);
            vh_sig("ref|%s|%s|dk%d|%d|%d", OBJ_nid2sn(k->t->alg), k->t->pset, dk, BN_num_bits(k->d) / 16, BN_num_bits(kk) / 16);
            BN_free(kk);
            break; }
        }
        continue;
    judge:
        if (sl != 2 * (size_t)k->n) { vh_viol("sig-length", "signature of %zu octets", sl); continue; }
        if (!ref_verify_ec(k->c, k->xy, dg, dl, sig, sl))
            vh_viol("signature-wrong", "%s %s: reference rejects engine signature d=%s dg=%s sig=%s", OBJ_nid2sn(k->t->alg), k->t->pset, pk_bnh(k->d), vh_hex(dg, dl), vh_hex(sig, sl));
        if (!eng_verify(chance(1, 2) ? k->pub : k->pk, sig, sl, dg, dl))
            vh_viol("own-signature-rejected", "%s %s d=%s dg=%s sig=%s", OBJ_nid2sn(k->t->alg), k->t->pset, pk_bnh(k->d), vh_hex(dg, dl), vh_hex(sig, sl));
        vh_count("signatures_checked", 1);
        vh_sample("sign %s %s d=%s dg=%s sig=%s", OBJ_nid2sn(k->t->alg), k->t->pset, pk_bnh(k->d), vh_hex(dg, dl), vh_hex(sig, sl));
    }
    /* a digest that does not belong to the key's algorithm is refused */
    if (chance(1, 4)) {
        pk_key *k = &K[0];
        static const int h[] = {NID_id_GostR3411_94, NID_id_GostR3411_2012_256, NID_id_GostR3411_2012_512, NID_sha256};
        int x = rn(4);
        if (x != k->t->hash) {
            const EVP_MD *md = EVP_get_digestbynid(h[x]); EVP_PKEY_CTX *c; HARN(md);
            ENG(c = EVP_PKEY_CTX_new(k->pk, NULL)); ENG(EVP_PKEY_sign_init(c) > 0);
            if (EVP_PKEY_CTX_set_signature_md(c, md) > 0) vh_viol("foreign-digest-accepted", "%s accepts %s", OBJ_nid2sn(k->t->alg), OBJ_nid2sn(h[x]));
            ERR_clear_error();
            EVP_PKEY_CTX_free(c);
            vh_count("foreign_digests_refused", 1);
        }
    }
    for (int i = 0; i < NK; i++) EVP_PKEY_CTX_free(sc[i]);
}

/* ---- P09 ---- */
static void put(const rcurve *c, const BIGNUM *b, u8 *o)
{
    if (BN_num_bytes(b) > c->n) memset(o, 0xff, c->n); else HARN(BN_bn2binpad(b, o, c->n) == c->n);
}
static void verify_case(void)
{
    free_keys();
    const pk_type *t = pk_rtype();
    pk_make(&K[0], t); pk_make(&K[1], t);
    pk_key *k = &K[0]; const rcurve *c = k->c; int n = k->n;
    u8 dg[64], sig[128], s2[300];
    int dl = n; rdigest(c, dg, dl);
    BIGNUM *kk = BN_new(), *b = BN_new(), *x = BN_new(); BN_CTX *bx = BN_CTX_new();
    pk_rscalar(c, kk);
    if (!ref_sign_ec(c, k->d, kk, dg, dl, sig)) goto end;
    EVP_PKEY_CTX *vc; ENG(vc = EVP_PKEY_CTX_new(k->pub, NULL)); ENG(EVP_PKEY_verify_init(vc) > 0);
    EVP_PKEY_CTX *vc1; ENG(vc1 = EVP_PKEY_CTX_new(K[1].pub, NULL)); ENG(EVP_PKEY_verify_init(vc1) > 0);
    int alts = 6 + rn(6);
    for (int a = 0; a < alts; a++) {
        size_t sl = 2 * n; const pk_key *vk = k; u8 d2[64]; int dl2 = dl, kind = rn(20);
        memcpy(s2, sig, sl); memset(s2 + sl, 0, sizeof s2 - sl); memcpy(d2, dg, 64);
        switch (kind) {
        case 0: s2[rn(sl)] ^= 1 << rn(8); break;
        case 1: d2[rn(dl)] ^= 1 << rn(8); break;
        case 2: vk = &K[1]; break;
        case 3: memcpy(s2, sig + n, n); memcpy(s2 + n, sig, n); break;
        case 4: memset(s2, 0, n); break;
        case 5: memset(s2 + n, 0, n); break;
        case 6: { int h = rn(2); HARN(BN_bin2bn(sig + h * n, n, b)); HARN(BN_add(b, b, c->q)); put(c, b, s2 + h * n); break; }
        case 7: { int h = rn(2); HARN(BN_copy(b, c->q)); if (chance(1, 2)) BN_add_word(b, rn(3)); put(c, b, s2 + h * n); break; }
        case 8: { int h = rn(2); HARN(BN_bin2bn(sig + h * n, n, b)); HARN(BN_sub(b, c->q, b)); put(c, b, s2 + h * n); break; }
        case 9: sl = rn(2 * n); break;
        case 10: sl += 1 + rn(9); break;                            /* trailing octets */
        case 11: {                                                  /* halves padded with leading zeros */
            int pad = 1 + rn(4);
            memset(s2, 0, sizeof s2); memcpy(s2 + pad, sig, n); memcpy(s2 + n + 2 * pad, sig + n, n); sl += 2 * pad; break; }
        case 12: {                                                  /* combination is the point at infinity: s = r*d */
            HARN(BN_bin2bn(s2 + n, n, b)); HARN(BN_mod_mul(b, b, k->d, c->q, bx)); put(c, b, s2); break; }
        case 13: {                                                  /* random r, s in range */
            pk_rscalar(c, b); put(c, b, s2); pk_rscalar(c, b); put(c, b, s2 + n); break; }
        case 14: {                                                  /* digest changed by a multiple of q: e unchanged, stays valid */
            HARN(BN_lebin2bn(dg, dl, b)); HARN(BN_add(b, b, c->q));
            if (BN_num_bytes(b) <= dl) HARN(BN_bn2lebinpad(b, d2, dl) == dl);
            break; }
        case 15: {                                                  /* big/little-endian confusion */
            for (int i = 0; i < dl; i++) d2[i] = dg[dl - 1 - i];
            break; }
        case 16: {
            for (int h = 0; h < 2; h++) for (int i = 0; i < n; i++) s2[h * n + i] = sig[h * n + n - 1 - i];
            break; }
        case 17: {                                                  /* fresh valid signature of the same digest */
            pk_rscalar(c, x); if (!ref_sign_ec(c, k->d, x, dg, dl, s2)) memcpy(s2, sig, sl);
            break; }
        case 18: sl = 0; break;
        case 19: break;                                             /* the signature itself */
        }
        int want = ref_verify_ec(c, vk->xy, d2, dl2, s2, sl);
        vh_log("alteration %d sl %zu want %d", kind, sl, want);
        int got = EVP_PKEY_verify(vk == k ? vc : vc1, s2, sl, d2, dl2);
        if (got <= 0) ERR_clear_error();
        if ((got > 0) != want)
            vh_viol(want ? "valid-rejected" : "invalid-accepted", "%s %s alteration %d: engine says %d: pub=%s dg=%s sig(%zu)=%s", OBJ_nid2sn(t->alg), t->pset, kind, got, vh_hex(vk->xy, 2 * n), vh_hex(d2, dl2), sl, vh_hex(s2, sl));
        vh_count(want ? "valid_accepted" : "invalid_rejected", 1);
        vh_sig("%s|%s|%d|%d|%d", OBJ_nid2sn(t->alg), t->pset, kind, want, kind == 9 || kind == 10 ? (int)sl : BN_num_bits(k->d) / 64);
        if (a == 0) vh_sample("verify %s %s alteration %d expect %d sig=%s", OBJ_nid2sn(t->alg), t->pset, kind, want, vh_hex(s2, sl));
    }
    EVP_PKEY_CTX_free(vc); EVP_PKEY_CTX_free(vc1);
end:
    BN_free(kk); BN_free(b); BN_free(x); BN_CTX_free(bx);
}
/* message-level soundness: a signed message altered anywhere is rejected */
static void vmsg_case(void)
{
    free_keys();
    const pk_type *t = pk_rtype(); pk_make(&K[0], t); pk_key *k = &K[0];
    u8 msg[700], dg[64], sig[128]; size_t ml = 1 + rlen(600); rcontent(msg, ml);
    BIGNUM *kk = BN_new(); pk_rscalar(k->c, kk);
    ref_hash(t->hash, msg, ml, dg);
    if (ref_sign_ec(k->c, k->d, kk, dg, k->n, sig)) {
        EVP_MD_CTX *m = EVP_MD_CTX_new();
        for (int a = 0; a < 5; a++) {
            u8 m2[800], s2[128]; size_t l2 = ml, sl = 2 * k->n; int kind = rn(7), want = 0;
            memcpy(m2, msg, ml); memcpy(s2, sig, sl);
            switch (kind) {
            case 0: want = 1; break;
            case 1: m2[rn(ml)] ^= 1 << rn(8); break;
            case 2: l2 = rn(ml); break;
            case 3: m2[l2++] = chance(1, 2) ? 0 : rnd(); break;
            case 4: if (ml > 64) { u8 x[32]; memcpy(x, m2, 32); memcpy(m2, m2 + 32, 32); memcpy(m2 + 32, x, 32); want = !memcmp(m2, msg, ml); } else want = 1; break;
            case 5: s2[rn(sl)] ^= 1 << rn(8); break;
            case 6: l2 = 0; break;
            }
            if (chance(1, 2)) { EVP_MD_CTX_free(m); m = EVP_MD_CTX_new(); } else EVP_MD_CTX_reset(m);
            ENG(EVP_DigestVerifyInit(m, NULL, pk_md(t), NULL, k->pub) > 0);
            int got;
            if (chance(1, 4)) got = EVP_DigestVerify(m, s2, sl, m2, l2);
            else { chunked(m, 0, m2, l2); got = EVP_DigestVerifyFinal(m, s2, sl); }
            if (got <= 0) ERR_clear_error();
            if ((got > 0) != want) vh_viol(want ? "valid-message-rejected" : "altered-message-accepted", "%s %s kind %d len %zu->%zu", OBJ_nid2sn(t->alg), t->pset, kind, ml, l2);
            vh_count(want ? "valid_messages" : "altered_messages", 1);
            vh_sig("m|%s|%s|%d|%zu", OBJ_nid2sn(t->alg), t->pset, kind, ml / 16);
        }
        EVP_MD_CTX_free(m);
    }
    BN_free(kk);
}

/* ---- P11 ---- */
static void bigscalar(const rcurve *c, BIGNUM *k)
{
    if (chance(1, 6)) BN_zero(k); else pk_rscalar(c, k);
}
static void curve_case(void)
{
    static EC_KEY *ek[16]; const pk_type *t = pk_rtype(); const rcurve *c = &ref_curves[t->rc]; int n = c->n;
    EC_KEY *ec = EC_KEY_new();
    BN_CTX *bx = BN_CTX_new();
    (void)ek;
    ENG(fill_GOST_EC_params(ec, t->curve));
    const EC_GROUP *g = EC_KEY_get0_group(ec);
    BIGNUM *p = BN_new(), *a = BN_new(), *b = BN_new(), *h = BN_new(), *k1 = BN_new(), *k2 = BN_new(), *j = BN_new();
    u8 xy[128], want[128], got[128];
    ENG(EC_GROUP_get_curve(g, p, a, b, bx)); ENG(EC_GROUP_get_cofactor(g, h, bx));
    if (BN_cmp(p, c->p) || BN_cmp(a, c->a) || BN_cmp(b, c->b) || BN_cmp(EC_GROUP_get0_order(g), c->q) || !BN_is_word(h, c->h) || EC_GROUP_get_curve_name(g) != t->curve)
        vh_viol("curve-parameters", "%s: parameters differ from the standard", t->pset);
    ENG(EC_POINT_get_affine_coordinates(g, EC_GROUP_get0_generator(g), p, a, bx));
    if (BN_cmp(p, c->x) || BN_cmp(a, c->y)) vh_viol("curve-parameters", "%s: base point differs", t->pset);
    for (int it = 0; it < 4; it++) {
        EC_POINT *P = EC_POINT_new(g), *R = EC_POINT_new(g), *W = EC_POINT_new(c->g), *V = EC_POINT_new(c->g), *Q;
        int op = rn(3), rel = rn(8), wi, gi, ok;
        bigscalar(c, k1); bigscalar(c, k2);
        /* the point: j*G with j related to the scalars */
        switch (rel) {
        case 0: BN_one(j); break;
        case 1: HARN(BN_sub(j, c->q, BN_value_one())); break;
        case 2: BN_set_word(j, 1 + rn(40)); if (chance(1, 2)) HARN(BN_sub(j, c->q, j)); break;
        case 3: BN_zero(j); BN_set_bit(j, rn(n * 8 - 3)); HARN(BN_nnmod(j, j, c->q, bx)); break;
        default: pk_rscalar(c, j);
        }
        if (BN_is_zero(j)) BN_one(j);
        if (op == 2 && chance(1, 3)) {      /* n*G + m*Q = O, or n*G = m*Q */
            HARN(BN_mod_mul(k1, j, k2, c->q, bx));
            if (chance(1, 2) && !BN_is_zero(k1)) HARN(BN_sub(k1, c->q, k1));
            rel += 100;
        }
        HARN(ref_mul(c, j, NULL, xy));
        HARN(BN_lebin2bn(xy, n, p) && BN_lebin2bn(xy + n, n, a));
        ENG(EC_POINT_set_affine_coordinates(g, P, p, a, bx));
        HARN(Q = ref_point(c, xy));
        if (op == 0) {
            ok = gost_ec_point_mul(g, R, k1, NULL, NULL, bx);
            wi = ref_mul(c, k1, NULL, want);
        } else if (op == 1) {
            /* the engine multiplies by the cofactor here */
            ok = gost_ec_point_mul(g, R, NULL, P, k1, bx);
            HARN(BN_copy(j, k1)); BN_mul_word(j, c->h);
            wi = ref_mul(c, j, Q, want);
        } else {
            ok = gost_ec_point_mul(g, R, k1, P, k2, bx);
            u8 t1[128], t2[128]; EC_POINT *A, *B;
            int i1 = ref_mul(c, k1, NULL, t1), i2 = ref_mul(c, k2, Q, t2);
            EC_POINT_set_to_infinity(c->g, W);
            if (i1) { A = ref_point(c, t1); HARN(EC_POINT_add(c->g, W, W, A, bx)); EC_POINT_free(A); }
            if (i2) { B = ref_point(c, t2); HARN(EC_POINT_add(c->g, W, W, B, bx)); EC_POINT_free(B); }
            wi = ref_point_xy(c, W, want);
        }
        if (!ok) vh_viol("mul-fails", "%s op %d n=%s m=%s Q=%s", t->pset, op, pk_bnh(k1), pk_bnh(k2), vh_hex(xy, 2 * n));
        else {
            gi = EC_POINT_is_at_infinity(g, R) ? 0 : 1;
            if (gi) {
                ENG(EC_POINT_get_affine_coordinates(g, R, p, a, bx));
                HARN(BN_bn2lebinpad(p, got, n) == n && BN_bn2lebinpad(a, got + n, n) == n);
            }
            if (gi != wi || (gi && memcmp(got, want, 2 * n)))
                vh_viol("mul-wrong", "%s op %d rel %d n=%s m=%s Q=%s got %s want %s", t->pset, op, rel, pk_bnh(k1), pk_bnh(k2), vh_hex(xy, 2 * n), gi ? vh_hex(got, 2 * n) : "O", wi ? vh_hex(want, 2 * n) : "O");
            vh_count(op == 0 ? "mul_base" : op == 1 ? "mul_point" : "mul_two", 1);
            if (!wi) vh_count("results_at_infinity", 1);
        }
        vh_sig("%s|%d|%d|%d|%d|%d", t->pset, op, rel, BN_num_bits(k1) / 8, op == 2 ? BN_num_bits(k2) / 32 : 0, wi);
        if (it == 0) vh_sample("%s op %d n=%s m=%s infinity=%d", t->pset, op, pk_bnh(k1), pk_bnh(k2), !wi);
        EC_POINT_free(P); EC_POINT_free(R); EC_POINT_free(W); EC_POINT_free(V); EC_POINT_free(Q);
    }
    EC_KEY_free(ec); BN_CTX_free(bx);
    BN_free(p); BN_free(a); BN_free(b); BN_free(h); BN_free(k1); BN_free(k2); BN_free(j);
}

/* ---- P10 ---- */
static const RAND_METHOD *orig;
static long drawn, draws, fail_at = -1, flip_at = -1; static int failret;
static uint64_t rs; static u8 drawlen[64];
static uint64_t sm(void) { uint64_t z = (rs += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static const rcurve *force_c; static int force_kind, force_n;
static int forced(unsigned char *b, int n)
{
    BIGNUM *x = BN_dup(force_c->q); int ok = 0;
    switch (force_kind) {
    case 0: BN_zero(x); break;
    case 1: BN_zero(x); BN_set_bit(x, 8 * n); BN_sub_word(x, 1); break;
    case 2: break;
    case 3: BN_add_word(x, 1); break;
    case 4: BN_sub_word(x, 1); break;
    case 5: BN_one(x); break;
    case 6: BN_lshift1(x, x); break;
    }
    if (BN_num_bytes(x) <= n) ok = BN_bn2binpad(x, b, n) == n;
    BN_free(x);
    return ok;
}
static int hk_bytes(unsigned char *b, int n)
{
    if (draws < force_n && forced(b, n)) { drawlen[draws < 64 ? draws : 63] = n; draws++; drawn += n; return 1; }
    if (draws < 64) drawlen[draws] = n;
    if (draws++ == fail_at) { return failret; }
    for (int i = 0; i < n; i++) {
        b[i] = sm() >> 11;
        if (flip_at >= 0 && (drawn + i) == flip_at / 8) b[i] ^= 1 << (flip_at & 7);
    }
    drawn += n;
    return 1;
}
static int hk_status(void) { return 1; }
static const RAND_METHOD hk = {NULL, hk_bytes, NULL, NULL, hk_bytes, hk_status};
static void hook(uint64_t seed, long fail, long flip) { rs = seed; drawn = draws = 0; fail_at = fail; flip_at = flip; RAND_set_rand_method(&hk); }
static void unhook(void) { RAND_set_rand_method(orig); }

#define NSEEN 400000
static u8 (*seen)[16]; static long nseen;
static void remember(const char *what, const u8 *v, size_t n)
{
    /* open addressing on a hash of the value */
    u8 h[32]; ref_streebog(256, v, n, h);
    uint64_t i; memcpy(&i, h, 8); i %= NSEEN;
    static const u8 z[16];
    if (!seen) seen = calloc(NSEEN, 16);
    HARN(seen && nseen < NSEEN / 2);
    h[15] |= 1;
    while (memcmp(seen[i], z, 16)) { if (!memcmp(seen[i], h, 16)) { vh_viol("repeated", "%s value seen before: %s", what, vh_hex(v, n)); return; } i = (i + 1) % NSEEN; }
    memcpy(seen[i], h, 16); nseen++;
}
static long bitcnt[RC_N][2][512]; static long bitn[RC_N][2]; static u8 last[RC_N][2][64];
static void judge_secret(const rcurve *c, int kind, const BIGNUM *k, const char *what)
{
    int rc = c - ref_curves; u8 b[64];
    HARN(BN_bn2lebinpad(k, b, c->n) == c->n);
    remember(what, b, c->n);
    int hd = 0;
    for (int i = 0; i < c->n * 8; i++) if (b[i / 8] >> (i % 8) & 1) bitcnt[rc][kind][i]++;
    for (int i = 0; i < c->n; i++) hd += __builtin_popcount(b[i] ^ last[rc][kind][i]);
    if (bitn[rc][kind] && hd < c->n * 8 / 5) vh_viol("related", "%s: successive values differ in %d bits only", what, hd);
    memcpy(last[rc][kind], b, c->n); bitn[rc][kind]++;
    vh_count(kind ? "private_keys_judged" : "nonces_judged", 1);
}
static int do_sign(pk_key *k, const u8 *dg, u8 *sig)
{
    EVP_PKEY_CTX *c; size_t sl = 128; int r;
    ENG(c = EVP_PKEY_CTX_new(k->pk, NULL)); ENG(EVP_PKEY_sign_init(c) > 0);
    r = EVP_PKEY_sign(c, sig, &sl, dg, k->n);
    EVP_PKEY_CTX_free(c);
    return r;
}
static EVP_PKEY *do_keygen(const pk_type *t, int *ret)
{
    EVP_PKEY_CTX *c; EVP_PKEY *p = NULL;
    ENG(c = EVP_PKEY_CTX_new_id(t->alg, NULL)); ENG(EVP_PKEY_keygen_init(c) > 0); ENG(EVP_PKEY_CTX_ctrl_str(c, "paramset", t->pset) > 0);
    *ret = EVP_PKEY_keygen(c, &p);
    EVP_PKEY_CTX_free(c);
    return p;
}
static size_t do_encrypt(pk_key *k, int nid, u8 *out, int *ret)
{
    EVP_PKEY_CTX *c; size_t l = 1024; u8 cek[32] = {1, 2, 3};
    ENG(c = EVP_PKEY_CTX_new(k->pub, NULL)); ENG(EVP_PKEY_encrypt_init(c) > 0);
    if (nid) ENG(EVP_PKEY_CTX_ctrl(c, -1, -1, EVP_PKEY_CTRL_CIPHER, nid, NULL) > 0);
    *ret = EVP_PKEY_encrypt(c, out, &l, cek, 32);
    EVP_PKEY_CTX_free(c);
    return l;
}
static void fresh_setup(void) { pk_setup(); orig = RAND_get_rand_method(); }
static void fresh_case(void)
{
    free_keys();
    const pk_type *t = pk_rtype(); pk_key *k = &K[0]; const rcurve *c = &ref_curves[t->rc]; int n = c->n, ret;
    uint64_t s0 = rnd(), s1 = rnd();
    int qb = BN_num_bits(c->q);
    BIGNUM *d = BN_new(), *k1 = BN_new(), *k2 = BN_new(); pk_rscalar(c, d);
    pk_make_d(k, t, d);
    u8 dg[64], sa[128], sb[128], tok[1024];
    rbytes(dg, n);
    int what = rn(7);
    vh_log("fresh %d %s", what, t->pset);
    switch (what) {
    case 0: case 1: {
        hook(s0, -1, -1);
        for (int i = 0; i < 4; i++) {
            long d0 = drawn;
            if (chance(1, 3)) rbytes(dg, n);
            ret = do_sign(k, dg, sa);
            if (ret <= 0) { unhook(); ENG(!"EVP_PKEY_sign"); }
            if (drawn - d0 < n) vh_viol("too-little-entropy", "%s: %ld random octets used for a signature", t->pset, drawn - d0);
            ref_nonce(c, d, dg, n, sa, k1);
            if (BN_is_zero(k1)) vh_viol("nonce-range", "zero nonce");
            if (!ref_verify_ec(c, k->xy, dg, n, sa, 2 * n)) vh_viol("signature-wrong", "signature made under hooked RNG does not verify");
            judge_secret(c, 0, k1, "nonce");
            /* the nonce of a signature must not be its key or digest related */
            if (!BN_cmp(k1, d)) vh_viol("nonce-is-key", "nonce equals private key");
        }
        unhook();
        /* one random bit changed: another nonce */
        hook(s1, -1, -1); ret = do_sign(k, dg, sa); long l0 = draws; int one = drawlen[0]; unhook();
        ENG(ret > 0); ref_nonce(c, d, dg, n, sa, k1);
        if (l0 == 1) {
            long bit = rn(qb - 2);          /* counted from the least significant bit of the last octet */
            long fl = (one - 1 - bit / 8) * 8 + bit % 8;
            hook(s1, -1, fl); ret = do_sign(k, dg, sb); unhook();
            ENG(ret > 0); ref_nonce(c, d, dg, n, sb, k2);
            if (!BN_cmp(k1, k2)) vh_viol("entropy-ignored", "%s: random bit %ld has no influence on the nonce", t->pset, bit);
            vh_count("influence_checks", 1);
            vh_sig("infl|%s|%ld", t->pset, bit);
        }
        vh_sig("nonce|%s|%s", OBJ_nid2sn(t->alg), t->pset);
        break; }
    case 2: {
        hook(s0, -1, -1);
        EVP_PKEY *p = do_keygen(t, &ret); long got = drawn; unhook();
        ENG(ret > 0 && p);
        if (got < n) vh_viol("too-little-entropy", "%s: %ld random octets used for a key", t->pset, got);
        const BIGNUM *dd; ENG(dd = pk_get_d(p));
        if (BN_is_zero(dd) || BN_is_negative(dd) || BN_cmp(dd, c->q) >= 0) vh_viol("keygen-range", "private key outside 1..q-1");
        judge_secret(c, 1, dd, "private key");
        EVP_PKEY_free(p);
        hook(s1, -1, -1); p = do_keygen(t, &ret); long l0 = draws; int one = drawlen[0]; unhook(); ENG(ret > 0 && p);
        HARN(BN_copy(k1, pk_get_d(p))); EVP_PKEY_free(p);
        if (l0 == 1) {
            long bit = rn(qb - 2), fl = (one - 1 - bit / 8) * 8 + bit % 8;
            hook(s1, -1, fl); p = do_keygen(t, &ret); unhook(); ENG(ret > 0 && p);
            if (!BN_cmp(k1, pk_get_d(p))) vh_viol("entropy-ignored", "%s: random bit %ld has no influence on the key", t->pset, bit);
            EVP_PKEY_free(p);
            vh_count("influence_checks", 1);
        }
        vh_sig("key|%s|%s", OBJ_nid2sn(t->alg), t->pset);
        break; }
    case 3: {       /* key transport: fresh UKM and ephemeral key each time */
        static const int cn[] = {0, NID_magma_ctr, NID_kuznyechik_ctr};
        int nid = t->alg == NID_id_GostR3410_2001 ? 0 : cn[rn(3)];
        hook(s0, -1, -1);
        for (int i = 0; i < 2; i++) {
            size_t l = do_encrypt(k, nid, tok, &ret);
            if (ret <= 0) { unhook(); ENG(!"EVP_PKEY_encrypt"); }
            /* UKM: last octet string of the structure; ephemeral key: the 2n octets of the SPKI */
            size_t ul = nid ? 32 : 8;
            HARN(l > ul + 1 && tok[l - ul - 1] == ul);
            remember("ukm", tok + l - ul, ul);
            size_t o = 0; u8 hdr[3] = {4, (u8)(2 * n), 0}; int hl = 2;
            if (2 * n > 127) { hdr[1] = 0x81; hdr[2] = 2 * n; hl = 3; }
            for (o = 60; o + hl + 2 * n <= l; o++) if (!memcmp(tok + o, hdr, hl) && tok[o - 1] == 0) break;
            HARN(o + hl + 2 * n <= l);
            remember("ephemeral key", tok + o + hl, 2 * n);
            if (!memcmp(tok + o + hl, k->xy, 2 * n)) vh_viol("ephemeral-is-recipient", "the recipient's key used as ephemeral key");
        }
        if (drawn < 2 * (n + (nid ? 32 : 8))) vh_viol("too-little-entropy", "%ld octets for two key transports", drawn);
        unhook();
        vh_count("transports_judged", 2);
        vh_sig("wrap|%s|%s|%d", OBJ_nid2sn(t->alg), t->pset, nid);
        break; }
    case 4: {       /* RNG failure: no result; afterwards everything works again */
        int sub = rn(3), f = rn(sub == 2 ? 2 : 4);     /* later draws of a key transport only blind the key in memory */
        failret = chance(1, 2) ? 0 : -1;
        hook(s0, f, -1);
        EVP_PKEY *p = NULL; size_t l = 0;
        memset(sa, 0x5a, sizeof sa); memset(tok, 0x5a, sizeof tok);
        if (sub == 0) ret = do_sign(k, dg, sa);
        else if (sub == 1) p = do_keygen(t, &ret);
        else l = do_encrypt(k, t->alg == NID_id_GostR3410_2001 || chance(1, 2) ? 0 : NID_magma_ctr, tok, &ret);
        int failed = draws > f;
        unhook();
        ERR_clear_error();
        (void)l;
        if (failed && ret > 0) vh_viol("rng-failure-ignored", "%s operation %d succeeded although the RNG failed at draw %d", t->pset, sub, f);
        if (!failed && ret <= 0) vh_viol("op-failed", "%s operation %d failed without RNG failure", t->pset, sub);
        if (failed && sub == 1 && p) vh_viol("rng-failure-ignored", "key returned by failing key generation");
        if (failed && sub == 0) { u8 z[128]; memset(z, 0x5a, 128); if (memcmp(z, sa, 128)) vh_viol("rng-failure-output", "failing signature left output"); }
        EVP_PKEY_free(p);
        if (failed) { vh_count("rng_failures", 1); vh_sig("fail|%d|%s|%d|%d", sub, t->pset, f, failret); }
        ENG(do_sign(k, dg, sa) > 0);
        break; }
    }
    if (what == 6) {    /* seeds of content encryption: new for each message, failure reported */
        static const int cn[] = {NID_magma_ctr_acpkm, NID_magma_ctr_acpkm_omac, NID_kuznyechik_ctr_acpkm, NID_kuznyechik_ctr_acpkm_omac};
        int nid = cn[rn(4)], fail = chance(1, 3), r = 0; const EVP_CIPHER *ci; u8 ck[32], iv[16]; rbytes(ck, 32); rbytes(iv, 16);
        ENG(ci = ENGINE_get_cipher(vh_eng, nid));
        failret = chance(1, 2) ? 0 : -1;
        for (int i = 0; i < 2; i++) {
            EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new(); ASN1_TYPE *at = ASN1_TYPE_new(); int two = chance(1, 2);
            hook(s0 + i, fail ? 0 : -1, -1);
            if (two) { r = EVP_EncryptInit_ex(x, ci, NULL, NULL, NULL); if (r > 0) r = EVP_EncryptInit_ex(x, NULL, NULL, ck, iv); }
            else r = EVP_EncryptInit_ex(x, ci, NULL, ck, iv);
            long got = drawn; int failed = draws > 0; unhook();
            if (fail) {
                if (failed && r > 0) vh_viol("rng-failure-ignored", "%s initialisation succeeded although the RNG failed", OBJ_nid2sn(nid));
                ERR_clear_error(); vh_count("rng_failures", 1);
            } else {
                if (r <= 0) { EVP_CIPHER_CTX_free(x); ASN1_TYPE_free(at); ENG(!"EVP_EncryptInit_ex"); }
                ENG(EVP_CIPHER_param_to_asn1(x, at) > 0 && at->type == V_ASN1_SEQUENCE);
                const u8 *q = at->value.sequence->data; int ql = at->value.sequence->length;
                HARN(ql > 8);
                if (got < 8) vh_viol("too-little-entropy", "%s: %ld random octets used for a seed", OBJ_nid2sn(nid), got);
                remember("cipher seed", q + ql - 8, 8);
                vh_count("cipher_seeds", 1);
            }
            EVP_CIPHER_CTX_free(x); ASN1_TYPE_free(at);
            vh_sig("seed|%d|%d|%d", nid, fail, two);
        }
    }
    if (what == 5) {    /* special generator outputs: refused or redrawn, never used out of range */
        force_c = c; force_kind = rn(7); int fn = 1 + rn(3), sub = rn(2); EVP_PKEY *p = NULL;
        hook(s0, -1, -1); force_n = fn;
        if (sub == 0) ret = do_sign(k, dg, sa); else p = do_keygen(t, &ret);
        force_n = 0; unhook();
        if (ret <= 0) { ERR_clear_error(); vh_count("special_draw_refused", 1); }
        else if (sub == 0) {
            if (!ref_verify_ec(c, k->xy, dg, n, sa, 2 * n)) vh_viol("special-draw", "%s: invalid signature after special RNG output %d", t->pset, force_kind);
            ref_nonce(c, d, dg, n, sa, k1);
            if (BN_is_zero(k1)) vh_viol("nonce-range", "zero nonce");
        } else {
            const BIGNUM *dd = pk_get_d(p); u8 xy[128], w[128];
            if (!dd || BN_is_zero(dd) || BN_is_negative(dd) || BN_cmp(dd, c->q) >= 0) vh_viol("keygen-range", "%s: key outside 1..q-1 after special RNG output %d", t->pset, force_kind);
            else if (!pk_get_xy(p, n, xy) || !ref_pub(c, dd, w) || memcmp(xy, w, 2 * n)) vh_viol("public-key", "%s: wrong public key after special RNG output", t->pset);
        }
        EVP_PKEY_free(p);
        vh_count("special_draws", 1);
        vh_sig("special|%d|%s|%d|%d", sub, t->pset, force_kind, fn);
    }
    BN_free(d); BN_free(k1); BN_free(k2);
}
static void fresh_done(void)
{
    for (int rc = 0; rc < RC_N; rc++) for (int kind = 0; kind < 2; kind++) {
        const rcurve *c = &ref_curves[rc]; long N = bitn[rc][kind];
        if (N < 100) continue;
        int top = BN_num_bits(c->q) - 8;
        for (int i = 0; i < top; i++) {
            double dev = bitcnt[rc][kind][i] - N / 2.0;
            if (dev * dev > 49.0 * N / 4) vh_viol("biased", "%s %s: bit %d set in %ld of %ld", c->name, kind ? "private key" : "nonce", i, bitcnt[rc][kind][i], N);
        }
        vh_count("bit_positions_tested", top);
    }
    free_keys();
}
static void keys_done(void) { free_keys(); }
const vh_workload vh_workloads[] = {
    {"sign", sign_case, pk_setup, keys_done}, {"verify", verify_case, pk_setup, keys_done}, {"vmsg", vmsg_case, pk_setup, keys_done},
    {"curve", curve_case, pk_setup, NULL}, {"fresh", fresh_case, fresh_setup, fresh_done}, {0}
};
