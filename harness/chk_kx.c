/* Key agreement, key transport (P12-P14), key serialisation (P16), KExp15/KDF/TLSTREE (P15). */
#include "pk.h"
#include "tok.h"
#include "gost_lcl.h"
#include <openssl/pem.h>
static void setup(void) { pk_setup(); }
static const char *an(const pk_key *k) { static char b[4][64]; static int i; i = (i + 1) & 3; snprintf(b[i], 64, "%s/%s", k->t->alg == R1 ? "2001" : k->n == 32 ? "256" : "512", k->t->pset); return b[i]; }

/* ---------------------------------------------------------------- P12 */
static void set_ukm(EVP_PKEY_CTX *c, const u8 *u, int ul)
{
    if (chance(1, 2)) ENG(EVP_PKEY_CTX_ctrl(c, -1, -1, EVP_PKEY_CTRL_SET_IV, ul, (void *)u) > 0);
    else {
        char h[80]; for (int i = 0; i < ul; i++) sprintf(h + 2 * i, "%02x", u[i]);
        ENG(EVP_PKEY_CTX_ctrl_str(c, "ukmhex", h) > 0);
    }
}
static void vko_case(void)
{
    const pk_type *t = pk_rtype(); pk_key A, B, C2; pk_make(&A, t); pk_make(&B, t); pk_make(&C2, t);
    pk_key *us[3] = {&A, &B, &C2};
    EVP_PKEY_CTX *cx[3] = {0};
    int ops = 3 + rn(5), mode = -1, have_peer[3] = {-1, -1, -1};
    for (int o = 0; o < ops; o++) {
        int me = rn(3), peer = rn(3);
        pk_key *a = us[me], *b = us[peer];
        u8 ukm[32], got[64], want[64], alt[64]; int ul, wl, altok = 0;
        if (o && cx[me] && chance(1, 3)) ;      /* reuse the context: everything set anew */
        else {
            EVP_PKEY_CTX_free(cx[me]);
            ENG(cx[me] = EVP_PKEY_CTX_new(a->pk, NULL));
            ENG(EVP_PKEY_derive_init(cx[me]) > 0);
            have_peer[me] = -1;
        }
        EVP_PKEY_CTX *c = cx[me];
        mode = rn(4);           /* 0 VKO-256, 1 VKO-512, 2: 8-octet UKM default, 3: KEG */
        if (t->alg == R1 && mode == 3) mode = 0;
        ul = mode == 2 ? 8 : mode == 3 ? 32 : 1 + rn(32);
        if (mode < 2 && chance(1, 2)) { static const int l[] = {8, 16, 32}; ul = l[rn(3)]; }
        rbytes(ukm, sizeof ukm);
        if (chance(1, 6)) rcontent(ukm, sizeof ukm);
        if (chance(1, 20)) memset(ukm, 0, mode == 3 ? 16 : 32);
        int order = rn(3);
        ENG(EVP_PKEY_CTX_ctrl(c, -1, -1, EVP_PKEY_CTRL_SET_VKO, 0, NULL) > 0);
        for (int s = 0; s < 3; s++) switch ((s + order) % 3) {
        case 0: set_ukm(c, ukm, ul); break;
        case 1:
            if (mode < 2) { if (chance(1, 2)) ENG(EVP_PKEY_CTX_ctrl(c, -1, -1, EVP_PKEY_CTRL_SET_VKO, mode ? NID_id_GostR3411_2012_512 : NID_id_GostR3411_2012_256, NULL) > 0); else ENG(EVP_PKEY_CTX_ctrl_str(c, "vko", mode ? "512" : "256") > 0); }
            break;
        case 2:
            if (have_peer[me] != peer || chance(1, 2)) ENG(EVP_PKEY_derive_set_peer(c, chance(1, 2) ? b->pub : b->pk) > 0);
            have_peer[me] = peer;
            break;
        }
        vh_log("derive mode %d me %d peer %d %s ukm=%s da=%s db=%s", mode, me, peer, an(a), vh_hex(ukm, ul), pk_bnh(a->d), pk_bnh(b->d));
        EVP_PKEY_CTX *u = c, *dup = NULL;
        if (chance(1, 4)) { ENG(dup = EVP_PKEY_CTX_dup(c)); u = dup; }
        size_t gl = 0; int exl = mode == 0 ? 32 : mode == 1 ? 64 : mode == 2 ? 32 : 64;
        if (chance(1, 2)) { ENG(EVP_PKEY_derive(u, NULL, &gl) > 0); if (gl != (size_t)exl) vh_viol("derive-size", "size query %zu, expected %d", gl, exl); }
        gl = 64; memset(got, 0xa5, 64);
        int r = EVP_PKEY_derive(u, got, &gl);
        EVP_PKEY_CTX_free(dup);
        if (mode == 3) {
            static const u8 z[16];
            wl = ref_keg(a->c, a->d, b->xy, ukm, want);
            if (!memcmp(ukm, z, 16)) {  /* both readings of "if 0 then 1" are allowed */
                u8 one[16] = {1};
                if (a->n == 64) ref_vko(a->c, a->d, b->xy, one, 16, 2, alt);
                else { u8 s[32]; ref_vko(a->c, a->d, b->xy, one, 16, 1, s); ref_kdf_tree(s, 32, (const u8 *)"kdf tree", 8, ukm + 16, 8, 1, 64, alt); }
                altok = 1;
            }
        } else {
            int z = ukm_zero(a->c, ukm, ul);
            wl = z ? 0 : ref_vko(a->c, a->d, b->xy, ukm, ul, mode == 1 ? 2 : mode == 0 ? 1 : t->alg == R1 ? 0 : 1, want);
        }
        if (!wl) {
            if (r > 0) vh_viol("infinity-accepted", "%s shared point at infinity gave a key", an(a));
            ERR_clear_error(); vh_count("derive_refused_infinity", 1);
        } else if (r <= 0) vh_viol("derive-failed", "%s mode %d ukm=%s", an(a), mode, vh_hex(ukm, ul));
        else if (gl != (size_t)exl || (memcmp(got, want, exl) && !(altok && !memcmp(got, alt, exl))))
            vh_viol("derive-wrong", "%s mode %d ukm=%s da=%s pub=%s got(%zu) %s want %s", an(a), mode, vh_hex(ukm, ul), pk_bnh(a->d), vh_hex(b->xy, 2 * b->n), gl, vh_hex(got, exl), vh_hex(want, exl));
        else {
            for (int i = exl; i < 64; i++) if (got[i] != 0xa5) { vh_viol("derive-overrun", "octets after the key written"); break; }
            vh_count(mode == 3 ? "keg_checked" : "vko_checked", 1);
            if (o == 0) vh_sample("%s mode %d ukm=%s key=%s", an(a), mode, vh_hex(ukm, ul), vh_hex(got, exl));
        }
        vh_sig("%s|%d|%d|%d|%d|%s|%s", an(a), mode, ul, me == peer, dup != NULL, a->how, b->how);
        /* the other side gets the same key */
        if (wl && r > 0 && chance(1, 2)) {
            EVP_PKEY_CTX *d; u8 g2[64]; size_t l2 = 64;
            ENG(d = EVP_PKEY_CTX_new(b->pk, NULL)); ENG(EVP_PKEY_derive_init(d) > 0);
            if (mode < 2) ENG(EVP_PKEY_CTX_ctrl_str(d, "vko", mode ? "512" : "256") > 0);
            set_ukm(d, ukm, ul); ENG(EVP_PKEY_derive_set_peer(d, a->pub) > 0);
            if (EVP_PKEY_derive(d, g2, &l2) <= 0 || l2 != gl || memcmp(g2, got, gl)) vh_viol("derive-asymmetric", "%s mode %d", an(a), mode);
            EVP_PKEY_CTX_free(d); vh_count("agreements", 1);
        }
    }
    /* refused: no UKM, odd UKM size without VKO mode, foreign peers */
    {
        EVP_PKEY_CTX *c; u8 got[64], ukm[32] = {1}; size_t gl = 64; int r; pk_key D = {0};
        ENG(c = EVP_PKEY_CTX_new(A.pk, NULL)); ENG(EVP_PKEY_derive_init(c) > 0);
        int kind = rn(4);
        switch (kind) {
        case 0: ENG(EVP_PKEY_derive_set_peer(c, B.pub) > 0); r = EVP_PKEY_derive(c, got, &gl); break;
        case 1: { int l; do l = 1 + rn(31); while (l == 8);
            ENG(EVP_PKEY_derive_set_peer(c, B.pub) > 0); ENG(EVP_PKEY_CTX_ctrl(c, -1, -1, EVP_PKEY_CTRL_SET_IV, l, ukm) > 0); r = EVP_PKEY_derive(c, got, &gl); break; }
        case 2: { const pk_type *t2; do t2 = pk_rtype(); while (t2->rc == t->rc);
            pk_make(&D, t2); set_ukm(c, ukm, 8); ENG(EVP_PKEY_CTX_ctrl_str(c, "vko", "256") > 0);
            r = EVP_PKEY_derive_set_peer(c, D.pub); if (r > 0) r = EVP_PKEY_derive(c, got, &gl); break; }
        default: set_ukm(c, ukm, 8); ENG(EVP_PKEY_CTX_ctrl_str(c, "vko", "256") > 0); r = EVP_PKEY_derive(c, got, &gl); break;      /* no peer */
        }
        if (r > 0) vh_viol("derive-accepts", "%s: derivation that has to be refused (kind %d) succeeded", an(&A), kind);
        ERR_clear_error(); vh_count("derive_refused", 1); vh_sig("refuse|%d|%s", kind, an(&A));
        EVP_PKEY_CTX_free(c); if (D.t) pk_free(&D);
    }
    /* a UKM longer than the engine keeps is refused, or used as it is */
    {
        EVP_PKEY_CTX *c; u8 got[64], want[64], u[96]; size_t gl = 64; int l = 33 + rn(chance(1, 2) ? 8 : 64), r, wl, z; rbytes(u, l);
        ENG(c = EVP_PKEY_CTX_new(A.pk, NULL)); ENG(EVP_PKEY_derive_init(c) > 0);
        ENG(EVP_PKEY_CTX_ctrl_str(c, "vko", "256") > 0);
        u8 *ub = malloc(l); memcpy(ub, u, l);
        if (EVP_PKEY_CTX_ctrl(c, -1, -1, EVP_PKEY_CTRL_SET_IV, l, ub) > 0) {
            r = EVP_PKEY_derive_set_peer(c, B.pub) > 0 ? EVP_PKEY_derive(c, got, &gl) : -1; z = ukm_zero(A.c, u, l); wl = z ? 0 : ref_vko(A.c, A.d, B.xy, u, l, 1, want);
            if (r > 0 ? !wl || gl != 32 || memcmp(got, want, 32) : wl) vh_viol("ukm-too-long", "%s: a UKM of %d octets is accepted and %s", an(&A), l, r > 0 ? "another value used" : "lost");
        } else vh_count("long_ukm_refused", 1);
        free(ub); ERR_clear_error(); EVP_PKEY_CTX_free(c);
    }
    for (int i = 0; i < 3; i++) { EVP_PKEY_CTX_free(cx[i]); pk_free(us[i]); }
}

/* ---------------------------------------------------------------- P13, P14 */
static const int kind_nid[][4] = {{0, NID_id_Gost28147_89}, {NID_magma_ctr, NID_magma_ctr_acpkm, NID_magma_ctr_acpkm_omac}, {NID_kuznyechik_ctr, NID_kuznyechik_ctr_acpkm, NID_kuznyechik_ctr_acpkm_omac}};
static void set_cipher(EVP_PKEY_CTX *c, int kind)
{
    int nid = kind_nid[kind][rn(kind ? 3 : 2)];
    if (nid) ENG(EVP_PKEY_CTX_ctrl(c, -1, -1, EVP_PKEY_CTRL_CIPHER, nid, NULL) > 0);
}
static EVP_PKEY_CTX *dec_ctx(pk_key *k, int kind)
{
    EVP_PKEY_CTX *c; ENG(c = EVP_PKEY_CTX_new(k->pk, NULL)); ENG(EVP_PKEY_decrypt_init(c) > 0); set_cipher(c, kind);
    return c;
}
static void wrap_case(void)
{
    const pk_type *t = pk_rtype(); pk_key R, S; pk_make(&R, t); pk_make(&S, t);
    EVP_PKEY_CTX *ec = NULL, *dc = NULL; int kind = t->alg == R1 ? 0 : rn(3);
    int ops = 1 + rn(4), had_ukm = 1, had_peer = 0; u8 lastukm[32] = {0};
    for (int o = 0; o < ops; o++) {
        u8 cek[32], out[1024], got[64], ukm[32]; size_t ol, gl; tok k = {0}; der bld = {{0}};
        rkey(cek, 32);
        int eng_enc = chance(2, 3), with_peer = chance(1, 3), with_ukm = chance(1, 2);
        rbytes(ukm, 32); if (chance(1, 8)) { rcontent(ukm, 32); if (ukm_zero(R.c, ukm, 8)) ukm[0] = 1; }
        k.kind = kind;
        if (eng_enc) {
            int again = ec && !had_ukm && chance(1, 2);
            if (again) { with_ukm = 0; with_peer = had_peer; goto enc; }
            EVP_PKEY_CTX_free(ec); had_ukm = with_ukm; had_peer = with_peer; memset(lastukm, 0, 32);
            ENG(ec = EVP_PKEY_CTX_new(chance(1, 2) ? R.pub : R.pk, NULL)); ENG(EVP_PKEY_encrypt_init(ec) > 0); set_cipher(ec, kind);
            if (with_peer) ENG(EVP_PKEY_derive_set_peer(ec, S.pk) > 0);
            if (with_ukm) ENG(EVP_PKEY_CTX_ctrl(ec, -1, -1, EVP_PKEY_CTRL_SET_IV, kind ? 32 : 8, ukm) > 0);
            if (chance(1, 4)) {     /* a buffer that is too small, a key of another length */
                size_t kl = 32, need; int kind2 = rn(2), rr; u8 *kb, *ob;
                ENG(EVP_PKEY_encrypt(ec, NULL, &need, cek, 32) > 0);
                if (kind2) { need = 1024; do kl = rn(65); while (kl == 32); } else need = rn(need - 40);
                kb = malloc(kl ? kl : 1); ob = malloc(need ? need : 1); rbytes(kb, kl); ol = need;
                rr = EVP_PKEY_encrypt(ec, ob, &ol, kb, kl);
                if (rr > 0) vh_viol("bad-encrypt-accepted", "%s kind %d: key of %zu octets, buffer of %zu", an(&R), kind, kl, need);
                free(kb); free(ob); ERR_clear_error(); vh_count("encrypts_refused", 1);
            }
        enc:
            if (chance(1, 2)) { ENG(EVP_PKEY_encrypt(ec, NULL, &ol, cek, 32) > 0); if (ol > sizeof out) { vh_viol("enc-size", "size %zu", ol); break; } }
            ol = sizeof out; memset(out, 0x5a, sizeof out);
            ENG(EVP_PKEY_encrypt(ec, out, &ol, cek, 32) > 0);
            if (ol > sizeof out || !tok_parse(out, ol, t, &k)) { vh_viol("token-format", "%s kind %d: %s", an(&R), kind, vh_hex(out, ol < 400 ? ol : 400)); break; }
            if (with_ukm && (k.ul != (kind ? 32 : 8) || memcmp(k.ukm, ukm, k.ul))) vh_viol("ukm-not-used", "UKM given to the context is not in the token");
            if (!with_ukm && !memcmp(k.ukm, lastukm, k.ul)) vh_viol("ukm-repeated", "%s kind %d: a token repeats the UKM of the previous one", an(&R), kind);
            if (again) vh_count("encrypt_context_reuses", 1);
            memcpy(lastukm, k.ukm, k.ul);
            if (!with_peer && !k.has_eph) vh_viol("token-format", "no ephemeral key in the token");
            if (kind == 0 && with_peer && k.has_eph) vh_viol("token-format", "ephemeral key in a token made with a static key");
            if (kind == 0 && k.sbox_nid != (t->alg == R1 ? NID_id_Gost28147_89_CryptoPro_A_ParamSet : NID_id_tc26_gost_28147_param_Z)) vh_viol("token-params", "S-box %s", OBJ_nid2sn(k.sbox_nid));
            if (k.has_eph && with_peer && memcmp(k.eph, S.xy, 2 * R.n)) vh_viol("token-peer", "token does not carry the sender's key");
            u8 rc[32];
            if (!tok_open(R.c, t, R.d, k.has_eph ? k.eph : S.xy, &k, rc)) vh_viol("token-wrong", "%s kind %d: reference cannot open the token %s d=%s", an(&R), kind, vh_hex(out, ol), pk_bnh(R.d));
            else if (memcmp(rc, cek, 32)) vh_viol("token-wrong", "%s kind %d: reference opens the token to another key", an(&R), kind);
            vh_count("tokens_checked", 1);
        } else {
            BIGNUM *ed = BN_new(); pk_rscalar(R.c, ed);
            static const int sb[] = {NID_id_Gost28147_89_CryptoPro_A_ParamSet, NID_id_Gost28147_89_CryptoPro_B_ParamSet, NID_id_Gost28147_89_CryptoPro_C_ParamSet, NID_id_Gost28147_89_CryptoPro_D_ParamSet, NID_id_tc26_gost_28147_param_Z};
            k.sbox_nid = sb[rn(5)];
            memcpy(k.ukm, ukm, 32);
            k.has_eph = kind || !with_peer;
            if (with_peer) { HARN(BN_copy(ed, S.d)); }
            HARN(ref_pub(R.c, ed, k.eph));
            tok_make(R.c, t, ed, R.xy, cek, &k);
            tok_build(t, &k, &bld); memcpy(out, bld.b, ol = bld.n);
            BN_free(ed);
            vh_count("reference_tokens", 1);
        }
        vh_log("token %s kind %d peer %d ukm %d %s", an(&R), kind, with_peer, with_ukm, vh_hex(out, ol));
        int reuse = dc && chance(1, 2);
        if (!reuse) { EVP_PKEY_CTX_free(dc); dc = dec_ctx(&R, kind); }
        if (!k.has_eph) ENG(EVP_PKEY_derive_set_peer(dc, chance(1, 2) ? S.pub : S.pk) > 0);
        if (chance(1, 2)) { gl = 0; ENG(EVP_PKEY_decrypt(dc, NULL, &gl, out, ol) > 0); if (gl != 32) vh_viol("dec-size", "size query %zu", gl); }
        gl = sizeof got; memset(got, 0xa5, sizeof got);
        int r = EVP_PKEY_decrypt(dc, got, &gl, out, ol);
        if (r <= 0) vh_viol("token-rejected", "%s kind %d%s%s: %s", an(&R), kind, eng_enc ? " own" : " reference", reuse ? " (context used before)" : "", vh_hex(out, ol));
        else if (gl != 32 || memcmp(got, cek, 32)) vh_viol("cek-wrong", "%s kind %d%s", an(&R), kind, reuse ? " (context used before)" : "");
        else { vh_count("keys_transported", 1); if (reuse) vh_count("context_reuses", 1); }
        for (int i = 32; i < 64; i++) if (got[i] != 0xa5) { vh_viol("dec-overrun", "octets after the key written"); break; }
        vh_sig("%s|%d|%d|%d|%d|%d|%d|%s", an(&R), kind, eng_enc, with_peer, with_ukm, reuse, kind ? 0 : sb_of(k.sbox_nid), R.how);
        if (o == 0) vh_sample("%s kind %d token=%s", an(&R), kind, vh_hex(out, ol));
        ERR_clear_error();
    }
    EVP_PKEY_CTX_free(ec); EVP_PKEY_CTX_free(dc);
    pk_free(&R); pk_free(&S);
}
static void tamper_case(void)
{
    const pk_type *t = pk_rtype(); pk_key R, S, X; pk_make(&R, t); pk_make(&S, t); pk_make(&X, t);
    int kind = t->alg == R1 ? 0 : rn(3), r;
    u8 cek[32], out[1100], got[32]; size_t ol, gl; tok k = {0}, m; BIGNUM *ed = BN_new(); der b = {{0}};
    rbytes(cek, 32); pk_rscalar(R.c, ed);
    k.kind = kind; k.sbox_nid = t->alg == R1 ? NID_id_Gost28147_89_CryptoPro_A_ParamSet : NID_id_tc26_gost_28147_param_Z; rbytes(k.ukm, 32); k.has_eph = 1;
    HARN(ref_pub(R.c, ed, k.eph)); tok_make(R.c, t, ed, R.xy, cek, &k);
    for (int a = 0; a < 6; a++) {
        int alt = rn(14), want = 0, kd = kind; const pk_type *bt = t; pk_key *who = &R; u8 rk[32];
        m = k; b.n = 0;
        static const int sb[] = {NID_id_Gost28147_89_CryptoPro_A_ParamSet, NID_id_Gost28147_89_CryptoPro_B_ParamSet, NID_id_Gost28147_89_CryptoPro_C_ParamSet, NID_id_Gost28147_89_CryptoPro_D_ParamSet, NID_id_tc26_gost_28147_param_Z};
        switch (alt) {
        case 0: want = 1; break;
        case 1: m.ct[rn(m.ctl)] ^= 1 << rn(8); break;
        case 2: if (kind == 0) m.imit[rn(4)] ^= 1 << rn(8); else m.ct[m.ctl - 1 - rn(m.ctl - 32)] ^= 1 << rn(8); break;
        case 3: m.ukm[rn(m.ul)] ^= 1 << rn(8); break;
        case 4: if (kind == 0) { do m.sbox_nid = sb[rn(5)]; while (m.sbox_nid == k.sbox_nid); } else m.ct[rn(m.ctl)] ^= 1 << rn(8); break;
        case 5: { pk_key *q = chance(1, 2) ? &S : &X; memcpy(m.eph, q->xy, 2 * R.n); break; }
        case 6: who = &S; break;                        /* another recipient */
        case 7: m.ctl = rn(m.ctl); break;               /* short */
        case 8: { size_t x = 1 + rn(64 - m.ctl); rbytes(m.ct + m.ctl, x); m.ctl += x; break; }     /* long */
        case 9: m.ul = chance(1, 2) ? rn(m.ul) : (kind == 0 ? 9 + rn(24) : m.ul - 1); break;
        case 10: m.has_eph = kind ? 1 : 0; if (kind) m.ul = 0; break;       /* missing optional parts */
        case 11: { const pk_type *t2; do t2 = pk_rtype(); while (t2->rc == t->rc || ref_curves[t2->rc].n != R.n); bt = t2; BIGNUM *z = BN_new(); pk_rscalar(&ref_curves[t2->rc], z); HARN(ref_pub(&ref_curves[t2->rc], z, m.eph)); BN_free(z); break; }    /* ephemeral key on another curve */
        case 12: { int n = 2 * R.n; m.eph[rn(n)] ^= 1 << rn(8); break; }  /* (almost surely) not on the curve */
        case 13: if (t->alg != R1) { kd = (kind + 1 + rn(2)) % 3; } break;     /* other transport than negotiated */
        }
        tok_build(bt, &m, &b); memcpy(out, b.b, ol = b.n);
        if (alt == 0 || (alt == 13 && kd == kind)) want = 1;
        EVP_PKEY_CTX *dc = dec_ctx(who, kd);
        if (alt == 3 && kind && chance(1, 2)) {     /* the receiver knows the right UKM; the token's copy is altered */
            ENG(EVP_PKEY_CTX_ctrl(dc, -1, -1, EVP_PKEY_CTRL_SET_IV, 32, k.ukm) > 0); want = 1;
        }
        if (alt == 10 && kind == 0 && chance(1, 2)) ENG(EVP_PKEY_derive_set_peer(dc, S.pub) > 0);
        vh_log("%s kind %d alteration %d %s", an(&R), kind, alt, vh_hex(out, ol));
        gl = 32; memset(got, 0, 32);
        r = EVP_PKEY_decrypt(dc, got, &gl, out, ol);
        ERR_clear_error();
        EVP_PKEY_CTX_free(dc);
        if (want && (r <= 0 || memcmp(got, cek, 32))) vh_viol("valid-token-rejected", "%s kind %d alteration %d r=%d", an(&R), kind, alt, r);
        if (!want && r > 0) {
            /* accepted: only if the reference accepts the same structure too (32-bit MACs may collide once in a while) */
            tok p = m; int okref = alt != 7 && alt != 8 && alt != 9 && alt != 10 && alt != 11 && alt != 12 && alt != 13 && tok_open(who->c, t, who->d, p.eph, &p, rk) && !memcmp(rk, got, 32);
            if (!okref) vh_viol("altered-token-accepted", "%s kind %d alteration %d yields key %s: %s", an(&R), kind, alt, vh_hex(got, 32), vh_hex(out, ol));
        }
        vh_count(want ? "valid_tokens" : "altered_tokens", 1);
        vh_sig("%s|%d|%d|%d", an(&R), kind, alt, alt == 7 || alt == 8 ? (int)m.ctl : alt == 9 ? (int)m.ul : 0);
        if (a == 0) vh_sample("%s kind %d alteration %d -> %d", an(&R), kind, alt, r);
    }
    /* octet-level changes of the encoding */
    for (int a = 0; a < 8; a++) {
        b.n = 0; tok_build(t, &k, &b); memcpy(out, b.b, ol = b.n);
        int alt = rn(4); size_t pos = rn(ol);
        switch (alt) {
        case 0: out[pos] ^= 1 << rn(8); break;
        case 1: out[pos] = rnd(); break;
        case 2: ol = pos; break;
        case 3: { size_t x = 1 + rn(4); if (pos + x > ol) x = ol - pos; memmove(out + pos, out + pos + x, ol - pos - x); ol -= x; break; }
        }
        EVP_PKEY_CTX *dc = dec_ctx(&R, kind);
        gl = 32; memset(got, 0, 32);
        vh_log("%s kind %d octet change %d at %zu %s", an(&R), kind, alt, pos, vh_hex(out, ol));
        r = EVP_PKEY_decrypt(dc, got, &gl, out, ol);
        ERR_clear_error(); EVP_PKEY_CTX_free(dc);
        if (r > 0 && memcmp(got, cek, 32)) vh_viol("altered-token-accepted", "%s kind %d octet %zu changed: another key %s came out: %s", an(&R), kind, pos, vh_hex(got, 32), vh_hex(out, ol));
        vh_count(r > 0 ? "harmless_octet_changes" : "octet_changes_refused", 1);
        vh_sig("oct|%s|%d|%d|%zu", an(&R), kind, alt, pos / 4);
    }
    BN_free(ed);
    pk_free(&R); pk_free(&S); pk_free(&X);
}

/* ---------------------------------------------------------------- P16 */
static void same_key(const pk_key *k, EVP_PKEY *p, int priv, const char *what)
{
    u8 xy[128]; const BIGNUM *d;
    if (!p) { vh_viol("not-decoded", "%s %s d=%s", an(k), what, pk_bnh(k->d)); return; }
    if (EVP_PKEY_base_id(p) != k->t->alg) vh_viol("algorithm-changed", "%s %s", an(k), what);
    else {
        const EC_KEY *ec = EVP_PKEY_get0(p);
        if (!ec || !EC_KEY_get0_group(ec) || EC_GROUP_get_curve_name(EC_KEY_get0_group(ec)) != k->t->curve) vh_viol("parameters-changed", "%s %s", an(k), what);
        else if (!pk_get_xy(p, k->n, xy) || memcmp(xy, k->xy, 2 * k->n)) vh_viol("public-changed", "%s %s d=%s", an(k), what, pk_bnh(k->d));
        d = pk_get_d(p);
        if (priv && (!d || BN_cmp(d, k->d))) vh_viol("private-changed", "%s %s d=%s got %s", an(k), what, pk_bnh(k->d), d ? pk_bnh(d) : "none");
        if (EVP_PKEY_eq(p, k->pub) != 1) vh_viol("not-equal", "%s %s: EVP_PKEY_eq", an(k), what);
        if (EVP_PKEY_bits(p) != 8 * k->n || EVP_PKEY_size(p) != 2 * k->n) vh_viol("size", "%s bits %d size %d", an(k), EVP_PKEY_bits(p), EVP_PKEY_size(p));
    }
    vh_count("keys_compared", 1);
}
static void ser_case(void)
{
    const pk_type *t = pk_rtype(); pk_key k, z; pk_make(&k, t); pk_make(&z, chance(1, 2) ? t : pk_rtype());
    const rcurve *c = k.c; int n = k.n; BN_CTX *bx = BN_CTX_new(); EVP_PKEY *p; u8 buf[64 * 8], *o; int l;
    same_key(&k, k.pk, 1, k.how); same_key(&k, k.pub, 0, "public");
    vh_log("ser %s d=%s", an(&k), pk_bnh(k.d));
    for (int a = 0; a < 4; a++) {
        der e = {{0}}, w = {{0}}; int kind = rn(9);
        switch (kind) {
        case 0: case 1: case 2: {                       /* decoding of each plain format */
            if (kind == 2) HARN(BN_bn2binpad(k.d, buf, n) == n); else HARN(BN_bn2lebinpad(k.d, buf, n) == n);
            if (kind == 2 && (BN_num_bits(k.d) / 8 + 1 + 2) % n == 0) { kind = 1; HARN(BN_bn2lebinpad(k.d, buf, n) == n); }     /* an INTEGER of that size reads as raw octets */
            pk_pkcs8(t, buf, n, kind, &e);
            p = pk_load_pkcs8(&e); same_key(&k, p, 1, kind == 0 ? "octets" : kind == 1 ? "octet string" : "integer"); EVP_PKEY_free(p);
            break; }
        case 3: case 4: {                               /* masked, 1..5 masks; with and without the SEQUENCE */
            int m = 1 + rn(5); BIGNUM *x = BN_dup(k.d), *v = BN_new();
            for (int i = 1; i <= m; i++) {
                pk_rscalar(c, v); HARN(BN_bn2lebinpad(v, buf + i * n, n) == n);
                HARN(BN_mod_inverse(v, v, c->q, bx)); HARN(BN_mod_mul(x, x, v, c->q, bx));
            }
            HARN(BN_bn2lebinpad(x, buf, n) == n); BN_free(x); BN_free(v);
            pk_pkcs8(t, buf, (m + 1) * n, kind == 3 ? 0 : 3, &e);
            p = pk_load_pkcs8(&e); same_key(&k, p, 1, kind == 3 ? "masked" : "masked sequence"); EVP_PKEY_free(p);
            vh_sig("masks|%s|%d|%d", an(&k), kind, m);
            break; }
        case 5: {                                       /* writing the private key */
            int leg = chance(1, 3);
            if (leg) ENG(ENGINE_ctrl_cmd_string(vh_eng, "GOST_PK_FORMAT", "LEGACY_PK_WRAP", 0));
            PKCS8_PRIV_KEY_INFO *p8 = EVP_PKEY2PKCS8(k.pk);
            if (leg) { static char none[] = "0"; ENG(ENGINE_ctrl_cmd_string(vh_eng, "GOST_PK_FORMAT", none, 0)); }
            ENG(p8);
            o = NULL; l = i2d_PKCS8_PRIV_KEY_INFO(p8, &o); HARN(l > 0);
            HARN(BN_bn2lebinpad(k.d, buf, n) == n); pk_pkcs8(t, buf, n, leg, &w);
            if (l != (int)w.n || memcmp(o, w.b, l)) vh_viol("private-encoding", "%s legacy %d: %s want %s", an(&k), leg, vh_hex(o, l), vh_hex(w.b, w.n));
            p = EVP_PKCS82PKEY(p8); same_key(&k, p, 1, "written"); EVP_PKEY_free(p);
            OPENSSL_free(o); PKCS8_PRIV_KEY_INFO_free(p8);
            vh_count("private_written", 1);
            break; }
        case 6: {                                       /* writing the public key */
            o = NULL; l = i2d_PUBKEY(chance(1, 2) ? k.pk : k.pub, &o); ENG(l > 0);
            pk_spki(t, k.xy, n, &w);
            if (l != (int)w.n || memcmp(o, w.b, l)) vh_viol("public-encoding", "%s: %s want %s", an(&k), vh_hex(o, l), vh_hex(w.b, w.n));
            OPENSSL_free(o); vh_count("public_written", 1);
            break; }
        case 7: {                                       /* PEM, encrypted PEM, PUBKEY PEM */
            BIO *b = BIO_new(BIO_s_mem()); int enc = rn(3);
            if (enc == 2) { ENG(PEM_write_bio_PUBKEY(b, k.pk)); p = PEM_read_bio_PUBKEY(b, NULL, NULL, NULL); }
            else { ENG(PEM_write_bio_PKCS8PrivateKey(b, k.pk, enc ? EVP_aes_128_cbc() : NULL, NULL, 0, NULL, enc ? (void *)"pass" : NULL)); p = PEM_read_bio_PrivateKey(b, NULL, NULL, (void *)"pass"); }
            same_key(&k, p, enc != 2, "PEM"); EVP_PKEY_free(p); BIO_free(b);
            vh_count("pem_roundtrips", 1);
            break; }
        case 8: {                                       /* public points that have to be refused */
            u8 xy[160]; size_t pl = 2 * n; int bad = rn(5), want = 0;
            memcpy(xy, k.xy, 2 * n); memset(xy + 2 * n, 0, 16);
            switch (bad) {
            case 0: xy[rn(2 * n)] ^= 1 << rn(8); { EC_POINT *P = ref_point(c, xy); want = P != NULL; EC_POINT_free(P); } break;
            case 1: pl = rn(2 * n); break;
            case 2: { int x = 1 + rn(8); memset(xy, 0, sizeof xy); memcpy(xy, k.xy, n); memcpy(xy + n + x, k.xy + n, n); pl = 2 * n + 2 * x; break; }
            case 3: { int h = rn(2); BIGNUM *v = BN_lebin2bn(k.xy + h * n, n, NULL); BN_add(v, v, c->p); if (BN_num_bytes(v) <= n) HARN(BN_bn2lebinpad(v, xy + h * n, n) == n); else memset(xy + h * n, 0xff, n); BN_free(v); break; }
            case 4: memset(xy, 0, 2 * n); break;
            }
            der s = {{0}}, q = {{0}};
            der_alg(&s, t->alg, t->curve, pk_dgst_param(t)); der_raw(&q, "\0", 1); der_tlv(&q, 4, xy, pl); der_wrap(&s, 3, &q); der_wrap(&e, 0x30, &s);
            p = pk_load_spki(&e);
            if (p && !want) vh_viol("bad-public-accepted", "%s kind %d: %s", an(&k), bad, vh_hex(xy, pl));
            if (!p && want) vh_viol("good-public-refused", "%s kind %d", an(&k), bad);
            EVP_PKEY_free(p); ERR_clear_error();
            vh_count("bad_publics_refused", 1); vh_sig("badpub|%s|%d|%zu", an(&k), bad, bad == 1 ? pl : 0);
            break; }
        }
        vh_sig("%s|%s|%d|%d", an(&k), k.how, kind, BN_num_bits(k.d) / 16);
        if (a == 0) vh_sample("%s format %d d=%s", an(&k), kind, pk_bnh(k.d));
        ERR_clear_error();
    }
    /* comparisons distinguish keys and parameters */
    int samekey = k.t->alg == z.t->alg && k.t->curve == z.t->curve && !memcmp(k.xy, z.xy, 2 * n);
    if ((EVP_PKEY_eq(k.pk, z.pub) == 1) != samekey) vh_viol("eq-wrong", "%s %s", an(&k), an(&z));
    if (k.t->alg == z.t->alg && (EVP_PKEY_parameters_eq(k.pk, z.pub) == 1) != (k.t->curve == z.t->curve)) vh_viol("params-eq-wrong", "%s %s", an(&k), an(&z));
    /* what is printed is that key (2012 keys have no printing of parameters alone) */
    for (int w = 0; w < (k.t->alg == R1 ? 3 : 2); w++) {
        BIO *b = BIO_new(BIO_s_mem()); char *pt; BIGNUM *v = NULL, *g = BN_new(); int ind = (int)rn(130), r;
        r = w == 0 ? EVP_PKEY_print_private(b, k.pk, ind, NULL) : w == 1 ? EVP_PKEY_print_public(b, chance(1, 2) ? k.pk : k.pub, ind, NULL) : EVP_PKEY_print_params(b, chance(1, 2) ? k.pk : k.pub, ind, NULL);
        BIO_write(b, "", 1); BIO_get_mem_data(b, &pt);
        if (r != 1) vh_viol("print-failed", "%s %d: %s", an(&k), w, vh_eng_reason());
        else {
            const char *tag[] = { "Private key: ", "X:", "Y:" };
            for (int j = 0; j < 3; j++) {
                char *at = strstr(pt, tag[j]); int there = j == 0 ? w == 0 : w < 2;
                if (!!at != there) { vh_viol("print-parts", "%s: %s is %sprinted by print %d", an(&k), tag[j], at ? "" : "not ", w); continue; }
                if (!at) continue;
                if (j == 0) BN_copy(g, k.d); else BN_lebin2bn(k.xy + (j - 1) * n, n, g);
                if (!BN_hex2bn(&v, at + strlen(tag[j])) || BN_cmp(v, g)) vh_viol("print-value", "%s: %s%s printed for %s", an(&k), tag[j], v ? pk_bnh(v) : "?", pk_bnh(g));
            }
            char *ps = strstr(pt, "Parameter set: "); const char *ln = OBJ_nid2ln(k.t->curve);
            if (!ps || strncmp(ps + 15, ln, strlen(ln)) || ps[15 + strlen(ln)] != '\n') vh_viol("print-params", "%s print %d: parameter set %.40s for %s", an(&k), w, ps ? ps + 15 : "?", ln);
            vh_count("prints_checked", 1);
        }
        BN_free(v); BN_free(g); BIO_free(b);
    }
    BN_CTX_free(bx); pk_free(&k); pk_free(&z);
}

/* ---------------------------------------------------------------- P15 */
#include "gost_gost2015.h"
static void kdf_case(void)
{
    int what = rn(5);
    u8 key[80], label[80], seed[80]; size_t ll = rn(64), sl = rn(64);
    rkey(key, 32); rcontent(label, sizeof label); rcontent(seed, sizeof seed);
    switch (what) {
    case 0: case 1: {                                   /* KDF_TREE; with one block and R=1 it is KDF_GOSTR3411_2012_256 */
        size_t kl = chance(2, 3) ? 32 : 1 + rn(80), ol = 32 * (chance(1, 3) ? 1 : 1 + rn(20)); int R = 1 + rn(4);
        if (chance(1, 30)) { R = chance(1, 2) ? 2 : 1 + rn(2); ol = 32 * (200 + rn(56)); }
        if (kl > 32) rbytes(key, kl);
        u8 *w = malloc(ol), *g = malloc(ol + 8); memset(g, 0xa5, ol + 8);
        ref_kdf_tree(key, kl, label, ll, seed, sl, R, ol, w);
        vh_log("kdftree kl %zu ll %zu sl %zu R %d ol %zu key %s", kl, ll, sl, R, ol, vh_hex(key, kl));
        int r = gost_kdftree2012_256(g, ol, key, kl, label, ll, seed, sl, R);
        if (r <= 0) vh_viol("kdf-fails", "ll %zu sl %zu R %d ol %zu", ll, sl, R, ol);
        else if (memcmp(g, w, ol)) vh_viol("kdf-wrong", "key=%s label=%s seed=%s R=%d ol=%zu got %s want %s", vh_hex(key, kl), vh_hex(label, ll), vh_hex(seed, sl), R, ol, vh_hex(g, 32), vh_hex(w, 32));
        for (int i = 0; i < 8; i++) if (g[ol + i] != 0xa5) { vh_viol("kdf-overrun", "ol %zu", ol); break; }
        free(w); free(g);
        vh_count("kdf_checked", 1); vh_sig("kdf|%zu|%zu|%zu|%d|%zu", kl / 8, ll / 8, sl / 8, R, ol / 32);
        vh_sample("kdftree kl %zu ll %zu sl %zu R %d ol %zu", kl, ll, sl, R, ol);
        break; }
    case 2: {                                           /* requests that cannot be honoured */
        size_t ol = 32; int R = 1, r, k = rn(3);
        switch (k) {
        case 0: ol = 1 + rn(300); if (ol % 32 == 0) ol++; break;
        case 1: { static const int bad[] = {0, -1, 5, 8, 9, 100}; R = bad[rn(6)]; break; }
        case 2: ol = 32 * (256 + rn(20)); R = 1; break;     /* more blocks than a one-octet counter can number */
        }
        u8 *g = malloc(ol + 64);
        r = gost_kdftree2012_256(g, ol, key, 32, label, ll, seed, sl, R);
        if (r > 0) vh_viol("kdf-accepts", "output length %zu with representation %d", ol, R);
        free(g); ERR_clear_error(); vh_count("kdf_refused", 1); vh_sig("kdfbad|%d|%zu|%d", k, ol / 32, R);
        break; }
    case 3: {                                           /* TLSTREE */
        for (int i = 0; i < 8; i++) {
            u8 seq[8], w[32], g[32]; uint64_t s = 0; bc_type b = chance(1, 2) ? BC_MAGMA : BC_KUZ;
            switch (rn(4)) { case 0: s = rn(200); break; case 1: s = (1ull << rn(64)) - rn(3); break; case 2: s = rnd() & ~((1ull << rn(64)) - 1); break; default: s = rnd(); }
            if (chance(1, 10)) s = ~0ull;
            for (int j = 0; j < 8; j++) seq[j] = s >> (56 - 8 * j);
            ref_tlstree(b, key, s, w);
            int r = gost_tlstree(b == BC_KUZ ? NID_grasshopper_cbc : NID_magma_cbc, key, g, seq);
            if (r <= 0) vh_viol("tlstree-fails", "seq %llu", (unsigned long long)s);
            else if (memcmp(g, w, 32)) vh_viol("tlstree-wrong", "%s seq=%016llx key=%s got %s want %s", b == BC_KUZ ? "kuznyechik" : "magma", (unsigned long long)s, vh_hex(key, 32), vh_hex(g, 32), vh_hex(w, 32));
            vh_count("tlstree_checked", 1); vh_sig("tls|%d|%d|%d", b, 64 - (s ? __builtin_clzll(s) : 64), s ? __builtin_ctzll(s) : 64);
        }
        break; }
    case 4: {                                           /* KExp15 */
        bc_type b = chance(1, 2) ? BC_MAGMA : BC_KUZ; int bs = b == BC_KUZ ? 16 : 8, ol = 0, r;
        int cn = b == BC_KUZ ? NID_grasshopper_ctr : NID_magma_ctr, mn = b == BC_KUZ ? NID_grasshopper_mac : NID_magma_mac;
        u8 ck[32], mk[32], iv[16], w[48], g[64], bk[64];
        rkey(ck, 32); rkey(mk, 32); rcontent(iv, 16);
        ref_kexp15(b, key, ck, mk, iv, w);
        memset(g, 0xa5, sizeof g); memset(bk, 0xa5, sizeof bk);
        r = gost_kexp15(key, 32, cn, ck, mn, mk, iv, bs / 2, g, (ol = 32 + bs, &ol));
        if (r <= 0 || ol != 32 + bs || memcmp(g, w, ol)) vh_viol("kexp15-wrong", "%d r %d ol %d key=%s ck=%s mk=%s iv=%s got %s want %s", bs, r, ol, vh_hex(key, 32), vh_hex(ck, 32), vh_hex(mk, 32), vh_hex(iv, bs / 2), vh_hex(g, 32 + bs), vh_hex(w, 32 + bs));
        for (int i = 32 + bs; i < 64; i++) if (g[i] != 0xa5) { vh_viol("kexp15-overrun", "bs %d", bs); break; }
        r = gost_kimp15(w, 32 + bs, cn, ck, mn, mk, iv, bs / 2, bk);
        if (r <= 0 || memcmp(bk, key, 32)) vh_viol("kimp15-wrong", "bs %d r %d", bs, r);
        vh_count("kexp15_checked", 1);
        for (int a = 0; a < 4; a++) {
            u8 x[80], c2[32], m2[32], i2[16]; int xl = 32 + bs, il = bs / 2, k = rn(7); memset(x, 0, sizeof x); memcpy(x, w, xl); memcpy(c2, ck, 32); memcpy(m2, mk, 32); memcpy(i2, iv, 16);
            switch (k) {
            case 0: x[rn(xl)] ^= 1 << rn(8); break;
            case 1: c2[rn(32)] ^= 1 << rn(8); break;
            case 2: m2[rn(32)] ^= 1 << rn(8); break;
            case 3: i2[rn(bs / 2)] ^= 1 << rn(8); break;
            case 4: xl = rn(xl); break;
            case 5: xl += 1 + rn(20); break;
            case 6: il = rn(17); if (il == bs / 2) il++; break;
            }
            memset(bk, 0xa5, sizeof bk);
            u8 *xx = malloc(xl ? xl : 1), *ii = malloc(il ? il : 1); memcpy(xx, x, xl); memcpy(ii, i2, il <= 16 ? il : 16);
            r = gost_kimp15(xx, xl, cn, c2, mn, m2, ii, il, bk);
            free(xx); free(ii);
            if (r > 0) vh_viol("kimp15-accepts", "bs %d alteration %d (exported length %d, iv length %d)", bs, k, xl, il);
            for (int i = 32; i < 64; i++) if (bk[i] != 0xa5) { vh_viol("kimp15-overrun", "bs %d alteration %d", bs, k); break; }
            ERR_clear_error(); vh_count("kimp15_refused", 1); vh_sig("kimp|%d|%d|%d", bs, k, k == 4 || k == 5 ? xl : k == 6 ? il : 0);
        }
        vh_sig("kexp|%d", bs);
        break; }
    }
}
/* the wrap ciphers: EVP interface over KExp15 */
static void kwrap_case(void)
{
    bc_type b = chance(1, 2) ? BC_MAGMA : BC_KUZ; int bs = b == BC_KUZ ? 16 : 8, l, r;
    const EVP_CIPHER *ci = NULL; ENG(ci = EVP_get_cipherbynid(b == BC_KUZ ? NID_kuznyechik_kexp15 : NID_magma_kexp15));
    EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new();
    int ops = 1 + rn(3);
    for (int o = 0; o < ops; o++) {
        u8 key[64], cek[32], iv[16], w[48], out[96];
        rkey(key, 64); rkey(cek, 32); rcontent(iv, 16); memset(out, 0xa5, sizeof out);
        /* first half authenticates, second half encrypts */
        ref_kexp15(b, cek, key + 32, key, iv, w);
        if (chance(1, 2)) EVP_CIPHER_CTX_reset(c);
        EVP_CIPHER_CTX_set_flags(c, EVP_CIPHER_CTX_FLAG_WRAP_ALLOW);
        vh_log("kwrap bs %d key %s", bs, vh_hex(key, 64));
        /* wrapping is not implemented through EVP: it has to fail or be right */
        if (chance(1, 2) && EVP_EncryptInit_ex(c, ci, NULL, key, iv) > 0) {
            l = 0; r = EVP_EncryptUpdate(c, out, &l, cek, 32);
            if (r > 0 && (l != 32 + bs || memcmp(out, w, l))) vh_viol("wrap-wrong", "bs %d r %d l %d got %s want %s", bs, r, l, vh_hex(out, 32 + bs), vh_hex(w, 32 + bs));
            for (int i = 32 + bs; i < 96; i++) if (out[i] != 0xa5) { vh_viol("wrap-overrun", "bs %d", bs); break; }
        }
        ERR_clear_error();
        int alt = rn(6); u8 x[80] = {0}; int xl = 32 + bs; memcpy(x, w, xl);
        switch (alt) {
        case 1: x[rn(xl)] ^= 1 << rn(8); break;
        case 2: key[rn(64)] ^= 1 << rn(8); break;
        case 3: iv[rn(bs / 2)] ^= 1 << rn(8); break;
        case 4: xl = 1 + rn(xl - 1); break;
        case 5: xl += 1 + rn(16); break;
        }
        EVP_CIPHER_CTX *d = chance(1, 2) ? c : EVP_CIPHER_CTX_new();
        EVP_CIPHER_CTX_set_flags(d, EVP_CIPHER_CTX_FLAG_WRAP_ALLOW);
        /* whatever an earlier key left unfinished in the context is forgotten */
        int again = d == c && EVP_CIPHER_CTX_get0_cipher(c) && chance(2, 3);
        ENG(EVP_DecryptInit_ex(d, again ? NULL : ci, NULL, key, iv));
        if (again) vh_count("wrap_reinits", 1);
        memset(out, 0xa5, sizeof out); l = 0;
        u8 *xx = malloc(xl); memcpy(xx, x, xl);
        int parts = chance(1, 2) ? 1 : 2 + rn(3), pos = 0, tot = 0, fl = 0;
        for (r = 1; parts && r > 0; parts--) {
            int n = parts == 1 ? xl - pos : rn(xl - pos + 1); l = 0;
            if (n == 0) continue;
            r = EVP_DecryptUpdate(d, out + tot, &l, xx + pos, n);
            if (r > 0) tot += l;
            if (tot > 32) break;
            pos += n;
        }
        if (r > 0 && tot <= 32) { r = EVP_DecryptFinal_ex(d, out + tot, &fl); if (r > 0) tot += fl; }
        free(xx);
        if (alt == 0 && (r <= 0 || tot != 32 || memcmp(out, cek, 32))) vh_viol("unwrap-wrong", "bs %d r %d l %d", bs, r, tot);
        if (alt && r > 0) vh_viol("altered-wrap-accepted", "bs %d alteration %d xl %d l %d", bs, alt, xl, tot);
        for (int i = 32 + bs; i < 96; i++) if (out[i] != 0xa5) { vh_viol("unwrap-overrun", "bs %d alteration %d", bs, alt); break; }
        ERR_clear_error();
        if (d != c) EVP_CIPHER_CTX_free(d);
        vh_count(alt ? "altered_wraps" : "wraps_checked", 1); vh_sig("kwrap|%d|%d|%d", bs, alt, alt > 3 ? xl : 0);
    }
    EVP_CIPHER_CTX_free(c);
}
const vh_workload vh_workloads[] = {
    {"vko", vko_case, setup, NULL}, {"wrap", wrap_case, setup, NULL}, {"tamper", tamper_case, setup, NULL},
    {"ser", ser_case, setup, NULL}, {"kdf", kdf_case, NULL, NULL}, {"kwrap", kwrap_case, NULL, NULL}, {0}
};
