/* P22: valgrind's memcheck follows the secret scalar, marked undefined, through scalar multiplication; a branch or an address
 * that depends on it is reported, and counts when it is made by the arithmetic of the engine itself (ecp_*.c).  The log of
 * valgrind has to be $VH_TMP/vg.<pid>.log. */
#define OPENSSL_SUPPRESS_DEPRECATED
#include "pk.h"
#include "gost_lcl.h"
#include "gost-engine.h"
#include <valgrind/memcheck.h>
#include <dlfcn.h>
#include <unistd.h>

struct bn_ { BN_ULONG *d; int top, dmax, neg, flags; };      /* OpenSSL's layout; checked in setup */
static size_t words(const BIGNUM *b) { return (size_t)((const struct bn_ *)b)->top * sizeof(BN_ULONG); }
static void taint(const BIGNUM *b) { struct bn_ *x = (struct bn_ *)b; (void)VALGRIND_MAKE_MEM_UNDEFINED(x->d, words(b)); vh_count("octets_marked_secret", words(b)); }
static void clear(const BIGNUM *b) { struct bn_ *x = (struct bn_ *)b; (void)VALGRIND_MAKE_MEM_DEFINED(x, sizeof *x); (void)VALGRIND_MAKE_MEM_DEFINED(x->d, (size_t)x->dmax * sizeof(BN_ULONG)); }

/* whether the result is the point at infinity is not secret: the arithmetic asks for it through this function */
int CRYPTO_memcmp(const void *a, const void *b, size_t n)
{
    const volatile u8 *x = a, *y = b; int r = 0;
    while (n--) r |= *x++ ^ *y++;
    r = !!r;
    (void)VALGRIND_MAKE_MEM_DEFINED(&r, sizeof r);
    vh_count("results_compared", 1);
    return r;
}

static FILE *lg; static const char *what;
static int is_mem(const char *fn) { return !strncmp(fn, "mem", 3) || !strncmp(fn, "str", 3) || !strncmp(fn, "bcmp", 4) || !strncmp(fn, "__mem", 5); }
/* the reports written since the last call */
static void reports(void)
{
    char l[600], kind[200] = "", fn[200], file[200]; int state = 0;
    int seen = 0;
    fflush(NULL);
    clearerr(lg);
    while (fgets(l, sizeof l, lg)) {
        char *p = strstr(l, "== "), *q;
        if (strncmp(l, "==", 2) || !p) continue;
        p += 3; p[strcspn(p, "\n")] = 0;
        if (!strncmp(p, "Conditional jump", 16) || !strncmp(p, "Use of uninit", 13) || !strncmp(p, "Syscall param", 13)) { snprintf(kind, sizeof kind, "%.40s", p); state = 1; continue; }
        if (!state) { if (strstr(p, "Invalid") || strstr(p, "Jump to")) { vh_viol("memory", "%s", p); } continue; }
        if (!(q = strstr(p, "at 0x")) && !(q = strstr(p, "by 0x"))) continue;
        if (sscanf(q + 5, "%*[0-9A-Fa-f]: %199s (%199[^)])", fn, file) != 2) { state = 0; seen++; continue; }
        if (is_mem(fn)) continue;          /* called from ... */
        state = 0; seen++;
        if (!strncmp(file, "ecp_", 4)) {
            char key[60], f2[100]; snprintf(f2, sizeof f2, "%.*s", (int)strcspn(file, ":"), file);
            snprintf(key, sizeof key, "%s", kind[0] == 'C' ? "branch" : "address");
            vh_viol(key, "%s in %s at %s depends on the secret scalar (%s)", kind[0] == 'C' ? "a branch" : "a memory address", fn, file, what);
        }
    }
    if (seen) vh_count("reports_elsewhere", seen);
}

static EC_KEY *ec_of(EVP_PKEY *k) { EC_KEY *e; HARN(e = EVP_PKEY_get0(k)); return e; }
static int arrived(const BIGNUM *b) { return VALGRIND_CHECK_MEM_IS_DEFINED(((struct bn_ *)b)->d, words(b)) != 0; }
static void secret_scalar(const rcurve *c, BIGNUM *k)
{
    switch (rn(8)) {
    case 0: BN_set_word(k, 1 + rn(70)); break;
    case 1: HARN(BN_sub(k, c->q, BN_value_one())); if (chance(1, 2)) { BN_sub_word(k, rn(70)); } break;
    case 2: BN_zero(k); for (int i = 0; i < 3; i++) BN_set_bit(k, rn(BN_num_bits(c->q) - 1)); break;
    case 3: HARN(BN_one(k)); BN_lshift(k, k, BN_num_bits(c->q) - 1 - rn(100)); HARN(BN_sub_word(k, 1)); if (BN_is_zero(k)) BN_one(k); break;
    case 4: pk_rscalar(c, k); for (int i = 0; i < 8; i++) BN_clear_bit(k, i); if (BN_is_zero(k)) BN_one(k); break;
    default: pk_rscalar(c, k);
    }
}
static void mul_case(void)
{
    const pk_type *t = &pk_types[rn(pk_ntypes)]; pk_key k; char w[200]; static const char *const on[] = { "base point", "other point" };
    pk_make(&k, t);
    const rcurve *c = k.c; EC_KEY *ec = ec_of(k.pk); const EC_GROUP *g = EC_KEY_get0_group(ec); BN_CTX *bx = BN_CTX_secure_new();
    BIGNUM *s = BN_new(), *x = BN_new(), *y = BN_new(), *j = BN_new(); EC_POINT *R = EC_POINT_new(g); u8 got[128], want[128]; int ok, op, wi, gi = 1, n = k.n;
    for (int it = 0; it < 3; it++) {
        secret_scalar(c, s); op = rn(2);
        HARN(BN_copy(j, s));
        if (op == 0) wi = ref_mul(c, s, NULL, want);
        else { EC_POINT *Q; BN_mul_word(j, c->h); HARN(Q = ref_point(c, k.xy)); wi = ref_mul(c, j, Q, want); EC_POINT_free(Q); }
        snprintf(w, sizeof w, "%s, %s, scalar of %d bits", t->pset, on[op], BN_num_bits(s)); what = w;
        BN_set_flags(s, chance(1, 2) ? BN_FLG_CONSTTIME : 0);
        reports();
        taint(s);
        ok = op ? gost_ec_point_mul(g, R, NULL, EC_KEY_get0_public_key(ec), s, bx) : gost_ec_point_mul(g, R, s, NULL, NULL, bx);
        (void)VALGRIND_MAKE_MEM_DEFINED(&ok, sizeof ok);
        clear(s);
        reports();
        if (!ok) { vh_viol("mul-fails", "%s", w); continue; }
        gi = EC_POINT_is_at_infinity(g, R) ? 0 : 1; (void)VALGRIND_MAKE_MEM_DEFINED(&gi, sizeof gi);
        if (gi) {
            ENG(EC_POINT_get_affine_coordinates(g, R, x, y, bx));
            if (RUNNING_ON_VALGRIND && (arrived(x) || arrived(y))) vh_count("results_secret_reached", 1);
            clear(x); clear(y);
            HARN(BN_bn2lebinpad(x, got, n) == n && BN_bn2lebinpad(y, got + n, n) == n);
        }
        if (gi != wi || (gi && memcmp(got, want, 2 * n))) vh_viol("mul-wrong", "%s", w);
        EC_POINT_free(R); R = EC_POINT_new(g);
        reports();
        vh_count("multiplications", 1);
        vh_sig("%s|%d|%d", t->pset, op, BN_num_bits(s) / 32);
        if (it == 0) vh_sample("%s", w);
    }
    EC_POINT_free(R); BN_free(s); BN_free(x); BN_free(y); BN_free(j); BN_CTX_free(bx); pk_free(&k);
}
/* whole operations: the octets drawn from the generator and the private key are secret */
static uint64_t rs; static int mark;
static int t_bytes(unsigned char *b, int n)
{
    for (int i = 0; i < n; i++) { rs = rs * 6364136223846793005ull + 1442695040888963407ull; b[i] = rs >> 56; }
    if (mark && n > 0) { (void)VALGRIND_MAKE_MEM_UNDEFINED(b, n); vh_count("octets_marked_secret", n); }
    return 1;
}
static int t_status(void) { return 1; }
static const RAND_METHOD tm = {NULL, t_bytes, NULL, NULL, t_bytes, t_status};
static void ops_case(void)
{
    const pk_type *t = &pk_types[rn(pk_ntypes)]; pk_key k, peer; char w[200]; int op = rn(3); EVP_PKEY_CTX *c = NULL; u8 dg[64], o[600]; size_t l = sizeof o;
    static const char *const nm[] = { "key generation", "signature", "key agreement" };
    pk_make(&k, t); pk_make(&peer, t); rbytes(dg, 64); rs = rnd();
    snprintf(w, sizeof w, "%s, %s", t->pset, nm[op]); what = w;
    const BIGNUM *d = EC_KEY_get0_private_key(ec_of(k.pk));
    RAND_set_rand_method(&tm);
    reports();
    mark = 1;
    if (op == 0) {
        EVP_PKEY *n = NULL; int ok;
        ENG(c = EVP_PKEY_CTX_new_id(t->alg, NULL)); ENG(EVP_PKEY_keygen_init(c) > 0 && EVP_PKEY_CTX_ctrl_str(c, "paramset", t->pset) > 0);
        ok = EVP_PKEY_keygen(c, &n); (void)VALGRIND_MAKE_MEM_DEFINED(&ok, sizeof ok); (void)VALGRIND_MAKE_MEM_DEFINED(&n, sizeof n);
        if (ok <= 0) vh_viol("op-fails", "%s", w);
        EVP_PKEY_free(n);
    } else if (op == 1) {
        int ok; ENG(c = EVP_PKEY_CTX_new(k.pk, NULL)); ENG(EVP_PKEY_sign_init(c) > 0 && EVP_PKEY_CTX_set_signature_md(c, pk_md(t)) > 0);
        if (d) taint(d);
        ok = EVP_PKEY_sign(c, o, &l, dg, EVP_MD_size(pk_md(t))); (void)VALGRIND_MAKE_MEM_DEFINED(&ok, sizeof ok);
        if (d) clear(d);
        if (ok <= 0) vh_viol("op-fails", "%s", w);
    } else {
        int ok; ENG(c = EVP_PKEY_CTX_new(k.pk, NULL)); ENG(EVP_PKEY_derive_init(c) > 0 && EVP_PKEY_derive_set_peer(c, peer.pub) > 0);
        ENG(EVP_PKEY_CTX_ctrl(c, -1, -1, EVP_PKEY_CTRL_SET_IV, 8, dg) > 0);
        if (d) taint(d);
        ok = EVP_PKEY_derive(c, o, &l); (void)VALGRIND_MAKE_MEM_DEFINED(&ok, sizeof ok);
        if (d) clear(d);
        if (ok <= 0) vh_viol("op-fails", "%s: %s", w, vh_eng_reason());
    }
    mark = 0;
    reports();
    (void)VALGRIND_MAKE_MEM_DEFINED(o, sizeof o); (void)VALGRIND_MAKE_MEM_DEFINED(&l, sizeof l);
    ERR_clear_error();
    EVP_PKEY_CTX_free(c); pk_free(&k); pk_free(&peer);
    reports();
    vh_count("operations", 1); vh_sig("%s|op%d", t->pset, op);
}
/* the monitor has to see a branch and an address when there is one */
static volatile int tab[256], hit; static __attribute__((noinline)) int leaky(const volatile u8 *p) { if (p[0] & 1) hit++; return tab[p[1]]; }
static void setup(void)
{
    char p[300]; BIGNUM *b = BN_new(); BN_set_word(b, 0x1234567); struct bn_ *x = (struct bn_ *)b;
    HARN(x->top == 1 && x->d[0] == 0x1234567 && x->neg == 0 && x->dmax >= 1); BN_free(b);
    pk_setup();
    if (!RUNNING_ON_VALGRIND) vh_fatal("not under valgrind");
    snprintf(p, sizeof p, "%s/vg.%d.log", getenv("VH_TMP"), (int)getpid());
    HARN(lg = fopen(p, "r"));
    reports();
    u8 s[2] = {5, 7}; (void)VALGRIND_MAKE_MEM_UNDEFINED(s, 2);
    volatile int r = leaky(s); (void)r;
    fflush(NULL);
    clearerr(lg); char l[600]; int br = 0, ad = 0;
    while (fgets(l, sizeof l, lg)) { if (strstr(l, "Conditional jump")) br++; if (strstr(l, "Use of uninit")) ad++; }
    if (!br || !ad) vh_fatal("the monitor is blind (%d %d)", br, ad);
    vh_count("monitor_self_tests", 1);
}
const vh_workload vh_workloads[] = { {"mul", mul_case, setup, NULL}, {"ops", ops_case, setup, NULL}, {0} };
