#include "vh.h"
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <setjmp.h>

uint64_t vh_seed, vh_case;
const char *vh_mode = "";
int vh_thorough, vh_verbose, vh_case_failed;
static uint64_t s[4];
static long nviol;
static volatile uint64_t *state;

static uint64_t sm(uint64_t *x)
{
    uint64_t z = (*x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static uint64_t fnv(const char *p, size_t n)
{
    uint64_t h = 1469598103934665603ull;
    while (n--) { h ^= (u8)*p++; h *= 1099511628211ull; }
    return h;
}
static void reseed(void)
{
    uint64_t x = vh_seed * 0x9e3779b97f4a7c15ull ^ fnv(vh_mode, strlen(vh_mode)) ^ (vh_case << 20) ^ vh_case;
    for (int i = 0; i < 4; i++) s[i] = sm(&x);
}
static inline uint64_t rotl(uint64_t x, int k) { return x << k | x >> (64 - k); }
uint64_t rnd(void)
{
    uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
    return r;
}
void rbytes(void *p, size_t n)
{
    u8 *q = p;
    while (n) { uint64_t v = rnd(); size_t k = n < 8 ? n : 8; memcpy(q, &v, k); q += k; n -= k; }
}
void rcontent(void *p, size_t n)
{
    u8 *q = p;
    static const uint64_t w[] = { 0, ~0ull, 1, 1ull << 63, 0x7fffffffffffffffull, ~0ull - 1, 0x8080808080808080ull, 0xffffffffull };
    switch (rn(7)) {
    case 0: memset(p, 0, n); break;
    case 1: memset(p, 0xff, n); break;
    case 2: memset(p, 0, n); for (int k = (int)rn(4); k >= 0 && n; k--) q[rn(n)] = (u8)(1 << rn(8)); break;
    case 3: for (size_t i = 0; i < n; i += 8) { uint64_t v = chance(3, 4) ? w[rn(8)] : rnd(); size_t k = n - i < 8 ? n - i : 8; memcpy(q + i, &v, k); } break;
    default: rbytes(p, n);
    }
}
void rkey(void *p, size_t n)
{
    if (chance(1, 8)) rcontent(p, n); else rbytes(p, n);
}
/* a new key, sometimes one closely related to the present one */
void rkey_next(unsigned char *k, size_t n)
{
    if (!chance(1, 4)) { rkey(k, n); return; }
    switch (rn(3)) {
    case 0: k[rn(n)] ^= 1u << rn(8); break;
    case 1: rbytes(k + n / 2, n - n / 2); break;
    case 2: rbytes(k, n / 2); break;
    }
    vh_count("related_keys", 1);
}
size_t rlen(size_t max)
{
    static const int b[] = { 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192 };
    size_t l;
    switch (rn(6)) {
    case 0: l = rn(20); break;
    case 1: l = rn(140); break;
    case 2: l = b[rn(11)] * (1 + rn(4)) + rn(5) - 2; break;
    case 3: l = b[rn(6)] * (1 + rn(8)) + rn(3) - 1; break;
    case 4: l = rn(1100); break;
    default: l = rn(max + 1);
    }
    return l > max ? rn(max + 1) : l;
}

/* ---- counters and signatures ---- */
static struct { const char *k; long n; } ctr[512];
static int nctr;
void vh_count(const char *key, long n)
{
    for (int i = 0; i < nctr; i++)
        if (ctr[i].k == key || !strcmp(ctr[i].k, key)) { ctr[i].n += n; return; }
    if (nctr == 512) vh_fatal("too many counters");
    ctr[nctr].k = strdup(key); ctr[nctr++].n = n;
}
static uint64_t *sigs; static size_t nsig, csig;
static void sig_add(uint64_t h)
{
    if (!h) h = 1;
    if ((nsig + 1) * 2 > csig) {
        size_t oc = csig; uint64_t *o = sigs;
        csig = csig ? csig * 2 : 4096;
        sigs = calloc(csig, 8);
        for (size_t i = 0; i < oc; i++) if (o[i]) {
            size_t j = o[i] & (csig - 1);
            while (sigs[j]) j = (j + 1) & (csig - 1);
            sigs[j] = o[i];
        }
        free(o);
    }
    size_t j = h & (csig - 1);
    while (sigs[j]) { if (sigs[j] == h) return; j = (j + 1) & (csig - 1); }
    sigs[j] = h; nsig++;
}
void vh_sig(const char *fmt, ...)
{
    char b[2048]; va_list ap;
    va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (n > (int)sizeof b - 1) n = sizeof b - 1;
    sig_add(fnv(b, n));
}
static int nsample;
void vh_sample(const char *fmt, ...)
{
    if (nsample >= 3) return;
    nsample++;
    char b[900]; va_list ap;
    va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    printf("SAMPLE mode=%s case=%llu %s\n", vh_mode, (unsigned long long)vh_case, b);
}
static char *lg; static size_t lgn, lgc;
int vh_log_on(void) { return 1; }
void vh_log(const char *fmt, ...)
{
    va_list ap;
    if (lgc - lgn < 2048) { lgc = lgc ? lgc * 2 : 16384; lg = realloc(lg, lgc); }
    if (lgn > (1 << 20)) return;
    va_start(ap, fmt); int n = vsnprintf(lg + lgn, 2000, fmt, ap); va_end(ap);
    if (n > 1999) n = 1999;
    lgn += n; lg[lgn++] = '\n'; lg[lgn] = 0;
    if (vh_verbose) { fwrite(lg + lgn - n - 1, 1, n + 1, stderr); }
}
const char *vh_hex(const void *p, size_t n)
{
    static char b[8][1100]; static int i;
    char *o = b[i = (i + 1) & 7]; const u8 *q = p;
    size_t m = n > 512 ? 512 : n;
    for (size_t k = 0; k < m; k++) sprintf(o + 2 * k, "%02x", q[k]);
    o[2 * m] = 0;
    if (m < n) strcat(o, "...");
    return o;
}
void vh_viol(const char *key, const char *fmt, ...)
{
    char b[4000]; va_list ap;
    va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    for (char *c = b; *c; c++) if (*c == '\n') *c = ' ';
    char kb[400]; snprintf(kb, sizeof kb, "%s", *key ? key : "-"); key = kb;
    for (char *c = kb; *c; c++) if (*c <= ' ') *c = '-';
    vh_case_failed = 1;
    nviol++;
    if (nviol > 200) return;
    printf("VIOL key=%s mode=%s seed=%llu case=%llu msg=%s\n", key, vh_mode,
           (unsigned long long)vh_seed, (unsigned long long)vh_case, b);
    if (lgn) {
        size_t from = lgn > 6000 ? lgn - 6000 : 0;
        char *p = lg + from;
        while (p && *p) { char *e = strchr(p, '\n'); if (e) *e = 0; printf("TRACE %s\n", p); if (e) *e = '\n'; p = e ? e + 1 : NULL; }
    }
    fflush(stdout);
}
void vh_fatal(const char *fmt, ...)
{
    va_list ap;
    fflush(stdout);
    fprintf(stderr, "HARNESS-ERROR mode=%s seed=%llu case=%llu: ", vh_mode, (unsigned long long)vh_seed, (unsigned long long)vh_case);
    va_start(ap, fmt); vfprintf(stderr, fmt, ap); va_end(ap);
    fputc('\n', stderr);
    if (lgn) fprintf(stderr, "%s", lgn > 3000 ? lg + lgn - 3000 : lg);
    _exit(3);
}
static jmp_buf casejmp; static int injmp;
__attribute__((weak)) const char *vh_eng_reason(void) { return ""; }
void vh_eng_failed(const char *file, int line, const char *what)
{
    const char *f = strrchr(file, '/');
    vh_viol("engine-call-failed", "%s:%d: %s %s", f ? f + 1 : file, line, what, vh_eng_reason());
    if (injmp) longjmp(casejmp, 1);
    printf("END viol=%ld\n", nviol);
    fflush(stdout);
    _exit(1);
}
int main(int argc, char **argv)
{
    if (argc < 5) { fprintf(stderr, "usage: %s mode seed start count [thorough] [-v]\n", argv[0]); return 3; }
    vh_mode = argv[1];
    vh_seed = strtoull(argv[2], 0, 10);
    uint64_t start = strtoull(argv[3], 0, 10), cnt = strtoull(argv[4], 0, 10);
    for (int i = 5; i < argc; i++) { if (!strcmp(argv[i], "thorough")) vh_thorough = 1; if (!strcmp(argv[i], "-v")) vh_verbose = 1; }
    const vh_workload *volatile w = vh_workloads;
    while (w->name && strcmp(w->name, vh_mode)) w++;
    if (!w->name) { fprintf(stderr, "no workload %s\n", vh_mode); return 3; }
    const char *st = getenv("VH_STATE");
    static uint64_t dummy;
    state = &dummy;
    if (st) {
        int fd = open(st, O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, 64)) vh_fatal("state file");
        void *m = mmap(NULL, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (m == MAP_FAILED) vh_fatal("mmap");
        state = m; close(fd);
    }
    *state = ~0ull;
    vh_case = start; reseed();
    vh_program_init(argc, argv);
    if (w->setup) w->setup();
    volatile uint64_t done = 0;
    for (volatile uint64_t i = 0; i < cnt; i++) {
        vh_case = start + i;
        *state = vh_case;
        reseed();
        lgn = 0; if (lg) *lg = 0;
        vh_case_failed = 0;
        injmp = 1;
        if (!setjmp(casejmp)) w->run();
        injmp = 0;
        done++;
        if (nviol >= 200) break;
    }
    *state = ~0ull - 1;
    if (w->done) w->done();
    vh_program_exit();
    printf("COUNT cases %llu\n", (unsigned long long)done);
    for (int i = 0; i < nctr; i++) printf("COUNT %s %ld\n", ctr[i].k, ctr[i].n);
    const char *sf = getenv("VH_SIGS");
    if (sf) {
        FILE *f = fopen(sf, "wb");
        if (!f) vh_fatal("sigs");
        for (size_t i = 0; i < csig; i++) if (sigs[i]) fwrite(&sigs[i], 8, 1, f);
        fclose(f);
    }
    printf("END viol=%ld\n", nviol);
    fflush(stdout);
    free(sigs); free(lg);
    for (int i = 0; i < nctr; i++) free((void *)ctr[i].k);
    return nviol ? 1 : 0;
}
