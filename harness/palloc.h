/* an allocator for libcrypto which knows what is allocated below the provider, and can fail there */
#include <execinfo.h>
void vp_text_lo(void); extern char etext;
static int below(void)
{
    void *bt[40]; int n = backtrace(bt, 40);
    for (int i = 0; i < n; i++) if ((char *)bt[i] > (char *)vp_text_lo && (char *)bt[i] < &etext) return i;     /* how far up */
    return 0;
}
typedef struct blk { struct blk *next, *prev; size_t n; const char *file; int line, eng, told, pad; } blk;
_Static_assert(sizeof(blk) % 16 == 0, "alignment");
static blk all = { &all, &all, 0, 0, 0, 0, 0, 0 };
static int armed, sticky; static long nalloc, fail_at = -1, hits; static const char *ffile; static int fline;
static void *h_malloc(size_t n, const char *f, int l)
{
    int e = below();
    if (armed && e) {
        long i = nalloc++;
        if (fail_at >= 0 && (i == fail_at || (sticky && i > fail_at))) { if (!hits++) { ffile = f; fline = l; } return NULL; }
    }
    blk *b = malloc(sizeof *b + n); if (!b) return NULL;
    b->n = n; b->file = f; b->line = l; b->eng = e; b->told = 0; b->next = all.next; b->prev = &all; all.next->prev = b; all.next = b;
    memset(b + 1, 0xcd, n);
    return b + 1;
}
static void h_free(void *p, const char *f, int l)
{
    (void)f; (void)l; if (!p) return;
    blk *b = (blk *)p - 1; b->next->prev = b->prev; b->prev->next = b->next; free(b);
}
static void *h_realloc(void *p, size_t n, const char *f, int l)
{
    if (!p) return h_malloc(n, f, l);
    if (!n) { h_free(p, f, l); return NULL; }
    void *q = h_malloc(n, f, l); if (!q) return NULL;
    size_t o = ((blk *)p - 1)->n; memcpy(q, p, o < n ? o : n); h_free(p, f, l); return q;
}
__attribute__((constructor)) static void hook(void) { CRYPTO_set_mem_functions(h_malloc, h_realloc, h_free); }
static const char *base(const char *f) { const char *s = f ? strrchr(f, '/') : NULL; return s ? s + 1 : f ? f : "?"; }
static long ours(char *names, size_t cap)
{
    long n = 0; if (names) *names = 0;
    for (blk *b = all.next; b != &all; b = b->next) if (!strncmp(base(b->file), "gost", 4)) { n++; if (names && n < 5) snprintf(names + strlen(names), cap - strlen(names), " %s:%d(%zu)", base(b->file), b->line, b->n); }
    return n;
}
