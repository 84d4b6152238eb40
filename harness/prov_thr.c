/* P27: the provider used by several threads at once, from its first use on.  ThreadSanitizer watches; every script of
 * operations has to give the result it gives alone. */
#include "prov.h"
#include <pthread.h>
#include <sched.h>
#include "pscript.h"
static int (*const scripts[])(void) = { s_cipher, s_digest, s_mac };
#define NT 6
#define NS 4
static struct { int what[NS], ok[NS]; uint64_t seed[NS]; u8 out[NS][4096]; size_t n[NS]; int loads; } t[NT];
static pthread_barrier_t bar; static int nt, order[NT * NS], no;
static void *thr(void *a)
{
    int k = (int)(intptr_t)a;
    pthread_barrier_wait(&bar);
    OSSL_LIB_CTX *lc = NULL; OSSL_PROVIDER *p = NULL;
    int GOST_provider_init(const OSSL_CORE_HANDLE *core, const OSSL_DISPATCH *in, const OSSL_DISPATCH **out, void **ctx);
    if (t[k].loads && (lc = OSSL_LIB_CTX_new()) && OSSL_PROVIDER_add_builtin(lc, "gost", GOST_provider_init)) p = OSSL_PROVIDER_load(lc, "gost");
    for (int i = 0; i < NS; i++) {
        rl = 0; sseed = t[k].seed[i];
        order[__atomic_fetch_add(&no, 1, __ATOMIC_RELAXED)] = t[k].what[i];
        t[k].ok[i] = scripts[t[k].what[i]]();
        memcpy(t[k].out[i], res, rl); t[k].n[i] = rl;
        if (i == 1 && p) { OSSL_PROVIDER_unload(p); p = NULL; OSSL_LIB_CTX_free(lc); lc = NULL; }
        if (i == 2) sched_yield();
    }
    if (p) OSSL_PROVIDER_unload(p);
    OSSL_LIB_CTX_free(lc);
    return NULL;
}
static void run_thr(void)
{
    pthread_t th[NT]; char sig[100]; size_t sl = 0;
    vp_unload(); vp_load();         /* nothing has been used yet */
    nt = 2 + (int)rn(NT - 1); no = 0;
    int same = chance(1, 2), w = (int)rn(3); uint64_t s = rnd();
    for (int k = 0; k < nt; k++) { t[k].loads = chance(1, 6); for (int i = 0; i < NS; i++) { t[k].what[i] = same ? w : (int)rn(3); t[k].seed[i] = same && i == 0 ? s : rnd(); } }
    HARN(pthread_barrier_init(&bar, NULL, (unsigned)nt) == 0);
    for (int k = 0; k < nt; k++) HARN(pthread_create(&th[k], NULL, thr, (void *)(intptr_t)k) == 0);
    for (int k = 0; k < nt; k++) pthread_join(th[k], NULL);
    pthread_barrier_destroy(&bar);
    for (int k = 0; k < nt; k++) for (int i = 0; i < NS; i++) {
        rl = 0; sseed = t[k].seed[i];
        int r = scripts[t[k].what[i]](); ENG(r);
        if (!t[k].ok[i] || t[k].n[i] != rl || memcmp(t[k].out[i], res, rl)) vh_viol("prov-threads", "script %d fails or gives something else among %d threads", t[k].what[i], nt);
        vh_count("thread_scripts", 1);
    }
    for (int i = 0; i < no && sl < 24; i++) sig[sl++] = (char)('0' + order[i]);
    sig[sl] = 0; vh_sig("threads %d %s", nt, sig); vh_count("threads", nt); vh_sample("%d threads %s", nt, sig);
}
const vh_workload vh_workloads[] = { { "thr", run_thr, 0, 0 }, { 0 } };
