/* P27: allocation failures in the provider.  Every allocation made below a function of the provider (found by unwinding) fails in
 * turn, alone or with all later ones: an operation which reports success has the result it has without failures, nothing the
 * provider allocated is left behind, and afterwards the same script works again. */
#include "prov.h"
#include "palloc.h"
#include "pscript.h"
static int what;
static int s_load(void)
{
    vp_prov = OSSL_PROVIDER_load(NULL, "gost"); if (!vp_prov) return 0;
    int r = s_digest();
    OSSL_PROVIDER_unload(vp_prov); vp_prov = NULL;
    return r;
}
static int (*const scripts[])(void) = { s_cipher, s_digest, s_mac, s_load };
static const char *const sn[] = { "cipher", "digest", "mac", "load" };
static int run1(uint64_t s, long at, int st)
{
    rl = 0; sseed = s; nalloc = 0; fail_at = at; sticky = st; hits = 0; ffile = NULL; armed = 1;
    int r = scripts[what](); armed = 0; if (fail_at < 0 && !r) vh_log("%s", vh_eng_reason()); fail_at = -1; ERR_clear_error();
    return r;
}
static void run_oom(void)
{
    static u8 want[4096]; char names[400]; uint64_t s = rnd();
    what = (int)(vh_case % 4); if (what == 3 && chance(1, 2)) what = 0;
    if (what == 3) vp_unload();
    if (what != 3 || !vp_prov) ENG(run1(s, -1, 0));              /* first use of everything */
    ENG(run1(s, -1, 0)); size_t wl = rl; long n = nalloc; memcpy(want, res, wl); long left = ours(NULL, 0);
    for (long i = 0; i < n; i++) for (int st = 0; st < 2; st++) {
        int r = run1(s, i, st);
        if (!hits) continue;
        vh_count("failures_injected", 1); vh_count(r ? "succeeded_anyway" : "scripts_failed", 1);
        vh_sig("oom %s %d %s:%d", sn[what], st, base(ffile), fline);
        if (r && (rl != wl || memcmp(res, want, wl))) vh_viol("prov-oom", "%s: wrong result after a failed allocation at %s:%d", sn[what], base(ffile), fline);
        if (r == 0 && (rl > wl || memcmp(res, want, rl))) vh_viol("prov-oom", "%s: wrong result before a failure is reported, allocation at %s:%d", sn[what], base(ffile), fline);
        const char *f0 = ffile; int l0 = fline;
        if (run1(s, -1, 0) != 1 || rl != wl || memcmp(res, want, wl)) { vh_viol("prov-oom-after", "%s: the script does not work any more after a failed allocation at %s:%d", sn[what], base(f0), l0); return; }
        long k = ours(names, sizeof names);
        if (k != left) vh_viol("prov-oom-leak", "%s: %ld blocks left after a failed allocation at %s:%d:%s", sn[what], k - left, base(f0), l0, names), left = k;
    }
    vh_count("scripts", 1); vh_sample("%s, %ld allocations", sn[what], n);
    if (!vp_prov) vp_load();
}
const vh_workload vh_workloads[] = { { "oom", run_oom, 0, 0 }, { 0 } };
