/* LD_PRELOAD: read() gives SR_MODE 1: short counts, 2: EIO at the SR_AT-th call */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdlib.h>
#include <sys/types.h>
#include <unistd.h>
ssize_t read(int fd, void *b, size_t n)
{
    static ssize_t (*r)(int, void *, size_t); static long calls; static unsigned long s; const char *m = getenv("SR_MODE"), *a = getenv("SR_AT");
    if (!r) { *(void **)&r = dlsym(RTLD_NEXT, "read"); s = a ? strtoul(a, 0, 10) * 2654435761ul + 12345 : 1; }
    calls++;
    if (m && *m == '2' && a && calls == atol(a)) { errno = EIO; return -1; }
    if (m && *m == '1' && n > 1) { s = s * 6364136223846793005ul + 1442695040888963407ul; unsigned long k = s >> 33; n = k % 4 == 0 ? 1 + k / 4 % 97 : k % 4 == 1 ? 1 + k / 4 % (n < 5000 ? n : 5000) : n; }
    return r(fd, b, n);
}
