/* refsum < data: the four digests the tools can print, from the reference implementations */
#include <stdio.h>
#include <stdlib.h>
#include "ref.h"
int main(void)
{
    size_t n = 0, a = 1 << 20, r; u8 *b = malloc(a), d[64];
    while ((r = fread(b + n, 1, a - n, stdin)) > 0) if ((n += r) == a) b = realloc(b, a *= 2);
    ref_gost94(SB_94CP, b, n, d); for (int i = 0; i < 32; i++) printf("%02x", d[31 - i]);
    puts(""); ref_gost94(SB_94TEST, b, n, d); for (int i = 0; i < 32; i++) printf("%02x", d[31 - i]);
    puts(""); ref_streebog(256, b, n, d); for (int i = 0; i < 32; i++) printf("%02x", d[i]);
    puts(""); ref_streebog(512, b, n, d); for (int i = 0; i < 64; i++) printf("%02x", d[i]);
    puts("");
    return 0;
}
