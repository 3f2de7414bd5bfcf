/* what literals of generated programs stand for, one line each */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static FILE *out(void) { static FILE *f; if (!f) f = fopen(getenv("VF_EV"), "w"); return f; }
void vf_hex(int tag, const char *s) { fprintf(out(), "%d s", tag); for (; *s; s++) fprintf(out(), " %d", (unsigned char)*s); fputc('\n', out()); fflush(out()); }
void vf_hexn(int tag, const char *s, unsigned long long n) { fprintf(out(), "%d s", tag); for (; n--; s++) fprintf(out(), " %d", (unsigned char)*s); fputc('\n', out()); fflush(out()); }
void vf_int(int tag, unsigned long long v) { fprintf(out(), "%d i", tag); for (int i = 0; i < 8; i++) fprintf(out(), " %d", (int)(v >> 8 * i & 255)); fputc('\n', out()); fflush(out()); }
/* the value as sign, m * 2^x with an m of that many bits (0: it has more), m in base 10000 */
void vf_flt(int tag, double v, int bits)
{
    unsigned long long b, m;
    memcpy(&b, &v, 8);
    int x = (int)(b >> 52 & 2047) - 1075 + 53;
    m = (b & ((1ull << 52) - 1)) | (x != -1075 + 53 ? 1ull << 52 : 0);
    if (bits < 53 && (m << (bits + 11))) m = 0;
    m >>= 53 - bits;
    fprintf(out(), "%d f %d %d", tag, (int)(b >> 63), x - bits);
    for (int i = 0; i < 4; i++, m /= 10000) fprintf(out(), " %d", (int)(m % 10000));
    fputc('\n', out()); fflush(out());
}
