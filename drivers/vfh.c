#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <unistd.h>

static FILE *in;
static int out = -1;
static char *line;
static size_t cap;
static char *tok[4096];
static unsigned long long tlen[4096];
static int ntok;
static char *row;
static size_t rlen, rcap;

static void setup(void)
{
    if (in) return;
    in = fopen(getenv("VFH_IN"), "r");
    out = open(getenv("VFH_OUT"), O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    if (!in || out < 0) { perror("vfh"); exit(99); }
}
static int hv(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
_Bool vf_next(void)
{
    setup();
    ssize_t n = getline(&line, &cap, in);
    if (n <= 0) return 0;
    if (line[n - 1] == '\n') line[n - 1] = 0;
    ntok = 0;
    char *sv = NULL;
    for (char *t = strtok_r(line, " ", &sv); t && ntok < 4096; t = strtok_r(NULL, " ", &sv)) {
        tok[ntok] = t;
        if (t[0] == 'x' && ntok > 0) {
            size_t k = strlen(t + 1) / 2;
            for (size_t i = 0; i < k; i++) t[i] = (char)(hv(t[1 + 2 * i]) * 16 + hv(t[2 + 2 * i]));
            t[k] = 0;
            tlen[ntok] = k;
        } else tlen[ntok] = strlen(t);
        ntok++;
    }
    return ntok > 0 ? 1 : vf_next();
}
_Bool vf_op(const char *name) { return strcmp(tok[0], name) == 0; }
int vf_argc(void) { return ntok - 1; }
long long vf_int(int i) { return i + 1 < ntok ? strtoll(tok[i + 1], NULL, 10) : 0; }
const char *vf_str(int i) { return i + 1 < ntok ? tok[i + 1] : ""; }
unsigned long long vf_strlen(int i) { return i + 1 < ntok ? tlen[i + 1] : 0; }
static void need(size_t n)
{
    if (rlen + n + 2 > rcap) {
        rcap = (rlen + n + 2) * 2 + 256;
        row = realloc(row, rcap);
    }
}
void vf_ri(long long v) { need(32); rlen += sprintf(row + rlen, "%lld ", v); }
void vf_ru(unsigned long long v) { need(32); rlen += sprintf(row + rlen, "%llu ", v); }
void vf_rb(_Bool v) { need(4); row[rlen++] = v ? 'T' : 'F'; row[rlen++] = ' '; }
void vf_rn(const char *s, unsigned long long n)
{
    need(2 * n + 4);
    row[rlen++] = 'x';
    for (unsigned long long i = 0; i < n; i++) rlen += sprintf(row + rlen, "%02x", (unsigned char)s[i]);
    row[rlen++] = ' ';
}
void vf_rs(const char *s) { vf_rn(s ? s : "", s ? strlen(s) : 0); }
void vf_end(void)
{
    setup();
    need(2);
    row[rlen++] = '\n';
    size_t o = 0;
    while (o < rlen) {
        ssize_t w = write(out, row + o, rlen - o);
        if (w <= 0) break;
        o += (size_t)w;
    }
    rlen = 0;
}
void vf_sep(void) { need(4); row[rlen++] = '|'; row[rlen++] = ' '; }
