#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
/* event log of generated programs: one line per event, written at once */
static int fd = -1, n_ev;
static void put(const char *b, int n)
{
    if (fd < 0) { fd = open(getenv("VF_EV"), O_WRONLY | O_CREAT | O_APPEND, 0644); if (fd < 0) _exit(98); }
    if (++n_ev > 5000) _exit(96);   /* a generated program never needs that many */
    if (write(fd, b, n) != n) _exit(97);
}
void vf_ev(int tag, long long v) { char b[64]; put(b, sprintf(b, "%d %lld\n", tag, v)); }
void vf_evu(int tag, unsigned long long v) { char b[64]; put(b, sprintf(b, "%d %llu\n", tag, v)); }
void vf_evs(int tag, const char *s) { char b[256]; put(b, snprintf(b, 256, "%d %s\n", tag, s ? s : "null")); }
long long vf_new(void) { static long long n; n++; vf_ev(7000, n); return n; }
void vf_die(long long id) { vf_ev(7777, id); }
int vf_case(void) { return atoi(getenv("VF_CASE")); }
const char *vf_name(int i) { static const char *const n[] = {"", "a", "ab", "b", "abc", "Ab", "a b", "~z"}; return n[i & 7]; }
