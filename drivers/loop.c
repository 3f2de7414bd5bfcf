/* Runs a script of event loop operations against the real loop (ae.c) with a clock of its own and reports what happens.
 * The kernel is real (socket pairs, pipes, epoll), time is not: waiting only moves the clock. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include "ae.h"

#define BASE 1700000000000LL
#define NF 12
static long long now;  /* milliseconds since BASE */
static FILE *out;
static aeEventLoop *loop;
static int fds[NF], peer[NF], nbeh, budget = 400;
static char *beh[64];
typedef struct { long long id; int beh, left, every; } Tm;
static Tm tms[64];
static int ntm;
static bool inMain;
static int iters;
static void run(char *line, int self);

int __wrap_gettimeofday(struct timeval *tv, void *tz)
{
    (void)tz;
    tv->tv_sec = (BASE + now) / 1000;
    tv->tv_usec = (BASE + now) % 1000 * 1000 + 7;
    return 0;
}
time_t __wrap_time(time_t *t)
{
    time_t r = (BASE + now) / 1000;
    if (t) *t = r;
    return r;
}
int __wrap_clock_gettime(clockid_t c, struct timespec *ts)
{
    (void)c;
    ts->tv_sec = (BASE + now) / 1000;
    ts->tv_nsec = (BASE + now) % 1000 * 1000000;
    return 0;
}
static int avail(int fd)
{
    struct pollfd p = {.fd = fd, .events = POLLIN | POLLOUT};
    if (poll(&p, 1, 0) <= 0) return 0;
    int m = 0;
    if (p.revents & (POLLIN | POLLHUP | POLLERR)) m |= AE_READABLE;
    if (p.revents & (POLLOUT | POLLHUP | POLLERR)) m |= AE_WRITABLE;
    return m;
}
static const char *mk(int m)
{
    static char b[4][24];
    static int k;
    char *r = b[k++ & 3];
    sprintf(r, "[%s%s%s]", m & AE_READABLE ? "\"R\"" : "", (m & 3) == 3 ? "," : "", m & AE_WRITABLE ? "\"W\"" : "");
    return r;
}
static void ready(void)
{
    bool first = true;
    fprintf(out, "\"ready\":[");
    for (int i = 0; i < NF; i++)
        if (fds[i] >= 0) {
            fprintf(out, "%s{\"fd\":%d,\"m\":%s}", first ? "" : ",", fds[i], mk(avail(fds[i])));
            first = false;
        }
    fprintf(out, "]");
}
int __real_epoll_wait(int ep, struct epoll_event *ev, int n, int ms);
int __wrap_epoll_wait(int ep, struct epoll_event *ev, int n, int ms)
{
    fprintf(out, "{\"op\":\"poll\",\"ms\":%d,", ms);
    ready();
    int r = __real_epoll_wait(ep, ev, n, 0);
    if (r == 0 && ms > 0) now += ms;
    fprintf(out, ",\"now\":%lld}\n", now);
    return r;
}
int __real_poll(struct pollfd *p, nfds_t n, int ms);
static void before(aeEventLoop *l)
{
    if (iters++) fprintf(out, "{\"op\":\"end\"}\n");
    fprintf(out, "{\"op\":\"before\"}\n");
    now += 1;
    fprintf(out, "{\"op\":\"clock\",\"now\":%lld}\n", now);
    fprintf(out, "{\"op\":\"process\",\"file\":true,\"time\":true,\"wait\":false,\"to\":0,\"after\":true}\n");
    if (iters >= 6) aeStop(l);
}
static void after(aeEventLoop *l) { (void)l; fprintf(out, "{\"op\":\"after\"}\n"); }

static void behave(int k, int fd)
{
    if (--budget < 0 || k < 0 || k >= nbeh) return;
    char *c = strdup(beh[k]), *save, *p;
    for (p = strtok_r(c, ";", &save); p; p = strtok_r(NULL, ";", &save)) run(p, fd);
    free(c);
}
static void onFile(int proc, int fd, void *data, int mask)
{
    int k = (int)(long)data;
    if (mask & AE_TIMEOUT)
        fprintf(out, "{\"op\":\"timeout\",\"fd\":%d,\"proc\":%d,\"data\":%d,\"mask\":%d}\n", fd, proc, k, mask);
    else
        fprintf(out, "{\"op\":\"file\",\"fd\":%d,\"proc\":%d,\"data\":%d,\"m\":%s}\n", fd, proc, k, mk(mask));
    int self = 0;
    for (int i = 0; i < NF; i++) if (fds[i] == fd) self = i;
    behave(k, self);
}
static void procA(aeEventLoop *l, int fd, void *d, int m) { (void)l; onFile(0, fd, d, m); }
static void procB(aeEventLoop *l, int fd, void *d, int m) { (void)l; onFile(1, fd, d, m); }
static enum Status onTimer(aeEventLoop *l, long long id, void *d)
{
    (void)l;
    Tm *t = d;
    fprintf(out, "{\"op\":\"fire\",\"id\":%lld,\"data\":%d}\n", id, (int)(t - tms));
    behave(t->beh, 0);
    int r = --t->left > 0 ? t->every : AE_NO_MORE;
    fprintf(out, "{\"op\":\"fired\",\"id\":%lld,\"next\":%d}\n", id, r);
    return r;
}
static void fin(aeEventLoop *l, void *d)
{
    (void)l;
    fprintf(out, "{\"op\":\"fin\",\"data\":%d}\n", (int)((Tm *)d - tms));
}
static void eatAll(int fd)
{
    char b[4096];
    while (read(fd, b, sizeof b) > 0) ;
}
static void run(char *line, int self)
{
    char w[9][24];
    int n = sscanf(line, " %23s %23s %23s %23s %23s %23s %23s", w[0], w[1], w[2], w[3], w[4], w[5], w[6]);
    if (n <= 0) return;
#define IS(s) !strcmp(w[0], s)
    int f = n > 1 ? (w[1][0] == '@' ? self : atoi(w[1])) : 0, fd = f >= 0 && f < NF ? fds[f] : -1;
    if (IS("sock") || IS("pipeR") || IS("pipeW")) {
        int p[2];
        if (fd >= 0) return;
        if (IS("sock")) { if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) exit(9); }
        else if (pipe(p)) exit(9);
        fcntl(p[0], F_SETFL, O_NONBLOCK); fcntl(p[1], F_SETFL, O_NONBLOCK);
        bool swap = IS("pipeW");
        fds[f] = p[swap]; peer[f] = fcntl(p[!swap], F_DUPFD, 100);
        close(p[!swap]);
        return;
    }
    if (IS("adv") || IS("back")) {
        now += IS("adv") ? atoi(w[1]) : -atoi(w[1]);
        fprintf(out, "{\"op\":\"clock\",\"now\":%lld}\n", now);
    }
    else if (IS("timer")) {                       /* timer ms beh times every */
        if (ntm >= 60) return;
        Tm *t = &tms[ntm++];
        t->beh = atoi(w[2]); t->left = atoi(w[3]); t->every = atoi(w[4]);
        t->id = aeCreateTimeEvent(loop, atoi(w[1]), onTimer, t, fin);
        fprintf(out, "{\"op\":\"timer\",\"ms\":%d,\"id\":%lld,\"data\":%d}\n", atoi(w[1]), t->id, ntm - 1);
    }
    else if (IS("untimer")) {
        int k = atoi(w[1]);
        if (k >= ntm) return;
        int r = aeDeleteTimeEvent(loop, tms[k].id);
        fprintf(out, "{\"op\":\"untimer\",\"id\":%lld,\"rc\":%d}\n", tms[k].id, r);
    }
    else if (IS("process")) {                     /* process flags timeout */
        int fl = atoi(w[1]), to = atoi(w[2]);
        fprintf(out, "{\"op\":\"process\",\"file\":%s,\"time\":%s,\"wait\":%s,\"to\":%d,\"after\":%s}\n", fl & 1 ? "true" : "false",
                fl & 2 ? "true" : "false", fl & 4 || to == 0 ? "false" : "true", to, fl & 8 ? "true" : "false");
        aeProcessEvents(loop, fl, to);
        fprintf(out, "{\"op\":\"end\"}\n");
    }
    else if (IS("main")) {
        iters = 0;
        aeMain(loop);
        fprintf(out, "{\"op\":\"end\"}\n");
    }
    else if (fd < 0) return;
    else if (IS("feed")) { if (write(peer[f], "x", 1) < 0) return; }
    else if (IS("eat")) eatAll(fd);
    else if (IS("fill")) { char b[4096] = {0}; while (write(fd, b, sizeof b) > 0) ; while (write(fd, b, 1) > 0) ; }
    else if (IS("drain")) eatAll(peer[f]);
    else if (IS("hup")) { if (peer[f] >= 0) close(peer[f]); peer[f] = -1; }
    else if (IS("watch")) {                       /* watch f mask proc data timeout */
        int m = atoi(w[2]), to = atoi(w[5]);
        int rc = aeCreateFileEvent(loop, fd, m, atoi(w[3]) ? procB : procA, (void *)(long)atoi(w[4]), to);
        fprintf(out, "{\"op\":\"watch\",\"fd\":%d,\"m\":%s,\"bar\":%s,\"proc\":%d,\"data\":%d,\"to\":%d,\"rc\":%d}\n", fd, mk(m),
                m & AE_BARRIER ? "true" : "false", atoi(w[3]), atoi(w[4]), to, rc);
    }
    else if (IS("unwatch") || IS("close")) {
        int m = IS("close") ? 3 : atoi(w[2]);
        aeDeleteFileEvent(loop, fd, m);
        fprintf(out, "{\"op\":\"unwatch\",\"fd\":%d,\"m\":%s}\n", fd, mk(m));
        if (IS("close")) { close(fd); if (peer[f] >= 0) close(peer[f]); fds[f] = -1; }
    }
    else if (IS("get")) {
        int m = aeGetFileEvents(loop, fd);
        fprintf(out, "{\"op\":\"get\",\"fd\":%d,\"m\":%s,\"bar\":%s,\"other\":%d}\n", fd, mk(m), m & AE_BARRIER ? "true" : "false", m & ~11);
    }
    else if (IS("await")) {                       /* await f mask ms */
        int m = atoi(w[2]), a = avail(fd);
        int r = aeWait(fd, m, atoi(w[3]));
        fprintf(out, "{\"op\":\"await\",\"fd\":%d,\"m\":%s,\"avail\":%s,\"rc\":%s,\"neg\":%s}\n", fd, mk(m), mk(a), mk(r < 0 ? 0 : r), r < 0 ? "true" : "false");
    }
}
int __wrap_poll(struct pollfd *p, nfds_t n, int ms) { (void)ms; return __real_poll(p, n, 0); }

int main(int argc, char **argv)
{
    char *line = NULL; size_t cap = 0;
    FILE *in = fopen(argv[1], "r");
    (void)argc;
    out = fopen(argv[2], "w");
    setvbuf(out, NULL, _IOLBF, 0);
    signal(SIGPIPE, SIG_IGN);
    alarm(20);
    for (int i = 0; i < NF; i++) fds[i] = peer[i] = -1;
    while (getline(&line, &cap, in) > 0) {
        line[strcspn(line, "\n")] = 0;
        int size; long long t;
        if (!strncmp(line, "beh ", 4)) beh[nbeh++] = strdup(line + 4);
        else if (sscanf(line, "loop %d %lld", &size, &t) == 2) {
            now = t;
            loop = aeCreateEventLoop(&loop, size);
            aeSetBeforeSleepProc(loop, before);
            aeSetAfterSleepProc(loop, after);
            fprintf(out, "{\"op\":\"start\",\"now\":%lld,\"size\":%d,\"same\":%s}\n", now, aeGetSetSize(loop), aeGetSetSize(loop) == size && loop->context == &loop ? "true" : "false");
        }
        else run(line, 0);
    }
    aeDeleteEventLoop(loop);
    fprintf(out, "{\"op\":\"exit\"}\n");
    return 0;
}
