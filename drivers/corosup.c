/* Scripts for drivers/coro.cxy, its log, and a clock of its own in place of the system's: waiting only moves the clock. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#define BASE 1700000000000LL
#define NC 256
#define NF 6
static long long now = 1000123;
static FILE *out;
static struct { int op, a, b, c; } *ops[NC];
static int nops[NC], at[NC], cur[NC], fds[NF], peer[NF], busy[NF];

static void load(void)
{
    char line[64];
    int c = 0, cap[NC] = {0};
    if (out) return;
    FILE *in = fopen(getenv("VF_IN"), "r");
    out = fopen(getenv("VF_OUT"), "w");
    setvbuf(out, NULL, _IOLBF, 0);
    alarm(20);
    signal(SIGPIPE, SIG_IGN);
    for (int i = 0; i < NF; i++) {
        int p[2];
        if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) _exit(9);
        fcntl(p[0], F_SETFL, O_NONBLOCK); fcntl(p[1], F_SETFL, O_NONBLOCK);
        fds[i] = p[0]; peer[i] = p[1];
    }
    while (in && fgets(line, sizeof line, in)) {
        int o, x = 0, y = 0, z = 0;
        if (sscanf(line, "= %d", &o) == 1) { c = o; continue; }
        if (sscanf(line, "%d %d %d %d", &o, &x, &y, &z) < 1) continue;
        if (nops[c] == cap[c]) ops[c] = realloc(ops[c], (cap[c] = cap[c] * 2 + 8) * sizeof *ops[c]);
        ops[c][nops[c]].op = o; ops[c][nops[c]].a = x; ops[c][nops[c]].b = y; ops[c][nops[c]++].c = z;
    }
    fprintf(out, "{\"op\":\"start\",\"now\":%lld}\n", now);
}
int vf_op(int c) { load(); if (at[c] >= nops[c]) return 0; cur[c] = at[c]++; return ops[c][cur[c]].op; }
int vf_arg(int c, int k) { if (!ops[c]) return 0; return k == 0 ? ops[c][cur[c]].a : k == 1 ? ops[c][cur[c]].b : ops[c][cur[c]].c; }
void vf_log(int op, int c, int n, int a)
{
    static const char *nm[] = {"did", "yield", "back", "sleep", "spawn", "lock", "unlock", "try", "tried", "waited", "id", "begin", "leave", "finish", "exit", "enter", "left"};
    load();
    fprintf(out, "{\"op\":\"%s\",\"c\":%d,\"n\":%d,\"a\":%d}\n", nm[op], c, n, a);
}
static void eat(int fd) { char b[4096]; while (read(fd, b, sizeof b) > 0) { } }
int vf_sys(int op, int f)
{
    char b[4096] = {0};
    switch (op) {
    case 0: return fds[f];
    case 1: if (write(peer[f], "x", 1) < 0) return 1; break;
    case 2: eat(fds[f]); break;
    case 3: while (write(fds[f], b, sizeof b) > 0) { } while (write(fds[f], b, 1) > 0) { } break;
    case 4: eat(peer[f]); break;
    case 5: now += f; fprintf(out, "{\"op\":\"clock\",\"now\":%lld}\n", now); break;
    case 6: shutdown(peer[f], SHUT_WR); break;
    }
    return 0;
}
int vf_claim(int c, int f, int w, int to)
{
    if (busy[f]) return 0;
    busy[f] = 1;
    fprintf(out, "{\"op\":\"wait\",\"c\":%d,\"fd\":%d,\"m\":\"%s\",\"to\":%d}\n", c, f, w ? "W" : "R", to);
    return 1;
}
void vf_free(int f) { busy[f] = 0; }

int gettimeofday(struct timeval *restrict tv, void *restrict tz)
{
    (void)tz;
    tv->tv_sec = (BASE + now) / 1000;
    tv->tv_usec = (BASE + now) % 1000 * 1000 + 7;
    return 0;
}
time_t time(time_t *t)
{
    time_t r = (BASE + now) / 1000;
    if (t) *t = r;
    return r;
}
int epoll_wait(int ep, struct epoll_event *ev, int n, int ms)
{
    bool first = true;
    fprintf(out, "{\"op\":\"poll\",\"ms\":%d,\"ready\":[", ms);
    for (int i = 0; i < NF; i++) {
        struct pollfd p = {.fd = fds[i], .events = POLLIN | POLLOUT};
        if (poll(&p, 1, 0) <= 0) p.revents = 0;
        bool r = p.revents & (POLLIN | POLLHUP | POLLERR), w = p.revents & (POLLOUT | POLLHUP | POLLERR);
        fprintf(out, "%s{\"fd\":%d,\"m\":[%s%s%s]}", first ? "" : ",", i, r ? "\"R\"" : "", r && w ? "," : "", w ? "\"W\"" : "");
        first = false;
    }
    int r = (int)syscall(SYS_epoll_wait, ep, ev, n, 0);
    if (r == 0 && ms > 0) now += ms;
    fprintf(out, "],\"now\":%lld}\n", now);
    if (r == 0 && ms < 0) { fprintf(out, "{\"op\":\"stuck\"}\n"); fflush(out); _exit(0); }
    return r;
}
