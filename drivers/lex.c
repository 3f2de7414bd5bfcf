/* Reads texts with the compiler's lexer: every line of argv[1] is a text in hex; one JSON object per line: its tokens. */
#include "core/log.h"
#include "lang/frontend/lexer.h"
#include <math.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>

static int nerr;
static void onError(const Diagnostic *d, void *ctx) { (void)ctx; if (d->kind == dkError) nerr++; }
static const char *name(TokenTag t)
{
    switch (t) {
#define f(N, S, ...) case tok##N: return S;
        SYMBOL_LIST(f)
        KEYWORD_LIST(f)
#undef f
    case tokIdent: return "NAME";
    case tokIntLiteral: return "INT";
    case tokFloatLiteral: return "FLOAT";
    case tokCharLiteral: return "CHAR";
    case tokStringLiteral: return "STRING";
    case tokLString: return "FSTR";
    case tokRString: return "FEND";
    case tokLStrFmt: return "${";
    case tokEoF: return "EOF";
    case tokError: return "ERROR";
    default: return "?";
    }
}
static void value(const Token *t)
{
    if (t->tag == tokIntLiteral) {
        for (int i = 0; i < 8; i++) printf(i ? ",%d" : ",\"v\":[%d", (int)(t->iVal >> 8 * i & 255));
        printf("]");
    }
    else if (t->tag == tokCharLiteral)
        printf(",\"v\":%u", t->cVal);
    else if (t->tag == tokStringLiteral) {      /* as the parser takes it (getStringLiteral) */
        size_t from = t->fileLoc.begin.byteOffset + 1, n = t->fileLoc.end.byteOffset - from - 1;
        char *s = malloc(n + 1);
        n = escapeString(t->buffer->fileData + from, n, s, n);
        printf(",\"v\":[");
        for (size_t i = 0; i < n; i++) printf(i ? ",%d" : "%d", (unsigned char)s[i]);
        printf("]");
        free(s);
    }
    else if (t->tag == tokFloatLiteral) {       /* m * 2^x */
        int x;
        unsigned long long m = (unsigned long long)ldexp(frexp(t->fVal, &x), 53);
        printf(",\"m\":[");
        for (int i = 0; i < 4; i++, m /= 10000) printf(i ? ",%d" : "%d", (int)(m % 10000));
        printf("],\"x\":%d", x - 53);
    }
}
static void read1(const unsigned char *src, size_t n)
{
    char *text = malloc(n + 1);                 /* no byte more than readFile gives it */
    memcpy(text, src, n); text[n] = 0;
    Log log = newLog(onError, NULL);
    log.maxErrors = 100000;
    Lexer L = newLexer("text", text, n, &log);
    printf("{\"end\":\"ok\",\"src\":[");
    for (size_t i = 0; i < n; i++) printf(i ? ",%d" : "%d", src[i]);
    printf("],\"toks\":[");
    for (int k = 0;; k++) {
        Token t = advanceLexer(&L);
        printf("%s{\"t\":\"%s\",\"b\":%zu,\"e\":%zu,\"row\":%u,\"col\":%u,\"erow\":%u,\"ecol\":%u,\"errs\":%d", k ? "," : "", name(t.tag),
               t.fileLoc.begin.byteOffset, t.fileLoc.end.byteOffset, t.fileLoc.begin.row, t.fileLoc.begin.col, t.fileLoc.end.row,
               t.fileLoc.end.col, nerr);
        value(&t);
        printf("}");
        if (t.tag == tokEoF || k > 5000) break;
    }
    printf("]}\n");
    freeLexer(&L);
}
int main(int argc, char **argv)
{
    static char line[1 << 16];
    static unsigned char src[1 << 15];
    FILE *in = fopen(argv[1], "r");
    long at = 0;
    (void)argc;
    while (fseek(in, at, SEEK_SET) == 0 && fgets(line, sizeof line, in)) {
        size_t n = 0;
        at = ftell(in);
        for (char *p = line; p[0] > ' ' && p[0] != '.'; p += 2) { unsigned b; sscanf(p, "%2x", &b); src[n++] = b; }
        fflush(stdout);
        char tmp[] = "/tmp/lexXXXXXX";
        int fd = mkstemp(tmp);
        unlink(tmp);
        pid_t kid = fork();
        if (kid == 0) {                         /* its own output, thrown away when it dies */
            dup2(fd, 1);
            alarm(5);
            read1(src, n);
            fflush(stdout);
            _exit(0);
        }
        int st;
        waitpid(kid, &st, 0);
        if (st == 0) {
            char buf[4096];
            ssize_t k;
            lseek(fd, 0, SEEK_SET);
            while ((k = read(fd, buf, sizeof buf)) > 0) fwrite(buf, 1, k, stdout);
        }
        else {
            printf("{\"end\":\"%s\",\"src\":[", WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "hang" : "crash");
            for (size_t i = 0; i < n; i++) printf(i ? ",%d" : "%d", src[i]);
            printf("],\"toks\":[]}\n");
        }
        close(fd);
    }
    return 0;
}
