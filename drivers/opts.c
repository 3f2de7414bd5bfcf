/* Parses command lines with the compiler's own parser (src/cxy/driver/options.c, core/args.c) and prints what became of each:
   one JSON object per line of argv[1], a line being hex words (the arguments) and NAME=VALUE settings of the environment. */
#include "core/format.h"
#include "core/log.h"
#include "core/strpool.h"
#include "driver/options.h"
#include "driver/stages.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>

int exec(const char *command, FormatState *out) { (void)command; append(out, "/i/one\n/i/fortify\n/i/two\n", 25); return 0; }

static FILE *rep; static int nerr; static Log lg; static const char *why; static int done;
static void bytes(const char *s) { fputc('[', rep); for (int i = 0; s[i]; i++) fprintf(rep, i ? ",%d" : "%d", (unsigned char)s[i]); fputc(']', rep); }
static void str(const char *k, const char *s) { fprintf(rep, ",\"%s\":", k); if (s) bytes(s); else fputs("[0]", rep); }   /* [0]: not given */
static void num(const char *k, long long n) { fprintf(rep, ",\"%s\":%lld", k, n); }
static void tag(const char *k, const char *s) { fprintf(rep, ",\"%s\":\"%s\"", k, s); }
static void strs(const char *k, DynArray *a)
{
    fprintf(rep, ",\"%s\":[", k);
    for (u64 i = 0; i < a->size; i++) { if (i) fputc(',', rep); bytes(dynArrayAt(const char **, a, i)); }
    fputc(']', rep);
}
static void onError(const Diagnostic *d, void *ctx)
{
    (void)ctx;
    if (d->kind != dkError) return;
    if (nerr++) return;
    FormatState st = newFormatState("", true);
    format(&st, d->fmt, d->args);
    why = formatStateToString(&st);
}
static void told(void)      /* what the compiler wrote to its standard output before it ended by itself */
{
    static char buf[256];
    if (done) return;
    done = 1;
    fflush(stdout);
    rewind(stdout);
    int n = fread(buf, 1, sizeof buf - 1, stdout); buf[n < 0 ? 0 : n] = 0;
    char *nl = strchr(buf, '\n'); if (nl) *nl = 0;
    fputs("{\"end\":\"exit\"", rep); str("said", buf); fputs("}\n", rep); fflush(rep);
}
static const char *stageName(u64 s)
{
    switch (s) {
#define f(N, ...) case ccs##N: return #N;
        CXY_COMPILER_STAGES(f)
#undef f
    default: return "?";
    }
}
static const char *dumpName(int m)
{
    switch (m) {
#define f(N) case dmp##N: return #N;
        DUMP_OPTIONS(f)
#undef f
    default: return "?";
    }
}
static const char *statsName(int m)
{
    switch (m) {
#define f(N) case dsm##N: return #N;
        DRIVER_STATS_MODE(f)
#undef f
    default: return "?";
    }
}
static char *unhex(const char *h)
{
    size_t n = strcmp(h, ".") ? strlen(h) / 2 : 0;
    char *s = malloc(n + 1);
    for (size_t i = 0; i < n; i++) { unsigned b; sscanf(h + 2 * i, "%2x", &b); s[i] = (char)b; }
    s[n] = 0;
    return s;
}
static void one(char *line)
{
    char *argv[256]; int argc = 1;
    char name[] = "/usr/bin/cxy";
    argv[0] = name;
    unsetenv("CXY_OS"); unsetenv("CXY_STDLIB_DIR");
    for (char *w = strtok(line, " \n"); w; w = strtok(NULL, " \n")) {
        if (strchr(w, '=')) putenv(strdup(w));
        else argv[argc++] = unhex(w);
    }
    argv[argc] = NULL;
    if (freopen("/dev/null", "r", stdin) == NULL) exit(3);
    FILE *t = tmpfile();
    dup2(fileno(t), 1); stdout = t;
    atexit(told);
    MemPool pool = newMemPool();
    StrPool strings = newStrPool(&pool);
    Options o; memset(&o, 0, sizeof o);
    lg = newLog(onError, &lg);
    lg.progress = false;
    bool ok = parseCommandLineOptions(&argc, argv, &strings, &o, &lg);
    if (!ok && nerr == 0) exit(0);          /* help: told() reports what it said */
    done = 1;
    if (!ok) {
        fputs("{\"end\":\"error\"", rep); num("errors", nerr); str("why", why ? why : ""); fputs("}\n", rep); fflush(rep);
        return;
    }
    fprintf(rep, "{\"end\":\"ok\"");
    tag("cmd", o.cmd == cmdDev ? "dev" : o.cmd == cmdBuild ? "build" : o.cmd == cmdTest ? "test" : "run");
    str("output", o.output); str("libDir", o.libDir); str("buildDir", o.buildDir); str("passes", o.passes); str("os", o.operatingSystem);
    strs("cflags", &o.cflags); strs("cDefines", &o.cDefines); strs("libPaths", &o.librarySearchPaths); strs("includes", &o.importSearchPaths);
    strs("libs", &o.libraries); strs("plugins", &o.loadPassPlugins);
    fputs(",\"defines\":[", rep);
    for (u64 i = 0; i < o.defines.size; i++) {
        CompilerDefine *d = &dynArrayAt(CompilerDefine *, &o.defines, i);
        if (i) fputc(',', rep);
        fputc('[', rep); bytes(d->name); fputc(',', rep); if (d->value) bytes(d->value); else fputs("[0]", rep); fputc(']', rep);
    }
    fputc(']', rep);
    num("withoutBuiltins", o.withoutBuiltins); num("noPIE", o.noPIE); num("mm", o.withMemoryManager); num("debug", o.debug); num("debugPM", o.debugPassManager);
    num("opt", o.optimizationLevel); tag("stats", statsName(o.dsmMode));
    int dev = o.cmd == cmdDev;
    num("printIR", dev && o.dev.printIR); num("bitcode", dev && o.dev.emitBitCode); num("assembly", dev && o.dev.emitAssembly); num("cleanAst", dev && o.dev.cleanAst);
    num("withLocation", dev && o.dev.withLocation); num("withoutAttrs", dev && o.dev.withoutAttrs); num("namedEnums", dev && o.dev.withNamedEnums);
    tag("dump", dev ? dumpName(o.dev.dumpMode) : "-"); tag("stage", dev ? stageName(o.dev.lastStage) : "-");
    num("maxErrors", (long long)lg.maxErrors); num("noColor", lg.ignoreStyles); num("progress", lg.progress);
    fprintf(rep, ",\"warnings\":[");
    for (int i = 0, k = 0; i < 63; i++) if (lg.enabledWarnings.num >> i & 1 && i < 6) fprintf(rep, k++ ? ",%d" : "%d", i);
    fputs("],\"files\":[", rep);
    for (int i = 1; i < argc; i++) { if (i > 1) fputc(',', rep); bytes(argv[i]); }
    fputs("]}\n", rep); fflush(rep);
    deinitCommandLineOptions(&o);
}
int main(int argc, char **argv)
{
    static char text[1 << 24];
    FILE *in = fopen(argv[1], "r");
    (void)argc;
    rep = fdopen(dup(1), "w");
    text[fread(text, 1, sizeof text - 1, in)] = 0;
    fclose(in);
    for (char *line = text, *nl; (nl = strchr(line, '\n')); line = nl + 1) {
        *nl = 0;
        fflush(rep);
        pid_t p = fork();
        if (p == 0) { alarm(10); one(line); fflush(rep); _exit(0); }
        int st; waitpid(p, &st, 0);
        if (WIFSIGNALED(st) || WEXITSTATUS(st)) fprintf(rep, "{\"end\":\"crash\",\"rc\":%d}\n", WIFSIGNALED(st) ? -WTERMSIG(st) : WEXITSTATUS(st));
    }
    fflush(rep);
    return 0;
}
