/* Runs operations of a script (argv[1]) on the compiler's own containers (src/cxy/core) and prints what they answered,
   one JSON array of numbers per line.  Each history is about one kind of container; `slot` selects one of a few of them. */
#include "core/array.h"
#include "core/hmap.h"
#include "core/htable.h"
#include "core/mempool.h"
#include "core/sb.h"
#include "core/strpool.h"
#include <inttypes.h>
#include <stdio.h>
#include <stdlib.h>

/* what the containers hold on to */
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
static void *held[1 << 16]; static int nheld;
static void *hold(void *p) { if (p && nheld < 1 << 16) held[nheld++] = p; return p; }
static void let(void *p) { for (int i = nheld; p && i--;) if (held[i] == p) { held[i] = held[--nheld]; return; } }
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p) memset(p, 0xA5, n); return hold(p); }
void *__wrap_calloc(size_t n, size_t m) { return hold(__real_calloc(n, m)); }
void *__wrap_realloc(void *q, size_t n) { let(q); return hold(__real_realloc(q, n)); }
void __wrap_free(void *p) { let(p); __real_free(p); }

typedef struct { int k; int v; unsigned char pad[8]; } Item;   /* a key, a value */
static unsigned homes[512];                                  /* the hash the history gives each key */
static HashCode hashItem(const void *p) { return homes[((const Item *)p)->k]; }
static bool sameItem(const void *a, const void *b) { return ((const Item *)a)->k == ((const Item *)b)->k; }
static Item item(int k, int v) { Item it; memset(&it, 0xA5, sizeof it); it.k = k; it.v = v; return it; }

static int first = 1;
static void num(long long n) { printf(first ? "%lld" : ",%lld", n); first = 0; }
static void bytes(const char *s, size_t n) { for (size_t i = 0; i < n; i++) num((unsigned char)s[i]); }
static void bytes0(const char *s) { if (s) bytes(s, strlen(s)); else num(-1); }
static void itm(const Item *p) { if (p) { num(p->k); num(p->v); } else num(-1); }

static HashTable ht[2]; static Hmap hm[2]; static DynArray da[2]; static StrPool sp; static MemPool pool; static StringBuilder *sb[2];
static const char *seen[4096]; static int nseen;
static struct { unsigned char *p; size_t n; int tag, live; } blk[4096]; static int nblk;

static int cmpItem(const void *a, const void *b) { const Item *x = a, *y = b; return x->k != y->k ? x->k - y->k : x->v - y->v; }
static void sorted(Item *v, int n) { qsort(v, n, sizeof *v, cmpItem); for (int i = 0; i < n; i++) itm(v + i); }
static Item acc[8192]; static int nacc, cut;
static bool take(void *ctx, const void *e) { (void)ctx; if (nacc < 8192) acc[nacc++] = *(const Item *)e; return cut < 0 || nacc < cut; }

static void interned(const char *s)
{
    int i = 0;
    if (s == NULL) { num(-1); return; }
    while (i < nseen && seen[i] != s) i++;
    if (i == nseen && nseen < 4096) seen[nseen++] = s;
    num(i + 1);
    bytes0(s);
}
static void fill(int b) { for (size_t i = 0; i < blk[b].n; i++) blk[b].p[i] = (unsigned char)(blk[b].tag + i); }
static int intact(void)
{
    int bad = 0;
    for (int b = 0; b < nblk; b++)
        if (blk[b].live)
            for (size_t i = 0; i < blk[b].n; i++)
                if (blk[b].p[i] != (unsigned char)(blk[b].tag + i)) { bad++; break; }
    return bad;
}

/* strings of a script: hex bytes, "-" for none, "." for the empty one */
static char sbuf[8][1024]; static int nsb;
static char *str(const char *hex, size_t *n)
{
    char *o = sbuf[nsb++ % 8]; size_t k = 0;
    if (n) *n = 0;
    if (hex[0] == '-') return NULL;
    if (hex[0] != '.') for (; hex[2 * k] && hex[2 * k + 1]; k++) { unsigned x; sscanf(hex + 2 * k, "%2x", &x); o[k] = (char)x; }
    o[k] = 0; if (n) *n = k;
    return o;
}

int main(int argc, char **argv)
{
    FILE *f = fopen(argv[1], "r");
    char line[16384], op[32], s[4][4096];
    (void)argc;
    pool = newMemPool(); sp = newStrPool(&pool); int base = nheld;
    while (f && fgets(line, sizeof line, f)) {
        long long a[4] = {0}; int slot = 0; size_t n;
        memset(s, 0, sizeof s);
        sscanf(line, "%31s %4095s %4095s %4095s %4095s", op, s[0], s[1], s[2], s[3]);
        for (int i = 0; i < 4; i++) a[i] = strtoll(s[i], NULL, 10);
        slot = (int)a[0] & 1; first = 1;
        printf("[");
#define OP(x) else if (!strcmp(op, x))
        if (!strcmp(op, "home")) { homes[a[0]] = (unsigned)a[1]; }
        /* HashTable: slot key value */
        OP("ht.new") { if (a[1] >= 0) ht[slot] = newHashTableWithCapacity(sizeof(Item), a[1]); else ht[slot] = newHashTable(sizeof(Item)); }
        OP("ht.ins") { Item e = item(a[1], a[2]); num(insertInHashTable(&ht[slot], &e, homes[a[1]], sizeof e, sameItem)); num(ht[slot].size); }
        OP("ht.find") { Item e = item(a[1], 0); itm(findInHashTable(&ht[slot], &e, homes[a[1]], sizeof e, sameItem)); }
        OP("ht.rm") { Item e = item(a[1], 0), *p = findInHashTable(&ht[slot], &e, homes[a[1]], sizeof e, sameItem);
                      itm(p); if (p) removeFromHashTable(&ht[slot], p, sizeof e); num(ht[slot].size); }
        OP("ht.all") { nacc = 0; cut = -1; enumerateHashTable(&ht[slot], NULL, take, sizeof(Item)); sorted(acc, nacc); }
        OP("ht.some") { nacc = 0; cut = (int)a[1]; enumerateHashTable(&ht[slot], NULL, take, sizeof(Item)); num(nacc); }
        OP("ht.iter") { HashtableIt it = newHashTableIt(&ht[slot], sizeof(Item)); nacc = 0; Item *p; int has = 1;
                        while ((has = hashTableItHasNext(&it)) && (p = hashTableItNext(&it))) acc[nacc++] = *p;
                        if (has || hashTableItNext(&it)) num(-9); sorted(acc, nacc); }
        OP("ht.clear") { clearHashTable(&ht[slot]); num(ht[slot].size); }
        OP("ht.free") { freeHashTable(&ht[slot]); num(ht[slot].size); }
        /* Hmap: slot key value */
        OP("hm.new") { hm[slot] = a[1] >= 0 ? hmapCreateWithCapacity(sizeof(Item), hashItem, sameItem, a[1]) : hmapCreate(sizeof(Item), hashItem, sameItem); }
        OP("hm.put") { Item e = item(a[1], a[2]); num(hmapPut(&hm[slot], &e).s); num(hm[slot].nitems); }
        OP("hm.get") { Item e = item(a[1], 0), *p = hmapGet(&hm[slot], &e); itm(p); if (p && hmapGet(&hm[slot], p) != p) num(-9); }
        OP("hm.rm") { Item e = item(a[1], 0); hmapRemove(&hm[slot], &e); num(hm[slot].nitems); }
        OP("hm.all") { HmapIterator it = hmapIterator(&hm[slot]); Item *p; nacc = 0; while ((p = hmapNext(&it))) acc[nacc++] = *p; sorted(acc, nacc); }
        OP("hm.clear") { hmapClear(&hm[slot]); num(hm[slot].nitems); }
        OP("hm.free") { hmapDestroy(&hm[slot]); }
        /* DynArray of ints: slot value */
        OP("da.new") { da[slot] = newDynArray(sizeof(int)); }
        OP("da.sized") { da[slot] = newDynArrayWithSize(sizeof(int), a[1]); for (int i = 0; i < a[1]; i++) dynArrayAt(int *, &da[slot], i) = i; }
        OP("da.from") { int v[3] = {(int)a[1], (int)a[2], (int)a[3]}; da[slot] = newDynArrayFromDataExplicit(v, 3, sizeof(int)); }
        OP("da.push") { int v = (int)a[1]; pushOnDynArray(&da[slot], &v); num(da[slot].size); }
        OP("da.pop") { int *p = popDynArray(&da[slot]); num(da[slot].size); if (p) num(*p); }
        OP("da.at") { num(dynArrayAt(int *, &da[slot], a[1])); }
        OP("da.set") { dynArrayAt(int *, &da[slot], a[1]) = (int)a[2]; }
        OP("da.back") { num(dynArrayBack(int *, &da[slot])); }
        OP("da.all") { dynArrayFor(p, int, &da[slot]) num(*p); }
        OP("da.copy") { copyDynArray(&da[1 - slot], &da[slot]); num(da[1 - slot].size); }
        OP("da.free") { freeDynArray(&da[slot]); num(da[slot].size); }
        /* StrPool */
        OP("sp.make") { interned(makeString(&sp, str(s[0], NULL))); }
        OP("sp.sized") { char *x = str(s[0], &n); interned(makeStringSized(&sp, x, a[1])); }
        OP("sp.trim") { interned(makeTrimmedString(&sp, str(s[0], NULL))); }
        OP("sp.cat") { interned(s[2][0] == '-' ? makeStringConcat(&sp, str(s[0], NULL), str(s[1], NULL))
                                               : makeStringConcat(&sp, str(s[0], NULL), str(s[1], NULL), str(s[2], NULL))); }
        OP("sp.fmt") { interned(makeStringf(&sp, "%s%d%s", str(s[0], NULL), (int)a[1], str(s[2], NULL))); }
        OP("sp.join") { interned(s[2][0] == '-' ? joinPath(&sp, str(s[0], NULL), str(s[1], NULL))
                                                : joinPath(&sp, str(s[0], NULL), str(s[1], NULL), str(s[2], NULL))); }
        OP("sp.anon") { interned(makeAnonymousVariable(&sp, str(s[0], NULL))); }
        /* StringBuilder */
        OP("sb.new") { sb[slot] = stringBuilderNew(); }
        OP("sb.str") { stringBuilderAppendCstr1(sb[slot], str(s[1], NULL)); num(sb[slot]->size); bytes(sb[slot]->data, sb[slot]->size + 1); }
        OP("sb.int") { stringBuilderAppendInt(sb[slot], a[1]); num(sb[slot]->size); bytes(sb[slot]->data, sb[slot]->size + 1); }
        OP("sb.uint") { stringBuilderAppendUInt(sb[slot], strtoull(s[1], NULL, 10)); num(sb[slot]->size); bytes(sb[slot]->data, sb[slot]->size + 1); }
        OP("sb.bool") { stringBuilderAppendBool(sb[slot], a[1]); num(sb[slot]->size); bytes(sb[slot]->data, sb[slot]->size + 1); }
        OP("sb.chr") { stringBuilderAppendChar(sb[slot], (wchar)a[1]); num(sb[slot]->size); bytes(sb[slot]->data, sb[slot]->size + 1); }
        OP("sb.rel") { char *p = stringBuilderRelease(sb[slot]); if (p) bytes0(p); free(p); }
        OP("sb.del") { stringBuilderDelete(sb[slot]); sb[slot] = NULL; }
        /* MemPool: blocks carry a pattern; how many lost theirs? */
        OP("mp.alloc") { int b = nblk++; blk[b].n = a[0]; blk[b].tag = (int)a[1]; blk[b].live = 1; blk[b].p = allocFromMemPool(&pool, a[0]);
                         num(blk[b].p == NULL); num((uintptr_t)blk[b].p % 16); if (blk[b].p) fill(b); num(intact()); }
        OP("mp.track") { int b = nblk++; blk[b].n = a[0]; blk[b].tag = (int)a[1]; blk[b].live = 1; blk[b].p = allocTrackedMem(&pool, a[0]);
                         num(blk[b].p == NULL); num((uintptr_t)blk[b].p % 8); fill(b); num(intact()); }
        OP("mp.cache") { int b = nblk++; blk[b].n = 16 * (a[0] + 2); blk[b].tag = (int)a[1]; blk[b].live = 1;
                         blk[b].p = allocFromCacheOrPool(&pool, a[0], blk[b].n); num(blk[b].p == NULL); num((uintptr_t)blk[b].p % 16); fill(b); num(intact()); }
        OP("mp.back") { int b = (int)a[1]; blk[b].live = 0; freeMemToPoolCache(&pool, a[0], blk[b].p, 16 * (a[0] + 2)); num(intact()); }
        OP("mp.stats") { MemPoolStats st; getMemPoolStats(&pool, &st); size_t live = 0;
                         for (int b = 0; b < nblk; b++) if (blk[b].live) live += blk[b].n;
                         num(st.totalUsed >= live); num(intact()); }
        OP("mp.reset") { for (int b = 0; b < nblk; b++) blk[b].live = 0; memset(pool.caches, 0, sizeof pool.caches); resetMemPool(&pool); num(0); }
        OP("sp.free") { freeStrPool(&sp); base = 0; }
        OP("mp.free") { for (int b = 0; b < nblk; b++) blk[b].live = 0; freeMemPool(&pool); num(0); }
        OP("held") { num(nheld - base); }
        else { num(-99); }
        printf("]\n");
        fflush(stdout);
    }
    return 0;
}
