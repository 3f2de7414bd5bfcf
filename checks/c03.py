"""C03 HashMap / HashSet: recorded histories of the real tables judged by TLC against specs/MapSet.tla."""
import itertools
from vf import *

KEYS = {
 "i32": ('''type K = i32
func mkey(i: i32): K => <i32>vf_int(i)
func rkey(k: &const K): i64 => <i64>k
''', ""),
 "String": ('''type K = String
func mkey(i: i32): K { var s = String(); const n = vf_int(i); for (const j: 0 as i64 .. (n % 170)) s << "k"; s << "v"; s << n; return &&s }
func rkey(k: &const K): i64 { const r = k.__str().indexOf('v'); return k.substr(*r + 1).toi[i64]() }
''', ""),
 # a hash that puts many keys into few buckets (long probe sequences, wrap-around)
 "collide": ('''type K = i32
struct Bad { const func `()`(k: &const i32): u32 => <u32>(k % 3) + (4294967290 as u32) }
struct Eq { const func `()`(a: &const i32, b: &const i32): bool => a == b }
func mkey(i: i32): K => <i32>vf_int(i)
func rkey(k: &const K): i64 => <i64>k
''', ", Bad, Eq"),
}
QUERY = ["iter", "citer", "each", "map", "siter", "sciter", "seach", "smap"]


def run_hist(c, exe, h):
    rows, end, tail = run_script(c, exe, h, timeout=10)
    recs = []
    for k, line in enumerate(h + ["drop"]):
        t = line.split()
        rec = {"op": t[0], "a": [int(x) for x in t[1:]]}
        if k < len(rows) and not (t[0] == "drop" and end != "ok"):
            if t[0] == "drop":
                rec.update(end="ok", live=rows[k][0][0])
            else:
                out, st = rows[k]
                rec.update(end="ok", out=out, live=st[0], size=st[1], cap=st[2], empty=st[3], ssize=st[4], sempty=st[5])
            recs.append(rec)
        else:
            rec.update(end=end if end != "ok" else "short", why=tail[-200:])
            recs.append(rec)
            break
    return recs


def gen(c, kind):
    rng = c.rng
    hs = []
    alpha = ["insert 1 1", "insertnr 1 2", "put 6 3", "insert 11 4", "remove 1", "remove 6", "clear"]
    allseq = list(itertools.product(alpha, repeat=c.pick(4, 5)))
    for seq in rng.sample(allseq, min(len(allseq), c.pick(150, 3000))):
        hs.append([f"new {rng.choice([-1, 0, 1, 4])}"] + list(seq) + ["iter", "get 1", "get 6", "get 11", "contains 6"])
    for r in range(c.pick(60, 500)):
        univ = rng.choice([4, 12, 40, 120, 400, 900] if kind != "collide" else [4, 12, 30, 60])
        pool = [rng.randrange(0, 10**rng.choice([1, 3, 6])) for _ in range(univ)]
        h = [f"new {rng.choice([-1, 0, 1, 3, 10, 50])}"]
        n = rng.randint(30, c.pick(260, 900)) + (univ if univ > 100 else 0)
        pdel = rng.choice([0.1, 0.3, 0.5])
        present = []
        for _ in range(n):
            p = rng.random()
            k = rng.choice(pool)
            if p < 0.12:
                h.append(f"{rng.choice(['get', 'idx', 'contains', 'scontains'])} {k}")
            elif p < 0.15:
                h.append(rng.choice(QUERY))
            elif p < 0.152:
                h.append(rng.choice(["clear", "sclear"]))
            elif p < 0.152 + 0.84 * pdel:
                k = rng.choice(present) if present and rng.random() < 0.8 else k
                h.append(f"{rng.choice(['remove', 'remove', 'sremove'])} {k}")
            else:
                o = rng.choice(["insert", "insertnr", "put", "insert", "sinsert"])
                present.append(k)
                h.append(f"sinsert {k}" if o == "sinsert" else f"{o} {k} {rng.randint(1, 999)}")
        hs.append(h + QUERY)
    return hs


def check(c):
    c.model_check("MapSetMC", "MapSetMC")
    for kind in KEYS:
        pre, hasher = KEYS[kind]
        exe, out, d = c.driver("hmap", sanitize=True, subst={"/*@KEY@*/": pre, "/*@HASHER@*/": hasher})
        if not exe:
            c.violation(f"a program using HashMap/HashSet with {kind} keys no longer compiles", out[-2000:])
            continue
        judge(c, "MapSetTrace", gen(c, kind), lambda h: run_hist(c, exe, h), label=f"HashMap[{kind}]")
