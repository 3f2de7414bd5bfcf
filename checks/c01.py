"""C01 Vector: recorded histories of the real Vector judged by TLC against specs/VectorSeq.tla."""
import itertools
from vf import *

PRE = {
 "i32": '''type E = i32
func mk(x: i64): E => <i32>x
func val(x: E): i64 => x
func rval(x: E): i64 => x
func live(): i64 => -1
''',
 "String": '''type E = String
func mk(x: i64): E { var s = String(); s << "v"; s << x; return &&s }
func val(x: E): i64 { return x.substr(1).toi[i64]() }
func rval(x: &const E): i64 { return x.substr(1).toi[i64]() }
func live(): i64 => -1
''',
 "Box": '''var nlive = 0 as i64;
class Box { x: i64
  func `init`(x: i64) { this.x = x; nlive++ }
  func `deinit`() { nlive-- }
  const func `==`(o: &const This) => x == o.x
  const func `str`(os: &OutputStream) { os << x }
}
type E = Box
func mk(x: i64): E { return Box(x) }
func val(x: E): i64 => x.x
func rval(x: &const E): i64 => x.x
func live(): i64 => nlive
'''}

OPS1 = ["push", "pop", "shift", "get", "set", "resize", "shrink", "iter", "citer", "each", "acc", "filter", "map",
        "find", "index", "str"]


def run_hist(c, exe, elem, h):
    rows, end, tail = run_script(c, exe, h)
    recs = []
    for k, line in enumerate(h):
        t = line.split()
        rec = {"op": t[0], "a": [int(x) for x in t[1:]]}
        if k < len(rows):
            out, st = rows[k][0], rows[k][1]
            rec.update(end="ok", out=out, live=st[0], size=st[1], cap=st[2], empty=st[3], data=st[4:])
        else:
            rec.update(end=end if end != "ok" else "short", why=tail[-200:])
            recs.append(rec)
            break
        recs.append(rec)
    else:
        rec = {"op": "drop", "a": [], "end": end}
        if len(rows) > len(h):
            rec["live"] = rows[len(h)][0][0]
        else:
            rec.update(live=-1, end=end if end != "ok" else "short", why=tail[-200:])
        recs.append(rec)
    return recs


def gen(c, elem):
    rng = c.rng
    hists = []
    # every short history over a small alphabet, for every small initial capacity
    alpha = ["push", "pop", "shift", "shrink", "resize 1", "resize 3", "set"]
    depth = c.pick(4, 5)
    for cap in (0, 1, 2, 3):
        for seq in itertools.product(alpha, repeat=depth):
            n, out, k = 0, [f"new {cap}"], 1
            for o in seq:
                if o == "push":
                    out.append(f"push {k}"); k += 1; n += 1
                elif o in ("pop", "shift"):
                    out.append(o)
                    if n == 0: break
                    n -= 1
                elif o == "set":
                    out.append(f"set {max(n-1,0)} {50+k}"); k += 1
                    if n == 0: break
                else:
                    out.append(o)
                    if o.startswith("resize"): n = min(n, int(o.split()[1]))
            hists.append(out)
    hists = [list(x) for x in sorted(set(map(tuple, hists)))]
    if elem != "i32":
        hists = rng.sample(hists, c.pick(600, 4000)) if len(hists) > c.pick(600, 4000) else hists
    elif not c.thorough and len(hists) > 2500:
        hists = rng.sample(hists, 2500)
    # long random histories
    for r in range(c.pick(40, 400)):
        n, out = 0, [f"new {rng.choice([-1, 0, 1, 2, 3, 5, 16, 33])}"]
        grow = rng.random()
        ops = rng.randint(20, c.pick(150, 500))
        for _ in range(ops):
            p = rng.random()
            if n > 60: grow = 0.2
            if p < 0.25 + grow * 0.4:
                out.append(f"push {rng.randint(-40, 99)}"); n += 1
            else:
                o = rng.choice(OPS1[1:])
                if elem == "String" and o == "str":
                    continue
                if o in ("pop", "shift"):
                    if n == 0 and rng.random() > 0.03: continue
                    out.append(o)
                    if n == 0: break
                    n -= 1
                elif o in ("get", "set"):
                    oob = rng.random() < 0.02
                    if n == 0 and not oob: continue
                    i = rng.choice([n, n + 1, n + 7, -1]) if oob else rng.choice([0, n - 1, rng.randrange(n)])
                    out.append(f"get {i}" if o == "get" else f"set {i} {rng.randint(0, 99)}")
                    if oob: break
                elif o == "resize":
                    k = rng.choice([n, max(n - 1, 0), n // 2, n + 1, n + 9, 0, 1])
                    if k == 0 and rng.random() < 0.7: continue
                    out.append(f"resize {k}"); n = min(n, k)
                elif o == "acc":
                    if n > 8: continue
                    out.append(f"acc {rng.randint(0, 3)}")
                elif o in ("find", "index"):
                    out.append(f"{o} {rng.randint(-40, 99)}")
                else:
                    out.append(o)
        hists.append(out)
    return hists


def check(c):
    c.model_check("VectorMC", "VectorMC")
    for elem in ("i32", "String", "Box"):
        sub = {"/*@ELEM@*/": PRE[elem], "/*@STR@*/": "" if elem == "String" else 'const s = f"${v}"; vf_rs(s.str())'}
        exe, out, d = c.driver("vec", sanitize=True, subst=sub)
        if not exe:
            c.violation(f"a program using Vector[{elem}] no longer compiles", out[-2000:])
            continue
        judge(c, "VectorTrace", gen(c, elem), lambda h: run_hist(c, exe, elem, h), label=f"Vector[{elem}]")
