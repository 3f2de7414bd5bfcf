"""C17: generated control-flow programs, compiled and run, judged by TLC against specs/Lang.tla."""
from vf import *
from langgen import *
from langrun import *


def build_batch(c, k, rng, n, feat=None):
    g = Flow(rng, feat)
    globs = [("g0", rng.randint(0, 9)), ("g1", rng.randint(0, 9))]
    gn = [x for x, _ in globs]
    fns, cases = [], []
    for h, (raises, rt) in enumerate([(False, "i32"), (True, "i32"), (True, "void"), (False, "void"), (True, "i32"), (True, "void")]):
        f = g.func(f"h{h}", raises, 1, rng.randint(1, 2), gn, rt)
        fns.append(f)
        g.fns.append((f["name"], f["raises"], len(f["ps"]), rt))
    for i in range(n):
        f = g.func(f"f{i}", rng.random() < 0.5, rng.choice([2, 3, 3, 4]), None, gn)
        fns.append(f)
        for _ in range(2):
            cases.append((f["name"], [lit(rng.randint(-5, 9)) for _ in f["ps"]]))
    return fns, cases, globs


def run_batch(c, batch):
    fns, cases, globs = batch
    src = source(fns, cases, globs)
    exe, out, d = c.compile({"prog.cxy": src, "ev.c": ev_c()}, "prog.cxy", mm=False, name="flow")
    if not exe:
        return None, out, src
    recs = []
    for k, (f, args) in enumerate(cases):
        obs, end, why = run_case(c, exe, k)
        recs.append(record(fns, f, args, globs, obs, end, why))
    return recs, exe, src


def probes():
    """Shapes with a listed defect: a call that can raise is hoisted out of the operand it is in."""
    fns = [{"name": "h", "ps": ["p"], "pt": ["i32"], "rt": "i32", "raises": True, "body": [
        {"k": "ev", "tag": 1, "e": var("p")},
        {"k": "if", "c": {"k": "bin", "op": ">", "l": var("p"), "r": lit(7), "t": "i32", "w": "i32"},
         "a": [{"k": "raise", "e": lit(1)}], "b": []}, {"k": "ret", "e": var("p")}]}]
    call = {"k": "call", "f": "h", "args": [var("x")], "t": "i32"}
    gt = {"k": "bin", "op": ">", "l": var("x"), "r": lit(2), "t": "i32", "w": "i32"}
    out = []
    for key, e, raises in (("catch-hoisted", {"k": "catch", "e": call, "d": lit(9), "t": "i32"}, False),
                           ("raise-hoisted", call, True)):
        cmp_ = {"k": "bin", "op": "<", "l": e, "r": lit(5), "t": "i32", "w": "i32"}
        for kind in ("and", "tern"):
            if kind == "and":
                body = [{"k": "if", "c": {"k": "and", "l": gt, "r": cmp_, "t": "bool"}, "a": [{"k": "ev", "tag": 2, "e": lit(1)}], "b": []},
                        {"k": "ret", "e": var("x")}]
            else:
                body = [{"k": "decl", "n": "y", "t": "i32", "e": {"k": "tern", "c": gt, "a": e, "b": lit(0), "t": "i32"}},
                        {"k": "ret", "e": var("y")}]
            fns.append({"name": f"{kind}{int(raises)}", "ps": ["x"], "pt": ["i32"], "rt": "i32", "raises": raises, "body": body})
            out.append((f"{key}-{kind}", f"{kind}{int(raises)}"))
    cases, keys = [], []
    for key, f in out:
        for v in (1, 3, 9):
            cases.append((f, [lit(v)]))
            keys.append(key if v == 1 else None)
    return (fns, cases, []), keys


def check(c):
    nb, n = c.pick((64, 14), (400, 16))
    batches = [build_batch(c, k, random.Random(f"{c.seed}:{c.tier}:c17:{k}"), n) for k in range(nb)]
    res = c.pmap(lambda b: run_batch(c, b), batches)
    hists = []
    for k, (recs, exe, src) in enumerate(res):
        if recs is None:
            c.violation(f"a well-formed program is rejected by the compiler or miscompiled: {exe[-400:]}", {"source": src, "output": exe[-3000:]})
            continue
        hists += [(k, i) for i in range(len(recs))]

    def runner(h):
        return [res[h[0]][0][h[1]]]
    judge(c, "LangTrace", hists, runner, label="control flow")
    batch, keys = probes()
    recs, exe, src = run_batch(c, batch)
    if recs is None:
        c.violation(f"a well-formed program is rejected by the compiler or miscompiled: {exe[-400:]}", {"source": src, "output": exe[-3000:]})
    else:
        judge(c, "LangTrace", list(range(len(recs))), lambda i: [recs[i]], label="calls that can raise in an operand", shards=1,
              max_viol=99, keyfn=lambda h, again, k: keys[h])
    for w, d in c.violations:
        if isinstance(d, dict) and isinstance(d.get("history"), tuple):
            k, i = d["history"]
            d["source"] = res[k][2]
