"""C26: generated programs over structured data, compiled and run, judged by TLC against specs/Lang.tla."""
from vf import *
from datagen import *
from langrun import run_case, ev_c


def build(k, rng, n):
    g = Data(rng)
    cases = g.program(n)
    return g, cases


def run_batch(c, b, mm=True):
    g, cases = b
    src = g.source(cases)
    exe, out, d = c.compile({"prog.cxy": src, "ev.c": ev_c()}, "prog.cxy", mm=mm, name="data")
    if not exe:
        return None, out, src
    recs = []
    P = g.spec()
    for k, (f, args) in enumerate(cases):
        obs, end, why = run_case(c, exe, k)
        v = [0] * 8
        if end == "ok":
            if obs and obs[-1][0] == 0:
                v = obs[-1][1]
                obs = obs[:-1]
            else:
                end = "noresult"
        recs.append({"fns": reach(P, f), "g": {"_": [0] * 8}, "f": f, "args": [a["b"] for a in args], "fuel": 3000, "end": end, "v": v,
                     "out": obs, "why": why if end != "ok" else ""})
    return recs, exe, src


def check(c):
    nb, n = c.pick((200, 10), (1500, 12))
    batches = [build(k, random.Random(f"{c.seed}:{c.tier}:c26:{k}"), n) for k in range(nb)]
    res = c.pmap(lambda b: run_batch(c, b), batches)
    hists = []
    for k, (recs, exe, src) in enumerate(res):
        if recs is None:
            c.violation(f"a well-formed program is rejected by the compiler or miscompiled: {exe[-400:]}", {"source": src, "output": exe[-3000:]})
            continue
        hists += [(k, i) for i in range(len(recs))]
    judge(c, "LangTrace", hists, lambda h: [res[h[0]][0][h[1]]], label="structured data")
    for w, d in c.violations:
        if isinstance(d, dict) and isinstance(d.get("history"), tuple):
            k, i = d["history"]
            d["source"] = res[k][2]
