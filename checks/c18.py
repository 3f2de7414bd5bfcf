"""C18/C27: generated programs over classes, compiled and run, judged by TLC against specs/Lang.tla + LifeTrace.tla."""
from vf import *
from objgen import *
from langrun import run_case, ev_c


def run_batch(c, g, cases, life, sanitize=False, mm=True):
    src = g.source(cases)
    exe, out, d = c.compile({"prog.cxy": src, "ev.c": ev_c()}, "prog.cxy", mm=mm, name="obj", sanitize=sanitize)
    if not exe:
        return None, out, src
    recs = []
    P = g.spec()
    for k, (f, args) in enumerate(cases):
        obs, end, why = run_case(c, exe, k)
        v = [0] * 8
        if end == "ok":
            if obs and obs[-1][0] == 0:
                v = obs[-1][1]
                obs = obs[:-1]
            else:
                end = "noresult"
        if not life:
            obs = [o for o in obs if o[0] != 7777]
        recs.append({"fns": reach(P, f), "g": {"_": [0] * 8}, "f": f, "args": [a["b"] for a in args], "fuel": 2000, "end": end, "v": v,
                     "out": obs, "why": why if end != "ok" else "", "life": life})
    return recs, exe, src


def run_all(c, nb, n, life, tag, sanitize=False, gen=Obj, mm=lambda k: True):
    def build(k):
        g = gen(random.Random(f"{c.seed}:{c.tier}:{tag}:{k}"))
        return g, g.program(n), mm(k)
    batches = [build(k) for k in range(nb)]
    res = c.pmap(lambda b: run_batch(c, b[0], b[1], life, sanitize, b[2]), batches)
    hists = []
    for k, (recs, exe, src) in enumerate(res):
        if recs is None:
            c.violation(f"a well-formed program is rejected by the compiler or miscompiled: {exe[-400:]}", {"source": src, "output": exe[-3000:]})
            continue
        hists += [(k, i) for i in range(len(recs))]
    judge(c, "LifeTrace", hists, lambda h: [res[h[0]][0][h[1]]], label="lifetimes" if life else "classes")
    for w, d in c.violations:
        if isinstance(d, dict) and isinstance(d.get("history"), tuple):
            k, i = d["history"]
            d["source"] = res[k][2]


def check(c):
    nb, n = c.pick((150, 10), (1000, 12))
    run_all(c, nb, n, True, "c18")
