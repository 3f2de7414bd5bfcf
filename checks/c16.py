"""C16: integer expressions, assignments and conversions of generated programs, judged by TLC against specs/Lang.tla."""
from vf import *
from exprgen import *
from langrun import *

STORE = ["local", "local", "const", "field", "elem", "ptr", "tuple", "glob"]


class CellRender(Render):
    """Variables live in different kinds of storage; the specification only knows that they are variables."""

    def __init__(self):
        self.cells = {}

    def name(self, n):
        kind = self.cells.get(n, "local")
        return {"field": f"s_{n}.v", "elem": f"a_{n}.[1]", "ptr": f"(*q_{n})", "tuple": f"t_{n}.1"}.get(kind, n)

    def ex(self, e):
        if e["k"] == "var":
            return self.name(e["n"])
        if e["k"] == "inc":
            o, n = "++" if e["d"] == 1 else "--", self.name(e["n"])
            return o + n if e["pre"] else n + o
        return super().ex(e)

    def st(self, s):
        if s["k"] == "asg":
            return f"{self.name(s['n'])} {s['op'] if s['op'] == '=' else s['op'] + '='} {self.ex(s['e'])};\n"
        if s["k"] == "decl" and "cell" in s:
            n, t, v, kind = s["n"], s["t"], s["e"]["n"], s["cell"]
            self.cells[n] = kind
            return {"local": f"var {n}: {t} = {v};\n", "const": f"const {n}: {t} = {v};\n",
                    "field": f"var s_{n} = Cell_{t}{{v: {v}}};\n", "elem": f"var a_{n}: [{t}, 3] = [{v}, {v}, {v}];\n",
                    "ptr": f"var b_{n}: {t} = {v};\nvar q_{n} = ptrof b_{n};\n", "tuple": f"var t_{n} = (1 as i32, {v});\n",
                    "glob": f"{n} = {v};\n"}[kind]
        return super().st(s)


def build(k, rng, n):
    fns, cases, globs = [], [], []
    nv = 0
    while len(fns) < n:
        nv += 1
        types = rng.choice([INTS, INTS, ["i32", "i64"], ["u8", "u16", "u32", "u64"], ["i8", "i16", "i32"], ["i64", "u64"], ["u32", "u64"]])
        ps, env, body, cells = [], {}, [], []
        for i in range(rng.randint(1, 4)):
            t = rng.choice(types + ["bool"]) if i else rng.choice(types)
            v = rng.random() < 0.5 if t == "bool" else interesting(rng, t)
            p, c = f"p{nv}_{i}", f"c{nv}_{i}"
            kind = rng.choice(STORE)
            if t == "bool" and kind in ("field", "elem"):
                kind = "local"
            ps.append((p, t, v))
            env[c] = v
            body.append({"k": "decl", "n": c, "t": t, "e": var(p, t), "cell": kind})
            cells.append((c, t, kind))
            if kind == "glob":
                globs.append((c, t))
        g = Expr(rng, types, [(c, t) for c, t, _ in cells])
        mut = [(c, t) for c, t, kd in cells if kd != "const" and t != "bool"]
        env0 = dict(env)
        try:
            for _ in range(rng.choice([0, 0, 1, 2, 3])):
                if not mut:
                    break
                c, t = rng.choice(mut)
                q = rng.random()
                if q < 0.3:
                    d = rng.choice([1, -1])
                    s = {"k": "expr", "e": {"k": "inc", "n": c, "d": d, "pre": rng.random() < 0.5, "t": t}}
                    if rng.random() < 0.6:
                        s = {"k": "ev", "tag": rng.randint(1, 99), "e": s["e"]}
                    e2 = dict(env)
                    ev(s["e"], e2)
                    env = e2
                else:
                    op = rng.choice(["=", "+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"])
                    e = g.gen(t, 2)
                    v = ev(e, env)
                    env = dict(env, **{c: v if op == "=" else arith(op, t, t, env[c], v)})
                    s = {"k": "asg", "n": c, "op": op, "e": e, "t": t}
                body.append(s)
        except Undefined:
            pass
        rt = rng.choice(types + ["bool"])
        for _ in range(300):
            e = g.gen(rt, rng.choice([2, 3, 3, 4]))
            try:
                ev(e, env)
                break
            except Undefined:
                continue
        else:
            continue
        if e["k"] in ("lit", "var"):
            continue
        body.append({"k": "ret", "e": e})
        fns.append({"name": f"e{len(fns)}", "ps": [p for p, _, _ in ps], "pt": [t for _, t, _ in ps], "rt": rt, "raises": False,
                    "body": body})
        cases.append((fns[-1]["name"], [({"k": "bool", "v": v, "t": t} if t == "bool" else lit(v, t)) for _, t, v in ps]))
    return fns, cases, globs


def src(fns, cases, globs):
    R = CellRender()
    t = HEAD + EXC
    for ty in INTS:
        t += f"struct Cell_{ty} {{ a: {ty} = 0; v: {ty} = 0; b: {ty} = 0; }}\n"
    for n, ty in globs:
        t += f"var {n}: {ty} = {'false' if ty == 'bool' else 0};\n"
    for f in fns:
        t += R.fn(f)
    t += "func main() {\n"
    for k, (f, args) in enumerate(cases):
        rt = fns[k]["rt"]
        call = f"{f}({', '.join(R.ex(a) for a in args)})"
        t += f"vf_ev(9000 as i32, {k} as i64);\n"
        t += f"vf_evu(0 as i32, {call});\n" if rt == "u64" else f"vf_ev(0 as i32, <i64>({call}));\n"
    return t + "}\n"


def run_batch(c, b):
    fns, cases, globs = b
    s = src(*b)
    exe, out, d = c.compile({"prog.cxy": s, "ev.c": ev_c()}, "prog.cxy", mm=False, name="expr")
    if not exe:
        return None, out, s
    obs, end, why = run_case(c, exe, 0)
    per = {}
    for tag, v in obs:
        if tag == 9000:
            cur = per.setdefault(v[0] + 256 * v[1], [])
        else:
            cur.append([tag, v])
    recs = []
    for k, (f, args) in enumerate(cases):
        o = per.get(k, [])
        done = o and o[-1][0] == 0
        rec = {"fns": {f: {"ps": fns[k]["ps"], "body": strip([{x: y for x, y in st.items() if x != "cell"} for st in fns[k]["body"]])}},
               "g": {n: [0] * 8 for n, _ in globs} or {"_": [0] * 8}, "f": f,
               "args": [a["v"] if a["t"] == "bool" else a["b"] for a in args], "fuel": 500,
               "end": "ok" if done else end, "v": o[-1][1] if done else [0] * 8, "out": o[:-1] if done else o, "why": why if not done else ""}
        if fns[k]["rt"] == "bool":
            rec["v"] = rec["v"] == [1] + [0] * 7 if rec["v"] in ([1] + [0] * 7, [0] * 8) else rec["v"]
        recs.append(rec)
    return recs, exe, s


def check(c):
    nb, n = c.pick((48, 150), (400, 200))
    batches = [build(k, random.Random(f"{c.seed}:{c.tier}:c16:{k}"), n) for k in range(nb)]
    res = c.pmap(lambda b: run_batch(c, b), batches)
    hists = []
    for k, (recs, exe, s) in enumerate(res):
        if recs is None:
            c.violation(f"a well-formed program is rejected by the compiler or miscompiled: {exe[-400:]}", {"source": s, "output": exe[-3000:]})
            continue
        hists += [(k, i) for i in range(len(recs))]
    judge(c, "LangTrace", hists, lambda h: [res[h[0]][0][h[1]]], label="expressions")
    for w, d in c.violations:
        if isinstance(d, dict) and isinstance(d.get("history"), tuple):
            k, i = d["history"]
            d["source"] = CellRender().fn(batches[k][0][i])
