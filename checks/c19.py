"""C19: compile-time code (#const, #{..}, #if, #for, macros) gives what the same code gives at run time (specs/Lang.tla)."""
from vf import *
from exprgen import *
from langrun import *

LO, HI = -(1 << 63), (1 << 63) - 1


class CtRender(Render):
    """Everything the specification executes is executed by the compiler: only the events are left for run time."""

    def ex(self, e):
        k = e["k"]
        if k == "lit":
            v = e["v"]
            if v < 0:
                return f"({v})"
            return {1: f"0x{v:x}", 2: f"0b{v:b}"}.get(e["style"], str(v))
        if k == "mac":
            return e["m"] + "!" + ("(" + ", ".join(self.ex(a) for a in e["as"]) + ")" if e["as"] else "")
        if k == "marg":
            return e["n"] + "!"
        return super().ex(e)

    def st(self, s):
        k = s["k"]
        if k == "decl":
            return f"#const {s['n']} = {self.ex(s['e'])};\n"
        if k == "asg":
            return f"#{{{s['n']} {s['op'] if s['op'] == '=' else s['op'] + '='} {self.ex(s['e'])}}}\n"
        if k == "ev":
            if s["e"]["k"] == "cast":
                s = dict(s, e=s["e"]["e"])
            if s.get("pp"):       # folded by the preprocessor
                return f"vf_ev({s['tag']} as i32, <i64>({self.ex(s['e'])}));\n"
            return f"vf_ev({s['tag']} as i32, <i64>(#{{{self.ex(s['e'])}}}));\n"
        if k == "if":
            r = f"#if ({self.ex(s['c'])}) {self.block(s['a'])}"
            if s["b"] or s.get("else"):
                if len(s["b"]) == 1 and s["b"][0]["k"] == "if" and s.get("chain"):
                    r += "else " + self.st(s["b"][0])
                else:
                    r += "else " + self.block(s["b"])
            return r
        if k == "for":
            lo, hi = self.ex(s["lo"]), self.ex(s["hi"])
            if s.get("rng"):
                return f"#for (const {s['n']}: range({lo}, {hi})) {self.block(s['body'])}"
            return f"#for (const {s['n']}: ({lo})..({hi})) {self.block(s['body'])}"
        if k == "foreach":
            if "step" in s:
                return f"#for (const {s['n']}: range({s['step'][0]}, {s['step'][1]}, {s['step'][2]})) {self.block(s['body'])}"
            if "str" in s:
                return f"#for (const {s['n']}: \"{s['str']}\") {self.block(s['body'])}"
            return f"#for (const {s['n']}: [{', '.join(self.ex(e) for e in s['es'])}]) {self.block(s['body'])}"
        return super().st(s)


class Ct(Expr):
    """Compile-time integers have no type: i64."""

    def __init__(self, rng, vars):
        super().__init__(rng, ["i64"], vars)

    def leaf(self, t):
        vs = [n for n, ty in self.vars if ty == t]
        if vs and self.r.random() < 0.6:
            return var(self.r.choice(vs), t)
        if t == "bool":
            return {"k": "bool", "v": self.r.random() < 0.5, "t": "bool"}
        return lit(interesting(self.r, "i64") if self.r.random() < 0.5 else self.r.randint(-30, 99), "i64", self.r.choice([0, 0, 1, 2]))

    def gen(self, t, d):
        while True:
            e = super().gen(t, d)
            if not self.has(e, ("cast",)):
                return e

    def has(self, e, ks):
        if isinstance(e, dict):
            return e.get("k") in ks or any(self.has(v, ks) for v in e.values())
        return isinstance(e, list) and any(self.has(v, ks) for v in e)


def isbool(e):
    k = e["k"]
    if k in ("bool", "not", "and", "or"):
        return True
    if k == "bin":
        return e["op"] in ("<", ">", "<=", ">=", "==", "!=")
    if k == "grp":
        return isbool(e["e"])
    if k == "tern":
        return isbool(e["a"])
    return k == "var" and e["t"] == "bool"


class Gen:
    def __init__(self, rng):
        self.r, self.n, self.tag = rng, 0, 0

    def name(self, p):
        self.n += 1
        return f"{p}{self.n}"

    def total(self, e, env, t=None):
        """Every part is defined (the folding of literals does not know which branch is taken), in type t if given."""
        if isinstance(e, dict):
            if "k" in e:
                v = ev(e, dict(env))
                if t and not isinstance(v, bool) and not fits(v, t):
                    raise Undefined
                if t and e.get("op") in ("<<", ">>") and not fits(ev(e["r"], env) + (128 - BITS[t]), "i8"):
                    raise Undefined
            for k, x in e.items():
                if isinstance(x, dict):
                    self.total(x, env, t)

    def plain(self, t=None):
        """An expression of untyped literals in ordinary code: every value is an i8."""
        g = Ct(self.r, [])
        t = t or self.r.choice(["i64", "i64", "bool"])
        while True:
            e = g.gen(t, self.r.choice([1, 2, 3]))
            try:
                self.total(e, {}, "i8")
            except Undefined:
                continue
            if not g.has(e, ("tern",)):    # operands of different sizes are different types
                return e

    def expr(self, sc, env, t=None, d=None):
        """An expression that is defined in env (values of the variables)."""
        g = Ct(self.r, sc)
        t = t or self.r.choice(["i64", "i64", "bool"])
        for _ in range(200):
            e = g.gen(t, self.r.choice([1, 2, 3]) if d is None else d)
            try:
                self.total(e, env)
                return e
            except Undefined:
                pass
        return lit(1, "i64") if t == "i64" else {"k": "bool", "v": True, "t": "bool"}

    def emit(self, sc, env, e=None):
        self.tag += 1
        e = e or self.expr(sc, env)
        return {"k": "ev", "tag": self.tag, "e": e if not isbool(e) else {"k": "cast", "e": e, "f": "bool", "t": "i64", "style": 0}}

    def block(self, sc, env, d, n):
        """Statements; env is updated as the statements execute (the generator runs the program as it writes it)."""
        r, out = self.r, []
        sc = list(sc)
        for _ in range(n):
            p = r.random()
            if p < 0.2:
                t = r.choice(["i64", "i64", "bool"])
                e = self.expr(sc, env, t)
                nm = self.name("k")
                env[nm] = ev(e, dict(env))
                out.append({"k": "decl", "n": nm, "t": t, "e": e})
                sc.append((nm, t))
            elif p < 0.4 and [1 for v, t in sc if t == "i64" and v[0] == "k"]:
                v = r.choice([v for v, t in sc if t == "i64" and v[0] == "k"])
                op = r.choice(["=", "=", "+", "-", "*", "&", "|", "^"])
                e = self.expr(sc, env, "i64")
                try:
                    x = ev(e, dict(env))
                    x = x if op == "=" else arith(op, "i64", "i64", env[v], x)
                except Undefined:
                    continue
                env[v] = x
                out.append({"k": "asg", "n": v, "op": op, "e": e, "t": "i64"})
            elif p < 0.6 or d == 0:
                out.append(self.emit(sc, env))
            elif p < 0.8:
                c = self.expr(sc, env, "bool")
                taken = ev(c, dict(env))
                arms = []
                for arm in (True, False):
                    # only the arm taken is executed: the other one may do anything well-formed
                    e2 = env if arm == taken else dict(env)
                    arms.append(self.block(sc, e2, d - 1, r.randint(1, 3)))
                s = {"k": "if", "c": c, "a": arms[0], "b": arms[1] if r.random() < 0.6 or not taken else [], "chain": True}
                if not s["b"] and not taken:
                    s["b"] = arms[1]
                out.append(s)
            else:
                out.append(self.loop(sc, env, d))
        return out

    def loop(self, sc, env, d):
        r = self.r
        nm = self.name("j_")
        p = r.random()
        small = [v for v, t in sc if t == "i64" and -3 <= env[v] <= 3]
        if p < 0.5:
            a = r.randint(-3, 3)
            lo = lit(a, "i64")
            if small and r.random() < 0.5:
                v = r.choice(small)
                lo, a = var(v, "i64"), env[v]
            hi = {"k": "bin", "op": "+", "l": lo, "r": lit(r.randint(0, 3), "i64"), "t": "i64", "w": "i64"} if r.random() < 0.5 else \
                lit(a + r.randint(-1, 3), "i64")
            vals = range(a, ev(hi, dict(env)))
            s = {"k": "for", "n": nm, "lo": lo, "hi": hi, "t": "i64", "rng": r.random() < 0.3}
        elif p < 0.65:
            vals = [r.randint(-9, 1 << r.randint(1, 60)) for _ in range(r.randint(1, 3))]
            s = {"k": "foreach", "n": nm, "es": [lit(v, "i64") for v in vals], "t": "i64"}
        elif p < 0.8:
            txt = "".join(r.choice("abcXYZ019 _") for _ in range(r.randint(1, 3)))
            vals = [ord(x) for x in txt]
            s = {"k": "foreach", "n": nm, "es": [lit(v, "i64") for v in vals], "t": "i64", "str": txt}
        else:
            st = r.choice([1, 2, 3, 5, -1, -2, -3])
            a = r.randint(-5, 5)
            b = a + st * r.randint(0, 3) + r.randint(-1, 1)
            vals = range(a, b, st)
            s = {"k": "foreach", "n": nm, "es": [lit(v, "i64") for v in vals], "t": "i64", "step": (a, b, st)}
        vals = list(vals)
        # assignments in the body run once per iteration: keep to ones that stay in range
        body = []
        inner = sc + [(nm, "i64")] if "str" not in s else sc
        for _ in range(r.randint(1, 3)):
            q = r.random()
            if q < 0.25 and [1 for v, t in sc if t == "i64" and v[0] == "k"] and "str" not in s:
                v = r.choice([v for v, t in sc if t == "i64" and v[0] == "k"])
                body.append({"k": "asg", "n": v, "op": r.choice(["=", "+", "-"]), "e": var(nm, "i64"), "t": "i64"})
            elif q < 0.4 and d > 1 and "str" not in s:
                body.append({"k": "for", "n": self.name("j_"), "lo": lit(0, "i64"), "hi": var(nm, "i64") if vals and max(vals) < 5 else lit(2, "i64"),
                             "t": "i64", "body": [self.emit(sc, env, var(nm, "i64"))]})
                body[-1]["body"].append(self.emit(sc, env, var(body[-1]["n"], "i64")))
            elif q < 0.7 and d > 1 and "str" not in s:
                c = {"k": "bin", "op": r.choice(["<", "==", ">=", "!="]), "l": var(nm, "i64"),
                     "r": lit(r.choice(vals or [0]), "i64"), "t": "i64", "w": "i64"}
                self.tag += 1
                body.append({"k": "if", "c": c, "a": [{"k": "ev", "tag": self.tag, "e": var(nm, "i64")}],
                             "b": [self.emit([], env)] if r.random() < 0.5 else []})
            else:
                body.append(self.emit(sc, env, var(nm, "i64")))
        s["body"] = body

        def run(ss):
            for x in ss:
                if x["k"] == "asg":
                    y = ev(x["e"], env)
                    env[x["n"]] = y if x["op"] == "=" else arith(x["op"], "i64", "i64", env[x["n"]], y)
        save = dict(env)
        try:
            for v in vals:
                env[nm] = v
                run(body)
        except Undefined:
            env.clear()
            env.update(save)
            s["body"] = [self.emit(sc, env, var(nm, "i64"))]
        env.pop(nm, None)
        return s

    def macros(self, k):
        """macro M(a, b) =(expr of a!, b!)"""
        out = []
        for i in range(k):
            ps = [f"A{j}" for j in range(self.r.randint(0, 3))]
            g = Ct(self.r, [(p, "i64") for p in ps])
            while True:
                e = g.gen("i64", self.r.choice([1, 2, 2]))
                if not g.has(e, ("tern",)):
                    break
            out.append((f"M{i}", ps, e))
        return out


def subst(e, m):
    if isinstance(e, dict):
        if e.get("k") == "var":
            return m.get(e["n"], e)
        return {k: subst(v, m) for k, v in e.items()}
    return e


def expand(node):
    """What the specification sees of a macro use: the expression it stands for."""
    if isinstance(node, dict):
        if node.get("k") == "mac":
            return expand(node["x"])
        return {k: expand(v) for k, v in node.items() if k not in ("str", "step", "rng", "chain", "pp")}
    if isinstance(node, list):
        return [expand(v) for v in node]
    return node


def build(k, rng, n):
    g = Gen(rng)
    macs = g.macros(6)
    fns = []
    for i in range(n):
        env, sc, body = {}, [], []
        body += g.block(sc, env, 3, rng.randint(2, 6))
        sc = [(s["n"], s["t"]) for s in body if s["k"] == "decl"]
        for _ in range(rng.randint(0, 3)):
            m, ps, e = rng.choice(macs)
            for _ in range(60):
                args = [grp(g.plain("i64")) for _ in ps]
                args = [a["e"] if a["e"]["k"] == "lit" else a for a in args]
                x = subst(e, dict(zip(ps, args)))
                try:
                    g.total(x, {}, "i8")
                except Undefined:
                    continue
                g.tag += 1
                body.append({"k": "ev", "tag": g.tag, "e": {"k": "mac", "m": m, "as": args, "x": x, "t": "i64"}, "pp": rng.random() < 0.5})
                break
        for _ in range(rng.randint(0, 2)):      # literal expressions of ordinary code, folded by the preprocessor
            body.append(dict(g.emit([], {}, g.plain()), pp=True))
        fns.append({"name": f"c{i}", "ps": [], "pt": [], "rt": "i32", "raises": False, "body": body})
    return macs, fns


def src(b):
    macs, fns = b
    R = CtRender()
    t = HEAD
    for m, ps, e in macs:
        e = subst(e, {p: {"k": "marg", "n": p, "t": "i64"} for p in ps})
        t += f"macro {m}{'(' + ', '.join(ps) + ')' if ps else ''} =({R.ex(e)})\n"
    for f in fns:
        t += f"func {f['name']}() : void {R.block(f['body'])}\n"
    t += "func main() {\n"
    for k, f in enumerate(fns):
        t += f"vf_ev(9000 as i32, {k} as i64);\n{f['name']}();\n"
    return t + "vf_ev(9000 as i32, 9999 as i64);\n}\n"


def run_batch(c, b):
    s = src(b)
    exe, out, d = c.compile({"prog.cxy": s, "ev.c": ev_c()}, "prog.cxy", mm=False, name="ct")
    if not exe:
        return None, out, s
    obs, end, why = run_case(c, exe, 0)
    per, cur, last = {}, [], -1
    for tag, v in obs:
        if tag == 9000:
            last = v[0] + 256 * v[1]
            cur = per.setdefault(last, [])
        else:
            cur.append([tag, v])
    recs = []
    for k, f in enumerate(b[1]):
        done = last > k
        recs.append({"fns": {f["name"]: {"ps": [], "body": strip(expand(f["body"]))}}, "g": {"_": [0] * 8}, "f": f["name"], "args": [],
                     "fuel": 2000, "end": "ok" if done else end, "v": [0] * 8, "out": per.get(k, []), "why": "" if done else why})
    return recs, exe, s


def check(c):
    nb, n = c.pick((64, 12), (500, 16))
    batches = [build(k, random.Random(f"{c.seed}:{c.tier}:c19:{k}"), n) for k in range(nb)]
    res = c.pmap(lambda b: run_batch(c, b), batches)
    hists = []
    for k, (recs, exe, s) in enumerate(res):
        if recs is None:
            c.violation(f"a well-formed program is rejected by the compiler or miscompiled: {exe[-400:]}", {"source": s, "output": exe[-3000:]})
            continue
        hists += [(k, i) for i in range(len(recs))]
    judge(c, "LangTrace", hists, lambda h: [res[h[0]][0][h[1]]], label="compile-time programs")
    for w, d in c.violations:
        if isinstance(d, dict) and isinstance(d.get("history"), tuple):
            k, i = d["history"]
            d["source"] = CtRender().fn(batches[k][1][i])
