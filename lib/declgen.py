"""Random programs of top level declarations, right and wrong, for Decls.tla: records and their text, one line each."""
from statgen import P, STR, PRIMS, INTS, show as show0

NONE = {"k": "none"}
VOID = {"k": "void"}


def show(t):
    k = t["k"]
    if k in ("if", "und", "tv", "al"):
        return t["n"]
    if k == "slice":
        return f"[{show(t['t'])}]"
    if k == "dim":
        return f"[{show(t['t'])}, {value(t['e'])}]"
    if k == "ptr":
        return "^" + show(t["t"])
    if k == "opt":
        return show(t["t"]) + "?"
    if k == "arr":
        return f"[{show(t['t'])}, {t['n']}]"
    if k == "tup":
        return "(" + ", ".join(map(show, t["ms"])) + ")"
    return show0(t)


def value(e):
    return {"lit": lambda: e["s"], "int": lambda: str(e["x"]), "name": lambda: e["n"], "null": lambda: "null"}[e["k"]]()


def lit(r, t):
    if t["k"] == "str":
        return {"k": "lit", "t": t, "s": '"s"'}
    n = t["n"]
    s = {"bool": r.choice(["true", "false"]), "wchar": "'c'", "char": "('c' as char)", "f32": "(1.5 as f32)", "f64": "1.5"}.get(n)
    return {"k": "lit", "t": t, "s": s or f"({r.randint(0, 9)} as {n})"}


class Decls:
    def __init__(self, r, names):
        self.r, self.names = r, names
        self.rate, self.inside = r.choice([0.05, 0.3, 0.3, 1]), False

    def wrong(self, p=0.06):
        return self.r.random() < p * self.rate

    def simple(self):
        return P(self.r.choice(PRIMS)) if self.r.random() < 0.8 else STR

    def type(self, below=None):
        """a type; below: how many of the named ones, in their order, it may be made of"""
        r, p = self.r, self.r.random()
        if self.names and self.wrong(0.03):
            return r.choice([{"k": "und", "n": "Zz"}, {"k": "ptr", "t": {"k": "und", "n": "Zz"}}, {"k": "tup", "ms": [P("i32"), {"k": "und", "n": "Zz"}]}])
        if p < 0.6:
            return self.simple()
        if p < 0.7:
            return {"k": "ptr", "t": self.simple()}
        if p < 0.77:
            return {"k": "opt", "t": P(r.choice(INTS))}
        if p < 0.84:
            return {"k": "tup", "ms": [self.simple() for _ in range(2)]}
        pool = [{"k": k, "n": n} for k, n in (self.order if below is None else self.order[:below])]
        return r.choice(pool) if pool else self.simple()

    def given(self, t, local=()):
        """a value for something of type t"""
        r = self.r
        p = r.random()
        names = [n for n, u in local if u == t] if p < 0.5 else [n for n, u in local]
        if names and (p < 0.2 or self.wrong(0.3)):
            return {"k": "name", "n": r.choice(names)}
        if self.names and self.wrong(0.05):
            # a class whose methods name variables of its own type is resolved in circles
            return {"k": "name", "n": r.choice(["zz"] + ([] if self.inside else self.plan["var"]))}
        if t["k"] in ("cl", "ptr"):
            return {"k": "null"} if not self.wrong() else lit(r, self.simple())
        if t["k"] in ("p", "str") and not self.wrong(0.2):
            return lit(r, t) if r.random() < 0.8 or t not in [P(n) for n in INTS] else {"k": "int", "x": r.choice([0, 7, 127])}
        if r.random() < 0.25 and self.wrong(0.5):
            return {"k": "int", "x": r.choice([0, 7, 127, 128, 300, 32767, 40000])}
        if t["k"] == "opt":
            return lit(r, t["t"])
        if t["k"] == "p" and t["n"] in INTS:
            return lit(r, P(r.choice(INTS + ["f32", "bool"])))
        return lit(r, self.simple())

    def params(self, a, b, defaults=True, tp=(), below=None):
        r, ps = self.r, []
        for i in range(r.randint(a, b)):
            t = {"k": "tv", "n": r.choice(tp)} if tp and r.random() < 0.6 else self.type(below)
            n = f"p{i}"
            if self.names and ps and self.wrong(0.04):
                n = ps[-1]["n"]
            d = NONE
            if defaults and not tp and (ps and ps[-1]["d"] != NONE or r.random() < 0.25):
                if t["k"] not in ("p", "str"):
                    t = self.simple()
                d = self.given(t, [(p["n"], p["t"]) for p in ps])
            ps.append({"n": n, "t": t, "d": d})
        return ps

    def result(self):
        if self.names and self.wrong(0.02):
            return {"k": "und", "n": "Zz"}
        return self.simple() if self.r.random() < 0.7 else VOID

    def method(self, n, below):
        return {"n": n, "ps": self.params(0, 2, self.r.random() < 0.3, (), below), "r": self.result()}

    def members(self, pre, below):
        r = self.r
        fs = []
        for i in range(r.randint(1, 3)):
            t = self.type(below)
            d = NONE
            if t["k"] in ("p", "str") and r.random() < 0.5:
                d = self.given(t)
                if d["k"] in ("name", "null"):
                    d = lit(r, t)
                if r.random() < 0.3 and d["k"] == "lit":
                    t = NONE
            fs.append({"n": f"{pre}{i}", "t": t, "d": d})
        if self.names and len(fs) > 1 and self.wrong():
            fs[-1]["n"] = fs[0]["n"]
        ms = []
        for _ in range(r.randint(0, 3)):
            m = self.method(f"{pre}m{r.randint(0, 1)}", below)
            if self.wrong(0.3) or all(o["n"] != m["n"] or [p["t"] for p in o["ps"]] != [p["t"] for p in m["ps"]] for o in ms):
                ms.append(m)
        if ms and self.wrong(0.08):
            ms.append(dict(ms[-1], r=self.result()))
        if self.names and ms and self.wrong():
            ms[-1]["n"] = fs[0]["n"]
        return fs, ms

    def program(self):
        r = self.r
        self.plan = {"struct": [f"St{i}" for i in range(r.randint(1, 3))], "class": [f"Cl{i}" for i in range(r.randint(1, 4))],
                     "iface": [f"If{i}" for i in range(r.randint(1, 2))], "enum": [f"En{i}" for i in range(r.randint(1, 2))],
                     "var": [f"v{i}" for i in range(r.randint(1, 3))], "alias": [f"Al{i}" for i in range(r.randint(0, 1))],
                     "exc": [f"Xc{i}" for i in range(r.randint(0, 1))]}
        # a type is made of those before it, wherever they are declared
        self.order = [("st", n) for n in self.plan["struct"]] + [("cl", n) for n in self.plan["class"]]
        r.shuffle(self.order)
        for k, p in (("st", "struct"), ("cl", "class")):
            self.plan[p] = [n for q, n in self.order if q == k]
        self.order = [("en", n) for n in self.plan["enum"]] + self.order
        self.ifs = {n: [{"n": f"{n.lower()}m{i}", "ps": self.params(0, 2, False, (), len(self.plan["enum"])), "r": self.result()} for i in range(r.randint(1, 2))] for n in self.plan["iface"]}
        self.final = {n: r.random() < 0.2 for n in self.plan["class"]}
        ds = []
        for k, ns in self.plan.items():
            for n in ns:
                ds.append((k, n))
        for n in [r.choice(["f0", "f1", "f2"]) for _ in range(r.randint(1, 4))]:
            ds.append(("fun", n))
        if self.names and self.wrong(0.3):
            ds.append((r.choice(["fun", "var", "struct", "enum", "alias"]), r.choice(["f0", "St0", "Cl0", "If0", "En0", "v0"])))
        r.shuffle(ds)
        ds.append(("main", "main"))
        out, seen = [], set()
        self.vars = []           # (name, type) of variables so far
        for k, n in ds:
            self.inside = k in ("struct", "class")
            d = getattr(self, k)(n)
            if k == "fun":
                sig = (n, str([p["t"] for p in d["ps"]]))
                if sig in seen and not self.wrong(0.3):
                    continue
                seen.add(sig)
            out.append(dict(d, k=k, n=n))
        return out

    # ---- kinds ----
    def struct(self, n):
        r = self.r
        ns = self.plan["struct"]
        lower = ns[:ns.index(n)] if n in ns else []
        fs, ms = self.members(n.lower(), self.order.index(("st", n)) if n in ns else 0)
        base = NONE
        if lower and r.random() < 0.4:
            base = {"k": "st", "n": r.choice(lower)}
            if self.names and self.wrong(0.1):
                fs[0]["n"] = base["n"].lower() + "0"
        if self.names and self.wrong(0.08):
            base = r.choice([P("i32"), {"k": "en", "n": self.plan["enum"][0]}, {"k": "cl", "n": self.plan["class"][0]}, STR])
        return {"base": base, "fs": fs, "ms": ms}

    def cls(self, n):
        r = self.r
        ns = self.plan["class"]
        lower = ns[:ns.index(n)]
        fs, ms = self.members(n.lower(), self.order.index(("cl", n)))
        base, ifs = NONE, []
        if lower and r.random() < 0.5:
            ok = [b for b in lower if not self.final[b]]
            closed = [b for b in lower if self.final[b]]
            base = {"k": "cl", "n": r.choice(closed if closed and self.wrong(0.3) else ok or lower)}
        elif self.wrong(0.1):
            st = [m for k, m in self.order[:self.order.index(("cl", n))] if k == "st"]
            base = r.choice([P("i32"), {"k": "if", "n": self.plan["iface"][0]}, {"k": "cl", "n": n}] + ([{"k": "st", "n": st[0]}] if st else []))
        for i in self.plan["iface"]:
            if r.random() < 0.35:
                ifs.append({"k": "if", "n": i})
                for m in self.ifs[i]:
                    p = r.random()
                    p = p / max(self.rate, 0.05)
                    if p < 0.06:
                        continue
                    m = {"n": m["n"], "ps": [dict(q) for q in m["ps"]], "r": m["r"]}
                    if p < 0.09 and m["ps"]:
                        q = m["ps"][0]
                        q["t"] = r.choice([P("i32") if q["t"]["k"] == "str" else STR, P("i64") if q["t"] != P("i64") else P("i16")])
                    elif p < 0.12:
                        m["ps"] = m["ps"] + [{"n": "extra", "t": STR, "d": NONE}]
                    elif p < 0.15:
                        m["r"] = r.choice([STR if m["r"]["k"] != "str" else P("bool"), P("i64") if m["r"] != P("i64") else P("i16")])
                    ms.append(m)
        if ifs and self.wrong():
            ifs.append(r.choice([ifs[0], P("i32"), {"k": "en", "n": self.plan["enum"][0]}] + [{"k": k, "n": m} for k, m in self.order[:self.order.index(("cl", n))]]))
        if self.names and ifs and self.wrong():
            ifs[-1] = {"k": "und", "n": "Zz"}
        return {"base": base, "final": self.final[n], "ifs": ifs, "fs": fs, "ms": ms}

    def iface(self, n):
        return {"ms": self.ifs[n]}

    def enum(self, n):
        r = self.r
        os = [{"n": f"O{i}", "x": 0, "v": False} for i in range(r.randint(1, 4))]
        if self.names and len(os) > 1 and self.wrong(0.1):
            os[-1]["n"] = os[0]["n"]
        base = NONE if r.random() < 0.4 else P(r.choice(INTS)) if not self.wrong(0.2) else r.choice([P("f64"), STR, P("bool"), P("wchar")])
        x = 0
        top = 127 if base == NONE or base["k"] != "p" or base["n"] in ("i8", "u8") else 32767
        for o in os:
            if r.random() < 0.5:
                o["v"] = True
                x = r.choice([x + 1, x + 7, r.randint(0, top // 2), r.choice([100, 127, 128, 32767, 40000]) if self.wrong(0.2) else 3])
            o["x"] = x
            x += 1
        return {"base": base, "os": os}

    def var(self, n):
        r = self.r
        t = self.simple() if r.random() < 0.75 else {"k": "opt", "t": P(r.choice(INTS))} if r.random() < 0.3 else {"k": "cl", "n": r.choice(self.plan["class"])}
        if self.names and self.wrong():
            t = {"k": "und", "n": "Zz"}
        e = self.given(t, self.vars)
        if t["k"] in ("p", "str") and e["k"] in ("lit", "name") and r.random() < 0.3:
            return {"t": NONE, "e": e}
        if not any(m == n for m, _ in self.vars):
            self.vars.append((n, t))
        return {"t": t, "e": e}

    def alias(self, n):
        r = self.r
        t = self.type()
        if r.random() < 0.5:
            e = {"k": "int", "x": r.randint(1, 9)} if not self.wrong(0.3) else r.choice([lit(r, STR), {"k": "lit", "t": P("f64"), "s": "4.5"}])
            t = {"k": "dim", "t": self.simple(), "e": e}
        return {"t": t}

    def exc(self, n):
        ps = self.params(1, 2, False)
        e = self.given(STR, [(p["n"], p["t"]) for p in ps])
        return {"ps": ps, "e": e}

    def fun(self, n):
        r = self.r
        tp = r.choice([["T"], ["T", "U"]]) if self.names and r.random() < 0.1 else []
        if tp and self.wrong(0.2):
            tp = ["T", "T"]
        return {"tp": tp, "ps": self.params(0, 3, tp=tp), "r": self.result()}

    def main(self, n):
        r = self.r
        p = r.random()
        ts = [] if p < 0.5 else [{"k": "slice", "t": STR}] if p < 0.75 or not self.wrong(0.5) else [r.choice([{"k": "slice", "t": P("i32")}, STR, P("i64"), {"k": "slice", "t": STR}])]
        if ts and self.wrong(0.1):
            ts.append(P("i32"))
        return {"ps": [{"n": f"a{i}", "t": t, "d": NONE} for i, t in enumerate(ts)]}


setattr(Decls, "class", Decls.cls)


# ---- text ----
def ptext(ps):
    return "(" + ", ".join(f"{p['n']}: {show(p['t'])}" + ("" if p["d"] == NONE else f" = {value(p['d'])}") for p in ps) + ")"


def body(r, t):
    return "{ }" if t["k"] not in ("p", "str") else "{ return " + lit(r, t)["s"] + " }"


def mtext(r, ms):
    return " ".join(f"func {m['n']}{ptext(m['ps'])}: {show(m['r'])} {body(r, m['r'])}" for m in ms)


def ftext(fs):
    return " ".join(f["n"] + ("" if f["t"] == NONE else f": {show(f['t'])}") + ("" if f["d"] == NONE else f" = {value(f['d'])}") + ";" for f in fs)


def text(r, d):
    k, n = d["k"], d["n"]
    if k == "fun":
        return f"func {n}" + (f"[{', '.join(d['tp'])}]" if d["tp"] else "") + f"{ptext(d['ps'])}: {show(d['r'])} {body(r, d['r'])}"
    if k == "main":
        return f"func main{ptext(d['ps'])} {{ }}"
    if k == "var":
        return f"var {n}" + ("" if d["t"] == NONE else f": {show(d['t'])}") + f" = {value(d['e'])};"
    if k == "alias":
        return f"type {n} = {show(d['t'])}"
    if k == "exc":
        return f"exception {n}{ptext(d['ps'])} => {value(d['e'])}"
    if k == "enum":
        return f"enum {n}" + ("" if d["base"] == NONE else f": {show(d['base'])}") + " { " + ", ".join(o["n"] + (f" = {o['x']}" if o["v"] else "") for o in d["os"]) + " }"
    if k == "iface":
        return f"interface {n} {{ " + " ".join(f"func {m['n']}{ptext(m['ps'])}: {show(m['r'])};" for m in d["ms"]) + " }"
    if k == "struct":
        return f"struct {n}" + ("" if d["base"] == NONE else f": {show(d['base'])}") + f" {{ {ftext(d['fs'])} {mtext(r, d['ms'])} }}"
    head = f"{'@final ' if d['final'] else ''}class {n}" + ("" if d["base"] == NONE else f": {show(d['base'])}")
    if d["ifs"]:
        head += (":" if d["base"] != NONE else "::") + " " + ", ".join(map(show, d["ifs"]))
    init = "func `init`() { " + ("super();" if d["base"] != NONE else "") + " }"
    return f"{head} {{ {ftext(d['fs'])} {init} {mtext(r, d['ms'])} }}"


def gen(r, names):
    ds = Decls(r, names).program()
    return ds, [text(r, d) for d in ds]
