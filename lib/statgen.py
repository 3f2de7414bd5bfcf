"""Programs over a random world of declarations in which every function has one statement that may break a static rule."""

INTS = ["i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64"]
PRIMS = INTS + ["f32", "f64", "bool", "char", "wchar"]


def P(n):
    return {"k": "p", "n": n}


STR, VOID, NULL, NONE = {"k": "str"}, {"k": "void"}, {"k": "null"}, {"k": "none"}


def show(t):
    k = t["k"]
    if k in ("p", "st", "cl", "en"):
        return t["n"]
    if k == "str":
        return "string"
    if k == "void":
        return "void"
    if k == "ptr":
        return "^" + show(t["t"])
    if k == "opt":
        return show(t["t"]) + "?"
    if k == "tup":
        return "(" + ", ".join(map(show, t["ms"])) + ")"
    if k == "un":
        return " | ".join(map(show, t["ms"]))
    if k == "arr":
        return f"[{show(t['t'])}, {t['n']}]"
    raise ValueError(k)


def ex(e):
    k = e["k"]
    if k == "lit":
        return e["s"]
    if k == "null":
        return "null"
    if k == "var":
        return e["n"]
    if k == "un":
        return f"({e['op']}{ex(e['e'])})"
    if k == "bin":
        return f"({ex(e['l'])} {e['op']} {ex(e['r'])})"
    if k == "tern":
        return f"({ex(e['c'])} ? {ex(e['a'])} : {ex(e['b'])})"
    if k in ("call", "callv"):
        return f"{e['f']}({', '.join(map(ex, e['as']))})"
    if k == "new":
        return f"{e['n']}({', '.join(map(ex, e['as']))})"
    if k == "catch":
        return f"({ex(e['e'])} catch {ex(e['d'])})"
    if k == "mem":
        return f"{ex(e['e'])}.{e['m']}"
    if k == "tix":
        return f"{ex(e['e'])}.{e['i']}"
    if k == "idx":
        return f"{ex(e['e'])}.[{ex(e['i'])}]"
    if k == "slit":
        return e["n"] + "{" + ", ".join(f"{f['n']}: {ex(f['e'])}" for f in e["fs"]) + "}"
    if k == "meth":
        return f"{ex(e['e'])}.{e['m']}({', '.join(map(ex, e['as']))})"
    if k == "enum":
        return f"{e['n']}.{e['m']}"
    if k == "tup":
        return "(" + ", ".join(map(ex, e["es"])) + ")"
    if k == "arr":
        return "[" + ", ".join(map(ex, e["es"])) + "]"
    if k == "cast":
        return f"({ex(e['e'])} as {show(e['t'])})"
    if k == "ptrof":
        return f"(ptrof {ex(e['e'])})"
    if k == "deref":
        return f"(*{ex(e['e'])})"
    if k == "clo":
        return f"({', '.join(p['n'] + ': ' + show(p['t']) for p in e['ps'])}) => {ex(e['e'])}"
    if k == "fun":
        return e["f"]
    if k == "gen":
        return e["f"] + (f"[{', '.join(map(show, e['ts']))}]" if e["ts"] else "") + f"({', '.join(map(ex, e['as']))})"
    if k == "short":
        return f".{e['m']}"
    raise ValueError(k)


class World:
    def __init__(self, r):
        self.r = r
        self.unions = [{"k": "un", "ms": [P("i32"), P("bool")]}, {"k": "un", "ms": [P("i64"), STR, P("f64")]}]
        self.structs, self.classes, self.enums, self.funs, self.excs = {}, {}, {"E0": ["A", "B", "C"]}, {}, {}
        self.made = {"E0": P("i64")}
        for n in ("E1", "E2"):
            if r.random() < 0.5:
                self.enums[n], self.made[n] = ["A", "B", "C"], P(r.choice(INTS))
        for n in ("S0", "S1"):
            fs = [{"n": f"a{i}", "t": self.simple(), "d": False} for i in range(r.randint(1, 3))]
            for f in fs[1:]:
                f["d"] = r.random() < 0.4
            ms = [{"n": m, "c": c, "ps": self.params(0, 2), "nd": 0, "r": self.simple(), "x": False}
                  for m, c in (("m0", False), ("m1", True))]
            ops = [{"o": o, "p": self.simple(), "r": self.simple()} for o in r.sample(["+", "-", "*", "=="], r.randint(0, 2))]
            def over(n, ps):             # overloads of an operator that is a method
                vs = []
                for _ in range(n):
                    p = ps()
                    if all(v["ps"] != p for v in vs):
                        vs.append({"ps": p, "nd": 0, "r": self.simple(), "x": False, "c": True})
                return vs
            ix = over(r.choice([0, 1, 2]), lambda: [self.simple()])
            ixa = over(r.choice([0, 1, 2]), lambda: [self.simple(), self.simple()])
            for v in ixa:
                v["c"], v["r"] = False, P("i32")
            cal = over(r.choice([0, 1, 2]), lambda: self.params(0, 2))
            self.structs[n] = {"fs": fs, "ms": ms, "ops": ops, "ix": ix, "ixa": ixa, "cal": cal, "tru": r.random() < 0.5}
        base = ""
        for n in ("C0", "C1", "C2"):
            fs = [{"n": f"f{n[1]}{i}", "t": self.simple(), "d": False} for i in range(r.randint(1, 2))]
            ms = [{"n": f"k{n[1]}", "c": False, "ps": self.params(0, 2), "nd": 0, "r": self.simple(), "x": False}]
            self.classes[n] = {"base": base, "fs": fs, "ms": ms, "init": self.params(0, 2), "abs": False}
            base = {"C0": "C0", "C1": "" if r.random() < 0.5 else "C1"}.get(n, "")
        self.classes["CA"] = {"base": "", "fs": [], "ms": [], "init": [], "abs": True}
        for i in range(4):
            vs, used = [], []
            raises = i == 3
            for _ in range(1 if raises else r.choice([1, 1, 2, 3])):
                ps = self.params(0, 3)
                if ps in used:
                    continue
                used.append(ps)
                nd = 0
                if r.random() < 0.3 and ps and all(p["k"] in ("p", "str") for p in ps[-1:]):
                    nd = 1
                vs.append({"ps": ps, "nd": nd, "r": self.simple(), "x": raises})
            if len(vs) > 1:                     # several overloads with defaults could be declared twice
                for v in vs:
                    v["nd"] = 0
            self.funs[f"g{i}"] = vs
        # overloads of as many parameters, which the same arguments can be given to; what they return tells which one was meant
        for f in ("go", "gp"):
            n = r.choice([1, 2, 2, 3])
            vs, rs = [], [P("bool"), STR, P("char"), P("f32"), P("f64"), P("i16")]
            r.shuffle(rs)
            for _ in range(r.randint(2, 4)):
                ps = [P(r.choice(["i16", "i32", "i64", "i64", "u16", "u64", "f64"])) for _ in range(n)]
                if all(v["ps"] != ps for v in vs):
                    vs.append({"ps": ps, "nd": 0, "r": rs.pop(), "x": False})
            self.funs[f] = vs
        self.funs["gv"] = [{"ps": [P("i32")], "nd": 0, "r": VOID, "x": False}]
        self.excs["X0"] = [STR]

    def json(self):
        return {"structs": self.structs, "classes": self.classes, "enums": self.enums, "made": self.made, "funs": self.funs, "excs": self.excs}

    def simple(self):
        r = self.r
        return P(r.choice(PRIMS)) if r.random() < 0.8 else STR

    def params(self, a, b):
        r = self.r
        return [self.type() if r.random() < 0.3 else self.simple() for _ in range(r.randint(a, b))]

    def type(self):
        r = self.r
        p = r.random()
        if p < 0.55 or not self.structs:
            return self.simple()
        if p < 0.63:
            return {"k": "st", "n": r.choice(list(self.structs))}
        if p < 0.71 and self.classes:
            return {"k": "cl", "n": r.choice([c for c in self.classes if c != "CA"])}
        if p < 0.77:
            return {"k": "en", "n": r.choice(list(self.enums))}
        if p < 0.84:
            return {"k": "opt", "t": P(r.choice(PRIMS))}
        if p < 0.91:
            return {"k": "tup", "ms": [self.simple() for _ in range(r.randint(2, 3))]}
        if p < 0.95:
            return {"k": "ptr", "t": P(r.choice(["i32", "bool", "f64"]))}
        return r.choice(self.unions)

    def text(self):
        out = []

        def value(t):
            return self.literal(t)["s"] if t["k"] in ("p", "str") else "null"

        def body(t):
            if t["k"] == "void":
                return "{ }"
            return "{ return " + value(t) + " }"

        def params(ps, nd=0):
            return ", ".join(f"p{i}: {show(t)}" + (f" = {value(t)}" if i >= len(ps) - nd else "") for i, t in enumerate(ps))

        out.append("exception X0(msg: string) => msg")
        out += [f"enum {n}" + (f": {show(self.made[n])}" if n != "E0" else "") + " { A, B, C }" for n in self.enums]
        for n, s in self.structs.items():
            out.append(f"struct {n} {{")
            for f in s["fs"]:
                out.append(f"  {f['n']} = {value(f['t'])};" if f["d"] else f"  {f['n']}: {show(f['t'])};")
            for m in s["ms"]:
                out.append(f"  {'const ' if m['c'] else ''}func {m['n']}({params(m['ps'])}): {show(m['r'])} {body(m['r'])}")
            if s["tru"]:
                out.append("  const func `!!`() { return true }")
            for o, vs in (("[]", s["ix"]), ("[]=", s["ixa"]), ("()", s["cal"])):
                for v in vs:
                    out.append(f"  {'const ' if v['c'] else ''}func `{o}`({params(v['ps'])})" + (f": {show(v['r'])} {body(v['r'])}" if o != "[]=" else " { }"))
            for o in s["ops"]:
                out.append(f"  const func `{o['o']}`(o: {show(o['p'])}): {show(o['r'])} {body(o['r'])}")
            out.append("}")
        for n, s in self.classes.items():
            if s["abs"]:
                out.append(f"class {n} {{ func `init`() {{ }} virtual func am(): i32 }}")
                continue
            out.append(f"class {n}{' : ' + s['base'] if s['base'] else ''} {{")
            for f in s["fs"]:
                out.append(f"  {f['n']} = {value(f['t'])};")
            sup = ""
            if s["base"]:
                sup = "super(" + ", ".join(self.anyvalue(t) for t in self.classes[s["base"]]["init"]) + ")"
            out.append(f"  func `init`({params(s['init'])}) {{ {sup} }}")
            for m in s["ms"]:
                out.append(f"  func {m['n']}({params(m['ps'])}): {show(m['r'])} {body(m['r'])}")
            out.append("}")
        for n, vs in self.funs.items():
            for v in vs:
                if v["x"]:
                    out.append(f"func {n}({params(v['ps'], v['nd'])}): !{show(v['r'])} {{ if (vf_flag() > 0) {{ raise X0(\"x\") }} return {value(v['r'])} }}")
                else:
                    out.append(f"func {n}({params(v['ps'], v['nd'])}): {show(v['r'])} {body(v['r'])}")
        return ["extern func vf_flag(): i32", "func gid[T](x: T) { return x }", "func gsame[T](x: T, y: T) { return x }",
                "func gpair[T, U](x: T, y: U): U { return y }"] + out

    def anyvalue(self, t):
        return ex(Gen(self, self.r).exact(t, 0))

    def literal(self, t):
        r = self.r
        if t["k"] == "str":
            return {"k": "lit", "t": t, "s": '"s"'}
        n = t["n"]
        if n == "bool":
            return {"k": "lit", "t": t, "s": r.choice(["true", "false"])}
        if n == "wchar":
            return {"k": "lit", "t": t, "s": "'c'"}
        if n == "char":
            return {"k": "lit", "t": t, "s": "('c' as char)"}
        if n in ("f32", "f64"):
            return {"k": "lit", "t": t, "s": f"(1.5 as {n})"}
        return {"k": "lit", "t": t, "s": f"({r.randint(0, 9)} as {n})"}


class Gen:
    def __init__(self, w, r, names=False):
        self.w, self.r, self.names = w, r, names
        self.vars = {}          # name -> (type, const)
        self.raises = False
        self.loops = 0
        self.nv = 0
        self.line = 0

    # ---- expressions ----
    def exact(self, t, d, pure=True):
        """an expression of exactly this type"""
        r, w, k = self.r, self.w, t["k"]
        vs = [n for n, (u, c) in self.vars.items() if u == t]
        if vs and r.random() < (0.5 if d > 0 else 0.8):
            return {"k": "var", "n": r.choice(vs)}
        if d > 0:
            opts = []
            for f, ov in w.funs.items():
                for v in ov:
                    if v["r"] == t and not v["x"]:
                        opts.append(("call", f, v))
            for n, s in w.structs.items():
                for f in s["fs"]:
                    if f["t"] == t:
                        opts.append(("mem", {"k": "st", "n": n}, f["n"]))
                for m in s["ms"]:
                    if m["r"] == t:
                        opts.append(("meth", {"k": "st", "n": n}, m))
            for n, s in w.classes.items():
                for f in s["fs"]:
                    if f["t"] == t:
                        opts.append(("mem", {"k": "cl", "n": n}, f["n"]))
                for m in s["ms"]:
                    if m["r"] == t:
                        opts.append(("meth", {"k": "cl", "n": n}, m))
            if k == "p" and t["n"] in INTS + ["f32", "f64"]:
                opts += [("bin", r.choice(["+", "-", "*", "/"]), t)] * 3
            if k == "p" and t["n"] in INTS:
                opts += [("bin", r.choice(["%", "&", "|", "^", "<<", ">>"]), t)] * 2 + [("un", "~", t)]
            if k == "p" and t["n"] == "bool":
                opts += [("cmp",)] * 3 + [("bin", r.choice(["&&", "||"]), t)] * 2 + [("un", "!", t)]
            if opts and r.random() < 0.6:
                o = r.choice(opts)
                if o[0] == "call":
                    return {"k": "call", "f": o[1], "as": [self.exact(p, d - 1) for p in o[2]["ps"]]}
                if o[0] == "mem":
                    e = self.variable(o[1])
                    if e:
                        return {"k": "mem", "e": e, "m": o[2]}
                if o[0] == "meth":
                    e = self.variable(o[1])
                    if e and (o[2]["c"] or not self.vars[e["n"]][1]):
                        return {"k": "meth", "e": e, "m": o[2]["n"], "as": [self.exact(p, d - 1) for p in o[2]["ps"]]}
                if o[0] == "bin":
                    e = self.variable(t)
                    if e:
                        return {"k": "bin", "op": o[1], "l": e, "r": self.exact(t, d - 1)}
                if o[0] == "cmp":
                    u = P(r.choice(INTS + ["f64"]))
                    e = self.variable(u)
                    if e:
                        return {"k": "bin", "op": r.choice(["<", ">", "<=", ">=", "==", "!="]), "l": e, "r": self.exact(u, d - 1)}
                if o[0] == "un":
                    e = self.variable(t)
                    if e:
                        return {"k": "un", "op": o[1], "e": e}
        if k in ("p", "str"):
            return w.literal(t)
        if k == "st":
            return {"k": "slit", "n": t["n"], "fs": [{"n": f["n"], "e": self.exact(f["t"], d - 1)} for f in w.structs[t["n"]]["fs"]
                                                   if not f["d"] or r.random() < 0.5]}
        if k == "cl":
            return {"k": "new", "n": t["n"], "as": [self.exact(p, d - 1) for p in w.classes[t["n"]]["init"]]}
        if k == "en":
            return {"k": "enum", "n": t["n"], "m": r.choice("ABC")}
        if k == "tup":
            return {"k": "tup", "es": [self.exact(m, d - 1) for m in t["ms"]]}
        if k == "arr":
            return {"k": "arr", "es": [self.exact(t["t"], d - 1) for _ in range(t["n"])]}
        if k == "opt":
            return {"k": "cast", "t": t, "e": self.exact(t["t"], 0)}
        if k == "ptr":
            return {"k": "cast", "t": t, "e": {"k": "null"}}
        if k == "un":
            return self.exact(r.choice(t["ms"]), 0)
        raise ValueError(k)

    def variable(self, t):
        vs = [n for n, (u, c) in self.vars.items() if u == t]
        return {"k": "var", "n": self.r.choice(vs)} if vs else None

    def anyvar(self, ok=lambda t: True):
        vs = [n for n, (u, c) in self.vars.items() if ok(u)]
        return {"k": "var", "n": self.r.choice(vs)} if vs else None

    def near(self, t):
        """a type that may or may not do for t"""
        r = self.r
        if r.random() < 0.35:
            return t
        if t["k"] == "p" and t["n"] in INTS and r.random() < 0.7:
            return P(r.choice(INTS))
        if t["k"] == "cl" and r.random() < 0.7:
            return {"k": "cl", "n": r.choice(["C0", "C1", "C2"])}
        if t["k"] == "opt" and r.random() < 0.6:
            return r.choice([t["t"], NULL, P(r.choice(PRIMS))])
        if t["k"] == "tup" and r.random() < 0.7:
            ms = [self.near(m) if r.random() < 0.5 else m for m in t["ms"]]
            return {"k": "tup", "ms": ms if r.random() < 0.8 else ms + [P("i32")]}
        if t["k"] == "un" and r.random() < 0.7:
            return r.choice(t["ms"] + [P(r.choice(PRIMS)), STR])
        if t["k"] in ("str", "ptr", "cl") and r.random() < 0.3:
            return NULL
        return self.w.type()

    def some(self, t, d=1):
        if t["k"] == "null":
            return {"k": "null"}
        return self.exact(t, d)

    def narrow(self, f):
        """a call whose arguments may be widened to the parameters of several overloads"""
        r = self.r
        ps = r.choice(self.w.funs[f])["ps"]
        return {"k": "call", "f": f, "as": [self.exact(u if r.random() < 0.3 else P(r.choice(["i8", "u8", "i16", "i32", "u32"])), 0) for u in ps]}

    def risky(self, t, d=2):
        """an expression that may have this type, or another, or none"""
        r, w = self.r, self.w
        p = r.random()
        if p < 0.3:
            return self.some(self.near(t), d - 1)
        if p < 0.45:
            if r.random() < 0.3:
                return self.narrow(r.choice(["go", "gp"]))
            f = r.choice([x for x in w.funs if x != "gv" or r.random() < 0.1])
            v = r.choice(w.funs[f])
            as_ = [self.some(self.near(u), 0) for u in v["ps"]]
            q = r.random()
            if q < 0.08:
                as_ = as_[:-1]
            elif q < 0.14:
                as_ = as_ + [self.exact(w.simple(), 0)]
            e = {"k": "call", "f": f, "as": as_}
            if v["x"] and r.random() < 0.6 or r.random() < 0.05:
                t = self.near(v["r"])
                if t["k"] in (v["r"]["k"], "null", "en"):
                    t = v["r"]
                return {"k": "catch", "e": e, "d": self.some(t, 0)}
            return e
        if p < 0.52:
            n = r.choice(list(w.classes))
            return {"k": "new", "n": n, "as": [self.some(self.near(u), 0) for u in w.classes[n]["init"]][: None if r.random() < 0.9 else 1]}
        if p < 0.59:
            n = r.choice(list(w.structs))
            fs = [{"n": f["n"], "e": self.some(self.near(f["t"]), 0)} for f in w.structs[n]["fs"] if not f["d"] and r.random() < 0.95 or f["d"] and r.random() < 0.5]
            if r.random() < 0.07:
                fs.append({"n": "zz", "e": w.literal(P("i32"))})
            return {"k": "slit", "n": n, "fs": fs} if fs else {"k": "slit", "n": n, "fs": [{"n": "a0", "e": self.exact(w.structs[n]["fs"][0]["t"], 0)}]}
        if p < 0.75:
            l = self.anyvar(lambda u: u["k"] in ("p", "en", "str", "st", "ptr")) if r.random() < 0.9 else self.anyvar()
            if l:
                u = self.vars[l["n"]][0]
                if u["k"] == "st" and r.random() < 0.6 and w.structs[u["n"]]["ops"]:
                    o = r.choice(w.structs[u["n"]]["ops"])
                    return {"k": "bin", "op": o["o"], "l": l, "r": self.some(self.near(o["p"]), 0)}
                op = r.choice(["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "&&", "||", "<", ">", "<=", ">=", "==", "!="])
                rt = self.near(u)
                while rt["k"] == "null" and u["k"] not in ("str", "ptr", "cl") or rt["k"] == "un":
                    rt = self.near(u)
                if u["k"] in ("str", "ptr", "arr") and op in "+-" and rt["k"] in ("str", "ptr", "null", "arr"):
                    op = "=="
                if u["k"] == "str" and op in ("<", ">", "<=", ">="):    # (never of a constant)
                    return {"k": "bin", "op": op, "l": l, "r": w.literal(rt) if rt["k"] in ("p", "str") else self.some(P("i32"), 0)}
                return {"k": "bin", "op": op, "l": l, "r": self.some(rt, 0)}
        if p < 0.8:
            v = self.anyvar(lambda u: u["k"] in ("p", "str"))
            if v:
                return {"k": "un", "op": r.choice("-~!"), "e": v}
        if p < 0.86:
            l = self.anyvar(lambda u: u["k"] in ("st", "cl")) if r.random() < 0.9 else self.anyvar(lambda u: u["k"] != "opt")
            if l:
                u = self.vars[l["n"]][0]
                names = ["a0", "a1", "f00", "f10", "f20", "zz"]
                if u["k"] in ("st", "cl"):
                    s = (w.structs if u["k"] == "st" else w.classes)[u["n"]]
                    if r.random() < 0.4:
                        m = r.choice(s["ms"] if r.random() < 0.7 or u["k"] == "st" else w.classes["C0"]["ms"])
                        return {"k": "meth", "e": l, "m": m["n"], "as": [self.some(self.near(x), 0) for x in m["ps"]]}
                    names += [f["n"] for f in s["fs"]] * 3
                return {"k": "mem", "e": l, "m": r.choice(names)}
        if p < 0.9:
            l = self.anyvar(lambda u: u["k"] == "tup") if r.random() < 0.8 else self.anyvar(lambda u: u["k"] in ("p", "str"))
            if l:
                return {"k": "tix", "e": l, "i": r.randint(0, 3)}
        if p < 0.93:
            l = self.anyvar(lambda u: u["k"] in ("arr", "ptr", "str")) if r.random() < 0.8 else self.anyvar(lambda u: u["k"] in ("p", "tup"))
            if l:
                return {"k": "idx", "e": l, "i": self.some(P(r.choice(INTS + ["bool", "f32"])), 0)}
        if p < 0.96:
            v = self.anyvar(lambda u: u["k"] in ("p", "en", "cl", "str")) if r.random() < 0.8 else self.anyvar(lambda u: u["k"] == "un")
            if v and r.random() < 0.7:
                u = self.vars[v["n"]][0]
                if u["k"] == "un":
                    return {"k": "cast", "e": v, "t": r.choice(u["ms"] + [P("i8")])}
                if u["k"] in ("cl", "str") and self.vars[v["n"]][1]:      # (that would cast the const away)
                    return {"k": "cast", "e": v, "t": P("i32")}
                if u["k"] == "cl":
                    return {"k": "cast", "e": v, "t": r.choice([{"k": "cl", "n": r.choice(["C0", "C1", "C2"])}, P("i32"), STR])}
                return {"k": "cast", "e": v, "t": r.choice([P(r.choice(PRIMS)), P(r.choice(PRIMS)), STR])}
            lit = self.w.literal(r.choice([P(r.choice(PRIMS)), STR])) if r.random() < 0.6 else {"k": "enum", "n": r.choice(list(self.w.enums)), "m": r.choice("ABC")}
            return {"k": "cast", "e": lit, "t": r.choice([P(r.choice(PRIMS)), P(r.choice(PRIMS)), STR])}
        if p < 0.98:
            c = self.anyvar()
            v = self.exact(t, 0)
            return {"k": "tern", "c": c, "a": v, "b": self.some(self.near(t), 0)} if c else v
        v = self.anyvar(lambda u: u["k"] in ("ptr", "opt", "p"))
        if v:
            return {"k": "deref", "e": v}
        return {"k": "enum", "n": r.choice(list(self.w.enums)), "m": r.choice("ABCZ")}

    # ---- statements ----
    def at(self):
        self.line += 1
        return self.line

    def name(self):
        self.nv += 1
        return f"v{self.nv}"

    def decl(self, t=None, risky=False):
        r = self.r
        e = None
        if risky and not t and r.random() < 0.12:
            f = r.choice(["go", "gp"])
            t, e = r.choice(self.w.funs[f])["r"], self.narrow(f)
        t = t or self.w.type()
        l, n = self.at(), self.name()
        e = e or (self.risky(t) if risky else self.exact(t, 1))
        ann = t if (t["k"] == "un" or r.random() < (0.75 if risky else 0.4)) else NONE
        if risky and ann["k"] == "none" and e["k"] == "null":
            ann = t
        s = {"k": "decl", "l": l, "n": n, "t": ann, "e": e, "c": r.random() < 0.2 and t["k"] != "ptr"}
        def const(e):
            if e["k"] == "var":
                return self.vars.get(e["n"], (0, True))[1]
            return any(const(e[x]) for x in ("e", "a", "b") if isinstance(e.get(x), dict)) if e["k"] in ("mem", "tix", "idx", "un", "tern") \
                else any(map(const, e["es"])) if e["k"] in ("tup", "arr") else False
        if ann["k"] == "none" and const(e):
            if t["k"] in ("arr", "ptr"):     # a variable deduced from a constant is a constant
                s["c"] = True
            else:
                s["t"] = t
        self.vars[n] = (t, s["c"])          # if it is not refused, and t is its type
        return s

    def block(self, n, risky=None):
        """n harmless statements, and the risky one among them"""
        saved = dict(self.vars)
        at = self.r.randint(0, n) if risky else -1
        out = []
        for i in range(n + 1):
            if i == at:
                out.append(self.subject(risky - 1))
            elif i < n:
                out.append(self.harmless())
        self.vars = saved
        return out

    def lvalue(self):
        r = self.r
        v = self.anyvar()
        u = self.vars[v["n"]][0]
        if u["k"] == "st" and r.random() < 0.6:
            f = r.choice(self.w.structs[u["n"]]["fs"])
            return {"k": "mem", "e": v, "m": f["n"]}, f["t"]
        if u["k"] == "cl" and r.random() < 0.6:
            f = r.choice(self.w.classes[u["n"]]["fs"])
            return {"k": "mem", "e": v, "m": f["n"]}, f["t"]
        if u["k"] == "tup" and r.random() < 0.7:
            i = r.randrange(len(u["ms"]))
            return {"k": "tix", "e": v, "i": i}, u["ms"][i]
        if u["k"] == "arr":
            return {"k": "idx", "e": v, "i": self.exact(P("i32"), 0)}, u["t"]
        return v, u

    def harmless(self):
        r = self.r
        p = r.random()
        if p < 0.6:
            return self.decl()
        if p < 0.8:
            vs = [n for n, (u, c) in self.vars.items() if not c and u["k"] in ("p", "str", "st", "cl")]
            if vs:
                n = r.choice(vs)
                l = self.at()
                return {"k": "asgn", "l": l, "to": {"k": "var", "n": n}, "op": "", "e": self.exact(self.vars[n][0], 1)}
        l = self.at()
        return {"k": "expr", "l": l, "e": {"k": "call", "f": "gv", "as": [self.exact(P("i32"), 1)]}}

    def subject(self, depth=2):
        """the statement that may be at fault, perhaps deep inside others"""
        r, w = self.r, self.w
        if depth > 0 and r.random() < 0.45:
            l = self.at()
            k = r.choice(["if", "if", "while", "block", "range", "each"])
            if k == "if":
                c = self.exact(P("bool"), 1)
                if r.random() < 0.6:
                    return {"k": "if", "l": l, "c": c, "th": self.block(1, depth), "el": self.block(1) if r.random() < 0.5 else []}
                return {"k": "if", "l": l, "c": c, "th": self.block(1), "el": self.block(1, depth)}
            if k == "while":
                c = self.exact(P("bool"), 1)
                self.loops += 1
                b = self.block(1, depth)
                self.loops -= 1
                return {"k": "while", "l": l, "c": c, "b": b}
            if k == "block":
                return {"k": "block", "l": l, "b": self.block(1, depth)}
            n = self.name()
            saved = dict(self.vars)
            if k == "range":
                a, e = self.exact(P("i32"), 0), self.exact(P("i32"), 0)
                u, more = P("i64"), {"a": a, "two": False}
            else:
                v = self.anyvar(lambda u: u["k"] == "arr")
                e, u, more = v, self.vars[v["n"]][0]["t"], {"three": False}
            self.vars[n] = (u, True)
            self.loops += 1
            s = {"k": k, "l": l, "n": n, "c": True, "e": e, "b": self.block(1, depth), **more}
            self.loops -= 1
            self.vars = saved
            return s
        p = r.random()
        if self.names and p < 0.6:
            return self.wrongname()
        p = r.random()
        if p < 0.27:
            return self.decl(risky=True)
        if r.random() < 0.35:
            return self.more()
        if p < 0.47:
            l = self.at()
            to, t = self.lvalue()
            if t["k"] == "p" and r.random() < 0.4:
                return {"k": "asgn", "l": l, "to": to, "op": r.choice(["+", "-", "*", "&", "|", "^", "/", "%", "<<", ">>"]), "e": self.some(self.near(t), 0)}
            return {"k": "asgn", "l": l, "to": to, "op": "", "e": self.risky(t, 1)}
        if p < 0.53:
            l = self.at()
            e, t = self.lvalue()
            return {"k": "inc", "l": l, "e": e, "op": r.choice(["++", "--"]), "pre": r.random() < 0.4}
        if p < 0.63:
            l = self.at()
            f = r.choice([x for x in w.funs if x != "g3"] + ["gv"])
            v = r.choice(w.funs[f])
            return {"k": "expr", "l": l, "e": {"k": "call", "f": f, "as": [self.some(self.near(u), 1) for u in v["ps"]]}}
        if p < 0.69:
            l = self.at()
            c = self.some(w.type(), 1) if r.random() < 0.7 else self.risky(P("bool"))
            if r.random() < 0.5:
                return {"k": "if", "l": l, "c": c, "th": self.block(1), "el": self.block(1) if r.random() < 0.4 else []}
            return {"k": "while", "l": l, "c": c, "b": self.block(1)}
        if p < 0.77:
            l = self.at()
            if r.random() < 0.15:
                return {"k": "ret", "l": l, "none": True}
            t = self.near(self.ret if self.ret["k"] != "void" else P("i32"))
            if self.raises and self.ret["k"] != "void":     # its own type, or one that never fits
                t = self.ret if r.random() < 0.6 else P("bool") if self.ret["k"] == "str" else STR
            return {"k": "ret", "l": l, "none": False, "e": self.some(t, 1)}
        if p < 0.81:
            l, n = self.at(), self.name()
            saved = dict(self.vars)
            a = self.some(P(r.choice(INTS)) if r.random() < 0.7 else w.type(), 0)
            e = self.some(P(r.choice(INTS)) if r.random() < 0.7 else w.type(), 0)
            two = r.random() < 0.1
            self.vars[n] = (P("i64"), True)
            b = self.block(1)
            self.vars = saved
            return {"k": "range", "l": l, "n": n, "c": True, "a": a, "e": e, "two": two, "b": b}
        if p < 0.84:
            l, n = self.at(), self.name()
            saved = dict(self.vars)
            v = self.anyvar(lambda u: u["k"] == "arr") if r.random() < 0.5 else self.anyvar(lambda u: u["k"] in ("p", "str", "tup"))
            if self.vars[v["n"]][0]["k"] == "arr":
                self.vars[n] = (self.vars[v["n"]][0]["t"], True)
            b = self.block(1) if r.random() < 0.5 else []
            self.vars = saved
            return {"k": "each", "l": l, "n": n, "c": True, "e": v, "b": b, "three": r.random() < 0.08}
        if p < 0.9:
            l = self.at()
            q = r.random()
            v = self.anyvar(lambda u: u["k"] == "p" and u["n"] in INTS + ["bool", "char", "wchar"]) if q < 0.8 else self.anyvar(lambda u: u["k"] not in ("st", "en"))
            u = self.vars[v["n"]][0]
            lt = u if u["k"] == "p" and u["n"] in INTS else P("i32")
            if r.random() < 0.15:
                v2 = self.anyvar(lambda u: u["k"] == "str")
                if v2:
                    v, u = v2, STR
            cs = []
            for _ in range(r.randint(1, 4)):
                if u["k"] == "str" and r.random() < 0.9:
                    val = r.choice(["a", "b", "ab", ""] + ["x%d" % i for i in range(9)])
                    cs.append({"t": STR, "v": val, "hi": val, "l": self.at(), "b": self.block(r.randint(0, 1))})
                    continue
                if u["k"] == "p" and u["n"] in INTS and r.random() < 0.3:      # a span, always a number of 64 bits
                    lo = r.choice([0, 3, 10, 60, r.randint(0, 120), r.choice([250, 70000])])
                    if r.random() < 0.2 and u["n"][0] == "i":
                        lo = -lo
                    hi = lo + r.choice([0, 1, 2, 5, 20, 200]) if r.random() < 0.93 else lo - r.randint(1, 3)
                    if u["n"][0] == "i" or (lo >= 0 and hi >= 0):
                        cs.append({"t": P("i64"), "v": lo, "hi": hi, "s": lt["n"] if max(abs(lo), abs(hi)) <= 127 and r.random() < 0.9 else "i32", "l": self.at(), "b": self.block(r.randint(0, 1))})
                        continue
                t = self.near(lt) if r.random() < 0.15 else lt
                if t["k"] != "p" or t["n"] not in INTS:
                    t = lt
                big = {"i8": 127, "u8": 255, "i16": 32767, "u16": 65535}.get(t["n"], 100000)
                val = r.choice([r.randint(0, 6), r.randint(0, 100), big])
                if r.random() < 0.1 and t["n"] in ("i64", "u64", "i32", "u32"):
                    val = r.choice([70000, 200, 40000])
                cs.append({"t": t, "v": val, "hi": val, "l": self.at(), "b": self.block(r.randint(0, 1))})
            # which of several clashes is reported is open: only one
            keep, clash = [], False
            for x in cs:
                n = sum(type(x["v"]) is type(y["v"]) and x["v"] <= y["hi"] and y["v"] <= x["hi"] for y in keep)
                if n == 0 or (n == 1 and not clash):
                    keep.append(x)
                    clash = clash or n == 1
            cs = keep
            return {"k": "switch", "l": l, "e": v, "cs": cs, "d": self.block(r.randint(0, 1))}
        if p < 0.95:
            l = self.at()
            v = self.anyvar(lambda u: u["k"] == "un") if r.random() < 0.9 else self.anyvar(lambda u: u["k"] == "p")
            u = self.vars[v["n"]][0]
            ms = list(u.get("ms", [P("i32")]))
            if r.random() < 0.35:
                ms[r.randrange(len(ms))] = r.choice(ms + [P("i8"), STR, P("i32")])
            cs = []
            for m in ms:
                cl, saved = self.at(), dict(self.vars)
                n = self.name() if r.random() < 0.7 else ""
                if n:
                    self.vars[n] = (m, False)
                cs.append({"t": m, "n": n, "l": cl, "b": self.block(r.randint(0, 1))})
                self.vars = saved
            return {"k": "match", "l": l, "e": v, "cs": cs}
        if p < 0.98:
            l = self.at()
            return {"k": "raise", "l": l, "n": "X0", "as": [self.some(STR if r.random() < 0.8 else w.type(), 0)]}
        if self.loops:
            return {"k": r.choice(["break", "continue"]), "l": self.at()}
        return self.decl(risky=True)

    def more(self):
        """other statements that may be at fault"""
        r, w = self.r, self.w
        q = r.choice(["clo", "fun", "st", "st", "ixa", "gen", "gen", "temp", "dec2", "catch", "raisev", "short", "arr", "cond", "callv", "cidx"])
        if q in ("clo", "fun"):
            l0, n = self.at(), self.name()
            saved = dict(self.vars)
            if q == "clo":
                ps = [{"n": f"q{i}", "t": w.simple()} for i in range(r.randint(0, 2))]
                rt = r.choice([p["t"] for p in ps] + [w.simple()])
                outer = {m: v for m, v in saved.items() if v[0]["k"] in ("p", "str") and not v[1] and r.random() < 0.3}
                self.vars = {**outer, **{p["n"]: (p["t"], False) for p in ps}}
                e = {"k": "clo", "ps": ps, "e": self.exact(rt, 1) if r.random() < 0.85 else self.risky(rt, 1)}
                self.vars = saved
                us = [p["t"] for p in ps]
            else:
                f = r.choice([f for f, vs in w.funs.items() if len(vs) == 1 and not vs[0]["nd"] and not vs[0]["x"] and f != "gv"])
                e, us, rt = {"k": "fun", "f": f}, w.funs[f][0]["ps"], w.funs[f][0]["r"]
            d = {"k": "decl", "l": l0, "n": n, "t": NONE, "e": e, "c": False}
            if r.random() < 0.05:
                d["t"] = w.simple()
            as_ = [self.some(self.near(u), 0) for u in us]
            if r.random() < 0.1:
                as_ = as_[:-1] if r.random() < 0.5 else as_ + [self.exact(w.simple(), 0)]
            m, l1 = self.name(), self.at()
            use = {"k": "decl", "l": l1, "n": m, "t": self.near(rt) if r.random() < 0.6 else rt, "e": {"k": "callv", "f": n, "as": as_}, "c": False}
            if use["t"]["k"] not in ("p", "str"):
                use["t"] = rt
            return {"k": "block", "l": l0, "b": [d, use]}
        if q in ("st", "ixa", "callv", "cidx"):
            v = self.anyvar(lambda u: u["k"] == "st")
            if q == "callv" and r.random() < 0.2:
                v = self.anyvar(lambda u: u["k"] in ("p", "str", "tup", "cl"))
            u = self.vars[v["n"]][0]
            if q == "cidx" or q == "callv" and u["k"] != "st" or q == "st":
                vs = w.structs[u["n"]]["cal" if q == "callv" or q == "st" and r.random() < 0.5 else "ix"] if u["k"] == "st" else []
                call = u["k"] != "st" or vs is w.structs[u["n"]]["cal"]
                o = r.choice(vs or [{"ps": [P("i32")], "r": P("i32")}])
                as_ = [self.some(self.near(t), 0) for t in o["ps"]]
                if call and r.random() < 0.1:
                    as_ = as_ + [self.exact(w.simple(), 0)]
                e = {"k": "callv", "f": v["n"], "as": as_} if call else {"k": "idx", "e": v, "i": as_[0]}
                l, n = self.at(), self.name()
                return {"k": "decl", "l": l, "n": n, "t": NONE if r.random() < 0.4 else o["r"], "e": e, "c": False}
            vs = w.structs[u["n"]]["ixa"] if u["k"] == "st" else []
            o = r.choice(vs or [{"ps": [P("i32"), P("i32")]}])
            l = self.at()
            return {"k": "asgn", "l": l, "to": {"k": "idx", "e": v, "i": self.some(self.near(o["ps"][0]), 0)}, "op": "", "e": self.some(self.near(o["ps"][1]), 0)}
        if q == "gen":
            f = r.choice(["gid", "gsame", "gpair"])
            l = self.at()

            def val(t):
                for _ in range(8):
                    e = self.exact(t, 0)
                    if not (e["k"] == "var" and self.vars[e["n"]][1]):
                        return e
                return w.literal(w.simple())
            t = w.simple() if r.random() < 0.7 else {"k": "st", "n": "S0"}
            u = self.near(t) if f == "gsame" else w.simple()
            if u["k"] not in ("p", "str", "st"):
                u = t
            ts, rt = [], u if f == "gpair" else t
            if r.random() < 0.3:
                ts = [t] if f != "gpair" or r.random() < 0.4 else [t, u]
                t = self.near(t) if self.near(t)["k"] in ("p", "str") else t
            as_ = [val(t if t["k"] in ("p", "str", "st") else P("i32"))] + ([val(u)] if f != "gid" else [])
            if r.random() < 0.1:
                as_ = as_ + [val(P("i32"))] if r.random() < 0.5 else as_[:-1]
            d = {"k": "decl", "l": l, "n": self.name(), "t": NONE, "e": {"k": "gen", "f": f, "ts": ts, "as": as_}, "c": False}
            if r.random() < 0.7:
                d["t"] = rt if r.random() < 0.7 else self.near(rt)
                if d["t"]["k"] not in ("p", "str"):
                    d["t"] = NONE
            return d
        if q == "temp":
            t = w.simple()
            e = self.exact(t, 1)
            if e["k"] in ("cast", "var"):
                e = w.literal(t)
            if r.random() < 0.3:
                e, t = {"k": "mem", "e": self.exact({"k": "st", "n": "S0"}, 0), "m": "a0"}, w.structs["S0"]["fs"][0]["t"]
            elif r.random() < 0.3:
                e = {"k": "call", "f": "g2", "as": [self.exact(u, 0) for u in w.funs["g2"][0]["ps"]]}
                t = w.funs["g2"][0]["r"]
            l = self.at()
            if r.random() < 0.3 and e["k"] in ("mem", "call"):
                return {"k": "inc", "l": l, "e": e, "op": "++", "pre": r.random() < 0.5}
            return {"k": "asgn", "l": l, "to": e, "op": "", "e": w.literal(t)}
        if q == "dec2":
            l = self.at()
            ns = [self.name() for _ in range(r.choice([2, 2, 3]))]
            e = self.exact({"k": "tup", "ms": [w.simple() for _ in range(r.choice([2, 3]))]}, 0)
            if e["k"] == "var" and self.vars[e["n"]][1]:
                e = {"k": "tup", "es": [w.literal(w.simple()), w.literal(w.simple())]}
            if e["k"] == "tup":           # (a variable deduced from a constant would be one; too few ends the compilation: rarely)
                e["es"] = [x if x["k"] != "var" else w.literal(w.simple()) for x in e["es"]]
                if r.random() < 0.95:
                    ns = ns[:len(e["es"])]
            if r.random() < 0.15:
                e = w.literal(w.simple())
            b = [{"k": "dec2", "l": l, "ns": ns, "e": e, "c": r.random() < 0.3}]
            if r.random() < 0.7:
                n, t = self.name(), w.simple()
                b.append({"k": "decl", "l": self.at(), "n": n, "t": t, "e": {"k": "var", "n": r.choice(ns)}, "c": False} if r.random() < 0.6 else
                         {"k": "asgn", "l": self.at(), "to": {"k": "var", "n": r.choice(ns)}, "op": "", "e": w.literal(t)})
            return {"k": "block", "l": l, "b": b}
        if q == "catch":
            v = w.funs["g3"][0]
            l, n = self.at(), self.name()
            d = v["r"] if r.random() < 0.5 else P("bool") if v["r"]["k"] == "str" else r.choice([STR, P("bool")] if v["r"]["n"] != "bool" else [STR])
            return {"k": "decl", "l": l, "n": n, "t": NONE if r.random() < 0.5 else v["r"], "c": False,
                    "e": {"k": "catch", "e": {"k": "call", "f": "g3" if r.random() < 0.9 else "go", "as": [self.some(self.near(u), 0) if r.random() < 0.3 else self.exact(u, 0) for u in v["ps"]]}, "d": w.literal(d)}}
        if q == "raisev":
            l = self.at()
            return {"k": "raisev", "l": l, "e": w.literal(w.simple())}
        if q == "short":
            l, n = self.at(), self.name()
            en = r.choice(list(w.enums))
            return {"k": "decl", "l": l, "n": n, "t": {"k": "en", "n": en}, "c": False, "e": {"k": "short", "n": en, "m": r.choice("ABCABCZ")}}
        if q == "arr":
            t = w.simple()
            l, n = self.at(), self.name()
            es = [self.exact(t, 0)] + [self.exact(self.near(t) if r.random() < 0.2 else t, 0) for _ in range(r.randint(0, 3))]
            u = self.near(t)
            if any(e["k"] == "var" for e in es) or u["k"] not in ("p", "str"):
                u = t
            es = [e if e["k"] != "null" else w.literal(t) for e in es]
            return {"k": "decl", "l": l, "n": n, "c": False, "t": {"k": "arr", "t": u, "n": max(1, len(es) + r.choice([0, 0, 0, 1, -1]))} if r.random() < 0.8 else NONE,
                    "e": {"k": "arr", "es": es}}
        l = self.at()
        c = self.anyvar(lambda u: u["k"] in ("st", "st", "opt"))
        u = self.vars[c["n"]][0]
        if u["k"] == "st" and r.random() < 0.4:
            c = {"k": "un", "op": "!", "e": c}
        if r.random() < 0.3 and c["k"] == "var":
            return {"k": "decl", "l": l, "n": self.name(), "t": NONE, "c": False, "e": {"k": "tern", "c": c, "a": w.literal(P("i32")), "b": w.literal(P("i32"))}}
        if r.random() < 0.5:
            return {"k": "if", "l": l, "c": c, "th": self.block(1), "el": []}
        return {"k": "while", "l": l, "c": c, "b": self.block(1)}

    def wrongname(self):
        r = self.r
        l = self.at()
        q = r.random()
        if q < 0.25:
            return {"k": r.choice(["break", "continue"]), "l": l}
        if q < 0.45 and self.vars:
            return {"k": "decl", "l": l, "n": r.choice(list(self.vars)), "t": NONE, "e": self.exact(P("i32"), 0), "c": False}
        n = f"v{r.randint(1, self.nv + 3)}"
        if q < 0.7:
            return {"k": "asgn", "l": l, "to": {"k": "var", "n": n}, "op": "", "e": self.exact(P("i32"), 0)}
        if q < 0.8:
            return {"k": "expr", "l": l, "e": {"k": "call", "f": r.choice(["g9", "gv"]), "as": [{"k": "var", "n": n}]}}
        if q < 0.9:
            m = self.name()
            return {"k": "decl", "l": l, "n": m, "t": NONE, "c": False, "e": {"k": "var", "n": r.choice([n, m])}}
        return {"k": "if", "l": l, "c": {"k": "bin", "op": "==", "l": {"k": "var", "n": n}, "r": self.exact(P("i32"), 0)}, "th": [], "el": []}

    def func(self, name):
        r, w = self.r, self.w
        self.ret = VOID if r.random() < 0.4 else w.simple()
        self.raises = r.random() < 0.35
        self.vars, self.nv, self.line, self.loops = {}, 0, 0, 0
        ps = []
        for i in range(r.randint(0, 2)):
            t = w.simple()
            ps.append({"n": f"p{i}", "t": t})
            self.vars[f"p{i}"] = (t, False)
        b = [self.decl({"k": "arr", "t": w.simple(), "n": r.randint(1, 3)}), self.decl(r.choice(w.unions)), self.decl(w.simple()),
             self.decl({"k": "tup", "ms": [w.simple(), w.simple()]})]
        b += [self.decl() for _ in range(r.randint(2, 5))]
        for _ in range(20):
            saved = dict(self.vars), self.nv, self.line, self.loops
            try:
                b.append(self.subject())
                break
            except (TypeError, ValueError, IndexError):       # no variable of the kind it needs
                self.vars, self.nv, self.line, self.loops = saved
        b += [self.harmless() for _ in range(r.randint(0, 1))] if b[-1]["k"] not in ("ret", "raise", "break", "continue") else []
        if self.ret["k"] != "void" and b[-1]["k"] not in ("ret", "raise"):
            b.append({"k": "ret", "l": self.at(), "none": False, "e": w.literal(self.ret)})
        return {"n": name, "ps": ps, "r": self.ret, "x": self.raises, "b": b}

    def deduced(self, name):
        """a function that does not say what it returns"""
        r, w = self.r, self.w
        self.ret, self.raises = VOID, False
        self.vars, self.nv, self.line, self.loops = {}, 0, 0, 0
        t = w.simple()

        def ret():
            if r.random() < 0.1:
                return {"k": "ret", "l": self.at(), "none": True}
            u = t if r.random() < 0.6 else self.near(t)
            return {"k": "ret", "l": self.at(), "none": False, "e": w.literal(u if u["k"] in ("p", "str") else t)}
        b = [self.decl() for _ in range(r.randint(1, 3))]
        for _ in range(r.randint(1, 3)):
            l, c = self.at(), self.exact(P("bool"), 1)
            k = r.choice(["if", "ifelse", "while", "block"])
            if k == "if":
                b.append({"k": "if", "l": l, "c": c, "th": self.block(1) + [ret()], "el": []})
            elif k == "ifelse":
                b.append({"k": "if", "l": l, "c": c, **({"th": [ret()], "el": self.block(1)} if r.random() < 0.5 else {"th": self.block(1), "el": self.block(1) + [ret()]})})
            elif k == "while":
                b.append({"k": "while", "l": l, "c": c, "b": self.block(1) + [{"k": "if", "l": self.at(), "c": c, "th": [ret()], "el": []}]})
            else:
                b.append({"k": "block", "l": l, "b": [{"k": "if", "l": self.at(), "c": c, "th": [ret()], "el": []}]})
        b.append(ret())
        return {"n": name, "ps": [], "r": NONE, "x": False, "b": b}


# ---- text ----
def stmts(ss, out, ind):
    pad = "  " * ind

    def put(s, text):
        out.append((s["l"], pad + text))

    for s in ss:
        k = s["k"]
        if k == "decl":
            ann = "" if s["t"]["k"] == "none" else f": {show(s['t'])}"
            put(s, f"{'const' if s['c'] else 'var'} {s['n']}{ann} = {ex(s['e'])};")
        elif k == "asgn":
            put(s, f"{ex(s['to'])} {s['op']}= {ex(s['e'])};")
        elif k == "inc":
            put(s, f"{s['op']}{ex(s['e'])};" if s["pre"] else f"{ex(s['e'])}{s['op']};")
        elif k == "expr":
            put(s, ex(s["e"]) + ";")
        elif k == "if":
            put(s, f"if ({ex(s['c'])}) {{")
            stmts(s["th"], out, ind + 1)
            if s["el"]:
                out.append((0, pad + "} else {"))
                stmts(s["el"], out, ind + 1)
            out.append((0, pad + "}"))
        elif k in ("while", "range", "each", "block"):
            put(s, {"while": lambda: f"while ({ex(s['c'])}) {{", "block": lambda: "{",
                    "range": lambda: f"for (const {s['n']}{', zz' if s['two'] else ''}: {ex(s['a'])}..{ex(s['e'])}) {{",
                    "each": lambda: f"for (const {s['n']}, zz{', zzz' if s['three'] else ''}: {ex(s['e'])}) {{"}[k]())
            stmts(s["b"], out, ind + 1)
            out.append((0, pad + "}"))
        elif k == "ret":
            put(s, "return;" if s["none"] else f"return {ex(s['e'])};")
        elif k == "switch":
            put(s, f"switch ({ex(s['e'])}) {{")
            for c in s["cs"]:
                out.append((c["l"], f"{pad}  case {label(c)} => {{"))
                stmts(c["b"], out, ind + 2)
                out.append((0, pad + "  }"))
            out.append((0, pad + "  default => {"))
            stmts(s["d"], out, ind + 2)
            out += [(0, pad + "  }"), (0, pad + "}")]
        elif k == "match":
            put(s, f"match ({ex(s['e'])}) {{")
            for c in s["cs"]:
                out.append((c["l"], f"{pad}  case {show(c['t'])}{' as ' + c['n'] if c['n'] else ''} => {{"))
                stmts(c["b"], out, ind + 2)
                out.append((0, pad + "  }"))
            out.append((0, pad + "}"))
        elif k == "dec2":
            put(s, f"{'const' if s['c'] else 'var'} {', '.join(s['ns'])} = {ex(s['e'])};")
        elif k == "raisev":
            put(s, f"raise {ex(s['e'])}")
        elif k == "raise":
            put(s, f"raise {s['n']}({', '.join(map(ex, s['as']))})")
        else:
            put(s, k)


def label(c):
    return '"%s"' % c["v"] if c["t"] == STR else f"{c['v']}`{c['s']}..{c['hi']}`{c['s']}" if "s" in c else f"{c['v']} as {show(c['t'])}"


def functext(f):
    """[(line number in the function or 0, text)]"""
    ret = "" if f["r"]["k"] == "none" else f": {'!' if f['x'] else ''}{show(f['r'])}"
    head = f"func {f['n']}({', '.join(p['n'] + ': ' + show(p['t']) for p in f['ps'])}){ret} {{"
    out = [(0, head)]
    stmts(f["b"], out, 1)
    out.append((0, "}"))
    return out
