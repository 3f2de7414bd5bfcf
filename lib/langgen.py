"""Generators of cxy programs as syntax trees for specs/Lang.tla, and their rendering as source text."""
M64 = (1 << 64) - 1
INTS = ["i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64"]
BITS = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "u8": 8, "u16": 16, "u32": 32, "u64": 64}
PREC = {"*": 2, "/": 2, "%": 2, "+": 3, "-": 3, "<<": 4, ">>": 4, "<": 5, ">": 5, "<=": 5, ">=": 5, "==": 6, "!=": 6,
        "&": 7, "^": 8, "|": 9, "and": 11, "or": 12}


def limbs(v):
    v &= M64
    return [(v >> (8 * i)) & 255 for i in range(8)]


def unlimbs(b, t="i64"):
    v = sum(x << (8 * i) for i, x in enumerate(b))
    if t[0] == "i" and v >> 63:
        v -= 1 << 64
    return v


def lit(v, t="i32", style=0):
    return {"k": "lit", "t": t, "b": limbs(v), "v": v, "style": style}


def slit(v):
    return {"k": "slit", "v": v, "b": list(v.encode()), "t": "string"}


def var(n, t="i32"):
    return {"k": "var", "n": n, "t": t}


def grp(e):
    return {"k": "grp", "e": e, "t": e["t"]}


def cast(e, t, style=0):
    return {"k": "cast", "e": e, "f": e["t"], "t": t, "style": style}


def prec(e):
    k = e["k"]
    if k == "bin":
        return PREC[e["op"]]
    if k == "scmp":
        return PREC[e["op"]]
    if k in ("and", "or"):
        return PREC[k]
    if k in ("tern", "catch", "catchb"):
        return 20
    if k in ("neg", "cpl", "not", "cast"):
        return 1
    return 0


NAMES = ["", "a", "ab", "b", "abc", "Ab", "a b", "~z"]      # vf_name of drivers/ev.c, and Names of Lang.tla


class Render:
    """Renders with the parentheses the tree needs; `extra` adds redundant ones (grp nodes)."""

    def par(self, e, lim):
        s = self.ex(e)
        return f"({s})" if prec(e) > lim else s

    def ex(self, e):
        k = e["k"]
        if k == "lit":
            v, t = e["v"], e["t"]
            if e["style"] == 7:
                return e["r"]
            if e["style"] == 9:
                return str(v)
            if v < 0:
                return f"(({v}) as {t})" if e["style"] == 0 else f"<{t}>({v})"
            if e["style"] == 1:
                return f"({v}`{t})"
            if e["style"] == 2:
                return f"(0x{v:x} as {t})"
            return f"({v} as {t})"
        if k == "bool":
            return "true" if e["v"] else "false"
        if k == "var":
            return e["n"]
        if k == "what":
            return "ex!.what()"
        if k == "grp":
            return "(" + self.ex(e["e"]) + ")"
        if k in ("neg", "cpl", "not"):
            op = {"neg": "-", "cpl": "~", "not": "!"}[k]
            inner = e["e"]
            if inner["k"] in ("neg", "cpl", "not"):
                return op + " " + self.ex(inner)
            if inner["k"] == "lit" or prec(inner) > 0:
                return f"{op}({self.ex(inner)})"
            return op + self.ex(inner)
        if k == "cast":
            if e["style"] == 0:
                return f"<{e['t']}>({self.ex(e['e'])})"
            return f"(({self.ex(e['e'])}) as {e['t']})"
        if k in ("and", "or"):
            p = PREC[k]
            return self.par(e["l"], p) + (" && " if k == "and" else " || ") + self.par(e["r"], p - 1)
        if k == "tern":
            return f"({self.par(e['c'], 12)} ? {self.par(e['a'], 12)} : {self.par(e['b'], 12)})"
        if k == "bin":
            p = PREC[e["op"]]
            return self.par(e["l"], p) + f" {e['op']} " + self.par(e["r"], p - 1)
        if k == "inc":
            o = "++" if e["d"] == 1 else "--"
            return o + e["n"] if e["pre"] else e["n"] + o
        if k == "scmp":
            return f"{self.ex(e['l'])} {e['op']} {self.ex(e['r'])}"
        if k == "name":
            return f"vf_name({self.ex(e['e'])})"
        if k == "slit":
            return '"' + e["v"] + '"'
        if k == "call":
            return e["f"] + "(" + ", ".join(self.ex(a) for a in e["args"]) + ")"
        if k == "catch":
            return f"({self.ex(e['e'])} catch {self.par(e['d'], 6)})"
        if k == "catchb":
            return f"{self.ex(e['e'])} catch {self.block(e['body'])}"
        raise KeyError(k)

    def block(self, ss, ind=0):
        return "{\n" + "".join(self.st(s) for s in ss) + "}\n"

    def st(self, s):
        k = s["k"]
        if k == "decl":
            t = f": {s['t']}" if s.get("ann", True) else ""
            return f"var {s['n']}{t} = {self.ex(s['e'])};\n"
        if k == "asg":
            return f"{s['n']} {s['op'] if s['op'] == '=' else s['op'] + '='} {self.ex(s['e'])};\n"
        if k == "expr":
            return self.ex(s["e"]) + ";\n"
        if k == "ev":
            if s["e"]["k"] == "what":
                return f"vf_evs({s['tag']} as i32, {self.ex(s['e'])});\n"
            if s["e"]["t"] == "u64":
                return f"vf_evu({s['tag']} as i32, {self.ex(s['e'])});\n"
            if s["e"]["t"] == "i64":
                return f"vf_ev({s['tag']} as i32, {self.ex(s['e'])});\n"
            return f"vf_ev({s['tag']} as i32, <i64>({self.ex(s['e'])}));\n"
        if k == "if":
            r = f"if ({self.ex(s['c'])}) {self.block(s['a'])}"
            if s["b"] or s.get("else"):
                r += "else " + self.block(s["b"])
            return r
        if k == "while":
            return f"while ({self.ex(s['c'])}) {self.block(s['body'])}"
        if k == "for":
            return f"for (const {s['n']}: {self.ex(s['lo'])}..{self.ex(s['hi'])}) {self.block(s['body'])}"
        if k == "foreach":
            return f"for (const {s['n']}, _: [{', '.join(self.ex(e) for e in s['es'])}]) {self.block(s['body'])}"
        if k == "foreachs":
            return f"for (const c{s['n']}: {self.ex(s['e'])}) " + "{\n" + f"var {s['n']} = (c{s['n']} as i32);\n" + "".join(map(self.st, s["body"])) + "}\n"
        if k == "switch":
            r = f"switch ({self.ex(s['e'])}) {{\n"
            for c in s["cases"]:
                r += "case " + ", ".join(self.label(v) for v in c["ls"]) + " => " + self.block(c["body"])
            if s["hasdef"]:
                r += "default => " + self.block(s["def"])
            return r + "}\n"
        if k == "blk":
            return self.block(s["body"])
        if k == "defer":
            return "defer " + self.st(s["s"]).rstrip(";\n") + ";\n"
        if k == "ret":
            return "return " + self.ex(s["e"]) + ";\n"
        if k == "retv":
            return "return;\n"
        if k == "yield":
            return "yield " + self.ex(s["e"]) + ";\n"
        if k == "brk":
            return "break;\n"
        if k == "cont":
            return "continue;\n"
        if k == "raise":
            return f"raise Ex{s['e']['v']}();\n"
        if k == "reraise":
            return "raise;\n"
        if k == "catchs":
            if s.get("discard"):
                return self.ex(s["e"]) + " catch discard;\n"
            return self.ex(s["e"]) + " catch " + self.block(s["body"]).rstrip() + ";\n"
        raise KeyError(k)

    def label(self, v):
        return f'"{v["v"]}"' if v["k"] == "slit" else f"{v['lo']}`{v['t']}..{v['hi']}`{v['t']}" if v["k"] == "span" else f"{v['v']}`{v['t']}" if v["v"] < 0 else f"{v['v']} as {v['t']}"

    def fn(self, f):
        ps = ", ".join(f"{n}: {t}" for n, t in zip(f["ps"], f["pt"]))
        return f"func {f['name']}({ps}): {'!' if f['raises'] else ''}{f['rt']} {self.block(f['body'])}\n"


ENDS = ("ret", "retv", "brk", "cont", "raise", "reraise")
HEAD = '''@__cc "ev.c"
extern func vf_ev(tag: i32, v: i64): void
extern func vf_evu(tag: i32, v: u64): void
extern func vf_evs(tag: i32, v: string): void
extern func vf_case(): i32
extern func vf_name(i: i32): string
'''
EXC = "".join(f'exception Ex{i}() => "{i}"\n' for i in range(1, 5))


class Flow:
    """Random control-flow functions over i32/bool variables."""

    def __init__(self, rng, features=None):
        self.r = rng
        self.nv = 0
        self.tag = 0
        self.fns = []          # callable helpers: (name, raises)
        self.feat = features or {"defer", "exc", "switch", "for", "foreach", "while", "glob", "str"}

    def name(self, p):
        self.nv += 1
        return f"{p}{self.nv}"

    def newtag(self):
        self.tag += 1
        return self.tag

    # ------------------------------------------------------------- exprs
    def iex(self, sc, d=2, se=True):
        """i32 expression; at most one side effect (se)."""
        r = self.r
        ints = [v for v, t in sc["vars"] if t == "i32"]
        longs = [v for v, t in sc["vars"] if t == "i64"]
        p = r.random()
        if longs and r.random() < 0.15:
            return cast(var(r.choice(longs), "i64"), "i32")
        if d == 0 or p < 0.3:
            if ints and r.random() < 0.7:
                return var(r.choice(ints))
            return lit(r.randint(-9, 60))
        if p < 0.7:
            op = r.choice(["+", "-", "*", "%", "/", "&", "|", "^", "+", "-"])
            a = self.iex(sc, d - 1, False)
            b = lit(r.randint(1, 13)) if op in "%/" else self.iex(sc, d - 1, False)
            return {"k": "bin", "op": op, "l": a, "r": b, "t": "i32", "w": "i32"}
        if p < 0.76:
            return {"k": "neg", "e": self.iex(sc, d - 1, False), "t": "i32"}
        if p < 0.86:
            return {"k": "tern", "c": self.bex(sc, d - 1, se), "a": self.iex(sc, d - 1, se), "b": self.iex(sc, d - 1, se), "t": "i32"}
        if se and p < 0.93 and sc["mut"]:
            n = r.choice(sc["mut"])
            return {"k": "inc", "n": n, "d": r.choice([1, -1]), "pre": r.random() < 0.5, "t": "i32"}
        if se and "exc" in self.feat and r.random() < 0.35 and any(f[1] for f in self.fns) and not sc.get("nocall"):
            return self.caught(sc)
        if se:
            e = self.call(sc)
            if e:
                return e
        return grp(self.iex(sc, d - 1, False))

    def call(self, sc, raising=False, rt="i32"):
        """A call with plain arguments; None when there is nothing to call."""
        c = [f for f in self.fns if f[1] == raising and f[3] == rt]
        if not c:
            return None
        f = self.r.choice(c)
        if f[2] and not raising and self.r.random() < 0.3:      # one argument does something, the others are literals
            h = self.r.randrange(f[2])
            return {"k": "call", "f": f[0], "args": [self.iex(sc, 2) if i == h else lit(self.r.randint(0, 9)) for i in range(f[2])], "t": rt}
        return {"k": "call", "f": f[0], "args": [self.iex(sc, 1, False) for _ in range(f[2])], "t": rt}

    def caught(self, sc):
        """An i32 call that may raise, usable where the statement is evaluated exactly once."""
        e = self.call(sc, True)
        if e is None:
            return self.iex(sc, 1, False)
        if not sc["raises"] or sc.get("incatch") or self.r.random() < 0.5:
            return {"k": "catch", "e": e, "d": lit(self.r.randint(0, 50)), "t": "i32"}
        return e

    def sex(self, sc, se=True):
        return {"k": "name", "e": self.iex(sc, 1, se), "t": "string"}

    def bex(self, sc, d=2, se=True):
        r = self.r
        bools = [v for v, t in sc["vars"] if t == "bool"]
        p = r.random()
        if p < 0.04 and "str" in self.feat:
            return {"k": "scmp", "op": r.choice(["==", "!="]), "l": self.sex(sc, se), "r": slit(r.choice(NAMES)) if r.random() < 0.6 else self.sex(sc, False), "t": "bool"}
        if d == 0 or p < 0.5:
            if bools and r.random() < 0.3:
                return var(r.choice(bools), "bool")
            return {"k": "bin", "op": r.choice(["<", ">", "<=", ">=", "==", "!="]), "l": self.iex(sc, 1, se),
                    "r": self.iex(sc, 1, False), "t": "i32", "w": "i32"}
        if p < 0.6:
            return {"k": "not", "e": grp(self.bex(sc, d - 1, False)), "t": "bool"}
        # the right operand may have a side effect: it must not run when the left decides
        return {"k": r.choice(["and", "or"]), "l": self.bex(sc, d - 1, se), "r": self.bex(sc, d - 1, se), "t": "bool"}

    # -------------------------------------------------------- statements
    def stmts(self, sc, depth, n=None):
        sc = dict(sc, vars=list(sc["vars"]), mut=list(sc["mut"]))
        out = []
        for _ in range(n or self.r.randint(1, 4)):
            out += self.stmt(sc, depth)
            if out and out[-1]["k"] in ENDS:
                break
        return out

    def ev(self, sc):
        return {"k": "ev", "tag": self.newtag(), "e": self.iex(sc, 1, self.r.random() < 0.3)}

    def stmt(self, sc, depth):
        r = self.r
        kinds = ["ev", "ev", "decl", "asg", "asg", "inc"]
        if depth > 0:
            kinds += ["if", "if", "blk"]
            for k in ("while", "for", "foreach", "switch"):
                if k in self.feat:
                    kinds += [k]
        if "defer" in self.feat and not sc.get("nodefer"):
            kinds += ["defer"]
        if sc["loop"]:
            kinds += ["brk", "cont"]
        if depth < sc["top"]:
            kinds += ["ret"]
        if "exc" in self.feat and sc["raises"] and depth < sc["top"]:
            kinds += ["raise"]
        if "exc" in self.feat and any(f[1] for f in self.fns):
            kinds += ["decl!", "asg!", "callv!"] + (["catchs", "catchb"] if sc.get("cd", 0) < 2 else []) + (["cond!"] if depth > 0 else [])
            if depth < sc["top"]:
                kinds += ["ret!"]
        if any(f[3] == "void" and not f[1] for f in self.fns):
            kinds += ["callv"]
        if depth >= 2 and "defer" in self.feat and not sc.get("nodefer"):
            kinds += ["jumps", "jumps"]
        w = self.swarm
        k = r.choices(kinds, [w.setdefault(x, r.choice([0.2, 1, 1, 3])) for x in kinds])[0] if w is not None else r.choice(kinds)
        if k == "ev":
            return [self.ev(sc)]
        if k == "decl":
            t = r.choice(["i32", "i32", "bool"])
            e = self.iex(sc) if t == "i32" else self.bex(sc)
            n = self.name("v")
            sc["vars"].append((n, t))
            if t == "i32":
                sc["mut"].append(n)
            return [{"k": "decl", "n": n, "t": t, "e": e}]
        if k == "asg":
            if not sc["mut"]:
                return [self.ev(sc)]
            n = r.choice(sc["mut"])
            op = r.choice(["=", "=", "+", "-", "*", "%", "^", "|", "&", "/"])
            e = lit(r.randint(1, 9)) if op in "%/" else self.iex(sc, 2, op == "=")
            if op == "=":
                e = {"k": "bin", "op": "%", "l": grp(e), "r": lit(r.choice([97, 13, 1000])), "t": "i32", "w": "i32"}
            if op == "*":
                e = lit(r.randint(-2, 3))
            return [{"k": "asg", "n": n, "op": op, "e": e, "t": "i32"}]
        if k == "inc":
            if not sc["mut"]:
                return [self.ev(sc)]
            return [{"k": "expr", "e": {"k": "inc", "n": r.choice(sc["mut"]), "d": r.choice([1, -1]),
                                        "pre": r.random() < 0.5, "t": "i32"}}]
        if k == "if":
            b = self.stmts(sc, depth - 1) if r.random() < 0.6 else []
            return [{"k": "if", "c": self.bex(sc), "a": self.stmts(sc, depth - 1), "b": b}]
        if k == "blk":
            return [{"k": "blk", "body": self.stmts(sc, depth - 1)}]
        if k == "while":
            n = self.name("w")
            pre = {"k": "decl", "n": n, "t": "i32", "e": lit(0)}
            c = {"k": "bin", "op": "<", "l": var(n), "r": lit(r.randint(1, 4)), "t": "i32", "w": "i32"}
            if r.random() < 0.4:
                c = {"k": "and", "l": c, "r": self.bex(sc, 1), "t": "bool"}
            inner = dict(sc, vars=sc["vars"] + [(n, "i32")], loop=True, nodefer=False)
            body = [{"k": "asg", "n": n, "op": "+", "e": lit(1), "t": "i32"}] + self.stmts(inner, depth - 1)
            return [pre, {"k": "while", "c": c, "body": body}]
        if k == "for":
            n = self.name("k")
            lo = r.randint(-1, 3)
            hi = lo + r.randint(-1, 4)
            inner = dict(sc, vars=sc["vars"] + [(n, "i64")], loop=True, nodefer=False)
            return [{"k": "for", "n": n, "lo": lit(lo), "hi": lit(hi), "t": "i64", "body": self.stmts(inner, depth - 1)}]
        if k == "foreach" and "str" in self.feat and r.random() < 0.35:
            n = self.name("e")
            inner = dict(sc, vars=sc["vars"] + [(n, "i32")], loop=True, nodefer=False)
            return [{"k": "foreachs", "n": n, "e": self.sex(sc), "body": self.stmts(inner, depth - 1)}]
        if k == "foreach":
            n = self.name("e")
            inner = dict(sc, vars=sc["vars"] + [(n, "i32")], loop=True, nodefer=False)
            return [{"k": "foreach", "n": n, "es": [lit(r.randint(0, 9)) for _ in range(r.randint(1, 4))],
                     "body": self.stmts(inner, depth - 1)}]
        if k == "switch" and "str" in self.feat and r.random() < 0.3:
            return [self.sswitch(sc, depth - 1)]
        if k == "switch" and r.random() < 0.3:
            return [self.rswitch(sc, depth - 1)]
        if k == "switch":
            vals = r.sample(range(0, 8), r.randint(2, 6))
            cases, i = [], 0
            while i < len(vals):
                m = r.choice([1, 1, 2])
                vs = vals[i:i + m]
                i += m
                cases.append({"ls": [lit(v) for v in vs], "vs": [limbs(v) for v in vs],
                              "body": self.stmts(dict(sc, loop=False) if not sc["loop"] else sc, depth - 1)})
            e = {"k": "bin", "op": "%", "l": grp(self.iex(sc)), "r": lit(9), "t": "i32", "w": "i32"}
            hd = True
            return [{"k": "switch", "e": e, "cases": cases, "hasdef": hd, "def": self.stmts(sc, depth - 1) if hd else []}]
        if k == "jumps":
            return self.jumps(sc, r.randint(1, 4), None)
        if k == "defer":
            q = r.random()
            if q < 0.6 or not sc["mut"]:
                s = {"k": "ev", "tag": self.newtag(), "e": self.iex(sc, 1, False)}
            elif q < 0.8:
                s = {"k": "asg", "n": r.choice(sc["mut"]), "op": "+", "e": lit(r.randint(1, 9)), "t": "i32"}
            else:
                s = {"k": "blk", "body": [{"k": "ev", "tag": self.newtag(), "e": self.iex(sc, 1, False)},
                                          {"k": "ev", "tag": self.newtag(), "e": lit(1)}]}
            return [{"k": "defer", "s": s}]
        if k == "brk":
            return [{"k": "brk"}]
        if k == "cont":
            return [{"k": "cont"}]
        if k == "ret":
            if sc["rt"] == "void":
                return [{"k": "retv"}]
            return [{"k": "ret", "e": self.iex(sc)}]
        if k == "ret!":
            if sc["rt"] == "void":
                return [{"k": "retv"}]
            return [{"k": "ret", "e": self.caught(sc)}]
        if k == "raise":
            return [{"k": "raise", "e": dict(lit(r.randint(1, 4)))}]
        if k == "decl!":
            n = self.name("v")
            e = self.caught(sc)
            sc["vars"].append((n, "i32"))
            sc["mut"].append(n)
            return [{"k": "decl", "n": n, "t": "i32", "e": e}, {"k": "ev", "tag": self.newtag(), "e": var(n)}]
        if k == "asg!":
            loc = [m for m in sc["mut"] if m[0] != "g"]
            if not loc:
                return [self.ev(sc)]
            return [{"k": "asg", "n": r.choice(loc), "op": "=", "e": self.caught(sc), "t": "i32"}]
        if k == "cond!":
            c = {"k": "bin", "op": r.choice(["<", ">", "=="]), "l": self.caught(sc), "r": lit(r.randint(-3, 9)), "t": "i32",
                 "w": "i32"}
            return [{"k": "if", "c": c, "a": self.stmts(sc, depth - 1), "b": [self.ev(sc)]}]
        if k in ("callv", "callv!"):
            e = self.call(sc, k == "callv!" and sc["raises"] and not sc.get("incatch"), "void")
            return [{"k": "expr", "e": e}] if e else [self.ev(sc)]
        if k == "catchs":
            e = self.call(sc, True, "void")
            if not e:
                return [self.ev(sc)]
            if r.random() < 0.3:
                return [{"k": "catchs", "e": e, "body": [], "discard": True}]
            inner = dict(sc, nodefer=True, incatch=True, cd=sc.get("cd", 0) + 1)
            body = [{"k": "ev", "tag": self.newtag(), "e": {"k": "what", "t": "what"}}] + self.stmts(inner, 0)
            if sc["raises"] and body[-1]["k"] not in ENDS and r.random() < 0.3:
                body += [{"k": "reraise"}]
            return [{"k": "catchs", "e": e, "body": body}]
        if k == "catchb":
            e = self.call(sc, True)
            if not e:
                return [self.ev(sc)]
            inner = dict(sc, nodefer=True, incatch=True, cd=sc.get("cd", 0) + 1)
            body = [{"k": "ev", "tag": self.newtag(), "e": {"k": "what", "t": "what"}}]
            body += [x for x in self.stmts(inner, 0) if x["k"] not in ENDS]
            q = r.random()
            if sc["raises"] and q < 0.2:
                body += [{"k": "reraise"}]
            elif q < 0.35:
                body += [{"k": "retv"} if sc["rt"] == "void" else {"k": "ret", "e": self.iex(sc, 1, False)}]
            else:
                body += [{"k": "yield", "e": self.iex(sc, 1, False)}]
            n = self.name("v")
            res = [{"k": "decl", "n": n, "t": "i32", "e": {"k": "catchb", "e": e, "body": body, "t": "i32"}}]
            sc["vars"].append((n, "i32"))
            sc["mut"].append(n)
            return res
        raise KeyError(k)

    def sswitch(self, sc, depth, body=None, e=None):
        r = self.r
        vals = r.sample(NAMES, r.randint(1, 6))
        if body and NAMES[1] not in vals:
            vals.append(NAMES[1])
        cases, i = [], 0
        while i < len(vals):
            vs = vals[i:i + r.choice([1, 1, 2])]
            i += len(vs)
            cases.append({"ls": [slit(v) for v in vs], "vs": [slit(v)["b"] for v in vs],
                          "body": body if body and NAMES[1] in vs else [self.ev(sc)] if body else self.stmts(dict(sc, loop=False) if not sc["loop"] else sc, depth)})
        return {"k": "switch", "e": e or self.sex(sc), "cases": cases, "hasdef": True, "def": [self.ev(sc)] if body else self.stmts(sc, depth)}

    def rswitch(self, sc, depth):
        r = self.r
        cases, lo = [], r.randint(-6, 2)
        for _ in range(r.randint(1, 3)):
            ls, vs = [], []
            for _ in range(r.choice([1, 1, 2])):
                hi = lo + r.choice([0, 0, 1, 2, 3])
                ls.append(lit(lo) if hi == lo and r.random() < 0.8 else {"k": "span", "lo": lo, "hi": hi, "t": "i32"})
                vs += [limbs(v) for v in range(lo, hi + 1)]
                lo = hi + r.randint(1, 2)
            cases.append({"ls": ls, "vs": vs, "body": self.stmts(dict(sc, loop=False) if not sc["loop"] else sc, depth)})
        r.shuffle(cases)
        e = {"k": "bin", "op": "%", "l": grp(self.iex(sc)), "r": lit(9), "t": "i32", "w": "i32"}
        return {"k": "switch", "e": e, "cases": cases, "hasdef": True, "def": self.stmts(sc, depth)}

    def jumps(self, sc, levels, lv):
        """Nested blocks with deferred statements, left by a jump taken for one value of the loop variable."""
        r = self.r
        evd = lambda: {"k": "defer", "s": {"k": "ev", "tag": self.newtag(), "e": var(*lv) if lv and lv[1] == "i32" else lit(r.randint(0, 9))}}
        if levels == 0:
            ks = (["brk", "cont"] * 2 if sc["loop"] else []) + ["ret"] + (["raise", "raisec"] if sc["raises"] else []) + ["none"]
            j = r.choice(ks)
            if j == "ret":
                out = [{"k": "retv"} if sc["rt"] == "void" else {"k": "ret", "e": self.iex(sc, 1, False)}]
            elif j == "raise":
                out = [{"k": "raise", "e": lit(r.randint(1, 4))}]
            elif j == "raisec":
                e = self.call(sc, True, "void")
                out = [{"k": "expr", "e": e}] if e and not sc.get("incatch") else [self.ev(sc)]
            elif j == "none":
                out = [self.ev(sc)]
            else:
                out = [{"k": j}]
            return ([evd()] if r.random() < 0.5 else []) + out
        ks = ["while", "for", "foreach"] if lv is None else ["if", "if", "blk", "switch", "while", "for", "foreach"]
        k = r.choice(ks)
        pre = [evd()] if r.random() < 0.6 else []
        if k in ("while", "for", "foreach"):
            n = self.name("l")
            t = "i64" if k == "for" else "i32"
            inner = dict(sc, vars=sc["vars"] + [(n, t)], loop=True)
            lv2 = (n, t)
            body = ([evd()] if r.random() < 0.6 else []) + self.jumps(inner, levels - 1, lv2) if levels > 1 else self.jumps(inner, 0, lv2)
            if levels == 1:
                body = [{"k": "if", "c": self.eqc(lv2, 1), "a": body, "b": []}]
            if body[-1]["k"] not in ENDS:
                body += [self.ev(inner)]
            if k == "while":
                c = {"k": "bin", "op": "<", "l": var(n), "r": lit(3), "t": "i32", "w": "i32"}
                return pre + [{"k": "decl", "n": n, "t": "i32", "e": lit(0)},
                              {"k": "while", "c": c, "body": [{"k": "asg", "n": n, "op": "+", "e": lit(1), "t": "i32"}] + body}, self.ev(sc)]
            if k == "for":
                return pre + [{"k": "for", "n": n, "lo": lit(0), "hi": lit(3), "t": "i64", "body": body}, self.ev(sc)]
            if "str" in self.feat and r.random() < 0.4:     # (the characters are 1, 2 and others, like numbers)
                return pre + [{"k": "foreachs", "n": n, "e": {"k": "name", "e": lit(r.choice([2, 4, 4, 7])), "t": "string"},
                               "body": [{"k": "asg", "n": n, "op": "-", "e": lit(97), "t": "i32"}] + body}, self.ev(sc)]
            return pre + [{"k": "foreach", "n": n, "es": [lit(x) for x in r.sample([0, 1, 2, 3], 3)], "body": body}, self.ev(sc)]
        inner = self.jumps(sc, levels - 1, lv)
        if k == "blk":
            return pre + [{"k": "blk", "body": inner}] + ([self.ev(sc)] if inner[-1]["k"] not in ENDS else [])
        if k == "if":
            st = {"k": "if", "c": self.eqc(lv, r.randint(1, 2)), "a": inner, "b": [self.ev(sc)] if r.random() < 0.4 else []}
        else:
            v = r.randint(1, 2)
            if "str" in self.feat and r.random() < 0.3:
                e = var(*lv) if lv[1] == "i32" else cast(var(*lv), "i32")
                return pre + [self.sswitch(sc, 0, inner, {"k": "name", "e": e, "t": "string"}), self.ev(sc)]
            e = var(*lv) if lv[1] == "i32" else cast(var(*lv), "i32")
            st = {"k": "switch", "e": e, "cases": [{"ls": [lit(v)], "vs": [limbs(v)], "body": inner},
                                                   {"ls": [lit(3 - v)], "vs": [limbs(3 - v)], "body": [self.ev(sc)]}],
                  "hasdef": True, "def": [self.ev(sc)]}
        return pre + [st, self.ev(sc)]

    def eqc(self, lv, v):
        e = var(*lv) if lv[1] == "i32" else cast(var(*lv), "i32")
        return {"k": "bin", "op": "==", "l": e, "r": lit(v), "t": "i32", "w": "i32"}

    def func(self, name, raises, depth=2, np=None, globs=(), rt="i32"):
        np = self.r.randint(1, 3) if np is None else np
        # swarm: every function favours its own random selection of statement kinds
        self.swarm = {} if self.r.random() < 0.7 else None
        ps = [self.name("p") for _ in range(np)]
        self.nodefs = 0
        sc = {"vars": [(p, "i32") for p in ps] + [(g, "i32") for g in globs], "mut": list(globs), "loop": False,
              "raises": raises, "top": depth + 1, "rt": rt}
        # a mutable copy of a parameter
        m = self.name("m")
        body = [{"k": "decl", "n": m, "t": "i32", "e": var(ps[0])}] if ps else []
        if ps:
            sc["vars"].append((m, "i32"))
            sc["mut"].append(m)
        body += self.stmts(sc, depth, self.r.randint(2, 6))
        if rt != "void" and body[-1]["k"] not in ("ret", "raise"):
            body.append({"k": "ret", "e": self.iex(dict(sc), 1, False)})
        f = {"name": name, "ps": ps, "pt": ["i32"] * np, "rt": rt, "raises": raises, "body": body}
        return f
