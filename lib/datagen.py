"""Random programs over structured data (structs, tuples, arrays, optionals, unions, enums, closures, generics, methods,
overloads, default arguments, classes) as trees for specs/Lang.tla, and their rendering as source text."""
from langgen import *

I32, I64, BOOL = ("i", "i32"), ("i", "i64"), ("b",)


def rt(T):
    """Type as source text."""
    k = T[0]
    if k == "i":
        return T[1]
    if k == "b":
        return "bool"
    if k in ("st", "un", "en", "cls"):
        return T[1]
    if k == "tup":
        return "(" + ", ".join(rt(x) for x in T[1]) + ")"
    if k == "arr":
        return f"[{rt(T[1])}, {T[2]}]"
    if k == "opt":
        return rt(T[1]) + "?"
    if k == "fn":
        return "func(" + ", ".join(f"a{i}: {rt(x)}" for i, x in enumerate(T[1])) + f") -> {rt(T[2])}"
    raise KeyError(k)


class DRender(Render):
    def ex(self, e):
        k = e["k"]
        if k == "mk":
            a = [self.ex(x) for x in e["es"]]
            s = e["s"]
            if s[0] == "st":
                return s[1] + "{" + ", ".join(f"{n}: {v}" for n, v in zip(s[2], a)) + "}"
            if s[0] == "tup":
                return "(" + ", ".join(a) + ")"
            if s[0] == "arr":
                return "[" + ", ".join(a) + "]"
            return a[0] if s[1] == 0 else f"Some({a[0]})"
        if k == "fld":
            return self.post(e["e"]) + "." + str(e["r"])
        if k == "ofld":
            return self.post(e["e"]) + "." + e["r"]
        if k == "idx":
            return self.post(e["e"]) + ".[" + self.ex(e["x"]) + "]"
        if k == "none":
            return "null" if e["s"] is None else f"None[{e['s']}]()"
        if k == "has":
            return "!!" + self.post(e["e"]) if e["s"] else self.ex(e["e"])
        if k == "deref":
            return "(*" + self.post(e["e"]) + ")"
        if k == "inj":
            return self.ex(e["e"])
        if k == "proj":
            return f"<{e['s']}>{self.post(e['e'])}"
        if k == "lam":
            ps = ", ".join(f"{n}: {t}" for n, t in e["s"]["ps"])
            b = e["s"]["body"]
            if isinstance(b, dict):
                return f"({ps}) => {self.ex(b)}"
            return f"({ps}) => {self.block(b).rstrip()}"
        if k == "app":
            return self.ex(e["e"]) + "(" + ", ".join(self.ex(a) for a in e["args"]) + ")"
        if k == "callr":
            s, refs = e["s"], {r["i"] for r in e["refs"]}
            a = [("&" if i + 1 in refs and not s.get("m") else "") + self.ex(x) for i, x in enumerate(e["args"])]
            if s.get("op"):
                return f"({a[0]} {s['op']} {a[1]})"
            if s.get("m"):
                return f"{a[0]}.{s['m']}({', '.join(a[1:])})"
            return f"{s['n']}({', '.join(a)})"
        if k == "call" and "s" in e:
            n = len(e["args"]) - e["s"].get("drop", 0)
            return e["s"]["n"] + "(" + ", ".join(self.ex(a) for a in e["args"][:n]) + ")"
        if k == "new":
            return e["c"] + "(" + ", ".join(self.ex(a) for a in e["args"]) + ")"
        if k == "mcall":
            return self.post(e["e"]) + "." + e["m"] + "(" + ", ".join(self.ex(a) for a in e["args"]) + ")"
        if k == "null":
            return "null"
        if k == "isnull":
            return self.post(e["e"]) + (" == null" if e["s"] else " == null")
        return super().ex(e)

    def post(self, e):
        """Operand of a postfix operator."""
        s = self.ex(e)
        return s if e["k"] in ("var", "fld", "idx", "ofld", "call", "callr", "deref", "app", "grp", "mcall") else f"({s})"

    def lv(self, s):
        r = s["n"]
        for p in s["p"]:
            r += "." + str(p["r"]) if p["k"] == "f" else ".[" + self.ex(p["e"]) + "]"
        return r

    def st(self, s):
        k = s["k"]
        if k == "asgp":
            return f"{self.lv(s)} {s['op'] if s['op'] == '=' else s['op'] + '='} {self.ex(s['e'])};\n"
        if k == "asgo":
            return f"{self.post(s['o'])}.{s['r']} {s['op'] if s['op'] == '=' else s['op'] + '='} {self.ex(s['e'])};\n"
        if k == "match":
            r = f"match ({self.ex(s['e'])}) {{\n"
            for c in s["cases"]:
                r += f"case {c['r']}" + (f" as {c['n']}" if c["n"] else "") + " => " + self.block(c["body"])
            if s["hasdef"]:
                r += "else => " + self.block(s["def"])
            return r + "}\n"
        if k == "foreacha":
            return f"for (const {s['n']}, {s['x'] or '_'}: {self.ex(s['e'])}) {self.block(s['body'])}"
        if k == "switch":
            r = f"switch ({self.ex(s['e'])}) {{\n"
            for c in s["cases"]:
                r += "case " + ", ".join(c["r"]) + " => " + self.block(c["body"])
            return r + "default => " + self.block(s["def"]) + "}\n"
        return super().st(s)

    def fn(self, f):
        ps = ", ".join(f"{n}: {t}" + (f" = {self.ex(d)}" if d else "") for n, t, d in
                       zip(f["ps"], f["pt"], f.get("defs") or [None] * len(f["ps"])))
        return f"func {f.get('src', f['name'])}{f.get('gen', '')}({ps}): {f['rt']} {self.block(f['body'])}\n"


PRE = '''struct Box[T] { v: T; n: i32;
  func get(): T { return v; }
  func put(x: T): T { var old = this.v; this.v = x; n += (1 as i32); return old; }
}
struct Pair[A, B] { a: A; b: B;
  const func swap() { return Pair[B, A]{a: b, b: a}; }
}
func gid[T](a: T): T { return a; }
func gpick[T](c: bool, a: T, b: T): T { return c ? a : b; }
func gswap[A, B](a: A, b: B): (B, A) { return (b, a); }
func gpair[A, B](a: A, b: B): Pair[A, B] { return Pair[A, B]{a: a, b: b}; }
'''


def v_(n):
    return {"k": "var", "n": n, "t": "?"}


def mk(es, s):
    return {"k": "mk", "es": es, "s": s, "t": "?"}


def spec_pre():
    f = lambda ps, body: {"ps": ps, "body": body}
    ret = lambda e: {"k": "ret", "e": e}
    fld = lambda e, i: {"k": "fld", "e": e, "i": i}
    return {"gid": f(["a"], [ret(v_("a"))]),
            "gpick": f(["c", "a", "b"], [ret({"k": "tern", "c": v_("c"), "a": v_("a"), "b": v_("b")})]),
            "gswap": f(["a", "b"], [ret({"k": "mk", "es": [v_("b"), v_("a")]})]),
            "gpair": f(["a", "b"], [ret({"k": "mk", "es": [v_("a"), v_("b")]})]),
            "Box.get": f(["this"], [ret(fld(v_("this"), 1))]),
            "Box.put": f(["this", "x"], [{"k": "decl", "n": "old", "e": fld(v_("this"), 1)},
                                         {"k": "asgp", "n": "this", "p": [{"k": "f", "i": 1}], "op": "=", "e": v_("x"), "t": "?"},
                                         {"k": "asgp", "n": "this", "p": [{"k": "f", "i": 2}], "op": "+", "e": {"k": "lit", "b": limbs(1)}, "t": "i32"},
                                         ret(v_("old"))]),
            "Pair.swap": f(["this"], [ret({"k": "mk", "es": [fld(v_("this"), 2), fld(v_("this"), 1)]})])}


INTT = ["i32", "i32", "i64", "u8", "i16", "u32", "i8", "u64", "u16"]


class Data:
    def __init__(self, rng, classes=False):
        self.r, self.n, self.tag = rng, 0, 0
        self.structs, self.unions, self.enums, self.classes = {}, {}, {}, {}
        self.fns, self.extra, self.lamfns = [], [], {}
        self.callables = []         # (spec name, source call name, param types, return type, defaults dropped max)
        self.world()
        if classes:
            self.mkclasses()

    def name(self, p):
        self.n += 1
        return f"{p}_{self.n}"

    # -------------------------------------------------------------- types
    def world(self):
        r = self.r
        for i in range(r.randint(1, 2)):
            vals, o = [], 0
            for j in range(r.randint(2, 5)):
                explicit = r.random() < 0.4
                o = o + r.randint(1, 9) if explicit and j else (r.randint(0, 5) if explicit else o)
                vals.append((f"O{j}", o, explicit))
                o += 1
            self.enums[f"En{i}"] = vals
        for i in range(r.randint(2, 4)):
            self.structs[f"St{i}"] = {"f": [], "m": []}      # so that later ones may use earlier ones
            fs = [(f"f{j}", self.ty(2, opt=True)) for j in range(r.randint(1, 5))]
            self.structs[f"St{i}"]["f"] = fs
            if r.random() < 0.6:
                alts = [I32, BOOL, ("st", f"St{i}")] + r.sample([I64, ("i", "u8"), ("i", "i16")], r.randint(0, 2))
                if i and r.random() < 0.5:
                    alts.append(("st", f"St{i - 1}"))
                r.shuffle(alts)
                self.unions[f"Un{i}"] = alts
        for s in list(self.structs):
            if r.random() < 0.7:
                self.methods(s)

    def scalar(self):
        r = self.r
        if r.random() < 0.15:
            return BOOL
        if self.enums and r.random() < 0.12:
            return ("en", r.choice(list(self.enums)))
        return ("i", r.choice(INTT))

    def ty(self, d, opt=False, arr=True):
        r = self.r
        ready = [s for s in self.structs if self.structs[s]["f"]]
        p = r.random()
        if d == 0 or p < 0.4:
            return self.scalar()
        if p < 0.6 and ready:
            return ("st", r.choice(ready))
        if p < 0.7:
            return ("tup", tuple(self.ty(d - 1, arr=False) for _ in range(r.randint(2, 3))))
        if p < 0.8 and arr:
            return ("arr", self.ty(d - 1, arr=False) if r.random() < 0.6 else self.scalar(), r.choice([2, 3, 4]))
        if p < 0.9 and opt:
            return ("opt", ("st", r.choice(ready)) if ready and r.random() < 0.4 else ("i", r.choice(INTT)))
        if p < 0.95 and opt and self.unions:
            return ("un", r.choice(list(self.unions)))
        if ready and r.random() < 0.5:
            return self.box(("st", r.choice(ready)) if r.random() < 0.4 else ("i", r.choice(INTT)))
        return self.scalar()

    def box(self, T):
        n = f"Box[{rt(T)}]"
        self.structs.setdefault(n, {"f": [("v", T), ("n", I32)], "m": [], "gen": True})
        return ("st", n)

    def pair(self, A, B):
        for X, Y in ((A, B), (B, A)):
            self.structs.setdefault(f"Pair[{rt(X)}, {rt(Y)}]", {"f": [("a", X), ("b", Y)], "m": [], "gen": True})
        return ("st", f"Pair[{rt(A)}, {rt(B)}]")

    # ------------------------------------------------------- paths
    def paths(self, sc, want=None, mut=False, depth=3):
        """(expression, type, variable, lvalue path) for variables in scope and their parts."""
        out, refs = [], {n for n, _, m in sc if m in ("ref", "alt")}      # of a reference only the parts are used

        def walk(e, T, n, p, d):
            if (want is None or T == want) and (p or n not in refs):
                out.append((e, T, n, p))
            if d == 0:
                return
            if T[0] == "st":
                for i, (fn, FT) in enumerate(self.structs[T[1]]["f"]):
                    walk({"k": "fld", "e": e, "i": i + 1, "r": fn, "t": "?"}, FT, n, p + [{"k": "f", "i": i + 1, "r": fn}], d - 1)
            elif T[0] == "tup":
                for i, FT in enumerate(T[1]):
                    walk({"k": "fld", "e": e, "i": i + 1, "r": i, "t": "?"}, FT, n, p + [{"k": "f", "i": i + 1, "r": i}], d - 1)
            elif T[0] == "arr":
                x = lit(self.r.randrange(T[2]), "i32")
                if self.r.random() < 0.4:
                    vs = [v for v, VT, _ in sc if VT == I32]
                    if vs:
                        x = {"k": "bin", "op": "&", "l": var(self.r.choice(vs)), "r": lit(1 if T[2] < 4 else 3), "t": "i32", "w": "i32"}
                walk({"k": "idx", "e": e, "x": x, "t": "?"}, T[1], n, p + [{"k": "x", "e": x, "n": T[2]}], d - 1)
        for n, T, m in sc:
            if not mut or (m and m != "alt"):
                walk(v_(n), T, n, [], depth)
        return out

    # -------------------------------------------------- expressions
    def iex(self, sc, t, d=1):
        r = self.r
        ps = self.paths(sc, ("i", t))
        if d == 0 or r.random() < 0.4:
            if ps and r.random() < 0.8:
                return dict(r.choice(ps)[0], t=t)
            if self.enums and r.random() < 0.1:
                return {"k": "cast", "e": self.enlit(("en", r.choice(list(self.enums)))), "f": "i32", "t": t, "style": 0}
            return lit(r.randint(0, 60) if t[0] == "u" or r.random() < 0.7 else r.randint(-60, -1), t)
        p = r.random()
        if p < 0.2:
            others = self.paths(sc, None)
            others = [x for x in others if x[1][0] == "i"]
            if others:
                e, T, _, _ = r.choice(others)
                return cast(dict(e, t=T[1]), t)
        if p < 0.3:
            return {"k": "tern", "c": self.bex(sc, 0), "a": self.iex(sc, t, 0), "b": self.iex(sc, t, 0), "t": t}
        m = {"i8": 7, "u8": 9, "i16": 100, "u16": 100}.get(t, 1000)
        mod = lambda e: e if e["k"] == "lit" and abs(e["v"]) < m else {"k": "bin", "op": "%", "l": grp(e), "r": lit(m, t), "t": t, "w": t}
        op = r.choice(["+", "+", "*", "^", "|", "&"] + (["-", "-"] if t[0] == "i" else []))
        return grp({"k": "bin", "op": op, "l": mod(self.iex(sc, t, d - 1)), "r": mod(self.iex(sc, t, d - 1)), "t": t, "w": t})

    def bex(self, sc, d=1):
        r = self.r
        ps = self.paths(sc, BOOL)
        p = r.random()
        if ps and p < 0.3:
            return dict(r.choice(ps)[0], t="bool")
        if p < 0.4:
            os = [x for x in self.paths(sc) if x[1][0] == "opt"]
            if os:
                return {"k": "has", "e": r.choice(os)[0], "s": 1, "t": "bool"}
        if p < 0.5:
            es = [x for x in self.paths(sc) if x[1][0] == "en"]
            if es:
                e, T, _, _ = r.choice(es)
                return {"k": "bin", "op": r.choice(["==", "!="]), "l": e, "r": self.enlit(T), "t": "i32", "w": "i32"}
        t = r.choice(["i32", "i64", "u8"])
        e = {"k": "bin", "op": r.choice(["<", ">", "<=", ">=", "==", "!="]), "l": self.iex(sc, t, 1), "r": self.iex(sc, t, 0), "t": t, "w": t}
        if d and p > 0.8:
            return {"k": r.choice(["and", "or"]), "l": e, "r": self.bex(sc, d - 1), "t": "bool"}
        return e

    def enlit(self, T, v=None):
        o, val, _ = v or self.r.choice(self.enums[T[1]])
        return {"k": "lit", "t": "en", "b": limbs(val), "v": val, "style": 7, "r": f"{T[1]}.{o}"}

    def gen(self, T, sc, d=2, co=True):
        """Expression of type T; co: the context converts to optionals and unions."""
        r = self.r
        k = T[0]
        if k == "cls":
            return self.oex(T, sc, d)
        if k == "i":
            return self.call(T, sc, d) if d and r.random() < 0.15 else self.iex(sc, T[1], min(d, 1))
        if k == "b":
            return self.bex(sc) if r.random() < 0.8 else {"k": "bool", "v": r.random() < 0.5, "t": "bool"}
        if k == "arr":
            return mk([self.gen(T[1], sc, max(0, d - 1), False) for _ in range(T[2])], ["arr"])
        ps = self.paths(sc, T)
        if ps and r.random() < (0.5 if d else 0.8):
            return r.choice(ps)[0]
        if d and r.random() < 0.25:
            return self.call(T, sc, d)
        if k == "en":
            return self.enlit(T)
        if k == "st":
            fs = self.structs[T[1]]["f"]
            if d and r.random() < 0.1 and len(ps) > 1:
                return grp({"k": "tern", "c": self.bex(sc, 0), "a": r.choice(ps)[0], "b": r.choice(ps)[0], "t": "?"})
            return mk([self.gen(FT, sc, max(0, d - 1)) for _, FT in fs], ["st", T[1], [n for n, _ in fs]])
        if k == "tup":
            return mk([self.gen(FT, sc, max(0, d - 1), False) for FT in T[1]], ["tup"])
        if k == "opt":
            if r.random() < 0.3:
                return {"k": "none", "s": None if co and r.random() < 0.7 else rt(T[1]), "t": "?"}
            return mk([self.gen(T[1], sc, max(0, d - 1), False)], ["opt", 0 if co and r.random() < 0.6 else 1])
        if k == "un":
            if not co:
                ps = self.paths(sc, T)
                if ps:
                    return r.choice(ps)[0]
            i = r.randrange(len(self.unions[T[1]]))
            return {"k": "inj", "i": i + 1, "e": self.gen(self.unions[T[1]][i], sc, max(0, d - 1), False), "t": "?"}
        raise KeyError(k)

    def call(self, T, sc, d):
        """A call giving a T: user function, generic, method of a generic struct, closure in scope."""
        r = self.r
        opts = [c for c in self.callables if c["rt"] == T]
        p = r.random()
        if opts and p < 0.6:
            c = r.choice(opts)
            args = [self.gen(PT, sc, 0) for PT in c["pt"]]
            drop = 0
            if c.get("defs"):
                drop = r.randint(0, sum(1 for x in c["defs"] if x is not None))
                for j in range(len(args) - drop, len(args)):
                    args[j] = c["defs"][j]
            return {"k": "call", "f": c["f"], "args": args, "s": {"n": c["src"], "drop": drop}, "t": T[1] if T[0] == "i" else "?"}
        t = T[1] if T[0] == "i" else "?"
        clo = [(n, VT) for n, VT, _ in sc if VT[0] == "fn" and VT[2] == T]
        if clo and p < 0.8:
            n, VT = r.choice(clo)
            return {"k": "app", "e": v_(n), "args": [self.gen(PT, sc, 0) for PT in VT[1]], "t": t}
        exact = lambda: self.gen(T, sc, 0, False)
        if T[0] in ("un",) or (T[0] == "i" and T[1] != "i32" and r.random() < 0.5):
            return self.gen(T, sc, 0, T[0] != "un")
        q = r.choice(["gid", "gpick", "gid!"])
        if q == "gpick":
            return {"k": "call", "f": "gpick", "args": [self.bex(sc, 0), exact(), exact()], "s": {"n": r.choice(["gpick", f"gpick[{rt(T)}]"])}, "t": t}
        return {"k": "call", "f": "gid", "args": [exact()], "s": {"n": "gid" if q == "gid" else f"gid[{rt(T)}]"}, "t": t}

    # --------------------------------------------------- statements
    def ev(self, e):
        self.tag += 1
        return {"k": "ev", "tag": self.tag, "e": e}

    def dump(self, e, T, d=3):
        """Statements that show every part of a value."""
        k = T[0]
        if k == "i":
            return [self.ev(dict(e, t=T[1]))]
        if k == "b":
            return [self.ev({"k": "cast", "e": e, "f": "bool", "t": "i64", "style": 0})]
        if k == "en":
            return [self.ev({"k": "cast", "e": e, "f": "i32", "t": "i64", "style": 0})]
        if k == "st":
            return [s for i, (fn, FT) in enumerate(self.structs[T[1]]["f"])
                    for s in self.dump({"k": "fld", "e": e, "i": i + 1, "r": fn, "t": "?"}, FT, d - 1)]
        if k == "tup":
            return [s for i, FT in enumerate(T[1]) for s in self.dump({"k": "fld", "e": e, "i": i + 1, "r": i, "t": "?"}, FT, d - 1)]
        if k == "arr":
            return [s for i in range(T[2]) for s in self.dump({"k": "idx", "e": e, "x": lit(i), "t": "?"}, T[1], d - 1)]
        if k == "opt":
            return [{"k": "if", "c": {"k": "has", "e": e, "s": 0, "t": "bool"}, "a": self.dump({"k": "deref", "e": e, "t": "?"}, T[1], d - 1),
                     "b": [self.ev(lit(-1))]}]
        if k == "un":
            alts = list(enumerate(self.unions[T[1]]))
            cases = []
            for i, A in alts:
                n = self.name("u")
                cases.append({"u": i + 1, "r": rt(A), "n": n, "body": [self.ev(lit(i))] + self.dump(v_(n), A, d - 1)})
            return [{"k": "match", "e": e, "cases": cases, "hasdef": False, "def": []}]
        return []

    def body(self, sc, depth, n):
        sc = list(sc)
        out = []
        for _ in range(n):
            out += self.stmt(sc, depth)
        return out

    leave = None             # what the function being made returns, where it may be left early

    def block(self, sc, depth, n):
        """part of a statement; the function may end in it"""
        out = self.body(sc, depth, n)
        if self.leave and self.r.random() < 0.08:
            out.append({"k": "ret", "e": self.gen(self.leave, sc)})
        return out

    def stmt(self, sc, depth):
        r = self.r
        kinds = ["decl", "decl", "asg", "asg", "asg", "asg", "comp", "dump", "dump", "method", "ref", "lam", "copy"]
        if depth:
            kinds += ["if", "ifopt", "match", "foreach", "switch", "while"]
        if self.classes:
            kinds += ["cls"] * 10
        k = r.choice(kinds)
        if k == "decl":
            T = self.ty(3, opt=True)
            n = self.name("v")
            e = self.gen(T, sc)
            sc.append((n, T, True))
            ann = T[0] in ("opt", "un", "arr") or r.random() < 0.5
            return [{"k": "decl", "n": n, "t": rt(T), "e": e, "ann": ann}]
        if k == "copy":       # copy a variable, change one of the two, look at both
            ps = [x for x in self.paths(sc) if x[1][0] in ("st", "tup", "un", "opt")]
            if not ps:
                return []
            e, T, _, _ = r.choice(ps)
            n = self.name("v")
            sc.append((n, T, True))
            out = [{"k": "decl", "n": n, "t": rt(T), "e": e, "ann": r.random() < 0.5}]
            for _ in range(2):
                out += self.assign([(n, T, True)] if r.random() < 0.5 else sc, sc)
            return out + self.dump(v_(n), T) + self.dump(e, T)
        if k == "asg":
            return self.assign(sc, sc)
        if k == "comp":
            ps = [x for x in self.paths(sc, mut=True) if x[1][0] == "i" and x[3]]
            if not ps:
                return []
            e, T, n, p = r.choice(ps)
            op = r.choice(["+", "%", "^", "|", "&", "/"] + (["-", "*"] if T[1] in ("i32", "i64") else []))
            val = lit(r.randint(1, 5), T[1])
            return [{"k": "asgp", "n": n, "p": p, "op": op, "e": val, "t": T[1]}]
        if k == "dump":
            if not sc:
                return []
            n, T, _ = r.choice(sc)
            return self.dump(v_(n), T)
        if k == "method":
            return self.mstmt(sc)
        if k == "ref":
            fs = [c for c in self.extra if c["kind"] == "ref"]
            if not fs:
                return []
            c = r.choice(fs)
            ps = [x for x in self.paths(sc, c["pt"][0], mut=True)]
            if not ps:
                return []
            e, T, n, p = r.choice(ps)
            call = {"k": "callr", "f": c["f"], "args": [e] + [self.gen(PT, sc, 0) for PT in c["pt"][1:]], "refs": [{"i": 1, "n": n, "p": p}],
                    "s": {"n": c["src"]}, "t": "i32"}
            m = self.name("v")
            sc.append((m, I32, True))
            return [{"k": "decl", "n": m, "t": "i32", "e": call}, self.ev(var(m))] + self.dump(v_(n), next(T for x, T, _ in sc if x == n))[:12]
        if k == "lam":
            return self.lam(sc)
        if k == "if":
            return [{"k": "if", "c": self.bex(sc), "a": self.block(sc, depth - 1, r.randint(1, 3)), "b": self.block(sc, depth - 1, r.randint(0, 2))}]
        if k == "while":
            n = self.name("w")
            return [{"k": "decl", "n": n, "t": "i32", "e": lit(0)},
                    {"k": "while", "c": {"k": "bin", "op": "<", "l": var(n), "r": lit(r.randint(1, 3)), "t": "i32", "w": "i32"},
                     "body": [{"k": "asg", "n": n, "op": "+", "e": lit(1), "t": "i32"}] + self.block(sc + [(n, I32, False)], depth - 1, r.randint(1, 3))}]
        if k == "ifopt":
            ps = [x for x in self.paths(sc) if x[1][0] == "opt"]
            if not ps:
                return []
            e, T, n, p = r.choice(ps)
            m = self.name("v")
            a = [{"k": "decl", "n": m, "t": rt(T[1]), "e": {"k": "deref", "e": e, "t": "?"}, "ann": r.random() < 0.5}]
            a += self.block(sc + [(m, T[1], True)], depth - 1, r.randint(1, 2)) + self.dump(v_(m), T[1])
            return [{"k": "if", "c": {"k": "has", "e": e, "s": r.randint(0, 1), "t": "bool"}, "a": a, "b": [self.ev(lit(0))]}]
        if k == "match":
            ps = [x for x in self.paths(sc) if x[1][0] == "un"]
            if not ps:
                return []
            e, T, n, p = r.choice(ps)
            alts = list(enumerate(self.unions[T[1]]))
            r.shuffle(alts)
            hasdef = r.random() < 0.4
            if hasdef:
                alts = alts[:r.randint(1, len(alts) - 1)]
            cases = []
            for i, A in alts:
                m = self.name("u") if r.random() < 0.8 else ""
                # a structure is bound by reference: only its parts are used, and the union it is in does not change meanwhile
                inner = [y for y in sc if y[0] != n] + ([(m, A, "alt" if A[0] == "st" else False)] if m else [])
                cases.append({"u": i + 1, "r": rt(A), "n": m, "body": [self.ev(lit(i))] + (self.dump(v_(m), A) if m else []) +
                              self.block(inner, depth - 1, r.randint(0, 2))})
            return [{"k": "match", "e": e, "cases": cases, "hasdef": hasdef, "def": [self.ev(lit(77))] if hasdef else []}]
        if k == "foreach":
            ps = [x for x in self.paths(sc) if x[1][0] == "arr" and not x[3]]
            if not ps:
                return []
            e, T, n, p = r.choice(ps)
            m, x = self.name("e"), (self.name("x") if r.random() < 0.5 else "")
            inner = [y for y in sc if y[0] != n] + [(m, T[1], False)]
            b = self.dump(v_(m), T[1])
            if x:
                b.append(self.ev(cast(var(x, "i64"), "i64")))
            return [{"k": "foreacha", "n": m, "x": x, "e": e, "body": b + self.block(inner, depth - 1, r.randint(0, 2))}]
        if k == "switch":
            ps = [x for x in self.paths(sc) if x[1][0] == "en"]
            if not ps:
                return []
            e, T, n, p = r.choice(ps)
            os = list(self.enums[T[1]])
            r.shuffle(os)
            cases, i = [], 0
            os = os[:r.randint(1, len(os))]
            while i < len(os):
                g = os[i:i + r.choice([1, 1, 2])]
                i += len(g)
                cases.append({"r": [f"{T[1]}.{o}" for o, _, _ in g], "vs": [limbs(v) for _, v, _ in g],
                              "body": [self.ev(lit(i))] + self.block(sc, depth - 1, r.randint(0, 1))})
            return [{"k": "switch", "e": e, "cases": cases, "hasdef": True, "def": [self.ev(lit(88))]}]
        if k == "cls":
            return self.clsstmt(sc, depth)
        raise KeyError(k)

    def assign(self, targets, sc):
        ps = [x for x in self.paths(targets, mut=True) if not (x[1][0] in ("arr", "fn", "cls"))]
        if not ps:
            return []
        e, T, n, p = self.r.choice(ps)
        return [{"k": "asgp", "n": n, "p": p, "op": "=", "e": self.gen(T, sc), "t": "?"}]

    # ------------------------------------------- functions and methods
    def func(self, name, kind="val"):
        r = self.r
        pt = [self.ty(2, opt=True, arr=False) for _ in range(r.randint(1, 3))]
        rtT = self.ty(2, opt=True, arr=False)
        if kind == "ref":
            cand = [("st", s) for s in self.structs]
            if not cand:
                return None
            pt[0] = r.choice(cand)
            rtT = I32
        ps = [self.name("p") for _ in pt]
        # values of parameters can be changed by the callee without the caller noticing
        sc = [(p, T, "ref" if kind == "ref" and p == ps[0] else True) for p, T in zip(ps, pt)]
        self.leave = rtT
        body = self.body(sc, 1, r.randint(1, 4))
        self.leave = None
        if kind == "ref":
            for _ in range(2):
                body += self.assign([sc[0]], sc)
        if r.random() < 0.3 and kind == "val":
            body.append({"k": "if", "c": self.bex(sc, 0), "a": [{"k": "ret", "e": self.gen(rtT, sc)}], "b": []})
        body.append({"k": "ret", "e": self.gen(rtT, sc)})
        f = {"name": name, "ps": ps, "pt": [rt(T) for T in pt], "rt": rt(rtT), "raises": False, "body": body}
        if kind == "ref":
            f["pt"][0] = "&" + f["pt"][0]
            self.extra.append({"kind": "ref", "f": name, "src": name, "pt": pt})
        else:
            c = {"f": name, "src": name, "pt": pt, "rt": rtT}
            if kind == "def":
                defs = [None] * len(pt)
                for j in range(len(pt) - 1, -1, -1):
                    if pt[j][0] != "i" or r.random() < 0.2:
                        break
                    defs[j] = lit(r.randint(1, 40), pt[j][1])
                f["defs"], c["defs"] = defs, defs
            self.callables.append(c)
        self.fns.append(f)
        return f

    def overloads(self):
        """Several functions of one name, told apart by their parameters."""
        r = self.r
        cand = [(I32,), (I64,), (BOOL,), (I32, I32), (I64, I32)] + [(("st", s),) for s in self.structs if "gen" not in self.structs[s]]
        for i, pt in enumerate(r.sample(cand, min(len(cand), r.randint(2, 4)))):
            ps = [self.name("p") for _ in pt]
            sc = [(p, T, True) for p, T in zip(ps, pt)]
            self.fns.append({"name": f"ov{i}", "src": "ov", "ps": ps, "pt": [rt(T) for T in pt], "rt": "i32", "raises": False,
                             "body": [self.ev(lit(i))] + [{"k": "ret", "e": {"k": "bin", "op": "+", "l": lit(100 * i), "r": grp(
                                 {"k": "bin", "op": "%", "l": grp(self.iex(sc, "i32")), "r": lit(50), "t": "i32", "w": "i32"}), "t": "i32", "w": "i32"}}]})
            self.callables.append({"f": f"ov{i}", "src": "ov", "pt": list(pt), "rt": I32, "exact": True})

    def methods(self, s):
        r = self.r
        fs = self.structs[s]["f"]
        T = ("st", s)
        for i in range(r.randint(1, 3)):
            const = r.random() < 0.4
            ps = [self.name("p") for _ in range(r.randint(0, 2))]
            sc = [("this", T, not const)] + [(p, I32, True) for p in ps]
            body = []
            if not const:
                for _ in range(r.randint(1, 3)):
                    body += self.assign([sc[0]], [x for x in sc])
            body = [b for b in body if b["k"] != "asgp" or b["p"]]       # not the whole of this
            body.append({"k": "ret", "e": self.iex(sc, "i32", 2)})
            name = f"m{i}"
            self.structs[s]["m"].append({"name": f"{s}.{name}", "src": name, "ps": ["this"] + ps, "pt": ["i32"] * len(ps), "rt": "i32",
                                         "const": const, "body": body, "raises": False})
        ints = [(i, n, FT[1]) for i, (n, FT) in enumerate(fs) if FT[0] == "i"]
        if ints and all(FT[0] != "arr" for _, FT in fs) and r.random() < 0.6:     # an operator on whole values: works part by part on the integer fields
            op = r.choice(["+", "-", "*", "|", "^"])
            parts = []
            for i, (n, FT) in enumerate(fs):
                e = {"k": "fld", "e": v_("this"), "i": i + 1, "r": n, "t": "?"}
                if FT[0] == "i":
                    m = {"i8": 7, "u8": 9, "i16": 100, "u16": 100}.get(FT[1], 1000)
                    md = lambda x: grp({"k": "bin", "op": "%", "l": x, "r": lit(m, FT[1]), "t": FT[1], "w": FT[1]})
                    o2 = "+" if op == "-" and FT[1][0] == "u" else op
                    e = {"k": "bin", "op": o2, "l": md(e), "r": md({"k": "fld", "e": v_("o"), "i": i + 1, "r": n, "t": "?"}), "t": FT[1], "w": FT[1]}
                parts.append(e)
            self.structs[s]["op"] = op
            self.structs[s]["m"].append({"name": f"{s}.op", "src": f"`{op}`", "ps": ["this", "o"], "pt": ["This"], "rt": "This", "const": True,
                                         "raises": False, "body": [{"k": "ret", "e": mk(parts, ["st", "This", [n for n, _ in fs]])}]})

    def mstmt(self, sc):
        r = self.r
        ps = [x for x in self.paths(sc, mut=True) if x[1][0] == "st"]
        r.shuffle(ps)
        for e, T, n, p in ps[:6]:
            s = self.structs[T[1]]
            m = self.name("v")
            ref = [{"i": 1, "n": n, "p": p}]
            if T[1].startswith("Box["):
                IT = s["f"][0][1]
                if r.random() < 0.5:
                    sc.append((m, IT, True))
                    return [{"k": "decl", "n": m, "t": rt(IT), "ann": False, "e":
                             {"k": "callr", "f": "Box.put", "args": [e, self.gen(IT, sc[:-1], 0, False)], "refs": ref, "s": {"m": "put"}, "t": "?"}}] + self.dump(e, T)
                sc.append((m, IT, True))
                return [{"k": "decl", "n": m, "t": rt(IT), "ann": False, "e": {"k": "callr", "f": "Box.get", "args": [e], "refs": ref, "s": {"m": "get"}, "t": "?"}}] + self.dump(v_(m), IT)
            if T[1].startswith("Pair["):
                B = self.pair(s["f"][1][1], s["f"][0][1])
                sc.append((m, B, True))
                return [{"k": "decl", "n": m, "t": rt(B), "ann": False, "e": {"k": "callr", "f": "Pair.swap", "args": [e], "refs": ref, "s": {"m": "swap"}, "t": "?"}}] + self.dump(v_(m), B)
            if not s["m"]:
                continue
            f = r.choice(s["m"])
            if f["src"][0] == "`":
                o = self.gen(T, sc, 0, False)
                if o["k"] in ("mk",):
                    o = e
                sc.append((m, T, True))
                return [{"k": "decl", "n": m, "t": rt(T), "ann": False,
                         "e": {"k": "callr", "f": f["name"], "args": [e, o], "refs": [], "s": {"op": s["op"]}, "t": "?"}}] + self.dump(v_(m), T)
            sc.append((m, I32, True))
            return [{"k": "decl", "n": m, "t": "i32", "e": {"k": "callr", "f": f["name"], "args": [e] + [self.iex(sc[:-1], "i32") for _ in f["pt"]],
                                                            "refs": ref, "s": {"m": f["src"]}, "t": "i32"}}, self.ev(var(m))] + self.dump(e, T)[:10]
        q = r.random()
        if q < 0.5:
            A, B = self.ty(1, arr=False), self.ty(1, arr=False)
            n = self.name("v")
            e = {"k": "call", "f": "gpair", "args": [self.gen(A, sc, 0, False), self.gen(B, sc, 0, False)],
                 "s": {"n": f"gpair[{rt(A)}, {rt(B)}]" if r.random() < 0.5 else "gpair"}, "t": "?"}
            T = self.pair(A, B)
            sc.append((n, T, True))
            return [{"k": "decl", "n": n, "t": rt(T), "ann": False, "e": e}] + self.dump(v_(n), T)
        A, B = self.ty(1, arr=False), self.ty(1, arr=False)
        n = self.name("v")
        e = {"k": "call", "f": "gswap", "args": [self.gen(A, sc, 0, False), self.gen(B, sc, 0, False)], "s": {"n": "gswap"}, "t": "?"}
        sc.append((n, ("tup", (B, A)), True))
        return [{"k": "decl", "n": n, "t": "?", "ann": False, "e": e}] + self.dump(v_(n), ("tup", (B, A)))

    def lam(self, sc):
        """A closure: captures the current value of what it mentions."""
        r = self.r
        ps = [self.name("a") for _ in range(r.randint(1, 2))]
        caps = [(n, T) for n, T, m in sc if T[0] in ("i", "b", "en", "st", "tup") and n != "this" and m is True]
        caps = r.sample(caps, min(len(caps), r.randint(0, 2)))
        isc = [(n, T, False) for n, T in caps] + [(p, I32, False) for p in ps]
        e = self.iex(isc, "i32", 2)
        used = set()

        def walk(x):
            if isinstance(x, dict):
                if x.get("k") == "var":
                    used.add(x["n"])
                for y in x.values():
                    walk(y)
            elif isinstance(x, list):
                for y in x:
                    walk(y)
        walk(e)
        caps = [(n, T) for n, T in caps if n in used]
        f = self.name("lam")
        self.lamfns[f] = {"ps": [n for n, _ in caps] + ps, "body": [{"k": "ret", "e": e}]}
        n = self.name("c")
        lam = {"k": "lam", "f": f, "caps": [v_(c) for c, _ in caps], "ns": [c if CT[0] in ("st", "tup") else "" for c, CT in caps], "s": {"ps": [(p, "i32") for p in ps], "body": e}, "t": "?"}
        T = ("fn", tuple(I32 for _ in ps), I32)
        hof = f"hof{len(ps)}"
        if r.random() < 0.5:
            m = self.name("v")
            sc.append((m, I32, True))
            return [{"k": "decl", "n": m, "t": "i32", "e": {"k": "call", "f": hof, "args": [lam, self.iex(sc[:-1], "i32")], "s": {"n": hof}, "t": "i32"}},
                    self.ev(var(m))]
        out = [{"k": "decl", "n": n, "t": "?", "ann": False, "e": lam}]
        if caps and r.random() < 0.6:
            out += self.assign([(c, CT, True) for c, CT in caps], sc)
        out += [self.ev({"k": "app", "e": v_(n), "args": [self.iex(sc, "i32") for _ in ps], "t": "i32"})]
        sc.append((n, T, False))
        return out

    # ------------------------------------------------------- classes
    def mkclasses(self):
        pass

    def oex(self, T, sc, d):
        raise KeyError

    def clsstmt(self, sc, depth):
        return []

    # -------------------------------------------------------- program
    def hofs(self):
        """Higher-order functions (closure parameters)."""
        out = []
        for n in (1, 2):
            args = [var("x")] * n if n == 1 else [var("x"), lit(3)]
            body = [self.ev(var("x")), {"k": "decl", "n": "y", "t": "i32", "e": {"k": "app", "e": v_("fp"), "args": args, "t": "i32"}},
                    {"k": "ret", "e": {"k": "app", "e": v_("fp"), "args": [{"k": "bin", "op": "%", "l": var("y"), "r": lit(100), "t": "i32", "w": "i32"}] +
                                       [lit(7)] * (n - 1), "t": "i32"}}]
            out.append({"name": f"hof{n}", "ps": ["fp", "x"], "pt": [rt(("fn", tuple(I32 for _ in range(n)), I32)), "i32"], "rt": "i32",
                        "raises": False, "body": body})
        return out

    def program(self, n):
        r = self.r
        for f in self.hofs():
            self.fns.append(f)
        self.overloads()
        for i in range(3):
            self.func(f"h{i}")
        self.func("d0", "def")
        self.func("d1", "def")
        for i in range(2):
            self.func(f"r{i}", "ref")
        cases = []
        for i in range(n):
            ps = [self.name("p") for _ in range(2)]
            sc = [(p, I32, True) for p in ps]
            self.leave = I32
            body = self.body(sc, 2, r.randint(5, 10))
            self.leave = None
            body.append({"k": "ret", "e": self.iex(sc, "i32")})
            self.fns.append({"name": f"f{i}", "ps": ps, "pt": ["i32", "i32"], "rt": "i32", "raises": False, "body": body})
            cases.append((f"f{i}", [lit(r.randint(-9, 30)), lit(r.randint(0, 9))]))
        return cases

    def source(self, cases):
        R = DRender()
        t = HEAD + PRE
        for e, vals in self.enums.items():
            t += f"enum {e} {{ " + ", ".join(o + (f" = {v}" if ex else "") for o, v, ex in vals) + " }\n"
        for s, d in self.structs.items():
            if d.get("gen"):
                continue
            t += f"struct {s} {{\n" + "".join(f"  {n}: {rt(T)};\n" for n, T in d["f"])
            for f in d["m"]:
                ps = ", ".join(f"{n}: {ty}" for n, ty in zip(f["ps"][1:], f["pt"]))
                t += f"  {'const ' if f['const'] else ''}func {f['src']}({ps}): {f['rt']} {R.block(f['body'])}\n"
            t += "}\n"
            i = s[2:]
            if "Un" + i in self.unions:
                t += f"type Un{i} = " + " | ".join(rt(A) for A in self.unions["Un" + i]) + "\n"
        t += self.class_source(R)
        for f in self.fns:
            t += R.fn(f)
        t += "func main() {\nconst k = vf_case();\n"
        for k, (f, args) in enumerate(cases):
            t += f"if (k == ({k} as i32)) vf_ev(0 as i32, <i64>({f}({', '.join(R.ex(a) for a in args)})));\n"
        return t + "}\n"

    def class_source(self, R):
        return ""

    def spec(self):
        P = spec_pre()
        for f in self.fns:
            P[f["name"]] = {"ps": f["ps"], "body": f["body"]}
        for s, d in self.structs.items():
            for f in d["m"]:
                P[f["name"]] = {"ps": f["ps"], "body": f["body"]}
        P.update(self.lamfns)
        return P


def uses(node, acc):
    """Functions a tree can call."""
    if isinstance(node, dict):
        if node.get("k") in ("call", "callr", "lam", "new"):
            acc.add(node["f"])
        if node.get("k") == "mcall":
            acc.add("@vt")
        for k, v in node.items():
            if k != "s":
                uses(v, acc)
    elif isinstance(node, list):
        for v in node:
            uses(v, acc)
    return acc


DROP = ("s", "ann", "style", "hasdef", "else", "t_", "T")


def dstrip(node):
    if isinstance(node, dict):
        if node.get("k") == "lit":
            return {"k": "lit", "b": node["b"]}
        return {k: dstrip(v) for k, v in node.items() if (k not in DROP or node.get("k") == "defer") and (k != "r" or isinstance(v, dict))}
    if isinstance(node, list):
        return [dstrip(v) for v in node]
    return node


def reach(P, entry):
    todo, seen = [entry], {k: P[k] for k in ("@sh", "@cs") if k in P}
    while todo:
        n = todo.pop()
        if n in seen or n not in P:
            continue
        if n == "@vt":
            seen[n] = P[n]
            todo += [f for c in P[n].values() for f in c.values()]
            continue
        seen[n] = {"ps": P[n]["ps"], "body": dstrip(P[n]["body"])}
        todo += sorted(uses(P[n]["body"], set()))
    return seen
