"""Random programs over classes (inheritance, dispatch, aliasing, shared ownership) for specs/Lang.tla: every object has a
number, given by the order in which objects come to life (event 7000); its destruction is event 7777."""
from datagen import *

REF = ("x",)


def call_(f, args, s, t="?"):
    return {"k": "call", "f": f, "args": args, "s": s, "t": t}


class ORender(DRender):
    def ex(self, e):
        k = e["k"]
        if k == "not" and e["e"]["k"] == "isnull":
            return self.post(e["e"]["e"]) + " != null"
        if k == "mv":
            return "&&" + e["n"]
        if k == "tern" and e.get("t") == "?":
            return f"({self.ex(e['c'])} ? {self.ex(e['a'])} : {self.ex(e['b'])})"
        if k == "call" and e["s"].get("m"):
            return self.post(e["args"][0]) + "." + e["s"]["m"] + "(" + ", ".join(self.ex(a) for a in e["args"][1:]) + ")"
        if k == "call" and "super" in e["s"]:
            return "super" + ("." + e["s"]["super"] if e["s"]["super"] else "") + "(" + ", ".join(self.ex(a) for a in e["args"][1:]) + ")"
        return super().ex(e)

    def st(self, s):
        k = s["k"]
        if k == "asgo":
            r = self.post(s["o"])
            for p in s["p"]:
                r += "." + str(p["r"])
            return f"{r} {s['op'] if s['op'] == '=' else s['op'] + '='} {self.ex(s['e'])};\n"
        if k == "birth":
            return "this.id = vf_new();\n"
        if k == "match":
            return super().st(s)
        return super().st(s)


class Obj(Data):
    def __init__(self, rng):
        super().__init__(rng)

    # ------------------------------------------------------------ world
    def world(self):
        r = self.r
        self.order = []
        self.cls = {}
        self.tops = []
        self.hs, self.qs = [], []
        self.move = r.random() < 0.5
        self.newclass()
        for _ in range(r.randint(3, self.maxcls + 1)):
            p = r.random()
            if p < self.pcls and len(self.cls) < self.maxcls:
                self.newclass()
            elif p < 0.8:
                n = f"S{len(self.structs)}"
                fs = [(f"f{j}", self.fty(1)) for j in range(r.randint(1, 3))]
                if not any(self.hasref(T) for _, T in fs):
                    fs.append(("c", self.anyc()))
                self.structs[n] = {"f": fs, "m": []}
                self.order.append(("st", n))
            else:
                n = f"U{len(self.unions)}"
                alts = [I32, self.anyc()]
                ss = list(self.structs)
                if ss and r.random() < 0.6:
                    alts.append(("st", r.choice(ss)))
                r.shuffle(alts)
                self.unions[n] = alts
                self.order.append(("un", n))
        self.helpers()

    def anyc(self):
        return ("cls", self.r.choice(list(self.cls)))

    def hasref(self, T):
        k = T[0]
        if k == "cls":
            return True
        if k == "st":
            return any(self.hasref(x) for _, x in self.structs[T[1]]["f"])
        if k == "tup":
            return any(self.hasref(x) for x in T[1])
        if k == "un":
            return any(self.hasref(x) for x in self.unions[T[1]])
        return False

    def fty(self, d=1):
        r = self.r
        p = r.random()
        if p < 0.3:
            return I32
        if p < 0.75 or not d:
            return self.anyc()
        if p < 0.85 and self.structs:
            return ("st", r.choice(list(self.structs)))
        if p < 0.92 and self.unions:
            return ("un", r.choice(list(self.unions)))
        return ("tup", tuple(self.fty(0) for _ in range(2))) if r.random() < 0.9 else I64

    def newclass(self):
        r = self.r
        n = f"C{len(self.cls)}"
        base = r.choice(list(self.cls)) if self.cls and r.random() < 0.75 else None
        c = {"base": base, "own": [], "m": {}, "vt": {}, "sub": []}
        self.cls[n] = c
        if base:
            b = self.cls[base]
            c["f"], c["vt"], c["sig"] = list(b["f"]), dict(b["vt"]), dict(b["sig"])
            for a in self.anc(n)[1:]:
                self.cls[a]["sub"].append(n)
        else:
            c["f"], c["vt"], c["sig"] = [("id", I64), ("n", I32)], {}, {}
        c["own"] = [(f"{n.lower()}f{j}", self.ownty(n)) for j in range(r.randint(0 if base else 1, 3))]
        c["f"] = c["f"] + c["own"]
        self.order.append(("cls", n))
        self.ctor(n)
        self.mkmethods(n)

    def ownty(self, n):
        """Type of an own field (a tuple of the class that is being defined is beyond the compiler)."""
        while True:
            T = self.fty()
            if not (T[0] == "tup" and ("cls", n) in T[1]):
                return T

    def anc(self, n):
        out = []
        while n:
            out.append(n)
            n = self.cls[n]["base"]
        return out

    def fidx(self, n, f):
        return [x for x, _ in self.cls[n]["f"]].index(f) + 1

    def of(self, e, n, f):
        T = dict(self.cls[n]["f"])[f]
        return {"k": "ofld", "e": e, "i": self.fidx(n, f), "r": f, "t": T[1] if T[0] == "i" else "?"}

    def zero(self, T):
        k = T[0]
        if k == "i":
            return limbs(0)
        if k == "cls":
            return 0
        if k == "st":
            return [self.zero(x) for _, x in self.structs[T[1]]["f"]]
        if k == "tup":
            return [self.zero(x) for x in T[1]]
        if k == "un":
            return {"u": 1, "v": self.zero(self.unions[T[1]][0])}

    def ctor(self, n):
        """init: the base's constructor first, then own fields from parameters or fresh values."""
        r, c = self.r, self.cls[n]
        b = c["base"]
        ps = [(self.name("p"), I32)]
        body, sup = [], []
        if b:
            bps = self.cls[b]["ps"]
            sup = []
            for i, (_, T) in enumerate(bps):
                if i == 0:
                    sup.append(var(ps[0][0]))
                elif r.random() < 0.6:
                    p = self.name("p")
                    ps.append((p, T))
                    sup.append(v_(p))
                else:
                    sup.append(None)
        sc = None
        own = []
        for f, T in c["own"]:
            q = r.random()
            if q < 0.5 and len(ps) < 4:
                p = self.name("p")
                ps.append((p, T))
                own.append((f, T, v_(p)))
            elif q < 0.8 or T[0] == "un":
                own.append((f, T, None))
        sc = [("this", ("cls", n), False)] + [(p, T, False) for p, T in ps]
        psc = sc[1:]
        if b:
            sup = [e if e is not None else self.val(T, psc, 0, new=False) for e, (_, T) in zip(sup, self.cls[b]["ps"])]
            body.append({"k": "expr", "e": call_(f"{b}.init", [v_("this")] + sup, {"super": ""})})
        else:
            body.append({"k": "birth"})
            body.append(self.setf("this", n, "n", var(ps[0][0])))
        for f, T, e in own:
            body.append(self.setf("this", n, f, e if e is not None else self.val(T, psc, 1, new=False)))
        c["ps"] = ps
        c["init"] = {"ps": ["this"] + [p for p, _ in ps], "body": body}

    def setf(self, v, n, f, e, op="=", t="?"):
        T = dict(self.cls[n]["f"])[f]
        return {"k": "asgo", "o": v_(v), "p": [{"k": "f", "i": self.fidx(n, f), "r": f}], "op": op, "e": e, "t": T[1] if T[0] == "i" else "?"}

    def mkmethods(self, n):
        r, c = self.r, self.cls[n]
        # override
        for m in sorted(c["vt"]):
            if r.random() < 0.6:
                self.method(n, m, c["sig"][m], True)
        fresh = [m for m in ("ma", "mb", "mc") if m not in c["sig"]]
        k = r.randint(0 if c["base"] else 1, 2)
        for m in r.sample(fresh, min(k, len(fresh))):
            virt = r.random() < 0.75
            sig = ([r.choice([I32, I32, self.anyc()]) for _ in range(r.randint(0, 2))], I32 if r.random() < 0.6 else self.anyc())
            c["sig"][m] = sig + (virt, n)
            self.method(n, m, c["sig"][m], False)

    def method(self, n, m, sig, override):
        r, c = self.r, self.cls[n]
        ps = [(self.name("p"), T) for T in sig[0]]
        sc = [("this", ("cls", n), False)] + [(p, T, True) for p, T in ps]
        body = [self.ev(lit(int(n[1:]) * 10 + "abc".index(m[1])))]
        self.lvl = "abc".index(m[1])        # functions call only those that come before them
        if override and r.random() < 0.5:
            s = self.name("v")
            b = c["base"]
            body.append({"k": "decl", "n": s, "t": rt(sig[1]), "ann": False,
                         "e": call_(c["vt"][m], [v_("this")] + [self.arg(T, sc) for T in sig[0]], {"super": m})})
            sc.append((s, sig[1], True))
            if sig[1] == I32:
                body.append(self.ev(var(s)))
        body += self.body(sc, 0, r.randint(0, 2))
        body.append({"k": "ret", "e": self.val(sig[1], sc, 1)})
        f = f"{n}.{m}"
        c["m"][m] = {"name": f, "ps": ["this"] + [p for p, _ in ps], "pt": [rt(T) for T in sig[0]], "rt": rt(sig[1]), "virt": sig[2] and not override, "body": body}
        c["vt"][m] = f

    # ------------------------------------------------------------ values
    def opaths(self, sc, want, depth=2, mut=False):
        """Readable places of a type that are certainly there: variables, their parts, fields of objects known not to be null."""
        out, refs = [], {"this"} | {n for n, _, m in sc if m == "alt"}

        def walk(e, T, d, nn):
            if self.sub(T, want) and e.get("n") not in refs:      # references are not values
                out.append(e)
            if not d:
                return
            if T[0] == "st":
                for i, (f, FT) in enumerate(self.structs[T[1]]["f"]):
                    walk({"k": "fld", "e": e, "i": i + 1, "r": f, "t": "?"}, FT, d - 1, False)
            elif T[0] == "tup":
                for i, FT in enumerate(T[1]):
                    walk({"k": "fld", "e": e, "i": i + 1, "r": i, "t": "?"}, FT, d - 1, False)
            elif T[0] == "cls" and nn:
                for f, FT in self.cls[T[1]]["f"]:
                    if f != "id":
                        walk(self.of(e, T[1], f), FT, d - 1, False)
        for n, T, m in sc:
            walk(v_(n), T, depth, n == "this" or m == "nn")
        return out

    def sub(self, T, W):
        return T == W or (T[0] == W[0] == "cls" and W[1] in self.anc(T[1]))

    def arg(self, T, sc):
        """Argument evaluated before another one that has effects: a variable, null or a number."""
        vs = [n for n, VT, _ in sc if self.sub(VT, T) and n != "this" and _ != "alt"]
        if vs and self.r.random() < 0.8:
            return v_(self.r.choice(vs)) if T != I32 else var(self.r.choice(vs))
        if T == I32:
            return lit(self.r.randint(0, 30))
        if T[0] == "cls":
            return {"k": "null"}
        return self.val(T, [], 0, new=False)

    def args(self, Ts, sc, d):
        heavy = self.r.randrange(len(Ts)) if Ts and d else -1
        if Ts and d and self.r.random() < 0.5:
            return [self.val(T, sc, 0, new=False) for T in Ts]
        return [self.val(T, sc, d - 1) if i == heavy else self.arg(T, sc) for i, T in enumerate(Ts)]

    def new(self, T, sc, d):
        n = self.r.choice([T[1]] + self.cls[T[1]]["sub"])
        if n not in self.cls or "ps" not in self.cls[n]:
            return {"k": "null"}
        a = self.args([t for _, t in self.cls[n]["ps"]], sc, d)
        return {"k": "new", "c": n, "f": f"{n}.init", "args": a, "ds": None, "t": "?"}

    def ival(self, sc):
        r = self.r
        ps = self.opaths(sc, I32)
        if not ps or r.random() < 0.25:
            return lit(r.randint(0, 40))
        e = dict(r.choice(ps), t="i32")
        if r.random() < 0.4:
            md = lambda x: x if x["k"] == "lit" else {"k": "bin", "op": "%", "l": x, "r": lit(1000), "t": "i32", "w": "i32"}
            return grp({"k": "bin", "op": r.choice("+-*"), "l": grp(md(e)), "r": md(dict(r.choice(ps), t="i32")), "t": "i32", "w": "i32"}) \
                if True else e
        return e

    def val(self, T, sc, d, new=True):
        r, k = self.r, T[0]
        if k == "i":
            if T == I32:
                if d and new and r.random() < 0.2:
                    c = self.callv(T, sc, d)
                    if c:
                        return c
                return self.ival(sc)
            return lit(r.randint(0, 9), T[1])
        ps = self.opaths(sc, T)
        p = r.random()
        if ps and p < 0.5:
            if k == "cls" and len(ps) > 1 and r.random() < 0.15:
                same = [x for x in ps]
                a, b = r.choice(same), r.choice(same)
                if r.random() < 0.3:
                    b = {"k": "null"}
                if self.tyof(a, sc) == T and (b["k"] == "null" or self.tyof(b, sc) == T):
                    return {"k": "tern", "c": self.cond(sc), "a": a, "b": b, "t": "?"}
            return r.choice(ps)
        if k == "cls":
            if d and new and p < 0.75:
                return self.new(T, sc, d)
            if d and new and p < 0.92:
                c = self.callv(T, sc, d)
                if c:
                    return c
            if ps and p < 0.95:
                return r.choice(ps)
            return {"k": "null"}
        if k == "st":
            fs = self.structs[T[1]]["f"]
            return mk(self.args([x for _, x in fs], sc, d if new else 0), ["st", T[1], [f for f, _ in fs]])
        if k == "tup":
            es = self.args(list(T[1]), sc, d if new else 0)
            if any(e["k"] == "null" for e in es):
                return mk([self.tyval(e, X, sc) for e, X in zip(es, T[1])], ["tup"])
            if any(self.tyof(e, sc) not in (None, X) for e, X in zip(es, T[1])):
                return mk([self.tyval(e, X, sc, True) for e, X in zip(es, T[1])], ["tup"])
            return mk(es, ["tup"])
        if k == "un":
            alts = list(enumerate(self.unions[T[1]]))
            i, A = r.choice(alts)
            e = self.val(A, sc, d, new)
            return {"k": "inj", "i": i + 1, "e": self.tyval(e, A, sc, True), "t": "?"}
        raise KeyError(k)

    def tyof(self, e, sc):
        """Static type of a value, None when it is what the context wants."""
        k = e["k"]
        if k == "var":
            return next((T for n, T, _ in sc if n == e["n"]), None)
        if k == "new":
            return ("cls", e["c"])
        if k == "ofld":
            b = self.tyof(e["e"], sc)
            return dict(self.cls[b[1]]["f"])[e["r"]] if b else None
        if k == "fld":
            b = self.tyof(e["e"], sc)
            if b and b[0] == "st":
                return self.structs[b[1]]["f"][e["i"] - 1][1]
            if b and b[0] == "tup":
                return b[1][e["i"] - 1]
        if k in ("call", "mcall"):
            return e.get("T")
        return None

    def tyval(self, e, T, sc, strict=False):
        """A tuple part or union value must have exactly the type: go through a helper otherwise."""
        if T[0] != "cls" or (e["k"] != "null" and self.tyof(e, sc) == T):
            return e
        return call_(f"id{T[1]}", [e], {"n": f"id{T[1]}"})

    def callv(self, T, sc, d):
        r = self.r
        opts = [("h", h) for h in self.hs if self.sub(h["rt"], T)]
        for n, VT, m in sc:
            if VT[0] == "cls" and (m == "nn" or n == "this") and "sig" in self.cls[VT[1]]:
                for mn, s in self.cls[VT[1]]["sig"].items():
                    if mn in self.cls[VT[1]]["vt"] and self.sub(s[1], T) and self.lvl > "abc".index(mn[1]):
                        opts.append(("m", n, VT[1], mn, s))
        if not opts:
            return None
        o = r.choice(opts)
        if o[0] == "h":
            return dict(call_(o[1]["name"], self.args(o[1]["pt"], sc, d - 1), {"n": o[1]["name"]}, T[1] if T[0] == "i" else "?"), T=o[1]["rt"])
        return self.mc(v_(o[1]), o[2], o[3], o[4], sc, d)

    def mc(self, e, cn, m, s, sc, d):
        a = self.args(s[0], sc, d - 1)
        t = s[1][1] if s[1][0] == "i" else "?"
        if s[2]:
            return {"k": "mcall", "e": e, "m": m, "args": a, "t": t, "T": s[1]}
        return dict(call_(self.cls[cn]["vt"][m], [e] + a, {"m": m}, t), T=s[1])

    def cond(self, sc):
        r = self.r
        ps = self.opaths(sc, I32)
        cs = [e for C in self.cls for e in self.opaths(sc, ("cls", C))]
        if cs and r.random() < 0.4:
            e = {"k": "isnull", "e": r.choice(cs), "s": 0, "t": "bool"}
            return e if r.random() < 0.5 else {"k": "not", "e": e, "t": "bool"}
        e = dict(r.choice(ps), t="i32") if ps else lit(r.randint(0, 3))
        return {"k": "bin", "op": r.choice(["<", ">", "==", "!=", "<=", ">="]), "l": e, "r": lit(r.randint(-1, 9)), "t": "i32", "w": "i32"}

    # ------------------------------------------------------- statements
    hs, lvl, loop, cond_lvl = [], 0, 0, 0
    more, maxcls, pcls = [], 6, 0.55

    def look(self, e, C, sc):
        """Statements that show an object, if there."""
        r = self.r
        a = [self.ev(dict(self.of(e, C, "id"), t="i64"))]
        if r.random() < 0.5:
            a.append(self.ev(dict(self.of(e, C, "n"), t="i32")))
        return [{"k": "if", "c": {"k": "not", "e": {"k": "isnull", "e": e, "s": 0}, "t": "bool"}, "a": a, "b": [self.ev(lit(-1))]}]

    def stmt(self, sc, depth):
        r = self.r
        kinds = ["new", "new", "decl", "decl", "asg", "asg", "asg", "part", "setf", "setf", "look", "look", "call", "guard", "guard", "int", "null"] + self.more
        if depth:
            kinds += ["if", "if", "while", "for", "blk", "match", "match", "switch", "exc"]
            if self.ret == I32:
                kinds += ["defer"]
            kinds += ["ret"]
        if self.loop:
            kinds += ["jump", "jump"]
        if self.move:
            kinds += ["move", "move"] + (["cmove", "cmove"] if depth else [])
        k = r.choice(kinds)
        cvars = [(n, T, m) for n, T, m in sc if T[0] == "cls"]
        if k == "new":
            T = self.anyc()
            n = self.name("v")
            e = self.new(T, sc, 1)
            if e["k"] == "null":
                return []
            nn = r.random() < 0.5
            sc.append((n, ("cls", e["c"]) if nn else T, "nn" if nn else True))
            return [{"k": "decl", "n": n, "t": rt(T), "ann": not nn, "e": e}] + (self.look(v_(n), T[1], sc) if r.random() < 0.3 else [])
        if k == "decl":
            T = r.choice([self.fty(1), self.fty(1), self.anyc()])
            n = self.name("v")
            e = self.val(T, sc, 2)
            sc.append((n, T, True))
            return [{"k": "decl", "n": n, "t": rt(T), "ann": True, "e": e}]
        if k == "asg":
            vs = [x for x in sc if x[2] is True and (x[1][0] != "i" or r.random() < 0.2)]
            if not vs:
                return []
            n, T, _ = r.choice(vs)
            e = self.val(T, sc, 2)
            if e["k"] == "null":      # see "null" below
                return []
            return [{"k": "asgp", "n": n, "p": [], "op": "=", "e": e, "t": "?"}]
        if k == "null":
            vs = [x for x in cvars if x[2] is True]
            if not vs:
                return []
            n, T, _ = r.choice(vs)
            a = [{"k": "asgp", "n": n, "p": [], "op": "=", "e": {"k": "null"}, "t": "?"}]
            if r.random() < 0.3:      # a variable set to null may not be used until it is assigned again
                e = self.val(T, [x for x in sc if x[0] != n], 2)
                if e["k"] != "null":
                    return a + [{"k": "asgp", "n": n, "p": [], "op": "=", "e": e, "t": "?"}]
            a += self.body([x for x in sc if x[0] != n], 0, r.randint(0, 2))
            return [{"k": "if", "c": self.cond(sc), "a": a, "b": []}]
        if k == "part":
            ps = [x for x in self.paths([y for y in sc if y[1][0] in ("st", "tup") and y[2] is True], mut=True) if x[3]]
            if not ps:
                return []
            e, T, n, p = r.choice(ps)
            return [{"k": "asgp", "n": n, "p": p, "op": "=", "e": self.val(T, sc, 2), "t": "?"}]
        if k == "setf":
            vs = [(n, T) for n, T, m in cvars if m == "nn" or n == "this"]
            if not vs:
                return []
            n, T = r.choice(vs)
            f, FT = r.choice([x for x in self.cls[T[1]]["f"] if x[0] != "id"])
            if FT[0] in ("st", "tup") and r.random() < 0.5:
                sub = self.structs[FT[1]]["f"] if FT[0] == "st" else list(enumerate(FT[1]))
                i = r.randrange(len(sub))
                return [{"k": "asgo", "o": v_(n), "p": [{"k": "f", "i": self.fidx(T[1], f), "r": f}, {"k": "f", "i": i + 1, "r": sub[i][0]}], "op": "=",
                         "e": self.val(sub[i][1], sc, 2), "t": "?"}]
            return [self.setf(n, T[1], f, self.val(FT, sc, 2))]
        if k == "look":
            cs = [(e, C) for C in self.cls for e in self.opaths(sc, ("cls", C)) if self.tyof(e, sc) == ("cls", C)]
            if not cs:
                return []
            e, C = r.choice(cs)
            return self.look(e, C, sc)
        if k == "guard":
            cs = [(e, C) for C in self.cls for e in self.opaths(sc, ("cls", C), 3) if self.tyof(e, sc) == ("cls", C)]
            if not cs:
                return []
            e, C = r.choice(cs)
            q = r.random()
            ms = [(m, s) for m, s in self.cls[C].get("sig", {}).items() if m in self.cls[C]["vt"] and self.lvl > "abc".index(m[1])]
            if q < 0.6 and ms:
                m, s = r.choice(ms)
                n = self.name("v")
                b = [{"k": "decl", "n": n, "t": rt(s[1]), "ann": False, "e": self.mc(e, C, m, s, sc, 2)}]
                b += [self.ev(var(n))] if s[1] == I32 else self.look(v_(n), s[1][1], sc)
            elif q < 0.8:
                f, FT = r.choice([x for x in self.cls[C]["f"] if x[0] != "id"])
                b = [{"k": "asgo", "o": e, "p": [{"k": "f", "i": self.fidx(C, f), "r": f}], "op": "=", "e": self.val(FT, sc, 1), "t": "?"}]
            else:
                n = self.name("v")
                f, FT = r.choice(self.cls[C]["f"])
                b = [{"k": "decl", "n": n, "t": rt(FT), "ann": True, "e": self.of(e, C, f)}] + self.body(sc + [(n, FT, True)], max(0, depth - 1), 1)
            return [{"k": "if", "c": {"k": "not", "e": {"k": "isnull", "e": e, "s": 0}, "t": "bool"}, "a": b, "b": [self.ev(lit(-2))] if r.random() < 0.5 else []}]
        if k == "call":
            T = r.choice([I32, self.anyc()])
            e = self.callv(T, sc, 2)
            if not e:
                return []
            n = self.name("v")
            sc.append((n, e["T"], True))
            return [{"k": "decl", "n": n, "t": rt(e["T"]), "ann": r.random() < 0.3, "e": e}]
        if k == "int":
            return [self.ev(self.ival(sc))]
        if k == "if":
            return [{"k": "if", "c": self.cond(sc), "a": self.body(sc, depth - 1, r.randint(1, 3)), "b": self.body(sc, depth - 1, r.randint(0, 3))}]
        if k == "blk":
            return [{"k": "blk", "body": self.body(sc, depth - 1, r.randint(1, 3))}]
        if k == "while":
            n = self.name("w")
            self.loop += 1
            b = self.body(sc + [(n, I32, False)], depth - 1, r.randint(1, 4))
            self.loop -= 1
            return [{"k": "decl", "n": n, "t": "i32", "e": lit(0)},
                    {"k": "while", "c": {"k": "bin", "op": "<", "l": var(n), "r": lit(r.randint(1, 3)), "t": "i32", "w": "i32"},
                     "body": [{"k": "asg", "n": n, "op": "+", "e": lit(1), "t": "i32"}] + b}]
        if k == "for":
            n = self.name("i")
            self.loop += 1
            b = self.body(sc, depth - 1, r.randint(1, 4))
            self.loop -= 1
            return [{"k": "for", "n": n, "lo": lit(0), "hi": lit(r.randint(1, 3)), "t": "i64", "body": [self.ev(var(n, "i64"))] + b}]
        if k == "jump":
            return [{"k": "if", "c": self.cond(sc), "a": self.body(sc, 0, r.randint(0, 1)) + [{"k": r.choice(["brk", "cont"])}], "b": []}]
        if k == "ret":
            return [{"k": "if", "c": self.cond(sc), "a": self.body(sc, 0, r.randint(0, 1)) + [self.retst(sc)], "b": []}]
        if k == "defer":
            ints = [x for x in sc if x[1] == I32]
            return [{"k": "defer", "s": self.ev(var(r.choice(ints)[0]) if ints else lit(3))}]
        if k == "match":
            us = [x for x in sc if x[1][0] == "un"]
            if not us:
                n = self.name("v")
                if not self.unions:
                    return []
                T = ("un", r.choice(list(self.unions)))
                e = self.val(T, sc, 2)
                sc.append((n, T, True))
                return [{"k": "decl", "n": n, "t": rt(T), "ann": True, "e": e}]
            n, T, _ = r.choice(us)
            cases = []
            for i, A in enumerate(self.unions[T[1]]):
                m = self.name("u")
                inner = [y for y in sc if y[0] != n] + [(m, A, "alt" if A[0] in ("st", "cls") else False)]
                save, self.loop = self.loop, 0
                b = [self.ev(lit(i))] + (self.look(v_(m), A[1], sc) if A[0] == "cls" else []) + self.body(inner, depth - 1, r.randint(0, 2))
                self.loop = save
                cases.append({"u": i + 1, "r": rt(A), "n": m, "body": b})
            return [{"k": "match", "e": v_(n), "cases": cases, "hasdef": False, "def": []}]
        if k == "switch":
            ps = self.opaths(sc, I32)
            e = dict(r.choice(ps), t="i32") if ps else lit(1)
            save, self.loop = self.loop, 0
            cs = [{"r": [f"{v} as i32"], "vs": [limbs(v)], "body": self.body(sc, depth - 1, r.randint(1, 2))} for v in r.sample(range(0, 5), r.randint(1, 3))]
            d = self.body(sc, depth - 1, r.randint(0, 2)) + [self.ev(lit(88))]
            self.loop = save
            return [{"k": "switch", "e": e, "cases": cs, "hasdef": True, "def": d}]
        if k == "exc":
            if not self.qs:
                return []
            q = r.choice(self.qs)
            n = self.name("v")
            e = call_(q["name"], self.args(q["pt"], sc, 1), {"n": q["name"]}, "i32")
            sc.append((n, I32, True))
            return [{"k": "decl", "n": n, "t": "i32", "ann": False, "e": {"k": "catch", "e": e, "d": lit(r.randint(50, 60)), "t": "i32"}}, self.ev(var(n))]
        if k == "move":
            vs = [x for x in cvars if x[2] is True and x[0] in self.here]
            if not vs:
                return []
            n, T, m = r.choice(vs)
            sc[:] = [x for x in sc if x[0] != n]
            return self.moveof(n, T, sc)
        if k == "cmove":
            vs = [x for x in cvars if x[2] is True and x[0] in self.here]
            if not vs:
                return []
            n, T, m = r.choice(vs)
            inner = [x for x in sc if x[0] != n]
            out = self.maybe(n, T, inner, 2)
            if r.random() < 0.4:      # given a new value, it can be used again
                e = self.val(T, inner, 1)
                if e["k"] != "null":
                    return out + [{"k": "asgp", "n": n, "p": [], "op": "=", "e": e, "t": "?"}]
            sc[:] = inner
            return out
        raise KeyError(k)

    def moveof(self, n, T, sc):
        """A statement that moves a variable somewhere."""
        r = self.r
        mv = {"k": "mv", "n": n, "t": "?"}
        hs = [h for h in self.hs if h["pt"] and self.sub(T, h["pt"][0])]
        if hs and r.random() < 0.6:
            h = r.choice(hs)
            v = self.name("v")
            e = call_(h["name"], [mv] + [self.arg(X, sc) for X in h["pt"][1:]], {"n": h["name"]}, "?")
            sc.append((v, h["rt"], True))
            return [{"k": "decl", "n": v, "t": rt(h["rt"]), "ann": False, "e": e}]
        vs = [(o, OT) for o, OT, om in sc if OT[0] == "cls" and (om == "nn" or o == "this")]
        for o, OT in vs:
            fs = [f for f, FT in self.cls[OT[1]]["f"] if self.sub(T, FT)]
            if fs:
                return [self.setf(o, OT[1], r.choice(fs), mv)]
        v = self.name("v")
        sc.append((v, T, True))
        return [{"k": "decl", "n": v, "t": rt(T), "ann": True, "e": mv}]

    def maybe(self, n, T, sc, d):
        """A statement that moves a variable on some paths."""
        r = self.r
        def arm(p):
            q = r.random()
            if d and q < 0.25:
                return self.body(sc, 0, r.randint(0, 1)) + self.maybe(n, T, sc, d - 1)
            if q < p:
                out = self.body(sc, 0, r.randint(0, 1)) + self.moveof(n, T, list(sc))
                if r.random() < 0.2:
                    e = self.val(T, sc, 1)
                    if e["k"] != "null":
                        out.append({"k": "asgp", "n": n, "p": [], "op": "=", "e": e, "t": "?"})
                return out + self.body(sc, 0, r.randint(0, 1))
            return self.body(sc, 0, r.randint(0, 2))
        q = r.random()
        if q < 0.5:
            return [{"k": "if", "c": self.cond(sc), "a": arm(0.6), "b": arm(0.5) if r.random() < 0.7 else []}]
        if q < 0.6:
            return [{"k": "blk", "body": arm(0.8)}]
        ps = self.opaths(sc, I32)
        e = dict(r.choice(ps), t="i32") if ps else lit(1)
        save, self.loop = self.loop, 0
        cs = [{"r": [f"{v} as i32"], "vs": [limbs(v)], "body": arm(0.6)} for v in r.sample(range(0, 5), r.randint(1, 3))]
        df = arm(0.4) + [self.ev(lit(87))]
        self.loop = save
        return [{"k": "switch", "e": e, "cases": cs, "hasdef": True, "def": df}]

    here = ()

    def body(self, sc, depth, n):
        """Variables declared here can be moved from here."""
        sc, save = list(sc), self.here
        self.here = set()
        out = []
        for _ in range(n):
            out += self.stmt(sc, depth)
            self.here |= {s["n"] for s in out if s["k"] == "decl"}
        self.here = save
        return out

    def retst(self, sc):
        return {"k": "ret", "e": self.val(self.ret, sc, 1)}

    ret, qs = None, []

    # ------------------------------------------------------- functions
    def helpers(self):
        r = self.r
        self.lvl = 3
        self.ids = list(self.cls)
        for i in range(r.randint(2, 4)):
            self.helper(f"h{i}", False)
        self.qs = []
        for i in range(r.randint(0, 2)):
            self.helper(f"q{i}", True)

    def helper(self, name, raises):
        r = self.r
        pt = [r.choice([I32, self.anyc(), self.anyc(), self.fty(1)]) for _ in range(r.randint(1, 3))]
        rtT = I32 if raises else r.choice([I32, self.anyc(), self.anyc(), self.fty(1)])
        if rtT == I64:
            rtT = I32
        ps = [self.name("p") for _ in pt]
        sc = [(p, T, True) for p, T in zip(ps, pt)]
        self.ret = rtT
        body = self.body(sc, 2 if raises else 1, r.randint(1, 4))
        if raises:
            body.append({"k": "if", "c": self.cond(sc), "a": self.body(sc, 0, r.randint(0, 2)) + [{"k": "raise", "ex": 1, "e": lit(1)}], "b": []})
            body += self.body(sc, 1, r.randint(0, 2))
        body.append(self.retst(sc) if not raises else {"k": "ret", "e": self.ival(sc)})
        self.tops.append({"name": name, "ps": ps, "pt": [rt(T) for T in pt], "rt": ("!" if raises else "") + rt(rtT), "raises": raises, "body": body})
        (self.qs if raises else self.hs).append({"name": name, "pt": pt, "rt": rtT})

    def program(self, n):
        r = self.r
        cases = []
        self.lvl = 3
        for i in range(n):
            ps = [self.name("p") for _ in range(2)]
            sc = [(p, I32, False) for p in ps]
            self.ret = I32
            body = self.body(sc, 3, r.randint(6, 14))
            body.append({"k": "ret", "e": self.ival(sc)})
            self.tops.append({"name": f"f{i}", "ps": ps, "pt": ["i32", "i32"], "rt": "i32", "raises": False, "body": body})
            cases.append((f"f{i}", [lit(r.randint(-3, 12)), lit(r.randint(0, 5))]))
        return cases

    def source(self, cases):
        R = ORender()
        t = HEAD + "extern func vf_new(): i64\nextern func vf_die(id: i64): void\n" + EXC
        for k, n in self.order:
            if k == "st":
                t += f"struct {n} {{\n" + "".join(f"  {f}: {rt(T)};\n" for f, T in self.structs[n]["f"]) + "}\n"
            elif k == "un":
                t += f"type {n} = " + " | ".join(rt(A) for A in self.unions[n]) + "\n"
            else:
                c = self.cls[n]
                t += f"class {n}{' : ' + c['base'] if c['base'] else ''} {{\n"
                if not c["base"]:
                    t += "  id: i64;\n  n: i32;\n"
                t += "".join(f"  {f}: {rt(T)};\n" for f, T in c["own"])
                t += "  func `init`(" + ", ".join(f"{p}: {rt(T)}" for p, T in c["ps"]) + ") " + R.block(c["init"]["body"])
                if not c["base"]:
                    t += "  func `deinit`() { vf_die(id); }\n"
                for m, f in c["m"].items():
                    t += f"  {'virtual ' if f['virt'] else ''}func {m}(" + ", ".join(f"{p}: {x}" for p, x in zip(f["ps"][1:], f["pt"])) + \
                        f"): {f['rt']} {R.block(f['body'])}"
                t += "}\n"
        for n in self.cls:
            t += f"func id{n}(a: {n}): {n} {{ return a; }}\n"
        for f in self.tops:
            t += R.fn(f)
        t += "func main() {\nconst k = vf_case();\n"
        for k, (f, args) in enumerate(cases):
            t += f"if (k == ({k} as i32)) vf_ev(0 as i32, <i64>({f}({', '.join(R.ex(a) for a in args)})));\n"
        return t + "}\n"

    # ------------------------------------------------------------- spec
    def shape(self, T):
        k = T[0]
        if not self.hasref(T):
            return {"k": "x"}
        if k == "cls":
            return {"k": "r"}
        if k == "st":
            return {"k": "s", "es": [self.shape(x) for _, x in self.structs[T[1]]["f"]]}
        if k == "tup":
            return {"k": "s", "es": [self.shape(x) for x in T[1]]}
        return {"k": "u", "es": [self.shape(x) for x in self.unions[T[1]]]}

    def tyname(self, s):
        s = s.strip()
        if s in self.cls:
            return ("cls", s)
        if s in self.structs:
            return ("st", s)
        if s in self.unions:
            return ("un", s)
        if s.startswith("("):
            return ("tup", tuple(self.tyname(x) for x in s[1:-1].split(",")))
        return ("i", s)

    def spec(self):
        P = {}
        sh = {"this": {"k": "r"}}

        def decls(node):
            if isinstance(node, dict):
                if node.get("k") == "decl":
                    T = self.tyname(node["t"])
                    if self.hasref(T):
                        sh[node["n"]] = self.shape(T)
                if node.get("k") == "match":
                    for c in node["cases"]:
                        T = self.tyname(c["r"])
                        if self.hasref(T) and c["n"]:
                            sh[c["n"]] = self.shape(T)
                for v in node.values():
                    decls(v)
            elif isinstance(node, list):
                for v in node:
                    decls(v)

        def add(name, ps, pts, body):
            P[name] = {"ps": ps, "body": body}
            for p, T in zip(ps, pts):
                if p != "this" and self.hasref(T):
                    sh[p] = self.shape(T)
            decls(body)
        for n, c in self.cls.items():
            add(f"{n}.init", c["init"]["ps"], [("cls", n)] + [T for _, T in c["ps"]], c["init"]["body"])
            for m, f in c["m"].items():
                add(f["name"], f["ps"], [("cls", n)] + [self.tyname(x) for x in f["pt"]], f["body"])
            add(f"id{n}", [f"id_{n}"], [("cls", n)], [{"k": "ret", "e": v_(f"id_{n}")}])
        for f in self.tops:
            add(f["name"], f["ps"], [self.tyname(x) for x in f["pt"]], f["body"])

        def fill(node):
            if isinstance(node, dict):
                if node.get("k") == "new":
                    node["ds"] = [self.zero(T) for _, T in self.cls[node["c"]]["f"]]
                for v in node.values():
                    fill(v)
            elif isinstance(node, list):
                for v in node:
                    fill(v)
        for f in P.values():
            fill(f["body"])
        P["@vt"] = {n: c["vt"] or {"_": "_"} for n, c in self.cls.items()}
        P["@sh"] = sh
        P["@cs"] = {n: [self.shape(T) for _, T in c["f"]] for n, c in self.cls.items()}
        return P


class Cls(Obj):
    """Larger hierarchies, more calls."""
    more, maxcls, pcls = ["call"] * 6, 9, 0.85
