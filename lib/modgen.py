"""Programs of several modules for Modules.tla: their graph, what they declare and take from each other, and the text of the files."""

TYPES = ("st",)


def term(t):
    if t["k"] == "n":
        return f"{t['x']}"
    n = t["n"] if t["k"] == "loc" else f"{t['a']}.{t['n']}"
    return {"fun": f"{n}()", "var": n, "con": n, "enum": f"<i64>({n}.B)", "st": n + "{x: 3 as i64}.m()",
            "gen": n + f"(3 as {t.get('ty', 'i64')})", "cls": n + "(3 as i64).m()"}[t["w"]]


def total(e):
    return " + ".join(["(0 as i64)"] + [term(t) for t in e])


def decl(d):
    k, n, p = d["k"], d["n"], "pub " if d["pub"] else ""
    if k == "fun":
        return f"{p}func {n}(): i64 {{ println(<i64>({d['id']})); " + (f"{d['bump']} = {d['bump']} + 1; " if d["bump"] else "") + f"return {total(d['e'])} + {d['id']} }}"
    if k == "var":
        return f"{p}var {n}: i64 = " + (f"{d['e'][0]['x']} as i64;" if d["init"] == "lit" else f"{total(d['e'])};")
    if k == "con":
        return f"{p}const {n} = ({d['x']} as i64);"
    if k == "enum":
        return f"{p}enum {n} {{ A, B = {d['x']} }}"
    if k == "gen":
        return f"{p}func {n}[T](x: T): i64 {{ println(<i64>({d['id']})); return {total(d['e'])} + {d['id']} + <i64>(x) }}"
    if k == "cls" and d["base"]:
        b = d["base"][0]
        return f"{p}class {n}: {b['n'] if b['k'] == 'loc' else b['a'] + '.' + b['n']} {{ func `init`(x: i64) {{ super(x) }} }}"
    if k == "cls":
        return (f"{p}class {n} {{ x: i64; func `init`(x: i64) {{ this.x = x }} "
                f"func m(): i64 {{ println(<i64>({d['id']})); return {total(d['e'])} + {d['id']} + x }} }}")
    return f"{p}struct {n} {{ x: i64; func m(): i64 {{ return this.x + {d['x']} }} }}"


def text(W, i, path):
    m, out = W[i], []
    if m["name"] and i < len(W) - 1:
        out.append(f"module {m['name']}")
    for p in m["imps"]:
        f = '"' + ("./nowhere.cxy" if not p["m"] else path(i, p["m"] - 1)) + '"'
        es = ", ".join(e["n"] if e["a"] == e["n"] else f"{e['n']} as {e['a']}" for e in p["es"])
        out.append({"mod": f"import {f}", "as": f"import {f} as {p['a']}", "names": f"import {{ {es} }} from {f}"}[p["f"]])
    out += [decl(d) for d in m["ds"]]
    if i == len(W) - 1:
        out.append("func main() {")
        for s in m["body"]:
            out.append(f"  println({total(s['e'])});" if s["k"] == "ev" else f"  {term(s['v'])} = {total(s['e'])};")
        out.append("}")
    return "\n".join(out) + "\n"


class Mods:
    def __init__(self, r):
        self.r, self.rate, self.id = r, r.choice([0, 0, 0.3, 1]), 0

    def wrong(self, p):
        return self.r.random() < p * self.rate

    def program(self):
        r = self.r
        n = r.randint(2, 6)
        W = []
        for i in range(n):
            m = {"name": "" if self.wrong(0.03) else f"mo{i}", "imps": [], "ds": [], "body": []}
            if i == n - 1:
                m["name"] = "main"
            W.append(m)
            names = {}           # what a name stands for here: (file, declaration or None)
            before = list(range(i))
            for _ in range(r.randint(1, 4) if i == n - 1 else r.randint(0, 3)):
                if not before:
                    break
                j = r.choice(before) if not self.wrong(0.06) else r.choice(range(n - 1))
                form = r.choice(["mod", "as", "names", "names"])
                p = {"m": j + 1 if not self.wrong(0.02) else 0, "f": form, "a": "", "es": []}
                if form == "as":
                    p["a"] = f"q{r.randint(0, 9)}" if not self.wrong(0.1) else r.choice([f"mo{j}", f"va{i}0", f"fn{i}0"])
                if form == "names":
                    ds = W[j]["ds"] if j < len(W) else []
                    ds = [d for d in ds if d["pub"] or self.wrong(0.1)]
                    for d in r.sample(ds, min(len(ds), r.randint(1, 3))):
                        p["es"].append({"n": d["n"], "a": d["n"] if r.random() < 0.5 else f"x{r.randint(0, 30)}" if not self.wrong(0.1) else r.choice([f"fn{i}0", f"va{i}0"])})
                    if self.wrong(0.04):
                        p["es"].append({"n": r.choice(["zz", f"mo{j}", "fn00"]), "a": "zz"})
                    if not p["es"]:
                        continue
                given = [p["a"]] if form == "as" else [W[j]["name"] if j < len(W) else "mo"] if form == "mod" else [e["a"] for e in p["es"]]
                if not self.wrong(0.3) and (len(set(given)) < len(given) or set(given) & set(names)):
                    continue
                m["imps"].append(p)
                for k, g in enumerate(given):
                    names[g] = (j, p["es"][k]["n"] if form == "names" else None)
            self.declare(W, i, names)
        return W

    def declare(self, W, i, names):
        r, m = self.r, W[i]
        kinds = [r.choice(["fun", "fun", "var", "var", "con", "enum", "st", "gen", "cls", "cls"]) for _ in range(r.randint(1, 5))]
        # a variable that is made when the module comes to life sees the variables before it
        for q, k in enumerate(kinds):
            n = {"fun": "fn", "var": "va", "con": "co", "enum": "En", "st": "St", "gen": "ge", "cls": "Cl"}[k]
            n += f"0{q}" if r.random() < 0.4 and n + f"0{q}" not in names else f"{i}{q}"     # modules have the same names for different things
            if q and self.wrong(0.04):
                n = m["ds"][-1]["n"]
            elif names and self.wrong(0.03):
                n = r.choice(list(names))
            d = {"k": k, "n": n, "pub": r.random() < 0.75, "id": 0, "bump": "", "e": [], "x": r.randint(1, 9), "init": "", "base": []}
            if k == "fun":
                self.id += 1
                d["id"] = 100 + self.id
                own = [x["n"] for x in m["ds"] if x["k"] == "var"]
                d["bump"] = r.choice(own) if own and r.random() < 0.5 else ""
                d["e"] = self.sum(W, i, names)
            elif k == "gen":          # (what is wrong in a generic function need not be noticed)
                self.id, rate = self.id + 1, self.rate
                d["id"], self.rate = 100 + self.id, 0
                d["e"] = self.sum(W, i, names)
                self.rate = rate
            elif k == "cls":
                bases = [t for t in self.terms(W, i, names) if t["w"] == "cls"]
                self.id += 1
                d["id"] = 100 + self.id
                if bases and r.random() < 0.5:
                    d["base"] = [dict(r.choice(bases))]
                    if self.wrong(0.05):
                        d["base"][0]["n"] = r.choice(["zz", "fn00", "va00", "Cl00"])
                else:
                    d["e"] = self.sum(W, i, names)
            elif k == "var":
                d["init"] = r.choice(["lit", "run"])
                d["e"] = [{"k": "n", "x": r.randint(0, 9)}] if d["init"] == "lit" else self.sum(W, i, names)
            m["ds"].append(d)
        if i == len(W) - 1 and m["name"] == "main":
            for _ in range(r.randint(2, 6)):
                vs = [t for t in self.terms(W, i, names) if t["w"] == "var"]
                if vs and r.random() < 0.35:
                    m["body"].append({"k": "asg", "v": r.choice(vs), "e": self.sum(W, i, names)})
                else:
                    m["body"].append({"k": "ev", "e": self.sum(W, i, names)})

    def terms(self, W, i, names):
        r, out = self.r, []
        for d in W[i]["ds"]:
            out.append({"k": "loc", "n": d["n"], "w": d["k"]})
        for g, (j, n) in names.items():
            ds = W[j]["ds"] if j < len(W) else []
            for d in ds:
                if n == d["n"]:
                    out.append({"k": "loc", "n": g, "w": d["k"]})
                elif n is None and (d["pub"] or self.wrong(0.05)):
                    out.append({"k": "mem", "a": g, "n": d["n"], "w": d["k"]})
        return out

    def sum(self, W, i, names):
        r = self.r
        ts = self.terms(W, i, names)
        out = [dict(r.choice(ts)) for _ in range(r.choice([0, 1, 1, 2])) if ts]
        for t in out:
            if t["w"] == "gen":
                t["ty"] = r.choice(["i64", "i32", "i8", "u16"])
            if self.wrong(0.03):
                if t["k"] == "loc":
                    t["n"] = r.choice(["zz", "fn00", "va00", "mo0"] + list(names))
                else:
                    t[r.choice("an")] = r.choice(["zz", "mo0", "fn00", "va00"])
        return out + ([{"k": "n", "x": r.randint(1, 5)}] if r.random() < 0.3 else [])


def gen(r):
    W = Mods(r).program()
    deep = [r.random() < 0.3 for _ in W[:-1]] + [False]          # files of a subdirectory
    base = [f"m{i}" for i in range(len(W) - 1)] + ["p"]
    for i in range(len(W) - 1):          # two files of one name
        if deep[i] and r.random() < 0.3:
            up = [base[j] for j in range(len(W)) if not deep[j]]
            base[i] = r.choice([b for b in up if not any(deep[j] and base[j] == b for j in range(len(W)))] or [base[i]])

    def file(i):
        return ("sub/" if deep[i] else "") + base[i] + ".cxy"

    def path(a, b):
        if deep[a]:
            return "./" + (file(b)[4:] if deep[b] else "../" + file(b))
        return "./" + file(b)

    return W, {file(i): text(W, i, path) for i in range(len(W))}
