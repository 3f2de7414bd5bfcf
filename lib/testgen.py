"""Files with test cases for Tests.tla, and what `cxy test' says of them."""
import re

WORDS = ["one", "two", "three", "A[T].push", "it works", "", "tests", "100%", "x", "Running test case"]


class Tests:
    def __init__(self, r):
        self.r = r

    def op(self):
        return self.r.choice(["==", "!=", "<", ">="])

    def num(self):
        return self.r.choice([self.r.randint(0, 9), self.r.randint(0, 60)])

    def stmts(self, n, depth):
        r, out = self.r, []
        for _ in range(n):
            k = r.choice(["p", "pv", "set", "ok", "ok", "call", "call", "try", "defer", "if", "loop"])
            if k == "defer" and depth or k in ("if", "loop") and depth > 1:
                k = "ok"
            s = {"k": k, "x": self.num()}
            if k in ("pv", "set", "ok", "if"):
                s["v"] = r.randint(1, self.nv)
            if k in ("ok", "if"):
                s["o"] = self.op()
                if r.random() < 0.7 and k == "ok":
                    s["o"], s["x"] = ("<", r.randint(20, 90)) if r.random() < 0.8 else (">=", r.randint(0, 3))
            if k in ("call", "try"):
                s["f"] = r.randint(1, self.nf)
                s["x"] = r.randint(0, 9)
            if k == "try":
                s["d"] = self.num()
            if k in ("if", "loop"):
                s["ss"] = self.stmts(r.randint(1, 3), depth + 1)
            if k == "loop":
                s["x"] = r.randint(0, 3)
            out.append(s)
        return out

    def program(self):
        r = self.r
        self.nv, self.nf = r.randint(1, 3), r.randint(1, 3)
        return {"vars": [r.randint(0, 9) for _ in range(self.nv)], "main": r.random() < 0.3,
                "fns": [{"v": r.randint(1, self.nv), "lim": r.choice([4, 6, 8, 9]), "ok": r.random() < 0.4} for _ in range(self.nf)],
                "tests": [{"name": r.choice(WORDS) + r.choice(["", f" {r.randint(0, 99)}"]), "ss": self.stmts(r.randint(1, 6), 0)}
                          for _ in range(r.choice([0, 1, 2, 3, 4, 5, 6, 9]))]}


def text(ss, ind="  "):
    out = []
    for s in ss:
        k = s["k"]
        out.append(ind + {
            "p": "println(({x} as i64));", "pv": "println(g{v});", "set": "g{v} = g{v} + {x};", "ok": "ok!(g{v} {o} {x});", "call": "println(f{f}({x} as i64));",
            "try": "println(f{f}({x} as i64) catch ({d} as i64));", "defer": "defer println(({x} as i64));", "if": "if (g{v} {o} {x}) {{",
            "loop": "for (const _i{n}: 0..{x}) {{"}[k].format(n=len(ind), **s))
        if k in ("if", "loop"):
            out += text(s["ss"], ind + "  ") + [ind + "}"]
    return out


def gen(r):
    W = Tests(r).program()
    head, mod = [], None
    if r.random() < 0.5:
        head.append("module tm")
    if r.random() < 0.5:                       # the cases of other files are not run
        mod = 'module tother\npub func other(): i64 { return 3 as i64 }\n\ntest "of the module" {\n  println((7777 as i64));\n  ok!(other() == 4);\n}\n'
        head.append('import { other } from "./other.cxy"')
    items = [f"var g{i + 1}: i64 = {x} as i64;" for i, x in enumerate(W["vars"])] + ["exception Bad(x: i64) => \"bad\""]
    for i, f in enumerate(W["fns"]):
        b = f"ok!(x <= {f['lim']});" if f["ok"] else f"if (x > {f['lim']}) {{ raise Bad(x); }}"
        items.append(f"func f{i + 1}(x: i64): !i64 {{ g{f['v']} = g{f['v']} + 1; {b} return x + g{f['v']} }}")
    ts = ["test \"" + t["name"] + ">\" {\n" + "\n".join(text(t["ss"])) + "\n}" for t in W["tests"]]
    if W["main"]:
        ts.insert(r.randint(0, len(ts)), "func main() {\n  println((8888 as i64));\n}")
    files = {"p.cxy": "\n".join(head + items + ts) + "\n"}
    if mod:
        files["other.cxy"] = mod
    return W, files


def read(out):
    """(log, said, none) of the report, or None if it is none."""
    s = re.sub(r"\x1b\[[0-9;]*m", "", out)
    s = s[s.index("Compilation success") + len("Compilation success"):].lstrip("\n") if "Compilation success" in s else s
    m = re.match(r"0 tests defined in .*\n", s)
    log, said, none = [], [], bool(m)
    if not m:
        m = re.match(r"Running .* tests\.\.\.\n", s)
        if not m:
            return None
    s, cur = s[m.end():], None
    while s:
        m = re.match(r"  Running test case (.*?)>", s)
        if m and cur is None:
            cur, s = [m[1], [], ""], s[m.end():]
            continue
        m = re.match(r"(-?\d+)\n", s)
        if m and cur:
            cur[1].append(int(m[1]))
            s = s[m.end():]
            continue
        m = re.match(r"\r +\r  (?:(\u2713) (.*?)>|\u2718 (.*?)> (\w+)\(\"[^\n]*?\"\) at:)\n", s)
        if m and cur and (m[2] if m[1] else m[3]) == cur[0]:
            cur[2] = "" if m[1] else m[4]
            log.append(cur)
            cur, s = None, s[m.end():]
            if not m[1]:
                s = re.sub(r"\A(?: {4}[^\n]*\n)+", "", s)
            continue
        m = re.match(r"\u2718 FAILED - (\d+)/(\d+) tests failed!\n", s)
        if m and cur is None:
            said = said + [int(m[1]), int(m[2])]
            s = s[m.end():]
            continue
        if cur is None and re.match(r"\s*memory: .*\n\s*duration: .*\s*\Z", s):
            break
        return None
    return log, said, none
