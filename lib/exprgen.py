"""Random integer/boolean expressions over all integer types, with values known, so that nothing undefined happens."""
from langgen import *


def wrap(v, t):
    v &= (1 << BITS[t]) - 1
    return v - (1 << BITS[t]) if t[0] == "i" and v >> (BITS[t] - 1) else v


def fits(v, t):
    return wrap(v, t) == v


class Undefined(Exception):
    pass


def tdiv(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


def arith(op, t, w, a, b):
    """Value of a op b in type t, or Undefined (same rules as ArithOk/Arith of specs/Lang.tla)."""
    if op in "/%":
        if b == 0:
            raise Undefined
        r = tdiv(a, b)
        if not fits(r, t):
            raise Undefined
        return r if op == "/" else a - b * r
    if op == "+":
        r = a + b
    elif op == "-":
        r = a - b
    elif op == "*":
        r = a * b
    elif op == "&":
        r = a & b
    elif op == "|":
        r = a | b
    elif op == "^":
        r = a ^ b
    elif op == "<<":
        if a < 0 or not 0 <= b < BITS[w]:
            raise Undefined
        r = a << b
        if not fits(r, w):
            raise Undefined
    elif op == ">>":
        if not 0 <= b < BITS[w]:
            raise Undefined
        r = a >> b
    if not fits(r, t):
        raise Undefined
    return r


def ev(e, env):
    k = e["k"]
    if k == "lit":
        return e["v"]
    if k == "bool":
        return e["v"]
    if k == "var":
        return env[e["n"]]
    if k == "grp":
        return ev(e["e"], env)
    if k == "neg":
        r = -ev(e["e"], env)
        if not fits(r, e["t"]):
            raise Undefined
        return r
    if k == "cpl":
        return wrap(~ev(e["e"], env), e["t"])
    if k == "not":
        return not ev(e["e"], env)
    if k == "cast":
        return wrap(int(ev(e["e"], env)), e["t"])
    if k == "and":
        return ev(e["l"], env) and ev(e["r"], env)
    if k == "or":
        return ev(e["l"], env) or ev(e["r"], env)
    if k == "tern":
        return ev(e["a"] if ev(e["c"], env) else e["b"], env)
    if k == "bin":
        a, b = ev(e["l"], env), ev(e["r"], env)
        op = e["op"]
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return {"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
        return arith(op, e["t"], e["w"], a, b)
    if k == "inc":
        old = env[e["n"]]
        new = old + e["d"]
        if not fits(new, e["t"]):
            raise Undefined
        env[e["n"]] = new
        return new if e["pre"] else old
    raise KeyError(k)


def interesting(r, t):
    n = BITS[t]
    lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if t[0] == "i" else (0, (1 << n) - 1)
    p = r.random()
    if p < 0.25:
        v = r.choice([lo, hi, lo + 1, hi - 1, 0, 1, -1, 2, hi // 2, hi // 2 + 1])
    elif p < 0.6:
        v = r.randint(-20, 40)
    elif p < 0.8:
        v = r.choice([1, 3, 5]) << r.randint(0, n - 1)
        v += r.randint(-1, 1)
    else:
        v = r.randint(lo, hi)
    return v if lo <= v <= hi else abs(v) & hi


class Expr:
    def __init__(self, rng, types=INTS, vars=None, pure=True):
        self.r, self.types = rng, types
        self.vars = vars or []        # (name, type)
        self.pure = pure

    def leaf(self, t):
        vs = [n for n, ty in self.vars if ty == t]
        if vs and self.r.random() < 0.65:
            return var(self.r.choice(vs), t)
        if t == "bool":
            return {"k": "bool", "v": self.r.random() < 0.5, "t": "bool"}
        v = interesting(self.r, t)
        return lit(v, t, self.r.choice([0, 0, 1, 2]) if v >= 0 else self.r.choice([0, 1]))

    def like(self, t):
        """Types that mix with t (same signedness, not wider) and leave the result a t."""
        return [u for u in self.types if u[0] == t[0] and BITS[u] <= BITS[t]]

    def gen(self, t, d):
        r = self.r
        if t == "bool":
            return self.boolean(d)
        p = r.random()
        if d == 0 or p < 0.08:
            return self.leaf(t)
        if p < 0.62:
            op = r.choice(["+", "-", "*", "/", "%", "&", "|", "^", "+", "-", "<<", ">>", "<<", ">>"])
            if op in ("<<", ">>"):
                l = self.gen(t, d - 1)
                n = lit(r.randint(0, BITS[t] - 1), t, r.choice([0, 1])) if r.random() < 0.7 else self.gen(t, d - 1)
                return {"k": "bin", "op": op, "l": l, "r": n, "t": t, "w": t}
            u = r.choice(self.like(t))
            l, rr = self.gen(t, d - 1), self.gen(u, d - 1)
            if r.random() < 0.5:
                l, rr = rr, l
            return {"k": "bin", "op": op, "l": l, "r": rr, "t": t, "w": l["t"]}
        if p < 0.70 and t[0] == "i":
            return {"k": "neg", "e": self.gen(t, d - 1), "t": t}
        if p < 0.76 and (t[0] == "i" or BITS[t] >= 32):
            return {"k": "cpl", "e": self.gen(t, d - 1), "t": t}
        if p < 0.88:
            f = r.choice(self.types + ["bool"])
            return dict(cast(self.gen(f, d - 1), t, r.choice([0, 0, 1])), f=f)
        if p < 0.95:
            return {"k": "tern", "c": self.boolean(d - 1), "a": self.gen(t, d - 1), "b": self.gen(t, d - 1), "t": t}
        return grp(self.gen(t, d - 1))

    def boolean(self, d):
        r = self.r
        p = r.random()
        if d == 0 or p < 0.08:
            return self.leaf("bool")
        if p < 0.55:
            t = r.choice(self.types)
            u = r.choice(self.like(t))
            l, rr = self.gen(t, d - 1), self.gen(u, d - 1)
            if r.random() < 0.5:
                l, rr = rr, l
            return {"k": "bin", "op": r.choice(["<", ">", "<=", ">=", "==", "!="]), "l": l, "r": rr, "t": t, "w": l["t"]}
        if p < 0.68:
            return {"k": "not", "e": self.boolean(d - 1), "t": "bool"}
        if p < 0.78:
            return {"k": "bin", "op": r.choice(["==", "!="]), "l": self.boolean(d - 1), "r": self.boolean(d - 1), "t": "bool", "w": "bool"}
        return {"k": r.choice(["and", "or"]), "l": self.boolean(d - 1), "r": self.boolean(d - 1), "t": "bool"}
