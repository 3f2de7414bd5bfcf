"""Compiling and running generated programs; turning what they do into trace records for LangTrace."""
import json, os
from vf import VERIF
from langgen import HEAD, EXC, Render, limbs


def ev_c():
    return open(os.path.join(VERIF, "drivers", "ev.c")).read()


def fnmap(fns):
    return {f["name"]: {"ps": f["ps"], "body": f["body"]} for f in fns}


def calls(node, acc):
    if isinstance(node, dict):
        if node.get("k") == "call":
            acc.add(node["f"])
        for v in node.values():
            calls(v, acc)
    elif isinstance(node, list):
        for v in node:
            calls(v, acc)
    return acc


def closure(fns, entry):
    by = {f["name"]: f for f in fns}
    todo, seen = [entry], []
    while todo:
        n = todo.pop()
        if n in seen or n not in by:
            continue
        seen.append(n)
        todo += sorted(calls(by[n]["body"], set()))
    return [by[n] for n in seen]


def strip(node):
    """What the specification needs of a tree."""
    if isinstance(node, dict):
        if node.get("k") == "lit":
            return {"k": "lit", "b": node["b"]}
        return {k: strip(v) for k, v in node.items() if k not in ("ls", "style", "discard", "ann", "hasdef", "else")}
    if isinstance(node, list):
        return [strip(v) for v in node]
    return node


def parse_events(path):
    out = []
    if not os.path.exists(path):
        return out
    for line in open(path, errors="replace").read().split("\n"):
        t = line.split(" ")
        if len(t) != 2:
            continue
        try:
            out.append([int(t[0]), limbs(int(t[1]))])
        except ValueError:
            out.append([int(t[0]), [999]])
    return out


def run_case(c, exe, k, timeout=10):
    d = c.scratch("case")
    ev = os.path.join(d, "ev")
    p = c.run([exe], cwd=d, timeout=timeout, env=dict(c.env(), VF_EV=ev, VF_CASE=str(k)))
    out = parse_events(ev)
    end = "ok" if p.returncode == 0 else ("hang" if p.returncode == -99 else f"crash{p.returncode}")
    return out, end, (p.stderr[-300:] + p.stdout[-200:]).decode("latin-1")


def source(fns, cases, globs=(), pre=""):
    """cases: list of (function, args): case k calls it and logs the result as event 0 (9999 for an exception)."""
    R = Render()
    t = HEAD + EXC + pre
    for n, v in globs:
        t += f"var {n}: i32 = {v};\n"
    for f in fns:
        t += R.fn(f)
    by = {f["name"]: f for f in fns}
    t += "func main() {\nconst k = vf_case();\n"
    for k, (f, args) in enumerate(cases):
        a = ", ".join(R.ex(x) for x in args)
        call = f"{f}({a})"
        t += f"if (k == ({k} as i32)) {{\n"
        if by[f]["raises"]:
            t += f"const r = {call} catch {{ vf_evs(9999 as i32, ex!.what()); return; }};\nvf_ev(0 as i32, <i64>r);\n"
        elif by[f]["rt"] == "u64":
            t += f"vf_evu(0 as i32, {call});\n"
        else:
            t += f"vf_ev(0 as i32, <i64>({call}));\n"
        t += "}\n"
    return t + "}\n"


def record(fns, f, args, globs, obs, end, why, fuel=3000):
    """One trace record: the program and what running it showed."""
    v, res = [0] * 8, end
    if end == "ok":
        if obs and obs[-1][0] == 0:
            v = obs[-1][1]
            obs = obs[:-1]
        elif obs and obs[-1][0] == 9999:
            v, res = obs[-1][1], "exc"
            obs = obs[:-1]
        else:
            res = "noresult"
    return {"fns": {x["name"]: {"ps": x["ps"], "body": strip(x["body"])} for x in closure(fns, f)},
            "g": {n: limbs(x) for n, x in globs} or {"_": [0] * 8}, "f": f, "args": [a["b"] for a in args],
            "fuel": fuel, "end": res, "v": v, "out": obs, "why": why if res not in ("ok", "exc") else ""}
