"""C25: what the compiler refuses, and where, against Statics.tla: generated programs go through the real compiler's checker; TLC
judges what it said about every function."""
import json, os, re, shutil

from vf import judge, REPO, CheckError
import statgen


def compile_(c, world, fs):
    """[(line, ...) per function] and whether the compiler got to its end."""
    d = c.scratch("st")
    lines, where = list(world), {}
    for i, f in enumerate(fs):
        for l, t in statgen.functext(f):
            lines.append(t)
            where[len(lines)] = (i, l)
    lines.append("func main() { }")
    open(os.path.join(d, "p.cxy"), "w").write("\n".join(lines) + "\n")
    p = c.cxy(["dev", "--last-stage=TypeCheck", "--max-errors", "1000", "--no-progress", "--no-color", "--stdlib", os.path.join(REPO, "src/cxy"), "p.cxy"], d)
    out = (p.stdout + p.stderr).decode("utf-8", "replace")
    shutil.rmtree(d, ignore_errors=True)
    got = [[] for _ in fs]
    stray = []
    for m in re.finditer(r"error: (.*)\n\s+in \S*p\.cxy:(\d+):", out, re.M):
        if m.group(1).startswith("found declaration with"):
            continue
        i, l = where.get(int(m.group(2)), (None, 0))
        if i is None:
            stray.append(m.group(0))
        elif l not in got[i]:
            got[i].append(l)
    return p.returncode, got, stray, out


def run_program(c, prog):
    w, text, fs = prog
    rc, got, stray, out = compile_(c, text, fs)
    if rc in (0, 1):
        if stray or (rc == 1) != any(got):
            return [{"op": "odd", "rc": rc, "out": out[-600:]}]
        res = [{"errs": sorted(g), "crash": False} for g in got]
    else:
        res = []
        for f in fs:
            rc, got, stray, out = compile_(c, text, [f])
            if stray:
                return [{"op": "odd", "rc": rc, "out": out[-600:]}]
            res.append({"errs": sorted(got[0]), "crash": rc not in (0, 1)})
    return [{"op": "program", "w": w, "fs": fs, "got": res}]


def gen(rng, nf, names):
    w = statgen.World(rng)
    g = statgen.Gen(w, rng, names)
    fs = [g.deduced(f"t{i}") if i % 12 == 11 and not names else g.func(f"t{i}") for i in range(nf)]
    return (w.json(), w.text(), fs)


def check(c):
    rng = c.rng
    progs = [gen(rng, 12, i % 6 == 0) for i in range(c.pick(600, 9000))]
    c.build()
    c.model_check("StaticMC", "StaticMC3" if c.thorough else "StaticMC", timeout=c.pick(600, 3000))
    judge(c, "StaticTrace", progs, lambda p: run_program(c, p), label="static rules", keyfn=lambda h, recs, k: "line", max_viol=3)
