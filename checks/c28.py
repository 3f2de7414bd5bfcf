"""C28: which declarations the compiler refuses, against Decls.tla: generated programs of declarations, right and wrong, go through
the real compiler's checker; TLC judges in which of them it reported errors."""
import os, re, shutil

from vf import judge, REPO
import declgen


def run_program(c, prog):
    ds, lines = prog
    d = c.scratch("dc")
    open(os.path.join(d, "p.cxy"), "w").write("\n".join(lines) + "\n")
    p = c.cxy(["dev", "--last-stage=TypeCheck", "--max-errors", "1000", "--no-progress", "--no-color", "--stdlib", os.path.join(REPO, "src/cxy"), "p.cxy"], d)
    out = (p.stdout + p.stderr).decode("utf-8", "replace")
    shutil.rmtree(d, ignore_errors=True)
    errs = sorted({int(m.group(1)) for m in re.finditer(r"error: .*\n\s+in \S*p\.cxy:(\d+):", out)})
    if p.returncode not in (0, 1) or (p.returncode == 1) != bool(errs):
        return [{"op": "odd", "rc": p.returncode, "lines": lines, "errs": errs, "out": out[-600:]}]
    return [{"op": "declarations", "ds": ds, "errs": errs}]


def check(c):
    rng = c.rng
    progs = [declgen.gen(rng, i % 3 == 0) for i in range(c.pick(1500, 20000))]
    c.build()
    c.model_check("DeclMC", "DeclMC5" if c.thorough else "DeclMC", timeout=c.pick(300, 1500))
    judge(c, "DeclTrace", progs, lambda p: run_program(c, p), label="declarations", keyfn=lambda h, recs, k: "program", max_viol=3)
