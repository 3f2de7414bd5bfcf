"""C29: programs of several modules against Modules.tla: generated ones, right and wrong, are compiled and run; TLC judges which are
refused and what the others print."""
import os, shutil

from vf import judge, REPO
import modgen


def run_program(c, prog):
    W, files = prog
    d = c.scratch("mods")
    os.makedirs(os.path.join(d, "sub"), exist_ok=True)
    for f, t in files.items():
        open(os.path.join(d, f), "w").write(t)
    p = c.cxy(["build", "--no-progress", "--no-color", "--stdlib", os.path.join(REPO, "src/cxy"), "p.cxy"], d)
    out = (p.stdout + p.stderr).decode("utf-8", "replace")
    exe = os.path.join(d, "app")
    try:
        if p.returncode == 1 and "error:" in out and not os.path.exists(exe):
            return [{"op": "modules", "w": W, "refused": True, "out": [], "why": out[out.index("error:"):][:300]}]
        if p.returncode == 0 and os.path.exists(exe):
            q = c.run([exe], cwd=d, timeout=20)
            ls = q.stdout.decode("utf-8", "replace").split()
            if q.returncode == 0 and all(x.lstrip("-").isdigit() for x in ls):
                return [{"op": "modules", "w": W, "refused": False, "out": [int(x) for x in ls]}]
            return [{"op": "odd run", "rc": q.returncode, "files": files, "out": ls[-20:]}]
        return [{"op": "odd", "rc": p.returncode, "files": files, "out": out[-800:]}]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(c):
    rng = c.rng
    progs = [modgen.gen(rng) for _ in range(c.pick(500, 6000))]
    c.build()
    c.model_check("ModMC", "ModMC4" if c.thorough else "ModMC", timeout=c.pick(300, 1500))
    judge(c, "ModTrace", progs, lambda p: run_program(c, p), label="modules", keyfn=lambda h, recs, k: "program", max_viol=3)
