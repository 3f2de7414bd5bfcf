"""C30: test cases against Tests.tla: files with generated cases are given to `cxy test'; TLC judges which cases ran, in which order, what
they printed, which failed, and what was said of them all."""
import os, shutil

from vf import judge, REPO
import testgen


def run_program(c, prog):
    W, files = prog
    d = c.scratch("tests")
    for f, t in files.items():
        open(os.path.join(d, f), "w").write(t)
    try:
        p = c.cxy(["test", "--no-progress", "--no-color", "--stdlib", os.path.join(REPO, "src/cxy"), "--with-mm", "p.cxy"], d)
        r = testgen.read(p.stdout.decode("utf-8", "replace"))
        if r is None or p.returncode < 0:
            return [{"op": "odd", "rc": p.returncode, "files": files, "out": (p.stdout + p.stderr).decode("utf-8", "replace")[-1500:]}]
        return [{"op": "tests", "w": W, "log": r[0], "said": r[1], "none": r[2], "fine": p.returncode == 0}]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(c):
    rng = c.rng
    progs = [testgen.gen(rng) for _ in range(c.pick(400, 5000))]
    c.build()
    c.model_check("TestMC", "TestMC7" if c.thorough else "TestMC", timeout=c.pick(300, 1500))
    judge(c, "TestTrace", progs, lambda p: run_program(c, p), label="test cases", keyfn=lambda h, recs, k: "file", max_viol=3)
