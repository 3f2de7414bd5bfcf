"""C07: coroutines (coro.cxy over ae.c) against Coroutines.tla: one program that interprets scripts, compiled by the real
compiler with the real library and a clock of its own; what its coroutines do is judged by TLC."""
import json, os

from vf import judge, VERIF, CheckError


def build(c):
    files = {n: open(os.path.join(VERIF, "drivers", n)).read() for n in ("coro.cxy", "corosup.c")}
    exe, out, d = c.compile(files, "coro.cxy", name="coro")
    if not exe:
        raise CheckError("coroutine program does not compile:\n" + out[-2000:])
    return exe


def run_hist(c, exe, h):
    d = c.scratch("run")
    a, b = os.path.join(d, "in"), os.path.join(d, "out")
    with open(a, "w") as f:
        f.write("\n".join(h) + "\n")
    p = c.run([exe], timeout=30, env=c.env(extra={"VF_IN": a, "VF_OUT": b}))
    recs = []
    for l in open(b, errors="replace") if os.path.exists(b) else []:
        try:
            recs.append(json.loads(l))
        except ValueError:
            break
    if p.returncode:
        recs.append({"op": "crash", "rc": p.returncode, "err": p.stderr.decode("latin-1")[-300:]})
    elif not recs or recs[-1]["op"] not in ("exit", "stuck"):
        recs.append({"op": "unfinished"})
    return recs


def script(rng, c, kids, n, mix):
    out = [f"= {c}"]
    held = []
    kids = [(rng.randrange(n + 1), k) for k in kids]
    for i in range(n + 1):
        for at, k in kids:
            if at == i:
                out.append(f"{rng.choice([3, 3, 10])} {k}")
        if i == n:
            break
        p = rng.random()
        if p < mix["yield"]:
            out.append("1")
        elif p < 0.45:
            out.append(f"2 {rng.choice([0, 1, 2, 5, 5, 10, 10, 20, 50, 1000, -1])}")
        elif p < 0.6:
            if held and rng.random() < 0.6:
                out.append(f"5 {held.pop()}")
            else:
                k = rng.randrange(2)
                if k not in held or rng.random() < 0.02:
                    out.append(f"4 {k}")
                    held.append(k)
        elif p < 0.64:
            out.append(f"6 {rng.randrange(2)}" if mix["try"] else "11")
        elif p < 0.78:
            out.append(f"7 {rng.randrange(6)} {rng.choice([0, 0, 1])} {rng.choice([0, 0, 5, 10, 30])}")
        elif p < 0.92:
            q = rng.random()
            out.append(f"8 5 {rng.choice([1, 2, 5, 20, 100])}" if q < 0.3 else
                       f"8 6 {rng.randrange(6)}" if q < 0.33 else f"8 {rng.choice([1, 1, 2, 2, 3, 4])} {rng.randrange(6)}")
        elif p < 0.96:
            out.append(f"9 {rng.choice([0, 1, 3, 10])}")
        else:
            out.append("11")
    return out + [f"5 {k}" for k in held]


def gen(rng, ncos, maxops):
    par = {}
    for k in range(1, ncos):
        par.setdefault(rng.randrange(k) if rng.random() < 0.5 else 0, []).append(k)
    mix = {"yield": rng.choice([0.1, 0.3, 0.3]), "try": rng.random() < 0.2}
    out = []
    for k in range(ncos):
        out += script(rng, k, par.get(k, []), rng.randint(0, maxops), mix)
        if k == 0 and rng.random() < 0.9:
            out.append("2 100000")
    return out


def busy(rng):
    """Coroutines that only yield while others wait: the event loop must still be asked."""
    out = ["= 0"] + [f"3 {k}" for k in range(1, 4)] + ["2 20", "1", "2 100000"]
    for k in (1, 2):
        out += [f"= {k}"]
        for _ in range(rng.randint(100, 400)):
            out.append("1" if rng.random() < 0.97 else "8 5 1")
    return out + ["= 3", "8 1 0", "7 0 0 0", "2 5", "7 1 1 0"]


def many(rng, n):
    """More coroutines than stacks are kept for, in two waves."""
    out = ["= 0"] + [f"3 {k}" for k in range(1, n)] + ["2 50"] + [f"3 {k}" for k in range(n, 2 * n)] + ["2 1000"]
    for k in range(1, 2 * n):
        out += [f"= {k}"] + [rng.choice(["1", "2 5", "9 3", "4 0", "5 0"]) for _ in range(rng.randint(0, 4))]
    return out


def check(c):
    c.model_check("CoroMC", "CoroMCBig" if c.thorough else "CoroMC", timeout=c.pick(800, 4000))
    exe = build(c)
    rng, hs = c.rng, []
    for _ in range(c.pick(1200, 20000)):
        hs.append(gen(rng, rng.choice([1, 2, 3, 3, 5, 8, 20]), rng.choice([4, 8, 15])))
    hs += [busy(rng) for _ in range(c.pick(8, 60))]
    hs += [many(rng, rng.randint(30, 60)) for _ in range(c.pick(6, 60))]
    judge(c, "CoroTrace", hs, lambda h: run_hist(c, exe, h), label="coroutines", keyfn=lambda h, recs, k: recs[k]["op"])
