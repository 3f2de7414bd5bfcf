"""C08: the event loop (ae.c) against EventLoop.tla: scripts of watches, timers, rounds and what the called functions do,
run against the real loop with a clock of its own, judged by TLC."""
import json, os

from vf import judge, REPO, CheckError


def build(c):
    d = c.scratch("loop")
    exe = os.path.join(d, "loop")
    src = os.path.join(REPO, "src/cxy/stdlib/native/evloop")
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    p = c.run(["gcc", "-g", "-O1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-I" + src, "-o", exe,
               os.path.join(here, "drivers/loop.c"), os.path.join(src, "ae.c")] +
              ["-Wl,--wrap=" + x for x in ("gettimeofday", "time", "clock_gettime", "epoll_wait", "poll")], timeout=200)
    if p.returncode:
        raise CheckError("driver: " + p.stderr.decode("latin-1")[-2000:])
    return exe


def run_hist(c, exe, h):
    d = c.scratch("run")
    a, b = os.path.join(d, "in"), os.path.join(d, "out")
    with open(a, "w") as f:
        f.write("\n".join(h) + "\n")
    env = c.env()
    env["ASAN_OPTIONS"] = "detect_leaks=0:max_malloc_fill_size=1000000:malloc_fill_byte=190"
    p = c.run([exe, a, b], timeout=30, env=env)
    recs = []
    for l in open(b, errors="replace") if os.path.exists(b) else []:
        try:
            recs.append(json.loads(l))
        except ValueError:
            break
    if p.returncode:
        recs.append({"op": "crash", "rc": p.returncode, "err": p.stderr.decode("latin-1")[-300:]})
    elif not recs or recs[-1]["op"] != "exit":
        recs.append({"op": "unfinished"})
    return recs


class Gen:
    def __init__(self, rng, nf, nbeh):
        self.rng, self.nf, self.nbeh = rng, nf, nbeh
        self.ntm = 0

    def mask(self, bar=True):
        return self.rng.choice([1, 1, 1, 2, 2, 3, 3] + ([10, 11] if bar else []))

    def fd(self, me):
        return "@" if me and self.rng.random() < 0.5 else str(self.rng.randrange(self.nf))

    def timeout(self):
        r = self.rng
        return 0 if r.random() < 0.45 else r.choice([1, 5, 10, 10, 20, 50, 100, 999, 1000, 1500, 5000])

    def watch(self, me):
        r = self.rng
        return f"watch {self.fd(me)} {self.mask()} {r.randrange(2)} {r.randrange(self.nbeh)} {self.timeout()}"

    def timer(self):
        r = self.rng
        self.ntm += 1
        return f"timer {r.choice([0, 1, 5, 10, 10, 20, 50, 100, 1000, 2500])} {r.randrange(self.nbeh)} {r.choice([1, 1, 2, 3])} {r.choice([0, 1, 10, 30, 1000])}"

    def act(self, me=True):
        r = self.rng
        p = r.random()
        f = self.fd(me)
        if p < 0.16:
            return f"eat {f}"
        if p < 0.26:
            return f"feed {f}"
        if p < 0.30:
            return f"fill {f}"
        if p < 0.34:
            return f"drain {f}"
        if p < 0.52:
            return self.watch(me)
        if p < 0.70:
            return f"unwatch {f} {r.choice([1, 2, 3, 3])}"
        if p < 0.80:
            return self.timer()
        if p < 0.88:
            return f"untimer {r.randrange(max(1, self.ntm + 1))}"
        if p < 0.92:
            return f"adv {r.choice([1, 3, 10, 40])}"
        if p < 0.94:
            return f"close {f};{self.open(f)}" if f != "@" else "eat @"
        return f"get {f}"

    def open(self, f):
        return f"{self.rng.choice(['sock', 'sock', 'pipeR', 'pipeW'])} {f}"

    def top(self):
        r = self.rng
        p = r.random()
        if p < 0.4:
            fl = r.choice([3, 3, 3, 3, 3, 11, 7, 1, 2, 15])
            return f"process {fl} {r.choice([-1, -1, 0, 0, 5, 20, 1000])}"
        if p < 0.42:
            return "main"
        if p < 0.46:
            return f"hup {r.randrange(self.nf)}"
        if p < 0.475:
            return f"back {r.choice([1, 10, 1000, 3000, 100000])}"
        if p < 0.5:
            return f"await {r.randrange(self.nf)} {self.mask(False)} {r.choice([0, 10])}"
        if p < 0.56:
            return f"adv {r.choice([1, 10, 50, 1000])}"
        return self.act(False)

    def hist(self, nops):
        r = self.rng
        out = []
        for k in range(self.nbeh):
            n = r.choice([0, 1, 1, 2, 2, 3])
            out.append("beh " + ";".join(self.act() for _ in range(n)))
        out.append(f"loop {r.choice([64, 64, 64, 8, 9, 10])} {10**6 + r.randrange(3000)}")
        out += [self.open(f) for f in range(self.nf)]
        for _ in range(nops):
            out += self.top().split(";")
        out += ["process 3 0", "adv 10000", "process 3 0", "process 3 0"]
        return out


def check(c):
    c.model_check("LoopMC", "LoopMC5" if c.thorough else "LoopMC", timeout=c.pick(800, 4000))
    exe = build(c)
    hs = []
    for _ in range(c.pick(1500, 20000)):
        nf = c.rng.choice([1, 2, 2, 3, 3, 5])
        hs.append(Gen(c.rng, nf, c.rng.choice([2, 4, 6])).hist(c.rng.randint(5, 50)))
    judge(c, "LoopTrace", hs, lambda h: run_hist(c, exe, h), label="event loop", keyfn=lambda h, recs, k: recs[k]["op"])
