"""C23: histories of the compiler's own containers (src/cxy/core), judged by TLC against specs/CoreTables.tla."""
import glob
from vf import *


def limbs(v):
    return [(v >> (8 * i)) & 255 for i in range(8)]


def hx(s):
    return "-" if s is None else (s.hex() or ".")


def bs(s):
    return [-1] if s is None else list(s)


def build(c):
    d = c.scratch("core")
    exe = os.path.join(d, "core")
    src = sorted(glob.glob(os.path.join(REPO, "src/cxy/core/*.c")))
    gen = os.path.join(d, "gen")      # configured headers, if any source wants them
    os.makedirs(gen, exist_ok=True)
    p = c.run(["gcc", "-g", "-O1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=alignment",
               "-I", os.path.join(REPO, "src/cxy"), "-I", os.path.join(REPO, "src"), "-o", exe, os.path.join(VERIF, "drivers/core.c")] + src +
              ["-Wl,--unresolved-symbols=ignore-all", "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free"], timeout=200)
    if p.returncode:
        raise CheckError("the containers no longer build with the driver:\n" + p.stderr.decode()[-2000:])
    return exe


def run_hist(c, exe, h):
    d = c.scratch("run")
    path = os.path.join(d, "in")
    with open(path, "w") as f:
        f.write("\n".join(x["line"] for x in h) + "\n")
    env = c.env(extra={"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1", "LC_ALL": "C"})
    p = c.run([exe, path], cwd=d, timeout=20, env=env)
    shutil.rmtree(d, ignore_errors=True)
    rows = p.stdout.decode("latin-1").split("\n")[:-1]
    recs = [{"op": "start", "end": "ok", "i": 0, "a": [], "b": [], "out": []}]
    for k, x in enumerate(h):
        r = {"op": x["op"], "i": x["i"], "a": x["a"], "b": x["b"]}
        if k < len(rows):
            r.update(end="ok", out=json.loads(rows[k]))
            recs.append(r)
        else:
            why = re.findall(r"(ERROR: AddressSanitizer[^\n]*|runtime error[^\n]*|SUMMARY[^\n]*)", p.stderr.decode("latin-1"))
            r.update(end="crash" if p.returncode != -99 else "hang", out=[], why="; ".join(why)[:200])
            recs.append(r)
            break
    return recs


def op(name, i=None, *a, b=(), spec=None):
    """One operation: script line, and the arguments as the specification wants them."""
    words = ([str(i)] if i is not None else []) + [str(x) for x in a]
    return {"line": " ".join([name] + words + [hx(s) for s in b]), "op": name, "i": (i or 0) + 1,
            "a": list(a) if spec is None else spec, "b": [bs(s) for s in b]}


def homes(rng, n, kind):
    """Hashes of n keys: spread, few distinct ones, or neighbours."""
    base = rng.randrange(1 << 31)
    if kind == 0:
        return [rng.randrange(1 << 32) for _ in range(n)]
    if kind == 1:
        return [rng.choice([0, 1, 2, 0x7fffffff, 0xffffffff, 0x80000000]) for _ in range(n)]
    if kind == 2:
        return [base + rng.randrange(3) for _ in range(n)]
    if kind == 3:
        return [rng.randrange(12) for _ in range(n)]
    return [base] * n


def gen_map(rng, t, nops, nkeys, cap):
    hs = homes(rng, nkeys, rng.randrange(5))
    out = [op("home", None, k, h, spec=[]) for k, h in enumerate(hs)]
    for x in out:
        x["line"] = x["line"]
    cut = nkeys - 1 if t == "hm" else nkeys
    for i in (0, 1):
        out.append(op(f"{t}.new", i, cap))
    fill = rng.random()
    put, get = ("ht.ins", "ht.find") if t == "ht" else ("hm.put", "hm.get")
    two = rng.random() < 0.2
    for _ in range(nops):
        i = rng.randrange(2) if two else 0
        k = rng.randrange(nkeys)
        p = rng.random()
        if p < 0.02:
            fill = rng.random()
        if p < 0.2 + 0.4 * fill:
            out.append(op(put, i, k, rng.randrange(1000)))
        elif p < 0.8:
            out.append(op(f"{t}.rm", i, k))
        elif p < 0.9:
            out.append(op(get, i, k))
        elif p < 0.96 or t == "hm":
            out.append(op(f"{t}.all", i) if p < 0.995 else op(f"{t}.clear", i))
        elif p < 0.975:
            out.append(op("ht.iter", i))
        elif p < 0.99:
            out.append(op("ht.some", i, rng.randint(1, 4)))
        else:
            out.append(op("ht.clear", i))
    for k in range(nkeys):
        out.append(op(get, 0, k))
    out += [op(f"{t}.all", 0), op(f"{t}.free", 0), op(f"{t}.free", 1), op("held", None)]
    return out


def gen_array(rng, nops):
    out = []
    n = [0, 0]
    for i in (0, 1):
        q = rng.random()
        if q < 0.6:
            out.append(op("da.new", i))
        elif q < 0.8:
            n[i] = rng.randint(1, 9)
            out.append(op("da.sized", i, n[i]))
        else:
            n[i] = 3
            out.append(op("da.from", i, *[rng.randint(-9, 9) for _ in range(3)]))
    for _ in range(nops):
        i = rng.randrange(2)
        p = rng.random()
        if p < 0.45:
            out.append(op("da.push", i, rng.randint(-1000, 1000))); n[i] += 1
        elif p < 0.6:
            out.append(op("da.pop", i)); n[i] = max(0, n[i] - 1)
        elif p < 0.65 and sum(n) < 120:
            out.append(op("da.copy", i)); n[1 - i] += n[i]
        elif n[i] and p < 0.8:
            out.append(op("da.at", i, rng.choice([0, n[i] - 1, rng.randrange(n[i])])))
        elif n[i] and p < 0.9:
            out.append(op("da.set", i, rng.randrange(n[i]), rng.randint(-1000, 1000)))
        elif n[i] and p < 0.94:
            out.append(op("da.back", i))
        else:
            out.append(op("da.all", i))
    return out + [op("da.all", 0), op("da.all", 1), op("da.free", 0), op("da.free", 1), op("held", None)]


def fnv(s, h=0x811c9dc5):
    for b in s:
        h = ((h ^ b) * 0x01000193) & 0xffffffff
    return h


def twins(rng, n):
    """Pairs of strings with equal hashes, the first one the beginning of the second (the hash table has 31 bits of a hash)."""
    inv = pow(0x01000193, -1, 1 << 32)
    abc = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789"
    out = []
    for _ in range(n):
        s = bytes(rng.choice(abc[:53]) for _ in range(rng.randint(1, 5)))
        h = fnv(s)
        fwd = {fnv((a, b, x), h): (a, b, x) for a in abc for b in abc for x in abc}
        for top in (0, 1 << 31):
            for a in abc:
                g1 = ((((h ^ top) * inv) & 0xffffffff) ^ a) * inv & 0xffffffff
                for b in abc:
                    g2 = (g1 ^ b) * inv & 0xffffffff
                    for x in abc:
                        if (g2 ^ x) in fwd:
                            out.append((s, s + bytes(fwd[g2 ^ x]) + bytes((x, b, a))))
                            break
    return out


def word(rng, n=None):
    return bytes(rng.choice(b"abcxyzAZ_019/. ") for _ in range(rng.randint(0, 9) if n is None else n)) if rng.random() < 0.9 else bytes(rng.randint(1, 255) for _ in range(rng.randint(1, 6)))


def name(rng):
    return bytes(rng.choice(b"abcdefgh_") for _ in range(rng.randint(1, 6)))


def gen_pool(rng, nops, twins):
    out, old = [], [b"", b"a"]
    def s():
        p = rng.random()
        if p < 0.45:
            x = rng.choice(old)
            if rng.random() < 0.3 and x:
                x = x[:rng.randint(0, len(x))]
            return x
        if p < 0.55 and twins:
            return rng.choice(rng.choice(twins))
        x = word(rng)
        old.append(x)
        return x
    for _ in range(nops):
        p = rng.random()
        if p < 0.4:
            out.append(op("sp.make", None, b=[s() if rng.random() < 0.98 else None]))
        elif p < 0.6:
            x = s()
            n = rng.randint(0, len(x))
            o = op("sp.sized", None, b=[x], spec=[n])
            o["line"] = f"sp.sized {hx(x)} {n}"
            out.append(o)
        elif p < 0.7:
            ws = bytes(rng.choice(b" \t\n\v\r\f") for _ in range(rng.randint(0, 3)))
            out.append(op("sp.trim", None, b=[ws + s() + ws if rng.random() < 0.97 else None]))
        elif p < 0.8:
            out.append(op("sp.cat", None, b=[s() for _ in range(rng.randint(2, 3))]))
            if len(out[-1]["b"]) == 2:
                out[-1]["line"] += " -"
        elif p < 0.87:
            n = rng.choice([0, 5, -7, 2147483647, -2147483648, rng.randint(-10**6, 10**6)])
            x, y = s(), s()
            o = op("sp.fmt", None, b=[x, y], spec=[limbs(n)])
            o["line"] = f"sp.fmt {hx(x)} {n} {hx(y)}"
            out.append(o)
        elif p < 0.95:
            out.append(op("sp.join", None, b=[s() for _ in range(rng.randint(2, 3))]))
            if len(out[-1]["b"]) == 2:
                out[-1]["line"] += " -"
        else:
            out.append(op("sp.anon", None, b=[b"%" + name(rng) if rng.random() < 0.8 else None]))
    return out + [op("sp.free", None), op("mp.free", None), op("held", None)]


def gen_sb(rng, nops):
    out, live = [], [False, False]
    for _ in range(nops):
        i = rng.randrange(2)
        if not live[i]:
            out.append(op("sb.new", i)); live[i] = True
            continue
        p = rng.random()
        if p < 0.3:
            x = word(rng, rng.choice([0, 1, 7, 30, 31, 32, 33, 64, 100]) if rng.random() < 0.4 else None)
            out.append(op("sb.str", i, b=[x]))
        elif p < 0.5:
            n = rng.choice([0, -1, 9, 10, -2**63, 2**63 - 1, rng.randint(-2**63, 2**63 - 1), rng.randint(-1000, 1000)])
            out.append(op("sb.int", i, n, spec=[limbs(n)]))
        elif p < 0.6:
            n = rng.choice([0, 2**64 - 1, 10**19, rng.randrange(2**64), rng.randrange(1000)])
            out.append(op("sb.uint", i, n, spec=[limbs(n)]))
        elif p < 0.7:
            out.append(op("sb.bool", i, rng.randrange(2)))
        elif p < 0.9:
            out.append(op("sb.chr", i, rng.choice([1, 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, rng.randint(1, 0x10ffff), rng.randint(32, 126)])))
        elif p < 0.95:
            out.append(op("sb.rel", i))
        elif p < 0.97:
            out.append(op("sb.del", i)); live[i] = False
    for i in (0, 1):
        if live[i]:
            out += [op("sb.rel", i), op("sb.del", i)]
    return out + [op("held", None)]


def gen_mem(rng, nops):
    out, cached, n = [], {0: [], 1: [], 2: []}, 0
    big = rng.random() < 0.5
    for _ in range(nops):
        p = rng.random()
        if p < 0.5:
            sz = rng.choice([0, 1, 8, 15, 16, 17, 100, 1000, 1023, 1024, 1025, 5000]) if big and rng.random() < 0.5 else rng.randint(1, 200)
            out.append(op("mp.alloc", None, sz, rng.randrange(256))); n += 1
        elif p < 0.58:
            out.append(op("mp.track", None, rng.randint(1, 300), rng.randrange(256))); n += 1
        elif p < 0.78:
            k = rng.randrange(3)
            out.append(op("mp.cache", None, k, rng.randrange(256))); cached[k].append(n); n += 1
        elif p < 0.95:
            k = rng.randrange(3)
            if cached[k]:
                out.append(op("mp.back", None, k, cached[k].pop(rng.randrange(len(cached[k])))))
        elif p < 0.985:
            out.append(op("mp.stats", None))
        else:
            out.append(op("mp.reset" if rng.random() < 0.7 else "mp.free", None))
            cached = {0: [], 1: [], 2: []}
    return out + [op("mp.stats", None), op("mp.free", None), op("held", None)]


def short_maps(c, t):
    """Short histories over three keys that collide, from every capacity."""
    import itertools
    rng, out = c.rng, []
    put = "ht.ins" if t == "ht" else "hm.put"
    get = "ht.find" if t == "ht" else "hm.get"
    alpha = [(put, k) for k in range(3)] + [(f"{t}.rm", k) for k in range(3)]
    for seq in itertools.product(alpha, repeat=c.pick(5, 6)):
        out.append(seq)
    out = rng.sample(out, c.pick(700, 12000))
    hists = []
    for seq in out:
        base = rng.randrange(60)
        h = [op("home", None, k, base + rng.randrange(3), spec=[]) for k in range(3)] + [op(f"{t}.new", 0, rng.choice([-1, 0, 2, 3, 7])), op(f"{t}.new", 1, 0)]
        for v, (o, k) in enumerate(seq):
            h.append(op(o, 0, k, v) if o == put else op(o, 0, k))
        h += [op(get, 0, k) for k in range(3)] + [op(f"{t}.all", 0), op(f"{t}.free", 0), op(f"{t}.free", 1), op("held", None)]
        hists.append(h)
    return hists


def check(c):
    c.model_check("ProbeTables", "ProbeTables" if not c.thorough else "ProbeTablesBig")
    exe = build(c)
    rng = c.rng
    hs = []
    for t in ("ht", "hm"):
        hs += short_maps(c, t)
        for _ in range(c.pick(250, 4000)):
            nk = rng.choice([3, 6, 6, 12, 12, 40])
            hs.append(gen_map(rng, t, rng.randint(10, c.pick(120, 300)), nk, rng.choice([-1, -1, 0, 1, 3, 5, 10, 30])))
        for _ in range(c.pick(6, 40)):
            hs.append(gen_map(rng, t, c.pick(600, 2000), 400, -1))
    tw = twins(rng, c.pick(1, 6))
    c.cov["strings with equal hashes"] = len(tw)
    hs += [gen_array(rng, rng.randint(3, 80)) for _ in range(c.pick(200, 3000))]
    hs += [gen_pool(rng, rng.randint(5, 120), tw) for _ in range(c.pick(300, 4000))]
    hs += [gen_sb(rng, rng.randint(5, 60)) for _ in range(c.pick(300, 4000))]
    hs += [gen_mem(rng, rng.randint(5, 150)) for _ in range(c.pick(200, 3000))]
    rng.shuffle(hs)
    judge(c, "CoreTrace", hs, lambda h: run_hist(c, exe, h), label="containers", keyfn=lambda h, recs, k: recs[k]["op"])
