"""C24: command lines of the compiler, judged by TLC against specs/CmdLine.tla."""
import glob
from vf import *

OPT = ["warnings-all", "no-color", "without-builtins", "no-pie", "with-mm", "debug", "debug-pass-manager", "no-progress"]
DEVOPT = ["clean-ast", "with-location", "without-attrs", "with-named-enums", "print-ir", "emit-assembly", "emit-bitcode"]
ARR = ["cflags", "c-define", "c-header-dir", "c-lib-dir", "c-lib", "load-pass-plugin"]
STR = ["passes", "stdlib"]
STAGES = ["Parse", "Preprocess", "Shake", "Bind", "ConstCheck", "TypeCheck", "Simplify", "MemoryMgmt", "Lower", "Finalize", "Codegen",
          "Collect", "Compile"]
WARN = ["MissingStage", "UnusedVariable", "RedundantStmt", "CMacroRedefine", "CUnsupportedField", "MaybeUninitialized"]
VERSION = "9.8.7"
BASE = {"x": list(b"-D_XOPEN_SOURCE=1"), "d": list(b"-D_DEFAULT_SOURCE"), "unix": list(b"UNIX"),
        "includes": [list(b"/i/one"), list(b"/i/fortify"), list(b"/i/two")]}


def build(c):
    d = c.scratch("opts")
    exe = os.path.join(d, "opts")
    src = sorted(glob.glob(os.path.join(REPO, "src/cxy/core/*.c"))) + [os.path.join(REPO, "src/cxy/driver/options.c")]
    p = c.run(["gcc", "-g", "-O1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=alignment",
               "-DNO_EXEC_UTIL", f'-DCXY_VERSION="{VERSION}"', "-I", os.path.join(REPO, "src/cxy"), "-I", os.path.join(REPO, "src"),
               "-o", exe, os.path.join(VERIF, "drivers/opts.c")] + src + ["-Wl,--unresolved-symbols=ignore-all"], timeout=200)
    if p.returncode:
        raise CheckError("the command line parser no longer builds with the driver:\n" + p.stderr.decode()[-2000:])
    return exe


def text(rng, lo=1):
    p = rng.random()
    if p < 0.03:
        return "x" * rng.choice([60, 127, 128, 129, 300, 3000])
    if p < 0.12:
        return rng.choice(["{s}", "%s%n", "a b", " lead", "trail ", "a=b", "=", "-x", "--", "--x=y", "é", "[]", "a|b", "~", "\t", "dev", "build"])
    return "".join(rng.choice("abcxyz/._-019") for _ in range(rng.randint(lo, 9)))


def ident(rng):
    return rng.choice("abXY_") + "".join(rng.choice("abXY_019") for _ in range(rng.randint(0, 6)))


def number(rng, good):
    if good:
        n = rng.choice([0, 1, 9, 10, 255, 1000000, rng.randrange(1 << 30)])
        f = rng.choice(["%d", "%d", "%d", "0x%x", "0X%X", "0%o", "+%d", " %d", "-%d", "0x%x"])
        return f % n
    return rng.choice(["", " ", "x", "1x", "0x", "08", "1 ", "0xg", "-", "+-1", "99999999999999999999", "1" * 200, "1.5", "a" * 130, "{s}"])


def warnings(rng, good):
    items = []
    for _ in range(rng.randint(0, 4)):
        w = rng.choice(WARN + ["All", "None"])
        if w != "None" and rng.random() < 0.5:
            w = rng.choice(["~", "~ "]) + w
        items.append(rng.choice(["", "", " "]) + w + rng.choice(["", "", " "]))
    if not good:
        items.insert(rng.randint(0, len(items)), rng.choice(["Unknown", "unusedVariable", "UnusedVariabl", "UnusedVariableX", " ", "~", "0"]))
    s = rng.choice(["|", "|", "||"]).join(items)
    return s + "|" if rng.random() < 0.1 and s else s


def value(rng, kind, good):
    if kind == "int":
        return number(rng, good)
    if kind == "warn":
        return warnings(rng, good)
    if kind == "O":
        return rng.choice("0123ds") if good else rng.choice(["", "4", "z", "12", "O2", "fast", "D", "x" * 140])
    if kind == "def":
        if good:
            return rng.choice(["", "", " "]) + ident(rng) + rng.choice(["", "=", "=" + text(rng, 0), "=a=b", "= x"])
        return rng.choice(["", "1x", "=", "=1", "a b", "a-b=1", "a =1", "-", "é=1", "  ", "9" * 150, "A" * 150 + "-"])
    if kind in ("stage", "dump", "stats"):
        vs = {"stage": STAGES, "dump": ["NONE", "JSON", "YAML", "CXY"], "stats": ["NONE", "SUMMARY", "FULL"]}[kind]
        v = rng.choice(vs)
        return v if good else rng.choice(["", " ", v.lower() + "x", v + "X", v[:-1], v + " ", "_Dump", "x" * 130])
    if kind == "arr":
        return text(rng) if good else ""
    return text(rng, 0)


def line(rng, wild):
    """One command line; wild: how likely something in it is unusual."""
    cmd = rng.choice([None, None, "dev", "build", "build", "test", "help"] if rng.random() < 0.93 else ["", "Build", "run", "versio", "dev "])
    eff = cmd if cmd in ("dev", "build", "test", "help") else "dev"
    flags = [("max-errors", "", "int"), ("warnings", "", "warn"), ("optimization", "O", "O"), ("define", "D", "def"), ("define", "D", "def"), ("dump-stats", "", "stats")]
    flags += [(n, "", "arr") for n in ARR] + [(n, "", "str") for n in STR] + [(n, "g" if n == "debug" else "", "opt") for n in OPT]
    dev = [("last-stage", "", "stage"), ("dump-ast", "", "dump"), ("output", "o", "str")] + [(n, "", "opt") for n in DEVOPT]
    other = [("output", "o", "str"), ("build-dir", "", "str")]
    own = {"dev": dev, "build": other, "test": other[1:], "help": []}[eff]
    args = []
    p_file = rng.choice([0.15, 0.4])
    for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 15])):
        if rng.random() < p_file and (eff != "help" or rng.random() < 0.3):
            args.append(rng.choice(["a.cxy", "b.cxy", text(rng), "build", "test", "-"] if rng.random() < 0.3 + wild else ["main.cxy", "lib/x.cxy"]))
            continue
        n, s, k = rng.choice(own if own and rng.random() < 0.4 else flags)
        good = rng.random() > wild
        if rng.random() < wild / 3:
            n, s, k = rng.choice([(n + "x", "", k), (n[:-1], "", k), ("", "", k), (n.upper(), "", k), ("{s}", "", k), ("n" * 200, "", k),
                                  (n, "z", k), ("last-stage", "", "stage"), ("build-dir", "", "str"), ("output", "o", "str"), (" " + n, "", k)])
        v = value(rng, k, good)
        if k == "opt":
            args.append("-" + s if s and rng.random() < 0.5 else "--" + n)
            if not good:
                args[-1] += rng.choice(["=1", "=", "=true", "x", "1"])
            continue
        form = rng.randrange(2) + (2 if s and rng.random() < 0.6 else 0)
        if form == 0:
            args += ["--" + n, v]
        elif form == 1:
            args.append("--" + n + "=" + rng.choice(["", "", "", "", " "]) + v)
        elif form == 2:
            args += ["-" + s, v]
        else:
            args.append("-" + s + v)
        if form in (0, 2) and rng.random() < wild / 3:
            args.pop()
    if rng.random() < 0.02 + wild / 8:
        args.insert(rng.randint(0, len(args)), rng.choice(["--help", "-h", "--version", "-v"]))
    if rng.random() < 0.1:
        args.insert(rng.randint(0, len(args)), "--")
    if rng.random() < 0.7 and eff != "help":
        args.append("main.cxy")
    if cmd is not None:
        args.insert(0, cmd)
    return args


def hist(rng, wild):
    env = {"os": rng.choice(["__ALPINE__", "__UBUNTU__"]) if rng.random() < 0.2 else None, "lib": "/opt/cxy" if rng.random() < 0.4 else None}
    return {"args": line(rng, wild), "env": env}


def by(s):
    return list(s.encode())


def run_hist(c, exe, h):
    d = c.scratch("run")
    path = os.path.join(d, "in")
    e = h["env"]
    words = ([f"CXY_OS={e['os']}"] if e["os"] else []) + ([f"CXY_STDLIB_DIR={e['lib']}"] if e["lib"] else [])
    with open(path, "w") as f:
        f.write(" ".join(words + [a.encode().hex() or "." for a in h["args"]]) + "\n")
    p = c.run([exe, path], cwd=d, timeout=30, env=c.env(extra={"ASAN_OPTIONS": "detect_leaks=0", "TMPDIR": d}))
    shutil.rmtree(d, ignore_errors=True)
    try:
        out = json.loads(p.stdout)
    except ValueError:
        out = {"end": "crash"}
    if out["end"] == "crash":
        out["note"] = "; ".join(re.findall(r"(ERROR: AddressSanitizer[^\n]*|runtime error[^\n]*)", p.stderr.decode("latin-1")))[:200]
    return [{"args": [by(a) for a in h["args"]], "env": {k: [0] if v is None else by(v) for k, v in e.items()}, "base": BASE,
             "version": VERSION, "out": out}]


def check(c):
    c.model_check("CmdMC", "CmdMC")
    exe = build(c)
    rng = c.rng
    hs = []
    for wild in (0, 0.02, 0.1, 0.3):
        hs += [hist(rng, wild) for _ in range(c.pick(900, 12000))]
    judge(c, "CmdTrace", hs, lambda h: run_hist(c, exe, h), label="command lines", max_viol=2)
    ends = {}
    c.cov["command lines"] = len(hs)
