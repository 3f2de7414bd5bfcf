"""Shared machinery for the model-based checks (see DESIGN.md)."""
import hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 1)


class CheckError(Exception):
    pass


def _hash_tree(root):
    h = hashlib.sha256()
    paths = []
    for sub in ("src", "cmake", "CMakeLists.txt"):
        p = os.path.join(root, sub)
        if os.path.isfile(p):
            paths.append(p)
        for d, dn, fn in os.walk(p):
            dn.sort()
            for f in sorted(fn):
                paths.append(os.path.join(d, f))
    for p in paths:
        h.update(os.path.relpath(p, root).encode())
        try:
            with open(p, "rb") as f:
                h.update(hashlib.sha256(f.read()).digest())
        except OSError:
            pass
    return h.hexdigest()[:24]


def setarch():
    global _SA
    try:
        return _SA
    except NameError:
        pass
    r = subprocess.run(["setarch", "x86_64", "-R", "true"], capture_output=True)
    _SA = ["setarch", "x86_64", "-R"] if r.returncode == 0 else []
    return _SA


class Check:
    def __init__(self, pid, level):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random(f"{pid}:{self.seed}:{self.tier}")
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix=f"vf-{pid}-")
        self.violations = []
        self.known_hits = []
        self.cov = {}
        self.samples = []
        self.notes = []
        self.known = load_known(pid)
        self._cxy = None
        self._lock = threading.Lock()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print(f"[{self.pid} {time.time()-self.t0:6.1f}s]", *a, flush=True)

    def scratch(self, name=None):
        d = tempfile.mkdtemp(dir=self.tmp, prefix=(name or "s") + "-")
        return d

    # ---------------------------------------------------------------- build
    def build(self):
        """Build cxy (and lex-tester) from the repository's working tree; cached by content."""
        with self._lock:
            return self._cxy or self._build()

    def _build(self):
        key = _hash_tree(REPO)
        base = os.path.join(tempfile.gettempdir(), f"vf-build-cache-{os.getuid()}")
        os.makedirs(base, exist_ok=True)
        out = os.path.join(base, key)
        with open(os.path.join(base, key + ".lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.exists(os.path.join(out, "ok")):
                shutil.rmtree(out, ignore_errors=True)
                bd = tempfile.mkdtemp(dir=self.tmp, prefix="build-")
                env = dict(os.environ, LANG="C.UTF-8", LC_ALL="C.UTF-8")
                env.pop("CXY_OS", None)
                r = subprocess.run(
                    ["cmake", "-S", REPO, "-B", bd, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Debug",
                     "-DLLVM_ROOT_DIR=/usr/lib/llvm-18", "-DCMAKE_C_COMPILER=/usr/bin/clang-18",
                     "-DCMAKE_CXX_COMPILER=/usr/bin/clang++-18"],
                    capture_output=True, text=True, env=env)
                if r.returncode == 0:
                    r = subprocess.run(["ninja", "-C", bd], capture_output=True, text=True, env=env)
                if r.returncode != 0:
                    raise CheckError("build of the repository failed:\n" + (r.stdout + r.stderr)[-3000:])
                os.makedirs(out)
                for n in ("cxy", "lex-tester"):
                    if os.path.exists(os.path.join(bd, n)):
                        shutil.copy2(os.path.join(bd, n), os.path.join(out, n))
                open(os.path.join(out, "ok"), "w").close()
                shutil.rmtree(bd, ignore_errors=True)
        # private copy, so that nothing another run does to the cache matters
        priv = os.path.join(self.tmp, "bin")
        os.makedirs(priv, exist_ok=True)
        for n in ("cxy", "lex-tester"):
            if os.path.exists(os.path.join(out, n)):
                shutil.copy2(os.path.join(out, n), os.path.join(priv, n))
        self._prune(base, key)
        self._cxy = os.path.join(priv, "cxy")
        self.log("compiler built")
        return self._cxy

    def _prune(self, base, key):
        try:
            ds = [d for d in os.listdir(base) if os.path.isdir(os.path.join(base, d)) and d != key]
            ds.sort(key=lambda d: os.path.getmtime(os.path.join(base, d)))
            for d in ds[:-6]:
                shutil.rmtree(os.path.join(base, d), ignore_errors=True)
        except OSError:
            pass

    def env(self, sanitize=False, extra=None):
        env = {k: v for k, v in os.environ.items()
               if k in ("PATH", "HOME", "USER", "TMPDIR", "LOGNAME")}
        env.update(LANG="C.UTF-8", LC_ALL="C.UTF-8", TZ="UTC")
        env.setdefault("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
        if sanitize:
            wd = os.path.join(self.tmp, "wrap")
            if not os.path.exists(wd):
                os.makedirs(wd)
                real = shutil.which("clang") or "/usr/bin/clang"
                w = os.path.join(wd, "clang")
                with open(w, "w") as f:
                    f.write('#!/bin/sh\nfor a in "$@"; do [ "$a" = -E ] && exec %s "$@"; done\n'
                            'exec %s "$@" -fsanitize=address -fno-omit-frame-pointer\n' % (real, real))
                os.chmod(w, 0o755)
            env["PATH"] = wd + ":" + env["PATH"]
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=0"
        if extra:
            env.update(extra)
        return env

    def cxy(self, args, cwd, timeout=120, sanitize=False, input=None, aslr=False, extra_env=None):
        cmd = ([] if aslr else setarch()) + [self.build()] + list(args)
        try:
            return subprocess.run(cmd, cwd=cwd, capture_output=True, timeout=timeout, input=input,
                                  env=self.env(sanitize, extra_env),
                                  stdin=subprocess.DEVNULL if input is None else None)
        except subprocess.TimeoutExpired as e:
            return subprocess.CompletedProcess(cmd, -99, e.stdout or b"", (e.stderr or b"") + b"\nTIMEOUT")

    def compile(self, src_files, main, mm=True, sanitize=False, flags=(), name="drv"):
        """Compile a cxy program in a fresh scratch directory; returns (exe or None, output, dir).
        src_files: {filename: text}."""
        d = self.scratch(name)
        for f, t in src_files.items():
            with open(os.path.join(d, f), "w") as fh:
                fh.write(t)
        args = ["build", "--no-progress", "--no-color", "--stdlib", os.path.join(REPO, "src/cxy")]
        if mm:
            args.append("--with-mm")
        args += list(flags) + [main]
        out = ""
        for attempt in range(2):
            r = self.cxy(args, d, sanitize=sanitize)
            out = (r.stdout + r.stderr).decode("utf-8", "replace")
            exe = os.path.join(d, "app")
            if r.returncode == 0 and os.path.exists(exe):
                return exe, out, d
        return None, out, d

    def driver(self, name, mm=True, sanitize=False, subst=None, flags=()):
        """Compile drivers/<name>.cxy together with the vfh helper."""
        files = {}
        for f in ("vfh.c",):
            files[f] = open(os.path.join(VERIF, "drivers", f)).read()
        t = open(os.path.join(VERIF, "drivers", name + ".cxy")).read()
        t = t.replace("/*@VFH@*/", open(os.path.join(VERIF, "drivers", "vfh.inc")).read())
        for k, v in (subst or {}).items():
            t = t.replace(k, v)
        files[name + ".cxy"] = t
        return self.compile(files, name + ".cxy", mm=mm, sanitize=sanitize, name=name, flags=flags)

    def run(self, cmd, cwd=None, timeout=20, input=None, env=None):
        try:
            p = subprocess.run(cmd, cwd=cwd or self.tmp, capture_output=True, timeout=timeout,
                               input=input, stdin=subprocess.DEVNULL if input is None else None,
                               env=env or self.env())
            return p
        except subprocess.TimeoutExpired as e:
            return subprocess.CompletedProcess(cmd, -99, e.stdout or b"", (e.stderr or b"") + b"\nTIMEOUT")

    def pmap(self, fn, items, n=None):
        with ThreadPoolExecutor(n or NCPU) as ex:
            return list(ex.map(fn, items))

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, env=None, args=(), timeout=800, workers=1, heap="2g", extra=None):
        """Run TLC on specs/<module>.tla (copied to scratch). Returns (rc, output, stats)."""
        d = self.scratch("tlc")
        sd = os.path.join(VERIF, "specs")
        for f in os.listdir(sd):
            shutil.copy2(os.path.join(sd, f), d)
        for f, t in (extra or {}).items():
            with open(os.path.join(d, f), "w") as fh:
                fh.write(t)
        cmd = ["java", "-XX:+UseParallelGC", f"-XX:ParallelGCThreads=2", f"-Xmx{heap}", "-Xss64m", f"-Djava.io.tmpdir={d}", "-cp", TLAJAR,
               "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "md"),
               "-noGenerateSpecTE", "-config", (cfg or module) + ".cfg"] + list(args) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=timeout, env=e,
                               stdin=subprocess.DEVNULL)
            out, rc = p.stdout + p.stderr, p.returncode
        except subprocess.TimeoutExpired as ex:
            out, rc = ((ex.stdout or b"").decode("utf-8", "replace")) + "\nTIMEOUT", -99
        st = {}
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            st = {"generated": int(m.group(1)), "distinct": int(m.group(2))}
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        if m:
            st["depth"] = int(m.group(1))
        shutil.rmtree(d, ignore_errors=True)
        return rc, out, st

    def model_check(self, module, cfg, timeout=800, workers=4, args=(), heap="4g", env=None):
        """Exhaustive TLC run of the specification itself: must succeed."""
        rc, out, st = self.tlc(module, cfg, timeout=timeout, workers=workers, args=args, heap=heap, env=env)
        if rc != 0:
            raise CheckError(f"TLC on the specification {module}/{cfg} failed (rc {rc}):\n{out[-3000:]}")
        self.cov.setdefault("model", []).append({"spec": module, "config": cfg, **st})
        self.log(f"model {module}/{cfg}: {st}")
        return out, st

    def validate(self, module, records, cfg=None, timeout=800, heap="2g", env=None, quiet=False):
        """Trace validation: TLC judges the recorded trace (list of dicts). Returns None when accepted,
        else (index of the first rejected record, TLC output)."""
        d = self.scratch("trace")
        path = os.path.join(d, "trace.ndjson")
        with open(path, "w") as f:
            for r in records:
                f.write(json.dumps(r, separators=(",", ":")) + "\n")
        e = {"TRACE": path}
        e.update(env or {})
        rc, out, st = self.tlc(module, cfg or module, env=e, timeout=timeout, heap=heap)
        m = re.findall(r"TRACE-REJECTED at (\d+)", out)
        self.undef = getattr(self, "undef", 0) + out.count('"UNDEF"')
        if rc == 0 and "TRACE-ACCEPTED" in out and not m:
            shutil.rmtree(d, ignore_errors=True)
            return None
        if m:
            return int(m[0]) - 1, out
        raise CheckError(f"TLC trace check {module} gave no verdict (rc {rc}):\n{out[max(0, out.find("Error:")):][:1500]}\n...\n{out[-1500:]}")

    # ------------------------------------------------------------- verdicts
    def violation(self, what, data=None, key=None):
        """Report a violation, unless `key` names a listed known finding."""
        for k, text in self.known:
            if key is not None and k == key:
                if k not in [h[0] for h in self.known_hits]:
                    self.known_hits.append((k, text))
                return
        self.violations.append((what, data))
        if len(self.violations) <= 6:
            self.log("VIOLATING:", what[:300])

    def finish(self, coverage=None):
        if coverage:
            self.cov.update(coverage)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "wall_s": round(time.time() - self.t0, 1)}
        if self.samples:
            ev.setdefault("coverage", {})["samples"] = self.samples[:5]
        ev["coverage"]["violations"] = [w for w, _ in self.violations][:20]
        ev["coverage"]["known_findings"] = [k for k, _ in self.known_hits]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, text in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {k}: {text}")
        rc = 0
        rd = os.path.join(VERIF, "replays")
        path = os.path.join(rd, f"{self.pid}-{self.tier}-{self.seed}.json")
        if os.path.exists(path):
            os.unlink(path)
        if self.violations:
            os.makedirs(rd, exist_ok=True)
            with open(path, "w") as f:
                json.dump([{"what": w, "data": dd} for w, dd in self.violations[:20]], f, indent=1, default=str)
            for w, _ in self.violations[:3]:
                print("  " + w[:500])
            print(f"VIOLATION property={self.pid} replay={path}")
            rc = 1
        self.log("done rc", rc)
        return rc

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def load_known(pid):
    """known_findings.txt: lines 'KNOWN property=C01 key=<key> <what fails>' / 'fixed: property=... <commit> ...'"""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    return res


def main(pid, level, fn):
    c = Check(pid, level)
    rc = 2
    try:
        fn(c)
        rc = c.finish()
    except CheckError as e:
        print("CHECK-ERROR:", e)
        rc = 2
    finally:
        c.cleanup()
    sys.exit(rc)


# --------------------------------------------------------------- op scripts
def hexs(b):
    if isinstance(b, str):
        b = b.encode("latin-1")
    return "x" + b.hex()


def run_script(c, exe, lines, timeout=20, env=None, cwd=None):
    """Run a vfh driver on op lines. Returns (list of result rows, ending, tail); a row is
    a list of sections (separated by vf_sep), a section a list of tokens; with
    ending in {"ok", "panic", "crash", "hang"}."""
    d = c.scratch("run")
    inp, outp = os.path.join(d, "in"), os.path.join(d, "out")
    with open(inp, "w") as f:
        f.write("\n".join(lines) + "\n")
    e = c.env(extra={"VFH_IN": inp, "VFH_OUT": outp})
    e.update(env or {})
    p = c.run([exe], cwd=cwd or d, timeout=timeout, env=e)
    res = []
    if os.path.exists(outp):
        data = open(outp, "rb").read().decode("latin-1")
        rows = data.split("\n")
        if rows and rows[-1] != "":
            rows = rows[:-1] + [""]      # incomplete last row: dropped
        for row in rows[:-1]:
            secs = [[]]
            for t in row.split():
                if t == "|":
                    secs.append([])
                else:
                    secs[-1].append(_tok(t))
            res.append(secs)
    err = p.stderr
    if p.returncode == 0:
        end = "ok"
    elif p.returncode == -99:
        end = "hang"
    elif b"AddressSanitizer" in err or b"runtime error" in err:
        end = "crash"
    elif p.returncode == -signal.SIGABRT and (b"panic" in err or b"assert" in err or b"panic" in p.stdout or b"assert" in p.stdout):
        end = "panic"
    else:
        end = "crash"
    tail = (err[-600:] + p.stdout[-300:]).decode("latin-1")
    m = re.search(rb"SUMMARY: [^\n]*", err)
    if m:
        tail = m.group(0).decode("latin-1")
        tail = re.sub(r"\S*/app\+0x[0-9a-f]+\)?( \(BuildId[^)]*\))?", "app", tail)
    shutil.rmtree(d, ignore_errors=True)
    return res, end, tail


def _tok(t):
    if t.startswith("x") and re.fullmatch(r"x[0-9a-f]*", t):
        return bytes.fromhex(t[1:]).decode("latin-1")
    if t == "T":
        return True
    if t == "F":
        return False
    return int(t)


def judge(c, module, hists, runner, shards=None, cfg=None, env=None, label="", timeout=800, max_viol=1, keyfn=None,
          heap="2g"):
    """hists: list of inputs; runner(h) executes the real code and returns the recorded trace (list of dicts,
    self-contained: it starts from the model's initial state). Every trace is judged by TLC on specs/<module>.
    A rejected history is executed and judged again on its own before it is reported."""
    t0 = time.time()
    recs = c.pmap(runner, hists)
    t1 = time.time()
    n = max(1, min(shards or NCPU, len(hists)))
    groups = [list(range(i, len(hists), n)) for i in range(n)]

    def shard(ids):
        bad = []
        while ids:
            flat, owner = [], []
            for i in ids:
                flat += recs[i]
                owner += [i] * len(recs[i])
            if not flat:
                break
            v = c.validate(module, flat, cfg=cfg, env=env, timeout=timeout, heap=heap)
            if v is None:
                break
            i = owner[min(v[0], len(owner) - 1)]
            # confirm alone, from a fresh execution
            again = runner(hists[i])
            w = c.validate(module, again, cfg=cfg, env=env, timeout=timeout, heap=heap)
            if w is not None:
                k = min(w[0], len(again) - 1)
                bad.append((i, k, again, "\n".join(re.findall(r'<<\s*"EXPECTED".*?>>\n(?=\S)', w[1] + "\n$", re.S))[:6000]))
            ids = ids[ids.index(i) + 1:]
            if len(bad) >= max_viol:
                break
        return bad

    res = c.pmap(shard, groups, n)
    nrec = sum(len(r) for r in recs)
    for bad in res:
        for i, k, again, exp in bad:
            c.violation(f"{label or module}: history #{i} rejected by {module} at step {k}: {json.dumps(again[k])[:300]}",
                        {"history": hists[i], "step": k, "recorded": again[max(0, k - 3):k + 1], "expected": exp},
                        key=keyfn(hists[i], again, k) if keyfn else None)
    cv = c.cov.setdefault("traces", {})
    e = cv.setdefault(label or module, {"histories": 0, "steps": 0, "rejected": 0})
    e["histories"] += len(hists)
    e["steps"] += nrec
    e["rejected"] += sum(len(b) for b in res)
    e["outside the defined language"] = getattr(c, "undef", 0)
    if recs and recs[0] and len(c.samples) < 5:
        c.samples.append({"history": str(hists[0])[:300], "trace": recs[0][:3]})
    c.log(f"{label or module}: {len(hists)} histories, {nrec} steps, {getattr(c, 'undef', 0)} undefined; ran {t1-t0:.1f}s, judged {time.time()-t1:.1f}s")
