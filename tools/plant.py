#!/usr/bin/env python3
"""plant.py SPEC.py [SLOT]: confirm a planted bug in a scratch copy of /repo and keep it in /verif/seeded/<ID>/.

SPEC.py defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)...], DEMO (cxy program), EXPECT (its output),
optional FLAGS (compiler flags), RC (exit status), FILES={name: text} beside it, SCRIPT (a whole demo.sh instead).
The copy lives in /tmp/plant/SLOT and is reused; the check is then run against it (VF_REPO)."""
import json, os, shutil, subprocess, sys

spec = {}
exec(open(sys.argv[1]).read(), spec)
slot = sys.argv[2] if len(sys.argv) > 2 else "wt"
wt = f"/tmp/plant/{slot}"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


if not os.path.exists(wt):
    os.makedirs(wt)
    sh(f"git clone -q /repo {wt}")
sh(f"git -C {wt} fetch -q origin; git -C {wt} reset -q --hard $(git -C /repo rev-parse HEAD); git -C {wt} clean -fdq -e _build")
for f, old, new in spec["EDITS"]:
    p = os.path.join(wt, f)
    s = open(p).read()
    assert s.count(old) == 1, (f, old, s.count(old))
    open(p, "w").write(s.replace(old, new))
diff = sh(f"git -C {wt} diff").stdout
os.makedirs("/tmp/plant/bin", exist_ok=True)
for n in ("build.sh", "test.sh"):
    t = open("/opt/vp/" + n).read().replace("/repo", wt).replace("bash /opt/vp/build.sh", f"bash /tmp/plant/bin/build.sh.{slot}")
    open(f"/tmp/plant/bin/{n}.{slot}", "w").write(t)
r = sh(f"bash /tmp/plant/bin/test.sh.{slot} /tmp/plant/bin/out.{slot}.json")
res = json.load(open(f"/tmp/plant/bin/out.{slot}.json"))
missing = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(res["passed"])
print("tests missing:", missing)
if missing:
    print(r.stdout[-1500:], r.stderr[-500:])
    sys.exit(1)
out = os.path.join(V, "seeded", spec["ID"])
shutil.rmtree(out, ignore_errors=True)
os.makedirs(out)
open(out + "/patch.diff", "w").write(diff)
json.dump({"property": spec["PROP"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]},
          open(out + "/meta.json", "w"), indent=1)
script = spec.get("SCRIPT") or '''#!/bin/bash
# Compiles and runs demo.cxy with the compiler and library of the tree in the current directory.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cp "$here"/* "$d"; cd "$d" || exit 2
sa=; setarch x86_64 -R true 2>/dev/null && sa="setarch x86_64 -R"
for i in 1 2 3; do
    timeout 100 $sa "$repo/_build/cxy" build --no-progress --no-color --stdlib "$repo/src/cxy" %s demo.cxy > log 2>&1 && break
done
[ -x app ] || { tail -5 log; exit 1; }
timeout 20 ./app > out 2> err; rc=$?
[ $rc = %d ] || { echo "exit status $rc"; exit 1; }
diff out expected
''' % (spec.get("FLAGS", "--with-mm"), spec.get("RC", 0))
open(out + "/demo.sh", "w").write(script)
if "DEMO" in spec:
    open(out + "/demo.cxy", "w").write(spec["DEMO"])
    open(out + "/expected", "w").write(spec["EXPECT"])
for n, t in spec.get("FILES", {}).items():
    open(os.path.join(out, n), "w").write(t)
a = sh(f"bash {out}/demo.sh", cwd="/repo")
b = sh(f"bash {out}/demo.sh", cwd=wt)
print("demo unchanged:", a.returncode, a.stdout[-600:], a.stderr[-300:])
print("demo patched:", b.returncode, b.stdout[-600:], b.stderr[-300:])
ok = a.returncode == 0 and b.returncode != 0
if not ok:
    shutil.rmtree(out)
    print("NOT KEPT")
    sys.exit(1)
c = sh(f"VF_REPO={wt} python3 checks/run.py {spec['PROP']}", cwd=V)
print("check rc:", c.returncode)
print("\n".join(c.stdout.split("\n")[-6:]))
