#!/usr/bin/env python3
"""dev/plant.py ID [checkprop...]: confirm a planted bug (applies, builds, stable
tests pass, demo both ways) and run the checks on it. Works on /repo, undoes it.
NOCHECK=1: confirm only."""
import sys, os, json, subprocess
id = sys.argv[1]
d = f"/verif/seeded/{id}"
meta = json.load(open(d + "/meta.json"))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean(): return sh("git -C /repo status --short").stdout.strip() == ""
assert clean(), "repo not clean"
for f in ("lib.go", "demo.sh"):
    src = f"/verif/dev/demolib/{f}"
    if not os.path.exists(f"{d}/{f}"): sh(f"cp {src} {d}/{f}")
ok = True
if not os.environ.get("NODEMO"):
    p = sh(f"bash {d}/demo.sh", cwd="/repo"); print("demo clean rc", p.returncode, p.stdout[-200:].strip()); ok &= p.returncode == 0
p = sh(f"git -C /repo apply {d}/patch.diff"); print("apply", p.returncode, p.stdout)
try:
    if not os.environ.get("NODEMO"):
        p = sh("bash /opt/vp/build.sh"); print("build", p.returncode, p.stdout[-500:] if p.returncode else ""); ok &= p.returncode == 0
        sh("bash /opt/vp/test.sh /tmp/plant.json")
        r = json.load(open("/tmp/plant.json")); b = json.load(open("/opt/vp/BASELINE.json"))
        st = b.get("passed") or b.get("stable") or b.get("tests")
        bad = [t for t in st if t not in set(r["passed"])]
        print("stable failing:", bad[:5]); ok &= not bad
        p = sh(f"bash {d}/demo.sh", cwd="/repo"); print("demo patched rc", p.returncode, p.stdout[-400:].strip()); ok &= p.returncode != 0
    print("CONFIRMED" if ok else "NOT OK")
    if ok and not os.environ.get("NOCHECK"):
        for prop in sys.argv[2:] or [meta["property"]]:
            p = sh(f"python3 /verif/check.py {prop} quick", cwd="/verif")
            print("CHECK", prop, "rc", p.returncode); print("\n".join(l[:400] for l in p.stdout.strip().splitlines()[-12:]))
finally:
    sh("git -C /repo checkout -- ."); print("clean", clean())
