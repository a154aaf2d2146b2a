#!/usr/bin/env python3
"""dev/feedrace.py SIM: looks for a schedule under which the scenario of the
feed race (findings/feed-race.json) fails again, after a change of the build"""
import json, os, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sim = sys.argv[1]; tmp = tempfile.mkdtemp()
sc = json.load(open(H + "/findings/feed-race.json"))
def run(seed):
    s = json.loads(json.dumps(sc)); s["sched"]["seed"] = seed
    s["sched"]["period"] = [3, 10, 40, 1][seed % 4]
    f = "%s/%d" % (tmp, seed); json.dump(s, open(f, "w"))
    subprocess.run([sim, "replay", f, f + ".o"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    v = json.load(open(f + ".o"))["violations"] if os.path.exists(f + ".o") else None
    for x in (f, f + ".o"):
        if os.path.exists(x): os.unlink(x)
    return s if v and v[0]["class"] == "spurious" else None
with ThreadPoolExecutor(8) as ex:
    for s in ex.map(run, range(1, 4000)):
        if s:
            json.dump(s, open(H + "/findings/feed-race.json", "w")); print("found", s["sched"]); ex.shutdown(cancel_futures=True); break
os.rmdir(tmp) if not os.listdir(tmp) else None
