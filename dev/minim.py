#!/usr/bin/env python3
"""dev/minim.py SIM PROP SEED CLASS OUT : minimise what a (broken) build shows
under a seed, for the regression corpus"""
import concurrent.futures as cf, json, os, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
sim, prop, seed, cls, out = sys.argv[1:6]
tmp = tempfile.mkdtemp()
subprocess.check_call([sim, "gen", prop, seed, tmp + "/s.json"])
sc = json.load(open(tmp + "/s.json"))
sc = check.minimise(sim, sc, cls, tmp, time.time() + 120, cf.ThreadPoolExecutor(8))
os.makedirs(os.path.dirname(os.path.abspath(out)), exist_ok=True)
json.dump(sc, open(out, "w"), indent=1)
v, r, t = check.execute([sim, "replay", out, tmp + "/o"], tmp + "/o")
print(v and [x for x in v if x[0] == cls][:1], len(json.dumps(sc)))
