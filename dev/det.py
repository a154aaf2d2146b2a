#!/usr/bin/env python3
"""dev/det.py SIM FROM TO [PROPS..]: run every seed several times at once, with
different environments, and compare everything the run reports."""
import sys, subprocess, json, os, tempfile, concurrent.futures as cf
sim, a, b = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
props = sys.argv[4:] or ["C%02d" % i for i in (1,2,3,5,6,7,8,9,10,11,12,16)]
d = tempfile.mkdtemp()
def one(p, s, k):
    o = f"{d}/{p}.{s}.{k}"
    env = dict(os.environ); env["PAD"] = "x" * (int(os.environ.get("PADN","0")) * k)
    r = subprocess.run([sim, "run", p, str(s), o], capture_output=True, env=env)
    try: t = json.load(open(o))
    except Exception as e: return (r.returncode, "none")
    os.unlink(o)
    for x in ("wall", "wall_s"): t.pop(x, None)
    return (r.returncode, json.dumps(t, sort_keys=True))
bad = n = 0
with cf.ThreadPoolExecutor(8) as ex:
    jobs = {(p, s): [ex.submit(one, p, s, k) for k in range(3)] for p in props for s in range(a, b)}
    for k, v in jobs.items():
        n += 1
        if len({x.result() for x in v}) != 1:
            bad += 1
            print("NONDET", k, flush=True)
print(n, "seeds", bad, "differ")
import shutil; shutil.rmtree(d)
