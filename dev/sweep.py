#!/usr/bin/env python3
"""dev/sweep.py SIM PROP FROM TO : run seeds, summarise (development aid)"""
import sys, os, json, subprocess, collections, tempfile, time
from concurrent.futures import ThreadPoolExecutor
sim, prop, a, b = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
tmp = tempfile.mkdtemp()
def run(s):
    o = f"{tmp}/{s}.json"
    p = subprocess.run([sim, "run", prop, str(s), o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
    r = None
    if os.path.exists(o):
        r = json.load(open(o)); os.unlink(o); os.unlink(o+".scn")
    return s, p.returncode, r, p.stdout
t=time.time(); mx=[]
cls = collections.defaultdict(list); tot=collections.Counter(); st=collections.Counter(); fi=collections.Counter()
with ThreadPoolExecutor(8) as ex:
    for s, rc, r, out in ex.map(run, range(a,b)):
        tot[rc]+=1
        if r is None:
            txt=out.decode(errors="replace")
            i=max(txt.find("panic:"),txt.find("fatal error"),txt.find("SIM-"),txt.find("Error creating"))
            cls["EXIT%d"%rc].append((s,txt[i:i+1500] if i>=0 else txt[-600:]))
            continue
        for k,v in (r.get("stats") or {}).items(): st[k]+=v
        for k,v in (r.get("fires") or {}).items(): fi[k]+=v
        mx.append((r["steps"],s)); st["crashes"]+=r["crashes"]; st["requests"]+=r["requests"]
        seen=set()
        for v in r["violations"] or []:
            if v["class"] not in seen:
                seen.add(v["class"]); cls[v["class"]].append((s,v["msg"]))
mx.sort(); print("steps max",mx[-3:])
print("runs",dict(tot),"wall %.1f"%(time.time()-t)); print(dict(st)); print(dict(fi))
for c,l in sorted(cls.items()):
    print("==",c,len(l))
    for s,m in l[:int(os.environ.get("SHOW","3"))]: print("   seed",s,m[:int(os.environ.get("W","420"))])
