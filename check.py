#!/usr/bin/env python3
"""check.py PROP [quick|thorough]     decide one property on /repo's working tree
check.py replay FILE [trace]          run one replay file, say what it shows

Exit 0: the property held on everything explored. Exit 1 and a VIOLATION line:
it does not. Anything else: the check itself failed and says nothing.
"""
import collections, concurrent.futures as cf, copy, json, os, resource, shutil
import subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(HERE, "out")
RUN_WALL = 150          # seconds after which a single run counts as stuck
RUN_MEM = 9 << 30       # address space of a single run
WORKERS = 8
QUICK_S = float(os.environ.get("VERIF_SEARCH_S", "140"))
THOROUGH_S = float(os.environ.get("VERIF_SEARCH_S", "780"))
T0 = time.time()


def die(msg):
    sys.stdout.flush()
    sys.stderr.write("CHECK-ERROR: %s\n" % msg)
    sys.exit(2)


def build(out):
    p = subprocess.run(["bash", HERE + "/build.sh", out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        die("the simulator does not build from /repo:\n" + p.stdout[-4000:])
    return out + "/sim"


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (RUN_MEM, RUN_MEM))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.setsid()


def execute(args, out):
    """One simulated run in a process of its own. Returns (classes, result,
    text): classes = [(class, message)], None when the run says nothing."""
    try:
        p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=limits, timeout=RUN_WALL)
    except subprocess.TimeoutExpired as e:
        return [("stuck", "the run does not end: no answer and no scheduling progress for %d s" % RUN_WALL)], None, ""
    txt = p.stdout.decode(errors="replace")
    r = None
    if os.path.exists(out):
        try:
            r = json.load(open(out))
        except ValueError:
            r = None
        os.unlink(out)
    rc = p.returncode
    if rc == 0 and r is not None:
        return [], r, txt
    if rc == 3 and r is not None:
        return [(v["class"], v["msg"]) for v in r["violations"]], r, txt
    if rc == 44:
        return [("deadlock", "every goroutine waits for ever: " + tail(txt, "SIM-DEADLOCK"))], None, txt
    if rc == 45:
        return [("livelock", "no end after the permitted number of steps: " + tail(txt, "SIM-STEP-LIMIT"))], None, txt
    if rc == 1:
        return [("start", "the service refuses to start: " + txt[-600:])], None, txt
    if rc == 2 and ("panic:" in txt or "fatal error:" in txt):
        i = min(x for x in (txt.find("panic:"), txt.find("fatal error:")) if x >= 0)
        return [("crash", "the service crashed: " + txt[i:i + 600])], None, txt
    return None, None, "exit %d: %s" % (rc, txt[-1500:])


def tail(txt, mark):
    i = txt.find(mark)
    return txt[i:i + 500]


# ---- minimisation ------------------------------------------------------------

def candidates(sc):
    """Smaller scenarios, biggest steps first."""
    if sc.get("log"):
        yield from log_candidates(sc)
        return
    ph = sc.get("phases") or []
    for i in range(len(ph)):
        if len(ph) > 1:
            c = copy.deepcopy(sc); del c["phases"][i]; yield c
    s = sc["sched"]
    if s.get("policy") or s.get("period"):
        c = copy.deepcopy(sc); c["sched"].update(policy=0, period=0); c["sched"].pop("chg", None); yield c
    if s.get("policy") and s.get("period"):
        c = copy.deepcopy(sc); c["sched"].update(policy=0); yield c
        c = copy.deepcopy(sc); c["sched"].update(period=0); yield c
    for k in ("levels", "lru"):
        if sc.get(k):
            c = copy.deepcopy(sc); del c[k]; yield c
    if s.get("fine"):
        c = copy.deepcopy(sc); del c["sched"]["fine"]; yield c
    if sc.get("lat_max_us"):
        c = copy.deepcopy(sc); c["lat_min_us"] = c["lat_max_us"] = 0; yield c
    for i, p in enumerate(ph):
        for j in range(len(p.get("faults") or [])):
            c = copy.deepcopy(sc); del c["phases"][i]["faults"][j]; yield c
        if p.get("end"):
            c = copy.deepcopy(sc); c["phases"][i]["end"] = ""; yield c
        if p.get("clock_ms"):
            c = copy.deepcopy(sc); c["phases"][i]["clock_ms"] = 0; yield c
        if p.get("audit"):
            c = copy.deepcopy(sc); c["phases"][i]["audit"] = False; yield c
        cl = p["clients"] or []
        for j in range(len(cl)):
            if len(cl) > 1:
                c = copy.deepcopy(sc); del c["phases"][i]["clients"][j]; yield c
        for j, ops in enumerate(cl):
            n = len(ops or [])
            step = max(1, n // 2)
            while step >= 1 and n > 0:
                for k in range(0, n, step):
                    c = copy.deepcopy(sc); del c["phases"][i]["clients"][j][k:k + step]; yield c
                if step == 1:
                    break
                step //= 2
    for i, p in enumerate(ph):
        for j, ops in enumerate(p["clients"] or []):
            for k, op in enumerate(ops or []):
                d = op.get("docs") or []
                for n in range(len(d)):
                    if len(d) > 1:
                        c = copy.deepcopy(sc); del c["phases"][i]["clients"][j][k]["docs"][n]; yield c


def log_candidates(sc):
    lg = sc["log"]
    for key in ("ops", "damage", "steps"):
        n = len(lg.get(key) or [])
        step = max(1, n // 2)
        while n > 0:
            for k in range(0, n, step):
                c = copy.deepcopy(sc); del c["log"][key][k:k + step]; yield c
            if step == 1:
                break
            step //= 2


def minimise(sim, sc, cls, tmp, deadline, pool):
    size = lambda s: len(json.dumps(s))
    def holds(c, n):
        f = "%s/min%d.json" % (tmp, n)
        json.dump(c, open(f, "w"))
        v, _, _ = execute([sim, "replay", f, f + ".out"], f + ".out")
        os.unlink(f)
        return bool(v) and any(k == cls for k, _ in v)
    n = 0
    improved = True
    while improved and time.time() < deadline:
        improved = False
        it = candidates(sc)
        while time.time() < deadline and not improved:
            batch = []
            for c in it:
                batch.append((c, n)); n += 1
                if len(batch) == WORKERS:
                    break
            if not batch:
                break
            for (c, _), ok in zip(batch, pool.map(lambda b: holds(*b), batch)):
                if ok:
                    sc = c; improved = True
                    break
    # the schedule: how many decisions have to be perturbed at all
    if time.time() < deadline and (sc["sched"].get("policy") or sc["sched"].get("period")):
        lo, hi = 0, 1 << 22
        for _ in range(22):
            if time.time() > deadline or lo >= hi:
                break
            mid = (lo + hi) // 2
            c = copy.deepcopy(sc); c["sched"]["limit"] = mid
            n += 1
            if holds(c, n):
                sc, hi = c, mid
            else:
                lo = mid + 1
    return sc


# ---- the check ----------------------------------------------------------------

def known(prop):
    f = json.load(open(HERE + "/known-findings.json"))
    return [k for k in f["findings"] if k["property"] == prop]


def run_check(prop, tier):
    props = {}
    for line in open(HERE + "/properties.jsonl"):
        if line.strip():
            p = json.loads(line); props[p["id"]] = p
    if prop not in props:
        die("unknown property " + prop)
    seed0 = int(os.environ.get("VERIF_SEED", "1"))
    budget = QUICK_S if tier == "quick" else THOROUGH_S
    os.environ.pop("SIM_BIG", None)
    if tier != "quick":
        os.environ["SIM_BIG"] = "1"
    tmp = tempfile.mkdtemp(prefix="verif-")
    try:
        return search(prop, props[prop], tier, seed0, budget, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def search(prop, spec, tier, seed0, budget, tmp):
    tb = time.time()
    sim = build(tmp)
    build_s = time.time() - tb
    pool = cf.ThreadPoolExecutor(WORKERS)
    ev = {"known": []}

    # known findings: replayed, reported, never suppressed elsewhere
    for k in known(prop):
        f = os.path.join(HERE, k["scenario"])
        v, r, txt = execute([sim, "replay", f, tmp + "/known.out"], tmp + "/known.out")
        hit = bool(v) and any(c == k["class"] for c, _ in v)
        ev["known"].append({"id": k["id"], "still_fails": hit})
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        else:
            print("note: known finding %s no longer shows" % k["id"])
    sys.stdout.flush()

    t1 = time.time()
    stop = t1 + budget
    lock = threading.Lock()
    nxt = [0]
    bad, errs = [], []
    agg = collections.Counter(); calls = collections.Counter(); fires = collections.Counter(); stats = collections.Counter()
    hashes, states, samples = set(), set(), []
    det = [0, 0]
    corpus = sorted(os.path.join(HERE, "corpus", prop, f) for f in (os.listdir(os.path.join(HERE, "corpus", prop)) if os.path.isdir(os.path.join(HERE, "corpus", prop)) else []))

    def job():
        while True:
            with lock:
                if bad or len(errs) > 3:
                    return
                n = nxt[0]
                if n >= len(corpus) and time.time() > stop:
                    return
                nxt[0] += 1
            o = "%s/r%d" % (tmp, n)
            if n < len(corpus):
                seed = None
                shutil.copy(corpus[n], o + ".scn")
                args = [sim, "replay", o + ".scn", o]
            else:
                seed = seed0 * 1000000 + n - len(corpus)
                args = [sim, "run", prop, str(seed), o]
            v, r, txt = execute(args, o)
            if v is None:
                with lock:
                    errs.append("seed %s: %s" % (seed, txt))
                continue
            if v:
                sc = json.load(open(o + ".scn"))
                with lock:
                    bad.append((n, seed, v, sc, txt))
                return
            again = None
            if n % 97 == 3:
                _, again, _ = execute([sim, "replay", o + ".scn", o], o)
            with lock:
                agg["runs"] += 1
                for k in ("requests", "steps", "preempts", "jumps", "crashes", "boots"):
                    agg[k] += r.get(k, 0)
                agg["sim_ns"] += r["sim_ns"]
                calls.update(r.get("calls") or {}); fires.update(r.get("fires") or {}); stats.update(r.get("stats") or {})
                hashes.add(r["hash"])
                if r.get("nontrivial", True):
                    states.add(r["state"])
                if again is not None:
                    det[0] += 1
                    det[1] += again["hash"] == r["hash"] and again["state"] == r["state"]
                if len(samples) < 3:
                    sc = json.load(open(o + ".scn"))
                    samples.append(sketch(sc, r))
            os.unlink(o + ".scn")

    list(pool.map(lambda _: job(), range(WORKERS)))
    wall = time.time() - t1
    vio = []
    if bad:
        bad.sort(key=lambda b: b[0])
        for n, seed, v, sc, txt in bad[:3]:
            f = tmp + "/confirm.json"
            json.dump(sc, open(f, "w"))
            v2, _, txt2 = execute([sim, "replay", f, f + ".out"], f + ".out")
            same = [c for c, _ in v2 or [] if c in [c for c, _ in v]]
            if not same:
                errs.append("seed %s: %s does not show again on replay" % (seed, v[0][0]))
                continue
            cls = same[0]
            mdl = time.time() + (90 if tier == "quick" else 300)
            small = minimise(sim, sc, cls, tmp, mdl, pool)
            json.dump(small, open(f, "w"))
            v3, r3, _ = execute([sim, "replay", f, f + ".out", "trace"], f + ".out")
            if not v3 or not any(c == cls for c, _ in v3):
                small, v3, r3 = sc, v2, None
            msg = [m for c, m in v3 if c == cls][0]
            os.makedirs(OUT, exist_ok=True)
            path = os.path.join(OUT, "%s-%s.json" % (prop, seed if seed is not None else "corpus%d" % n))
            small["violation"] = {"property": prop, "class": cls, "message": msg, "found_by_seed": seed,
                                  "trace": (r3 or {}).get("trace")}
            json.dump(small, open(path, "w"), indent=1)
            print("%s: %s" % (cls, msg.strip()[:1500]))
            print("seed=%s (replay: python3 %s/check.py replay %s)" % (seed, HERE, path))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            sys.stdout.flush()
            vio.append({"class": cls, "message": msg[:500], "seed": seed, "replay": path})
            break
    evidence(prop, spec, tier, seed0, agg, calls, fires, stats, hashes, states, samples, det, wall, build_s, vio, errs, ev, len(corpus))
    if vio:
        return 1
    if errs:
        die("; ".join(errs)[:4000])
    if agg["runs"] == 0:
        die("no run finished")
    print("%s %s: %d runs, %d requests, %.0f s simulated, no violation" % (prop, tier, agg["runs"], agg["requests"], agg["sim_ns"] / 1e9))
    return 0


def sketch(sc, r):
    s = {"seed": sc["seed"], "sched": sc["sched"], "steps": r["steps"], "preemptions": r["preempts"], "requests": r["requests"],
         "crashes": r["crashes"], "faults_fired": r.get("fires"), "simulated_s": r["sim_ns"] / 1e9}
    ph = []
    for p in sc.get("phases") or []:
        ph.append({"clients": [[o["k"] for o in c or []] for c in p["clients"] or []],
                   "faults": p.get("faults"), "end": p.get("end")})
    if ph:
        s["phases"] = ph
    if sc.get("log"):
        s["log"] = {k: (len(v) if isinstance(v, list) else v) for k, v in sc["log"].items()}
    return s


SERVER_REAL = ["REST handlers, validation and routing", "document store", "HNSW index, caches and search", "vectorizer client",
               "fairOS-dfs pods, key-value and document stores, feeds (pinned dependency)", "Go standard library incl. sync, context, time"]
SERVER_STUB = ["Swarm storage (in-memory store behind the storage client interface)", "ENS (mock of the dependency)",
               "vectorizer service (behind the HTTP transport)", "sockets (requests enter at the HTTP handler)", "clock, goroutine scheduler, randomness (simulated)"]
LOG_REAL = ["commit logger, combiner, condensor, corruption fixer, deserializer, index start-up from its log", "files in a scratch directory"]
LOG_STUB = ["process death (files cut or damaged between runs)", "object store the index keeps its nodes in", "clock, goroutine scheduler, randomness (simulated)"]


def evidence(prop, spec, tier, seed0, agg, calls, fires, stats, hashes, states, samples, det, wall, build_s, vio, errs, ev, ncorpus):
    log = prop in ("C13", "C14")
    n = max(agg["runs"], 0)
    e = {
        "property": prop, "tier": tier, "seed": seed0, "level": "exploration",
        "coverage": {
            "evaluations": n,
            "distinct_nontrivial": len(states),
            "rule": "one run = one seed = one scenario (requests of concurrent clients, faults, crashes, restarts) executed under one schedule; "
                    "distinct = different hash over every request, its answer, its order and its simulated duration; a run with no judged answer is not counted",
            "samples": samples,
            "distinct_schedules": len(hashes),
            "distinct_schedules_measure": "hash over every scheduling decision with more than one runnable goroutine",
            "scheduling_decisions": agg["steps"], "preemptions_injected": agg["preempts"],
            "requests_judged": agg["requests"], "verdicts": dict(stats),
            "simulated_seconds": round(agg["sim_ns"] / 1e9, 1), "clock_jumps": agg["jumps"],
            "process_crashes": agg["crashes"], "process_starts": agg["boots"],
            "faults_injected": dict(fires), "external_calls": dict(calls),
            "seeds_per_hour": int(n / wall * 3600) if wall else 0, "runs_per_hour": int(n / wall * 3600) if wall else 0,
            "replayed_for_determinism": det[0], "replays_identical": det[1],
            "regression_scenarios": ncorpus,
            "real_components": LOG_REAL if log else SERVER_REAL, "stubbed_components": LOG_STUB if log else SERVER_STUB,
            "known_findings": ev["known"],
        },
        "wall_s": round(time.time() - T0, 1), "search_s": round(wall, 1), "build_s": round(build_s, 1),
        "assumptions": ["see DESIGN.md, fault model"],
        "violations": len(vio), "violation_details": vio, "errors": errs[:5],
    }
    os.makedirs(HERE + "/evidence", exist_ok=True)
    json.dump(e, open("%s/evidence/%s.json" % (HERE, prop), "w"), indent=1)


def replay(path, trace):
    tmp = tempfile.mkdtemp(prefix="verif-")
    try:
        sim = build(tmp)
        v, r, txt = execute([sim, "replay", path, tmp + "/o"] + (["trace"] if trace else []), tmp + "/o")
        if v is None:
            die(txt)
        if trace and r:
            for t in r.get("trace") or []:
                print(t)
        for c, m in v:
            print("%s: %s" % (c, m.strip()))
        if v:
            print("VIOLATION property=%s replay=%s" % (json.load(open(path))["prop"], path))
            return 1
        print("no violation")
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    if len(sys.argv) < 2:
        die(__doc__)
    if sys.argv[1] == "replay":
        sys.exit(replay(os.path.abspath(sys.argv[2]), len(sys.argv) > 3))
    sys.exit(run_check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
