#!/usr/bin/env python3
"""overlay.py OUT SIMDIR: complete overlay = patched runtime + the storage seam
in fairOS-dfs + the harness as package /repo/cmd/zzsim."""
import glob, json, os, re, sys
R = os.environ.get("VERIF_REPO", "/repo")
out, sim = sys.argv[1], sys.argv[2]
ov = json.load(open(out + "/rt.json"))
F = None
for line in open(R + "/go.mod"):
    w = line.split()
    if "github.com/fairdatasociety/fairOS-dfs" in w:
        v = w[w.index("github.com/fairdatasociety/fairOS-dfs") + 1]
        F = os.environ.get("GOMODCACHE", "/root/go/pkg/mod") + "/github.com/fairdatasociety/fair!o!s-dfs@" + v
if F is None:
    sys.exit("fairOS-dfs not found in go.mod")
s = open(F + "/pkg/dfs/api.go").read()
a = "func NewDfsAPI(ctx context.Context, opts *Options) (*API, error) {\n"
if s.count(a) != 1:
    sys.exit("storage seam: NewDfsAPI not found")
s = s.replace(a, "// SimNewDfsAPI replaces the connection to a bee node (verification build only).\nvar SimNewDfsAPI func(ctx context.Context, opts *Options) (*API, error)\n\n" + a + "\tif SimNewDfsAPI != nil {\n\t\treturn SimNewDfsAPI(ctx, opts)\n\t}\n")
open(out + "/dfsapi.go", "w").write(s)
ov["Replace"][F + "/pkg/dfs/api.go"] = out + "/dfsapi.go"
# The feed cache of fairOS-dfs publishes an entry before it is filled, so that
# readers of one feed can disturb each other. That race is a known finding
# (scenario feed_race); everywhere else the dependency is taken to be free of it.
s = open(F + "/pkg/feed/handler.go").read()
a = "\tif entry == nil {\n\t\tentry = &CacheEntry{}\n\t\terr := h.set(&request.Feed, entry)\n"
if s.count(a) != 1:
    sys.exit("feed cache: updateCache not found")
s = s.replace(a, """	if !SimFeedRace {
		entry = &CacheEntry{}
		entry.lastKey = updateAddr
		entry.Update.ID = request.ID
		entry.data = request.data
		entry.Reader = bytes.NewReader(entry.data)
		return entry, h.set(&request.Feed, entry)
	}
""" + a) + "\n// SimFeedRace leaves the entries of the cache as they are upstream.\nvar SimFeedRace bool\n"
open(out + "/feedhandler.go", "w").write(s)
ov["Replace"][F + "/pkg/feed/handler.go"] = out + "/feedhandler.go"
# how many nodes the index keeps in memory is up to the simulator (1.x of the
# package is used by nothing else)
L = None
for line in open(R + "/go.mod"):
    w = line.split()
    if "github.com/hashicorp/golang-lru" in w:
        L = os.environ.get("GOMODCACHE", "/root/go/pkg/mod") + "/github.com/hashicorp/golang-lru@" + w[w.index("github.com/hashicorp/golang-lru") + 1]
if L is not None:
    s = open(L + "/lru.go").read()
    a = "\t// create a cache with default settings\n"
    if s.count(a) != 1:
        sys.exit("node cache: NewWithEvict not found")
    s = s.replace(a, "\tif SimCap > 0 && size > SimCap {\n\t\tsize = SimCap\n\t}\n" + a)
    s += "\n// SimCap is what the simulator limits the size of a cache to (0: does not).\nvar SimCap int\n"
    open(out + "/lru.go", "w").write(s)
    ov["Replace"][L + "/lru.go"] = out + "/lru.go"
    open(out + "/zlru.go", "w").write("package main\n\nimport lru \"github.com/hashicorp/golang-lru\"\n\nfunc init() { setLRU = func(n int) { lru.SimCap = n } }\n")
    ov["Replace"][R + "/cmd/zzsim/zlru.go"] = out + "/zlru.go"
# The index makes room for 25000 nodes at a time; a few at a time reach the
# same code with few documents.
for f, pat, to in (("maintainance.go", r"(initialSize|minimumIndexGrowthDelta)(\s*=\s*)25000\b", r"\g<1>\g<2>8"), ("pools.go", r"visited\.NewPool\(1, initialSize\s*\+\s*500\)", "visited.NewPool(1, simMarks)")):
    p = R + "/pkg/hnsw/" + f
    if os.path.exists(p) and not os.environ.get("SIM_PLAIN"):
        s = open(p).read()
        t = re.sub(pat, to, s)
        if t != s:
            open(out + "/hnsw_" + f, "w").write(t)
            ov["Replace"][p] = out + "/hnsw_" + f
            if f == "pools.go":
                # the marks of a search are kept for the next one or not,
                # depending on the size; and 512 locks stand for all nodes
                v = open(R + "/pkg/hnsw/vector_cache.go").read() if os.path.exists(R + "/pkg/hnsw/vector_cache.go") else ""
                sh = "\tif shards > 0 {\n\t\tshardFactor = uint64(shards)\n\t}\n" if re.search(r"(?m)^var shardFactor = uint64\(", v) else ""
                open(out + "/hnsw_sim.go", "w").write("package hnsw\n\nvar simMarks = initialSize\n\n// SimLimits sets limits of the index (0: as they are).\nfunc SimLimits(marks, shards int) {\n\tif marks > 0 {\n\t\tsimMarks = marks\n\t}\n" + sh + "}\n")
                ov["Replace"][R + "/pkg/hnsw/zzsim.go"] = out + "/hnsw_sim.go"
                open(out + "/zlimits.go", "w").write("package main\n\nimport \"github.com/fairDataSociety/FaVe/pkg/hnsw\"\n\nfunc init() { setLimits = hnsw.SimLimits }\n")
                ov["Replace"][R + "/cmd/zzsim/zlimits.go"] = out + "/zlimits.go"
# A search keeps 800 candidates unless more are asked for; how many is up to
# the simulator, so that searches for more than that need no 800 documents.
p = R + "/pkg/document/document.go"
if os.path.exists(p):
    s = open(p).read()
    t = re.sub(r"(?m)^(\s*)defaultSearchEF(\s*)=(\s*)(\d+)\s*$", r"\1simSearchEF\2=\3\4", s)
    if t != s and "package document\n" in t and not os.environ.get("SIM_PLAIN"):
        # likewise how many links a node has: pruning of links matters in small
        # collections only if there are few
        u = re.sub(r"(?m)^(\s*MaxConnections:\s*)30,$", r"\1simLinks,", t)
        links = u != t
        t = u
        t += "\nvar simLinks = 30\n\n// SimLinks sets the number of links (0: as it is).\nfunc SimLinks(n int) {\n\tif n > 0 {\n\t\tsimLinks = n\n\t}\n}\n"
        t += "\nvar defaultSearchEF = simSearchEF\n\n// SimSearchEF sets the number of candidates (0: as it is).\nfunc SimSearchEF(n int) {\n\tif n > 0 {\n\t\tdefaultSearchEF = n\n\t}\n}\n"
        open(out + "/document.go", "w").write(t)
        ov["Replace"][p] = out + "/document.go"
        open(out + "/zef.go", "w").write("package main\n\nimport \"github.com/fairDataSociety/FaVe/pkg/document\"\n\nfunc init() { setEF = document.SimSearchEF; setLinks = document.SimLinks; links = %s }\n" % ("true" if links else "false"))
        ov["Replace"][R + "/cmd/zzsim/zef.go"] = out + "/zef.go"
for f in glob.glob(sim + "/*.go"):
    ov["Replace"][R + "/cmd/zzsim/" + os.path.basename(f)] = f
json.dump(ov, open(out + "/all.json", "w"), indent=1)
